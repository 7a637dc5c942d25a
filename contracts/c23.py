"""C23"""
from contracts.util import *
from pyvc.lib import LEVELS
from pyvc.values import *

CONTRACTS = ['setup', 'unknown', 'verbose']
STANDARD = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']


def ghost(vc, attached):
    """the package logger: any level, no or one handler attached"""
    I = vc.I
    hs = I.alloc(vc.st, LVal(None, items=[Opaque('id:old')] if attached else []))
    lg = I.alloc(vc.st, OVal('Logger', {'level': vc.int('level0', 0), 'handlers': hs, 'name': 'dorado', 'disabled': False, 'propagate': True,
                                        **{m: Opaque('LOGGER.' + m) for m in ('setLevel', 'addHandler', 'removeHandler', 'hasHandlers', 'getEffectiveLevel')}}))
    I.ghosts['LOGGER'] = lg
    I.ext['logging.getLogger'] = lambda I, st, a, k: Opaque('LOGGER') if a and a[0] == 'dorado' else Opaque('other logger')
    I.ext['logging.StreamHandler'] = lambda I, st, a, k: Opaque('id:new%d' % len(made.append(1) or made))
    made = []

    def set_level(I, st, a, k):
        x = a[0] if a else k['level']
        if isinstance(x, str):
            if x not in LEVELS:
                from pyvc.interp import PyRaise
                raise PyRaise('ValueError', 'level')
            x = LEVELS[x]
        if isinstance(x, SName):
            for n in sorted(LEVELS):
                if I.choose(st, x.eq(n)):
                    x = LEVELS[n]
                    break
            else:
                from pyvc.interp import PyRaise
                raise PyRaise('ValueError', 'level')
        if not (isinstance(x, int) or isz(x)):
            raise Unsupported('level that is neither a number nor a name')
        I.set_attr(lg, 'level', x, st)

    def items(I, st):
        h = I.content(st, I.get_attr(lg, 'handlers', st))
        if not isinstance(h, LVal) or h.items is None:
            raise Unsupported('handlers')
        return list(h.items)

    def put(I, st, xs):
        r = I.get_attr(lg, 'handlers', st)
        st.heap[r.cid] = LVal(None, items=xs)

    def add(I, st, a, k):
        xs = items(I, st)
        h = I.force(a[0] if a else k['hdlr'], st)
        if not any(same(h, x) for x in xs):
            put(I, st, xs + [h])

    def remove(I, st, a, k):
        put(I, st, [x for x in items(I, st) if not same(a[0], x)])

    def same(x, y):
        if not (isinstance(x, Opaque) and isinstance(y, Opaque) and x.tag.startswith('id:') and y.tag.startswith('id:')):
            raise Unsupported('handler of unknown identity')
        return x.tag == y.tag
    I.ext['LOGGER.setLevel'] = set_level
    I.ext['LOGGER.addHandler'] = add
    I.ext['LOGGER.removeHandler'] = remove
    I.ext['LOGGER.hasHandlers'] = lambda I, st, a, k: True if items(I, st) else I.fresh(st, 'hasHandlers', z3.BoolSort())[0]
    I.ext['LOGGER.getEffectiveLevel'] = lambda I, st, a, k: I.get_attr(lg, 'level', st)
    return lg


def state(vc, s, lg):
    o = vc.val(s, lg)
    h = vc.val(s, o.attrs['handlers'])
    if not isinstance(h, LVal) or h.items is None or not all(isinstance(x, Opaque) and x.tag.startswith('id:') for x in h.items):
        raise Unsupported('handlers')
    return o.attrs['level'], [x.tag for x in h.items]


def handlers_ok(vc, s, hs, attached, given, what):
    vc.prove(what + ': exactly one handler is attached', s, len(hs) == 1)
    if attached:
        vc.prove(what + ': the attached handler stays', s, hs[:1] == ['id:old'])
    elif given:
        vc.prove(what + ': the given handler is the one used', s, hs[:1] == ['id:given'])


def setup(vc):
    for attached in (False, True):
        for given in (False, True):
            for name in STANDARD:
                vc.st = fresh_state()
                lg = ghost(vc, attached)
                args = [SName(name)] + ([Opaque('id:given')] if given else [])
                outs = vc.run('logging_config', 'setup_logging', args)
                vc.no_raise(outs)
                what = '%s, %s handler before, %s given' % (name, 'one' if attached else 'no', 'one' if given else 'none')
                for _, s, r in vc.returns(outs):
                    lv, hs = state(vc, s, lg)
                    vc.prove(what + ': level', s, Z(lv) == LEVELS[name])
                    handlers_ok(vc, s, hs, attached, given, what)


def fresh_state():
    from pyvc.interp import State
    return State()


def unknown(vc):
    for attached in (False, True):
        for given in (False, True):
            vc.st = fresh_state()
            lg = ghost(vc, attached)
            l0 = z3.Int('level0')
            outs = vc.run('logging_config', 'setup_logging', [SName(None, LEVELS)] + ([Opaque('id:given')] if given else []))
            what = '%s handler before, %s given' % ('one' if attached else 'no', 'one' if given else 'none')
            for k, s, v in outs:
                if k != 'raise':
                    vc.prove(what + ': an unknown level is not accepted', s, False)
                else:
                    if v.exc != 'ValueError':
                        vc.prove(what + ': no %s' % v.exc, s, False)
                    lv, hs = state(vc, s, lg)
                    vc.prove(what + ': level unchanged', s, Z(lv) == l0)
                    vc.prove(what + ': handlers unchanged', s, hs == (['id:old'] if attached else []))
            vc.flag('some outcome', bool(outs))


def verbose(vc):
    for attached in (False, True):
        for v in (True, False, None):
            vc.st = fresh_state()
            lg = ghost(vc, attached)
            outs = vc.run('logging_config', 'handle_verbose_deprecation', [v])
            vc.no_raise(outs)
            what = 'verbose=%r, %s handler before' % (v, 'one' if attached else 'no')
            for _, s, r in vc.returns(outs):
                lv, hs = state(vc, s, lg)
                ws = [e for e in s.events if e.kind == 'warn']
                if any(e.binders for e in ws):
                    raise Unsupported('warning in a loop')
                if v is None:
                    vc.prove(what + ': level unchanged', s, Z(lv) == z3.Int('level0'))
                    vc.prove(what + ': handlers unchanged', s, hs == (['id:old'] if attached else []))
                    vc.prove(what + ': no warning', s, not ws)
                else:
                    vc.prove(what + ': level', s, Z(lv) == (20 if v else 40))
                    handlers_ok(vc, s, hs, attached, False, what)
                    vc.prove(what + ': one DeprecationWarning', s, len(ws) == 1 and ws[0].payload['cat'] == 'DeprecationWarning')
