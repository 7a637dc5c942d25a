from common import *
import logging.handlers
import dorado.logging_config as lc

LV = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}


def mixcase(rng, s):
    return ''.join(rng.choice([ch.lower(), ch.upper()]) for ch in s)


def cases(rng, tier):
    for k in range(150 if tier == 'quick' else 1500):
        ops = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < .5:
                ops.append(['setup', mixcase(rng, rng.choice(sorted(LV))), rng.random() < .4])
            elif r < .65:
                ops.append(['bad', rng.choice(['foo', '', 'verbose', 'infoo', '_styles', 'basic_format', 'DEBUG ', 'root', 'logger', 'handler', 'lastresort', '10', 'filter', 'formatter', 'Handler', 'level', 'lock']), rng.random() < .4])
            else:
                ops.append(['verb', rng.choice([True, False, None])])
        yield dict(kind='ops', ops=ops, root=rng.random() < .3, hk=rng.choice(['stream', 'null', 'mem']))


def mk(kind):
    if kind == 'null':
        return logging.NullHandler()
    if kind == 'mem':
        return logging.handlers.MemoryHandler(10)
    return logging.StreamHandler(io.StringIO())


def run(c):
    lg = logging.getLogger('dorado')
    saved = (lg.level, list(lg.handlers))
    root = logging.getLogger()
    mine = logging.NullHandler()
    try:
        if c.get('root'):
            root.addHandler(mine)          # the application has its own handler
        for h in list(lg.handlers):
            lg.removeHandler(h)
        lg.setLevel(0)
        first = None
        for o in c['ops']:
            lv, hs = lg.level, list(lg.handlers)
            if o[0] == 'setup':
                h = mk(c.get('hk')) if o[2] else None
                lc.setup_logging(o[1], h) if h else lc.setup_logging(o[1])
                need(lg.level == LV[o[1].upper()], "C23 level %r set the logger to %r" % (o[1], lg.level))
                need(len(lg.handlers) == 1, "C23 %d handlers attached" % len(lg.handlers))
                if hs:
                    need(lg.handlers == hs, "C23 the handler was replaced")
                elif h:
                    need(lg.handlers[0] is h, "C23 the given handler is not the one used")
            elif o[0] == 'bad':
                try:
                    lc.setup_logging(o[1], logging.StreamHandler(io.StringIO())) if o[2] else lc.setup_logging(o[1])
                except ValueError:
                    need(lg.level == lv and lg.handlers == hs, "C23 a rejected level changed the logger")
                    continue
                except Exception as e:
                    raise Bad("C23 unknown level %r raised %r" % (o[1], e))
                raise Bad("C23 unknown level %r accepted" % o[1])
            else:
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter('always')
                    lc.handle_verbose_deprecation(o[1])
                dw = [w for w in ws if issubclass(w.category, DeprecationWarning)]
                if o[1] is None:
                    need(not ws and lg.level == lv and lg.handlers == hs, "C23 verbose=None had an effect")
                else:
                    need(len(dw) == 1, "C23 verbose=%r gave %d DeprecationWarnings" % (o[1], len(dw)))
                    need(lg.level == (20 if o[1] else 40), "C23 verbose=%r set level %r" % (o[1], lg.level))
                    need(len(lg.handlers) == 1, "C23 %d handlers attached" % len(lg.handlers))
    finally:
        root.removeHandler(mine)
        for h in list(lg.handlers):
            lg.removeHandler(h)
        for h in saved[1]:
            lg.addHandler(h)
        lg.setLevel(saved[0])
