"""runner.py PROP TIER SEED BUDGET_S OUT.json   -- seeded run-time contract checks under CPython
   runner.py --replay FILE                       -- re-run one recorded case (exit 1 when it still fails)"""
import sys, os, json, time, random, traceback, importlib, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def nontrivial(c):
    return True


def run_case(mod, case):
    """(status, message): 'ok' | 'known' | 'bad'"""
    import common
    try:
        r = mod.run(case)
        if isinstance(r, str) and r.startswith('KNOWN:'):
            return 'known', r[6:]
        return 'ok', ''
    except common.Bad as e:
        return 'bad', str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if '/dorado/' in f.filename]
        where = ' in %s line %d' % (os.path.basename(last[-1].filename), last[-1].lineno) if last else ''
        if not last:
            if isinstance(e, (AttributeError, ImportError)) and 'dorado' in str(e):
                return 'ok', 'skipped: %s' % e          # an internal name this case uses is not there
            if isinstance(e, (MemoryError, OSError)) and not isinstance(e, FileNotFoundError):
                return 'error', 'raised %s: %s' % (type(e).__name__, e)
            return 'bad', 'the result cannot be used: %s: %s' % (type(e).__name__, e)
        return 'bad', 'raised %s: %s%s' % (type(e).__name__, e, where)


def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        case = d['case']
        mod = importlib.import_module(d['property'].lower())
        st, msg = run_case(mod, case)
        print('%s: %s %s' % (d['property'], st, msg))
        sys.exit(1 if st == 'bad' else 0)
    prop, tier, seed, budget, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    t0 = time.time()
    res = dict(property=prop, evaluations=0, distinct=0, kinds={}, bad=[], known={}, errors=[], samples=[])
    try:
        mod = importlib.import_module(prop.lower())
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any('/dorado/' in f.filename for f in tb):
            res['bad'].append(dict(case=None, message='importing the package raised %r' % e))
        else:
            res['errors'].append(repr(e))
        json.dump(res, open(out, 'w'))
        return
    rng = random.Random('%s/%d' % (prop, seed))
    seen = set()

    class TO(Exception):
        pass

    def onalarm(*a):
        raise TO()
    signal.signal(signal.SIGALRM, onalarm)
    for case in mod.cases(rng, tier):
        if time.time() - t0 > budget:
            res['stopped'] = 'time budget'
            break
        key = json.dumps(case, sort_keys=True, default=str)
        signal.alarm(60)
        try:
            st, msg = run_case(mod, json.loads(key))
        except TO:
            st, msg = 'bad', 'no result within 60 s'
        finally:
            signal.alarm(0)
        res['evaluations'] += 1
        res['kinds'][case.get('kind', '?')] = res['kinds'].get(case.get('kind', '?'), 0) + 1
        h = hash(key)
        if h not in seen:
            seen.add(h)
            res['distinct'] += 1
        if len(res['samples']) < 2:
            res['samples'].append(key[:1500])
        if st == 'known':
            res['known'].setdefault(msg, key[:3000])
        elif st == 'error':
            res['errors'].append(msg)
            if len(res['errors']) > 3:
                break
        elif st == 'bad':
            res['bad'].append(dict(case=json.loads(key), message=msg))
            if len(res['bad']) >= 2:
                break
    res['wall_s'] = time.time() - t0
    json.dump(res, open(out, 'w'))


if __name__ == '__main__':
    main()
