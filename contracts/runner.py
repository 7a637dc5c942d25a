"""python3-vt -m contracts.runner PROP TIER OUT.json : generate and discharge the obligations of one property's contracts.

Each contract (one function of contracts/cXX.py taking a VC) runs in a forked process with its own time limit, so one
undecided contract cannot hide another."""
import signal, sys, os, json, time, importlib, traceback, multiprocessing as mp, resource

ROOT = os.environ.get('DORADO_ROOT', '/repo/dorado')
LIMIT = dict(quick=240, thorough=700)


class TimeUp(BaseException):
    pass


def on_alarm(*a):
    raise TimeUp()


def one(mod, name, q, limit):
    from pyvc.vc import VC
    from pyvc import terms as T
    t0 = time.time()
    res = dict(contract=name, obligations=[], undecided=None, called=[], assumptions=[], time=0.0)
    f = getattr(mod, name)
    vc = None
    import threading, _thread

    def flush():
        res['time'] = time.time() - t0
    try:
        vc = VC(ROOT)
        vc.sink = lambda: None
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, max(5, limit - 5))
        f(vc)
        vc.discharge_loops()
        signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeUp:
        res['undecided'] = 'time limit of %d s' % limit
    except T.Unsupported as e:
        res['undecided'] = 'outside the supported subset: %s' % (e,)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res['undecided'] = 'engine: %s: %s at %s' % (type(e).__name__, e, '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno))
        if os.environ.get('PYVC_TRACE'):
            traceback.print_exc()
    if vc is not None:
        for o in vc.obs:
            res['obligations'].append(dict(name=o.name, fn=o.fn, status=o.status, backend=o.backend, time=round(o.time, 3), note=o.note[:600]))
        res['called'] = sorted(vc.I.called)
        res['assumptions'] = sorted(vc.assumptions)
        res['trusted'] = sorted(getattr(vc.I, 'trusted', set()))
    res['time'] = round(time.time() - t0, 2)
    res['maxrss_mb'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    q.send(res)
    q.close()


def main():
    prop, tier, out = sys.argv[1:4]
    only = sys.argv[4:]
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('contracts.' + prop.lower())
    names = [n for n in mod.CONTRACTS if not only or n in only]
    ctx = mp.get_context('fork')
    pend = list(names)
    run = {}
    done = []
    jobs = int(os.environ.get('PYVC_JOBS', '6'))
    limit = float(os.environ.get('PYVC_LIMIT', LIMIT[tier]))
    t0 = time.time()
    seen = 0
    while pend or run:
        if len(done) != seen:
            seen = len(done)
            json.dump(done, open(out + '.part', 'w'), indent=1)
        while pend and len(run) < jobs:
            n = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=one, args=(mod, n, w, limit))
            p.start()
            w.close()
            run[n] = (p, r, time.time())
        for n, (p, r, ts) in list(run.items()):
            if r.poll(0.02):
                try:
                    done.append(r.recv())
                except EOFError:
                    done.append(dict(contract=n, obligations=[], undecided='the verifier process ended', called=[], assumptions=[], time=round(time.time() - ts, 2)))
                p.join()
                del run[n]
            elif time.time() - ts > limit or time.time() - t0 > limit + 60:
                p.kill()
                p.join()
                done.append(dict(contract=n, obligations=[], undecided='time limit of %d s' % limit, called=[], assumptions=[], time=round(time.time() - ts, 2)))
                del run[n]
    done.sort(key=lambda d: names.index(d['contract']))
    json.dump(done, open(out, 'w'), indent=1)
    if os.path.exists(out + '.part'):
        os.unlink(out + '.part')
    if os.environ.get('PYVC_SHOW'):
        for d in done:
            print('==', d['contract'], d['time'], 's', d.get('maxrss_mb'), 'MB', d['undecided'] or '')
            for o in d['obligations']:
                if os.environ['PYVC_SHOW'] == '2' or o['status'] != 'ok':
                    print('   %-8s %6.2fs %-10s %s %s' % (o['status'], o['time'], o['backend'], o['name'], o['note'] if o['status'] != 'ok' else ''))
            print('   ', sum(o['status'] == 'ok' for o in d['obligations']), '/', len(d['obligations']))


if __name__ == '__main__':
    main()
