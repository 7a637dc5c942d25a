#!/usr/bin/env python3
"""mut.py PROP FILE 'old' 'new' [old new ...]: runs the contracts of PROP against a copy of /repo/dorado with the replacements; prints what failed.
mut.py PROP @edits.py: a file of the form EDITS = [(name, file, [(old, new), ...]), ...]"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(prop, name, file, reps, contracts=()):
    w = tempfile.mkdtemp(prefix='mut')
    shutil.copytree('/repo/dorado', w + '/dorado')
    p = w + '/dorado/' + file
    s = open(p).read()
    for a, b in reps:
        if s.count(a) < 1:
            print(name, 'NO MATCH', repr(a)[:80])
            shutil.rmtree(w)
            return
        s = s.replace(a, b)
    compile(s, p, 'exec')
    open(p, 'w').write(s)
    out = w + '/out.json'
    q = subprocess.run(['python3-vt', '-m', 'contracts.runner', prop, 'quick', out] + list(contracts), cwd=V, env=dict(os.environ, DORADO_ROOT=w + '/dorado', PYTHONDONTWRITEBYTECODE='1'),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        r = json.load(open(out))
    except Exception as e:
        print(name, 'no output', q.stderr[-300:])
        shutil.rmtree(w)
        return
    r = r if isinstance(r, list) else r.get('contracts', r)
    ok = sum(o['status'] == 'ok' for c in r for o in c['obligations'])
    fails = [(c['contract'], o['name']) for c in r for o in c['obligations'] if o['status'] == 'failed']
    unk = [(c['contract'], o['name']) for c in r for o in c['obligations'] if o['status'] not in ('ok', 'failed')]
    und = [(c['contract'], c['undecided'][:140]) for c in r if c['undecided']]
    print('%-28s' % name, 'ok %d failed %d' % (ok, len(fails)), fails[:2], 'unknown %d' % len(unk), unk[:1], 'undecided', und[:3], flush=True)
    shutil.rmtree(w)


if __name__ == '__main__':
    if sys.argv[2].startswith('@'):
        g = {}
        exec(open(sys.argv[2][1:]).read(), g)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda e: run(sys.argv[1], e[0], e[1], e[2], sys.argv[3:]), g['EDITS']))
    else:
        a = sys.argv[3:]
        run(sys.argv[1], 'edit', sys.argv[2], list(zip(a[::2], a[1::2])))
