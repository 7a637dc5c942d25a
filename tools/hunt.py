#!/usr/bin/env python3
"""hunt.py edits.py [name...]: for every planted change (name, property, file, [(old, new)...]) applied to a scratch copy of /repo: do the stable
tests still pass, and does the property's quick check (contracts and oracle) report it?  EDITS = [(name, prop, file, [(old, new), ...]), ...]"""
import sys, os, json, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR='/opt/venv/mplconfig', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')


def one(e):
    name, prop, file, reps = e
    w = tempfile.mkdtemp(prefix='hunt')
    try:
        subprocess.run('cp -a /repo/. %s/' % w, shell=True, check=True)
        p = w + '/dorado/' + file
        s = ''.join(l for l in open(p).read().splitlines(True) if l.strip() and not l.strip().startswith('#'))      # blank and comment lines do not count when matching
        for r in reps:
            a, b = r[0], r[1]
            n = r[2] if len(r) > 2 else 0          # which occurrence, 0: it must be the only one
            if s.count(a) < max(n, 1) or (n == 0 and s.count(a) != 1):
                print('%-26s NO MATCH %d %r' % (name, s.count(a), a[:60]), flush=True)
                return
            i = -1
            for _ in range(max(n, 1)):
                i = s.index(a, i + 1)
            s = s[:i] + b + s[i + len(a):]
        try:
            compile(s, p, 'exec')
        except SyntaxError as x:
            print(name, 'SYNTAX', x, flush=True)
            return
        open(p, 'w').write(s)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w, env=dict(ENV, PYTHONPATH=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        tests = 'pass' if t.returncode == 0 else 'FAIL ' + ([l for l in t.stdout.splitlines() if l.startswith('FAILED')] or ['?'])[0][7:70]
        v = w + '/verif'
        subprocess.run(['cp', '-a'] + [os.path.join(V, x) for x in ('check.py', 'manifest_data.py', 'contracts', 'pyvc', 'oracle', 'properties.jsonl', 'known_findings.txt', 'MANIFEST.json', 'tools')] + [w + '/'], check=False)
        os.makedirs(w + '/evidence', exist_ok=True)
        for q in prop.split():
            t0 = time.time()
            r = subprocess.run(['python3', 'check.py', q, 'quick'], cwd=w, env=dict(os.environ, DORADO_ROOT=w + '/dorado', DORADO_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            summ = [l for l in r.stdout.splitlines() if l.startswith(q + ' ')][-1:]
            viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print('%-20s %s tests %-20s rc %d %s %s %.0fs' % (name, q, tests, r.returncode, 'CAUGHT(no input)' if viol and 'no-failing' in viol[0] else 'CAUGHT' if viol else '-- quiet --' if r.returncode == 0 else r.stdout[-300:],
                  (summ or [''])[0][:120], time.time() - t0), flush=True)
            if 'SHOW' in os.environ:
                print(r.stdout[-1500:], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ed = [e for e in g['EDITS'] if not sys.argv[2:] or e[0] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, ed))
