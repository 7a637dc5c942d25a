#!/usr/bin/env python3
"""seed.py [id ...]: (re)builds /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms each in a scratch copy:
patch applies, stable tests pass, demo passes without and fails with it.   seed.py --check [id ...]: which checks catch them."""
import sys, os, json, subprocess, shutil, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(V, 'tools', 'seeds')
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR='/opt/venv/mplconfig', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
PY = '/opt/venv/bin/python'
DEMO_SH = '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def build(i, work):
    d = runpy.run_path(os.path.join(SEEDS, i + '.py'))
    subprocess.run('git checkout -q -- . && git clean -qfdx', shell=True, cwd=work, check=True)
    p = os.path.join(work, d['FILE'])
    s = open(p).read()
    for a, b in d['EDITS']:
        if s.count(a) != 1:
            return 'edit matches %d times: %r' % (s.count(a), a)
        s = s.replace(a, b)
    open(p, 'w').write(s)
    diff = subprocess.run(['git', 'diff'], cwd=work, stdout=subprocess.PIPE, text=True, check=True).stdout
    out = os.path.join(V, 'seeded', i)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    open(os.path.join(out, 'demo.py'), 'w').write(d['DEMO'].lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump(dict(property=d['PROPERTY'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    bad = []
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) if False else None
    t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=work, env=dict(ENV, PYTHONPATH=work), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if t.returncode:
        bad.append('tests fail: ' + [l for l in t.stdout.splitlines() if l.startswith(('FAILED', 'ERROR', 'E  '))][:2].__repr__())
    r = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        bad.append('demo passes with the patch')
    last = r.stdout.strip().splitlines()[-1:] or ['']
    subprocess.run('git checkout -q -- .', shell=True, cwd=work, check=True)
    r = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=work, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        bad.append('demo fails without the patch: ' + r.stdout[-500:])
    if bad:
        shutil.rmtree(out)
        return '; '.join(bad)
    return 'kept (%s)' % last[0][:120]


def main():
    a = sys.argv[1:]
    check = '--check' in a
    ids = [x for x in a if not x.startswith('--')] or sorted(f[:-3] for f in os.listdir(SEEDS) if f.endswith('.py'))
    if not check:
        work = tempfile.mkdtemp(prefix='seedwork')
        subprocess.run('cp -a /repo/. %s/' % work, shell=True, check=True)
        for i in ids:
            print(i, build(i, work), flush=True)
        shutil.rmtree(work)
        return
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        if not os.path.isdir(d):
            continue
        m = json.load(open(os.path.join(d, 'meta.json')))
        subprocess.run(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')], check=True)
        try:
            r = subprocess.run(['python3', 'check.py', m['property'], 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'failing input' in l or 'obligation' in l]
        print(i, m['property'], 'rc', r.returncode, ' || '.join(x[:220] for x in v), flush=True)


if __name__ == '__main__':
    main()
