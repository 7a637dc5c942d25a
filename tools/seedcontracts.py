#!/usr/bin/env python3
"""seedcontracts.py [id|patch.diff ...]: runs the contracts alone (no run-time oracle) against copies of /repo/dorado with a planted bug"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seedc')
    shutil.copytree('/repo/dorado', w + '/dorado')
    subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + w, d + '/patch.diff'], cwd='/', check=False)
    subprocess.run(['patch', '-p1', '-s', '-N', '-i', d + '/patch.diff'], cwd=w, stdout=subprocess.DEVNULL) if not subprocess.run(['diff', '-rq', '/repo/dorado', w + '/dorado'], stdout=subprocess.PIPE).stdout else None
    same = not subprocess.run(['diff', '-rq', '/repo/dorado', w + '/dorado'], stdout=subprocess.PIPE).stdout
    out = w + '/out.json'
    subprocess.run(['python3-vt', '-m', 'contracts.runner', m['property'], 'quick', out], cwd=V, env=dict(os.environ, DORADO_ROOT=w + '/dorado', PYTHONDONTWRITEBYTECODE='1'),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        r = json.load(open(out))
    except Exception as e:
        print(i, 'no output', e, flush=True)
        continue
    r = r if isinstance(r, list) else r.get('contracts', r)
    fails = [(c['contract'], o['name']) for c in r for o in c['obligations'] if o['status'] == 'failed']
    unk = [(c['contract'], o['name']) for c in r for o in c['obligations'] if o['status'] not in ('ok', 'failed')]
    und = [(c['contract'], c['undecided'][:100]) for c in r if c['undecided']]
    print(i, m['property'], 'PATCH NOT APPLIED' if same else 'failed %d' % len(fails), fails[:2], 'unknown %d' % len(unk), 'undecided', und, flush=True)
    shutil.rmtree(w)
