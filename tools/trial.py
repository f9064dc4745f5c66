"""Run checks against planted bugs (development aid): trial.py [-a] [ID ...]   -a: all checks, not only the bug's own."""
import json, os, subprocess, sys, time
args = sys.argv[1:]
every = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir('/verif/seeded'))
man = json.load(open('/verif/MANIFEST.json'))
props = [c['property_id'] if 'property_id' in c else c['property'] for c in man['checks']]
for i in ids:
    d = f'/verif/seeded/{i}'
    own = json.load(open(f'{d}/meta.json'))['property']
    r = subprocess.run(['git', '-C', '/repo', 'apply', f'{d}/patch.diff'])
    if r.returncode:
        print(i, 'DOES NOT APPLY', flush=True)
        continue
    try:
        for p in (props if every else [own]):
            t = time.time()
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_NO_EVIDENCE='1')
            r = subprocess.run(['python3', '/verif/check.py', p], cwd='/verif', env=env, capture_output=True, text=True)
            line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')][:1]
            print(f'{i} {p} exit={r.returncode} {time.time()-t:.0f}s {line[0][:110] if line else r.stderr[-300:] if r.returncode else ""}', flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
