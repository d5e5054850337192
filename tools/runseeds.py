#!/usr/bin/env python3
"""runseeds.py [id..]: development aid. Applies each planted bug to /repo, runs its property's check, undoes it."""
import json, os, subprocess, sys, time
S = '/verif/seeded'
for i in sorted(os.listdir(S)):
    if len(sys.argv) > 1 and i not in sys.argv[1:]:
        continue
    p = json.load(open(f'{S}/{i}/meta.json'))['property']
    assert subprocess.run(['git', '-C', '/repo', 'apply', f'{S}/{i}/patch.diff']).returncode == 0, i
    t = time.time()
    try:
        r = subprocess.run(['python3', '/verif/check.py', p], capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    l = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    print('| %s | %s | %s | %d s |' % (i, p, 'missed (exit %d)' % r.returncode if not l else 'obligation, no input' if 'no-failing' in l[0] else 'failing input', time.time() - t), flush=True)
