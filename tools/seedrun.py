#!/usr/bin/env python3
"""tools/seedrun.py [ID...]: runs the check of each planted change's property on a scratch copy carrying it; prints a table row."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(os.listdir(HERE + '/seeded')):
    d = os.path.join(HERE, 'seeded', i)
    m = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='seedrun.')
    subprocess.run(['cp', '-a', '/repo', t + '/repo'], check=True)
    subprocess.run(['git', '-C', t + '/repo', 'apply', d + '/patch.diff'], check=True)
    p = subprocess.run(['python3-vt', HERE + '/run.py', 'check', m['property']], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=t + '/repo'))
    shutil.rmtree(t)
    w = re.search(r'counterexample in (\S+) .*?\}: (\S+)', p.stdout)
    print('| %s | %s | %s | %s |' % (i, m['property'], 'caught' if p.returncode == 1 else 'rc=%d' % p.returncode,
                                    '%s: %s' % w.groups() if w else ''), flush=True)
