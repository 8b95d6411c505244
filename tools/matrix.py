#!/usr/bin/env python3
"""matrix.py: run every claimed check on every planted bug (scratch copies); writes tools/matrix.json {bug: [checks]}."""
import os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = [c['property'] for c in json.load(open(root + '/MANIFEST.json'))['checks']]
def one(n):
    d = tempfile.mkdtemp(prefix='mat'); repo = d + '/r'
    try:
        shutil.copytree('/repo', repo); os.mkdir(d + '/v'); shutil.copy(root + '/KNOWN_FINDINGS', d + '/v')
        if subprocess.run(['git', 'apply', root + '/seeded/' + n + '/patch.diff'], cwd=repo).returncode: return n, ['?']
        return n, [c for c in checks if subprocess.run([root + '/bin/checker', '-repo', repo, '-verif', d + '/v', c], capture_output=True).returncode]
    finally: shutil.rmtree(d)
f = root + '/tools/matrix.json'
M = json.load(open(f)) if os.path.exists(f) else {}
names = sys.argv[1:] or sorted(os.listdir(root + '/seeded'))
with ThreadPoolExecutor(6) as ex:
    for n, c in ex.map(one, names): M[n] = c; print(n, ' '.join(c), flush=True)
M = {n: M[n] for n in sorted(M) if os.path.isdir(root + '/seeded/' + n)}
json.dump(M, open(f, 'w'), indent=0)
own = lambda n: json.load(open(root + '/seeded/' + n + '/meta.json'))['property']
out = ['| planted bug | what it needs to show | own check | also reported by |', '|---|---|---|---|']
for n in M:
    m = json.load(open(root + '/seeded/' + n + '/meta.json')); p = m['property']
    needs = m['needs'].replace('|', '\\|').replace('\n', ' ')
    out.append('| %s | %s | %s | %s |' % (n, needs, p + (' catches it' if p in M[n] else ' **misses it**'), ' '.join(c for c in M[n] if c != p)))
t = open(root + '/DESIGN.md').read(); a, b = '<!-- seeds -->\n', '<!-- end seeds -->'
if a in t: open(root + '/DESIGN.md', 'w').write(t[:t.index(a) + len(a)] + '\n'.join(out) + '\n' + t[t.index(b):])
