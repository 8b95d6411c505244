#!/usr/bin/env python3
"""refactor.py [NAME...] [-c C01,C02]: apply behaviour-preserving edits to a scratch copy; every check must stay quiet."""
import os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='0')
args = sys.argv[1:]; checks = None
if '-c' in args:
    i = args.index('-c'); checks = args[i+1].split(','); del args[i:i+2]
if not checks: checks = [c['property'] for c in json.load(open(root + '/MANIFEST.json'))['checks']]
def one(n):
    g = {}; exec(open(here + '/refactors/' + n + '.py').read(), g)
    d = tempfile.mkdtemp(prefix='ref'); repo = d + '/r'
    try:
        shutil.copytree('/repo', repo); os.mkdir(d + '/v')
        if os.path.exists(root + '/KNOWN_FINDINGS'): shutil.copy(root + '/KNOWN_FINDINGS', d + '/v')
        for f, old, new in g['EDITS']:
            t = open(repo + '/' + f).read()
            if t.count(old) < 1: return n + ': edit does not match: ' + f + ' ' + old
            open(repo + '/' + f, 'w').write(t.replace(old, new))
        r = subprocess.run(['go', 'test', '-vet=off', './...'], cwd=repo, env=ENV, capture_output=True, text=True)
        if r.returncode and 'FAIL' in r.stdout and g.get('TESTS', True):
            a = [l for l in r.stdout.splitlines() if l.startswith('    --- FAIL') or l.startswith('--- FAIL')]
            b = subprocess.run(['go', 'test', '-vet=off', './...'], cwd='/repo', env=ENV, capture_output=True, text=True)
            c = [l for l in b.stdout.splitlines() if l.startswith('    --- FAIL') or l.startswith('--- FAIL')]
            if len(a) != len(c): return n + ': tests differ ' + str(a[:3])
        if r.returncode and 'build failed' in r.stdout + r.stderr: return n + ': does not build\n' + r.stdout[:800]
        out = []
        for c in checks:
            r = subprocess.run([root + '/bin/checker', '-repo', repo, '-verif', d + '/v', c], capture_output=True, text=True)
            if r.returncode:
                out.append('   ' + c + ' rc=%d ' % r.returncode + '\n      '.join(l[:220] for l in r.stdout.splitlines()[:4]))
        return n + ': ' + ('quiet' if not out else 'ALARM\n' + '\n'.join(out))
    finally: shutil.rmtree(d)
names = args or sorted(f[:-3] for f in os.listdir(here + '/refactors') if f.endswith('.py'))
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, names): print(r, flush=True)
