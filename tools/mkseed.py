#!/usr/bin/env python3
"""mkseed.py SPEC.py...: turn planted-bug specs into /verif/seeded/<id>/ after confirming them in a scratch copy.

A spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)] and TEST (body of an in-package Go test file) or
MAIN (a main.go using the public API). A bug is kept only if it builds, passes the stable tests, its demo passes on
the unchanged tree and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='0')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def run(cmd, cwd, timeout=300):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')

DEMO_TEST = '''#!/bin/bash
# runs an in-package test, laid over the repository without touching it
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/zz_demo_test.go.txt"}}' "$PWD" "$here" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 60s -run '^TestZZDemo$' .
'''
DEMO_MAIN = '''#!/bin/bash
# runs a small program against the repository
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf 'module demo\\n\\ngo 1.17\\n\\nrequire github.com/cnsgfk/xbnf v0.0.0\\n\\nreplace github.com/cnsgfk/xbnf => %s\\n' "$PWD" >"$tmp/go.mod"
cp "$here/main.go.txt" "$tmp/main.go"
cd "$tmp" && go build -o demo . && timeout 60 ./demo
'''

def stable_ok(d):
    r = run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '5m', './...'], d)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '/' + e['Test'])
    return STABLE - ok

def main():
    bad = 0
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        d = tempfile.mkdtemp(prefix='seed'); repo = d + '/r'
        try:
            shutil.copytree('/repo', repo)
            out = d + '/out'; os.mkdir(out)
            if 'TEST' in g:
                open(out + '/demo.sh', 'w').write(DEMO_TEST)
                body = g['TEST']
                if 'package ' not in body.split('func')[0]: body = 'package xbnf\n\n' + body
                open(out + '/zz_demo_test.go.txt', 'w').write(body)
            else:
                open(out + '/demo.sh', 'w').write(g.get('DEMO', DEMO_MAIN))
                if 'MAIN' in g: open(out + '/main.go.txt', 'w').write(g['MAIN'])
            os.chmod(out + '/demo.sh', 0o755)
            r = run(['bash', out + '/demo.sh'], repo)
            if r.returncode != 0:
                print(g['ID'], 'demo fails on the unchanged tree\n', (r.stdout + r.stderr)[-2500:]); bad = 1; continue
            for f, old, new in g['EDITS']:
                t = open(repo + '/' + f).read()
                if t.count(old) != 1:
                    print(g['ID'], 'edit matches', t.count(old), 'times:', f, old); bad = 1; break
                open(repo + '/' + f, 'w').write(t.replace(old, new))
            else:
                r = run(['go', 'build', './...'], repo)
                if r.returncode: print(g['ID'], 'does not build', r.stderr); bad = 1; continue
                m = stable_ok(repo)
                if m: print(g['ID'], 'stable tests fail:', sorted(m)[:5]); bad = 1; continue
                r = run(['bash', out + '/demo.sh'], repo)
                if r.returncode == 0: print(g['ID'], 'demo passes with the bug'); bad = 1; continue
                diff = run(['git', 'diff'], repo).stdout
                open(out + '/patch.diff', 'w').write(diff)
                json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
                dst = '/verif/seeded/' + g['ID']
                if os.path.exists(dst): shutil.rmtree(dst)
                shutil.copytree(out, dst)
                print(g['ID'], 'kept; demo says:', (r.stdout + r.stderr).strip().splitlines()[:3])
        finally:
            shutil.rmtree(d)
    sys.exit(bad)
main()
