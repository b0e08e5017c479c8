#!/usr/bin/env python3
"""Create and validate a seeded change.

usage: mkseed.py ID PROPERTY PKG EDITS.py DEMO_test.go 'needs' 'what it breaks'

EDITS.py holds a list EDITS of (file, old, new).  The demonstration is an
in-package test (func TestZZDemo) laid over the package by demo.sh.
"""
import sys, os, subprocess, json, tempfile, shutil, runpy
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GONOSUMDB='*', GOTOOLCHAIN='local')
DEMO = '''#!/bin/bash
# Demonstration, run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
tmp=$(mktemp -d)
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 200 go test -overlay "$tmp/overlay.json" -run 'TestZZDemo$' -count=1 -timeout 60s ./%s
rc=$?
rm -rf -- "$tmp"
exit $rc
'''
def main():
    sid, prop, pkg, edits, demo, needs, breaks = sys.argv[1:8]
    EDITS = runpy.run_path(edits)['EDITS']
    d = '/verif/seeded/' + sid
    wt = tempfile.mkdtemp(prefix='seed')
    shutil.rmtree(wt)
    subprocess.check_call(['cp', '-a', '/repo', wt])
    run = lambda c, **k: subprocess.run(c, shell=True, cwd=wt, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    try:
        run('git checkout -q . && git clean -fdq')
        os.makedirs(d, exist_ok=True)
        open(d+'/demo.sh', 'w').write(DEMO % (pkg, pkg))
        os.chmod(d+'/demo.sh', 0o755)
        shutil.copy(demo, d+'/demo_test.go.txt')
        r = run(d+'/demo.sh')
        ok = True
        if r.returncode != 0:
            print('DEMO FAILS ON CLEAN TREE', r.stdout[-1500:]); ok = False
        for f, old, new in EDITS:
            p = wt+'/'+f
            s = open(p).read()
            if s.count(old) != 1:
                print('edit matches', s.count(old), 'times:', old); sys.exit(1)
            # every removed/changed line must exist in base
            open(p, 'w').write(s.replace(old, new))
        diff = run('git diff').stdout
        open(d+'/patch.diff', 'w').write(diff)
        base = {}
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                cur = subprocess.run(['git', '-C', '/repo', 'show', 'cf79fde:'+l[6:]], stdout=subprocess.PIPE, text=True).stdout.split('\n')
            elif l.startswith('-'):
                if l[1:] not in cur: print('NOT AN ORIGINAL LINE:', l)
        r = run('go build ./... && go vet ./ecmascript/... >/dev/null; go test ./... 2>&1')
        if r.returncode != 0:
            print('TESTS FAIL WITH PATCH', r.stdout[-1500:]); ok = False
        r = run(d+'/demo.sh')
        if r.returncode == 0:
            print('DEMO PASSES WITH PATCH'); ok = False
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d+'/meta.json', 'w'), indent=1)
        if not ok:
            shutil.rmtree(d)
            print(sid, 'REJECTED'); sys.exit(1)
        print(sid, 'ok')
    finally:
        shutil.rmtree(wt)
main()
