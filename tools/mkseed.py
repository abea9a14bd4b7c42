#!/usr/bin/env python3
"""mkseed.py SPEC...: makes and confirms planted bugs in scratch copies of /repo.

A SPEC is a Python file with ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO
(the body of a test file in package zzdemo, which can use tools/seedlib/lib_test.go)."""
import json, os, shutil, subprocess, sys, runpy
V = '/verif'
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
DEMO = r'''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOCACHE=${GOCACHE:-$(HOME=${HOME:-/root} go env GOCACHE)}
{
	echo '{"Replace":{'
	sep=
	for f in "$here"/*_test.go; do
		echo "$sep\"$repo/zzdemo/$(basename "$f")\":\"$f\""
		sep=,
	done
	echo '}}'
} > "$work/overlay.json"
go test -c -vet=off -o "$work/demo" -overlay "$work/overlay.json" ./zzdemo || exit 1
cd "$work" && timeout 200 ./demo
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def stable(d):
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = run("TMPDIR=$(mktemp -d) go test -json -vet=off -count=1 $(go list -e ./... | grep -Ev '/metadata/(fetcher|updater)$')", d, shell=True)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and 'Test' in e: ok.add(e['Package'] + '/' + e['Test'])
    return sorted(want - ok)
bad = 0
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    out = f"{V}/seeded/{s['ID']}"
    tmp = f"/tmp/seed-{s['ID']}"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree('/repo', tmp, symlinks=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copy(f'{V}/tools/seedlib/lib_test.go', out)
    open(out + '/demo_test.go', 'w').write('package zzdemo\n' + s['DEMO'])
    open(out + '/demo.sh', 'w').write(DEMO)
    os.chmod(out + '/demo.sh', 0o755)
    run('gofmt -w ' + out + '/demo_test.go', tmp, shell=True)
    msgs = []
    clean = run(['bash', out + '/demo.sh'], tmp)
    if clean.returncode != 0: msgs.append('demo fails on the unchanged tree\n' + clean.stdout[-1500:])
    blame = ''
    for f, old, new in s['EDITS']:
        t = open(f'{tmp}/{f}').read()
        if t.count(old) != 1: msgs.append(f'edit in {f}: {t.count(old)} matches of {old[:60]!r}')
        t = t.replace(old, new, 1)
        open(f'{tmp}/{f}', 'w').write(t)
    run(f'gofmt -w {" ".join(f for f,_,_ in s["EDITS"])}', tmp, shell=True)
    diff = run(['git', 'diff'], tmp).stdout
    open(out + '/patch.diff', 'w').write(diff)
    # removed lines must come from the original repository
    cur = None
    import re
    ln = 0
    mine = orig = 0
    for l in run(['git', 'diff', '-U0'], tmp).stdout.splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m.group(1)); continue
        if l.startswith('-') and not l.startswith('---'):
            b = run(['git', 'blame', '-l', '-s', '-L', f'{ln},{ln}', 'HEAD', '--', cur], tmp).stdout
            if b.startswith('^') or b.startswith('f63ba2c'): orig += 1
            else: mine += 1
            ln += 1
    b = run('go build ./... && go vet ./metadata/... 2>&1', tmp, shell=True)
    if b.returncode != 0: msgs.append('build: ' + b.stdout[-800:])
    miss = stable(tmp)
    if miss: msgs.append('stable tests fail: ' + ' '.join(miss))
    ut = run("TMPDIR=$(mktemp -d) go test -vet=off -count=1 -skip '^TestDelegatesRolesUpdateWithConsistentSnapshotDisabled$' ./metadata/updater", tmp, shell=True)
    patched = run(['bash', out + '/demo.sh'], tmp)
    if patched.returncode == 0: msgs.append('demo passes with the change')
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    fails = [l for l in patched.stdout.splitlines() if 'demo_test.go' in l or 'panic' in l]
    print(s['ID'], s['PROP'], 'OK' if not msgs else 'BAD', f'orig={orig} mine={mine} updater-tests={"ok" if ut.returncode == 0 else "FAIL"}', '|', (fails or [''])[0].strip()[:150])
    for m in msgs: print('   ', m)
    bad |= bool(msgs)
sys.exit(bad)
