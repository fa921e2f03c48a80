#!/usr/bin/env python3
"""plant.py SPEC.py [ids...]: turns bug specs into /verif/seeded/<id>/ after confirming each of them
in a scratch copy of /repo: it compiles, the existing tests pass, the demo passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, runpy
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', CGO_ENABLED='0')
SCR = '/tmp/plant'
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero when it is broken. Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=0
tmp=$(mktemp -d) || exit 3
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' .
rc=$?
rm -f "$tmp/overlay.json"; rmdir "$tmp"
exit $rc
'''
def sh(cmd, cwd=SCR, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    shutil.copytree('/repo', SCR, symlinks=True)
spec = runpy.run_path(sys.argv[1])
want = sys.argv[2:]
fresh()
for b in spec['BUGS']:
    if want and b['id'] not in want: continue
    sh('git checkout -q -- . && git clean -fdq')
    d = f"/tmp/plant-out/{b['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    body = b['demo']
    imps = ['"testing"']
    for pk, path in [('lk.','lk "github.com/ulule/loukoum/v3"'),('stmt.','"github.com/ulule/loukoum/v3/stmt"'),('builder.','"github.com/ulule/loukoum/v3/builder"'),('parser.','"github.com/ulule/loukoum/v3/parser"'),('lexer.','"github.com/ulule/loukoum/v3/lexer"'),('token.','"github.com/ulule/loukoum/v3/token"'),('types.','"github.com/ulule/loukoum/v3/types"'),('format.','"github.com/ulule/loukoum/v3/format"'),('strings.','"strings"'),('reflect.','"reflect"'),('fmt.','"fmt"'),('time.','"time"'),('sync.','"sync"'),('errors.','"github.com/pkg/errors"'),('driver.','"database/sql/driver"'),('math.','"math"'),('bytes.','"bytes"')]:
        if re.search(r'\b'+re.escape(pk), body): imps.append(path)
    top = b.get('top','')
    for pk, path in [('driver.','"database/sql/driver"'),('time.','"time"'),('stmt.','"github.com/ulule/loukoum/v3/stmt"')]:
        if re.search(r'\b'+re.escape(pk), top) and path not in imps: imps.append(path)
    src = 'package loukoum_test\n\nimport (\n' + ''.join('\t'+i+'\n' for i in imps) + ')\n\n' + top + '''
func panics(f func()) (r bool) {
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	f()
	return
}

func TestDemo(t *testing.T) {
	_ = panics
''' + body + '\n}\n'
    open(d+'/demo_test.go','w').write(src)
    subprocess.run(['gofmt','-w',d+'/demo_test.go'])
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d+'/meta.json','w'), indent=1)
    r = sh(f'bash {d}/demo.sh')
    if r.returncode: print(b['id'],'DEMO FAILS ON CLEAN\n',r.stdout[-1500:],r.stderr[-800:]); continue
    ok = True
    for f, old, new in b['edits']:
        p = f'{SCR}/{f}'; s = open(p).read()
        if s.count(old) < 1: print(b['id'],'NO MATCH',f,repr(old)); ok=False; break
        if s.count(old) > 1: print(b['id'],'AMBIGUOUS',f,s.count(old),repr(old)); ok=False; break
        open(p,'w').write(s.replace(old,new))
    if not ok: continue
    for f in sorted({e[0] for e in b['edits']}):
        if not sh(f'git show HEAD:{f} | gofmt -l').stdout: sh(f'gofmt -w {f}')
    r = sh('go build ./...')
    if r.returncode: print(b['id'],'NO BUILD',r.stderr[-800:]); continue
    r = sh('go test -vet=off ./...')
    if r.returncode: print(b['id'],'TESTS FAIL',r.stdout[-1500:]); continue
    r = sh(f'bash {d}/demo.sh')
    if r.returncode == 0: print(b['id'],'DEMO PASSES WITH BUG'); continue
    if 'panic: test timed out' in r.stdout or 'build failed' in r.stdout: print(b['id'],'DEMO BROKEN', r.stdout[-500:]); continue
    diff = sh('git diff -U0').stdout
    orig = 0
    for blk in re.split(r'(?m)^diff --git ', diff)[1:]:
        f = re.search(r'(?m)^--- a/(.*)$', blk).group(1)
        for m in re.finditer(r'(?m)^@@ -(\d+)(?:,(\d+))? ', blk):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n == 0: continue
            bl = sh(f'git blame -s --abbrev=40 -L {a},{a+n-1} HEAD -- {f}').stdout.splitlines()
            base = set(sh('git rev-list b4d3f82').stdout.split())
            orig += sum(1 for l in bl if l.split()[0].lstrip('^')[:40] in base or l.startswith('^'))
    if not orig and re.search(r'(?m)^-(?!--)', diff): print(b['id'],'CHANGES NO ORIGINAL LINE'); continue
    diff = sh('git diff').stdout
    open(d+'/patch.diff','w').write(diff)
    t = f"/verif/seeded/{b['id']}"
    shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    print(b['id'],'ok', (re.findall(r'demo_test.go:\d+: (.*)', r.stdout) or [''])[0][:150])
shutil.rmtree(SCR)
shutil.rmtree('/tmp/plant-out', ignore_errors=True)
