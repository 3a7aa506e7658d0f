#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, edits=[(file,old,new)], demo (Go main program or test), pkg (for an in-package test) .
Writes /verif/seeded/<id>/ and confirms it: builds, stable tests pass, demo 0 without and nonzero with the patch; reports which checks fire."""
import sys,os,subprocess,json,shutil,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
R="/repo"; D=f"/verif/seeded/{spec['id']}"
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
assert sh("git -C /repo status --porcelain").stdout=="" , "repo dirty"
os.makedirs(D,exist_ok=True)
MAIN='''#!/bin/bash
# Builds and runs a small program against the tree in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
d="$(mktemp -d)"; trap 'rm -rf "${d:?}"' EXIT
cp "$here/demo.go.txt" "$d/main.go"
printf 'module demo\\n\\ngo 1.21\\n\\nrequire github.com/benedoc-inc/pdfer v0.0.0\\n\\nreplace github.com/benedoc-inc/pdfer => %s\\n' "$repo" > "$d/go.mod"
cd "$d" && go build -o demo . || exit 2
timeout 60 ./demo
'''
TEST='''#!/bin/bash
# Runs a test inside the package, laid over the tree in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
d="$(mktemp -d)"; trap 'rm -rf "${d:?}"' EXIT
cp "$here/demo.go.txt" "$d/demo_test.go"
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$repo" "$d" > "$d/o.json"
go test -overlay "$d/o.json" -vet=off -count=1 -timeout 60s -run 'TestDemo' ./PKG
'''
open(D+"/demo.go.txt","w").write(spec['demo'].lstrip("\n"))
pkg=spec.get('pkg')
open(D+"/demo.sh","w").write(TEST.replace("PKG",pkg) if pkg else MAIN)
os.chmod(D+"/demo.sh",0o755)
json.dump({"property":spec['prop'],"needs":spec['needs'],"what_it_breaks":spec['breaks']},open(D+"/meta.json","w"),indent=1)
try:
    r=sh(f"bash {D}/demo.sh",cwd=R)
    if r.returncode!=0: print("DEMO FAILS UNPATCHED",r.returncode,r.stdout[-1500:],r.stderr[-1500:]); sys.exit(1)
    for f,o,n in spec['edits']:
        s=open(f"{R}/{f}").read(); assert s.count(o)>=1,("missing",f,o)
        if s.count(o)>1 and not spec.get('first'): print("ambiguous",f,s.count(o)); sys.exit(1)
        open(f"{R}/{f}","w").write(s.replace(o,n,1))
    fs=" ".join({f for f,_,_ in spec['edits']})
    g=sh(f"gofmt -l {fs}",cwd=R).stdout
    if g: sh(f"gofmt -w {fs}",cwd=R)
    open(D+"/patch.diff","w").write(sh("git diff",cwd=R).stdout)
    if not spec.get('skiptest'):
        t=sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/w/so.json")
        b=json.load(open('/opt/vp/BASELINE.json'))['stable']
        try: o=set(json.load(open('/tmp/w/so.json'))['passed'])
        except Exception: print("BUILD/TEST FAIL",t.stdout[-800:],t.stderr[-800:]); sys.exit(1)
        miss=[x for x in b if x not in o]
        print("stable missing:",miss[:5],len(miss))
    r=sh(f"bash {D}/demo.sh",cwd=R)
    print("demo patched rc",r.returncode,(r.stdout+r.stderr)[-400:])
    ids=sys.argv[2] if len(sys.argv)>2 else spec['prop']
    r=sh(f"PDF_VERIF=/tmp/w/mverif /verif/check.sh {ids}")
    print("check rc",r.returncode); print(r.stdout[-1500:])
finally:
    sh("git -C /repo checkout -- .")
