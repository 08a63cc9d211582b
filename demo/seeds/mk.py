#!/usr/bin/env python3
# mk.py [id...]: writes /verif/seeded/<id>/ for the seeds defined in seeds_*.py beside this
# file and confirms each one (builds, stable tests pass, demo passes without and fails with it).
import sys,os,subprocess,shutil,json,tempfile,glob,re
here=os.path.dirname(os.path.abspath(__file__)); verif=os.path.dirname(os.path.dirname(here))
S={}
for f in sorted(glob.glob(here+"/seeds_*.py")): exec(open(f).read(),{"S":S})
DEMO='''#!/bin/bash
# runs the demonstration test beside this script inside package %(pkg)s
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/go/bin:/usr/bin:/bin HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 2
cp "$repo/go.mod" "$t/go.mod"; cp "$repo/go.sum" "$t/go.sum"
mkdir "$t/objecthash"; cp "$here"/objecthash.go.txt "$t/objecthash/objecthash.go"
printf 'module github.com/continusec/objecthash\\n\\ngo 1.20\\n' > "$t/objecthash/go.mod"
echo "replace github.com/continusec/objecthash => $t/objecthash" >> "$t/go.mod"
echo "{\\"Replace\\": {%(files)s}}" > "$t/overlay.json"
timeout 200 go test -modfile="$t/go.mod" -overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s %(race)s-run '^TestSeed' ./%(pkg)s
rc=$?
find "$t" -mindepth 1 -delete; rmdir "$t"
exit $rc
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,**k)
def make(i,d):
    out=f"{verif}/seeded/{i}"
    if os.path.isdir(out): shutil.rmtree(out)
    os.makedirs(out)
    t=tempfile.mkdtemp(dir="/tmp",prefix="seed"); r=t+"/repo"
    try:
        subprocess.run(["cp","-a","/repo",r],check=True)
        base=set(l for l in sh("git diff d64d1ff HEAD",r).stdout.split("\n") if l.startswith("+"))
        for f,old,new in d["edits"]:
            s=open(f"{r}/{f}").read(); n=1
            m=re.match(r"@(\d+):(.*)",old,re.S)
            if m: n=int(m[1]); old=m[2]
            elif s.count(old)!=1: return f"{f}: old text occurs {s.count(old)} times: {old!r}"
            k=-1
            for _ in range(n): k=s.index(old,k+1)
            open(f"{r}/{f}","w").write(s[:k]+new+s[k+len(old):])
        sh("/opt/veriftools/go1.24.13/bin/gofmt -w "+" ".join(sorted({e[0] for e in d["edits"]})),r)
        p=sh("git diff",r).stdout
        open(out+"/patch.diff","w").write(p)
        mine=[l for l in p.split("\n") if l.startswith("-") and not l.startswith("---") and "+"+l[1:] in base]
        if mine: print("   note: removes a line of a fix commit:",mine)
        pkg=d.get("pkg","verifiable")
        b=sh("cp -a /opt/vp "+t+"/vp; sed -i 's#cd /repo#cd "+r+"#; s#/opt/vp#"+t+"/vp#g' "+t+"/vp/env.sh "+t+"/vp/build.sh "+t+"/vp/test.sh; bash "+t+"/vp/build.sh",r)
        if b.returncode: return "does not build: "+b.stdout[-500:]+b.stderr[-1500:]
        files={"x_seed_test.go":d["test"]}
        if pkg=="verifiable": files["x_help_test.go"]=open(here+"/verifiable.go.txt").read()
        files.update(d.get("files",{}))
        for f,c in files.items(): open(f"{out}/{f}.txt","w").write(c)
        for f in files:
            if f.endswith(".go"): sh(f"gofmt -l {out}/{f}.txt",r)
        shutil.copy(verif+"/demo/objecthash/objecthash.go",out+"/objecthash.go.txt")
        fl=", ".join('\\"$repo/%s/%s\\": \\"$here/%s.txt\\"'%(pkg,f,f) for f in files)
        open(out+"/demo.sh","w").write(DEMO%dict(pkg=pkg,files=fl,race="-race " if d.get("race") else ""))
        os.chmod(out+"/demo.sh",0o755)
        json.dump({"property":d["property"],"needs":d["needs"],"what_it_breaks":d["breaks"]},open(out+"/meta.json","w"),indent=1)
        g=sh(f"bash {out}/demo.sh",r)
        sh("git checkout -- .",r)
        h=sh(f"bash {out}/demo.sh",r)
        if h.returncode!=0: return "demo fails on the clean tree: "+(h.stdout+h.stderr)[-1800:]
        if g.returncode==0: return "demo passes with the bug"
        if "build failed" in g.stdout or "setup failed" in g.stdout: return "demo does not build with the bug: "+(g.stdout+g.stderr)[-1500:]
        return "ok   ("+" ".join(l.strip() for l in g.stdout.split("\n") if re.search(r"_test.go:|panic|race|timed",l))[:150]+")"
    finally: shutil.rmtree(t)
ids=sys.argv[1:] or sorted(S)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as e:
    for i,r in zip(ids,e.map(lambda i:make(i,S[i]),ids)): print(i,S[i]["property"],r)
