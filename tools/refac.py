#!/usr/bin/env python3
"""refac.py FILE..: apply behaviour-preserving rewrites (R = [(id, file, old, new, ...)]) to scratch
copies of /repo, one after another, build, and list the specifications that differ."""
import subprocess, shutil, sys, os, re, json
W=os.environ.get("RFW","/tmp/rfw")
env=dict(os.environ, CHK_ROOT=W)
only=[x for x in sys.argv[1:] if not x.endswith(".py")]
tests=os.environ.get("TESTS")
shutil.rmtree(W,ignore_errors=True); shutil.copytree("/repo",W,symlinks=True)
n=bad=0
sh=[int(x) for x in os.environ.get("SHARD","0/1").split("/")]; seq=-1
for f in sys.argv[1:]:
    if not f.endswith(".py"): continue
    ns={}; exec(open(f).read(),ns)
    for r in ns["R"]:
        if only and r[0] not in only: continue
        seq+=1
        if seq%sh[1]!=sh[0]: continue
        subprocess.run("git checkout -q -- . && git clean -fdq",shell=True,cwd=W)
        ed=r[1:]; ok=True
        for i in range(0,len(ed),3):
            p=f"{W}/{ed[i]}"
            if ed[i+1] is None:
                open(p,"w").write(ed[i+2]); continue
            if ed[i+1].startswith("FUNC "): # the whole declaration
                t=open(p).read(); a=t.find("\n"+ed[i+1][5:])
                if a<0: print("EDIT",r[0],ed[i],ed[i+1]); ok=False; break
                b=t.index("\n}\n",a)+3
                open(p,"w").write(t[:a+1]+ed[i+2]+t[b:]); continue
            nb=lambda s: re.sub(r"\n[ \t]*(?=\n)","",s)  # blank lines do not matter
            t=nb(open(p).read()); old=nb(ed[i+1])
            if t.count(old)!=1: print("EDIT",r[0],ed[i],"matches",t.count(old)); ok=False; break
            open(p,"w").write(t.replace(old,ed[i+2]))
        if not ok: continue
        if r[0] in ns.get("EXTRA",{}): open(f"{W}/{ed[0]}","a").write(ns["EXTRA"][r[0]])
        subprocess.run(["goimports","-w"]+sorted({f"{W}/{x}" for x in ed[::3]}),cwd=W,env=dict(os.environ,GOFLAGS="-mod=readonly",GOPROXY="off"),capture_output=True)
        b=subprocess.run("export GOFLAGS=-mod=readonly GOPROXY=off; go build $(go list ./... 2>/dev/null | grep -v -E 'constdp/app|dp/example') 2>&1 | head -5",shell=True,cwd=W,capture_output=True,text=True)
        if b.stdout.strip(): print("BUILD",r[0],b.stdout[:500]); continue
        if tests:
            t=subprocess.run("export GOFLAGS=-mod=readonly GOPROXY=off; go test -vet=off $(go list ./... 2>/dev/null | grep -v -E 'constdp/app|dp/example') 2>&1 | grep -E '^(FAIL|---)' | head",shell=True,cwd=W,capture_output=True,text=True)
            if t.stdout.strip(): print("TEST",r[0],t.stdout[:300])
        o=subprocess.run([os.environ.get("CHK","/tmp/w/chk"),"cmp"],env=env,capture_output=True,text=True,errors="replace")
        ls=o.stdout.splitlines()
        n+=1
        d=[l for l in ls if l.startswith("DIFF")]; und=[l for l in ls if l.startswith("ERR")]
        if und: print("UNDECIDED",r[0],*[l[:160] for l in und])
        if d or o.returncode:
            bad+=1
            print("ALARM",r[0]); 
            for i,l in enumerate(ls):
                if l.startswith("DIFF"): print("   ",l[:200])
                elif not l.startswith(("ok","MISSING")): print("       ",l.strip()[:int(os.environ.get("WIDTH","260"))])
            if o.stderr: print("   E:",o.stderr[:600])
print(n,"rewrites,",bad,"alarms")
