#!/usr/bin/env python3
"""bugs.py FILE.. [ids]: apply small behaviour-changing edits (B = [(id, property, file, old, new, ...)]) to a
scratch copy, build, and list those no rule of their property reports.  ALL=1 lists every reporting property."""
import subprocess, shutil, sys, os, re
W=os.environ.get("RFW","/tmp/bgw"); CHK=os.environ.get("CHK","/tmp/w/chk")
env=dict(os.environ, CHK_ROOT=W)
only=[x for x in sys.argv[1:] if not x.endswith(".py")]
shutil.rmtree(W,ignore_errors=True); shutil.copytree("/repo",W,symlinks=True)
n=miss=0
sh=[int(x) for x in os.environ.get("SHARD","0/1").split("/")]; seq=-1
for f in sys.argv[1:]:
    if not f.endswith(".py"): continue
    ns={}; exec(open(f).read(),ns)
    for r in ns["B"]:
        if only and r[0] not in only: continue
        seq+=1
        if seq%sh[1]!=sh[0]: continue
        subprocess.run("git checkout -q -- . && git clean -fdq",shell=True,cwd=W)
        ed=r[2:]; ok=True
        for i in range(0,len(ed),3):
            p=f"{W}/{ed[i]}"
            if ed[i+1] is None: open(p,"w").write(ed[i+2]); continue
            nb=lambda s: re.sub(r"\n[ \t]*(?=\n)","",s)
            t=nb(open(p).read()); old=nb(ed[i+1])
            if t.count(old)!=1: print("EDIT",r[0],ed[i],"matches",t.count(old)); ok=False; break
            open(p,"w").write(t.replace(old,ed[i+2]))
        if not ok: continue
        b=subprocess.run("export GOFLAGS=-mod=readonly GOPROXY=off; go build $(go list ./... 2>/dev/null | grep -v -E 'constdp/app|dp/example') 2>&1 | head -5",shell=True,cwd=W,capture_output=True,text=True)
        if b.stdout.strip(): print("BUILD",r[0],b.stdout[:500]); continue
        o=subprocess.run([CHK,"cmp"],env=env,capture_output=True,text=True,errors="replace")
        n+=1
        d=[l for l in o.stdout.splitlines() if l.startswith("DIFF")]
        e=[l for l in o.stdout.splitlines() if l.startswith("ERR")]
        tags=set(re.findall(r"\bC\d\d\b"," ".join(re.sub(r"^.*?\[","[",l) for l in d)))
        if r[1] not in tags:
            miss+=1
            print("MISSED" if not tags else "TAGS  ",r[0],r[1],"by",sorted(tags),[l.split()[1] for l in d][:5],[l[:120] for l in e][:3], o.stderr[-300:] if o.returncode else "")
        elif os.environ.get("ALL"): print("caught",r[0],r[1],sorted(tags),[l.split()[1] for l in d][:4])
print(n,"bugs,",miss,"not reported under their property")
