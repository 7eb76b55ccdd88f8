#!/usr/bin/env python3
"""mkseed.py FILE.py [id..]: build planted bugs from a description and confirm
them in a scratch copy.  FILE.py defines S = [dict(id, prop, edits=[(file, old,
new)], demo=(pkgdir, testname, go source) or demo_sh=str, files={}, needs, breaks)]"""
import json, os, shutil, subprocess, sys
V = "/verif"
W = "/tmp/seedwork"
def sh(cmd, cwd=None, t=300):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t)
        return r.returncode, (r.stdout + r.stderr)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
DEMO = '''#!/bin/bash
# runs the test beside this file inside package {pkg} (through an overlay)
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{{\\"Replace\\":{{\\"$PWD/{pkgp}zz_demo_test.go\\":\\"$d/demo_test.go\\"}}}}" > "$t/o.json"
cd {cd} && timeout {to} go test -vet=off -count=1 -overlay "$t/o.json" -run '^{test}$' ./{pkgp}
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
env = ". /opt/vp/env.sh; "
for s in ns["S"]:
    if only and s["id"] not in only:
        continue
    d = f"{V}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    ok = True
    for f, old, new in s["edits"]:
        t = open(f"{W}/{f}").read()
        if t.count(old) != 1:
            print(s["id"], "EDIT", f, "matches", t.count(old)); ok = False; break
        open(f"{W}/{f}", "w").write(t.replace(old, new))
    if not ok:
        shutil.rmtree(d); continue
    _, diff = sh("git diff", W)
    open(f"{d}/patch.diff", "w").write(diff)
    if "demo" in s:
        pkg, test, src = s["demo"]
        open(f"{d}/demo_test.go", "w").write(src)
        open(f"{d}/demo.sh", "w").write(DEMO.format(pkg=pkg, pkgp="" if pkg == "." else pkg + "/", test=test, cd="$PWD", to=s.get("timeout", 120)))
    else:
        open(f"{d}/demo.sh", "w").write(s["demo_sh"])
        for n, c in s.get("files", {}).items():
            open(f"{d}/{n}", "w").write(c)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    # confirm
    c1, o1 = sh(f"bash {d}/demo.sh", "/repo")
    c2, o2 = sh(f"bash {d}/demo.sh", W)
    # baseline in /repo with the patch (test.sh is tied to /repo)
    sh("git apply " + d + "/patch.diff", "/repo")
    try:
        cb, ob = sh("bash /opt/vp/build.sh")
        ct, ot = sh("cd /tmp && bash /opt/vp/test.sh /tmp/seed_out.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base["stable"])
        r = json.load(open("/tmp/seed_out.json"))
        passed = set(r["passed"])
        miss = want - passed
        cc, oc = sh(f"bash {V}/run.sh {s['prop']} quick")
        others = []
        if "-all" in only or os.environ.get("ALL"):
            for i in range(1, 27):
                p = f"C{i:02d}"
                x, _ = sh(f"{V}/bin/chk -prop {p} -tier quick -root /repo -verif /tmp/seedev")
                if x == 1: others.append(p)
    finally:
        sh("git checkout -- . && git clean -fdq", "/repo")
    st = "GOOD" if c1 == 0 and c2 != 0 and cb == 0 and not miss else "BAD "
    print(st, s["id"], s["prop"], "CAUGHT" if cc == 1 else f"MISSED({cc})", f"demo clean={c1} patched={c2} build={cb} lost={len(miss)}", " ".join(others), flush=True)
    if st == "BAD ":
        print("   clean:", o1[-600:].replace("\n", "\n     ")); print("   patched:", o2[-300:].replace("\n", "\n     ")); print("   ", list(miss)[:3], ob[-300:])
        shutil.rmtree(d)
    elif cc == 1:
        print("     ", [l for l in oc.splitlines() if not l.startswith("not decided")][0][:260])
shutil.rmtree(W, ignore_errors=True)
