import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
decl = {}
for d, _, fs in os.walk(R):
    for f in fs:
        if f.endswith(".go") and not f.endswith("_test.go") and "/app" not in d and "/example" not in d:
            t = open(os.path.join(d, f), errors="replace").read()
            pk = re.search(r"^package (\w+)", t, re.M).group(1)
            for m in re.finditer(r"^func (?:\(\w* ?\*?(\w+)\) )?(\w+)", t, re.M):
                decl[pk + "." + (m.group(1) + "." if m.group(1) else "") + m.group(2)] = os.path.relpath(os.path.join(d, f), R)
tagged = {}
for f in os.listdir(V + "/checker/spec"):
    for m in re.finditer(r"^// spec (\S+) (.*)$", open(V + "/checker/spec/" + f).read(), re.M):
        for i in re.findall(r"C\d\d", m.group(2)):
            if m.group(1) in decl:
                tagged.setdefault(i, set()).add(decl[m.group(1)])
for p in P + NA:
    assert len(p["title"]) <= 80, p["id"]
    fs = []
    for f in sorted(tagged.get(p["id"], set())) + p["files"]:
        if f in fs:
            continue
        if os.path.exists(os.path.join(R, f)):
            fs.append(f)
    assert fs, p["id"]
    p["files"] = fs
with open(V + "/properties.jsonl", "w") as o:
    for p in P + NA:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("state"):
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1,
     "setup_cmd": "cd /verif/checker && mkdir -p /verif/bin && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local go build -o /verif/bin/chk .",
     "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "One static analyser (checker/, Go, x/tools/go/ssa). Nothing of /repo is executed. Specifications in checker/spec are overlaid in memory only."}
for p in P:
    m["checks"].append({"property": p["id"],
        "quick_cmd": "bash /verif/run.sh %s quick" % p["id"],
        "thorough_cmd": "bash /verif/run.sh %s thorough" % p["id"],
        "technique": "static analysis: " + p["technique"],
        "level": "other",
        "level_note": p["note"] or ("Decides for the current source: " + p["rule"] + ". Assumes exact arithmetic on non-NaN values and that dependency geometry functions are pure; an anchored function the engine cannot bring to canonical form is reported as not decided in the evidence and raises no alarm.")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
json.dump({p["id"]: {"rule": p["rule"], "assume": p["assume"], "title": p["title"]} for p in P}, open(V + "/checker/props.json", "w"), indent=1)
