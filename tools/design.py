# Writes DESIGN.md from tools/design_head.md, the property table, the
# specifications and the planted bugs (python3 tools/design.py).
import re, glob, json, os, collections, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("props", V + "/tools/props.py")
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
anchors = collections.defaultdict(list); total = 0
for f in sorted(glob.glob(V + "/checker/spec/*.txt")):
    for l in open(f):
        g = re.match(r"// spec (\S+) (.*)", l)
        if g:
            total += 1
            for t in g.group(2).split():
                if re.match(r"C\d\d$", t):
                    anchors[t].append(g.group(1))
seeds = collections.defaultdict(list)
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(d)); seeds[j["property"]].append((os.path.basename(os.path.dirname(d)), j["what_it_breaks"]))
extra = json.load(open(V + "/tools/design_notes.json"))
out = [open(V + "/tools/design_head.md").read().rstrip().replace("@TOTAL@", str(total)), "", "## 5. Property by property", ""]
for p in m.P:
    i = p["id"]
    if not anchors[i]:
        continue
    out += ["### %s  %s" % (i, p["title"]), ""]
    out += ["Decided: " + p["rule"] + ".", ""]
    if i in extra:
        out += [extra[i], ""]
    out += ["Compared functions (%d): %s." % (len(anchors[i]), ", ".join("`%s`" % a for a in sorted(anchors[i]))), ""]
    out += ["Beyond the tests: " + p["why"], ""]
    if seeds[i]:
        out += ["Planted bugs reported: " + "; ".join("%s (%s)" % s for s in seeds[i]) + ".", ""]
out += [open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
