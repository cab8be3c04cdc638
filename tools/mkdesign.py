"""Rewrites the two tables of DESIGN.md: bounds (from the evidence of quick runs
on the unchanged tree) and planted bugs (from seeded/*/meta.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}  # id -> why

def bounds():
    out = ["| check | scenario | quick bounds | paths | exhausted | thorough bounds |", "|---|---|---|---|---|---|"]
    import sys
    sys.path.insert(0, V)
    for f in sorted(glob.glob(V + "/evidence/C*.json")):
        e = json.load(open(f))
        if e["tier"] != "quick" or e["violations"]:
            print("not a clean quick run:", f)
        th = {}
        try:
            sys.path[:0] = [os.environ.get("OPENCLSIM_REPO", "/repo") + "/src"]
            import importlib
            th = {s.name: s.thorough for s in importlib.import_module("props." + e["property"].lower()).SCENARIOS}
        except Exception as x:  # noqa
            print(f, x)
        for s in e["coverage"]["scenarios"]:
            fmt = lambda b: "as quick" if b == s["bounds"] else str(b)
            b = json.dumps(s["bounds"]).strip("{}").replace('"', "") or "-"
            t = th.get(s["scenario"])
            t = "" if t is None else "skip" if t == "skip" else json.dumps(t).strip("{}").replace('"', "") or "-"
            out.append(f"| {e['property']} | {s['scenario']}: {s['what']} | {b} | {s['paths']} | "
                       f"{'yes' if s['exhausted'] else 'no'} | {'same' if t == b else t} |")
        c = e["coverage"]
        out.append(f"| {e['property']} | **all** | {c['queries']} queries, {c['solver_s']} s in the solver | "
                   f"{c['states']} | wall {e['wall_s']:.0f} s | {c['obligations']} obligations |")
    return "\n".join(out)

def planted():
    out = ["| id | breaks | needs | effect | caught |", "|---|---|---|---|---|"]
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m, i = json.load(open(f)), f.split("/")[-2]
        out.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | "
                   f"{MISSED.get(i, 'by ' + m['property'])} |")
    return "\n".join(out)

p = V + "/DESIGN.md"
s = open(p).read()
for tag, fn in (("bounds", bounds), ("planted", planted)):
    s = re.sub(rf"(<!-- {tag} -->\n).*?(\n<!-- /{tag} -->)", lambda m: m.group(1) + fn() + m.group(2), s, flags=re.S)
open(p, "w").write(s)
