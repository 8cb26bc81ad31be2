"""writes properties.jsonl and MANIFEST.json from sa/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import props, ir

TECH_F = "value-numbering summaries (algebraic normal forms) compared with a reviewed reference"
RT = {
    "locks": "lock-set, guarded-by and lock-order analysis", "format": "format-string / argument type check", "cov_symmetric": "block-symmetry dataflow rule",
    "cam_derivative": "symbolic source differentiation compared with coded derivatives (normal forms)", "fg_agree": "sibling-model agreement",
}


def main():
    with open(os.path.join(ir.HERE, "properties.jsonl"), "w") as f:
        for p in props.PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "state": [{"name": n, "meaning": w} for n, w in p["state"]]}}) + "\n")
        for id, t, s, over, q, why in props.NOT_APPLICABLE:
            f.write(json.dumps({"id": id, "title": t, "statement": s, "quantifier": {"over": over, "text": q},
                                "why_tests_cant": "The simulation tests only check that a run finishes.",
                                "anchors": {"files": ["ov_msckf/src/core/VioManager.cpp"], "mechanism": [{"name": "estimator as a whole", "where": "ov_msckf/src/core/VioManager.cpp"}]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 sa/setup.py",
         "checks": [], "not_applicable": [{"property": n[0], "reason": n[5]} for n in props.NOT_APPLICABLE],
         "notes": "All checks are static: they parse /repo's current source with a LibTooling extractor and decide on the resolved program. See DESIGN.md."}
    from sa import rules
    for p in props.PROPS:
        rl = [r for r in p["rules"] if hasattr(rules, "rule_" + r)]
        if not p["fns"] and not rl:
            m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
            continue
        t = "static: " + "; ".join(([TECH_F] if p["fns"] else []) + [RT.get(r, "custom rule '" + r + "'") for r in rl])
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 sa/check.py {p['id']} --tier quick",
                            "thorough_cmd": f"python3 sa/check.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
                            "technique": t, "level": "other",
                            "level_note": "Sound for the constructs it decides, up to the modelled library semantics and real arithmetic; obligations whose comparison is inconclusive are listed as undecided in the evidence and not claimed."})
    json.dump(m, open(os.path.join(ir.HERE, "MANIFEST.json"), "w"), indent=1)

    design(m)


def design(m):
    """refreshes the generated sections of DESIGN.md"""
    import glob, re
    from sa import rules
    path = os.path.join(ir.HERE, "DESIGN.md")
    d = open(path).read()

    def put(name, text):
        nonlocal d
        d = re.sub(rf"(<!-- {name}:begin -->\n).*?(<!-- {name}:end -->)", lambda k: k.group(1) + text + k.group(2), d, flags=re.S)
    R = None
    try:
        from sa import eq, check
        R = eq.load_ref()
    except Exception:
        pass
    t = "| id | property | specified / enumerated | oracle | rules |\n|---|---|---|---|---|\n"
    for p in props.PROPS:
        n = len(check.select(R, p["fns"])) if R else "?"
        rl = [r for r in p["rules"] if hasattr(rules, "rule_" + r)]
        t += (f"| {p['id']} | {p['title']} | " + (f"{n} functions, every summary slot" if p["fns"] else "rule instances") +
              (" ; declared defaults, field widths and enumerators" if p["data"] else "") + " | " +
              ("reviewed reference summary" if p["fns"] else "rule table") + (" + rules" if rl and p["fns"] else "") + f" | {', '.join(rl) or '-'} |\n")
    for n in props.NOT_APPLICABLE:
        t += f"| {n[0]} | {n[1]} | not applicable: {n[5]} | - | - |\n"
    put("table", t)
    t = ""
    for r in sorted(x for x in dir(rules) if x.startswith("rule_")):
        f = getattr(rules, r)
        users = [p["id"] for p in props.PROPS if r[5:] in p["rules"]]
        t += f"* **{r[5:]}** ({', '.join(users)}): {' '.join((f.__doc__ or '').split())}\n"
    put("rules", t)
    t = ""
    for ln in open(os.path.join(ir.HERE, "known_findings.jsonl")):
        o = json.loads(ln)
        if o["status"] == "fixed":
            t += f"* {o['entry']}\n"
    put("fixed", t)
    t = "| id | property | change | caught by |\n|---|---|---|---|\n"
    res = {}
    rf = os.path.join(ir.HERE, "dev", "seeded_results.json")
    if os.path.exists(rf):
        res = json.load(open(rf))
    for f in sorted(glob.glob(os.path.join(ir.HERE, "seeded", "*", "meta.json"))):
        o = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        t += f"| {i} | {o['property']} | {o['what_it_breaks']} | {res.get(i, '?')} |\n"
    put("seeded", t)
    open(path, "w").write(d)


main()
