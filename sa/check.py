"""usage: check.py <property id> [--tier quick|thorough]   (run from /verif)

exit 0  every obligation of the property is discharged or undecided (undecided ones are listed in the evidence)
exit 1  a construct of the current source breaks the property ("VIOLATION property=<id> replay=<path>")
exit 2  the analysis could not be carried out (never a verdict)
"""
import argparse, json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import ir, eq, props, rules

EV = os.path.join(ir.HERE, "evidence")
KNOWN = os.path.join(ir.HERE, "known_findings.jsonl")


def short(f):
    if f["n"] == "main":
        return "main@" + os.path.basename(f["file"]).rsplit(".", 1)[0]
    return re.sub(r"^ov_(core|msckf|init|eval|type)::", "", f["n"])


def select(P, pat):
    if not pat:
        return []
    r = re.compile(pat)
    return sorted(k for k, f in P.fns.items() if not eq.skip(f) and r.fullmatch(short(f)))


class Violation:
    def __init__(self, rule, where, what, ident=None):
        self.rule, self.where, self.what = rule, where, what
        self.ident = ident or f"{rule}|{where.rsplit(':', 1)[0]}|{what}"

    def line(self):
        return f"{self.where}: [{self.rule}] {self.what}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    prop = next((p for p in props.PROPS if p["id"] == a.property), None)
    if prop is None:
        print("unknown property", a.property)
        return 2
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        rc = run(prop, tier, t0)
    except ir.AnalysisBroken as ex:
        print(f"ANALYSIS-ERROR {a.property}: {ex}")
        return 2
    return rc


def run(prop, tier, t0):
    P = ir.load()
    R = eq.load_ref()
    pair = eq.Pair(R, P)
    pid = prop["id"]
    viol, undecided, samples = [], [], []
    counts = {"equal": 0, "different": 0, "unknown": 0, "identical_source": 0}
    # --- conformance of the functions that carry the property
    keys = select(R, prop["fns"])
    if prop["fns"] and len(keys) < 2:
        raise ir.AnalysisBroken(f"selector of {pid} matches {len(keys)} functions")
    budget = 30000 if tier == "quick" else 120000
    secs = 60 if tier == "quick" else 300
    terms = 0
    for k in keys:
        if tier == "thorough" and k in P.fns:
            pair.force = True          # no source-identity shortcut: the summaries themselves are compared
        v, slots, info = pair.compare(k, budget, secs)
        if prop.get("slots"):
            slots = [s for s in slots if re.search(prop["slots"], s[0])]
        if v == "different" and slots:
            counts["different"] += 1
            f = P.fns[k]
            for s, d, ln in slots:
                viol.append(Violation("conformance", f"{ir.rel(f['file'])}:{ln or f['l']}",
                                      f"{short(f)}: {eq.slotname(s)}: {eq.describe(d[0])}"))
        elif v == "unknown":
            counts["unknown"] += 1
            undecided.append({"function": k[:200], "why": info.get("why", "")[:300]})
        else:
            counts["equal"] += 1
            counts["identical_source"] += info.get("why") == "identical"
            terms += info.get("terms", 0)
            if len(samples) < 3 and info.get("why") != "identical":
                samples.append({"function": k[:160], "verdict": info.get("why")})
    # --- declared defaults, field types, enumerators
    dv, dn, dunk = eq.data_obligations(pair, prop["data"], {R.fns[k]["cls"] for k in keys if R.fns[k]["n"].endswith("::(ctor)") and R.fns[k].get("cls")})
    for where, what in dv:
        viol.append(Violation("declared-data", where, what))
    undecided += [{"data": x} for x in dunk]
    # --- first-principles rules
    ruleinfo = []
    for r in prop["rules"]:
        fn = getattr(rules, "rule_" + r, None)
        if fn is None:
            continue
        res = fn(P, pair, pid, tier)
        ruleinfo.append({"rule": r, "instances": res.n, "what": (fn.__doc__ or "").strip(), "samples": res.samples[:4]})
        if res.n < res.floor:
            raise ir.AnalysisBroken(f"rule {r}: only {res.n} instances found (expected at least {res.floor})")
        for where, what in res.viol:
            viol.append(Violation(r, where, what))
    # --- findings recorded earlier
    known = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln:
                o = json.loads(ln)
                if o.get("property") == pid and o.get("status") == "known":
                    known.append(o)
    new, old = [], []
    for v in viol:
        k = next((o for o in known if o["rule"] == v.rule and o["match"] in v.line()), None)
        (old if k else new).append((v, k))
    for o in known:
        if any(k is o for _, k in old):
            print(f"KNOWN-FINDING: property={pid} {o['what']}")
    wall = time.time() - t0
    nobl = len(keys) + dn + sum(x["instances"] for x in ruleinfo)
    os.makedirs(EV, exist_ok=True)
    cov = {
        "explanation": prop_expl(prop, len(keys), dn, ruleinfo),
        "obligations": nobl,
        "discharged": nobl - len(viol) - len(undecided),
        "undecided": undecided,
        "units_parsed_this_run": P.parsed, "translation_units": len(P.units), "functions_in_program": len(P.fns),
        "functions_checked": len(keys), "verdicts": counts, "value_terms_compared": terms,
        "data_obligations": dn, "rules": ruleinfo,
        "function_list": [k[:140] for k in keys],
        "samples": samples or [{"function": k[:160]} for k in keys[:3]],
        "known_findings_reproduced": len(old),
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(wall, 2), "violations": [v.line()[:800] for v, _ in new]}
    with open(os.path.join(EV, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid} {prop['title']}: {nobl} obligations ({len(keys)} functions, {dn} declared values, "
          f"{sum(x['instances'] for x in ruleinfo)} rule instances), {len(undecided)} undecided, {len(new)} violations, {wall:.1f} s")
    for u in undecided[:12]:
        print("  undecided:", json.dumps(u)[:300])
    if new:
        rp = os.path.join(EV, pid + ".violations.txt")
        with open(rp, "w") as fh:
            for v, _ in new:
                fh.write(v.line() + "\n")
        for v, _ in new[:20]:
            print("  " + v.line()[:700])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


ASSUME = [
    "clang 18 front end resolves the program as the build does (same flags, taken from the project's CMake files)",
    "third-party library calls (Eigen, OpenCV, Boost, Ceres, std) behave as modelled in sa/sem.py; unmodelled calls are opaque, equal for equal arguments",
    "real arithmetic: floating-point rounding, NaN and overflow are outside the argument; float/double narrowing is kept",
    "undecided obligations (listed) are not claimed",
]


def prop_expl(p, nf, nd, ri):
    s = (f"Value-numbering summaries (return value, every field and parameter written, exit conditions, as algebraic normal forms over entry values) of the {nf} "
         f"functions that carry the property are computed from the current source and compared slot by slot with those of the reviewed reference program; "
         f"{nd} declared defaults/enumerators compared.") if nf else ""
    for r in ri:
        s += f" Rule {r['rule']}: {r['instances']} instances."
    return s.strip()


if __name__ == "__main__":
    sys.exit(main())
