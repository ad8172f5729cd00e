#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree.

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": a counterexample
that the natively compiled code reproduces; exit 2: the check itself could not be carried out."""
import argparse, glob, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from table import CHECKS, ASSUMPTIONS, TITLES

KNOWN = os.path.join(vlib.VERIF, "known_findings.json")
QUICK_BUDGET = 600.0
THOROUGH_BUDGET = 3000.0


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") == "known"]
    except FileNotFoundError:
        return []


def demangle(n):
    """the readable part of a v0-mangled name: its identifiers"""
    parts = []
    i = 0
    while i < len(n):
        m = re.match(r"\d+", n[i:])
        if m:
            k = int(m.group())
            j = i + m.end()
            if n[j:j + 1] == "_":
                j += 1
            if 0 < k <= len(n) - j and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", n[j:j + k]):
                parts.append(n[j:j + k])
                i = j + k
                continue
            i += m.end()
        else:
            i += 1
    return "::".join(parts)


def crate_functions(names):
    """functions of the crate under test that were executed symbolically"""
    out = set()
    for n in names:
        if n.startswith("_R") and ("8starling" in n or "14starling_plain" in n):
            d = demangle(n)
            if d:
                out.add(d)
    return sorted(out)


def cross_check(dump, limit_s):
    """a second opinion: dumped queries to cvc5 and a newer z3"""
    t0 = time.time()
    res = {"queries": 0, "agree": 0, "timeouts": 0, "disagree": []}
    for f in sorted(glob.glob(os.path.join(dump, "*.smt2"))):
        if time.time() - t0 > limit_s:
            break
        want = "unsat" if f.endswith("-unsat.smt2") else "sat"
        for cmd in (["cvc5", "--tlimit=10000", f], ["z3-new", "-T:10", f]):
            if not shutil.which(cmd[0]):
                continue
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=30)
            except subprocess.TimeoutExpired:
                res["timeouts"] += 1
                continue
            got = (r.stdout.split() or [""])[0]
            res["queries"] += 1
            if got == want:
                res["agree"] += 1
            elif got in ("sat", "unsat"):
                res["disagree"].append(f"{cmd[0]} says {got}: {os.path.basename(f)}")
            else:
                res["timeouts"] += 1
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    entries = [e for e in CHECKS[prop] if (tier == "thorough" or e.tier == "quick") and (not a.only or re.fullmatch(a.only, e.name))]
    cfgs = list(dict.fromkeys(e.cfg for e in entries))
    out = os.path.join(vlib.VERIF, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    known = known_findings(prop)
    vlib.build(cfgs)
    build_s = time.time() - t0
    budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
    results, violations, notes, cross = [], [], [], None
    seen_known = set()
    mismatches = []
    validated = 0
    t1 = time.time()
    for cfg in cfgs:
        es = [e for e in entries if e.cfg == cfg]
        left = budget - (time.time() - t1)
        # what is left of the time is shared; entries that need little leave it to the others
        specs = []
        for e in es:
            lim = e.time if tier == "quick" else e.time_thorough
            specs.append(f"{e.name}@time={max(5, min(lim, left)):.0f}" + ("," + e.opts if e.opts else ""))
        extra = ["--seed", str(seed), "--samples", "24" if tier == "quick" else "80"]
        if not known:
            extra += ["--stop-on-violation"]
        dump = os.path.join(out, "smt-" + cfg)
        if tier == "thorough":
            extra += ["--dump-every", "997", "--dump-dir", dump]
        extra += ["--budget", f"{max(10, left):.0f}"]
        rs, log = vlib.semir(cfg, specs, os.path.join(out, f"semir-{cfg}.json"), extra, timeout=max(10, left) + 120)
        byname = {r["entry"]: r for r in rs}
        for e in es:
            r = byname.get(e.name)
            if r is None:
                notes.append(f"{cfg}/{e.name}: not run (budget or earlier violation)")
                continue
            r["cfg"], r["bounds"] = cfg, e.bounds
            results.append(r)
            # counterexamples are replayed against the natively compiled code
            done = set()
            for v in r["violations"]:
                if v["msg"] in done and len(done) > 0:
                    continue
                done.add(v["msg"])
                got, end = vlib.native(cfg, [(e.name, v["input"])], 60)
                st = got[0] if got else (end, "", "")
                ok = st[0] in ("FAIL", "PANIC") or end != "ok"
                k = [x for x in known if x["entry"] == e.name and re.search(x["message"], v["msg"])]
                if k:
                    seen_known.add(k[0]["id"])
                    continue
                rec = {"property": prop, "configuration": cfg, "entry": e.name, "input": v["input"], "message": v["msg"],
                       "tags": v["tags"], "stack": v["stack"], "native": {"status": st[0], "message": st[2], "end": end},
                       "reproduced": ok, "bounds": e.bounds,
                       "how_to_replay": f"python3 {vlib.VERIF}/tools/replay.py <this file>"}
                p = os.path.join(out, f"counterexample-{len(violations)}.json")
                vlib.write(p, json.dumps(rec, indent=1))
                rec["path"] = p
                violations.append(rec)
            # engine against native: the same inputs must give the same observations
            cases = [(e.name, s[0]) for s in r["samples"]]
            if cases and not r["violations"]:
                got, end = vlib.native(cfg, cases, 120)
                for i, s in enumerate(r["samples"]):
                    st = got[i] if i < len(got) else (end, "", "")
                    if st[0] == "OK" and st[1] == s[1]:
                        validated += 1
                    elif st[0] in ("FAIL", "PANIC", "hang") or st[0].startswith("died"):
                        # the real code violates the assertion on this input though the engine saw it hold
                        g2, e2 = vlib.native(cfg, [cases[i]], 60)
                        s2 = g2[0] if g2 else (e2, "", "")
                        if s2[0] == "OK" and s2[1] == s[1] and i >= len(got):
                            validated += 1
                            continue
                        rec = {"property": prop, "configuration": cfg, "entry": e.name, "input": s[0], "message": s2[2] or st[2] or st[0],
                               "native": {"status": s2[0], "message": s2[2], "end": e2}, "reproduced": s2[0] != "OK", "bounds": e.bounds,
                               "note": "seen when validating an explored path natively",
                               "how_to_replay": f"python3 {vlib.VERIF}/tools/replay.py <this file>"}
                        p = os.path.join(out, f"counterexample-{len(violations)}.json")
                        vlib.write(p, json.dumps(rec, indent=1))
                        rec["path"] = p
                        violations.append(rec)
                        break
                    else:
                        mismatches.append(f"{e.name} input {s[0]}: engine observed {s[1]}, native {st}")
        if tier == "thorough":
            c = cross_check(dump, 120)
            if cross is None:
                cross = c
            else:
                for k2 in ("queries", "agree", "timeouts"):
                    cross[k2] += c[k2]
                cross["disagree"] += c["disagree"]
        if violations and not known:
            break
    errors = [f"{r['entry']}: {e['msg']} [{e['input']}] {e['stack']}" for r in results for e in r["errors"]]
    for r in results:
        e = next(x for x in entries if x.name == r["entry"] and x.cfg == r["cfg"])
        missing = [c for c in e.covers if c not in r["covers"]]
        if r["complete"] and missing:
            errors.append(f"{r['entry']}: never reached: {missing}")
        if not r["complete"]:
            notes.append(f"{r['cfg']}/{r['entry']}: not exhausted within its bounds ({r['stopped']}; {r['pending']} pending, {r['unknown']} unknown)")
    exhaustive = bool(results) and all(r["complete"] for r in results) and len(results) == len(entries)
    real = [v for v in violations if v["reproduced"]]
    spurious = [v for v in violations if not v["reproduced"]]
    tot = lambda k: sum(r[k] for r in results)
    fns = set()
    for r in results:
        fns.update(r["functions"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"),
            "traces_validated_against_impl": validated,
            "samples": [f"{r['cfg']}/{r['entry']} input {s[0] or '-'} observed {s[1][:80] or '-'}" for r in results for s in r["samples"][:2]][:40],
            "exhaustive": exhaustive,
            "technique": "symbolic execution of the LLVM IR rustc emits for the real code; Z3 decides every branch and assertion over all inputs within the bounds",
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "assertions_evaluated": tot("assertions"), "assertion_queries": tot("assertion_queries"),
            "solver_s": round(tot("solver_s"), 3), "instructions": tot("instructions"), "build_s": round(build_s, 2),
            "functions_encoded": crate_functions(fns), "functions_encoded_total": len(fns),
            "entries": [{k: r[k] for k in ("entry", "cfg", "bounds", "complete", "stopped", "pending", "paths", "infeasible_or_assumed_away",
                         "decisions", "queries", "sat", "unsat", "unknown", "solver_s", "wall_s", "symbolic_bytes", "instructions",
                         "max_instructions_per_path", "max_decisions_per_path", "assertions", "assertion_queries", "covers")} for r in results],
            "bounds": [f"{e.name}: {e.bounds}" for e in entries],
            "notes": notes,
        },
        "wall_s": round(time.time() - t0, 3),
        "assumptions": ASSUMPTIONS["*"] + ASSUMPTIONS.get(prop, []),
        "violations": [{"message": v["message"], "replay": v["path"], "entry": v["entry"], "input": v["input"]} for v in real],
    }
    if cross is not None:
        ev["coverage"]["second_solvers"] = cross
    vlib.write(os.path.join(vlib.VERIF, "evidence", prop + ".json"), json.dumps(ev, indent=1))
    for k in known:
        if k["id"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for n in notes:
        print("note:", n)
    print(f"{prop} {tier}: {len(results)} harnesses, {tot('paths')} paths, {tot('queries')} queries, solver {tot('solver_s'):.1f} s, "
          f"{validated} paths validated natively, exhaustive={exhaustive}, {time.time() - t0:.0f} s")
    if real:
        for v in real[:5]:
            print(f"  {v['entry']}: {v['message']} (native: {v['native']['status']} {v['native']['message']})")
            print(f"VIOLATION property={prop} replay={v['path']}")
        sys.exit(1)
    if spurious or mismatches or errors or (cross and cross["disagree"]):
        for x in [f"counterexample not reproduced natively: {v['entry']} {v['message']} {v['path']}" for v in spurious] + mismatches[:5] + errors[:5] + (cross["disagree"] if cross else []):
            print("error:", x)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except vlib.Broken as e:
        print("error:", e)
        sys.exit(2)
