#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree."""
import argparse, json, os, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import jobs as jobspec


def known_findings(prop):
    out = []
    p = os.path.join(vlib.VERIF, "known_findings.json")
    if os.path.exists(p):
        for f in json.load(open(p)).get("findings", []):
            if f["property"] == prop:
                out.append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--threads", type=int, default=8)
    ap.add_argument("--only", default="")
    ap.add_argument("--time", type=int, default=0)
    ap.add_argument("--jobtime", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    js = jobspec.jobs(a.prop, tier)
    if a.only:
        js = [j for j in js if a.only in j["id"]]
    tlimit = a.time or (420 if tier == "quick" else 5400)
    engine = vlib.build_engine()
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    ll = os.path.join(work, "harness.ll")
    try:
        vlib.build_ir(ll)
        tb = time.time() - t0
        dump = None
        if tier == "thorough":
            dump = os.path.join(work, "smt")
            os.makedirs(dump)
        res, summ = vlib.symex(engine, ll, js, os.path.join(work, "out.json"), a.threads, tlimit, dump=dump,
                               jobtime=a.jobtime or (60 if tier == "quick" else 900))
        rc = report(a, tier, seed, js, res, summ, t0, tb, dump)
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def cross_check(dump):
    """Ask a second solver about a sample of the queries answered unsat."""
    import glob, subprocess
    n = bad = und = 0
    t0 = time.time()
    for f in sorted(glob.glob(os.path.join(dump, "*.smt2")))[:300]:
        if time.time() - t0 > 900:
            break
        try:
            p = subprocess.run(["cvc5", "--tlimit=20000", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
            o = p.stdout.decode().strip().splitlines()
            o = o[-1] if o else ""
        except subprocess.TimeoutExpired:
            o = "timeout"
        if o == "unsat":
            n += 1
        elif o == "sat":
            bad += 1
        else:
            und += 1
    return {"queries_confirmed_unsat_by_cvc5": n, "contradicted": bad, "undecided_by_cvc5": und}


def report(a, tier, seed, js, res, summ, t0, tb, dump):
    prop = a.prop
    byid = {r["job"]: r for r in res}
    tot = {k: 0 for k in ("paths", "infeasible", "steps", "forks", "asserts", "asserts_const", "queries", "solver_calls",
                          "cached", "pooled", "sat", "unsat", "unknown")}
    solver_s = maxq = 0.0
    funcs, incomplete, problems, viols, jobrows, vac = set(), [], [], [], [], []
    nsym = 0
    for j in js:
        r = byid.get(j["id"])
        if r is None:
            incomplete.append({"job": j["id"], "reason": "not run"})
            continue
        for k in tot:
            tot[k] += r[k]
        solver_s += r["solver_s"]
        maxq = max(maxq, r["max_query_s"])
        nsym = max(nsym, r["symbols"])
        funcs.update(r["funcs"])
        row = {"job": j["id"], "harness": j["h"], "params": j["p"], "what": j.get("what", ""), "paths": r["paths"],
               "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "cpu_s": round(r["cpu_s"], 2), "symbols": r["symbols"]}
        if a.v:
            print("%-32s wall %5.1f cpu %5.1f paths %6d q %d z3 %.1fs cov %s %s" % (j["id"], r["wall_s"], r["cpu_s"], r["paths"], r["queries"], r["solver_s"], r["covers"], [e[:300] for e in r["errors"]]))
        if r["errors"]:
            e = [x[:300] for x in r["errors"]]
            row["incomplete"] = e
            incomplete.append({"job": j["id"], "reason": e[0]})
            for x in e:
                if not x.startswith("time limit"):
                    problems.append((j["id"], x))
        if r["unknown"]:
            row["unknown"] = r["unknown"]
        for v in r["violations"]:
            viols.append((j, v))
        if not r["violations"]:
            miss = [c for c in j.get("need", []) if not r["covers"].get(str(c))]
            if miss:
                row["not_covered"] = miss
                vac.append((j["id"], miss, bool(r["errors"])))
        jobrows.append(row)

    # native cross-check of sampled paths
    validated, disagree = 0, []
    samples = []
    need_native = any(r["samples"] for r in res)
    if need_native:
        b = vlib.build_replay("dev")
        budget = time.time() + (60 if tier == "quick" else 600)
        for r in res:
            for s in r["samples"][: 8 if tier == "quick" else 24]:
                if time.time() > budget:
                    break
                if r["violations"]:
                    continue
                k, msg, out = vlib.native(b, r["harness"], r["params"], s["syms"])
                if k == "ok" and msg.split()[-1] == s["h"]:
                    validated += 1
                    if len(samples) < 6 and s["syms"]:
                        samples.append({"harness": r["harness"], "params": r["params"], "values": s["syms"][:40], "observed": msg})
                else:
                    disagree.append({"job": r["job"], "syms": s["syms"], "native": k + " " + msg})

    rc = 0
    nviol = 0
    known = known_findings(prop)
    printed = set()
    for j, v in viols:
        if v["msg"].startswith("harness:"):
            # a table of the harness is full: outside the bounds
            incomplete.append({"job": j["id"], "reason": v["msg"]})
            print("undecided: job=%s %s" % (j["id"], v["msg"]))
            continue
        if nviol >= 3:
            print("  further: job=%s %s: %s (not replayed)" % (j["id"], v["kind"], v["msg"]))
            continue
        hits = vlib.reproduce(v, j["h"], j["p"])
        desc = "%s: %s" % (v["kind"], v["msg"])
        if not hits and "(hang)" in v["msg"]:
            # a long path, not an endless one
            incomplete.append({"job": j["id"], "reason": "step limit: " + desc})
            print("undecided: job=%s %s" % (j["id"], desc))
            continue
        if not hits:
            print("UNREPRODUCED %s job=%s %s syms=%s" % (prop, j["id"], desc, v["syms"]))
            rc = max(rc, 2) if rc != 1 else 1
            continue
        kf = None
        for f in known:
            if f["job"] == j["id"] and f["message"] == v["msg"]:
                kf = f
        if kf:
            if kf["id"] not in printed:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
                printed.add(kf["id"])
            continue
        nviol += 1
        rd = os.path.join(vlib.BUILD, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (prop, j["id"]))
        json.dump({"property": prop, "job": j["id"], "harness": j["h"], "params": j["p"], "values": v["syms"], "kind": v["kind"],
                   "message": v["msg"], "engine_trace": v["trace"], "reproduced": [{"mode": m, "result": x} for m, x in hits],
                   "rerun": "python3 /verif/tools/replay.py " + path}, open(path, "w"), indent=1)
        print("  %s in job %s (%s)" % (desc, j["id"], j.get("what", "")))
        for m, x in hits:
            print("    reproduced natively [%s]: %s" % (m, x))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    nvac = 0
    for jid, miss, had_err in vac:
        print("%s job=%s never reached %s" % ("incomplete" if had_err else "VACUOUS", jid, miss))
        if not had_err:
            nvac += 1
            if rc == 0 and 9 in miss:
                rc = 2
    if rc == 0 and nvac > len(js) // 4:
        rc = 2
    if disagree and rc == 0:
        for d in disagree[:3]:
            print("ENGINE-MISMATCH %s" % d)
        rc = 2
    for jid, x in problems[:5]:
        print("undecided: job=%s %s" % (jid, x))
    if rc == 0 and tot["paths"] == 0:
        print("nothing was explored")
        rc = 2
    if rc == 0 and problems and len({p[0] for p in problems}) == len(js):
        rc = 2
    lib = sorted(f for f in funcs if "rusty_rtree" in f)
    cov = {
        "states": tot["forks"] + tot["paths"],
        "transitions": tot["steps"],
        "traces_validated_against_impl": validated,
        "samples": samples or [{"harness": r["harness"], "params": r["params"], "paths": r["paths"]} for r in res[:3]],
        "paths": tot["paths"],
        "paths_infeasible": tot["infeasible"],
        "assertions_checked": tot["asserts"],
        "assertions_folded_to_true": tot["asserts_const"],
        "queries": tot["queries"],
        "queries_sent_to_z3": tot["solver_calls"],
        "queries_answered_by_cache_or_pooled_model": tot["cached"] + tot["pooled"],
        "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
        "solver_s": round(solver_s, 2), "max_query_s": round(maxq, 3),
        "max_symbols_on_a_path": nsym,
        "functions_encoded": len(funcs), "functions_of_rusty_rtree_encoded": lib[:400],
        "bounds": jobspec.BOUNDS.get(prop, ""),
        "outside_bounds": jobspec.OUTSIDE.get(prop, ""),
        "jobs": jobrows,
        "incomplete_jobs": incomplete,
        "exhaustive": not incomplete and tot["unknown"] == 0,
        "solver": "z3 " + summ["z3"],
    }
    if dump:
        cov["second_solver"] = cross_check(dump)
        if cov["second_solver"]["contradicted"] and rc == 0:
            print("SOLVER-DISAGREEMENT")
            rc = 2
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": jobspec.ASSUME, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d jobs, %d paths, %d assertions, %d queries (%d to z3, %.1fs), %d native cross-checks, build %.0fs, wall %.0fs, incomplete %d, rc %d"
          % (prop, tier, len(js), tot["paths"], tot["asserts"], tot["queries"], tot["solver_calls"], solver_s, validated, tb,
             time.time() - t0, len(incomplete), rc))
    return rc


if __name__ == "__main__":
    try:
        main()
    except Exception as e:
        print("CHECK-ERROR:", e)
        sys.exit(2)
