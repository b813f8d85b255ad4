"""The properties, their harnesses and bounds; and the check procedure."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

import check as C

from table import PROPS

TRUSTED = [
    "qsym (the LLVM-IR symbolic executor under /verif/qsym) and z3 4.x / cvc5 1.1.2",
    "rustc's own optimiser up to the emitted LLVM IR (opt-level 1, overflow wraps, debug assertions off: the release semantics)",
    "std's HashMap/HashSet replaced by insertion-ordered tables with the same observable set semantics",
    "allocation never fails; hash iteration order is one representative order unless a harness says otherwise",
    "floating point -0.0 and +0.0 are identified; floating point arithmetic is exact on the (small, dyadic) values met, else the run is rejected",
]


def run_one(ll, h, tmo, scratch, deadline):
    tmo = min(tmo, deadline - time.time())
    if tmo < 2:
        return {"entry": h, "verdict": "timeout", "detail": "not started: the time of the check was used up", "wall": 0}
    out = os.path.join(scratch, h + ".json")
    cmd = [C.QSYM, ll, h, "--out", out, "--dir", scratch, "--timeout", str(tmo)]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo + 25)
        tail = p.stdout[-2000:]
    except subprocess.TimeoutExpired:
        return {"entry": h, "verdict": "timeout", "detail": "engine time limit", "wall": time.time() - t}
    try:
        r = json.load(open(out))
    except Exception:
        r = {"entry": h, "verdict": "crash", "detail": "exit %s: %s" % (p.returncode, tail)}
    r["wall"] = round(time.time() - t, 2)
    r["tail"] = tail
    return r


def native(exe, h, bits, scratch):
    """run a harness natively on one assignment; (exit code, output)"""
    d = tempfile.mkdtemp(prefix="nat", dir=scratch)
    mf = os.path.join(d, "model.json")
    with open(mf, "w") as f:
        json.dump({"harness": h, "bits": bits}, f)
    w = os.path.join(d, "cwd")
    os.makedirs(w)
    try:
        p = subprocess.run([exe, h, mf, w], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
        rc, o = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, o = 124, "timeout"
    shutil.rmtree(d, ignore_errors=True)
    return rc, o


def reproduced(exe, h, bits, scratch):
    rc, o = native(exe, h, bits, scratch)
    return rc in (10, 101, 134, 139), rc, o


def ones(m):
    return sorted(int(k) for k, v in m.items() if v)


def main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--only":
            only = argv[i + 1]
            i += 1
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    os.makedirs(C.BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="run_%s_" % prop, dir=C.BUILD)
    try:
        return body(prop, P, tier, seed, only, scratch, t0)
    except C.Err as e:
        C.log("ERROR:", e)
        return 3
    except subprocess.TimeoutExpired as e:
        C.log("ERROR: time limit:", e)
        return 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def body(prop, P, tier, seed, only, scratch, t0):
    C.build_engine()
    ex = cf.ThreadPoolExecutor(max_workers=1)
    ll = C.build_ir(prop, P["modules"])
    natf = ex.submit(C.build_native, prop, P["modules"], P.get("realfft", False))
    tb = time.time() - t0
    # the harness of a recorded finding is not decided again, it is replayed on the recorded input
    hs = [h for h in P["harness"] if h.get("tier") != "finding" and (tier == "thorough" or h.get("tier", "quick") == "quick") and (only is None or only == h["name"])]
    # total budget of a quick check: 900 s from its start, builds included
    budget = (820 if tier == "quick" else 6 * 3600) - (time.time() - t0)
    deadline = time.time() + budget
    res = {}
    with cf.ThreadPoolExecutor(max_workers=P.get("jobs", 8)) as pool:
        fs = {}
        for h in sorted(hs, key=lambda h: -h.get("cost", 1)):
            t = h.get("timeout", 200 if tier == "quick" else 3 * 3600)
            fs[pool.submit(run_one, ll, h["name"], t, scratch, deadline)] = h
        for f in cf.as_completed(fs):
            h = fs[f]["name"]
            if f.cancelled():
                res[h] = {"entry": h, "verdict": "skipped", "detail": "a violation was found first"}
                continue
            r = f.result()
            res[h] = r
            C.log("%-40s %-10s exec %.1fs solver %.1fs obligations %s queries %s %s" % (r["entry"], r["verdict"], r.get("exec_s", 0), r.get("solver_s", 0), r.get("obligations"), r.get("queries"), r.get("detail", "")[:300]))
            if r["verdict"] == "violated" and natf.done() and reproduced(natf.result(), h, ones(r.get("model", {})), scratch)[0]:
                # confirmed against the real code: the rest need not be run
                for g in fs:
                    g.cancel()
    exe = natf.result()
    known = known_findings(prop)
    bad, err, kf = [], [], []
    validated, samples = 0, []
    for h in hs:
        r = res[h["name"]]
        v = r["verdict"]
        if v == "holds":
            # translator validation: the witness of the vacuity check must also
            # run through natively, on std and the real collections
            rc, o = native(exe, h["name"], ones(r.get("witness", {})), scratch)
            if rc != 0:
                err.append("%s: the witness does not run through natively (exit %d): %s" % (h["name"], rc, o[-400:]))
            else:
                validated += 1
                if len(samples) < 12:
                    samples.append({"harness": h["name"], "input_bits_set": ones(r.get("witness", {})), "native_exit": rc})
        elif v == "violated":
            bits = ones(r.get("model", {}))
            yes, rc, o = reproduced(exe, h["name"], bits, scratch)
            if yes:
                validated += 1
                rp = save_replay(prop, h["name"], bits, r, rc, o, exe)
                samples.append({"harness": h["name"], "input_bits_set": bits, "native_exit": rc, "violation": r["detail"]})
                bad.append((h["name"], r["detail"], rp))
            else:
                err.append("%s: counterexample does not reproduce natively (exit %d): %s | %s" % (h["name"], rc, r["detail"], o[-400:]))
        elif v != "skipped":
            err.append("%s: %s: %s" % (h["name"], v, r.get("detail", "")))
    for k in known:
        # a recorded finding is re-run natively on its recorded input
        if reproduced(exe, k["harness"], k["bits"], scratch)[0]:
            kf.append(k)
            C.log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    evidence(prop, P, tier, seed, hs, res, validated, samples, bad, err, kf, tb, t0)
    for n, d, rp in bad:
        C.log("VIOLATION property=%s replay=%s" % (prop, rp))
        C.log("  %s: %s" % (n, d))
    if bad:
        return 1
    # a harness which could not be decided is reported and recorded in the
    # evidence, and claims nothing; the check fails to answer only if none was
    for e in err:
        C.log("INCOMPLETE:", e)
    if err and not any(res[h["name"]]["verdict"] == "holds" for h in hs):
        return 3
    C.log("OK property=%s: %d of %d harnesses decided, all hold, %.0f s" % (prop, sum(res[h["name"]]["verdict"] == "holds" for h in hs), len(hs), time.time() - t0))
    return 0


def known_findings(prop):
    p = os.path.join(C.ROOT, "known_findings.json")
    try:
        return [k for k in json.load(open(p))["findings"] if k["property"] == prop and "harness" in k]
    except OSError:
        return []


def save_replay(prop, h, bits, r, rc, o, exe):
    d = os.path.join(C.ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%s.json" % (prop, h))
    json.dump({"property": prop, "harness": h, "bits": bits, "detail": r["detail"], "kind": r.get("kind"), "native_exit": rc, "native_output": o[-3000:],
               "how": "python3 /verif/replay.py %s" % p}, open(p, "w"), indent=1)
    return p


def evidence(prop, P, tier, seed, hs, res, validated, samples, bad, err, kf, tb, t0):
    fn = set()
    tot = {k: 0 for k in ("steps", "blocks", "queries", "feasibility_queries", "obligations", "by_solver", "asserts", "input_bits", "forks")}
    solver = execs = 0.0
    per = []
    for h in hs:
        r = res[h["name"]]
        for k in tot:
            tot[k] += r.get(k, 0) or 0
        solver += r.get("solver_s", 0)
        execs += r.get("exec_s", 0)
        fn |= set(r.get("functions", []))
        per.append({"harness": h["name"], "bound": h.get("bound", ""), "verdict": r["verdict"], "kind": r.get("kind", ""), "detail": r.get("detail", "")[:300], "input_bits": r.get("input_bits"), "asserts": r.get("asserts"), "obligations": r.get("obligations"), "queries": r.get("queries"), "feasibility_queries": r.get("feasibility_queries"), "solver_s": r.get("solver_s"), "exec_s": r.get("exec_s"), "ir_instructions": r.get("steps"), "solvers": r.get("solvers")})
    own = sorted(demangle(x) for x in fn if "qsut" in x and "2vh" not in x and not x.startswith("vh_"))
    held = sum(1 for h in hs if res[h["name"]]["verdict"] == "holds")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["blocks"],
            "transitions": tot["steps"],
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no model was produced"}],
            "rule": "states: basic-block instances executed symbolically (paths merged at join points, each standing for all inputs within the bound); transitions: LLVM-IR instructions executed symbolically; traces: solver models (vacuity witnesses and counterexamples) run natively through the same source with real std",
            "harnesses": len(hs), "harnesses_holding": held,
            "asserts_and_panic_sites_checked": tot["asserts"],
            "obligations_sent_to_solver": tot["by_solver"],
            "solver_queries": tot["queries"], "solver_s": round(solver, 3), "symbolic_execution_s": round(execs, 3),
            "input_bits_symbolic": tot["input_bits"],
            "functions_encoded_total": len(fn),
            "functions_encoded_of_repository": own,
            "bounds": P["bounds"],
            "outside": P.get("outside", ""),
            "per_harness": per,
            "build_s": round(tb, 1),
            "known_findings_reproduced": [k["what"] for k in kf],
            "incomplete": err,
        },
        "assumptions": P.get("assumptions", []) + TRUSTED,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    d = os.path.join(C.ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)


def demangle(s):
    """the path components of a v0-mangled name, enough to recognise a function"""
    out, i = [], 0
    while i < len(s):
        if s[i].isdigit():
            j = i
            while j < len(s) and s[j].isdigit():
                j += 1
            n = int(s[i:j])
            k = j + (1 if j < len(s) and s[j] == "_" else 0)
            w = s[k:k + n]
            if n and len(w) == n and (w[0].isalpha() or w[0] == "_"):
                out.append(w)
                i = k + n
                continue
            i = j
        else:
            i += 1
    return "::".join(out) or s
