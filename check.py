#!/opt/venv/bin/python
"""check.py --property Cxx [--tier quick|thorough]: decide one property on /repo's working tree.

exit 0: every obligation discharged, or the undecided units passed their bounded stand-in
exit 1: VIOLATION line printed
"""

import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def run(mode, args, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", PYTHONPATH=HERE)
    p = subprocess.Popen([PY, "-B", "-m", "vf.runner", mode, *map(str, args)], cwd=HERE, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True)
    p.vf_timeout = timeout
    return p


def collect(p):
    try:
        out, err = p.communicate(timeout=p.vf_timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return None, "timeout"
    try:
        return json.loads(out.strip().splitlines()[-1]), err
    except Exception:
        return None, err[-3000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--self-test", action="store_true", help="check that the engine, the solvers and the library import offline")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-rand", action="store_true")
    a = ap.parse_args()
    if a.self_test:
        return self_test()
    if not a.property:
        ap.error("--property is required")
    t0 = time.monotonic()
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = a.tier == "thorough"
    budget = 6000 if thorough else 600
    jobs = os.cpu_count() or 4
    evdir = os.environ.get("VF_EVIDENCE") or os.path.join(HERE, "evidence")
    repdir = os.path.join(evdir, "replay", pid)
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        os.unlink(os.path.join(repdir, f))

    extra = [a.only] if a.only else []
    ps = run("sym", [pid, a.tier, seed, budget, jobs, *extra], budget + 60)
    pr = None if a.no_rand else run("rand", [pid, a.tier, seed, 2400 if thorough else 240, max(2, jobs // 2), *extra], 2460 if thorough else 300)
    sym, serr = collect(ps)
    rnd, rerr = (None, "skipped") if pr is None else collect(pr)

    violations, known, undecided, assumptions, functions = [], [], [], set(), set()
    ob_total = ob_done = inst_total = inst_done = 0
    backends = {}
    solver_s = 0.0
    paths = 0
    units_sym = []
    spurious = []
    rnd_results = (rnd or {}).get("results", {})
    if sym is None:
        undecided.append({"unit": "*", "why": f"symbolic run failed: {serr}"})
        sym = {"results": {}, "sources": {}, "bounded_units": []}
    if rnd is None and not a.no_rand:
        undecided.append({"unit": "*", "why": f"bounded run failed: {rerr}"})

    nrep = 0

    def write_replay(rec):
        nonlocal nrep
        nrep += 1
        p = os.path.join(repdir, f"{nrep:03d}.json")
        with open(p, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        return p

    # 1. violations found by the bounded run-time contract check (real inputs on the real code)
    bounded_samples = bounded_checked = distinct = 0
    samples = []
    stand_in = {}
    for key, r in rnd_results.items():
        if "crash" in r:
            undecided.append({"unit": key, "why": "bounded run: " + str(r["crash"])[-400:]})
            continue
        bounded_samples += r["accepted"]
        bounded_checked += r["checked"]
        distinct += r.get("distinct", 0)
        stand_in[key] = r
        if r.get("example") and len(samples) < 4:
            samples.append(r["example"])
        if r["errors"]:
            undecided.append({"unit": key, "why": "harness error in bounded run: " + r["errors"][0][-400:]})
        for vio in r["violations"][:2]:
            p = write_replay({"property": pid, "unit": r["unit"], "case": r["case"], "inputs": vio["inputs"], "labels": vio["labels"],
                              "found_by": "bounded run-time contract check"})
            violations.append((p, vio["labels"][0], True))

    # 2. failed obligations, replayed on the real code
    for key, r in sym["results"].items():
        if "crash" in r:
            undecided.append({"unit": key, "why": str(r["crash"])[-600:]})
            continue
        units_sym.append(key)
        paths += r["paths"]
        solver_s += r["solver_s"]
        assumptions |= set(r["assumptions"])
        functions |= {f for f in r["functions"] if not f.startswith("contracts.")}
        for name, (inst, done, unk, be) in r["obligations"].items():
            ob_total += 1
            inst_total += inst
            inst_done += done
            if inst == done:
                ob_done += 1
            for b, n in be.items():
                backends[b] = backends.get(b, 0) + n
        for u in r["undecided"]:
            undecided.append({"unit": key, "why": u[-900:]})
        seen = {}
        for fl in r["failures"]:
            if seen.get(fl["obligation"], 0) >= 2 or sum(v[2] for v in violations) >= 8 or nrep >= 40:
                continue  # enough confirmed; the obligation still counts as undischarged
            seen[fl["obligation"]] = seen.get(fl["obligation"], 0) + 1
            rec = {"property": pid, "unit": r["unit"], "case": r["case"], "inputs": fl["inputs"], "obligation": fl["obligation"],
                   "found_by": "deductive verifier", "exception": r.get("exc")}
            p = write_replay(rec)
            q = subprocess.run([PY, "-B", "-m", "vf.runner", "replay", p], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED="0", TZ="UTC"), timeout=120)
            if q.returncode == 1:
                rec["replayed"] = q.stdout.strip()[-800:]
                with open(p, "w") as f:
                    json.dump(rec, f, indent=1, default=str)
                violations.append((p, fl["obligation"], True))
            elif r["abstract"]:
                rec["inputs_known"] = False
                rec["verifier_output"] = f"obligation not valid; model: {json.dumps(fl['inputs'], default=str)[:2000]}"
                rec["replay_output"] = (q.stdout + q.stderr)[-800:]
                with open(p, "w") as f:
                    json.dump(rec, f, indent=1, default=str)
                violations.append((p, fl["obligation"], False))
            else:
                spurious.append({"unit": key, "obligation": fl["obligation"], "replay": (q.stdout + q.stderr)[-600:], "inputs": fl["inputs"]})
                undecided.append({"unit": key, "why": f"counterexample of '{fl['obligation']}' did not reproduce on the real code"})

    # 3. known findings: named by unit + obligation label; anything else still alarms
    kf_path = os.path.join(HERE, "known-findings.json")
    findings = []
    if os.path.exists(kf_path):
        with open(kf_path) as f:
            findings = [x for x in json.load(f)["known"] if x["property"] == pid]
    for x in findings:
        print(f"KNOWN-FINDING: property={pid} {x['what']}")
        known.append(x["id"])

    confirmed = [v for v in violations if v[2]]
    report = confirmed or violations
    for p, label, real in report[:6]:
        rel = os.path.relpath(p, HERE)
        print(f"# failed obligation: {label}")
        print(f"VIOLATION property={pid} replay={rel}" + ("" if real else " no-failing-input-found"))

    def unit_of(u):
        return u["unit"].split("|")[0]

    level = "proof"
    coverage = {
        "obligations": ob_total,
        "discharged": ob_done,
        "checker_cmd": f"/opt/venv/bin/python check.py --property {pid} --tier {a.tier}",
        "trusted_base": TRUSTED,
        "obligation_instances": inst_total,
        "instances_discharged": inst_done,
        "back_ends": backends,
        "solver_s": round(solver_s, 2),
        "symbolic_paths": paths,
        "units_proved": len([k for k in units_sym if not any(u["unit"] == k for u in undecided)]),
        "units_total": len(sym["results"]),
        "functions_under_contract": sorted(functions),
        "undecided": undecided[:40],
        "bounded_stand_in": {
            "label": "bounded: seeded run-time contract check of the same contracts on the plain library; never counted as proved",
            "bounded_only_units": sym.get("bounded_units", []),
            "evaluations": bounded_samples,
            "distinct_nontrivial": distinct,
            "contract_checks": bounded_checked,
            "rule": "a sample is one execution of a contract unit on inputs drawn from the seed that satisfy every precondition",
        },
        "samples": samples,
        "unit_notes": (rnd or sym).get("notes", {}),
        "known_findings": known,
        "source_sha256": {k: v[:16] for k, v in sorted(sym.get("sources", {}).items()) if k.startswith("givenergy")},
        "violations_reported": [{"replay": os.path.relpath(p, HERE), "obligation": lb, "replayed": rl} for p, lb, rl in report[:20]],
    }
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": level, "coverage": coverage, "assumptions": sorted(assumptions),
          "wall_s": round(time.monotonic() - t0, 2), "violations": len(report)}
    tmp = tempfile.NamedTemporaryFile("w", dir=evdir, delete=False, suffix=".tmp")
    json.dump(ev, tmp, indent=1, default=str)
    tmp.close()
    os.chmod(tmp.name, 0o644)
    os.replace(tmp.name, os.path.join(evdir, f"{pid}.json"))
    print(f"{pid}: obligations {ob_done}/{ob_total} (instances {inst_done}/{inst_total}), paths {paths}, solver {solver_s:.1f}s, "
          f"units {len(sym['results'])}, undecided {len(undecided)}, bounded samples {bounded_samples}, wall {ev['wall_s']}s")
    if a.verbose:
        for u in undecided:
            print("UNDECIDED", u["unit"], u["why"])
        for s in spurious[:6]:
            print("SPURIOUS", json.dumps(s, default=str)[:400])
        slow = sorted(((r.get("wall_s", 0), k) for k, r in sym["results"].items()), reverse=True)[:8]
        print("slowest:", slow)
    return 1 if report else 0


def self_test():
    code = ("import vf, z3, subprocess, sys; sys.path.insert(0, '/repo'); import givenergy_modbus; x = z3.Int('x'); s = z3.Solver(); "
            "s.add(x > 1, x < 1); assert s.check() == z3.unsat; "
            "assert subprocess.run(['cvc5', '--version'], capture_output=True).returncode == 0")
    p = subprocess.run([PY, "-B", "-c", code], cwd=HERE, env=dict(os.environ, PYTHONPATH=HERE))
    print("self-test", "ok" if p.returncode == 0 else "FAILED")
    return p.returncode


TRUSTED = [
    "CPython executes the instrumented AST as it executes the source (identity of the instrumentation cross-checked by the repository's tests)",
    "vf engine: proxy-value semantics of int/bytes/str/dict operations (cross-checked by the bounded run of the same contracts on the plain library)",
    "z3 (and cvc5) answers",
    "pydantic validation, crccheck, logging, asyncio: not verified",
]

if __name__ == "__main__":
    sys.exit(main())
