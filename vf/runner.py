"""Run contract units: ``sym`` (deductive), ``rand`` (bounded run-time check), ``replay``.

python -m vf.runner sym  PROPERTY TIER SEED BUDGET_S JOBS   -> JSON on stdout
python -m vf.runner rand PROPERTY TIER SEED BUDGET_S JOBS
python -m vf.runner replay FILE
"""

from __future__ import annotations

import importlib
import json
import logging
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid, instrumented):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    if instrumented:
        from vf import instrument

        instrument.install(REPO)
        instrument.install_contracts(HERE)
        from vf import pyd

        pyd.install()
    from vf import harness

    import pkgutil

    import givenergy_modbus

    for m in pkgutil.walk_packages(givenergy_modbus.__path__, "givenergy_modbus."):
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    importlib.import_module(f"contracts.{pid}")
    return {k: u for k, u in harness.REGISTRY.items() if k.split(".")[0] == pid}


def case_label(case):
    return "" if case is None else json.dumps(case, default=str, sort_keys=True) if not isinstance(case, str) else case


def _lib_frames(e):
    tb = e.__traceback__
    names = []
    while tb is not None:
        names.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return any(f.startswith(os.path.join(REPO, "givenergy_modbus")) for f in names)


# -- symbolic worker -------------------------------------------------------------------------

def sym_unit(unit, case, timeout, thorough):
    import z3

    from vf import core, rt
    from vf.harness import LIB, SymV

    t0 = time.monotonic()
    rt.HOOK.loop_specs = [mk() for mk in unit.loops]
    rt.HOOK.merge_scopes = tuple(unit.merge)
    rt.CALL_CONTRACTS.clear()
    for inst in unit.calls:
        inst(LIB)
    rt.HOOK.join_scopes = tuple(unit.joins)
    abstract = bool(unit.loops or unit.calls)

    def harness(c):
        v = SymV(c)
        try:
            unit.fn(v, case)
            # vacuity: the end of a complete path has a satisfiable path condition
            c.cover("<end>")
        except core.Control:
            raise
        except Exception as e:
            if _lib_frames(e):
                c.ex.unit.undecided_exc = "".join(traceback.format_exception(e))[-1200:]
                c.prove(f"no unexpected {type(e).__name__}", z3.BoolVal(False))
            else:
                raise
        finally:
            v.unpatch()

    ex = core.Explorer(harness, deadline=t0 + timeout, max_paths=unit.max_paths,
                       prove_timeout_ms=60000 if thorough else 20000)
    u = ex.run()
    for want in unit.covers:
        if want not in u.covers and not u.undecided and not u.failures:
            u.undecided.append(f"cover not reached: {want}")
    if not u.obligations and not u.undecided:
        u.undecided.append("no obligation generated")
    if "<end>" not in u.covers and not u.failures and not u.undecided and not u.abstract:
        u.undecided.append("no path reaches the end of the contract (vacuous)")
    return {
        "unit": unit.cid, "case": case, "abstract": abstract or u.abstract,
        "obligations": {o.name: [o.instances, o.discharged, o.unknown, o.backends] for o in u.obligations.values()},
        "failures": u.failures[:12], "undecided": u.undecided[:4], "paths": u.paths, "covers": sorted(u.covers),
        "functions": sorted(u.functions), "assumptions": sorted(u.assumptions),
        "solver_s": round(core.STATS.solver_s, 3), "solver_calls": core.STATS.solver_calls,
        "wall_s": round(time.monotonic() - t0, 3), "exc": getattr(u, "undecided_exc", None),
    }


def rand_unit(unit, case, seed, n, timeout):
    import zlib

    from vf.harness import RandV, run_concrete

    t0 = time.monotonic()
    res = {"unit": unit.cid, "case": case, "samples": 0, "accepted": 0, "checked": 0, "violations": [], "errors": [], "covers": [],
           "example": None}
    covers = set()
    distinct = set()
    base = zlib.crc32(f"{unit.cid}|{case_label(case)}|{seed}".encode())
    for i in range(n):
        if time.monotonic() - t0 > timeout:
            break
        v = RandV(base * 1000003 + i)
        viol, err = _run(unit, case, v)
        res["samples"] += 1
        if viol is None and err is None:
            continue
        if err is not None:
            if err[0] == "harness":
                if len(res["errors"]) < 2:
                    res["errors"].append(err[1])
                continue
            viol = (viol or []) + [err[1]]
        res["accepted"] += 1
        res["checked"] += v.checked
        covers |= v.covers
        try:
            distinct.add(hash(json.dumps(v.used, sort_keys=True)))
        except TypeError:
            pass
        if res["example"] is None and v.used:
            res["example"] = {"unit": unit.cid, "case": case, "inputs": {k: x for k, x in list(v.used.items())[:12]}}
        if viol:
            res["violations"].append({"labels": viol[:5], "inputs": v.used})
            if len(res["violations"]) >= 3:
                break
    res["covers"] = sorted(covers)
    res["distinct"] = len(distinct)
    res["wall_s"] = round(time.monotonic() - t0, 3)
    return res


def _run(unit, case, v):
    """(violations | None, error | None); an exception out of the library is a violation."""
    from vf.harness import AssumeFailed

    try:
        unit.fn(v, case)
    except AssumeFailed:
        return (None, None) if not v.violations else (v.violations, None)
    except Exception as e:
        if _lib_frames(e):
            return v.violations, ("lib", f"unexpected {type(e).__name__}: {e}"[:300])
        return v.violations, ("harness", "".join(traceback.format_exception(e))[-1200:])
    finally:
        v.unpatch()
    return v.violations, None


# -- process pool ------------------------------------------------------------------------------

def pool(tasks, jobs, budget):
    """tasks: [(key, fn, args, timeout)] -> {key: result | {'crash': reason}}; one fork per task."""
    ctx = mp.get_context("fork")
    t0 = time.monotonic()
    pending = list(tasks)[::-1]
    live = []
    out = {}
    cut = False

    def child(conn, fn, args):
        try:
            import resource

            lim = int(6e9)
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
            sys.setrecursionlimit(20000)
            r = fn(*args)
        except BaseException as e:
            r = {"crash": "".join(traceback.format_exception(e))[-1500:]}
        try:
            conn.send(json.dumps(r, default=str))
        except Exception as e:
            conn.send(json.dumps({"crash": repr(e)}))
        conn.close()
        os._exit(0)

    while pending or live:
        while pending and len(live) < jobs:
            key, fn, args, to = pending.pop()
            left = budget - (time.monotonic() - t0)
            if left < 3:
                out[key] = {"crash": "property time budget exhausted"}
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, fn, args))
            p.start()
            b.close()
            live.append((key, p, a, time.monotonic() + min(to, left)))
        nxt = []
        for key, p, conn, dl in live:
            if conn.poll(0):
                try:
                    out[key] = json.loads(conn.recv())
                    if out[key].get("failures") and not cut:
                        cut = True  # a failed obligation decides the run: do not spend the whole budget on the rest
                        budget = min(budget, time.monotonic() - t0 + 100)
                except (EOFError, ValueError) as e:
                    out[key] = {"crash": f"worker died: {e!r}"}
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                if conn.poll(0.2):
                    nxt.append((key, p, conn, dl))
                    continue
                out[key] = {"crash": f"worker exit {p.exitcode}"}
            elif time.monotonic() > dl:
                p.kill()
                p.join(5)
                out[key] = {"crash": "unit timeout"}
            else:
                nxt.append((key, p, conn, dl))
        live = [(k, q, cn, min(d, t0 + budget)) for k, q, cn, d in nxt] if cut else nxt
        time.sleep(0.005)
    return out


def main():
    mode = sys.argv[1]
    if mode == "replay":
        sys.exit(replay(sys.argv[2]))
    pid, tier, seed, budget, jobs = sys.argv[2], sys.argv[3], int(sys.argv[4]), float(sys.argv[5]), int(sys.argv[6])
    only = sys.argv[7] if len(sys.argv) > 7 else None
    saved = os.dup(1)
    os.dup2(2, 1)
    units = load(pid, mode == "sym")
    thorough = tier == "thorough"
    tasks = []
    for cid, u in units.items():
        if only and not cid.startswith(only):
            continue
        for case in u.cases(tier):
            key = f"{cid}|{case_label(case)}"
            if mode == "sym":
                if u.bounded:
                    continue
                to = u.timeout * (5 if thorough else 1)
                tasks.append((key, sym_unit, (u, case, to, thorough), to + 25))
            else:
                n = u.samples * (20 if thorough else 1)
                to = 60 if thorough else 12
                if u.bounded:
                    to = u.timeout * (5 if thorough else 1)
                tasks.append((key, rand_unit, (u, case, seed, n, to), to + 30))
    if mode == "sym":
        tasks.sort(key=lambda t: -t[3])
    from vf.harness import REGISTRY  # noqa: F401

    res = pool(tasks, jobs, budget)
    src = {}
    if mode == "sym":
        from vf import instrument

        src = instrument.SOURCES
    doc = {"results": res, "bounded_units": sorted(k for k, u in units.items() if u.bounded), "sources": src,
           "notes": {k: u.note for k, u in units.items() if u.note}}
    os.write(saved, (json.dumps(doc) + "\n").encode()) if False else None
    with os.fdopen(saved, "w") as f:
        f.write(json.dumps(doc) + "\n")
        f.flush()


def replay(path, quiet=False):
    """Re-run one recorded failing input on the plain library.  1 = reproduced, 0 = not."""
    with open(path) as f:
        rec = json.load(f)
    if not rec.get("inputs_known", True):
        print("no failing input recorded; failed obligation:", rec.get("obligation"))
        return 3
    units = load(rec["property"], False)
    u = units[rec["unit"]]
    from vf.harness import ConV

    v = ConV(rec["inputs"])
    viol, err = _run(u, rec["case"], v)
    out = {"violations": viol or [], "error": err}
    if not quiet:
        print(json.dumps(out))
    if viol or (err is not None and err[0] == "lib"):
        return 1
    return 4 if err is not None else 0


if __name__ == "__main__":
    main()
