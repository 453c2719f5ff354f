#!/opt/venv/bin/python
"""Build and confirm planted bugs.

tools/seeds/*.py each define SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, what, demo)].
seed.py build [ID...]   write seeded/<id>/, confirm in a scratch copy (demo 0 -> nonzero, stable tests pass)
seed.py check [ID...]   run the property's check on a scratch copy with the patch (VF_REPO), report caught or not
"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def load():
    out = {}
    for f in sorted(glob.glob(HERE + "/seeds/*.py")):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def scratch():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC")


def apply(s, d):
    for f, old, new in s["edits"]:
        p = os.path.join(d, f)
        t = open(p).read()
        assert t.count(old) == 1, f"{s['id']}: {f}: {t.count(old)} matches"
        open(p, "w").write(t.replace(old, new))


def demo(dst, d):
    x = subprocess.run(["bash", os.path.join(dst, "demo.sh")], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
    return x.returncode, (x.stdout + x.stderr)[-300:]


def tests(d):
    out = os.path.join(d, "junit-seed.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=30", "--hypothesis-seed=0", "-o", "junit_family=xunit2",
                    f"--junitxml={out}", "tests"], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
    t = open(out).read()
    os.unlink(out)
    m = re.search(r'errors="(\d+)" failures="(\d+)" skipped="\d+" tests="(\d+)"', t)
    bad = re.findall(r'<testcase classname="([^"]*)" name="([^"]*)"[^>]*>\s*<failure', t)
    return int(m[1]) + int(m[2]), int(m[3]), bad[:3]


def build(s):
    dst = os.path.join(VERIF, "seeded", s["id"])
    d = scratch()
    try:
        os.makedirs(dst, exist_ok=True)
        apply(s, d)
        diff = subprocess.run(["git", "diff", "--", "givenergy_modbus"], cwd=d, capture_output=True, text=True).stdout
        open(dst + "/patch.diff", "w").write(diff)
        open(dst + "/demo.py", "w").write(s["demo"].strip() + "\n")
        open(dst + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                          'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(dst + "/meta.json", "w"), indent=1)
        rc1, o1 = demo(dst, d)
        nfail, n, bad = tests(d)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d, check=True)
        rc0, o0 = demo(dst, d)
        ok = rc0 == 0 and rc1 != 0 and nfail == 0 and n >= 1665
        if not ok:
            shutil.rmtree(dst)
        return s["id"], ok, f"clean demo {rc0} patched demo {rc1} test failures {nfail}/{n} {bad} {o0 if rc0 else ''}"
    except Exception as e:
        shutil.rmtree(dst, ignore_errors=True)
        return s["id"], False, repr(e)
    finally:
        shutil.rmtree(d)


def check(s, tier="quick"):
    d = scratch()
    ev = tempfile.mkdtemp(prefix="seedev-", dir="/tmp")
    try:
        apply(s, d)
        try:
            x = subprocess.run([PY, VERIF + "/check.py", "--property", s["prop"], "--tier", tier], cwd=VERIF,
                               env=dict(ENV, VF_REPO=d, VF_EVIDENCE=ev, VERIF_SEED="1"), capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return s["id"], False, "timeout"
        v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
        return s["id"], x.returncode == 1 and bool(v), f"rc={x.returncode} " + " | ".join(x.stdout.splitlines()[-4:])[-500:]
    finally:
        shutil.rmtree(d)
        shutil.rmtree(ev)


def main():
    seeds = load()
    ids = [a for a in sys.argv[2:] if a != "-v"] or list(seeds)
    ids = [i for p in ids for i in seeds if i.startswith(p)]
    fn = {"build": build, "check": check}[sys.argv[1]]
    with ThreadPoolExecutor(4 if sys.argv[1] == "build" else 2) as ex:
        for i, ok, msg in ex.map(lambda i: fn(seeds[i]), ids):
            print(("ok   " if ok else "FAIL ") + i, msg if not ok or "-v" in sys.argv else msg[:160], flush=True)


main()
