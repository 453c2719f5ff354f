"""tools/mut.py PROP FILE 'old' 'new' [old new ...]: run a property's quick check on a mutated scratch copy (VF_REPO)."""
import os, shutil, subprocess, sys, tempfile
prop, f, *pairs = sys.argv[1:]
d = tempfile.mkdtemp(prefix="mut_")
ev = tempfile.mkdtemp(prefix="mutev_")
try:
    shutil.copytree("/repo/givenergy_modbus", d + "/givenergy_modbus")
    for x in ("docs", "tests"):
        if os.path.exists("/repo/" + x):
            os.symlink("/repo/" + x, d + "/" + x)
    p = f"{d}/givenergy_modbus/{f}"
    s = open(p).read()
    for o, n in zip(pairs[::2], pairs[1::2]):
        if s.count(o) < 1:
            sys.exit(f"not found: {o!r}")
        s = s.replace(o, n, 1)
    open(p, "w").write(s)
    r = subprocess.run([sys.executable, "/verif/check.py", "--property", prop, "--tier", "quick"], env=dict(os.environ, VF_REPO=d, VF_EVIDENCE=ev, VERIF_SEED="1"), capture_output=True, text=True, timeout=1200, cwd="/verif")
    lines = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "#", prop))]
    print("exit", r.returncode, "|", "; ".join(lines)[:int(os.environ.get("W", 420))])
finally:
    shutil.rmtree(d); shutil.rmtree(ev)
