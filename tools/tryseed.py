#!/usr/bin/env python3
"""tryseed.py <seed>... [--checks P01,P02 | --no-checks]: confirm planted bugs in /repo (applied, then undone)."""
import json, pathlib, subprocess, sys, time
ROOT = pathlib.Path(__file__).resolve().parent.parent
args = [a for a in sys.argv[1:] if not a.startswith("--")]
checks = None
for a in sys.argv[1:]:
    if a.startswith("--checks="): checks = a.split("=")[1].split(",")
    if a == "--no-checks": checks = []
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def build_ok():
    return sh("bash /opt/vp/build.sh").returncode == 0
def tests():
    sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    d = json.load(open("/tmp/seedtest.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return d, base
assert sh("git -C /repo status --short").stdout == "", "repo dirty"
for s in args:
    d = ROOT / "seeded" / s
    meta = json.loads((d / "meta.json").read_text())
    pid = meta["property"]
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(s, "PATCH FAILS", a.stderr); continue
    try:
        b = build_ok()
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json").stdout.strip().splitlines()[-1:]
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        print(s, pid, "build", b, "tests", t, "demo clean", r0.returncode, "demo bug", r1.returncode, (r1.stdout + r1.stderr).strip().splitlines()[-1:], flush=True)
        if r0.returncode: print(r0.stdout[-500:], r0.stderr[-1500:])
        for c in ([pid] if checks is None else checks):
            t0 = time.time()
            r = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 {ROOT}/check.py {c} --tier quick", cwd=ROOT)
            lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "quick:" in l]
            print("   ", c, "exit", r.returncode, f"{time.time()-t0:.0f}s", *[l[:200] for l in lines], sep=" | ", flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
build_ok()
