"""Kani stage: contracts on the real crates, discharged harness by harness."""
import os, re, subprocess, time
from . import util

CANARY = "zz_canary__must_fail"


def _env():
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def _run(crate, names, timeout, per, extra=(), jobs=8):
    env = _env()
    env["CARGO_TARGET_DIR"] = str(util.BUILD / f"kani-{crate.name}")
    cmd = ["cargo", "kani", "-Z", "unstable-options", "--output-format", "terse", "--harness-timeout", f"{per}s"]
    if jobs > 1:
        cmd += ["-j", str(jobs)]
    cmd += list(extra)
    for n in names:
        cmd += ["--harness", n]
    rc, out = util.run(cmd, cwd=crate, env=env, timeout=timeout)
    return rc, out, cmd


def _parse(out, names):
    """Per harness: (status, checks, seconds, [failed check messages])."""
    cur, res = {}, {}
    thread = "0"
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (?:[\w:]*::)?(\w+)\.\.\.", line)
        if m:
            thread = m.group(1) or "0"
            cur[thread] = m.group(2)
            res[m.group(2)] = dict(status="undecided", checks=0, seconds=0.0, failed=[])
            continue
        m = re.match(r"Thread (\d+):\s*$", line)
        if m:
            thread = m.group(1)
            continue
        r = res.get(cur.get(thread))
        if r is None:
            continue
        m = re.search(r"\*\* (\d+) of (\d+) failed(?: \((.*)\))?", line)
        if m:
            r["checks"] = int(m.group(2))
            um = re.search(r"(\d+) unreachable", m.group(3) or "")
            r["unreachable"] = int(um.group(1)) if um else 0
        elif line.startswith("Failed Checks:"):
            r["failed"].append(line[len("Failed Checks:"):].strip())
        elif line.startswith(" File:") and r["failed"]:
            r["failed"][-1] += " [" + line.strip() + "]"
        elif "VERIFICATION:- SUCCESSFUL" in line:
            r["status"] = "proved"
        elif "VERIFICATION:- FAILED" in line:
            r["status"] = "failed"
        elif "timed out" in line.lower() or "CBMC failed" in line or "out of memory" in line.lower():
            r["status"] = "undecided"
            r["failed"].append("verifier gave no answer: " + line.strip())
        elif line.startswith("Verification Time:"):
            r["seconds"] = float(re.search(r"([\d.]+)", line).group(1))
    return res


UNDECIDABLE = re.compile(r"unwinding assertion|is not currently supported|unsupported|not supported|"
                         r"verifier gave no answer|recursion unwinding|Kani does not support|foreign function|"
                         r"caller_location|undefined function|reachability check", re.I)


def check(crate, names, deadline, per=400):
    """Returns (results, command, build_ok, log)."""
    names = list(names)
    timeout = max(30, deadline - time.time())
    rc, out, cmd = _run(crate, names + [CANARY], timeout, per)
    res = _parse(out, names)
    canary = res.pop(CANARY, None)
    ok = "Checking harness" in out
    # The canary has to fail: a verifier that accepts everything proves nothing.
    if ok and (canary is None or canary["status"] != "failed"):
        for r in res.values():
            if r["status"] == "proved":
                r["status"] = "undecided"
                r["failed"].append("verifier gave no answer: the canary obligation did not fail")
    for n in names:
        res.setdefault(n, dict(status="undecided", checks=0, seconds=0.0, failed=["verifier gave no answer: not run"]))
    # A failed harness whose only failures are unwinding limits gets a larger limit once.
    for n, r in res.items():
        if r["status"] != "failed":
            continue
        if all("unwinding assertion" in f for f in r["failed"]) and deadline - time.time() > 30:
            rc2, out2, _ = _run(crate, [n], max(20, min(300, deadline - time.time())), 280, ["--unwind", "48"], jobs=1)
            r2 = _parse(out2, [n]).get(n)
            if r2 and r2["status"] in ("proved", "failed"):
                r2["retried"] = "larger unwinding limit"
                res[n] = r = r2
        if r["status"] == "failed":
            # terse output of unsupported constructs / limits: no verdict.
            real = [f for f in r["failed"] if not UNDECIDABLE.search(f)]
            if not real or any(UNDECIDABLE.search(f) for f in r["failed"]):
                r["status"] = "undecided"
    return res, " ".join(cmd[:9]) + f" --harness <{len(names)} contracts>", ok, out


def counterexample(crate, name, deadline):
    """Bytes of the verifier's counterexample, one list per failed check."""
    left = deadline - time.time()
    if left < 15:
        return []
    rc, out, _ = _run(crate, [name], left, int(min(left, 300)),
                      ["-Z", "concrete-playback", "--concrete-playback=print"], jobs=1)
    cases = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", out, flags=re.S):
        data = []
        for v in re.findall(r"^\s*vec!\[([\d, ]*)\],", block, flags=re.M):
            data += [int(x) for x in v.replace(" ", "").split(",") if x]
        cases.append(bytes(data).hex())
    return cases
