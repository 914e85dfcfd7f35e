#!/usr/bin/env python3
"""Decide one property: `check.py <property> [--tier quick|thorough]`, or `check.py --replay <file>`.

Exit 0: holds on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: no answer.
"""
import argparse, json, os, pathlib, re, sys, time

ROOT = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT))
from lib import kani, native, util, verus  # noqa: E402
from lib.config import PROPERTIES  # noqa: E402


def known_findings(pid):
    out = []
    for line in (ROOT / "known-findings.txt").read_text().splitlines():
        m = re.match(r"known: property=(\w+) crate=(\w+) contract=(\w+) (.*)", line)
        if m and m.group(1) == pid:
            out.append(dict(crate=m.group(2), contract=m.group(3), what=m.group(4)))
    return out


def replay_file(path):
    d = json.loads(pathlib.Path(path).read_text())
    print(f"property {d['property']}, obligation {d['obligation']}")
    if d.get("input") is None:
        print("no failing input; output of the verifier:")
        print(d.get("verifier_output", ""))
        return 1
    try:
        binary = native.build(ROOT / d["crate"])
    except native.BuildError as e:
        print(f"{e}\nthe contracts do not build")
        return 1
    if d["contract"] is None:
        print("the generated code is valid")
        return 0
    rc, out = native.replay(binary, d["contract"], d["input"])
    print(out.strip() if rc is not None else out.strip() + "\nviolated: does not terminate within 40 s")
    return 0 if rc == 0 else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        # Nothing to prepare: each check builds from /repo's tree. Fail early if a tool is missing.
        import shutil
        missing = [t for t in ("cargo", "cargo-kani", "verus") if not shutil.which(t)]
        print("missing: " + ", ".join(missing) if missing else "ready")
        return 1 if missing else 0
    if a.replay:
        return replay_file(a.replay)

    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPERTIES[pid]
    t0 = time.time()
    budget = 780 if tier == "quick" else 3 * 3600
    deadline = t0 + budget
    util.BUILD.mkdir(exist_ok=True)
    util.REPLAY.mkdir(exist_ok=True)
    (ROOT / "evidence").mkdir(exist_ok=True)
    for f in util.REPLAY.glob(f"{pid}-*"):
        f.unlink()

    violations = []   # dict(obligation, crate, contract, input, message, ...)
    undecided, notes, samples = [], [], []
    obligations = discharged = bounded_checks = 0
    solver_s = 0.0
    cmds, functions, trusted, runs, distinct = [], [], [], 0, 0
    native_detail, kani_detail = {}, {}

    # 1. Native execution: search for failing inputs (and the stand-in for what is out of reach).
    prefix = pid.lower() + "__"
    binaries, names = {}, {}
    for c in cfg["crates"]:
        try:
            binaries[c] = native.build(ROOT / c)
        except native.BuildError as e:
            broken = native.generator_failure(str(e)) if c == "codegen" else None
            if broken is None:
                print(f"error: the contracts in {c} do not build against /repo\n{e}")
                if "verus" not in cfg or c == "codegen":
                    return 2
                # An interface has changed: no replay and no search, but the verifier still decides.
                notes.append(f"the contracts in {c} do not build against /repo, nothing is executed: {str(e)[-600:]}")
                binaries[c], names[c] = None, []
                continue
            # Accepted schemas, but no (valid) code for them: nothing to execute or verify.
            if cfg.get("owns_generator"):
                violations.append(dict(obligation="generated_code__is_valid", crate=c, contract=None, input=broken[0],
                                       found_by="build", message=broken[1], verifier_output=str(e)[-6000:]))
            else:
                notes.append(f"no valid code is generated, {pid} is not decided: {broken[1]}")
            binaries[c], names[c] = None, []
            continue
        names[c] = [n for n in native.names(binaries[c]) if n.startswith(prefix)]
    millis = cfg.get("search_ms", 15000) * (1 if tier == "quick" else 20)
    for c in cfg["crates"]:
        if binaries[c] is None:
            continue
        res, rc = native.search(binaries[c], prefix, seed, millis)
        if rc != 0 and not any(r["fail"] for r in res.values()):
            notes.append(f"search in {c} ended with {rc} and no reproducible case")
        for n, r in sorted(res.items()):
            runs += r["runs"] - r["rejected"]
            distinct += r["distinct"]
            native_detail[n] = dict(evaluations=r["runs"] - r["rejected"], distinct=r["distinct"])
            if len(samples) < 6:
                samples += [dict(contract=n, case=s) for s in r["samples"][:1]]
            f = r["fail"]
            if f:
                rc2, out2 = native.replay(binaries[c], n, f["input"])
                if rc2 == 0:
                    notes.append(f"{n}: failure did not reproduce: {f['message']}")
                    continue
                violations.append(dict(obligation=n, crate=c, contract=n, input=f["input"], found_by="search",
                                       message=f["message"], at=f["at"], notes=f["notes"], replay_output=out2[-3000:]))

    # 2. Verus: unbounded contracts on the mechanically extracted functions.
    if "verus" in cfg:
        v = verus.check(cfg["verus"], deadline, pid)
        cmds.append(v["cmd"])
        trusted += v["trusted"]
        functions += v["functions"]
        obligations += v["obligations"]
        discharged += v["discharged"]
        solver_s += v["seconds"]
        undecided += v["undecided"]
        notes += v["notes"]
        for f in v["failed"]:
            violations.append(dict(obligation=f["name"], crate=None, contract=None, input=None, found_by="verus",
                                   message=f["message"], verifier_output=f["output"]))

    # 3. Kani: full-domain (and, labelled, bounded) contracts on the real crate.
    for c in cfg["crates"]:
        todo = [n for n in names[c] if n.endswith(("__full", "__bounded"))
                and (tier == "thorough" or not any(re.search(p, n) for p in cfg.get("thorough_only", [])))]
        if not todo:
            continue
        found = any(v["input"] is not None for v in violations)
        limit = min(deadline, time.time() + 150) if found else deadline
        res, cmd, ok, log = kani.check(ROOT / c, todo, limit, per=cfg.get("harness_s", 420) if tier == "quick" else 3600)
        cmds.append(cmd)
        if not ok:
            notes.append("kani did not run: " + log[-1500:])
        for n, r in sorted(res.items()):
            solver_s += r["seconds"]
            full = n.endswith("__full")
            kani_detail[n] = dict(status=r["status"], checks=r["checks"], seconds=round(r["seconds"], 2))
            if full:
                obligations += max(1, r["checks"])
                functions.append("kani " + n)
            else:
                bounded_checks += 1
            if r["status"] == "proved":
                if full:
                    discharged += max(1, r["checks"])
                continue
            if r["status"] == "undecided":
                undecided.append(f"{n}: {'; '.join(r['failed'])[:300]}")
                continue
            # A failed obligation: replay the verifier's counterexample on the real code.
            if any(v["contract"] == n for v in violations):
                continue
            done = False
            if not found:
                for data in kani.counterexample(ROOT / c, n, deadline):
                    rc2, out2 = native.replay(binaries[c], n, data)
                    if rc2 != 0:
                        violations.append(dict(obligation=n, crate=c, contract=n, input=data, found_by="kani",
                                               message="; ".join(r["failed"]), replay_output=out2[-3000:]))
                        done = True
                        break
            if not done:
                violations.append(dict(obligation=n, crate=None, contract=n, input=None, found_by="kani",
                                       message="; ".join(r["failed"]), verifier_output="\n".join(r["failed"])))

    # 4. Known findings: still demonstrated on the real code.
    for k in known_findings(pid):
        if k["crate"] not in binaries:
            binaries[k["crate"]] = native.build(ROOT / k["crate"])
        if binaries[k["crate"]] is None:
            continue
        rc, out = native.replay(binaries[k["crate"]], k["contract"], "")
        if rc != 0:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
            notes.append(f"known finding {k['contract']}: {k['what']}")

    # 5. Verdict: failing inputs first; a failed obligation without one is reported on its own.
    violations.sort(key=lambda v: v["input"] is None)
    if any(v["input"] is not None for v in violations):
        shown = [v for v in violations if v["input"] is not None]
    else:
        shown = violations
    for i, v in enumerate(shown[:5]):
        path = util.REPLAY / f"{pid}-{i}.json"
        v["property"] = pid
        v["other_failed_obligations"] = [w["obligation"] for w in violations if w is not v][:20]
        v["how_to_replay"] = f"python3 /verif/check.py --replay {path}"
        path.write_text(json.dumps(v, indent=1))
        print(f"{v['obligation']}: {v['message'][:500]}")
        print(f"VIOLATION property={pid} replay={path}" + ("" if v["input"] is not None else " no-failing-input-found"))

    level = cfg["level"]
    explanation = cfg["explanation"]
    cov = dict(
        functions_under_contract=sorted(functions), obligations=obligations, discharged=discharged,
        checker_cmd=" ; ".join(cmds) or "native", solver_time_s=round(solver_s, 2),
        trusted_base=sorted(set(trusted + cfg.get("trusted", []))) or ["none"],
        undecided=undecided, bounded_checks=bounded_checks, kani=kani_detail, native=native_detail,
        evaluations=runs, distinct_nontrivial=distinct,
        rule="native runs of the contracts on the real crate with seeded, boundary biased inputs; distinct by the "
             "input bytes drawn; runs outside of a precondition are not counted",
        samples=samples or [dict(contract=n) for n in list(native_detail)[:3]] or ["none"],
        explanation=explanation, notes=notes)
    if level == "translation_validation":
        # Programs: generated definitions that were executed; each run compares the code's answer with the schema's.
        cov["programs"] = len({n.split("__")[1] for n in native_detail})
        cov["disagreements_checked"] = cov.pop("evaluations")
    tools = ("rustc", "Verus,")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=[t for t in cov["trusted_base"] if t != "none" and not t.startswith(tools)] + [f"undecided: {u}" for u in undecided], wall_s=round(time.time() - t0, 1), violations=len(shown))
    (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    print(f"{pid} {tier}: {discharged}/{obligations} obligations discharged, {bounded_checks} bounded, "
          f"{len(undecided)} undecided, {runs} native runs, {len(shown)} violations, {ev['wall_s']} s")
    for u in undecided[:10]:
        print("  undecided:", u)
    for n in notes[:10]:
        print("  note:", n[:400])
    if not shown and not discharged and None in binaries.values():
        return 2
    return 1 if shown else 0


if __name__ == "__main__":
    sys.exit(main())
