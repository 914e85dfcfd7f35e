"""Native execution of the contracts on the real crates: replay and search for failing inputs."""
import json, os, re
from . import util


class BuildError(Exception):
    pass


def env(crate):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = str(util.BUILD / f"native-{crate.name}")
    return e


def build(crate, timeout=500):
    e = env(crate)
    rc, out = util.run(["cargo", "build", "--offline", "--locked"], cwd=crate, env=e, timeout=timeout)
    if rc != 0:
        raise BuildError(out[-30000:])
    name = next(l.split('"')[1] for l in (crate / "Cargo.toml").read_text().splitlines() if l.startswith("name"))
    return util.BUILD / f"native-{crate.name}" / "debug" / name


def generator_failure(out):
    """(schema, message) if the build failed in the code generator or in what it generated."""
    m = re.search(r"GENERATOR: (.*?) for (schemas/\w+)(.*)", out)
    if m:
        return m.group(2), f"{m.group(1)} for {m.group(2)}{m.group(3)}"[:600]
    m = re.search(r"^(error[^\n]*)\n\s*--> [^\n]*/out/gen/(\w+)/mabo/(\w+)\.rs:(\d+)", out, flags=re.M)
    if m:
        schema = f"schemas/{m.group(2)}/{m.group(3)}.mabo"
        return schema, f"the code generated from {schema} is invalid: {m.group(1)} (line {m.group(4)})"
    return None


def names(binary):
    rc, out = util.run([str(binary), "list"], timeout=60)
    return out.split()


def search(binary, prefix, seed, millis):
    """Returns {contract: result}; result["fail"] is None or the failing input."""
    journal = util.BUILD / f"journal-{prefix}"
    for f in util.BUILD.glob(f"journal-{prefix}.*"):
        f.unlink()
    rc, out = util.run([str(binary), "search", prefix, str(seed), str(millis), str(journal)],
                       timeout=millis / 1000 * 3 + 120, mem=12 << 30)
    res = {}
    for line in out.splitlines():
        if line.startswith("{"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            o = res.get(r["contract"])
            if o:
                for k in ("runs", "rejected", "distinct"):
                    r[k] += o[k]
                r["fail"] = o["fail"] or r["fail"]
                r["samples"] = o["samples"] or r["samples"]
            res[r["contract"]] = r
    if rc != 0:
        # aborted (out of memory, stack overflow): the journal names the cases that were running.
        for f in sorted(util.BUILD.glob(f"journal-{prefix}.*")):
            parts = f.read_text().split()
            if len(parts) < 2 or not parts[1].startswith("seed:"):
                continue
            rc2, out2 = replay(binary, parts[0], parts[1])
            if rc2 != 0:
                res[parts[0]] = dict(contract=parts[0], runs=1, rejected=0, distinct=0, samples=[], fail=dict(
                    message="the process is aborted: " + (out2.strip().splitlines() or ["no output"])[-1][:300],
                    at="", input=parts[1], notes=[]))
    return res, rc


def replay(binary, name, data, timeout=40):
    return util.run([str(binary), "replay", name, data], timeout=timeout, mem=12 << 30)
