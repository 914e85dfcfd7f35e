#!/bin/bash
# Runs main.rs beside this script against the crates of the current directory (/repo).
here="$(cd "$(dirname "$0")" && pwd)"
exec python3 - "$here" "$PWD" <<'PY'
import os, pathlib, shutil, subprocess, sys, tempfile
here, repo = map(pathlib.Path, sys.argv[1:3])
with tempfile.TemporaryDirectory() as tmp:
    t = pathlib.Path(tmp)
    (t / "src").mkdir()
    for f in here.iterdir():
        if f.suffix == ".rs" and f.name != "build.rs":
            shutil.copy(f, t / "src" / f.name)
        elif f.name in ("build.rs",) or f.suffix == ".mabo":
            (t / "schemas").mkdir(exist_ok=True)
            shutil.copy(f, t / (f.name if f.name == "build.rs" else "schemas/" + f.name))
            (t / "schemas/Mabo.toml").write_text('[package]\nname = "demo"\nfiles = ["*.mabo"]\n')
    shutil.copy(repo / "Cargo.lock", t / "Cargo.lock")
    deps = (here / "deps.txt").read_text().split() if (here / "deps.txt").exists() else ["mabo"]
    line = lambda d: f'{d} = {{ path = "{repo}/crates/{d}" }}\n' if d.startswith("mabo") else d.replace("=", ' = "', 1) + '"\n'
    toml = '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\n'
    toml += "".join(line(d) for d in deps)
    if (t / "build.rs").exists():
        toml += "[build-dependencies]\n" + line("mabo-build")
    (t / "Cargo.toml").write_text(toml)
    env = dict(os.environ, CARGO_TARGET_DIR=str(t / "target"), CARGO_NET_OFFLINE="true")
    sys.exit(subprocess.run(["cargo", "run", "-q", "--offline"], cwd=t, env=env, timeout=280).returncode)
PY
