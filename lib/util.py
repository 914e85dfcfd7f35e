import os, pathlib, resource, signal, subprocess, time

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
BUILD = ROOT / ".build"
REPLAY = ROOT / "replay"


def run(cmd, cwd=None, env=None, timeout=600, mem=None, split=False):
    """Run a command in its own process group; returns (rc, output). rc is None on a timeout."""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE if split else subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, text=True, errors="replace", preexec_fn=pre)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, (out, err) if split else out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, (out, err) if split else out
