"""Engine N: the contracts of every public operation as executable assertions, evaluated on the
real crate (path dependency on /repo) over generated and enumerated inputs.  Bounded: it finds and
replays failing inputs, and stands in for functions outside the verifier's reach."""
import json, os, resource, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "build", "native")
ITERS = {"quick": 600, "thorough": 6000}
# iteration multipliers, to keep each property's run time in the same region
MUL = {"C01": 4, "C02": 6, "C03": 8, "C10": 8, "C11": 3, "C12": 2, "C13": 3, "C14": 4, "C15": 6, "C16": 3,
       "C04": 0.7, "C06": 0.7, "C07": 0.7, "C08": 0.5}


def _env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cap-lints allow"
    return e


def build(log, prop):
    p = subprocess.run(["cargo", "+stable", "build", "--offline", "--quiet", "--features", prop.lower()], cwd=os.path.join(VERIF, "native"),
                       env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append("native build rc=%d" % p.returncode)
    if p.returncode != 0:
        return p.stdout[-6000:]
    return None


def _limit():
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def run(prop, tier, seed, timeout, mul=1):
    iters = max(1, int(ITERS[tier] * MUL.get(prop, 1) * mul))
    cmd = [os.path.join(TARGET, "debug", "nchk"), prop, "--seed", str(seed), "--tier", tier, "--iters", str(iters)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout,
                           preexec_fn=_limit)
    except subprocess.TimeoutExpired:
        return {"status": "error", "cmd": cmd, "message": "native engine timed out after %d s" % timeout}
    last = [l for l in p.stdout.splitlines() if l.startswith(("OK ", "FAIL "))]
    if last and last[-1].startswith("OK ") and p.returncode == 0:
        return {"status": "ok", "cmd": cmd, "iters": iters, **json.loads(last[-1][3:])}
    if last and last[-1].startswith("FAIL "):
        return {"status": "fail", "cmd": cmd, "failure": json.loads(last[-1][5:])}
    # killed by a signal (stack overflow, abort, memory limit): the process died inside the library
    if p.returncode < 0:
        return {"status": "fail", "cmd": cmd,
                "failure": {"test": "process", "case": "", "message": "the process died with signal %d" % -p.returncode}}
    return {"status": "error", "cmd": cmd, "message": "rc=%d out=%s" % (p.returncode, p.stdout[-500:])}
