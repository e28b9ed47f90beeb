"""Shared machinery of the checks: build, run the symbolic executor, replay."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "nightly"
TARGET = "x86_64-unknown-linux-gnu"


class CheckError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, cwd, timeout, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def forget_repo(t):
    """Make cargo compile /repo's crate again whatever its files' dates."""
    for root, dirs, _ in os.walk(t):
        for d in list(dirs):
            if (os.path.basename(root) == ".fingerprint" and d.startswith("rusty-rtree-")) or (
                    d == "fingerprint" and os.path.basename(os.path.dirname(root)) == "rusty-rtree"):
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs.remove(d)


def build_engine():
    t = os.path.join(BUILD, "engine")
    with Lock("engine"):
        rc, out = run(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "engine"), 1200, CARGO_TARGET_DIR=t)
        if rc:
            raise CheckError("engine build failed:\n" + out[-3000:])
    return os.path.join(t, "release", "symex")


def build_ir(dst):
    """Compile the harnesses together with /repo's current sources to LLVM IR."""
    t = os.path.join(BUILD, "ll")
    with Lock("ll"):
        forget_repo(t)
        for f in glob.glob(os.path.join(t, "release", "**", "harness*.ll"), recursive=True):
            os.unlink(f)
        # a fresh compilation of the final crate, so that the IR is this tree's
        os.utime(os.path.join(VERIF, "harness", "src", "lib.rs"))
        rc, out = run(
            ["cargo", "rustc", "--offline", "--release", "--crate-type", "cdylib", "--", "--emit=llvm-ir",
             "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
            os.path.join(VERIF, "harness"), 800, CARGO_TARGET_DIR=t)
        if rc:
            raise CheckError("building the harnesses against /repo failed:\n" + out[-4000:])
        lls = glob.glob(os.path.join(t, "release", "**", "harness*.ll"), recursive=True)
        if len(lls) != 1:
            raise CheckError("expected one .ll file, found %r" % lls)
        shutil.copyfile(lls[0], dst)


def build_replay(mode):
    t = os.path.join(BUILD, "replay-asan" if mode == "asan" else "replay")
    cmd = ["cargo", "build", "--offline"]
    kw = {"CARGO_TARGET_DIR": t}
    sub = "debug"
    if mode == "release":
        cmd.append("--release")
        sub = "release"
    if mode == "asan":
        cmd += ["--target", TARGET]
        kw["RUSTFLAGS"] = "-Zsanitizer=address"
        sub = os.path.join(TARGET, "debug")
    with Lock("replay-" + mode):
        forget_repo(os.path.join(t, sub))
        rc, out = run(cmd, os.path.join(VERIF, "replay"), 800, **kw)
        if rc:
            raise CheckError("building the replayer failed:\n" + out[-4000:])
    return os.path.join(t, sub, "replay")


def symex(engine, ll, jobs, out, threads=8, tlimit=300, steps=20000000, max_viol=1, dump=None, jobtime=60):
    jf = out + ".jobs"
    with open(jf, "w") as f:
        for j in jobs:
            f.write("%s %s %s\n" % (j["id"], j["h"], " ".join(str(p) for p in j["p"])))
    cmd = [engine, "--ll", ll, "--jobs", jf, "--out", out, "--threads", str(threads), "--time", str(tlimit),
           "--steps", str(steps), "--job-time", str(jobtime), "--max-viol", str(max_viol)]
    if dump:
        cmd += ["--dump", dump, "--dump-every", "40"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tlimit + 200)
    if p.returncode:
        raise CheckError("symbolic executor failed:\n" + p.stdout.decode()[-3000:])
    res, summ = [], None
    for l in open(out):
        d = json.loads(l)
        if d.get("summary"):
            summ = d
        else:
            res.append(d)
    if summ is None:
        raise CheckError("symbolic executor gave no summary")
    return res, summ


def native(binary, h, params, syms, timeout=60, wrap=()):
    cmd = list(wrap) + [binary, h, ",".join(map(str, params)), ",".join(map(str, syms))]
    e = env(ASAN_OPTIONS="detect_leaks=0", RUST_BACKTRACE="0")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    out = p.stdout.decode("utf-8", "replace")
    line = [l for l in out.splitlines() if l.startswith("REPLAY:")]
    msg = line[-1] if line else out[-300:]
    if "AddressSanitizer" in out:
        m = re.search(r"AddressSanitizer: (\S+)", out)
        return "memory", "AddressSanitizer: " + (m.group(1) if m else ""), out
    if p.returncode == 0 and "finished" in msg:
        return "ok", msg, out
    if p.returncode == 3:
        return "mismatch", msg, out
    return "fail", msg, out


def reproduce(v, h, params):
    """Run a counterexample against the real library; the modes that fail."""
    hits = []
    syms = v["syms"]
    for mode in ("dev", "release", "asan", "valgrind"):
        if mode == "valgrind":
            if hits or v["kind"] != "memory":
                continue
            b = build_replay("dev")
            k, msg, out = native(b, h, params, syms, 300, ("valgrind", "-q", "--error-exitcode=99"))
            if k == "fail" and "==" in out:
                hits.append((mode, (out.splitlines() or [""])[0]))
            continue
        b = build_replay(mode)
        k, msg, out = native(b, h, params, syms)
        if k in ("fail", "memory") or (k == "timeout" and "(hang)" in v["msg"]):
            hits.append((mode, msg))
            break
    return hits
