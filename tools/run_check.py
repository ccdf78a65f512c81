#!/usr/bin/env python3
"""Builds one check binary against /repo's current tree and runs it.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: no answer.
A check process killed by the code under test (abort, invalid memory access, stack overflow) is a
violation of the property being exercised; any other abnormal end is an error of the check.
"""
import hashlib, json, os, resource, signal, subprocess, sys

ROOT = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SCHED = {"C05", "C06"}  # built against the controlled std

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", HOME=e.get("HOME", "/root"))
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    return e

def tree_hash():
    h = hashlib.sha256()
    for top in ("src", "Cargo.toml", "build.rs"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else []
        for d, ds, fs in os.walk(p):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            try:
                with open(f, "rb") as g: h.update(g.read())
            except OSError: pass
            h.update(b"\0")
    return h.hexdigest()

def build(pid, quiet=True):
    """Returns the path of the check binary or None."""
    kind = "mcs" if pid in SCHED or pid == "all-s" else "mc"
    crate = os.path.join(ROOT, kind)
    target = os.path.join(ROOT, "target", kind)
    e = env()
    os.makedirs(target, exist_ok=True)
    if kind == "mcs":
        e["RUSTC_WRAPPER"] = os.path.join(ROOT, "tools", "rustc_wrap.py")
        e["VSTD_DIR"] = os.path.join(target, "vstd")
        r = subprocess.run([sys.executable, os.path.join(ROOT, "tools", "build_vstd.py"), e["VSTD_DIR"]], env=e)
        if r.returncode: return None
    # cargo trusts modification times; the stamp makes the decision depend on content
    stamp = os.path.join(target, "repo.sha")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != now:
        subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "rustica", "--target-dir", target],
                       cwd=crate, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = ["cargo", "build", "--release", "--offline", "--target-dir", target]
    cmd += ["--bins"] if pid == "all" or pid == "all-s" else ["--bin", pid.lower()]
    r = subprocess.run(cmd, cwd=crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write("\n".join(l for l in r.stdout.splitlines() if "warning" not in l)[-6000:] + "\nbuild failed\n")
        return None
    with open(stamp, "w") as f: f.write(now)
    return os.path.join(target, "release", pid.lower())

def main():
    pid, args = sys.argv[1], sys.argv[2:]
    b = build(pid)
    if b is None: return 2
    e = env()
    e["VERIF_ROOT"] = ROOT
    # runaway allocation in the code explored ends as an abort of this process, not of the sandbox
    lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    p = subprocess.run([b] + args, env=e, cwd=ROOT, stdout=subprocess.PIPE, text=True, errors="replace", preexec_fn=lim)
    sys.stdout.write(p.stdout)
    rc = p.returncode
    if rc < 0 and -rc in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL):
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        rp = os.path.join(ROOT, "replays", f"{pid}-crash.json")
        json.dump({"property": pid, "what": f"the process running the library was killed by signal {-rc}",
                   "replay": f"/verif/check.sh {pid} " + " ".join(args)}, open(rp, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if rc == 1 and f"VIOLATION property={pid} " not in p.stdout: return 2
    return rc if rc in (0, 1) else 2

if __name__ == "__main__":
    sys.exit(main())
