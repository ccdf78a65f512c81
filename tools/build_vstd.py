#!/usr/bin/env python3
"""Compiles the stand-in std into DIR (argument 1) unless it is there already."""
import hashlib, os, shutil, subprocess, sys
ROOT = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]
src = os.path.join(ROOT, "mcs", "vstd")
h = hashlib.sha256(subprocess.run(["rustc", "-V"], stdout=subprocess.PIPE, check=True).stdout)
for f in sorted(os.listdir(src)):
    h.update(open(os.path.join(src, f), "rb").read())
stamp, lib = os.path.join(out, "stamp"), os.path.join(out, "libvstd.rlib")
if os.path.exists(stamp) and open(stamp).read() == h.hexdigest() and os.path.exists(lib): sys.exit(0)
target = os.path.dirname(os.path.abspath(out))
if os.path.isdir(os.path.join(target, "release")): shutil.rmtree(os.path.join(target, "release"))
os.makedirs(out, exist_ok=True)
r = subprocess.run(["rustc", "--edition", "2024", "--crate-type", "rlib", "--crate-name", "vstd", "-Copt-level=2",
                    "-Awarnings", "--out-dir", out, os.path.join(src, "lib.rs")])
if r.returncode == 0: open(stamp, "w").write(h.hexdigest())
sys.exit(r.returncode)
