#!/usr/bin/env python3
"""RUSTC_WRAPPER: the library under exploration sees the stand-in std; nothing else does."""
import os, sys
a = sys.argv[1:]
d = os.environ["VSTD_DIR"]
lib = os.path.join(d, "libvstd.rlib")
name = a[a.index("--crate-name") + 1] if "--crate-name" in a else ""
extra = []
if name and name != "___":
    extra = ["-L", "dependency=" + d]
    if name == "rustica": extra += ["--extern", "std=" + lib]
    elif name in ("mcs", "c05", "c06"): extra += ["--extern", "vstd=" + lib]
os.execvp(a[0], a + extra)
