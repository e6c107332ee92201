#!/usr/bin/env python3
"""Mirrors the working tree of /repo into DST (default /verif/.build/mirror) without what needs the `wcs` crate.

`wcs` is a git dependency that cannot be fetched offline, so cargo cannot resolve /repo itself. This makes the same
cuts as /opt/vp/mirror.py (dependency line, error variant, module, re-export, one unit test) and nothing else: every
other file is copied byte for byte and only rewritten when its content changed."""
import os, re, shutil, sys
SRC = os.environ.get("VERIF_REPO", "/repo")
DST = sys.argv[1]
KEEP = ("Cargo.toml", "README.md", "src", "benches", "tests", "examples", "crates", "build.rs")
def blank(m): return "\n" * m.group(0).count("\n")
CUTS = {
    "Cargo.toml": [r"^wcs = \{ git = .*\n"],
    "src/error.rs": [r"^        WCS \{\n            from\(wcs::error::Error\)\n(?:            .*\n)*        \}\n"],
    "src/lib.rs": [r"^pub mod wcs;\n", r"^pub use wcs::.*;\n", r"^    use crate::wcs::ImgXY;\n",
        r"^    #\[test\]\n    fn test_fits_not_fitting_in_memory\(\) \{\n(?:(?!    \}\n).*\n)*    \}\n"],
}
OMIT = {"src/wcs.rs"}
OWN = {"Cargo.lock"}
def files():
    for top in KEEP:
        path = os.path.join(SRC, top)
        if os.path.isfile(path):
            yield top
        for root, dirs, names in os.walk(path):
            dirs[:] = [d for d in dirs if d not in ("target", "node_modules")]
            for n in names:
                yield os.path.relpath(os.path.join(root, n), SRC)
def put(rel, data):
    out = os.path.join(DST, rel)
    if os.path.isfile(out):
        with open(out, "rb") as f:
            if f.read() == data:
                return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, out)
wanted = set(files()) - OMIT
for rel in sorted(wanted):
    with open(os.path.join(SRC, rel), "rb") as f:
        data = f.read()
    for pattern in CUTS.get(rel, ()):
        data = re.sub(pattern, blank, data.decode(errors="surrogateescape"), flags=re.M).encode(errors="surrogateescape")
    put(rel, data)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mirror.Cargo.lock"), "rb") as f:
    put("Cargo.lock", f.read())
for root, dirs, names in os.walk(DST):
    for n in names:
        rel = os.path.relpath(os.path.join(root, n), DST)
        if rel not in wanted and rel not in OWN:
            os.remove(os.path.join(root, n))
