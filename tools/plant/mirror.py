#!/usr/bin/env python3
"""mirror.py SRC DST: copies the crate without what needs the `wcs` crate, which cannot be fetched offline."""
import os, re, shutil, sys
SRC, DST = sys.argv[1:3]
def blank(m): return "\n" * m.group(0).count("\n")
CUTS = {
    "Cargo.toml": [r"^wcs = \{ git = .*\n", r"(?s)^\[\[bench\]\]\n.*?(?=^\[profile)", r"^members = \[\n.*\n\]\n"],
    "src/error.rs": [r"^        WCS \{\n            from\(wcs::error::Error\)\n(?:            .*\n)*        \}\n"],
    "src/lib.rs": [r"^pub mod wcs;\n", r"^pub use wcs::.*;\n", r"^    use crate::wcs::ImgXY;\n"],
}
shutil.copytree(os.path.join(SRC, "src"), os.path.join(DST, "src"))
os.remove(os.path.join(DST, "src", "wcs.rs"))
for f in ("Cargo.toml", "README.md"):
    shutil.copy(os.path.join(SRC, f), DST)
if os.path.isdir(os.path.join(SRC, "crates")):
    shutil.copytree(os.path.join(SRC, "crates"), os.path.join(DST, "crates"), ignore=shutil.ignore_patterns("target"))
for f, cuts in CUTS.items():
    p = os.path.join(DST, f)
    s = open(p).read()
    for c in cuts:
        if f == "Cargo.toml" and c.startswith("^members") and "--cli" in sys.argv:
            continue
        s = re.sub(c, blank, s, flags=re.M)
    open(p, "w").write(s)
