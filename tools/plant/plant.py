#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: writes /verif/seeded/<id>/ for the bugs of the spec and confirms them in /repo, which is
restored afterwards: the patch touches original lines only, the stable tests pass, the demo tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
R = "/repo"
BASE = "1faaf11"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def restore(): sh(f"git -C {R} checkout -- .")
spec = {}
exec(open(sys.argv[1]).read(), spec)
todo = sys.argv[2:]
assert sh(f"git -C {R} status --porcelain").stdout == ""
for b in spec["BUGS"]:
    if todo and b["id"] not in todo: continue
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    for f in ("demo.sh", "common.rs", "mirror.py", "Cargo.lock"): shutil.copy(f"{H}/{f}", d)
    if b.get("demo_sh") == "cli":
        shutil.copy(f"{H}/demo_cli.sh", f"{d}/demo.sh"); shutil.copy(f"{V}/mirror.Cargo.lock", f"{d}/Cargo.lock"); os.remove(f"{d}/common.rs")
        open(f"{d}/demo.py", "w").write(b["demo"])
    else: open(f"{d}/demo.rs", "w").write(b["demo"])
    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
    ok = True
    try:
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode != 0: print(b["id"], "DEMO FAILS ON THE CLEAN TREE", r.returncode, (r.stdout + r.stderr)[-1500:]); continue
        for e in b["edits"]:
            f, old, new = e[:3]
            s = open(f"{R}/{f}").read()
            if len(e) > 3:  # only the nth occurrence
                parts = s.split(old)
                assert len(parts) > e[3] + 1, (b["id"], f, len(parts))
                s = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
            else:
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                s = s.replace(old, new)
            open(f"{R}/{f}", "w").write(s)
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        # removed lines must be original ones
        removed = []
        for line in sh(f"git -C {R} diff -U0").stdout.split("\n"):
            if line.startswith("--- "): cur = line[6:]
            elif line.startswith("@@"):
                a = line.split()[1][1:].split(","); start = int(a[0]); cnt = int(a[1]) if len(a) > 1 else 1
                for i in range(start, start + cnt): removed.append((cur, i))
        for f, i in removed:
            bl = sh(f"git -C {R} blame -s -L {i},{i} HEAD -- {f}").stdout
            if not bl.startswith("^"): print(b["id"], "NOT ORIGINAL", bl.strip()); ok = False
        if not removed: print(b["id"], "NO LINE REMOVED"); ok = False
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: print(b["id"], "BUILD FAILS", r.stderr[-1500:]); ok = False; continue
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        passed = json.load(open("/tmp/plant.json"))["passed"]
        missing = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
        if missing: print(b["id"], "TESTS FAIL", missing); ok = False
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode in (0, 3, 4): print(b["id"], "DEMO", r.returncode, (r.stdout + r.stderr)[-1500:]); ok = False
        if ok and not os.environ.get("NOCHECK"):
            res = []
            for p in [b["property"]] + b.get("also", []):
                r = sh(f"bash {V}/check.sh {p} quick 1")
                v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
                res.append(f"{p}:{'CAUGHT' if r.returncode == 1 and v else 'missed rc=%d' % r.returncode}")
            print(b["id"], "ok", " ".join(res), flush=True)
        elif ok: print(b["id"], "ok", flush=True)
    finally:
        restore()
