#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--workers N] [--sample K] [--seed S] [--files re] [--list]

Mutation sweep over /repo's sources: makes one small change at a time in a scratch copy under /tmp/mutate, runs the
quick checks from a scratch copy of /verif (the likeliest ones first) until one reports a violation, and writes one
line per mutant. Mutants that no check reports are then run through the unit tests of the mirror. /repo and /verif
are only read."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = os.environ.get("VERIF_REPO", "/repo")
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--workers", type=int, default=3); ap.add_argument("--sample", type=int, default=0)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--files", default=""); ap.add_argument("--cap", type=int, default=0, help="at most this many per file"); ap.add_argument("--near", action="store_true", help="only the likeliest checks"); ap.add_argument("--list", action="store_true")
a = ap.parse_args()
FIRST = [("card.rs", "C03 C04 C05 C22"), ("header/mod", "C04 C05 C22 C15 C17 C01"), ("extension/ascii", "C21 C22 C19 C01"),
  ("extension/bintable", "C22 C11 C12 C10 C09 C08 C18 C01"), ("extension/image", "C22 C06 C01"), ("extension/mod", "C01 C22"), ("primary", "C01 C22 C15 C17"),
  ("hdu/mod", "C01 C15 C22 C17"), ("async", "C15 C16"), ("stream", "C15"), ("image_int", "C18"), ("cli", "C19"), ("gz", "C13 C17 C14"),
  ("tile_compressed", "C11 C12 C16 C17 C18"), ("bintable/", "C08 C09 C10 C02 C16 C17"), ("asciitable", "C21 C15"), ("iter", "C06 C07 C17"),
  ("data/image", "C06 C07 C16"), ("fits.rs", "C01 C02 C17 C20"), ("data/mod", "C15 C01")]
ALL = ["C%02d" % i for i in range(1, 23)]
def order(f):
    for k, v in FIRST:
        if k in f: return v.split() + [c for c in ALL if c not in v.split() and not a.near]
    return ALL
RULES = [(r"==", ["!="]), (r"!=", ["=="]), (r"(?<![-=<>])<=(?!=)", ["<", "=="]), (r"(?<![-=<>])>=(?!=)", [">", "=="]),
  (r" < ", [" <= ", " == "]), (r" > ", [" >= "]), (r"&&", ["||"]), (r"(?<=[\w)\]] )\|\|(?= )", ["&&"]),
  (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]),
  (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bas usize\b", ["as u16 as usize", "as u32 as usize"]), (r"\bas u64\b", ["as u32 as u64"]), (r"\bas i64\b", ["as i32 as i64"]),
  (r"(?<![\w.\"'])(\d+)(?![\w.\"'])", [lambda m: str(int(m.group(1)) + 1), lambda m: str(max(0, int(m.group(1)) - 1))]),
  (r"\bif (?!let )(.+) \{$", [lambda m: "if !(%s) {" % m.group(1), lambda m: "if (%s) && false {" % m.group(1)]),
  (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".is_empty() == false"]),
  (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.trim_end\(", [".trim("]), (r"\.trim\(\)", [""]), (r"\.unwrap_or\((\w+)\)", [".unwrap_or(Default::default())"]),
  (r"\"([A-Z][A-Z0-9_]{1,})\"", [lambda m: '"%sQ"' % m.group(1)]), (r"saturating_", ["wrapping_"]), (r"checked_(\w+)\(", []),
  (r"^(\s+)((?:self\.|\*)[\w.]+ [-+*]?= .*;)$", [lambda m: m.group(1) + "// " + m.group(2)]),
  (r"^(\s+)([\w.]+\(.*\)\??;)$", [lambda m: m.group(1) + "// " + m.group(2)]),
  (r"BigEndian", ["LittleEndian"]), (r" => continue,", []), (r"\bSome\((\w+)\) if .* =>", [lambda m: "Some(%s) =>" % m.group(1)]),
  (r"\.\.=", [".."]), (r"\.skip\(", [".take("]), (r"\.next\(\)\?", [".next()?"]) ]
def sources():
    for d in ("src", "crates/cli/src"):
        for root, _, names in os.walk(f"{R}/{d}"):
            for n in sorted(names):
                p = os.path.relpath(os.path.join(root, n), R)
                if p.endswith(".rs") and p not in ("src/wcs.rs", "src/error.rs") and re.search(a.files, p): yield p
muts = []
for f in sources():
    txt = open(f"{R}/{f}").read().split("\n")
    inblock = False
    for i, line in enumerate(txt):
        if line.startswith("#[cfg(test)]") or (f == "src/lib.rs" and line.startswith("mod tests")): break
        s = line.strip()
        if s.startswith("/*"): inblock = True
        if inblock:
            if "*/" in s: inblock = False
            continue
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "impl", "where", "warn!", "error!", "log::", "pub type")) or s.startswith(("fn ", "pub fn", "pub(crate) fn")): continue
        code = line.split(" // ")[0]
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                for r in reps:
                    new = r(m) if callable(r) else r
                    nl = code[:m.start()] + new + code[m.end():]
                    if nl != code: muts.append((f, i, line, nl))
seen = set(); muts = [m for m in muts if not ((m[0], m[1], m[3]) in seen or seen.add((m[0], m[1], m[3])))]
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
random.Random(a.seed).shuffle(muts)
if a.cap:
    n = {}; kept = []
    for m in muts:
        n[m[0]] = n.get(m[0], 0) + 1
        if n[m[0]] <= a.cap: kept.append(m)
    muts = kept
if a.sample: muts = muts[:a.sample]
muts = [m for m in muts if (m[0], m[1] + 1, m[3].strip()) not in done]
print(len(muts), "mutants", flush=True)
if a.list:
    from collections import Counter
    for k, v in Counter(m[0] for m in muts).items(): print(v, k)
    sys.exit()
q = queue.Queue(); [q.put(m) for m in muts]
lock = threading.Lock()
def worker(w):
    D = f"/tmp/mutate/{w}"; os.makedirs(D, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "seeded", "--exclude", "evidence", "--exclude", "target-cli", V + "/", D + "/verif/"]) if shutil.which("rsync") else subprocess.run(f"mkdir -p {D}/verif; cd {V} && tar c --exclude=.git --exclude=./seeded --exclude=./evidence . | tar x -C {D}/verif", shell=True)
    subprocess.run(f"mkdir -p {D}/repo {D}/verif/evidence; cd {R} && tar c --exclude=.git --exclude=./target --exclude=./samples --exclude=./fitswasm . | tar x -C {D}/repo", shell=True)
    env = dict(os.environ, VERIF_REPO=f"{D}/repo", VERIF_SEED="1")
    while True:
        try: f, i, old, new = q.get_nowait()
        except queue.Empty: return
        p = f"{D}/repo/{f}"; src = open(f"{R}/{f}").read(); t = src.split("\n"); t[i] = new
        open(p, "w").write("\n".join(t))
        res = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        try:
            try: r = subprocess.run(["bash", "check.sh", "build"], cwd=D + "/verif", env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired: continue
            if r.returncode: res["result"] = "nobuild"
            else:
                res["result"] = "MISSED"; bad = []
                for c in order(f):
                    try: r = subprocess.run(["bash", "check.sh", c, "quick"], cwd=D + "/verif", env=env, capture_output=True, text=True, timeout=600)
                    except subprocess.TimeoutExpired: bad.append(c + ":timeout"); continue
                    if r.returncode == 1: res["result"] = "caught"; res["by"] = c; break
                    if r.returncode: bad.append(f"{c}:{r.returncode}")
                if bad: res["bad"] = bad
                if res["result"] == "MISSED":
                    e2 = dict(env, CARGO_TARGET_DIR=f"{D}/verif/.build/target-t", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
                    try:
                        r = subprocess.run("cargo test --offline -q --lib -- card hdu test_bad_bytes test_random", shell=True, cwd=D + "/verif/.build/mirror", env=e2, capture_output=True, text=True, timeout=600)
                        fails = re.findall(r"^    (\S+)$", r.stdout, re.M)
                        res["tests"] = fails[:6]
                    except subprocess.TimeoutExpired: res["tests"] = ["timeout"]
            with lock:
                with open(a.out, "a") as o: o.write(json.dumps(res) + "\n")
        finally: open(p, "w").write(src)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
