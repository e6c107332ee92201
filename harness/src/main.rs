//! Runs the workloads of one property under its monitors: `fitsmon check ID [quick|thorough]`.
//!
//! The supervisor spreads the cases over worker processes, so that an abort, a stack overflow, an exhausted memory
//! limit or an endless loop in the code under test is observed from outside and attributed to its case.
mod alloc;
mod cardgen;
mod ctx;
mod exec;
mod gen;
mod mon;
mod obs;
mod props;
mod rng;
mod tile;

use ctx::{Ctx, Fail, Res, Stats};
use rng::{hash_bytes, mix, Rng};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// Number of cases per tier
    pub cases: [u64; 2],
    pub run: fn(&mut Ctx) -> Res,
    /// When a case counts as non trivial
    pub rule: &'static str,
    /// Events which must have been observed for the check to mean something (quick tier)
    pub floors: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

const WORKERS: u64 = 8;
/// Memory a worker may take in total
const MEMORY: u64 = 3 << 30;
/// Processor time one case may take (they take milliseconds)
const CPU_S: u64 = 40;
const WALL_S: u64 = 200;
const MAX_VIOLATIONS: usize = 2;

// ---------------------------------------------------------------- worker

static CASE_STARTED: AtomicU64 = AtomicU64::new(0);
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static PANIC: Mutex<Option<(String, bool)>> = Mutex::new(None);

/// Processor time of this process, in ticks of 10 ms
fn cpu_ticks() -> u64 {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

/// Tells whether a panic comes from the library (or what it calls) rather than from the workload
fn panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // innermost frame that is ours or the library's
        let bt = format!("{}", std::backtrace::Backtrace::force_capture());
        let mut ours = false;
        for l in bt.lines() {
            let l = l.trim();
            if l.contains("fitsmon::panic_hook") || l.contains("rust_begin_unwind") {
                continue;
            }
            let lib = l.contains("fitsrs::");
            let mine = l.contains("fitsmon::");
            if lib || mine {
                // a generic function of the library instantiated with a type of the workload names both
                let at_lib = l.find("fitsrs::").unwrap_or(usize::MAX);
                let at_mine = l.find("fitsmon::").unwrap_or(usize::MAX);
                ours = at_mine < at_lib;
                break;
            }
        }
        if loc.contains(".build/mirror") || loc.contains("/mirror/src") {
            ours = false;
        }
        if loc.starts_with("src/") || loc.contains("harness/src") {
            ours = true;
        }
        if msg.contains(mon::BUDGET) {
            ours = false;
        }
        if let Ok(mut p) = PANIC.lock() {
            if p.is_none() {
                *p = Some((format!("{msg} at {loc}"), ours));
            }
        }
    }));
}

enum Outcome {
    Fine,
    Violation(Fail),
    Harness(String),
}

fn run_case(p: &Prop, ctx: &mut Ctx, seed: u64, idx: u64) -> Outcome {
    ctx.idx = idx;
    ctx.rng = Rng::new(mix(seed ^ hash_bytes(p.id.as_bytes())).wrapping_add(idx.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
    *PANIC.lock().unwrap() = None;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(ctx)));
    match r {
        Ok(Ok(())) => Outcome::Fine,
        Ok(Err(f)) => Outcome::Violation(f),
        Err(_) => {
            let (msg, ours) = PANIC.lock().unwrap().take().unwrap_or(("panic".into(), true));
            if ours {
                Outcome::Harness(msg)
            } else if msg.contains(mon::BUDGET) {
                Outcome::Violation(Fail { sig: "endless".into(), msg, input: None })
            } else {
                let loc = msg.rsplit(" at ").next().unwrap_or("").to_string();
                let loc = loc.rsplit('/').next().unwrap_or("").to_string();
                Outcome::Violation(Fail { sig: format!("panic:{loc}"), msg: format!("panic: {msg}"), input: None })
            }
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c);
        }
    }
    o
}

struct Args {
    id: String,
    thorough: bool,
    seed: u64,
    dir: PathBuf,
    deadline_s: u64,
}

fn new_ctx(a: &Args, dir: PathBuf) -> Ctx {
    Ctx { rng: Rng::new(0), idx: 0, thorough: a.thorough, stats: Stats::default(), dir }
}

fn worker(p: &Prop, a: &Args, k: u64, first: u64, n: u64) -> i32 {
    panic_hook();
    alloc::set_limit(MEMORY);
    let scratch = a.dir.join(format!("scratch{k}"));
    fs::create_dir_all(&scratch).unwrap();
    let cur = fs::File::create(a.dir.join(format!("cur{k}"))).unwrap();
    let out = a.dir.join(format!("out{k}"));
    let mut ctx = new_ctx(a, scratch);
    let start = Instant::now();
    CASE_STARTED.store(cpu_ticks(), Relaxed);
    std::thread::spawn(|| {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let no = CASE_NO.load(Relaxed);
            if last.0 != no {
                last = (no, Instant::now());
                CASE_STARTED.store(cpu_ticks(), Relaxed);
            }
            let used = cpu_ticks().saturating_sub(CASE_STARTED.load(Relaxed));
            if used > CPU_S * 100 {
                std::process::exit(42);
            }
            // the machine may be overloaded: inconclusive
            if last.1.elapsed() > Duration::from_secs(WALL_S) {
                std::process::exit(43);
            }
        }
    });
    let mut lines = vec![];
    let mut violations = 0;
    let mut done = 0_u64;
    let mut idx = first;
    while idx < n {
        if start.elapsed() > Duration::from_secs(a.deadline_s) {
            ctx.count("stopped by the time limit", 1);
            break;
        }
        let _ = cur.write_all_at(&idx.to_le_bytes(), 0);
        CASE_NO.store(idx + 1, Relaxed);
        match run_case(p, &mut ctx, a.seed, idx) {
            Outcome::Fine => (),
            Outcome::Violation(f) => {
                violations += 1;
                let file = a.dir.join(format!("input-{idx}"));
                if let Some(b) = &f.input {
                    let _ = fs::write(&file, b);
                }
                lines.push(format!("viol\t{idx}\t{}\t{}", esc(&f.sig), esc(&f.msg)));
            }
            Outcome::Harness(m) => {
                lines.push(format!("harness\t{idx}\t{}", esc(&m)));
                break;
            }
        }
        done += 1;
        if violations >= MAX_VIOLATIONS {
            break;
        }
        idx += WORKERS;
    }
    lines.push(format!("cases\t{done}"));
    lines.push(format!("evals\t{}", ctx.stats.evals));
    for (key, n) in &ctx.stats.counters {
        lines.push(format!("cnt\t{}\t{n}", esc(key)));
    }
    for s in &ctx.stats.samples {
        lines.push(format!("sample\t{}", esc(s)));
    }
    for h in &ctx.stats.hashes {
        lines.push(format!("h\t{h:x}"));
    }
    lines.push("done".to_string());
    fs::write(out, lines.join("\n")).unwrap();
    0
}

// ---------------------------------------------------------------- supervisor

#[derive(Default)]
struct Sum {
    cases: u64,
    evals: u64,
    cnt: BTreeMap<String, u64>,
    hashes: std::collections::HashSet<u64>,
    samples: Vec<String>,
    viol: Vec<(u64, String, String)>,
    harness: Vec<String>,
}
impl Sum {
    fn merge(&mut self, text: &str) -> bool {
        let mut done = false;
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "cases" => self.cases += f[1].parse::<u64>().unwrap(),
                "evals" => self.evals += f[1].parse::<u64>().unwrap(),
                "cnt" => {
                    let n: u64 = f[2].parse().unwrap();
                    let e = self.cnt.entry(unesc(f[1])).or_insert(0);
                    if f[1].starts_with("max ") {
                        *e = (*e).max(n)
                    } else {
                        *e += n
                    }
                }
                "h" => {
                    self.hashes.insert(u64::from_str_radix(f[1], 16).unwrap());
                }
                "sample" => self.samples.push(unesc(f[1])),
                "viol" => self.viol.push((f[1].parse().unwrap(), unesc(f[2]), unesc(f[3]))),
                "harness" => self.harness.push(format!("case {}: {}", f[1], unesc(f[2]))),
                "done" => done = true,
                _ => (),
            }
        }
        done
    }
}

fn spawn(a: &Args, mode: &str, k: u64, first: u64, n: u64) -> std::process::Child {
    let err = fs::File::create(a.dir.join(format!("err{k}"))).unwrap();
    Command::new(std::env::current_exe().unwrap())
        .args([mode, &a.id, if a.thorough { "thorough" } else { "quick" }])
        .args([a.seed.to_string(), a.dir.display().to_string(), a.deadline_s.to_string()])
        .args([k.to_string(), first.to_string(), n.to_string()])
        .env_remove("RUST_LOG")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .unwrap()
}

fn death(s: std::process::ExitStatus) -> Option<(&'static str, String)> {
    if s.code() == Some(42) {
        Some(("hang", format!("no answer after {CPU_S} s of processor time")))
    } else if let Some(sig) = s.signal() {
        Some(("abort", format!("the process was ended by signal {sig} (abort, stack overflow or memory exhausted)")))
    } else if s.success() {
        None
    } else {
        Some(("harness", format!("worker exit {s}")))
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn check(p: &Prop, a: &Args, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let mut sum = Sum::default();
    let n = p.cases[a.thorough as usize];
    let mut kids: Vec<(u64, u64, std::process::Child, u32)> =
        (0..WORKERS.min(n)).map(|k| (k, k, spawn(a, "worker", k, k, n), 0)).collect();
    let mut suspects: Vec<(u64, &'static str, String)> = vec![];
    while !kids.is_empty() {
        let mut i = 0;
        while i < kids.len() {
            let st = kids[i].2.try_wait().unwrap();
            let Some(st) = st else {
                i += 1;
                continue;
            };
            let (k, _, _, tries) = kids.remove(i);
            let done = match fs::read_to_string(a.dir.join(format!("out{k}"))) {
                Ok(t) => sum.merge(&t),
                Err(_) => false,
            };
            if done && st.success() {
                continue;
            }
            // died: which case was it running?
            let mut b = [0; 8];
            let cur = fs::read(a.dir.join(format!("cur{k}"))).unwrap_or_default();
            if cur.len() == 8 {
                b.copy_from_slice(&cur);
            }
            let idx = u64::from_le_bytes(b);
            match death(st) {
                Some((what @ ("hang" | "abort"), msg)) => {
                    suspects.push((idx, what, msg));
                    let _ = tries;
                }
                _ => {
                    let e = fs::read_to_string(a.dir.join(format!("err{k}"))).unwrap_or_default();
                    sum.harness.push(format!("worker {k} ended with {st} at case {idx}: {:.500}", e));
                }
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // a death counts once it is confirmed by running the case alone
    suspects.sort();
    let n_suspects = suspects.len();
    for (idx, what, msg) in suspects.into_iter().take(2) {
        let k = 1000 + idx;
        let mut c = spawn(a, "one", k, idx, idx + 1);
        let st = c.wait().unwrap();
        let text = fs::read_to_string(a.dir.join(format!("out{k}"))).unwrap_or_default();
        let mut s = Sum::default();
        s.merge(&text);
        match death(st) {
            Some((w @ ("hang" | "abort"), _)) => sum.viol.push((idx, w.to_string(), msg)),
            _ if !s.viol.is_empty() => sum.viol.extend(s.viol),
            _ => sum.harness.push(format!("case {idx}: {what} not confirmed: {msg}")),
        }
    }
    if n_suspects > 2 {
        println!("{} further workers died", n_suspects - 2);
    }

    // known findings
    let known = fs::read_to_string(verif.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let known: Vec<(String, String)> = known
        .lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("property={} sig=", p.id))?;
            let (sig, what) = rest.split_once(' ')?;
            Some((sig.to_string(), what.to_string()))
        })
        .collect();
    for (_, what) in &known {
        println!("KNOWN-FINDING: property={} {what}", p.id);
    }
    sum.viol.retain(|v| !known.iter().any(|k| k.0 == v.1));
    sum.viol.sort();

    // did the monitors see enough to conclude?
    let mut thin = vec![];
    if sum.viol.is_empty() {
        for (key, min) in p.floors {
            let got = sum.cnt.get(*key).copied().unwrap_or(0);
            if got < *min {
                thin.push(format!("{key}: {got} observed, at least {min} expected"));
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let tier = if a.thorough { "thorough" } else { "quick" };
    let mut e = String::from("{\n");
    e += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n", json(p.id), json(tier), a.seed);
    e += &format!(" \"level\": {},\n \"coverage\": {{\n", json(p.level));
    e += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", sum.evals, sum.hashes.len());
    e += &format!("  \"rule\": {},\n", json(p.rule));
    let s: Vec<String> = sum.samples.iter().take(6).map(|s| json(s)).collect();
    e += &format!("  \"samples\": [{}],\n", s.join(", "));
    e += &format!("  \"cases_run\": {},\n", sum.cases);
    let c: Vec<String> = sum.cnt.iter().map(|(k, v)| format!("   {}: {v}", json(k))).collect();
    e += &format!("  \"observed_events\": {{\n{}\n  }}\n }},\n", c.join(",\n"));
    let s: Vec<String> = p.assumptions.iter().map(|s| json(s)).collect();
    e += &format!(" \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n", s.join(", "));
    let s: Vec<String> = sum.viol.iter().map(|v| json(&format!("case {} [{}] {}", v.0, v.1, v.2))).collect();
    e += &format!(" \"violations\": {}\n}}\n", s.len());
    let _ = fs::create_dir_all(verif.join("evidence"));
    fs::write(verif.join(format!("evidence/{}.json", p.id)), e).unwrap();

    println!(
        "{} {tier} seed {}: {} cases, {} evaluations, {} distinct, {wall:.1} s",
        p.id,
        a.seed,
        sum.cases,
        sum.evals,
        sum.hashes.len()
    );
    if !sum.viol.is_empty() {
        let dir = verif.join("replays");
        let _ = fs::create_dir_all(&dir);
        for (idx, sig, msg) in &sum.viol {
            println!("  case {idx} [{sig}] {:.1500}", msg);
        }
        let (idx, sig, msg) = &sum.viol[0];
        let path = dir.join(format!("{}-{tier}-{}-{idx}.txt", p.id, a.seed));
        let mut t = format!(
            "property {}\ntier {tier}\nseed {}\ncase {idx}\nsignature {sig}\n\n{msg}\n\nRun again: bash /verif/check.sh {} replay {}\n",
            p.id,
            a.seed,
            p.id,
            path.display()
        );
        if let Ok(b) = fs::read(a.dir.join(format!("input-{idx}"))) {
            let bin = path.with_extension("bin");
            let _ = fs::write(&bin, b);
            t += &format!("Input: {}\n", bin.display());
        }
        fs::write(&path, t).unwrap();
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if !sum.harness.is_empty() {
        for h in &sum.harness {
            println!("HARNESS ERROR {h}");
        }
        return 2;
    }
    if !thin.is_empty() {
        for t in &thin {
            println!("INSUFFICIENT COVERAGE {t}");
        }
        return 2;
    }
    0
}

fn main() {
    let v: Vec<String> = std::env::args().collect();
    let arg = |i: usize| v.get(i).cloned().unwrap_or_default();
    let id = arg(2);
    if arg(1) == "list" {
        for p in props::all() {
            println!("{}", p.id);
        }
        return;
    }
    let props = props::all();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("usage: fitsmon check ID [quick|thorough] [seed] | one ID TIER SEED DIR LIMIT K FIRST N | list");
        std::process::exit(2)
    };
    let thorough = arg(3) == "thorough";
    let num = |i: usize, d: u64| arg(i).parse::<u64>().unwrap_or(d);
    match arg(1).as_str() {
        "check" => {
            let verif = std::env::var("VERIF_OUT").unwrap_or("/verif".into());
            let seed = num(4, std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1));
            let base = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or("/verif/.build".into()));
            let dir = base.join(format!("run-{id}-{}", std::process::id()));
            let _ = fs::remove_dir_all(&dir);
            fs::create_dir_all(&dir).unwrap();
            let deadline_s = match (thorough, p.id) {
                (true, "C16") => 500, // the run under AddressSanitizer follows
                (true, _) => 700,
                _ => 400,
            };
            let a = Args { id, thorough, seed, dir: dir.clone(), deadline_s };
            let rc = check(p, &a, Path::new(&verif));
            let _ = fs::remove_dir_all(&dir);
            std::process::exit(rc);
        }
        "worker" | "one" => {
            let a = Args { id, thorough, seed: num(4, 1), dir: arg(5).into(), deadline_s: num(6, 400) };
            std::process::exit(worker(p, &a, num(7, 0), num(8, 0), num(9, 1)));
        }
        // replay ID TIER SEED CASE
        "replay" => {
            let dir = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or("/verif/.build".into()))
                .join(format!("replay-{}", std::process::id()));
            fs::create_dir_all(&dir).unwrap();
            let a = Args { id, thorough, seed: num(4, 1), dir: dir.clone(), deadline_s: 900 };
            panic_hook();
            alloc::set_limit(MEMORY);
            let mut ctx = new_ctx(&a, dir.clone());
            let r = run_case(p, &mut ctx, a.seed, num(5, 0));
            for (k, n) in &ctx.stats.counters {
                println!("{k}: {n}");
            }
            for s in &ctx.stats.samples {
                println!("sample: {s}");
            }
            let rc = match r {
                Outcome::Fine => {
                    println!("no violation");
                    0
                }
                Outcome::Violation(f) => {
                    if let Some(b) = f.input {
                        let _ = fs::write("/verif/.build/replay-input.bin", b);
                    }
                    println!("[{}] {}", f.sig, f.msg);
                    1
                }
                Outcome::Harness(m) => {
                    println!("HARNESS ERROR {m}");
                    2
                }
            };
            let _ = fs::remove_dir_all(&dir);
            std::process::exit(rc);
        }
        _ => std::process::exit(2),
    }
}
