use crate::src::Src;
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), Fail>;

#[derive(Clone, Debug)]
pub struct Fail {
    /// Short stable class of the failure, used to match known findings.
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::Fail::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::Fail::new($sig, format!($($arg)*))) } };
}

#[derive(Default)]
pub struct Ctx {
    pub notes: Vec<(String, String)>,
    nontrivial: Vec<u64>,
    sample: Option<String>,
    pub classes: BTreeMap<String, u64>,
    pub thorough: bool,
}

impl Ctx {
    /// Attach a readable piece of the input / trace to the replay file.
    pub fn note(&mut self, k: &str, v: impl Into<String>) {
        let v = v.into();
        if std::env::var_os("VP_TRACE").is_some() {
            eprintln!("--- {k}\n{v}");
        }
        self.notes.push((k.to_string(), v));
    }
    /// Declare the case non-trivial; identity is the hash of `key`.
    pub fn nontrivial(&mut self, key: &str) {
        self.nontrivial.push(fnv(key.as_bytes()));
        if self.sample.is_none() {
            self.sample = Some(key.to_string());
        }
    }
    pub fn class(&mut self, c: &str) {
        *self.classes.entry(c.to_string()).or_insert(0) += 1;
    }
    pub fn count(&mut self, c: &str, n: u64) {
        *self.classes.entry(c.to_string()).or_insert(0) += n;
    }
}

pub struct PropDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Src, &mut Ctx) -> R,
    /// Deterministic, enumerated cases which are run before the generated ones.
    pub fixed_count: fn(bool) -> usize,
    pub fixed: fn(usize, &mut Ctx) -> R,
    pub hang_secs: u64,
    pub level: &'static str,
    /// The check on a given text, for findings that are kept as a file.
    pub text: Option<fn(&str, &mut Ctx) -> R>,
    /// How often a case is repeated when it is replayed, for cases that depend on a schedule.
    pub repeat: u32,
}

pub const BASE: PropDef = PropDef {
    id: "",
    rule: "",
    assumptions: &[],
    quick: 1000,
    thorough: 50_000,
    f: no_gen,
    fixed_count: no_fixed,
    fixed: no_fixed_case,
    hang_secs: 30,
    level: "exploration",
    text: None,
    repeat: 1,
};

fn no_gen(_: &mut Src, _: &mut Ctx) -> R {
    Ok(())
}

pub fn no_fixed(_: bool) -> usize {
    0
}
pub fn no_fixed_case(_: usize, _: &mut Ctx) -> R {
    Ok(())
}

unsafe extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if std::env::var_os("VP_BACKTRACE").is_some() {
            eprintln!("{loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        // Keep the first panic of a case: it is the cause.
        if let Ok(mut g) = LAST_PANIC.lock()
            && g.is_empty()
        {
            *g = format!("{loc}: {msg}");
        }
    }));
}

pub fn take_panic() -> String {
    std::mem::take(&mut *LAST_PANIC.lock().unwrap())
}

fn panic_sig(p: &str) -> String {
    // file name without directory, without line numbers; message with digits removed
    let mut parts = p.splitn(2, ": ");
    let loc = parts.next().unwrap_or("");
    let msg = parts.next().unwrap_or("");
    let file = loc.split(':').next().unwrap_or("");
    let file = file.rsplit("/crates/").next().unwrap_or(file);
    let msg: String = msg
        .lines()
        .next()
        .unwrap_or("")
        .chars()
        .filter(|c| !c.is_ascii_digit())
        .take(60)
        .collect();
    format!("panic@{file}:{msg}")
}

/// Runs a closure, converting a panic into a Fail.
pub fn guard<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    let _ = take_panic();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let p = take_panic();
            Err(Fail::new(panic_sig(&p), format!("panicked: {p}")))
        }
    }
}

enum Case {
    Fixed(usize),
    Gen(u64),
    Choices(Vec<u64>),
}

fn run_case(p: &PropDef, c: &Case, thorough: bool) -> (R, Ctx, Vec<u64>) {
    let mut ctx = Ctx { thorough, ..Ctx::default() };
    match c {
        Case::Fixed(i) => {
            let r = guard(|| (p.fixed)(*i, &mut ctx));
            (r, ctx, vec![])
        }
        Case::Gen(seed) => {
            let mut s = Src::from_seed(*seed);
            let r = guard(|| (p.f)(&mut s, &mut ctx));
            (r, ctx, s.rec)
        }
        Case::Choices(v) => {
            let mut s = Src::from_choices(v.clone());
            let r = guard(|| (p.f)(&mut s, &mut ctx));
            (r, ctx, s.rec)
        }
    }
}

fn case_for(p: &PropDef, seed: u64, idx: u64, thorough: bool) -> Case {
    let nf = (p.fixed_count)(thorough) as u64;
    if idx < nf {
        Case::Fixed(idx as usize)
    } else {
        Case::Gen(mix(mix(seed, fnv(p.id.as_bytes())), idx - nf))
    }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VP_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub struct Known {
    pub sig: String,
    pub replay: String,
    pub text: String,
}

fn load_known(prop: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else {
        return vec![];
    };
    let mut out = vec![];
    for line in t.lines() {
        let Some(rest) = line.strip_prefix("known: ") else { continue };
        // known: property=<id> sig=<<...>> replay=<path> <text>
        let Some(rest) = rest.strip_prefix(&format!("property={prop} ")) else { continue };
        let Some((sig, rest)) = rest.strip_prefix("sig=<<").and_then(|r| r.split_once(">> ")) else {
            continue;
        };
        let Some((replay, text)) = rest.strip_prefix("replay=").and_then(|r| r.split_once(' '))
        else {
            continue;
        };
        out.push(Known { sig: sig.into(), replay: replay.into(), text: text.into() });
    }
    out
}

fn with_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(70))
}

fn find<'a>(props: &'a [PropDef], id: &str) -> &'a PropDef {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

pub fn main_with(props: &'static [PropDef]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
    };
    let seed: u64 = get("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                println!("{}", p.id)
            }
        }
        Some("run") => {
            let p = find(props, &args[1]);
            let cases = get("--cases").and_then(|c| c.parse().ok());
            std::process::exit(run_parent(p, seed, &tier, cases))
        }
        Some("worker") => {
            let p = find(props, &args[1]);
            let shard: u64 = get("--shard").unwrap().parse().unwrap();
            let shards: u64 = get("--shards").unwrap().parse().unwrap();
            let total: u64 = get("--total").unwrap().parse().unwrap();
            let start: u64 = get("--start").unwrap().parse().unwrap();
            let dir = PathBuf::from(get("--dir").unwrap());
            limit_memory();
            install_hook();
            with_big_stack(move || worker(p, seed, thorough, shard, shards, total, start, &dir));
        }
        Some("case") => {
            // run a single case and report (used for confirming crashes)
            let p = find(props, &args[1]);
            let idx: u64 = get("--idx").unwrap().parse().unwrap();
            limit_memory();
            install_hook();
            let code = with_big_stack(move || {
                let c = case_for(p, seed, idx, thorough);
                let (mut r, mut ctx, mut rec) = run_case(p, &c, thorough);
                for _ in 1..p.repeat {
                    if r.is_err() {
                        break;
                    }
                    (r, ctx, rec) = run_case(p, &c, thorough);
                }
                print_case(&r, &ctx, &rec);
                if r.is_err() { 1 } else { 0 }
            });
            std::process::exit(code)
        }
        Some("survey") => {
            // Runs many cases and prints the shortest failing ones of each kind, for development.
            let p = find(props, &args[1]);
            let n: u64 = get("--total").unwrap().parse().unwrap();
            let start: u64 = get("--start").unwrap_or("0".into()).parse().unwrap();
            let show: usize = get("--show").unwrap_or("3".into()).parse().unwrap();
            limit_memory();
            install_hook();
            with_big_stack(move || {
                let mut found: BTreeMap<String, Vec<(usize, String)>> = BTreeMap::new();
                let mut classes: BTreeMap<String, u64> = BTreeMap::new();
                for i in start..start + n {
                    let (r, ctx, _) = run_case(p, &case_for(p, seed, i, thorough), thorough);
                    for (k, v) in ctx.classes {
                        *classes.entry(k).or_default() += v;
                    }
                    if let Err(f) = r {
                        let notes: String = ctx.notes.iter().map(|(k, v)| format!("--- {k}\n{v}\n")).collect();
                        let size = ctx.notes.first().map_or(0, |n| n.1.len());
                        found.entry(f.sig.clone()).or_default().push((size, format!("case {i}\n{notes}{}", f.msg)));
                    }
                }
                for (k, v) in classes {
                    println!("  {k}: {v}");
                }
                for (sig, mut v) in found {
                    v.sort();
                    println!("######## {sig}: {}", v.len());
                    for (_, t) in v.iter().take(show) {
                        println!("{t}\n");
                    }
                }
            });
        }
        Some("choices") => {
            let p = find(props, &args[1]);
            let file = get("--file").unwrap();
            limit_memory();
            install_hook();
            let code = with_big_stack(move || {
                let c = Case::Choices(read_choices(Path::new(&file)));
                let (r, ctx, rec) = run_case(p, &c, thorough);
                print_case(&r, &ctx, &rec);
                if r.is_err() { 1 } else { 0 }
            });
            std::process::exit(code)
        }
        Some("shrink") => {
            let p = find(props, &args[1]);
            let file = PathBuf::from(get("--file").unwrap());
            limit_memory();
            install_hook();
            let known: Vec<String> = load_known(p.id).into_iter().map(|k| k.sig).collect();
            with_big_stack(move || shrink(p, &file, thorough, &known));
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&args[1]).expect("replay file");
            let id = t.lines().find_map(|l| l.strip_prefix("property: ")).expect("property").to_string();
            let p = find(props, &id);
            limit_memory();
            install_hook();
            let code = with_big_stack(move || {
                let (mut r, mut ctx, mut rec) = run_replay(p, &t, thorough);
                for _ in 1..p.repeat {
                    if r.is_err() {
                        break;
                    }
                    (r, ctx, rec) = run_replay(p, &t, thorough);
                }
                print_case(&r, &ctx, &rec);
                if r.is_err() { 1 } else { 0 }
            });
            std::process::exit(code)
        }
        _ => {
            eprintln!("usage: run <prop> [--tier quick|thorough] [--cases N] | replay <file> | case <prop> --idx N | list");
            std::process::exit(2)
        }
    }
}

fn run_replay(p: &PropDef, t: &str, thorough: bool) -> (R, Ctx, Vec<u64>) {
    if let Some(f) = t.lines().find_map(|l| l.strip_prefix("textfile: ")) {
        let text = std::fs::read_to_string(verif_dir().join(f.trim())).expect("text file");
        let mut ctx = Ctx { thorough, ..Ctx::default() };
        let r = guard(|| (p.text.expect("text check"))(&text, &mut ctx));
        return (r, ctx, vec![]);
    }
    let c = if let Some(f) = t.lines().find_map(|l| l.strip_prefix("fixed: ")) {
        Case::Fixed(f.trim().parse().unwrap())
    } else if let Some(c) = t.lines().find_map(|l| l.strip_prefix("choices: ")) {
        Case::Choices(c.split_whitespace().map(|x| x.parse().unwrap()).collect())
    } else {
        let c = t.lines().find_map(|l| l.strip_prefix("seeded: ")).expect("case");
        Case::Gen(c.trim().parse().unwrap())
    };
    run_case(p, &c, thorough)
}

fn print_case(r: &R, ctx: &Ctx, rec: &[u64]) {
    for (k, v) in &ctx.notes {
        println!("--- {k}\n{v}");
    }
    for (k, v) in &ctx.classes {
        println!("class {k}: {v}");
    }
    println!("choices used: {}", rec.len());
    match r {
        Ok(()) => println!("OK"),
        Err(f) => println!("FAIL sig={}\n{}", f.sig, f.msg),
    }
}

fn limit_memory() {
    let lim: [u64; 2] = [6 << 30, 6 << 30];
    unsafe {
        setrlimit(9, &lim);
    }
}

fn read_choices(f: &Path) -> Vec<u64> {
    std::fs::read_to_string(f)
        .unwrap()
        .split_whitespace()
        .map(|x| x.parse().unwrap())
        .collect()
}

fn write_choices(f: &Path, c: &[u64]) {
    let s: Vec<String> = c.iter().map(|x| x.to_string()).collect();
    let tmp = f.with_extension("tmp");
    std::fs::write(&tmp, s.join(" ")).unwrap();
    std::fs::rename(&tmp, f).unwrap();
}

fn worker(
    p: &PropDef,
    seed: u64,
    thorough: bool,
    shard: u64,
    shards: u64,
    total: u64,
    start: u64,
    dir: &Path,
) {
    let status = std::fs::OpenOptions::new()
        .create(true)
        .truncate(false)
        .write(true)
        .open(dir.join(format!("status{shard}")))
        .unwrap();
    let known = load_known(p.id);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut known_hits = 0u64;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut failed: Option<(u64, Fail, Vec<u64>)> = None;
    let mut idx = start;
    while idx < total {
        if idx % shards != shard {
            idx += 1;
            continue;
        }
        status.write_all_at(&idx.to_le_bytes(), 0).unwrap();
        let c = case_for(p, seed, idx, thorough);
        let (r, ctx, rec) = run_case(p, &c, thorough);
        evals += 1;
        for h in ctx.nontrivial.iter() {
            if seen.insert(*h)
                && samples.len() < 4
                && let Some(s) = &ctx.sample
                && (samples.len() < 2 || idx > total / 2)
            {
                let c = clip(s, 400);
                if !samples.contains(&c) {
                    samples.push(c);
                }
            }
        }
        for (k, v) in ctx.classes {
            *classes.entry(k).or_insert(0) += v;
        }
        if let Err(f) = r {
            if known.iter().any(|k| k.sig == f.sig) {
                known_hits += 1;
            } else {
                failed = Some((idx, f, rec));
                break;
            }
        }
        idx += 1;
    }
    let mut bytes = Vec::with_capacity(seen.len() * 8);
    for h in &seen {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    // append: a worker may be restarted after a crash was found not reproducible
    let mut f = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join(format!("hashes{shard}")))
        .unwrap();
    f.write_all(&bytes).unwrap();
    let mut out = String::new();
    out.push_str(&format!("evals {evals}\nknown {known_hits}\n"));
    for (k, v) in &classes {
        out.push_str(&format!("class {v} {k}\n"));
    }
    for s in &samples {
        out.push_str(&format!("sample {}\n", s.escape_debug()));
    }
    if let Some((i, fl, rec)) = failed {
        let is_fixed = i < (p.fixed_count)(thorough) as u64;
        write_choices(&dir.join(format!("fail{shard}.choices")), &rec);
        std::fs::write(dir.join(format!("fail{shard}.msg")), format!("{}\n{}", fl.sig, fl.msg)).unwrap();
        out.push_str(&format!("fail {i} {}\n", if is_fixed { "fixed" } else { "gen" }));
    }
    out.push_str("done\n");
    std::fs::write(dir.join(format!("out{shard}")), out).unwrap();
}

fn shrink(p: &PropDef, file: &Path, thorough: bool, known: &[String]) {
    let mut best = read_choices(file);
    let (r, _, rec) = run_case(p, &Case::Choices(best.clone()), thorough);
    let Err(orig) = r else { return };
    let _ = orig;
    if rec.len() <= best.len() {
        best = rec;
    }
    let deadline = Instant::now() + Duration::from_secs(120);
    let mut tries = 0u64;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
        tries += 1;
        if cand == *best {
            return false;
        }
        let (r, _, rec) = run_case(p, &Case::Choices(cand.clone()), thorough);
        if let Err(f) = r {
            if known.contains(&f.sig) {
                return false;
            }
            // trim unused tail
            let mut c = if rec.len() <= cand.len() { rec } else { cand };
            while c.last() == Some(&0) {
                c.pop();
            }
            if c.len() < best.len() || (c.len() == best.len() && c < *best) {
                *best = c;
                write_choices(file, best);
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > deadline {
                    return;
                }
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !attempt(c, &mut best) {
                    // zero the chunk
                    let mut c = best.clone();
                    let end = (i + size).min(c.len());
                    let mut changed = false;
                    for x in &mut c[i..end] {
                        if *x != 0 {
                            *x = 0;
                            changed = true;
                        }
                    }
                    if !(changed && attempt(c, &mut best)) {
                        i += size;
                    } else {
                        i += size;
                    }
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            if Instant::now() > deadline {
                return;
            }
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64;
                let mut hi = v;
                let mut steps = 0;
                while lo < hi && steps < 12 {
                    steps += 1;
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    if attempt(c, &mut best) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                if i < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    attempt(c, &mut best);
                }
            }
            i += 1;
        }
        if best != before {
            continue;
        }
        // simplify a choice and drop what depended on it
        let mut i = 0;
        while i < best.len() {
            for k in 1..24usize {
                if Instant::now() > deadline || i >= best.len() {
                    break;
                }
                let mut c = best.clone();
                if i + 1 + k > c.len() {
                    break;
                }
                c[i] = 0;
                c.drain(i + 1..i + 1 + k);
                attempt(c, &mut best);
            }
            i += 1;
        }
        // random edits: delete one or two ranges, lower a choice
        let mut rng = 0x9e3779b97f4a7c15u64;
        let mut misses = 0;
        while misses < 6000 && !best.is_empty() {
            if Instant::now() > deadline {
                return;
            }
            let mut next = |n: usize| {
                rng = mix(rng, 77);
                (rng % n.max(1) as u64) as usize
            };
            let mut c = best.clone();
            for _ in 0..1 + next(3) {
                if c.is_empty() {
                    break;
                }
                let a = next(c.len());
                if next(3) == 0 {
                    c[a] = next(c[a] as usize + 1) as u64;
                } else {
                    let m = if next(2) == 0 { 4 } else { 40 };
                    let l = 1 + next(m);
                    let e = (a + l).min(c.len());
                    c.drain(a..e);
                }
            }
            if attempt(c, &mut best) {
                misses = 0;
            } else {
                misses += 1;
            }
        }
        if best == before {
            return;
        }
    }
}

fn spawn(args: &[String], out: Stdio) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker")
}

/// Whether a process died by SIGILL, SIGABRT, SIGBUS or SIGSEGV.
fn memory_error(st: Option<std::process::ExitStatus>) -> bool {
    use std::os::unix::process::ExitStatusExt;
    st.is_some_and(|s| matches!(s.signal(), Some(4 | 6 | 7 | 11)))
}

enum Sub {
    Exit(i32, String),
    Signal,
    Timeout,
}

fn run_sub(args: &[String], limit: Duration) -> Sub {
    let mut child = spawn(args, Stdio::piped());
    let mut so = child.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = so.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let t = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            let out = h.join().unwrap();
            return match st.code() {
                Some(c) => Sub::Exit(c, out),
                None => Sub::Signal,
            };
        }
        if t.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Sub::Timeout;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn run_parent(p: &PropDef, seed: u64, tier: &str, cases: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let vd = verif_dir();
    let dir = vd.join("target").join("run").join(format!("{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let code = run_parent_inner(p, seed, tier, thorough, cases, &vd, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

#[allow(clippy::too_many_arguments)]
fn run_parent_inner(
    p: &PropDef,
    seed: u64,
    tier: &str,
    thorough: bool,
    cases: Option<u64>,
    vd: &Path,
    dir: &Path,
    t0: Instant,
) -> i32 {
    // 1. known findings: replay, report
    let known = load_known(p.id);
    for k in &known {
        let f = vd.join(&k.replay);
        // a finding about time says how long to wait for it
        let limit = std::fs::read_to_string(&f)
            .unwrap_or_default()
            .lines()
            .find_map(|l| l.strip_prefix("limit: ")?.trim().parse().ok())
            .unwrap_or(p.hang_secs + 30);
        let r = run_sub(
            &["replay".into(), f.to_string_lossy().into_owned()],
            Duration::from_secs(limit),
        );
        let still = match &r {
            Sub::Exit(0, _) => false,
            Sub::Exit(1, out) => out.contains(&format!("FAIL sig={}\n", k.sig)),
            Sub::Exit(_, _) => true,
            Sub::Signal => true,
            Sub::Timeout => true,
        };
        if still {
            println!("KNOWN-FINDING: property={} {}", p.id, k.text);
        } else {
            println!("note: listed finding no longer fails as recorded: property={} {}", p.id, k.text);
        }
    }
    let nf = (p.fixed_count)(thorough) as u64;
    let n = cases.unwrap_or(if thorough { p.thorough } else { p.quick });
    let total = nf + n;
    let shards = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(2, 8);
    let wargs = |shard: u64, start: u64| -> Vec<String> {
        vec![
            "worker".into(),
            p.id.into(),
            "--seed".into(),
            seed.to_string(),
            "--tier".into(),
            tier.into(),
            "--shard".into(),
            shard.to_string(),
            "--shards".into(),
            shards.to_string(),
            "--total".into(),
            total.to_string(),
            "--start".into(),
            start.to_string(),
            "--dir".into(),
            dir.to_string_lossy().into_owned(),
        ]
    };
    let mut kids: Vec<Option<Child>> = (0..shards).map(|s| Some(spawn(&wargs(s, 0), Stdio::null()))).collect();
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); shards as usize];
    let budget = Duration::from_secs(if thorough { 6 * 3600 } else { 600 });
    let mut truncated = false;
    let mut flaky = 0u64;
    // (idx, kind)
    let mut crash: Option<(u64, &'static str)> = None;
    let mut any_fail = false;
    loop {
        let mut alive = false;
        for s in 0..shards as usize {
            let Some(child) = kids[s].as_mut() else { continue };
            let st = child.try_wait().unwrap();
            let cur = std::fs::read(dir.join(format!("status{s}")))
                .ok()
                .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())));
            let mut dead_kind = None;
            if let Some(st) = st {
                kids[s] = None;
                if st.success() {
                    let out = std::fs::read_to_string(dir.join(format!("out{s}"))).unwrap_or_default();
                    if out.contains("\nfail ") {
                        any_fail = true;
                    }
                } else {
                    dead_kind = Some("crash");
                }
            } else {
                alive = true;
                if let Some(c) = cur {
                    if last[s].0 != c {
                        last[s] = (c, Instant::now());
                    } else if last[s].1.elapsed() > Duration::from_secs(p.hang_secs) {
                        let _ = child.kill();
                        let _ = child.wait();
                        kids[s] = None;
                        dead_kind = Some("hang");
                    }
                }
            }
            if let Some(kind) = dead_kind {
                let Some(c) = cur else {
                    eprintln!("worker {s} died before its first case");
                    return 2;
                };
                let r = run_sub(
                    &[
                        "case".into(),
                        p.id.into(),
                        "--seed".into(),
                        seed.to_string(),
                        "--tier".into(),
                        tier.into(),
                        "--idx".into(),
                        c.to_string(),
                    ],
                    Duration::from_secs(p.hang_secs),
                );
                match r {
                    Sub::Signal => crash = Some((c, "crash")),
                    Sub::Timeout => crash = Some((c, "hang")),
                    Sub::Exit(0, _) | Sub::Exit(1, _) if p.repeat > 1 && kind == "crash" && memory_error(st) => {
                        // It depends on the schedule, and nothing else corrupts memory.
                        crash = Some((c, "crash"))
                    }
                    Sub::Exit(0, _) | Sub::Exit(1, _) => {
                        // Not reproducible: environment. Go on with the next case.
                        flaky += 1;
                        if flaky > 20 {
                            eprintln!("too many irreproducible worker deaths");
                            return 2;
                        }
                        kids[s] = Some(spawn(&wargs(s as u64, c + 1), Stdio::null()));
                        alive = true;
                    }
                    Sub::Exit(code, out) => {
                        eprintln!("harness error {code}: {out}");
                        return 2;
                    }
                }
            }
        }
        if crash.is_some() || any_fail || !alive {
            break;
        }
        if t0.elapsed() > budget {
            truncated = true;
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // Let the other workers finish their current batch only when nothing failed.
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    // 2. collect
    let mut evals = 0u64;
    let mut known_hits = 0u64;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut fails: Vec<(u64, usize, bool)> = vec![];
    for s in 0..shards as usize {
        if let Ok(b) = std::fs::read(dir.join(format!("hashes{s}"))) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        let out = std::fs::read_to_string(dir.join(format!("out{s}"))).unwrap_or_default();
        for l in out.lines() {
            if let Some(x) = l.strip_prefix("evals ") {
                evals += x.parse::<u64>().unwrap();
            } else if let Some(x) = l.strip_prefix("known ") {
                known_hits += x.parse::<u64>().unwrap();
            } else if let Some(x) = l.strip_prefix("class ") {
                let (v, k) = x.split_once(' ').unwrap();
                *classes.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap();
            } else if let Some(x) = l.strip_prefix("sample ") {
                if samples.len() < 8 {
                    samples.push(x.to_string());
                }
            } else if let Some(x) = l.strip_prefix("fail ") {
                let (i, k) = x.split_once(' ').unwrap();
                fails.push((i.parse().unwrap(), s, k == "fixed"));
            }
        }
    }
    let mut violations = 0;
    let mut vtext = String::new();
    let mut replay_path = None;
    let rdir = vd.join("target").join("replays");
    std::fs::create_dir_all(&rdir).unwrap();
    if let Some((idx, kind)) = crash {
        violations = 1;
        let case = case_for(p, seed, idx, thorough);
        let (body, label) = match case {
            Case::Fixed(i) => (format!("fixed: {i}\n"), "fixed"),
            Case::Gen(s) => (format!("seeded: {s}\n"), "gen"),
            Case::Choices(_) => unreachable!(),
        };
        let f = rdir.join(format!("{}-{kind}-{idx}.replay", p.id));
        std::fs::write(&f, format!("property: {}\n{body}kind: {kind} ({label})\n", p.id)).unwrap();
        vtext = format!("process {kind} (case {idx}); reproduce with: replay {}", f.display());
        replay_path = Some(f);
    } else if let Some(&(idx, s, fixed)) = fails.iter().min() {
        violations = 1;
        let msg = std::fs::read_to_string(dir.join(format!("fail{s}.msg"))).unwrap_or_default();
        let f = rdir.join(format!("{}-{idx}.replay", p.id));
        if fixed {
            std::fs::write(&f, format!("property: {}\nfixed: {idx}\n\nfailure:\n{msg}\n", p.id)).unwrap();
            vtext = msg;
        } else {
            let cf = dir.join(format!("fail{s}.choices"));
            // in a child with a limit, best-so-far is kept in the file
            let _ = run_sub(
                &[
                    "shrink".into(),
                    p.id.into(),
                    "--tier".into(),
                    tier.into(),
                    "--file".into(),
                    cf.to_string_lossy().into_owned(),
                ],
                Duration::from_secs(90),
            );
            let c = std::fs::read_to_string(&cf).unwrap_or_default();
            std::fs::write(&f, format!("property: {}\nchoices: {c}\n", p.id)).unwrap();
            let out = run_sub(
                &["replay".into(), f.to_string_lossy().into_owned()],
                Duration::from_secs(p.hang_secs),
            );
            let txt = match out {
                Sub::Exit(1, o) => o,
                _ => msg.clone(),
            };
            std::fs::write(
                &f,
                format!("property: {}\nchoices: {c}\n\nfailure (shrunk):\n{txt}\n\noriginal failure:\n{msg}\n", p.id),
            )
            .unwrap();
            vtext = txt;
        }
        replay_path = Some(f);
    }
    // 3. evidence
    let mut e = String::new();
    e.push_str("{\n");
    e.push_str(&format!("  \"property\": {},\n", json_str(p.id)));
    e.push_str(&format!("  \"tier\": {},\n", json_str(tier)));
    e.push_str(&format!("  \"seed\": {seed},\n"));
    e.push_str(&format!("  \"level\": {},\n", json_str(p.level)));
    e.push_str("  \"coverage\": {\n");
    e.push_str(&format!("    \"evaluations\": {evals},\n"));
    e.push_str(&format!("    \"distinct_nontrivial\": {},\n", hashes.len()));
    e.push_str(&format!("    \"rule\": {},\n", json_str(p.rule)));
    e.push_str(&format!("    \"fixed_cases\": {nf},\n"));
    e.push_str(&format!("    \"generated_cases_planned\": {n},\n"));
    e.push_str(&format!("    \"truncated_by_time\": {truncated},\n"));
    e.push_str(&format!("    \"known_finding_hits\": {known_hits},\n"));
    e.push_str(&format!("    \"irreproducible_worker_deaths\": {flaky},\n"));
    e.push_str("    \"classes\": {");
    e.push_str(
        &classes
            .iter()
            .map(|(k, v)| format!("{}: {v}", json_str(k)))
            .collect::<Vec<_>>()
            .join(", "),
    );
    e.push_str("},\n    \"samples\": [");
    e.push_str(&samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    e.push_str("]\n  },\n");
    e.push_str(&format!("  \"wall_s\": {:.2},\n", t0.elapsed().as_secs_f64()));
    e.push_str(&format!("  \"violations\": {violations},\n"));
    e.push_str("  \"assumptions\": [");
    e.push_str(&p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    e.push_str("]\n}\n");
    let ed = vd.join("evidence");
    std::fs::create_dir_all(&ed).unwrap();
    std::fs::write(ed.join(format!("{}.json", p.id)), e).unwrap();
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1}s{}",
        p.id,
        evals,
        hashes.len(),
        t0.elapsed().as_secs_f64(),
        if truncated { " (stopped by time budget)" } else { "" }
    );
    for (k, v) in classes.iter() {
        println!("  {k}: {v}");
    }
    if violations == 0 && hashes.is_empty() {
        eprintln!("no case was non-trivial: the check decided nothing");
        return 2;
    }
    if violations > 0 {
        println!("{}", clip(&vtext, 6000));
        println!("VIOLATION property={} replay={}", p.id, replay_path.unwrap().display());
        return 1;
    }
    0
}
