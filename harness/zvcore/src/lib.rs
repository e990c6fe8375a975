//! Shared driver: runs families of generated cases over worker threads, watches them (panics,
//! CPU-time hangs, monitors' verdicts) and writes what was observed as JSON for run.py.
pub mod alloc;
mod balance;
pub use balance::balanced;
pub mod rng;
pub use rng::{hash_bytes, splitmix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[cfg(feature = "counting-alloc")]
#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub file: String,
    pub line: u32,
    pub msg: String
}
thread_local! {
    static IS_WORKER: RefCell<bool> = const { RefCell::new(false) };
    static LAST: RefCell<Option<PanicRec>> = const { RefCell::new(None) };
}
static ALL: std::sync::OnceLock<&'static [Family]> = std::sync::OnceLock::new();
static FOREIGN: Mutex<Vec<PanicRec>> = Mutex::new(Vec::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let (file, line) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let rec = PanicRec { file, line, msg };
        let worker = IS_WORKER.with(|w| *w.borrow());
        if rec.msg.contains("cannot unwind") {
            // the process aborts now: say what the first panic was
            if let Some(r) = LAST.with(|l| l.borrow().clone()) {
                eprintln!("abort after panic@{}: {}", short_file(&r.file), r.msg);
            }
        }
        if worker {
            LAST.with(|l| *l.borrow_mut() = Some(rec));
        } else {
            let mut f = FOREIGN.lock().unwrap();
            if f.len() < 64 {
                f.push(rec);
            }
        }
    }));
}
fn normalise(s: &str) -> String {
    let mut o = String::new();
    let mut in_num = false;
    for c in s.chars().take(160) {
        if c.is_ascii_digit() {
            if !in_num {
                o.push('N')
            }
            in_num = true;
        } else {
            in_num = false;
            o.push(if c.is_whitespace() { '_' } else { c });
        }
    }
    o
}
fn short_file(f: &str) -> String {
    if let Some(p) = f.find("crates/zune") {
        f[p + 7..].replace("/src/", "/")
    } else {
        f.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/")
    }
}
impl PanicRec {
    pub fn sig(&self) -> String {
        format!("panic@{}#{}", short_file(&self.file), normalise(&self.msg))
    }
}
/// Catch a panic of `f`, telling where it came from.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, PanicRec> {
    LAST.with(|l| *l.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let mut r = LAST.with(|l| l.borrow_mut().take()).unwrap_or(PanicRec {
                file: "?".into(),
                line: 0,
                msg: "?".into()
            });
            if r.msg.contains("scoped thread panicked") || r.msg.contains("Any") || r.file == "?" {
                if let Some(x) = FOREIGN.lock().unwrap().pop() {
                    r = x;
                }
            }
            Err(r)
        }
    }
}

pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub family: String,
    pub idx: u64,
    pub blob: Option<Vec<u8>>,
    pub count: u64
}
#[derive(Default)]
struct Shared {
    violations: BTreeMap<String, Violation>,
    samples: BTreeMap<String, Vec<String>>,
    tags: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    fam_evals: BTreeMap<String, u64>,
    harness_errors: Vec<String>,
    digests: Vec<String>
}
pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub family: &'static str,
    evals: u64,
    fails: Vec<(String, String)>,
    tags: BTreeMap<String, u64>,
    prints: Vec<u64>,
    sample: Option<String>,
    blob: Option<Vec<u8>>,
    digests: Vec<(String, u64)>,
    verbose: bool,
    _p: std::marker::PhantomData<&'a ()>
}
impl Case<'_> {
    /// A monitor's verdict: the property does not hold here. `sig` identifies the class of failure.
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        if self.fails.len() < 8 {
            self.fails.push((sig.into(), detail.into()));
        }
    }
    /// A result that must be the same in the other build of this program (see `VERIF_DIGEST`).
    pub fn digest(&mut self, what: &str, h: u64) {
        self.digests.push((what.replace(' ', "_"), h));
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    /// One observation of the monitored behaviour; `print` identifies it.
    pub fn saw(&mut self, print: u64) {
        self.evals += 1;
        self.prints.push(print);
    }
    /// an evaluation that is trivial (not counted as distinct/non-trivial)
    pub fn saw_trivial(&mut self) {
        self.evals += 1;
    }
    pub fn tag(&mut self, t: &str) {
        *self.tags.entry(t.to_string()).or_insert(0) += 1;
    }
    pub fn tag_n(&mut self, t: &str, n: u64) {
        *self.tags.entry(t.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() && self.idx < 3 {
            self.sample = Some(f());
        }
    }
    /// attach the input so that a violation can be replayed/inspected
    pub fn blob(&mut self, b: &[u8]) {
        if self.verbose {
            let _ = std::fs::write("/tmp/replay.bin", b);
        }
        self.blob = Some(b.to_vec());
    }
    /// Call into the code under test. A panic is a violation.
    pub fn lib<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.fail(p.sig(), format!("{what}: panicked at {}:{}: {}", p.file, p.line, p.msg));
                None
            }
        }
    }
    /// Call into reference code. A panic there only means there is no reference for this case.
    pub fn oracle<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(_) => {
                self.tag("oracle-panicked");
                None
            }
        }
    }
    pub fn log(&self, s: &str) {
        if self.verbose {
            eprintln!("{s}");
        }
    }
}
pub struct Family {
    pub property: &'static str,
    pub name: &'static str,
    /// (quick cases, thorough cases)
    pub n: (u64, u64),
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub f: fn(&mut Case)
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c)
        }
    }
    o.push('"');
    o
}
fn case_seed(seed: u64, fam: &str, idx: u64) -> u64 {
    let mut x = hash_bytes(fam.as_bytes()) ^ seed.wrapping_mul(0xD6E8FEB86659FD93);
    let a = splitmix(&mut x);
    let mut y = a ^ idx.wrapping_mul(0xA0761D6478BD642F);
    splitmix(&mut y)
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
struct Slot {
    tid: AtomicU64,
    job: AtomicUsize, // job+1, 0 when idle
    start_cpu: AtomicU64,
    start_wall: AtomicU64
}
fn gettid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|s| s.to_string_lossy().parse().unwrap_or(0))).unwrap_or(0)
}
/// CPU milliseconds used by thread `tid`
fn cpu_ms(tid: u64) -> u64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return 0 };
    let Some(p) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[p + 2..].split(' ').collect();
    let u: u64 = f.get(11).and_then(|v| v.parse().ok()).unwrap_or(0);
    let k: u64 = f.get(12).and_then(|v| v.parse().ok()).unwrap_or(0);
    (u + k) * 10
}

/// Entry point of every checker binary.
/// args: --property P --out FILE --work DIR [--replay FAMILY:IDX] ; env VERIF_SEED, VERIF_TIER
pub fn main(families: &'static [Family]) {
    let mut args = std::env::args().skip(1);
    let (mut prop, mut out, mut work) = (String::new(), String::new(), String::from("/tmp"));
    let mut replay: Option<(String, u64)> = None;
    let mut only: Option<String> = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--property" => prop = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--work" => work = args.next().unwrap(),
            "--family" => only = args.next(),
            "--replay" => {
                let s = args.next().unwrap();
                let (f, i) = s.rsplit_once(':').unwrap();
                replay = Some((f.to_string(), i.parse().unwrap()));
            }
            "--list" => {
                for f in families {
                    println!("{} {} {:?}", f.property, f.name, f.n);
                }
                return;
            }
            _ => panic!("bad arg {a}")
        }
    }
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|v| v.parse::<f64>().ok()).unwrap_or(1.0);
    let budget = Duration::from_secs(env_u64("VERIF_BUDGET_S", if thorough { 3600 } else { 150 }));
    let hang_ms = env_u64("VERIF_HANG_MS", 60_000);
    let threads = env_u64("VERIF_THREADS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)) as usize;
    install_hook();
    let _ = ALL.set(families);
    let fams: Vec<&'static Family> = families
        .iter()
        .filter(|f| f.property == prop && only.as_ref().map(|o| o == f.name).unwrap_or(true))
        .collect();
    if fams.is_empty() {
        eprintln!("no families for {prop}");
        std::process::exit(2);
    }
    // interleave families so that a time cap hits all of them alike
    let mut jobs: Vec<(usize, u64)> = Vec::new();
    if let Some((f, i)) = &replay {
        let fi = fams.iter().position(|x| x.name == f).expect("family");
        jobs.push((fi, *i));
    } else {
        let mut keyed: Vec<(u64, usize, u64)> = Vec::new();
        for (fi, f) in fams.iter().enumerate() {
            let n = if thorough { f.n.1 } else { f.n.0 };
            let n = ((n as f64 * scale).ceil() as u64).max(1);
            for i in 0..n {
                keyed.push(((i as u128 * 1_000_000 / n as u128) as u64, fi, i));
            }
        }
        keyed.sort();
        jobs.extend(keyed.into_iter().map(|(_, f, i)| (f, i)));
    }
    let verbose = replay.is_some();
    let threads = threads.min(jobs.len()).max(1);
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot {
            tid: AtomicU64::new(0),
            job: AtomicUsize::new(0),
            start_cpu: AtomicU64::new(0),
            start_wall: AtomicU64::new(0)
        })
        .collect();
    let recording = std::env::var("VERIF_DIGEST").is_ok();
    let reference: Option<HashMap<(String, u64), Vec<(String, u64)>>> = std::env::var("VERIF_DIGEST_REF").ok().map(|p| {
        let t = std::fs::read_to_string(p).expect("reference digests");
        t.lines()
            .map(|l| {
                let mut w = l.split(' ');
                let k = (w.next().unwrap().to_string(), w.next().unwrap().parse().unwrap());
                (k, w.map(|x| x.rsplit_once('=').map(|(a, b)| (a.to_string(), u64::from_str_radix(b, 16).unwrap())).unwrap()).collect())
            })
            .collect()
    });
    let reference = reference.as_ref();
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let running = AtomicUsize::new(threads);
    let shared = Mutex::new(Shared::default());
    let evals = AtomicU64::new(0);
    let cases = AtomicU64::new(0);
    let t0 = Instant::now();
    let _ = std::fs::create_dir_all(&work);
    let finish = |capped: bool| {
        let sh = shared.lock().unwrap();
        if let Ok(p) = std::env::var("VERIF_DIGEST") {
            std::fs::write(p, sh.digests.concat()).expect("write digests");
        }
        let mut s = String::from("{");
        s += &format!("\"property\":{},\"seed\":{},\"thorough\":{},", esc(&prop), seed, thorough);
        s += &format!("\"evaluations\":{},\"cases\":{},\"planned\":{},\"capped\":{},", evals.load(Ordering::SeqCst), cases.load(Ordering::SeqCst), jobs.len(), capped);
        s += &format!("\"distinct_nontrivial\":{},\"wall_s\":{:.2},", sh.distinct.len(), t0.elapsed().as_secs_f64());
        s += "\"families\":{";
        s += &fams
            .iter()
            .map(|f| format!("{}:{{\"rule\":{},\"evaluations\":{}}}", esc(f.name), esc(f.rule), sh.fam_evals.get(f.name).copied().unwrap_or(0)))
            .collect::<Vec<_>>()
            .join(",");
        s += "},\"tags\":{";
        s += &sh.tags.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        s += "},\"samples\":[";
        s += &sh.samples.iter().flat_map(|(f, v)| v.iter().map(move |x| esc(&format!("{f}: {x}")))).collect::<Vec<_>>().join(",");
        s += "],\"harness_errors\":[";
        s += &sh.harness_errors.iter().take(10).map(|x| esc(x)).collect::<Vec<_>>().join(",");
        s += "],\"violations\":[";
        let mut first = true;
        for v in sh.violations.values() {
            let mut blobp = String::new();
            if let Some(b) = &v.blob {
                let p = format!("{work}/{prop}-{:016x}.bin", hash_bytes(v.sig.as_bytes()));
                if std::fs::write(&p, b).is_ok() {
                    blobp = p;
                }
            }
            if !first {
                s.push(',');
            }
            first = false;
            s += &format!(
                "{{\"sig\":{},\"detail\":{},\"family\":{},\"idx\":{},\"count\":{},\"blob\":{}}}",
                esc(&v.sig), esc(&v.detail), esc(&v.family), v.idx, v.count, esc(&blobp)
            );
        }
        s += "]}";
        if out.is_empty() {
            println!("{s}");
        } else {
            std::fs::write(&out, s).expect("write report");
        }
    };
    std::thread::scope(|sc| {
        for w in 0..threads {
            let (slots, next, shared, evals, cases, jobs, fams, work, running, done) =
                (&slots, &next, &shared, &evals, &cases, &jobs, &fams, &work, &running, &done);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    IS_WORKER.with(|w| *w.borrow_mut() = true);
                    let slot = &slots[w];
                    let tid = gettid();
                    slot.tid.store(tid, Ordering::SeqCst);
                    let mut cur = std::fs::File::create(format!("{work}/current-{w}")).ok();
                    loop {
                        if t0.elapsed() > budget || done.load(Ordering::SeqCst) {
                            break;
                        }
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        if j >= jobs.len() {
                            break;
                        }
                        let (fi, idx) = jobs[j];
                        let fam = fams[fi];
                        if let Some(c) = cur.as_mut() {
                            use std::io::Seek;
                            let _ = c.rewind();
                            let _ = c.write_all(format!("{:<40}:{:<12}\n", fam.name, idx).as_bytes());
                        }
                        slot.start_cpu.store(cpu_ms(tid), Ordering::SeqCst);
                        slot.start_wall.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                        slot.job.store(j + 1, Ordering::SeqCst);
                        let mut c = Case {
                            rng: Rng::new(case_seed(seed, fam.name, idx)),
                            idx,
                            thorough,
                            family: fam.name,
                            evals: 0,
                            fails: vec![],
                            tags: BTreeMap::new(),
                            prints: vec![],
                            sample: None,
                            blob: None,
                            digests: vec![],
                            verbose,
                            _p: std::marker::PhantomData
                        };
                        let r = catch(|| (fam.f)(&mut c));
                        slot.job.store(0, Ordering::SeqCst);
                        let mut herr = None;
                        if let Err(p) = r {
                            if p.file.contains("/repo/") && p.file.contains("crates/zune") {
                                let s = p.sig();
                                c.fail(s, format!("panicked at {}:{}: {}", p.file, p.line, p.msg));
                            } else {
                                herr = Some(format!("{}:{} {}:{}: {}", fam.name, idx, p.file, p.line, p.msg));
                            }
                        }
                        let digests = std::mem::take(&mut c.digests);
                        if let Some(r) = reference {
                            match r.get(&(fam.name.to_string(), idx)) {
                                Some(o) if herr.is_none() => {
                                    c.tag_n("compared between builds", digests.len() as u64);
                                    let d = digests.iter().zip(o).find(|(a, b)| a != b);
                                    if let Some((a, b)) = d {
                                        c.fail(format!("builds-differ:{}", a.0), format!("{}: {a:?} here, {b:?} in the other build", c.sample.clone().unwrap_or_default()));
                                    } else if digests.len() != o.len() {
                                        c.fail("builds-differ:count", format!("{} results here, {} in the other build", digests.len(), o.len()));
                                    }
                                }
                                _ => c.tag("not compared")
                            }
                        }
                        evals.fetch_add(c.evals, Ordering::SeqCst);
                        cases.fetch_add(1, Ordering::SeqCst);
                        let mut sh = shared.lock().unwrap();
                        if recording && herr.is_none() {
                            let l = digests.iter().map(|(k, h)| format!(" {k}={h:x}")).collect::<String>();
                            sh.digests.push(format!("{} {idx}{l}\n", fam.name));
                        }
                        if let Some(h) = herr {
                            sh.harness_errors.push(h);
                        }
                        *sh.fam_evals.entry(fam.name.to_string()).or_insert(0) += c.evals;
                        let fh = hash_bytes(fam.name.as_bytes());
                        for p in c.prints {
                            sh.distinct.insert(p ^ fh);
                        }
                        for (k, v) in c.tags {
                            *sh.tags.entry(k).or_insert(0) += v;
                        }
                        if let Some(s) = c.sample {
                            let e = sh.samples.entry(fam.name.to_string()).or_default();
                            if e.len() < 2 {
                                e.push(s);
                            }
                        }
                        for (sig, detail) in c.fails {
                            if verbose {
                                eprintln!("FAIL {sig}: {detail}");
                            }
                            if let Some(e) = sh.violations.get_mut(&sig) {
                                e.count += 1;
                                if idx < e.idx && e.family == fam.name {
                                    e.idx = idx;
                                    e.detail = detail;
                                    e.blob = c.blob.clone();
                                }
                            } else if sh.violations.len() < 400 {
                                sh.violations.insert(
                                    sig.clone(),
                                    Violation { sig, detail, family: fam.name.to_string(), idx, blob: c.blob.clone(), count: 1 }
                                );
                            }
                        }
                    }
                    running.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog
        let (slots, jobs, fams, shared, running) = (&slots, &jobs, &fams, &shared, &running);
        let finish = &finish;
        sc.spawn(move || {
            while running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(50));
                for s in slots {
                    let j = s.job.load(Ordering::SeqCst);
                    if j == 0 {
                        continue;
                    }
                    let wall = t0.elapsed().as_millis() as u64;
                    if wall.saturating_sub(s.start_wall.load(Ordering::SeqCst)) < hang_ms {
                        continue;
                    }
                    let used = cpu_ms(s.tid.load(Ordering::SeqCst)).saturating_sub(s.start_cpu.load(Ordering::SeqCst));
                    if used > hang_ms && s.job.load(Ordering::SeqCst) == j {
                        let (fi, idx) = jobs[j - 1];
                        let sig = format!("hang@{}", fams[fi].name);
                        shared.lock().unwrap().violations.insert(
                            sig.clone(),
                            Violation { sig, detail: format!("case still running after {used} ms of CPU time"), family: fams[fi].name.into(), idx, blob: None, count: 1 }
                        );
                        finish(true);
                        std::process::exit(0);
                    }
                }
            }
        });
    });
    finish(next.load(Ordering::SeqCst) < jobs.len());
}

/// First index where two slices differ, for messages.
pub fn first_diff<T: PartialEq>(a: &[T], b: &[T]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())));
    }
    a.iter().zip(b).position(|(x, y)| x != y)
}
pub fn diff_msg<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T]) -> String {
    match first_diff(got, want) {
        None => "equal".into(),
        Some(i) => format!(
            "lengths got {} want {}; first difference at {i}: got {:?} want {:?}",
            got.len(), want.len(), got.get(i), want.get(i)
        )
    }
}
