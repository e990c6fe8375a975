//! R11: what an operation took is given back. A whole case of another family is run again and
//! again; what the process holds afterwards must not grow (or shrink) every time.
//! Needs the counting allocator and a process with a single worker.
use crate::*;
use std::cell::Cell;

/// bytes, open files, threads
fn held() -> [isize; 3] {
    let n = |p: &str| std::fs::read_dir(p).map(|d| d.count() as isize).unwrap_or(0);
    let (f, t) = (n("/proc/self/fd"), n("/proc/self/task"));
    [alloc::net(), f, t]
}
pub fn balanced(c: &mut Case) {
    alloc::track();
    let all = ALL.get().unwrap();
    // families of few cases are long enumerations
    let fams: Vec<&Family> = all.iter().filter(|f| f.property != "R11" && f.n.0 >= 200).collect();
    let fam = fams[c.rng.below(fams.len())];
    let idx = 10 + c.rng.below(1 << 16) as u64;
    let seed = c.rng.u64();
    let (bad, prints, evals) = (Cell::new(false), Cell::new(0u64), Cell::new(0u64));
    let thorough = c.thorough;
    let once = || {
        let mut s = Case {
            rng: Rng::new(seed),
            idx,
            thorough,
            family: fam.name,
            evals: 0,
            fails: vec![],
            tags: BTreeMap::new(),
            prints: vec![],
            sample: None,
            blob: None,
            digests: vec![],
            verbose: false,
            _p: std::marker::PhantomData
        };
        // a panic is another property's business, and may keep what it likes
        let ko = catch(|| (fam.f)(&mut s)).is_err() || !s.fails.is_empty() || s.tags.contains_key("oracle-panicked");
        bad.set(bad.get() || ko);
        prints.set(s.prints.first().copied().unwrap_or(0));
        evals.set(s.evals);
        drop(s);
        LAST.with(|l| *l.borrow_mut() = None);
    };
    // whatever is made once and for all is made now
    once();
    let start = held();
    let mut at = vec![start];
    for _ in 0..3 {
        once();
        at.push(held());
    }
    c.tag(&format!("{} {}", fam.property, fam.name));
    c.tag_n("observations repeated", evals.get());
    c.saw(prints.get() ^ hash_bytes(fam.name.as_bytes()));
    c.sample(|| format!("{} {}: held {at:?}", fam.property, fam.name));
    let steady = |at: &[[isize; 3]], k: usize| -> Option<isize> {
        let d: Vec<isize> = at.windows(2).map(|w| w[1][k] - w[0][k]).collect();
        if d.iter().all(|x| *x > 0) || d.iter().all(|x| *x < 0) {
            Some(d.iter().sum::<isize>() / d.len() as isize)
        } else {
            None
        }
    };
    if !(0..3).any(|k| steady(&at, k).is_some()) {
        return;
    }
    // again, more often, letting threads come to their end
    let foreign = FOREIGN.lock().unwrap().len();
    let mut at = vec![];
    for _ in 0..9 {
        once();
        std::thread::sleep(Duration::from_millis(15));
        at.push(held());
    }
    if bad.get() || FOREIGN.lock().unwrap().len() != foreign {
        c.tag("no verdict: a panic or failure");
        return;
    }
    for (k, what) in ["bytes", "open files", "threads"].into_iter().enumerate() {
        if let Some(n) = steady(&at, k) {
            c.fail(format!("kept:{what}:{}", fam.name), format!("{} {} (seed {seed:#x}, index {idx}): every repetition leaves {n} {what} more than it found", fam.property, fam.name));
        }
    }
}
