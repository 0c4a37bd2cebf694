//! Exhaustive in-process exploration on all cores.
use std::{
    os::unix::fs::FileExt,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

static SPACE: AtomicU64 = AtomicU64::new(0);

/// The one case to run, after a crash.
pub fn only() -> Option<(u64, u64)> {
    let s = std::env::var("MC_ONLY").ok()?;
    let (a, b) = s.split_once(':')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

/// What ran when the process died: the space, and the cases.
pub fn busy(path: &str) -> Vec<(u64, u64)> {
    let b = std::fs::read(path).unwrap_or_default();
    let n: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    n.iter().skip(1).filter(|&&i| i > 0).map(|&i| (n[0], i - 1)).collect()
}

pub struct Found {
    pub key: String,
    pub what: String,
    pub want: String,
}

pub struct Stats {
    pub found: Vec<Found>,
    pub outcomes: std::collections::HashSet<u64>,
}

pub fn hash(s: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// Runs `f` on `0..n`. `f` returns a digest of what it saw and any complaints.
/// `name` tells what an index is, in case it does not end.
pub fn explore(n: u64, name: impl Fn(u64) -> String + Sync, f: impl Fn(u64, &mut Vec<Found>) -> u64 + Sync) -> Stats {
    let space = SPACE.fetch_add(1, Ordering::Relaxed);
    if let Some((sp, i)) = only() {
        if sp != space {
            return Stats { found: vec![], outcomes: Default::default() };
        }
        println!("CASE {}", name(i));
        std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || f(i, &mut vec![])).unwrap();
        });
        std::process::exit(0);
    }
    let note = std::env::var("MC_BUSY").ok().and_then(|p| std::fs::File::create(p).ok());
    if let Some(n) = &note {
        let _ = n.write_at(&space.to_le_bytes(), 0);
    }
    let note = &note;
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get());
    let next = AtomicU64::new(0);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let outcomes = Mutex::new(std::collections::HashSet::new());
    let busy: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let live = AtomicUsize::new(threads);
    let t0 = Instant::now();
    const STEP: u64 = 64;
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, found, busy, live, outcomes, f) = (&next, &found, &busy, &live, &outcomes, &f);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut mine = vec![];
                    let mut seen = std::collections::HashSet::new();
                    loop {
                        let from = next.fetch_add(STEP, Ordering::Relaxed);
                        if from >= n {
                            break;
                        }
                        for i in from..(from + STEP).min(n) {
                            busy[t].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                            busy[t].0.store(i, Ordering::Relaxed);
                            if let Some(n) = note {
                                let _ = n.write_at(&(i + 1).to_le_bytes(), 8 * (t as u64 + 1));
                            }
                            let d = f(i, &mut mine);
                            if seen.len() < 200_000 {
                                seen.insert(d);
                            }
                        }
                        if !mine.is_empty() {
                            let mut g = found.lock().unwrap();
                            g.append(&mut mine);
                            if g.len() > 500 {
                                break;
                            }
                        }
                    }
                    busy[t].0.store(u64::MAX, Ordering::Relaxed);
                    outcomes.lock().unwrap().extend(seen);
                    live.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        // an expansion that does not end can only be reported, not stopped
        let (busy, live, name, found) = (&busy, &live, &name, &found);
        s.spawn(move || {
            while live.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for b in busy {
                    let i = b.0.load(Ordering::Relaxed);
                    if i != u64::MAX && now.saturating_sub(b.1.load(Ordering::Relaxed)) > 20_000 && b.0.load(Ordering::Relaxed) == i {
                        let k = name(i);
                        let dir = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
                        let id = std::env::args().nth(1).unwrap_or_default();
                        let p = format!("{dir}/evidence/replay/{id}-hang.json");
                        let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
                        let _ = std::fs::write(&p, serde_json::json!({"property": id, "what": "the expansion does not end", "input": k, "want": "ends"}).to_string());
                        let _ = found;
                        println!("  {k}\n    the expansion does not end");
                        println!("VIOLATION property={id} replay={p}");
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    Stats { found: found.into_inner().unwrap(), outcomes: outcomes.into_inner().unwrap() }
}

/// Number of sequences over `k` symbols of length `0..=max`.
pub fn count(k: usize, max: usize) -> u64 { (0..=max).map(|n| (k as u64).pow(n as u32)).sum() }

/// The `i`th of them.
pub fn decode(mut i: u64, k: usize) -> Vec<usize> {
    let k = k as u64;
    let mut n = 0;
    while i >= k.pow(n) {
        i -= k.pow(n);
        n += 1;
    }
    (0..n)
        .map(|_| {
            let d = i % k;
            i /= k;
            d as usize
        })
        .collect()
}
