//! Coverage-guided search: cases are mutations of kept choice sequences; a sequence is kept when it
//! makes the code under test run something new (edge counters of the `guided` build, in powers of
//! two). Oracles, shrinking and replay are those of the arm.

use crate::exec::*;
use crate::runner::*;
use crate::src::{splitmix, Src};
use std::io::{Read, Seek, Write};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static RANGES: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

#[cfg(feature = "guided")]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let mut g = RANGES.lock().unwrap();
    let r = (start as usize, stop as usize);
    if r.0 < r.1 && !g.contains(&r) {
        g.push(r);
    }
}

fn counters() -> Vec<&'static mut [u8]> {
    RANGES
        .lock()
        .unwrap()
        .iter()
        .map(|(a, b)| unsafe { std::slice::from_raw_parts_mut(*a as *mut u8, b - a) })
        .collect()
}

pub fn available() -> bool {
    !RANGES.lock().unwrap().is_empty()
}

fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

struct Cov {
    seen: Vec<u8>,
    edges: usize,
    features: usize,
}

impl Cov {
    fn reset() {
        for s in counters() {
            s.fill(0);
        }
    }
    /// how many features the counters show that were not seen before
    fn note(&mut self) -> usize {
        let mut at = 0;
        let mut new = 0;
        for s in counters() {
            for ch in s.iter() {
                if *ch != 0 {
                    let b = bucket(*ch);
                    let m = &mut self.seen[at];
                    if *m & b == 0 {
                        if *m == 0 {
                            self.edges += 1;
                        }
                        *m |= b;
                        new += 1;
                    }
                }
                at += 1;
            }
        }
        self.features += new;
        new
    }
}

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        ((splitmix(&mut self.0) as u128 * n.max(1) as u128) >> 64) as usize
    }
    fn value(&mut self) -> u64 {
        match self.below(4) {
            0 => self.below(4) as u64,
            1 => self.below(32) as u64,
            2 => self.below(256) as u64,
            _ => splitmix(&mut self.0) >> 32,
        }
    }
}

fn mutate(r: &mut Rng, corpus: &[Vec<u64>], base: &[u64]) -> Vec<u64> {
    let mut v = base.to_vec();
    let n = 1 + r.below(4) * r.below(2);
    for _ in 0..n {
        let len = v.len();
        let span = |r: &mut Rng, len: usize| -> (usize, usize) {
            let i = r.below(len);
            let m = [2, 8, 32, 1 + len][r.below(4)];
            let l = 1 + r.below(m);
            (i, (i + l).min(len))
        };
        match r.below(9) {
            0 | 1 if len > 0 => {
                let i = r.below(len);
                v[i] = r.value();
            }
            2 if len > 0 => {
                let i = r.below(len);
                v[i] = if r.below(2) == 0 { v[i].wrapping_add(1) } else { v[i].wrapping_sub(1) };
            }
            3 if len > 0 => {
                let (i, e) = span(r, len);
                v.drain(i..e);
            }
            4 if len > 0 => {
                let (i, e) = span(r, len);
                let b: Vec<u64> = v[i..e].to_vec();
                let at = r.below(len + 1);
                v.splice(at..at, b);
            }
            5 => {
                let at = r.below(len + 1);
                let b: Vec<u64> = (0..1 + r.below(4)).map(|_| r.value()).collect();
                v.splice(at..at, b);
            }
            6 | 7 if len > 0 => {
                // a block of another kept sequence, in place of a block or between two choices
                let o = &corpus[r.below(corpus.len())];
                if !o.is_empty() {
                    let (i, e) = span(r, o.len());
                    let b: Vec<u64> = o[i..e].to_vec();
                    let at = r.below(len + 1);
                    let to = if r.below(2) == 0 { at } else { (at + b.len()).min(len) };
                    v.splice(at..to, b);
                }
            }
            _ => {
                // a fresh random tail
                let at = r.below(len + 1);
                v.truncate(at);
            }
        }
    }
    v
}

const MAX_CHOICES: usize = 4000;

/// One worker of the guided search: as many cases as the time allows. Never returns.
pub fn worker(arm: &Arm, seed: u64, thorough: bool, limit_s: u64, time_s: u64, dir: &str, out: &str) -> ! {
    static RES: Mutex<Option<ArmResult>> = Mutex::new(None);
    *RES.lock().unwrap() = Some(ArmResult::default());
    {
        let out = out.to_string();
        start_case_watchdog(limit_s, move |i, why| {
            let mut g = RES.lock().unwrap();
            if !case_is(i) {
                return;
            }
            let r = g.as_mut().unwrap();
            r.evaluations += 1;
            *r.discarded.entry(format!("no answer within the {} limit", why)).or_insert(0) += 1;
            let _ = std::fs::write(&out, r.dump());
            std::process::exit(WORKER_HANG);
        });
    }
    let kept = format!("{}/kept", dir);
    let stop = format!("{}/stop", dir);
    let cur = format!("{}.cur", out);
    let t_start = Instant::now();
    let f = arm.f;
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                let size: usize = counters().iter().map(|s| s.len()).sum();
                let mut cov = Cov { seen: vec![0; size], edges: 0, features: 0 };
                let mut r = Rng(seed);
                let mut corpus: Vec<Vec<u64>> = vec![];
                let mut file = std::fs::OpenOptions::new().create(true).append(true).read(true).open(&kept).expect("kept file");
                let mut offset = 0u64;
                let mut last_sync = Instant::now() - Duration::from_secs(9);
                let mut pending: Vec<Vec<u64>> = vec![];
                let mut i = 0u64;
                let mut avg = 0.0f64;
                while t_start.elapsed().as_secs() < time_s {
                    if last_sync.elapsed().as_millis() > 1500 {
                        last_sync = Instant::now();
                        if std::path::Path::new(&stop).exists() {
                            break;
                        }
                        let mut s = String::new();
                        if file.seek(std::io::SeekFrom::Start(offset)).is_ok() && file.read_to_string(&mut s).is_ok() {
                            let end = s.rfind('\n').map(|x| x + 1).unwrap_or(0);
                            offset += end as u64;
                            for l in s[..end].lines() {
                                pending.push(l.split(',').filter_map(|x| x.parse().ok()).collect());
                            }
                        }
                    }
                    let theirs = pending.pop();
                    let given = theirs.is_some();
                    let (v, tail) = match theirs {
                        Some(v) => (v, 0),
                        None if corpus.len() < 8 || r.below(10) == 0 => (vec![], splitmix(&mut r.0)),
                        None => {
                            let n = corpus.len();
                            let k = if r.below(2) == 0 { n - 1 - r.below(1 + n / 8) } else { r.below(n) };
                            let v = mutate(&mut r, &corpus, &corpus[k]);
                            (v, splitmix(&mut r.0))
                        }
                    };
                    if v.len() > MAX_CHOICES {
                        continue;
                    }
                    let _ = std::fs::write(&cur, format!("{}\n{}", tail, join(&v)));
                    let mut src = Src::mixed(v, tail);
                    let mut ctx = Ctx { thorough, ..Ctx::default() };
                    i += 1;
                    Cov::reset();
                    let t0 = Instant::now();
                    case_begins(i);
                    let res = run_case(f, &mut src, &mut ctx);
                    let mut g = RES.lock().unwrap();
                    case_ends();
                    let dt = t0.elapsed().as_secs_f64();
                    let new = cov.note();
                    let loc = g.as_mut().unwrap();
                    loc.evaluations += 1;
                    avg += (dt - avg) / loc.evaluations.min(1000) as f64;
                    if new > 0 && src.out.len() <= MAX_CHOICES && dt < 0.05f64.max(avg * 20.0) {
                        corpus.push(src.out.clone());
                        if !given {
                            let _ = file.write_all(format!("{}\n", join(&src.out)).as_bytes());
                        }
                    }
                    if dt > loc.slowest.0 {
                        loc.slowest = (dt, i, ctx.desc.clone());
                    }
                    if let Some(d) = ctx.discard {
                        *loc.discarded.entry(d.to_string()).or_insert(0) += 1;
                    }
                    for (k, v) in &ctx.labels {
                        *loc.labels.entry(k.to_string()).or_insert(0) += v;
                    }
                    if ctx.nontrivial && ctx.discard.is_none() {
                        loc.nontrivial += 1;
                        loc.distinct.insert(hash_str(&ctx.desc));
                        if loc.samples.len() < 4 && i > 500 {
                            loc.samples.push((i, ctx.desc.clone()));
                        }
                    }
                    match res {
                        Outcome::Ok => {}
                        Outcome::Fail(msg) => {
                            loc.failure = Some(Failure { index: i, choices: src.out.clone(), msg, desc: ctx.desc.clone() });
                        }
                        Outcome::Internal(m) => {
                            loc.internal = Some(format!("guided case: {} [{}] choices={}", m, ctx.desc, join(&src.out)));
                        }
                    }
                    if loc.failure.is_some() || loc.internal.is_some() {
                        let _ = std::fs::write(&stop, "0");
                        break;
                    }
                }
                let mut g = RES.lock().unwrap();
                let loc = g.as_mut().unwrap();
                loc.guided = (corpus.len() as u64, cov.edges as u64, cov.features as u64);
            })
            .unwrap();
    });
    let g = RES.lock().unwrap();
    std::fs::write(out, g.as_ref().unwrap().dump()).expect("worker result");
    std::process::exit(0);
}

pub fn join(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

pub fn run_arm(job: &Job) -> ArmResult {
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8) as u64;
    let exe = std::env::current_exe().expect("own path");
    let total = Mutex::new(ArmResult::default());
    let _ = std::fs::remove_file(format!("{}/stop", job.dir));
    let _ = std::fs::remove_file(format!("{}/kept", job.dir));
    let t_start = Instant::now();
    let tier = if job.thorough { "thorough" } else { "quick" };
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (total, exe) = (&total, &exe);
            sc.spawn(move || {
                let mut part = 0u64;
                loop {
                    let left = job.time_s.saturating_sub(t_start.elapsed().as_secs());
                    if left == 0 {
                        break;
                    }
                    let out = format!("{}/g{}-{}", job.dir, w, part);
                    let seed = case_seed(job.seed, job.arm, "guided", w * 1_000_000 + part);
                    part += 1;
                    let st = std::process::Command::new(exe)
                        .args(["guidedworker", job.arm.prop, job.arm.name, tier])
                        .args([seed, job.limit_s, left].map(|x| x.to_string()))
                        .args([&job.dir, &out])
                        .stdin(std::process::Stdio::null())
                        .status()
                        .expect("start worker");
                    let dump = std::fs::read_to_string(&out).unwrap_or_default();
                    let cur = std::fs::read_to_string(format!("{}.cur", out)).unwrap_or_default();
                    let _ = std::fs::remove_file(&out);
                    let _ = std::fs::remove_file(format!("{}.cur", out));
                    let mut t = total.lock().unwrap();
                    let whole = t.merge(&dump);
                    if st.code() == Some(0) && whole {
                        break;
                    }
                    if st.code() == Some(WORKER_HANG) && whole {
                        // mutation drifts towards expensive cases: no verdict from those
                        continue;
                    }
                    if cur.is_empty() {
                        t.internal = Some(format!("guided worker could not start: {:?}", st));
                        break;
                    }
                    // a signal: is it the case, alone, again?
                    let f = format!("{}/crash{}", job.dir, w);
                    let _ = std::fs::write(&f, &cur);
                    let again = std::process::Command::new(exe)
                        .args(["guidedone", job.arm.prop, job.arm.name, tier, &f])
                        .stdin(std::process::Stdio::null())
                        .stdout(std::process::Stdio::null())
                        .stderr(std::process::Stdio::null())
                        .status()
                        .expect("rerun");
                    use std::os::unix::process::ExitStatusExt;
                    match again.signal() {
                        Some(9) | Some(15) | None => {
                            *t.discarded.entry(format!("worker died: {}", st)).or_insert(0) += 1;
                        }
                        Some(_) => {
                            t.failure = Some(Failure {
                                index: 0,
                                choices: vec![],
                                msg: format!("the process dies: {} (stack overflow or abort)", again),
                                desc: cur.replace('\n', ";"),
                            });
                            let _ = std::fs::write(format!("{}/stop", job.dir), "0");
                            break;
                        }
                    }
                }
            });
        }
    });
    let mut r = total.into_inner().unwrap();
    r.samples.sort();
    r.samples.truncate(5);
    r
}

/// the (tail seed, choices) of a `.cur` file or of a replay's case line
pub fn parse_cur(s: &str) -> (u64, Vec<u64>) {
    let (a, b) = s.split_once(|c| c == '\n' || c == ';').unwrap_or(("0", ""));
    (a.parse().unwrap_or(0), b.split(',').filter_map(|x| x.parse().ok()).collect())
}
