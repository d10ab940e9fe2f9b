//! Runs an arm's cases in worker processes, so that a case that hangs, exhausts memory or kills
//! its process costs only itself; and shrinks failures in processes of their own.

use crate::runner::*;
use crate::src::Src;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Default)]
pub struct ArmResult {
    pub evaluations: u64,
    pub discarded: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub nontrivial: u64,
    pub samples: Vec<(u64, String)>,
    pub failure: Option<Failure>,
    pub internal: Option<String>,
    pub slowest: (f64, u64, String),
    /// cases given up for time or memory
    pub hangs: Vec<u64>,
    /// cases that killed their worker process
    pub crashes: Vec<(u64, String)>,
    /// guided search: kept sequences, edges, features (of the worker that saw most)
    pub guided: (u64, u64, u64),
}

pub fn case_count(arm: &Arm, config: &str, thorough: bool, scale: f64) -> u64 {
    let n = if thorough { arm.thorough } else { arm.quick };
    (n as f64 * scale * if config == "plain" { 0.5 } else { 1.0 }).ceil() as u64
}

/// the case being run by this process: index + 1 (0 = none), and when it started
static CUR: AtomicU64 = AtomicU64::new(0);
static CUR_START_MS: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64
}

pub fn case_begins(i: u64) {
    CUR_START_MS.store(now_ms(), Ordering::SeqCst);
    CUR.store(i + 1, Ordering::SeqCst);
}

pub fn case_ends() {
    CUR.store(0, Ordering::SeqCst);
}

pub fn case_is(i: u64) -> bool {
    CUR.load(Ordering::SeqCst) == i + 1
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
        >> 20
}

pub const WORKER_HANG: i32 = 6;
const MAX_RSS_MB: u64 = 3000;

/// calls `give_up` when the current case exceeds its time or memory limit
pub fn start_case_watchdog(limit_s: u64, give_up: impl Fn(u64, &str) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let c = CUR.load(Ordering::SeqCst);
        if c == 0 {
            continue;
        }
        let t = now_ms().saturating_sub(CUR_START_MS.load(Ordering::SeqCst));
        let why = if t >= limit_s * 1000 {
            "time"
        } else if rss_mb() > MAX_RSS_MB {
            "memory"
        } else {
            continue;
        };
        if CUR.load(Ordering::SeqCst) == c {
            give_up(c - 1, why);
        }
    });
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn dump_failure(f: &Failure) -> String {
    let c: Vec<String> = f.choices.iter().map(|x| x.to_string()).collect();
    format!("F\t{}\t{}\t{}\t{}\n", f.index, c.join(","), esc(&f.msg), esc(&f.desc))
}

impl ArmResult {
    pub fn dump(&self) -> String {
        let mut o = String::new();
        o.push_str(&format!("E\t{}\nN\t{}\n", self.evaluations, self.nontrivial));
        for (k, v) in &self.discarded {
            o.push_str(&format!("D\t{}\t{}\n", esc(k), v));
        }
        for (k, v) in &self.labels {
            o.push_str(&format!("L\t{}\t{}\n", esc(k), v));
        }
        for (i, d) in &self.samples {
            o.push_str(&format!("S\t{}\t{}\n", i, esc(d)));
        }
        o.push_str(&format!("W\t{}\t{}\t{}\n", self.slowest.0, self.slowest.1, esc(&self.slowest.2)));
        if let Some(f) = &self.failure {
            o.push_str(&dump_failure(f));
        }
        if let Some(m) = &self.internal {
            o.push_str(&format!("I\t{}\n", esc(m)));
        }
        for h in &self.hangs {
            o.push_str(&format!("G\t{}\n", h));
        }
        for h in &self.distinct {
            o.push_str(&format!("H\t{:x}\n", h));
        }
        o.push_str(&format!("C\t{}\t{}\t{}\n", self.guided.0, self.guided.1, self.guided.2));
        o.push_str("END\n");
        o
    }
    /// merges a worker's dump; false if it is incomplete
    pub fn merge(&mut self, s: &str) -> bool {
        let mut end = false;
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match f[0] {
                "E" => self.evaluations += num(1),
                "N" => self.nontrivial += num(1),
                "D" => *self.discarded.entry(unesc(f[1])).or_insert(0) += num(2),
                "L" => *self.labels.entry(unesc(f[1])).or_insert(0) += num(2),
                "S" => self.samples.push((num(1), unesc(f[2]))),
                "W" => {
                    let x: f64 = f[1].parse().unwrap_or(0.0);
                    if x > self.slowest.0 {
                        self.slowest = (x, num(2), unesc(f[3]));
                    }
                }
                "F" => {
                    if self.failure.as_ref().map(|g| g.index > num(1)).unwrap_or(true) {
                        self.failure = Some(Failure {
                            index: num(1),
                            choices: f[2].split(',').filter_map(|x| x.parse().ok()).collect(),
                            msg: unesc(f[3]),
                            desc: unesc(f[4]),
                        });
                    }
                }
                "I" => self.internal = Some(unesc(f[1])),
                "C" => self.guided = self.guided.max((num(1), num(2), num(3))),
                "G" => self.hangs.push(num(1)),
                "H" => {
                    if let Ok(x) = u64::from_str_radix(f[1], 16) {
                        self.distinct.insert(x);
                    }
                }
                "END" => end = true,
                _ => {}
            }
        }
        end
    }
}

pub struct Job<'a> {
    pub arm: &'a Arm,
    pub config: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub limit_s: u64,
    /// scratch directory
    pub dir: String,
    /// stop starting new cases this many seconds after the arm began (0 = never)
    pub time_s: u64,
}

/// One worker process: cases from, from+step, ... below n. Never returns.
pub fn worker(job: &Job, from: u64, step: u64, n: u64, out: &str) -> ! {
    static RES: Mutex<Option<ArmResult>> = Mutex::new(None);
    *RES.lock().unwrap() = Some(ArmResult::default());
    {
        let out = out.to_string();
        start_case_watchdog(job.limit_s, move |i, why| {
            let mut g = RES.lock().unwrap();
            if CUR.load(Ordering::SeqCst) != i + 1 {
                return;
            }
            let r = g.as_mut().unwrap();
            r.evaluations += 1;
            *r.discarded.entry(format!("no answer within the {} limit", why)).or_insert(0) += 1;
            r.hangs.push(i);
            let _ = std::fs::write(&out, r.dump());
            std::process::exit(WORKER_HANG);
        });
    }
    let arm_f = job.arm.f;
    let progress = std::fs::File::create(format!("{}.cur", out)).expect("progress file");
    let stop = format!("{}/stop", job.dir);
    let t_start = std::time::Instant::now();
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                use std::os::unix::fs::FileExt;
                let mut stop_at = u64::MAX;
                let mut i = from;
                let mut done = 0u64;
                while i < n {
                    if done % 32 == 0 {
                        if let Ok(s) = std::fs::read_to_string(&stop) {
                            stop_at = s.trim().parse().unwrap_or(0);
                        }
                    }
                    if i > stop_at || (job.time_s > 0 && t_start.elapsed().as_secs() >= job.time_s) {
                        break;
                    }
                    done += 1;
                    let _ = progress.write_at(&(i + 1).to_le_bytes(), 0);
                    let mut src = Src::random(case_seed(job.seed, job.arm, job.config, i));
                    let mut ctx = Ctx {
                        thorough: job.thorough,
                        ..Ctx::default()
                    };
                    let t0 = std::time::Instant::now();
                    case_begins(i);
                    let r = run_case(arm_f, &mut src, &mut ctx);
                    let mut g = RES.lock().unwrap();
                    case_ends();
                    let loc = g.as_mut().unwrap();
                    let dt = t0.elapsed().as_secs_f64();
                    if dt > loc.slowest.0 {
                        loc.slowest = (dt, i, ctx.desc.clone());
                    }
                    loc.evaluations += 1;
                    if let Some(d) = ctx.discard {
                        *loc.discarded.entry(d.to_string()).or_insert(0) += 1;
                    }
                    for (k, v) in &ctx.labels {
                        if let Some(x) = loc.labels.get_mut(*k) {
                            *x += v;
                        } else {
                            loc.labels.insert(k.to_string(), *v);
                        }
                    }
                    if ctx.nontrivial && ctx.discard.is_none() {
                        loc.nontrivial += 1;
                        loc.distinct.insert(hash_str(&ctx.desc));
                        if loc.samples.len() < 4 {
                            loc.samples.push((i, ctx.desc.clone()));
                        }
                    }
                    match r {
                        Outcome::Ok => {}
                        Outcome::Fail(msg) => {
                            loc.failure = Some(Failure {
                                index: i,
                                choices: src.out.clone(),
                                msg,
                                desc: ctx.desc.clone(),
                            });
                        }
                        Outcome::Internal(m) => {
                            loc.internal = Some(format!("case {}: {} [{}]", i, m, ctx.desc));
                        }
                    }
                    if loc.failure.is_some() || loc.internal.is_some() {
                        // others stop at this index; a benign race only lets them run on a little
                        let _ = std::fs::write(&stop, i.to_string());
                        break;
                    }
                    i += step;
                }
            })
            .unwrap();
    });
    let g = RES.lock().unwrap();
    std::fs::write(out, g.as_ref().unwrap().dump()).expect("worker result");
    std::process::exit(0);
}

/// More cases without answer than this per arm and configuration end the arm early.
const MAX_HANGS: usize = 12;

pub fn run_arm(job: &Job, scale: f64) -> ArmResult {
    let n = case_count(job.arm, job.config, job.thorough, scale);
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8) as u64;
    let exe = std::env::current_exe().expect("own path");
    let total = Mutex::new(ArmResult::default());
    let stop = format!("{}/stop", job.dir);
    let _ = std::fs::remove_file(&stop);
    let t_start = std::time::Instant::now();
    std::thread::scope(|sc| {
        for w in 0..workers.min(n.max(1)) {
            let (total, exe, stop) = (&total, &exe, &stop);
            sc.spawn(move || {
                let mut from = w;
                let mut part = 0;
                while from < n {
                    let left = if job.time_s == 0 {
                        0
                    } else {
                        let l = job.time_s.saturating_sub(t_start.elapsed().as_secs());
                        if l == 0 {
                            break;
                        }
                        l
                    };
                    let out = format!("{}/w{}-{}", job.dir, w, part);
                    part += 1;
                    let st = std::process::Command::new(exe)
                        .arg("worker")
                        .args([job.arm.prop, job.arm.name, if job.thorough { "thorough" } else { "quick" }])
                        .args([job.seed, from, workers, n, job.limit_s, left].map(|x| x.to_string()))
                        .args([&job.dir, &out])
                        .stdin(std::process::Stdio::null())
                        .status()
                        .expect("start worker");
                    let dump = std::fs::read_to_string(&out).unwrap_or_default();
                    let cur = std::fs::read(format!("{}.cur", out))
                        .ok()
                        .and_then(|v| v.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())))
                        .unwrap_or(0);
                    let _ = std::fs::remove_file(&out);
                    let _ = std::fs::remove_file(format!("{}.cur", out));
                    let mut t = total.lock().unwrap();
                    let whole = t.merge(&dump);
                    if st.code() == Some(0) && whole {
                        break;
                    }
                    if st.code() == Some(WORKER_HANG) && whole {
                        let last = *t.hangs.last().unwrap();
                        if t.hangs.len() >= MAX_HANGS {
                            let _ = std::fs::write(stop, "0");
                            break;
                        }
                        from = last + workers;
                        continue;
                    }
                    if cur == 0 {
                        t.internal = Some(format!("worker could not start: {:?}", st));
                        break;
                    }
                    t.evaluations += (cur - 1).saturating_sub(from) / workers + 1;
                    t.crashes.push((cur - 1, format!("{}", st)));
                    if t.crashes.len() >= 3 {
                        let _ = std::fs::write(stop, "0");
                        break;
                    }
                    from = cur - 1 + workers;
                }
            });
        }
    });
    let mut r = total.into_inner().unwrap();
    r.samples.sort();
    r.samples.truncate(5);
    r.hangs.sort();
    r.crashes.sort();
    let seeds = |i: u64| Failure {
        index: i,
        choices: vec![],
        msg: String::new(),
        desc: String::new(),
    };
    if r.failure.is_none() && r.internal.is_none() {
        // a case that kills the process is a failure if it does so again, alone
        for (i, st) in r.crashes.clone() {
            let again = std::process::Command::new(&exe)
                .args(["onecase", job.arm.prop, job.arm.name, if job.thorough { "thorough" } else { "quick" }])
                .args([job.seed, i].map(|x| x.to_string()))
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .expect("rerun");
            use std::os::unix::process::ExitStatusExt;
            match again.signal() {
                // killed from outside (memory) is no verdict
                Some(9) | Some(15) | None => {
                    *r.discarded.entry(format!("worker died: {}", st)).or_insert(0) += 1;
                }
                Some(_) => {
                    r.failure = Some(Failure {
                        msg: format!("the process dies: {} (stack overflow or abort)", again),
                        ..seeds(i)
                    });
                    break;
                }
            }
        }
        // almost every case ends in milliseconds; a rare exponential one is set aside, but when
        // a noticeable share never answers, that is a failure
        if r.failure.is_none() && r.hangs.len() >= 3 && r.hangs.len() as u64 * 500 > r.evaluations {
            r.failure = Some(Failure {
                msg: format!(
                    "no answer: {} of {} cases exceeded the time or memory limit ({} s each)",
                    r.hangs.len(),
                    r.evaluations,
                    job.limit_s
                ),
                ..seeds(r.hangs[0])
            });
        }
    }
    r
}

/// Shrinks in a child process, which writes every improvement to a file.
pub fn shrink_in_child(job: &Job, f: &mut Failure) {
    if f.choices.is_empty() {
        return;
    }
    let (a, b) = (format!("{}/shrink-in", job.dir), format!("{}/shrink-out", job.dir));
    let _ = std::fs::remove_file(&b);
    if std::fs::write(&a, dump_failure(f)).is_err() {
        return;
    }
    let exe = std::env::current_exe().expect("own path");
    let _ = std::process::Command::new(exe)
        .args(["shrink", job.arm.prop, job.arm.name, if job.thorough { "thorough" } else { "quick" }, &a, &b])
        .stdin(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    let mut r = ArmResult::default();
    if let Ok(s) = std::fs::read_to_string(&b) {
        r.merge(&s);
        if let Some(g) = r.failure {
            *f = g;
        }
    }
}

pub fn shrink_child(arm: &Arm, thorough: bool, a: &str, b: &str) {
    let mut r = ArmResult::default();
    r.merge(&std::fs::read_to_string(a).expect("shrink input"));
    let mut f = r.failure.expect("shrink input");
    start_case_watchdog(15, |_, _| std::process::exit(WORKER_HANG));
    let tmp = format!("{}.tmp", b);
    shrink(arm, thorough, &mut f, &|g: &Failure| {
        if std::fs::write(&tmp, dump_failure(g)).is_ok() {
            let _ = std::fs::rename(&tmp, b);
        }
    });
}
