//! Case runner: seeds, threads, panic capture, shrinking, replay, evidence counters.

use crate::src::{splitmix, Src};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;

pub struct Arm {
    pub prop: &'static str,
    pub name: &'static str,
    /// cases per configuration
    pub quick: u64,
    pub thorough: u64,
    /// run in the uncompressed configuration as well
    pub both: bool,
    pub rule: &'static str,
    pub f: CaseFn,
}

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub desc: String,
    pub nontrivial: bool,
    pub discard: Option<&'static str>,
    pub thorough: bool,
    /// print the description as soon as it is known (single-case runs)
    pub trace: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if self.trace {
            eprintln!("[{}] {}", l, self.desc);
        }
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn add(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
    pub fn discard(&mut self, l: &'static str) -> Result<(), String> {
        self.discard = Some(l);
        Ok(())
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// last panic of any thread (used by single-threaded child processes)
pub static LAST_PANIC_ANY: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC_ANY.lock() {
            *g = (msg.clone(), loc.clone());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub enum Outcome {
    Ok,
    Fail(String),
    /// the harness itself panicked: never a verdict
    Internal(String),
}

/// Run f, turning a panic of the code under test into Err.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let (m, l) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if is_harness_loc(&l) {
                // let it surface as an internal error
                std::panic::resume_unwind(Box::new(format!("{} at {}", m, l)));
            }
            Err(format!("panic in {}: {} at {}", what, m, l))
        }
    }
}

fn is_harness_loc(l: &str) -> bool {
    // harness sources are compiled with relative paths, the code under test with absolute ones
    l.starts_with("src/")
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    crate::gen::BOOST.with(|b| b.set(ctx.thorough));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(src, ctx)));
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(p) => {
            let (m, l) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| {
                    let s = p
                        .downcast_ref::<String>()
                        .cloned()
                        .unwrap_or_else(|| "?".into());
                    (s, "src/".into())
                });
            if is_harness_loc(&l) {
                Outcome::Internal(format!("harness panic: {} at {}", m, l))
            } else {
                Outcome::Fail(format!("panic: {} at {}", m, l))
            }
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    // FNV-1a: stable across runs
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn case_seed(seed: u64, arm: &Arm, config: &str, i: u64) -> u64 {
    let mut x = seed ^ hash_str(&format!("{}/{}/{}", arm.prop, arm.name, config));
    splitmix(&mut x);
    x ^= i.wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut x);
    x
}

#[derive(Clone)]
pub struct Failure {
    pub index: u64,
    pub choices: Vec<u64>,
    pub msg: String,
    pub desc: String,
}

fn try_choices(arm: &Arm, thorough: bool, v: &[u64]) -> Option<(Vec<u64>, String, String)> {
    let mut src = Src::replay(v.to_vec());
    let mut ctx = Ctx {
        thorough,
        ..Ctx::default()
    };
    match run_case(arm.f, &mut src, &mut ctx) {
        Outcome::Fail(m) => Some((src.out, m, ctx.desc)),
        _ => None,
    }
}

/// Choice-sequence shrinking: block deletion, zeroing, value minimisation.
pub fn shrink(arm: &Arm, thorough: bool, f: &mut Failure, improved: &dyn Fn(&Failure)) {
    let t0 = std::time::Instant::now();
    let mut execs = 0;
    let mut best = f.choices.clone();
    let better = |a: &Vec<u64>, b: &Vec<u64>| -> bool {
        // trailing zeros are free
        let la = a.iter().rposition(|x| *x != 0).map(|x| x + 1).unwrap_or(0);
        let lb = b.iter().rposition(|x| *x != 0).map(|x| x + 1).unwrap_or(0);
        (a.len(), la) < (b.len(), lb) || (a.len() == b.len() && a < b)
    };
    let spent = |execs: i32| execs > 3000 || t0.elapsed().as_secs() > 60;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, execs: &mut i32| -> bool {
        *execs += 1;
        crate::exec::case_begins(*execs as u64);
        let r = try_choices(arm, thorough, &cand);
        crate::exec::case_ends();
        if let Some((out, m, d)) = r {
            if better(&out, best) {
                *best = out;
                f.msg = m;
                f.desc = d;
                f.choices = best.clone();
                improved(f);
                return true;
            }
        }
        false
    };
    loop {
        let mut progress = false;
        for bs in [64usize, 32, 16, 8, 4, 2, 1] {
            let mut i = best.len();
            while i > 0 && !spent(execs) {
                i = i.saturating_sub(bs);
                if i >= best.len() {
                    continue;
                }
                let e = (i + bs).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if attempt(c, &mut best, &mut execs) {
                    progress = true;
                }
            }
        }
        for bs in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && !spent(execs) {
                let e = (i + bs).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    if attempt(c, &mut best, &mut execs) {
                        progress = true;
                    }
                }
                i += bs;
            }
        }
        let mut i = 0;
        while i < best.len() && !spent(execs) {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut c = best.clone();
                    c[i] = nv;
                    if attempt(c, &mut best, &mut execs) {
                        progress = true;
                    }
                }
            }
            i += 1;
        }
        if !progress || spent(execs) {
            break;
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}...", t)
    }
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
