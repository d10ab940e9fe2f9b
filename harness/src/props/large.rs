//! Sizes: counts, lengths, widths and numbers of questions far beyond what the reference automata can hold; the expected
//! answers are known from how the case is built (C01 C02 C03 C04 C17 C21 C28).

use crate::cmp::show;
use crate::refa::BS;
use crate::runner::{clip, guard, Arm, Ctx};
use crate::src::Src;
use derivre::raw::{DerivCache, ExprSet, NextByteCache, RelevanceCache, VecHashCons};
use derivre::{map_ast, ExprRef, NextByte, RegexAst, RegexBuilder};

pub fn register(v: &mut Vec<Arm>) {
    v.push(Arm { prop: "C01", name: "large", quick: 120, thorough: 1800, both: true,
        rule: "patterns of one to three counted repetitions (greedy and lazy, {n} {n,} {n,m}) over disjoint letters with counts up to 150000 and upper bounds up to 2^32-1, around powers of two; texts with counts just below, at and above each bound. Non-trivial: some count above 1000.",
        f: c01_large });
    v.push(Arm { prop: "C02", name: "large", quick: 120, thorough: 1800, both: true,
        rule: "the same shapes as builder trees (Repeat, Concat, Literal, ByteSet). Non-trivial: some count above 1000.",
        f: c02_large });
    v.push(Arm { prop: "C03", name: "long", quick: 5000, thorough: 75000, both: true,
        rule: "X and-not Y where only words of hundreds to thousands of bytes, or the combination of two periods, decide emptiness; families with a known answer; always_empty, deadness after a first byte, and a witness followed byte by byte. Non-trivial: every case.",
        f: c03_long });
    v.push(Arm { prop: "C04", name: "long", quick: 5000, thorough: 75000, both: true,
        rule: "the same families asked as containment of patterns and of trees. Non-trivial: every case.",
        f: c04_long });
    v.push(Arm { prop: "C09", name: "entered", quick: 60000, thorough: 900000, both: true,
        rule: "several roots that contain lookaheads already entered (offset above 0), alone, in unions and behind other expressions, compiled together; every body word followed symbol by symbol in the compiled store: reported and possible lengths count from the offset. Non-trivial: at least two lookaheads with an offset.",
        f: c09_entered });
    v.push(Arm { prop: "C16", name: "long", quick: 10000, thorough: 150000, both: false,
        rule: "vectors of up to 200000 words (lengths around powers of two), inserted whole, in pieces or word by word, again, and with one word changed near an end, a power of two or anywhere. Non-trivial: a vector beyond 1000 words and one inserted twice.",
        f: c16_long });
    v.push(Arm { prop: "C17", name: "large", quick: 800, thorough: 12000, both: false,
        rule: "trees with up to 200000 children per node, inner nodes at the first, last and random places, several levels; calls, child results and one injected failure compared with the recursive fold. Non-trivial: more than 10000 nodes.",
        f: c17_large });
    v.push(Arm { prop: "C21", name: "looks", quick: 150000, thorough: 2250000, both: true,
        rule: "unions of up to 60 lookaheads over up to 20 bodies with several offsets each, in any order, nesting and company: equal to the union of the nearest lookahead per body, in raw and compiled stores. Non-trivial: some body occurs with two offsets.",
        f: c21_looks });
    v.push(Arm { prop: "C28", name: "bulk", quick: 200, thorough: 3000, both: true,
        rule: "thousands of different questions (emptiness, derivative, hint) put to one cache, then asked again in another order: same answers, nothing added, no cost. Non-trivial: at least 1000 questions.",
        f: c28_bulk });
}

// ------------------------------------------------------------------ counts

#[derive(Clone)]
struct Atom {
    /// one symbol out of a set, or a word
    set: Option<BS>,
    word: Vec<u8>,
    lo: u32,
    hi: u32,
}

fn count(s: &mut Src, max: usize) -> usize {
    match s.usize(6) {
        0 => s.range(0, 3).min(max),
        1 => s.range(0, 2000).min(max),
        2 | 3 => {
            let p = 1usize << s.range(7, 17);
            (p + 2 - s.usize(5)).min(max)
        }
        4 => s.range(60_000, 70_000).min(max),
        _ => s.range(1000, 150_000).min(max),
    }
}

fn gen_atoms(s: &mut Src) -> Vec<Atom> {
    let n = s.range(1, 3);
    let letters: [&[u8]; 3] = [b"abcd", b"efgh", b"ijkl"];
    let mut left = 150_000;
    (0..n)
        .map(|i| {
            let l = letters[i];
            let (set, word) = if s.chance(1, 3) {
                let k = s.range(2, 3);
                (None, (0..k).map(|_| *s.pick(l)).collect::<Vec<u8>>())
            } else {
                let k = s.range(1, 4);
                let mut b = BS::EMPTY;
                for j in 0..k {
                    b.set(l[j]);
                }
                (Some(b), vec![])
            };
            let w = word.len().max(1);
            let lo = count(s, left / w);
            left -= lo * w;
            let hi = match s.usize(6) {
                0 => u32::MAX,
                1 => lo as u32,
                2 => u32::MAX - 1 - s.usize(3) as u32,
                3 => (1u32 << s.range(16, 31)).max(lo as u32) + s.usize(3) as u32,
                _ => {
                    let x = count(s, left / w);
                    left -= x * w;
                    (lo + x) as u32
                }
            };
            Atom { set, word, lo: lo as u32, hi }
        })
        .collect()
}

fn member(atoms: &[Atom], mut t: &[u8]) -> bool {
    for a in atoms {
        // the letters of different atoms differ, so each one takes all it can
        let mut n = 0u64;
        match &a.set {
            Some(x) => {
                while !t.is_empty() && x.has(t[0]) {
                    t = &t[1..];
                    n += 1;
                }
            }
            None => {
                while t.starts_with(&a.word) {
                    t = &t[a.word.len()..];
                    n += 1;
                }
            }
        }
        if n < a.lo as u64 || (a.hi != u32::MAX && n > a.hi as u64) {
            return false;
        }
    }
    t.is_empty()
}

fn run_counts(s: &mut Src, b: &RegexBuilder, e: ExprRef, atoms: &[Atom]) -> Result<(), String> {
    let mut rx = guard("to_regex", || b.to_regex(e))?;
    for _ in 0..5 {
        let vary = s.usize(atoms.len());
        let mut t = vec![];
        let mut counts = vec![];
        for (i, a) in atoms.iter().enumerate() {
            let mut n = a.lo as i64;
            let reach = a.hi <= 160_000;
            if i == vary || s.chance(1, 4) {
                n = match s.usize(7) {
                    0 => n - 1,
                    1 => n + 1,
                    2 if reach => a.hi as i64 - 1,
                    3 if reach => a.hi as i64,
                    4 if reach => a.hi as i64 + 1,
                    5 => n + s.usize(5000) as i64,
                    _ => n,
                };
            }
            let n = n.max(0);
            counts.push(n);
            for _ in 0..n {
                match &a.set {
                    Some(x) => t.push(if x.has(b'b') && t.len() % 5 == 0 { b'b' } else { x.first().unwrap() }),
                    None => t.extend_from_slice(&a.word),
                }
            }
        }
        let want = member(atoms, &t);
        let got = guard("is_match_bytes", || rx.is_match_bytes(&t))?;
        if got != want {
            return Err(format!("is_match = {}, expected {}, for a text with the counts {:?}", got, want, counts));
        }
    }
    Ok(())
}

fn atoms_label(atoms: &[Atom], ctx: &mut Ctx) {
    let m = atoms.iter().map(|a| a.lo.max(if a.hi == u32::MAX { 0 } else { a.hi })).max().unwrap();
    ctx.nontrivial = m > 1000;
    ctx.label(if m > 65535 { "beyond 65535" } else if m > 255 { "beyond 255" } else { "small" });
}

fn c01_large(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let atoms = gen_atoms(s);
    let mut p = String::new();
    for a in &atoms {
        match &a.set {
            Some(x) if x.len() == 1 => p.push(x.first().unwrap() as char),
            Some(x) => {
                p.push('[');
                p.extend(x.bytes().iter().map(|b| *b as char));
                p.push(']');
            }
            None => {
                p.push_str(if s.chance(1, 2) { "(?:" } else { "(" });
                p.push_str(std::str::from_utf8(&a.word).unwrap());
                p.push(')');
            }
        }
        if a.hi == u32::MAX {
            p.push_str(&format!("{{{},}}", a.lo));
        } else if a.hi == a.lo && s.chance(1, 2) {
            p.push_str(&format!("{{{}}}", a.lo));
        } else {
            p.push_str(&format!("{{{},{}}}", a.lo, a.hi));
        }
        if s.chance(1, 4) {
            p.push('?');
        }
    }
    ctx.desc = format!("/{}/", p);
    atoms_label(&atoms, ctx);
    let mut b = RegexBuilder::new();
    let e = guard("mk_regex", || b.mk_regex(&p))?.map_err(|e| format!("rejected: {}", e))?;
    run_counts(s, &b, e, &atoms)
}

fn c02_large(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let atoms = gen_atoms(s);
    let v: Vec<RegexAst> = atoms
        .iter()
        .map(|a| {
            let inner = match &a.set {
                Some(x) if x.len() == 1 && s.chance(1, 2) => RegexAst::Byte(x.first().unwrap()),
                Some(x) => RegexAst::ByteSet(x.words()),
                None => RegexAst::ByteLiteral(a.word.clone()),
            };
            RegexAst::Repeat(Box::new(inner), a.lo, a.hi)
        })
        .collect();
    let ast = if v.len() == 1 { v[0].clone() } else { RegexAst::Concat(v) };
    ctx.desc = format!("{:?}", ast);
    atoms_label(&atoms, ctx);
    let mut b = RegexBuilder::new();
    let e = guard("mk", || b.mk(&ast))?.map_err(|e| format!("rejected: {}", e))?;
    run_counts(s, &b, e, &atoms)
}

// ------------------------------------------------------------------ long words decide

struct Pair {
    small: RegexAst,
    big: RegexAst,
    /// the same as patterns, if they can be written so
    pats: Option<(String, String)>,
    /// a word of small that is not in big, if there is one
    witness: Option<Vec<u8>>,
}

fn cls(x: &BS) -> String {
    format!("[{}]", x.bytes().iter().map(|b| *b as char).collect::<String>())
}

fn sub_set(s: &mut Src, letters: &[u8]) -> BS {
    let mut b = BS::EMPTY;
    for _ in 0..s.range(1, 3) {
        b.set(*s.pick(letters));
    }
    b
}

fn rep(x: RegexAst, lo: u32, hi: u32) -> RegexAst {
    RegexAst::Repeat(Box::new(x), lo, hi)
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn gen_pair(s: &mut Src, fam: &mut &'static str) -> Pair {
    let n = match s.usize(4) {
        0 => s.range(2, 40),
        1 => ((1usize << s.range(6, 11)) + 2) - s.usize(5),
        2 => s.range(100, 1200),
        _ => s.range(30, 2500),
    };
    match s.usize(6) {
        // S1{n}T1 in S2{m}T2
        0 => {
            let s1 = sub_set(s, b"abcd");
            let s2 = if s.chance(3, 4) { s1.or(&sub_set(s, b"abcd")) } else { sub_set(s, b"abcd") };
            let t1 = sub_set(s, b"xyz");
            let t2 = if s.chance(1, 2) { t1.or(&sub_set(s, b"xyz")) } else { sub_set(s, b"xyz") };
            let m = if s.chance(5, 6) { n } else { n + 1 - s.usize(3) };
            let mut w: Vec<u8> = vec![s1.first().unwrap(); n];
            let bad = s1.and(&s2.not());
            if let Some(x) = bad.first() {
                w[n / 2] = x;
            }
            let tb = t1.and(&t2.not());
            w.push(tb.first().unwrap_or(t1.first().unwrap()));
            let contained = n == m && bad.len() == 0 && tb.len() == 0;
            *fam = "chain";
            Pair {
                small: RegexAst::Concat(vec![rep(RegexAst::ByteSet(s1.words()), n as u32, n as u32), RegexAst::ByteSet(t1.words())]),
                big: RegexAst::Concat(vec![rep(RegexAst::ByteSet(s2.words()), m as u32, m as u32), RegexAst::ByteSet(t2.words())]),
                pats: Some((format!("{}{{{}}}{}", cls(&s1), n, cls(&t1)), format!("{}{{{}}}{}", cls(&s2), m, cls(&t2)))),
                witness: if contained { None } else { Some(w) },
            }
        }
        // S{lo1,hi1} in S{lo2,hi2}
        1 => {
            let s1 = sub_set(s, b"abcd");
            let lo1 = n;
            let hi1 = n + s.usize(200);
            let lo2 = (lo1 + 1 - s.usize(3)).saturating_sub(if s.chance(1, 2) { s.usize(50) } else { 0 });
            let hi2 = (hi1 + s.usize(3)).saturating_sub(1).max(lo2);
            let inf2 = s.chance(1, 4);
            let w = if lo1 < lo2 {
                Some(lo1)
            } else if !inf2 && hi1 > hi2 {
                Some(hi1)
            } else {
                None
            };
            *fam = "bounds";
            let h2 = if inf2 { u32::MAX } else { hi2 as u32 };
            Pair {
                small: rep(RegexAst::ByteSet(s1.words()), lo1 as u32, hi1 as u32),
                big: rep(RegexAst::ByteSet(s1.words()), lo2 as u32, h2),
                pats: Some((
                    format!("{}{{{},{}}}", cls(&s1), lo1, hi1),
                    if inf2 { format!("{}{{{},}}", cls(&s1), lo2) } else { format!("{}{{{},{}}}", cls(&s1), lo2, hi2) },
                )),
                witness: w.map(|n| vec![s1.first().unwrap(); n]),
            }
        }
        // (x{p}){1,k} in not((x{q})*)
        2 => {
            let x = *s.pick(b"abcd");
            let p = s.range(1, 40);
            let q = s.range(2, 60);
            let need = q / gcd(p, q); // the first multiple of p that q divides
            let k = if s.chance(1, 2) { (need + 1).saturating_sub(s.usize(3)).max(1) } else { s.range(1, need + 5) };
            *fam = "periods";
            let per = |n: usize| rep(RegexAst::Byte(x), n as u32, n as u32);
            Pair {
                small: rep(per(p), 1, k as u32),
                big: RegexAst::Not(Box::new(rep(per(q), 0, u32::MAX))),
                pats: None,
                witness: if need <= k { Some(vec![x; p * need]) } else { None },
            }
        }
        // a word in a word with sets at some places
        3 => {
            let w: Vec<u8> = (0..n).map(|i| b'a' + ((i * 7 + i / 5) % 4) as u8).collect();
            let mut sets: Vec<BS> = w.iter().map(|b| { let mut x = BS::EMPTY; x.set(*b); x }).collect();
            for _ in 0..s.range(0, 3) {
                let i = s.usize(n);
                sets[i] = sets[i].or(&sub_set(s, b"abcd"));
            }
            let mut contained = true;
            if s.chance(1, 2) {
                let i = if s.chance(1, 2) { n - 1 - s.usize(3).min(n - 1) } else { s.usize(n) };
                let y = sub_set(s, b"abcd");
                sets[i] = y;
                contained = y.has(w[i]);
            }
            *fam = "word";
            let text = String::from_utf8(w.clone()).unwrap();
            let big_p: String = sets.iter().map(cls).collect();
            Pair {
                small: RegexAst::Literal(text.clone()),
                big: RegexAst::Concat(sets.iter().map(|x| RegexAst::ByteSet(x.words())).collect()),
                pats: Some((text, big_p)),
                witness: if contained { None } else { Some(w) },
            }
        }
        // two unions of "set tail" that have at most a few tails in common, written as "fan1 in not fan2"
        4 => {
            let m = s.range(2, 40);
            let tail = |i: usize| format!("{}{}", (b'A' + (i / 10) as u8) as char, i % 10);
            let common = s.usize(3).min(m);
            let mut v1: Vec<(BS, String)> = vec![];
            let mut v2: Vec<(BS, String)> = vec![];
            for i in 0..m {
                let wide = |s: &mut Src| {
                    let mut x = sub_set(s, b"abcdefghijklm");
                    if s.chance(3, 4) {
                        x = x.or(&sub_set(s, b"mnop"));
                    }
                    x
                };
                v1.push((wide(s), tail(i)));
                v2.push((wide(s), tail(if i < common { i } else { i + 100 })));
            }
            for v in [&mut v1, &mut v2] {
                for i in (1..m).rev() {
                    let j = s.usize(i + 1);
                    v.swap(i, j);
                }
            }
            let mut wit = None;
            for (f, t) in &v1 {
                for (g, u) in &v2 {
                    if t == u {
                        if let Some(x) = f.and(g).first() {
                            let mut w = vec![x];
                            w.extend_from_slice(t.as_bytes());
                            wit = Some(w);
                        }
                    }
                }
            }
            *fam = "two fans";
            let fan = |v: &[(BS, String)]| {
                RegexAst::Or(v.iter().map(|(f, t)| RegexAst::Concat(vec![RegexAst::ByteSet(f.words()), RegexAst::Literal(t.clone())])).collect())
            };
            Pair { small: fan(&v1), big: RegexAst::Not(Box::new(fan(&v2))), pats: None, witness: wit }
        }
        // many overlapping ways on: the union of "set_i tail_i" against one first byte with some tails
        _ => {
            let m = s.range(2, 60);
            let tails: Vec<String> = (0..m).map(|i| format!("{}{}", (b'A' + (i / 10) as u8) as char, i % 10)).collect();
            let common = *s.pick(b"abcdwz");
            let mut drop = usize::MAX;
            let mut firsts: Vec<BS> = (0..m).map(|i| {
                let mut x = sub_set(s, b"abcdefghijklm");
                x.set(b'a' + (i % 26) as u8);
                x.set(common);
                x
            }).collect();
            if s.chance(1, 2) {
                drop = s.usize(m);
                let mut y = BS::EMPTY;
                y.set(common);
                firsts[drop] = firsts[drop].and(&y.not());
            }
            // words common+tail of some tails
            let mut pick: Vec<usize> = (0..m).filter(|_| s.chance(1, 2)).collect();
            if pick.is_empty() {
                pick.push(0);
            }
            let wit = pick.iter().find(|i| **i == drop).map(|i| {
                let mut w = vec![common];
                w.extend_from_slice(tails[*i].as_bytes());
                w
            });
            *fam = "fan";
            let lit = |t: &str| RegexAst::Literal(t.to_string());
            Pair {
                small: RegexAst::Concat(vec![RegexAst::Byte(common), RegexAst::Or(pick.iter().map(|i| lit(&tails[*i])).collect())]),
                big: RegexAst::Or((0..m).map(|i| RegexAst::Concat(vec![RegexAst::ByteSet(firsts[i].words()), lit(&tails[i])])).collect()),
                pats: if firsts.iter().all(|x| x.len() > 0) {
                    Some((
                        format!("{}({})", common as char, pick.iter().map(|i| tails[*i].clone()).collect::<Vec<_>>().join("|")),
                        (0..m).map(|i| format!("{}{}", cls(&firsts[i]), tails[i])).collect::<Vec<_>>().join("|"),
                    ))
                } else {
                    None
                },
                witness: wit,
            }
        }
    }
}

fn c03_long(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut fam = "";
    let p = gen_pair(s, &mut fam);
    ctx.label(fam);
    ctx.nontrivial = true;
    ctx.desc = clip(&format!("{}: {:?} minus {:?}; witness {:?}", fam, p.small, p.big, p.witness.as_ref().map(|w| w.len())), 400);
    ctx.label(if p.witness.is_some() { "non-empty" } else { "empty" });
    let mut b = RegexBuilder::new();
    let d = p.small.contained_in(&p.big);
    let wrap = s.chance(1, 3);
    // with another branch, or behind a byte, emptiness shows in a later state
    let ast = if wrap {
        RegexAst::Or(vec![RegexAst::Concat(vec![RegexAst::Byte(b'!'), d]), RegexAst::Literal("?#".into())])
    } else {
        d
    };
    let e = guard("mk", || b.mk(&ast))?.map_err(|e| format!("rejected: {}", e))?;
    let mut rx = guard("to_regex", || b.to_regex(e))?;
    let mut st = rx.initial_state();
    if wrap {
        if st.is_dead() {
            return Err("dead although \"?#\" is accepted".into());
        }
        st = guard("transition", || rx.transition(st, b'!'))?;
    } else if guard("always_empty", || rx.always_empty())? != p.witness.is_none() {
        return Err(format!("always_empty = {}", p.witness.is_some()));
    }
    match &p.witness {
        None => {
            if !st.is_dead() {
                return Err("the state is not dead, but nothing can be accepted from it".into());
            }
        }
        Some(w) => {
            for (i, x) in w.iter().enumerate() {
                if st.is_dead() {
                    return Err(format!("dead after {} of the {} bytes of a word that is accepted", i, w.len()));
                }
                st = guard("transition", || rx.transition(st, *x))?;
            }
            if !rx.is_accepting(st) {
                return Err(format!("{} is not accepted", clip(&show(w), 200)));
            }
            if guard("transition", || rx.transition(st, b'!'))?.is_dead() {
                return Ok(());
            }
            return Err("not dead after a byte that occurs nowhere".into());
        }
    }
    Ok(())
}

fn c04_long(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut fam = "";
    let p = gen_pair(s, &mut fam);
    ctx.label(fam);
    ctx.nontrivial = true;
    let contained = p.witness.is_none();
    ctx.label(if contained { "contained" } else { "not contained" });
    ctx.desc = clip(&format!("{}: {:?} in {:?}, contained: {}", fam, p.small, p.big, contained), 400);
    let mut b = RegexBuilder::new();
    if let Some((x, y)) = &p.pats {
        let got = guard("is_contained_in", || b.is_contained_in(x, y, u64::MAX))?.map_err(|e| format!("error: {}", e))?;
        if got != contained {
            return Err(format!("is_contained_in = {}", got));
        }
    }
    let e = if s.chance(1, 2) {
        guard("mk_contained_in_ast", || b.mk_contained_in_ast(&p.small, &p.big))?
    } else {
        guard("mk", || b.mk(&p.small.contained_in(&p.big)))?
    }
    .map_err(|e| format!("error: {}", e))?;
    let mut rx = guard("to_regex", || b.to_regex(e))?;
    if rx.always_empty() != contained {
        return Err(format!("the difference is always empty: {}", !contained));
    }
    if let Some(w) = &p.witness {
        if !rx.is_match_bytes(w) {
            return Err(format!("the difference does not match {}", clip(&show(w), 200)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ trees

struct T {
    id: usize,
    kids: Vec<T>,
}

fn big_tree(s: &mut Src, next: &mut usize, depth: usize, left: &mut usize) -> T {
    let id = *next;
    *next += 1;
    let n = match s.usize(4) {
        0 => s.range(0, 4),
        1 => ((1usize << s.range(6, 17)) + 2 - s.usize(5)).min(*left),
        2 => s.range(0, 70_000).min(*left),
        _ => s.range(0, 300).min(*left),
    };
    let mut kids: Vec<T> = vec![];
    let mut inner: Vec<usize> = vec![];
    if depth < 4 && n > 0 {
        for _ in 0..s.range(0, 2) {
            inner.push(match s.usize(3) {
                0 => 0,
                1 => n - 1,
                _ => s.usize(n),
            });
        }
    }
    *left -= n.min(*left);
    for i in 0..n {
        if inner.contains(&i) {
            kids.push(big_tree(s, next, depth + 1, left));
        } else {
            kids.push(T { id: *next, kids: vec![] });
            *next += 1;
        }
    }
    T { id, kids }
}

fn c17_large(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut next = 0;
    let mut left = 200_000;
    let t = if s.chance(1, 2) {
        big_tree(s, &mut next, 0, &mut left)
    } else {
        // a chain of wide nodes
        let mut t = big_tree(s, &mut next, 3, &mut left);
        for _ in 0..s.range(1, 4) {
            let mut top = big_tree(s, &mut next, 4, &mut left);
            let at = match s.usize(3) {
                0 => 0,
                1 => top.kids.len(),
                _ => s.usize(top.kids.len() + 1),
            };
            top.kids.insert(at, t);
            t = top;
        }
        t
    };
    fn reference(t: &T, out: &mut Vec<(usize, usize, u64)>) -> u64 {
        let mut h = t.id as u64 + 1;
        for k in &t.kids {
            h = h.wrapping_mul(1_000_003).wrapping_add(reference(k, out));
        }
        out.push((t.id, t.kids.len(), h));
        h
    }
    let mut want = vec![];
    let root = reference(&t, &mut want);
    ctx.desc = format!("{} nodes, root has {} children", want.len(), t.kids.len());
    ctx.nontrivial = want.len() > 10_000;
    ctx.label(if want.len() > 65536 { "beyond 65536" } else { "up to 65536" });
    let fail = if s.chance(1, 3) { Some(s.usize(want.len())) } else { None };
    let mut i = 0;
    let mut bad: Option<String> = None;
    let r = guard("map_ast", || {
        map_ast(
            &t,
            |t| &t.kids[..],
            |t, args: Vec<u64>| {
                let h = args.iter().fold(t.id as u64 + 1, |h, x| h.wrapping_mul(1_000_003).wrapping_add(*x));
                if bad.is_none() && want.get(i) != Some(&(t.id, args.len(), h)) {
                    bad = Some(format!("call {}: node {} with {} results, expected {:?}", i, t.id, args.len(), want.get(i)));
                }
                i += 1;
                if fail == Some(i - 1) {
                    Err(anyhow::anyhow!("boom"))
                } else {
                    Ok(h)
                }
            },
        )
    })?;
    if let Some(b) = bad {
        return Err(b);
    }
    match (fail, r) {
        (None, Ok(h)) if h == root && i == want.len() => Ok(()),
        (Some(f), Err(e)) if e.to_string() == "boom" && i == f + 1 => Ok(()),
        (f, r) => Err(format!("failure {:?}: {:?} after {} of {} calls", f, r.map_err(|e| e.to_string()), i, want.len())),
    }
}

// ------------------------------------------------------------------ lookaheads

fn c21_looks(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = *s.pick(&[3usize, 17, 256]);
    let mut es = ExprSet::new(k);
    let nb = s.range(1, 20);
    let mut bodies: Vec<ExprRef> = vec![];
    for i in 0..nb {
        let w: Vec<u8> = (0..s.range(1, 4)).map(|_| s.usize(k.min(5)) as u8).collect();
        let mut x = es.mk_byte_literal(&w);
        if s.chance(1, 3) {
            x = es.mk_repeat(x, 1, 2 + i as u32);
        }
        if !bodies.contains(&x) {
            bodies.push(x);
        }
    }
    if s.chance(1, 4) {
        bodies.push(ExprRef::EMPTY_STRING);
    }
    let mut offs: Vec<(usize, u32)> = vec![];
    for _ in 0..s.range(1, 60) {
        offs.push((s.usize(bodies.len()), if s.chance(1, 6) { s.below(1 << 20) as u32 } else { s.usize(9) as u32 }));
    }
    let mut best: std::collections::BTreeMap<usize, u32> = Default::default();
    for (b, o) in &offs {
        let e = best.entry(*b).or_insert(*o);
        *e = (*e).min(*o);
    }
    let mut distinct = offs.clone();
    distinct.sort();
    distinct.dedup();
    ctx.nontrivial = distinct.len() > best.len();
    let mut plain: Vec<ExprRef> = vec![];
    for _ in 0..s.usize(4) {
        let x = match s.usize(4) {
            0 => es.mk_byte(s.usize(k) as u8),
            1 => *s.pick(&bodies),
            2 => ExprRef::NO_MATCH,
            _ => {
                let a = *s.pick(&bodies);
                let b = *s.pick(&bodies);
                es.mk_concat(vec![a, b])
            }
        };
        plain.push(x);
    }
    let fresh = s.chance(1, 2);
    ctx.desc = format!("k={} {} bodies, lookaheads {:?}, {} plain operands", k, bodies.len(), offs, plain.len());
    // a store that is past its construction phase does not factor unions: that is where canonical forms are promised
    let (mut es, bodies, plain) = if k == 256 && fresh {
        let mut all = bodies.clone();
        all.extend(&plain);
        let (_, t, r) = guard("from_exprset", || derivre::AlphabetInfo::from_exprset(&es, &all))?;
        (t, r[..bodies.len()].to_vec(), r[bodies.len()..].to_vec())
    } else {
        (es, bodies, plain)
    };
    // only without concatenation prefixes in common is the raw store's union canonical: compare lookaheads alone there
    let plain = if k == 256 && fresh { plain } else { vec![] };
    let mut v: Vec<ExprRef> = vec![];
    for (b, o) in &offs {
        v.push(guard("mk_lookahead", || es.mk_lookahead(bodies[*b], *o))?);
    }
    v.extend(&plain);
    let mut w: Vec<ExprRef> = vec![];
    for (b, o) in &best {
        w.push(guard("mk_lookahead", || es.mk_lookahead(bodies[*b], *o))?);
    }
    w.extend(&plain);
    for i in (1..v.len()).rev() {
        let j = s.usize(i + 1);
        v.swap(i, j);
    }
    let cut = s.usize(v.len() + 1);
    let nested = s.chance(1, 3);
    let got = guard("mk_or", || {
        if nested {
            let a = es.mk_or(v[..cut].to_vec());
            let b = es.mk_or(v[cut..].to_vec());
            es.mk_or(vec![a, b])
        } else {
            es.mk_or(v.clone())
        }
    })?;
    let want = guard("mk_or", || es.mk_or(w))?;
    if got != want {
        return Err(format!(
            "the union is {}, with only the nearest lookahead per body it is {}",
            clip(&es.expr_to_string(got), 300),
            clip(&es.expr_to_string(want), 300)
        ));
    }
    Ok(())
}

/// lookaheads that have been entered before the expression is compiled
fn c09_entered(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut es = ExprSet::new(256);
    let lets: Vec<u8> = (0..s.range(1, 4)).map(|_| s.byte()).collect();
    // per root: (plain head, [(body as sets, offset)])
    let mut roots: Vec<(Vec<u8>, Vec<(Vec<BS>, u32)>)> = vec![];
    let mut refs = vec![];
    let mut offs = 0;
    let mut desc = String::new();
    for _ in 0..s.range(1, 4) {
        let head: Vec<u8> = if s.chance(1, 3) { (0..s.range(1, 3)).map(|_| *s.pick(&lets)).collect() } else { vec![] };
        let mut las = vec![];
        let mut ops = vec![];
        for _ in 0..s.range(1, 4) {
            let body: Vec<BS> = (0..s.usize(4))
                .map(|_| {
                    let mut x = BS::single(*s.pick(&lets));
                    if s.chance(1, 3) {
                        x.set(*s.pick(&lets));
                    }
                    if s.chance(1, 8) {
                        x = x.not();
                    }
                    x
                })
                .collect();
            let top = if s.chance(1, 6) { 1 << 20 } else { 9 };
            let o = if s.chance(1, 5) { 0 } else { s.below(top) as u32 };
            if o > 0 {
                offs += 1;
            }
            let parts: Vec<ExprRef> = body.iter().map(|x| es.mk_byte_set(&x.words())).collect();
            let b = guard("mk_concat", || es.mk_concat(parts))?;
            ops.push(guard("mk_lookahead", || es.mk_lookahead(b, o))?);
            desc.push_str(&format!(" {}LA({:?},{})", show(&head), body, o));
            las.push((body, o));
        }
        let u = guard("mk_or", || es.mk_or(ops))?;
        let h = es.mk_byte_literal(&head);
        refs.push(guard("mk_concat", || es.mk_concat(vec![h, u]))?);
        desc.push(';');
        roots.push((head, las));
    }
    ctx.desc = desc;
    ctx.nontrivial = offs >= 2;
    let (alpha, mut t, r) = guard("from_exprset", || derivre::AlphabetInfo::from_exprset(&es, &refs))?;
    if r.len() != refs.len() {
        return Err(format!("{} roots compiled to {}", refs.len(), r.len()));
    }
    let mut dc = DerivCache::new();
    for (i, (head, las)) in roots.iter().enumerate() {
        for _ in 0..3 {
            let (body, _) = s.pick(las).clone();
            let mut w = head.clone();
            for x in &body {
                w.push(*s.pick(&x.bytes()));
            }
            let mut e = r[i];
            for p in 0..=w.len() {
                if p >= head.len() {
                    // lookaheads that are still running or just finished; those with the same rest share the smallest age
                    let j = p - head.len();
                    let run: Vec<&(Vec<BS>, u32)> =
                        las.iter().filter(|(b, _)| b.len() >= j && (0..j).all(|q| b[q].has(w[head.len() + q]))).collect();
                    let done = run.iter().filter(|(b, _)| b.len() == j).map(|(_, o)| *o as usize + j).min();
                    let most = run.iter().map(|(_, o)| *o as usize + j).max();
                    // the age of a body that shares its rest with a younger one is dropped
                    let nearest = run
                        .iter()
                        .map(|(b, _)| run.iter().filter(|(c, _)| c[j..] == b[j..]).map(|(_, o)| *o as usize + j).min().unwrap())
                        .max();
                    let nul = t.is_nullable(e);
                    if nul != done.is_some() {
                        return Err(format!("root {} after {}: nullable {}, expected {}", i, show(&w[..p]), nul, done.is_some()));
                    }
                    if let Some(d) = done {
                        let got = t.lookahead_len(e);
                        if got != Some(d) {
                            return Err(format!("root {} after {}: lookahead {:?}, expected {}", i, show(&w[..p]), got, d));
                        }
                    }
                    let pos = t.possible_lookahead_len(e);
                    if let (Some(m), Some(n)) = (most, nearest) {
                        if pos < n || pos > m {
                            return Err(format!("root {} after {}: possible lookahead {}, expected {}..={}", i, show(&w[..p]), pos, n, m));
                        }
                    }
                }
                if p < w.len() {
                    e = guard("derivative", || dc.derivative(&mut t, e, alpha.map(w[p]) as u8))?;
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ long vectors

fn c16_long(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut h = VecHashCons::new();
    let mut m: Vec<Vec<u32>> = vec![];
    let mut log = String::new();
    let (mut long, mut dup) = (false, false);
    let top = *s.pick(&[2000usize, 20_000, 200_000]);
    for _ in 0..s.range(3, 12) {
        let v: Vec<u32> = if !m.is_empty() && s.chance(1, 2) {
            let mut v = s.pick(&m).clone();
            if s.chance(2, 3) && !v.is_empty() {
                let n = v.len();
                let i = match s.usize(4) {
                    0 => s.usize(3).min(n - 1),
                    1 => n - 1 - s.usize(3).min(n - 1),
                    2 => ((1usize << s.range(4, 17)) + 1 - s.usize(3)).min(n - 1),
                    _ => s.usize(n),
                };
                match s.usize(3) {
                    0 => v[i] ^= 1 << s.usize(32),
                    1 => {
                        v.remove(i);
                    }
                    _ => v.truncate(i),
                }
            }
            v
        } else {
            let n = match s.usize(3) {
                0 => s.range(0, 300),
                1 => ((1usize << s.range(5, 17)) + 2 - s.usize(5)).min(top),
                _ => s.range(0, top),
            };
            let (a, b) = (s.below(1 << 32) as u32, s.below(3) as u32);
            (0..n as u32).map(|i| a.wrapping_add(i.wrapping_mul(b))).collect()
        };
        log.push_str(&format!(" {}", v.len()));
        ctx.desc = format!("vectors of{} words", log);
        let want = match m.iter().position(|x| *x == v) {
            Some(i) => {
                dup |= !v.is_empty();
                i
            }
            None => {
                m.push(v.clone());
                m.len() - 1
            }
        };
        long |= v.len() > 1000;
        let how = s.usize(3);
        let piece = s.range(1, 5000);
        let got = guard("insert", || match how {
            0 => h.insert(&v),
            1 => {
                h.start_insert();
                for c in v.chunks(piece) {
                    h.push_slice(c);
                }
                h.finish_insert()
            }
            _ => {
                h.start_insert();
                for x in &v {
                    h.push_u32(*x);
                }
                h.finish_insert()
            }
        })?;
        if got as usize != want {
            return Err(format!("a vector of {} words got the id {}, expected {}", v.len(), got, want));
        }
        if h.len() != m.len() {
            return Err(format!("len() = {}, expected {}", h.len(), m.len()));
        }
    }
    for (i, v) in m.iter().enumerate() {
        if guard("get", || h.get(i as u32) == &v[..])? == false {
            return Err(format!("vector {} ({} words) reads back differently", i, v.len()));
        }
    }
    ctx.nontrivial = long && dup;
    Ok(())
}

// ------------------------------------------------------------------ many questions

fn c28_bulk(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = *s.pick(&[300usize, 1500, 3000, 5000, 9000]);
    let kind = s.usize(3);
    let k = *s.pick(&[4usize, 33, 256]);
    ctx.desc = format!("{} questions of kind {}, k={}", n, ["emptiness", "derivative", "hint"][kind], k);
    ctx.nontrivial = n >= 1000;
    ctx.label(["emptiness", "derivative", "hint"][kind]);
    let mut es = ExprSet::new(k);
    let mut exprs = vec![];
    let a = es.mk_byte(0);
    let b = es.mk_byte(1);
    for i in 0..n {
        let m = (i / 4 % 90 + 2) as u32;
        let h = (i / 360) as u32;
        let e = guard("building", || match i % 4 {
            0 => {
                // nothing: too long and too short at once
                let x = es.mk_repeat(ExprRef::ANY_BYTE, 2, 2);
                let y = es.mk_repeat(a, m + 1, m + 9 + h);
                let z = es.mk_not(x);
                let w = es.mk_and(vec![x, z, y]);
                es.mk_concat(vec![b, w, y])
            }
            1 => {
                let x = es.mk_repeat(ExprRef::ANY_BYTE, m, m);
                let y = es.mk_literal_of((m + 91 * h) as usize, k);
                let z = es.mk_not(y);
                es.mk_and(vec![x, z])
            }
            2 => {
                let x = es.mk_repeat(a, m, m + 1 + h);
                let y = es.mk_repeat(b, m, m);
                let z = es.mk_concat(vec![y, x]);
                let u = es.mk_repeat(b, 0, u32::MAX);
                es.mk_and(vec![z, u])
            }
            _ => {
                let x = es.mk_repeat(a, m, u32::MAX);
                let y = es.mk_repeat(b, 1, m + 100 * h);
                es.mk_or(vec![x, y])
            }
        })?;
        exprs.push(e);
    }
    exprs.sort();
    exprs.dedup();
    for i in (1..exprs.len()).rev() {
        let j = s.usize(i + 1);
        exprs.swap(i, j);
    }
    let mut dc = DerivCache::new();
    let mut rc = RelevanceCache::new();
    let mut nc = NextByteCache::new();
    #[derive(PartialEq, Debug, Clone, Copy)]
    enum A {
        E(bool),
        D(ExprRef),
        N(NextByte),
    }
    let sym = |i: usize| (i % 2) as u8;
    let mut ask = |es: &mut ExprSet, i: usize| -> Result<(A, (u64, usize, usize)), String> {
        let e = exprs[i];
        let r = match kind {
            0 => A::E(guard("is_non_empty", || rc.is_non_empty(es, e))?),
            1 => A::D(guard("derivative", || dc.derivative(es, e, sym(i)))?),
            _ => A::N(guard("next_byte", || nc.next_byte(es, e))?),
        };
        Ok((r, (es.cost(), es.len(), rc.num_bytes() + dc.num_bytes() + dc.num_deriv + nc.num_bytes())))
    };
    let mut answers = vec![];
    let mut last = (0, 0, 0);
    let mut m = 0;
    for i in 0..exprs.len() {
        let (x, f) = ask(&mut es, i)?;
        answers.push(x);
        last = f;
        m += 1;
        // emptiness of long chains gets expensive: stop before that
        if es.cost() > 20_000_000 {
            break;
        }
    }
    let step = 1 + s.usize(7);
    let mut i = s.usize(m);
    for _ in 0..m {
        let (x, f) = ask(&mut es, i)?;
        if x != answers[i] {
            return Err(format!("question {} of {}: {:?} when asked again, {:?} before", i, m, x, answers[i]));
        }
        if f != last {
            return Err(format!(
                "question {} of {} had been answered, but asking again changed (cost, expressions, cache size) {:?} to {:?}",
                i, m, last, f
            ));
        }
        i = (i + step) % m;
    }
    Ok(())
}

trait Lit {
    fn mk_literal_of(&mut self, n: usize, k: usize) -> ExprRef;
}
impl Lit for ExprSet {
    fn mk_literal_of(&mut self, n: usize, k: usize) -> ExprRef {
        let w: Vec<u8> = (0..n.min(12)).map(|i| ((i * 5 + n) % k.min(7)) as u8).collect();
        self.mk_byte_literal(&w)
    }
}
