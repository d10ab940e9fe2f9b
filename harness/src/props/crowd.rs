//! Crowds: stores and compiled regexes with far more than 65536 expressions, whose caches are
//! asked about many of them; every answer is known from how the expression was made.


use crate::runner::{guard, Arm, Ctx};
use crate::src::{splitmix, Src};
use derivre::raw::{DerivCache, ExprSet, NextByteCache, RelevanceCache};
use derivre::{ExprRef, NextByte, RegexAst, RegexBuilder};

pub fn register(v: &mut Vec<Arm>) {
    v.push(Arm { prop: "C03", name: "crowd", quick: 40, thorough: 600, both: true,
        rule: "thousands of long random keywords minus thousands of others (And/Not over two keyword unions), walked along every keyword and into siblings, so that one regex holds far more than 65536 expressions; dead and accepting against the sorted word lists. Non-trivial: more than 8000 different states were reached (stores of about 100000 expressions).",
        f: |s, ctx| crowd_regex(s, ctx, false) });
    v.push(Arm { prop: "C08", name: "crowd", quick: 40, thorough: 600, both: true,
        rule: "the same regexes, every state's hint against the sorted word lists. Non-trivial: more than 8000 different states were reached (stores of about 100000 expressions).",
        f: |s, ctx| crowd_regex(s, ctx, true) });
    v.push(Arm { prop: "C19", name: "crowd", quick: 40, thorough: 600, both: true,
        rule: "one store filled with more than 65536 expressions of known nullability, emptiness, first bytes and derivatives; one cache of each kind answers for each of them when new and again later. Non-trivial: every case.",
        f: crowd_raw });
}

fn below(x: &mut u64, n: u64) -> u64 {
    ((splitmix(x) as u128 * n as u128) >> 64) as u64
}

fn crowd_regex(s: &mut Src, ctx: &mut Ctx, hints: bool) -> Result<(), String> {
    let n = s.range(7000, 16000);
    let sigma = s.range(20, 26) as u64;
    let overlap = s.range(20, 80) as u64;
    let seed = s.u64();
    let mut x = seed;
    ctx.desc = format!("{} words, {} letters, {}% taken out again, seed {}", n, sigma, overlap, seed);
    let letter = |x: &mut u64| b'a' + below(x, sigma) as u8;
    let mut keep: Vec<Vec<u8>> = vec![];
    let mut out: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let l = 7 + below(&mut x, 4) as usize;
        let w: Vec<u8> = (0..l).map(|_| letter(&mut x)).collect();
        if below(&mut x, 100) < overlap {
            out.push(w.clone());
        } else {
            // a close relative that is not taken out, or one word more
            let mut v = w.clone();
            let i = l - 1 - below(&mut x, 3) as usize;
            v[i] = letter(&mut x);
            if below(&mut x, 2) == 0 {
                out.push(v);
            } else {
                v.truncate(i);
                keep.push(v);
            }
        }
        keep.push(w);
    }
    let any = below(&mut x, 3) == 0;
    let or = |v: &Vec<Vec<u8>>| RegexAst::Or(v.iter().map(|w| RegexAst::ByteLiteral(w.clone())).collect());
    let mut b = RegexBuilder::new();
    let mut parts = vec![or(&keep), RegexAst::Not(Box::new(or(&out)))];
    if any {
        parts.reverse();
    }
    let e = guard("building", || b.mk(&RegexAst::And(parts)))?.map_err(|e| format!("rejected: {}", e))?;
    let mut rx = guard("to_regex", || b.to_regex(e))?;
    out.sort();
    keep.sort();
    keep.dedup();
    let left: Vec<&Vec<u8>> = keep.iter().filter(|w| out.binary_search(w).is_err()).collect();
    // range of left words that start with w
    let rng = |w: &[u8]| -> (usize, usize) {
        let lo = left.partition_point(|p| p.as_slice() < w);
        let hi = lo + left[lo..].partition_point(|p| p.starts_with(w));
        (lo, hi)
    };
    let mut states = std::collections::HashSet::new();
    for (k, w) in keep.iter().chain(out.iter()).enumerate() {
        let mut st = rx.initial_state();
        for i in 0..w.len() {
            let sib = if below(&mut x, 8) == 0 { Some(letter(&mut x)) } else { None };
            for (b, go) in sib.iter().map(|c| (*c, false)).chain([(w[i], true)]) {
                let mut p = w[..i].to_vec();
                p.push(b);
                let nx = guard("transition", || rx.transition(st, b))?;
                let (lo, hi) = rng(&p);
                let live = hi > lo;
                let acc = live && *left[lo] == p;
                states.insert(nx);
                if nx.is_dead() == live {
                    return Err(format!("word {}: after {:?} dead={}, but {} words are left", k, String::from_utf8_lossy(&p), nx.is_dead(), hi - lo));
                }
                let got = guard("is_accepting", || rx.is_accepting(nx))?;
                if got != acc {
                    return Err(format!("word {}: {:?} accepting={}, expected {}", k, String::from_utf8_lossy(&p), got, acc));
                }
                if hints {
                    let h = guard("next_byte", || rx.next_byte(nx))?;
                    let ok = match h {
                        NextByte::Dead => !live,
                        _ if !live => false,
                        NextByte::ForcedByte(f) => !acc && left[lo..hi].iter().all(|v| v[p.len()] == f),
                        NextByte::ForcedEOI => acc && hi - lo == 1,
                        _ => true,
                    };
                    if !ok {
                        return Err(format!("word {}: hint {:?} after {:?} with {} words left, accepting={}", k, h, String::from_utf8_lossy(&p), hi - lo, acc));
                    }
                    match h {
                        NextByte::ForcedByte(_) => ctx.add("forced byte", 1),
                        NextByte::ForcedEOI => ctx.add("forced end", 1),
                        _ => {}
                    }
                }
                if go {
                    st = nx;
                }
            }
            if st.is_dead() {
                break;
            }
        }
    }
    if ctx.trace { eprintln!("{} {}", states.len(), rx.stats()); }
    ctx.nontrivial = states.len() > 8_000;
    Ok(())
}

struct Item {
    e: ExprRef,
    nullable: bool,
    empty: bool,
    /// the only byte that can come first
    first: Option<u8>,
    /// what is left after it: nullable, empty
    rest: (bool, bool),
}

fn crowd_raw(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    ctx.nontrivial = true;
    let target = s.range(70_000, 180_000);
    let seed = s.u64();
    let mut x = seed;
    let mode = s.usize(3);
    ctx.desc = format!("store of {} expressions, mode {}, seed {}", target, mode, seed);
    let mut es = ExprSet::new(256);
    let (mut dc, mut nb, mut rc) = (DerivCache::new(), NextByteCache::new(), RelevanceCache::new());
    let mut items: Vec<Item> = vec![];
    while es.len() < target {
        let w = splitmix(&mut x).to_le_bytes();
        let (w, v) = (&w[..4], &w[4..]);
        let r = below(&mut x, 16);
        let it = match r {
            0..=2 => {
                let e = es.mk_byte_literal(w);
                Item { e, nullable: false, empty: false, first: Some(w[0]), rest: (false, false) }
            }
            3..=6 => {
                // words that start with w and with v
                let same = r & 1 == 0;
                let mut v = v.to_vec();
                if same {
                    v[..2].copy_from_slice(&w[..2]);
                }
                let a = es.mk_byte_literal(&w[..2]);
                let a = es.mk_concat(vec![a, ExprRef::ANY_BYTE_STRING]);
                let b = es.mk_byte_literal(&v[..if same { 3 } else { 2 }]);
                let b = es.mk_concat(vec![b, ExprRef::ANY_BYTE_STRING]);
                let e = es.mk_and(vec![a, b]);
                let empty = !same && w[..2] != v[..2];
                let f = w[0] == v[0];
                Item { e, nullable: false, empty, first: if f { Some(w[0]) } else { None }, rest: (false, empty) }
            }
            7..=10 => {
                // {w, v} without w
                let same = r & 1 == 0;
                let a = es.mk_byte_literal(&w[..3]);
                let mut y = vec![w[0], w[1], v[2], v[3]];
                if same {
                    y = w[..3].to_vec();
                }
                let l = es.mk_byte_literal(&y);
                let o = es.mk_or(vec![a, l]);
                let n = es.mk_not(a);
                let e = es.mk_and(vec![o, n]);
                Item { e, nullable: false, empty: same, first: if same { None } else { Some(w[0]) }, rest: (false, same) }
            }
            11..=13 => {
                let a = es.mk_byte_literal(&w[..if r == 11 { 1 } else { 3 }]);
                let lo = below(&mut x, 3) as u32;
                let e = es.mk_repeat(a, lo, 3 + v[0] as u32);
                Item { e, nullable: lo == 0, empty: false, first: Some(w[0]), rest: (r == 11 && lo < 2, false) }
            }
            _ => {
                // everything but the words that start with w, after one byte w[0]
                let a = es.mk_byte_literal(&w[..3]);
                let a = es.mk_concat(vec![a, ExprRef::ANY_BYTE_STRING]);
                let n = es.mk_not(a);
                let b = es.mk_byte(w[3]);
                let e = es.mk_concat(vec![b, n]);
                Item { e, nullable: false, empty: false, first: Some(w[3]), rest: (true, false) }
            }
        };
        items.push(it);
        let k = items.len() - 1;
        let other = below(&mut x, items.len() as u64) as usize;
        for k in [k, other] {
            let it = &items[k];
            let fail = |what: &str, es: &ExprSet| Err(format!("expression {} of {} ({}): {}", k, items.len(), es.expr_to_string(it.e), what));
            if es.is_nullable(it.e) != it.nullable {
                return fail("nullable", &es);
            }
            if es.is_positive(it.e) && it.empty {
                return fail("positive although empty", &es);
            }
            // the order of the questions varies
            for q in 0..3 {
                match (q + mode) % 3 {
                    0 => {
                        let h = guard("next_byte", || nb.next_byte(&es, it.e))?;
                        let ok = match h {
                            NextByte::Dead => it.empty,
                            NextByte::ForcedByte(b) => it.empty || (!it.nullable && it.first == Some(b)),
                            NextByte::ForcedEOI => it.empty,
                            _ => true,
                        };
                        if !ok {
                            return fail(&format!("hint {:?}", h), &es);
                        }
                    }
                    1 => {
                        let ne = guard("is_non_empty", || rc.is_non_empty(&mut es, it.e))?;
                        if ne == it.empty {
                            return fail(&format!("is_non_empty={}", ne), &es);
                        }
                    }
                    _ => {
                        if let Some(f) = it.first {
                            let d = guard("derivative", || dc.derivative(&mut es, it.e, f))?;
                            if es.is_nullable(d) != it.rest.0 {
                                return fail(&format!("nullable derivative {}", es.expr_to_string(d)), &es);
                            }
                            let ne = guard("is_non_empty", || rc.is_non_empty(&mut es, d))?;
                            if ne == it.rest.1 {
                                return fail(&format!("derivative {} non-empty={}", es.expr_to_string(d), ne), &es);
                            }
                        }
                        let c = below(&mut x, 256) as u8;
                        if it.first != Some(c) {
                            let d = guard("derivative", || dc.derivative(&mut es, it.e, c))?;
                            if guard("is_non_empty", || rc.is_non_empty(&mut es, d))? {
                                return fail(&format!("derivative by {} is {}", c, es.expr_to_string(d)), &es);
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
