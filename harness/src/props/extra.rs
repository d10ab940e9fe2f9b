//! C24 printing, C25 determinism, C26 store traversal, C27 bound on the lookahead, C28 caching

use crate::cmp::show;
use crate::gen::*;
use crate::props::builder::{gen_opts, ESCAPES};
use crate::props::engine::{cfg_len, cfg_start, cfg_step, mk_looks};
use crate::props::raw::{gen_k, raw_cfg};
use crate::refa::BS;
use crate::runner::{clip, guard, Arm, Ctx};
use crate::src::Src;
use crate::wild::{self, Flags};
use derivre::raw::{DerivCache, ExprSet, NextByteCache, RelevanceCache};
use derivre::{AlphabetInfo, ExprRef, JsonQuoteOptions, Regex, RegexAst, RegexBuilder, StateID};
use std::collections::{HashMap, HashSet};

pub fn register(v: &mut Vec<Arm>) {
    v.push(Arm { prop: "C24", name: "exprs", quick: 50000, thorough: 750000, both: true,
        rule: "expressions in raw stores of every alphabet size, in builders and in compiled stores (random trees, doubling chains whose full text would be exponential, deep chains, wide unions) printed with length limits 0..100000 and with the legend. Non-trivial: the text was cut at some limit and complete at another, or the alphabet is not a multiple of 32.",
        f: c24_exprs });
    v.push(Arm { prop: "C24", name: "asts", quick: 40000, thorough: 600000, both: false,
        rule: "syntax trees (random, deep, wide, with wrong-size byte sets and references) printed with and without a store and length limits; Debug of trees and of regexes, statistics in between queries. Non-trivial: the text was cut at some limit and complete at another.",
        f: c24_asts });
    v.push(Arm { prop: "C25", name: "sessions", quick: 30000, thorough: 450000, both: true,
        rule: "a random builder session (trees, patterns, flags, quoting, containment, compiling with and without limits, matching, hints, export) replayed call by call on a second fresh builder: references, costs, sizes, errors, state numbers, lengths, hints, tables and texts must be identical. Non-trivial: at least 8 calls and one compiled regex with 4 states.",
        f: c25 });
    v.push(Arm { prop: "C25", name: "raw", quick: 80000, thorough: 1200000, both: true,
        rule: "the same for raw stores: constructors, derivatives, emptiness with and without limits, hints, alphabet compression of several roots. Non-trivial: at least 10 calls.",
        f: c25_raw });
    v.push(Arm { prop: "C26", name: "map", quick: 150000, thorough: 2250000, both: false,
        rule: "random shared expression graphs traversed with map (both concatenation modes, empty, partly filled and full cache, closures that add expressions or return references) and simple_map, some with a node of up to 130000 operands; recorded calls compared with a recursive reference. Non-trivial: at least 5 calls, and some operand shared.",
        f: c26 });
    v.push(Arm { prop: "C27", name: "bound", quick: 80000, thorough: 1200000, both: true,
        rule: "A LookAhead(B) and unions of such: raw derivatives along random words; the bound after every prefix against the lengths the model reports for the prefix and its continuations, and against the number of bytes read. Non-trivial: some reported length is not 0.",
        f: c27 });
    v.push(Arm { prop: "C28", name: "regex", quick: 100000, thorough: 1500000, both: true,
        rule: "random texts matched, then every one of them (and all their prefixes, in another order, on the regex and on clones, in pieces) again: no new state, transition, expression or cost; cost never decreases. Non-trivial: at least 4 states and 10 repeated queries.",
        f: c28 });
    v.push(Arm { prop: "C28", name: "raw", quick: 300000, thorough: 4500000, both: true,
        rule: "raw derivative, emptiness and hint caches: repeated questions (also about operands of expressions asked before) give the same answer and add no expression, derivative or cost. Non-trivial: at least 10 repeated questions.",
        f: c28_raw });
}

// ------------------------------------------------------------------ C24

const LIMITS: &[usize] = &[0, 1, 2, 3, 5, 8, 13, 20, 30, 50, 80, 130, 200, 400, 1000, 1024, 5000, 100_000];

/// an expression whose full text has about 2^n letters, or that is n levels deep, or n operands wide
fn doubling(s: &mut Src, es: &mut ExprSet, start: ExprRef, k: usize, desc: &mut String) -> Result<ExprRef, String> {
    let kind = s.usize(5);
    let mut x = start;
    let sym = |i: usize| (i % k.min(7)) as u8;
    match kind {
        0 => {
            let n = s.range(5, 60);
            desc.push_str(&format!(" doubled {} times", n));
            for i in 0..n {
                let b = guard("mk_byte", || es.mk_byte(sym(i)))?;
                x = guard("doubling", || {
                    let y = es.mk_repeat(x, 2, 5);
                    let z = es.mk_concat(vec![b, x]);
                    let w = es.mk_or(vec![y, z]);
                    es.mk_not(w)
                })?;
            }
        }
        1 => {
            let n = s.range(5, 40);
            desc.push_str(&format!(" squared {} times", n));
            for i in 0..n {
                let b = guard("mk_byte", || es.mk_byte(sym(i)))?;
                x = guard("doubling", || {
                    let y = es.mk_not(x);
                    let z = es.mk_concat(vec![b, x]);
                    let y = es.mk_concat(vec![y, b]);
                    es.mk_and(vec![y, z])
                })?;
            }
        }
        4 => {
            // operators with one operand only
            let n = *s.pick(&[50usize, 300, 1500, 6000]);
            let not = s.chance(1, 2);
            let pfx = s.chance(1, 4);
            desc.push_str(&format!(" wrapped {} times", n));
            for i in 0..n {
                x = guard("wrapping", || {
                    let y = es.mk_repeat(x, 2, 3 + i as u32);
                    if not && i % 3 > 0 {
                        es.mk_not(y)
                    } else if pfx && i % 5 == 0 {
                        es.mk_prefixes(y)
                    } else {
                        y
                    }
                })?;
            }
        }
        2 => {
            let n = *s.pick(&[50usize, 300, 1500, 6000]);
            desc.push_str(&format!(" nested {} times", n));
            for i in 0..n {
                x = guard("nesting", || {
                    let b = es.mk_byte(sym(i));
                    let y = es.mk_concat(vec![b, x]);
                    let y = es.mk_repeat(y, 3, 100 + i as u32);
                    if i % 2 == 0 {
                        es.mk_not(y)
                    } else {
                        y
                    }
                })?;
            }
        }
        _ => {
            let n = *s.pick(&[10usize, 100, 1000, 5000]);
            desc.push_str(&format!(" {} operands", n));
            let v: Vec<ExprRef> = (0..n).map(|i| es.mk_repeat(x, 1, 2 + i as u32)).collect();
            x = guard("mk_concat", || es.mk_concat(v))?;
        }
    }
    Ok(x)
}

/// complete texts of different expressions differ
fn distinct_texts(es: &ExprSet, ctx: &mut Ctx) -> Result<(), String> {
    let mut seen: HashMap<String, u32> = HashMap::new();
    for r in 1..(es.len() as u32).min(300) {
        let t = guard("expr_to_string_max_len", || es.expr_to_string_max_len(ExprRef::new(r), 40_000))?;
        if t.len() > 5_000 {
            continue; // possibly cut
        }
        ctx.add("texts told apart", 1);
        if let Some(q) = seen.insert(t.clone(), r) {
            return Err(format!("the different expressions {} and {} have the same text {:?}", q, r, clip(&t, 300)));
        }
    }
    Ok(())
}

/// None: not checked at that size
fn check_text(f: &dyn Fn(usize) -> String, full_ok: bool, slack: usize, what: &str) -> Result<(bool, bool), String> {
    let full = if full_ok { Some(guard(what, || f(1 << 40))?) } else { None };
    let (mut cut, mut whole) = (false, false);
    for &m in LIMITS {
        let t = guard(what, || f(m))?;
        let bound = 64 * m + slack;
        if t.len() > bound {
            return Err(format!("{} with limit {} gives {} bytes", what, m, t.len()));
        }
        if guard(what, || f(m))? != t {
            return Err(format!("{} with limit {} gives different texts", what, m));
        }
        if let Some(u) = &full {
            if *u == t {
                whole = true;
            } else {
                cut = true;
                if u.len() <= m {
                    return Err(format!(
                        "{} with limit {} gives {:?}, although the whole text {:?} has only {} bytes",
                        what,
                        m,
                        clip(&t, 200),
                        clip(u, 200),
                        u.len()
                    ));
                }
            }
        }
    }
    Ok((cut, whole))
}

fn print_checks(es: &ExprSet, e: ExprRef, full_ok: bool, ctx: &mut Ctx) -> Result<bool, String> {
    let (cut, whole) = check_text(&|m| es.expr_to_string_max_len(e, m), full_ok, 16_384, "expr_to_string_max_len")?;
    let t = guard("expr_to_string", || es.expr_to_string(e))?;
    let info = guard("expr_to_string_with_info", || es.expr_to_string_with_info(e))?;
    if t.len() > 200_000 || info.len() > 400_000 {
        return Err(format!("expr_to_string gives {} bytes, with the legend {}", t.len(), info.len()));
    }
    if t.is_empty() {
        return Err("empty text".into());
    }
    let c = es.clone();
    if guard("expr_to_string of a clone", || c.expr_to_string(e))? != t {
        return Err("a clone of the store prints an expression differently".into());
    }
    ctx.add("texts", 40);
    Ok(cut && whole)
}

fn c24_exprs(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    match s.usize(3) {
        0 => {
            let k = gen_k(s);
            let c = raw_cfg(s, k, 8);
            let g = gen_g(s, &c);
            ctx.desc = format!("k={} {}", k, g.show());
            let mut es = guard("ExprSet::new", || ExprSet::new(k))?;
            let mut e = guard("building", || build_raw(&g, &mut es))?;
            let mut full = true;
            if s.chance(1, 5) {
                // lookaheads that have consumed some bytes
                let h = build_raw(&gen_g(s, &c), &mut es);
                let off = *s.pick(&[0u32, 0, 1, 9, 255, 256, 70_000, u32::MAX - 1000]);
                let l = guard("mk_lookahead", || es.mk_lookahead(h, off))?;
                e = guard("building", || es.mk_concat(vec![e, l]))?;
                if s.chance(1, 2) {
                    let l2 = guard("mk_lookahead", || es.mk_lookahead(h, off / 2))?;
                    e = guard("building", || es.mk_or(vec![e, l2]))?;
                }
                ctx.desc.push_str(&format!(" with a lookahead at {}", off));
            }
            if s.chance(1, 4) {
                let mut d = String::new();
                e = doubling(s, &mut es, e, k, &mut d)?;
                ctx.desc.push_str(&d);
                full = false;
            }
            let both = print_checks(&es, e, full, ctx)?;
            if full {
                distinct_texts(&es, ctx)?;
            }
            for r in 1..(es.len() as u32).min(12) {
                guard("expr_to_string", || es.expr_to_string(ExprRef::new(r)))?;
            }
            ctx.nontrivial = both || k % 32 != 0;
            // derivatives are printable too
            let mut dc = DerivCache::new();
            for _ in 0..3 {
                let b = s.usize(k) as u8;
                e = guard("derivative", || dc.derivative(&mut es, e, b))?;
                let t = guard("expr_to_string", || es.expr_to_string(e))?;
                if t.len() > 200_000 {
                    return Err(format!("expr_to_string gives {} bytes", t.len()));
                }
                if !full {
                    break;
                }
            }
        }
        x => {
            let c = GCfg::full(s, 8);
            let g = gen_g(s, &c);
            ctx.desc = g.show();
            let mut b = RegexBuilder::new();
            let mut e = guard("building", || g.build(&mut b))??;
            if s.chance(1, 5) {
                let h = gen_g(s, &c).to_ast(&mut b)?;
                ctx.desc.push_str(&format!(" LookAhead({:?})", h));
                let t = RegexAst::Concat(vec![RegexAst::ExprRef(e), RegexAst::LookAhead(Box::new(h))]);
                e = guard("mk", || b.mk(&t))?.map_err(|e| e.to_string())?;
            }
            let both = if x == 1 {
                distinct_texts(b.exprset(), ctx)?;
                print_checks(b.exprset(), e, true, ctx)?
            } else {
                let (_, mut es, roots) = guard("AlphabetInfo::from_exprset", || AlphabetInfo::from_exprset(b.exprset(), &[e]))?;
                ctx.label("compiled store");
                let mut e = roots[0];
                let k = es.alphabet_size();
                let mut full = true;
                if s.chance(1, 5) {
                    let mut d = String::new();
                    e = doubling(s, &mut es, e, k, &mut d)?;
                    ctx.desc.push_str(&d);
                    full = false;
                }
                if full {
                    distinct_texts(&es, ctx)?;
                }
                print_checks(&es, e, full, ctx)?
            };
            ctx.nontrivial = both;
        }
    }
    Ok(())
}

fn gen_any_ast(s: &mut Src, refs: &[ExprRef], budget: &mut usize, depth: usize) -> RegexAst {
    *budget = budget.saturating_sub(1);
    if depth == 0 || *budget == 0 {
        return match s.usize(8) {
            0 => RegexAst::EmptyString,
            1 => RegexAst::NoMatch,
            2 => RegexAst::Byte(s.byte()),
            3 => {
                let n = *s.pick(&[8usize, 8, 8, 0, 1, 7, 9, 40]);
                RegexAst::ByteSet((0..n).map(|_| s.below(1 << 32) as u32).collect())
            }
            4 => RegexAst::Literal((0..s.range(0, 6)).map(|_| *s.pick(&['a', '"', '…', '\n', 'ł', '\u{10ffff}', '\0'])).collect()),
            5 => RegexAst::ByteLiteral((0..s.range(0, 6)).map(|_| s.byte()).collect()),
            6 => RegexAst::Regex("a[b-z\"]*\\n(".chars().take(s.range(0, 12)).collect()),
            _ => RegexAst::ExprRef(*s.pick(refs)),
        };
    }
    let many = |s: &mut Src, budget: &mut usize| -> Vec<RegexAst> {
        let n = if s.chance(1, 12) { s.range(0, 60) } else { s.range(0, 4) };
        (0..n).map(|_| gen_any_ast(s, refs, budget, depth - 1)).collect()
    };
    match s.usize(8) {
        0 => RegexAst::And(many(s, budget)),
        1 => RegexAst::Or(many(s, budget)),
        2 => RegexAst::Concat(many(s, budget)),
        3 => RegexAst::LookAhead(Box::new(gen_any_ast(s, refs, budget, depth - 1))),
        4 => RegexAst::Not(Box::new(gen_any_ast(s, refs, budget, depth - 1))),
        5 => {
            let (a, b) = (s.below(4) as u32, *s.pick(&[0u32, 3, 7, u32::MAX]));
            RegexAst::Repeat(Box::new(gen_any_ast(s, refs, budget, depth - 1)), a, b)
        }
        6 => RegexAst::Prefixes(Box::new(gen_any_ast(s, refs, budget, depth - 1))),
        _ => gen_any_ast(s, refs, budget, 0),
    }
}

/// changes one thing in the tree; None: nothing (certainly visible) to change here
fn vary(s: &mut Src, t: &mut RegexAst, depth: usize) -> Option<String> {
    if depth < 60 && s.chance(3, 4) {
        // go down
        let kid: Option<&mut RegexAst> = match t {
            RegexAst::And(v) | RegexAst::Or(v) | RegexAst::Concat(v) if !v.is_empty() => {
                let i = s.usize(v.len());
                v.get_mut(i)
            }
            RegexAst::Not(x) | RegexAst::LookAhead(x) | RegexAst::Prefixes(x) | RegexAst::Repeat(x, _, _) => Some(x),
            _ => None,
        };
        if let Some(k) = kid {
            return vary(s, k, depth + 1);
        }
    }
    let what = format!("{:?}", t.tag());
    match t {
        RegexAst::And(v) => {
            if s.chance(1, 2) {
                *t = RegexAst::Or(std::mem::take(v))
            } else {
                v.push(RegexAst::NoMatch)
            }
        }
        RegexAst::Or(v) => {
            if s.chance(1, 2) {
                *t = RegexAst::Concat(std::mem::take(v))
            } else {
                v.insert(0, RegexAst::EmptyString)
            }
        }
        RegexAst::Concat(v) => {
            if v.pop().is_none() {
                *t = RegexAst::EmptyString
            }
        }
        RegexAst::Repeat(_, a, b) => {
            if s.chance(1, 2) {
                *a = a.wrapping_add(1)
            } else {
                *b = b.wrapping_sub(1)
            }
        }
        RegexAst::Not(x) => *t = RegexAst::Prefixes(std::mem::replace(x, Box::new(RegexAst::NoMatch))),
        RegexAst::Prefixes(x) => *t = RegexAst::LookAhead(std::mem::replace(x, Box::new(RegexAst::NoMatch))),
        RegexAst::LookAhead(x) => *t = RegexAst::Not(std::mem::replace(x, Box::new(RegexAst::NoMatch))),
        RegexAst::EmptyString => *t = RegexAst::NoMatch,
        RegexAst::NoMatch => *t = RegexAst::EmptyString,
        RegexAst::Byte(b) => *b ^= 1 << s.usize(8),
        RegexAst::ByteSet(v) => {
            if v.len() != 8 {
                v.extend([0; 10]);
            } else {
                v[s.usize(8)] ^= 1 << s.usize(32);
            }
        }
        RegexAst::Literal(x) | RegexAst::Regex(x) => x.push(*s.pick(&['a', '"', '\\', '\n', 'ł'])),
        RegexAst::ByteLiteral(x) => x.push(*s.pick(b"a\"\\\n")),
        RegexAst::ExprRef(_) => return None,
    }
    Some(what)
}

fn c24_asts(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = GCfg::full(s, 6);
    let mut b = RegexBuilder::new();
    let mut refs = vec![ExprRef::EMPTY_STRING, ExprRef::ANY_BYTE_STRING];
    for _ in 0..s.range(1, 3) {
        let g = gen_g(s, &c);
        refs.push(guard("building", || g.build(&mut b))??);
    }
    let mut budget = 120;
    let depth = s.range(0, 6);
    let mut ast = gen_any_ast(s, &refs, &mut budget, depth);
    match s.usize(8) {
        0 => {
            for i in 0..*s.pick(&[200u32, 2000, 8000]) {
                ast = if i % 3 == 0 { RegexAst::Not(Box::new(ast)) } else { RegexAst::Repeat(Box::new(ast), i, i + 1) };
            }
            ctx.label("deep tree");
        }
        1 => {
            let n = *s.pick(&[300usize, 3000]);
            let mut v = vec![RegexAst::Byte(b'x'); n];
            v.push(ast);
            v.rotate_right(s.usize(5));
            ast = RegexAst::Or(v);
            ctx.label("wide tree");
        }
        _ => {}
    }
    let with = s.chance(1, 2);
    let es = b.exprset();
    let dbg = guard("Debug of a syntax tree", || format!("{:?}", ast))?;
    ctx.desc = clip(&dbg, 300);
    if dbg.len() > 512 * 64 + 16_384 {
        return Err(format!("Debug gives {} bytes", dbg.len()));
    }
    let f = |m: usize| -> String {
        let mut d = String::new();
        ast.write_to_str(&mut d, m, if with { Some(es) } else { None });
        d
    };
    let (cut, whole) = check_text(&f, true, 16_384, "write_to_str")?;
    // a slightly different tree has another text
    let mut other = ast.clone();
    if let Some(what) = vary(s, &mut other, 0) {
        let mut d = String::new();
        guard("write_to_str", || other.write_to_str(&mut d, 1 << 40, if with { Some(es) } else { None }))?;
        if d == f(1 << 40) {
            return Err(format!("the tree has the same text after changing {}: {}", what, clip(&d, 300)));
        }
        ctx.add("texts told apart", 1);
    }
    // what stood in the string before stays
    let mut d = String::from("before");
    guard("write_to_str", || ast.write_to_str(&mut d, 400, Some(es)))?;
    if !d.starts_with("before") {
        return Err("write_to_str does not append".into());
    }
    ctx.nontrivial = cut && whole;
    // regexes: statistics and Debug between queries
    let mut e = *refs.last().unwrap();
    if s.chance(1, 30) {
        // many expressions before anything is derived
        let p = *s.pick(&["\\pL+x", "(?i)\\w{2}[0-9]{3,5}foo", "[\\pL\\pN--\\p{Greek}]y*", "\\PL"]);
        let x = guard("mk_regex", || b.mk_regex(p))?.map_err(|e| e.to_string())?;
        e = if s.chance(1, 2) { x } else { guard("mk", || b.mk(&RegexAst::Or(vec![RegexAst::ExprRef(x), RegexAst::ExprRef(e)])))?.map_err(|e| e.to_string())? };
        ctx.label("large class");
    }
    let mut rx = guard("to_regex", || b.to_regex(e))?;
    let mut silent = rx.clone();
    for _ in 0..s.range(1, 4) {
        let w = gen_bytes(s, &c.pool, 6);
        let t = guard("Debug and statistics", || {
            let t = format!("{:?}", rx);
            let u = format!("{} {} {}", rx.stats(), rx.num_bytes(), rx.cost());
            (t, u)
        })?;
        if t.0.len() > 1000 || t.1.len() > 1000 {
            return Err(format!("statistics of {} bytes", t.0.len() + t.1.len()));
        }
        if rx.lookahead_len_bytes(&w) != silent.lookahead_len_bytes(&w) {
            return Err(format!("{}: another answer after printing", show(&w)));
        }
        let (mut p, mut q) = (rx.initial_state(), silent.initial_state());
        for x in &w {
            p = rx.transition(p, *x);
            let _ = rx.num_bytes();
            q = silent.transition(q, *x);
            if p != q || rx.next_byte(p) != silent.next_byte(q) {
                return Err(format!("{}: another state or hint after printing", show(&w)));
            }
            let _ = format!("{:?} {:?}", p, rx);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C25

/// two of the same thing; every call is made on both and the answers compared
fn same<T: PartialEq + std::fmt::Debug>(a: T, b: T, what: &str) -> Result<T, String> {
    if a != b {
        return Err(format!("{}: {} at first, {} on a fresh instance asked the same", what, clip(&format!("{:?}", a), 300), clip(&format!("{:?}", b), 300)));
    }
    Ok(a)
}

fn facts(b: &RegexBuilder) -> (u64, usize, usize) {
    (b.exprset().cost(), b.exprset().len(), b.exprset().num_bytes())
}

fn rfacts(r: &Regex) -> (u64, usize, String) {
    (r.cost(), r.num_bytes(), r.stats())
}

fn c25(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 8);
    c.prefix = true;
    c.unicode = s.chance(1, 4);
    let mut p = [RegexBuilder::new(), RegexBuilder::new()];
    // the second one lives after other work in the same process
    {
        let mut o = RegexBuilder::new();
        let g = gen_g(s, &c);
        let e = guard("building", || g.build(&mut o))??;
        let mut r = guard("to_regex", || o.to_regex(e))?;
        r.is_match("abc");
    }
    let mut pool: Vec<ExprRef> = vec![];
    let mut rxs: Vec<[Regex; 2]> = vec![];
    let mut log = String::new();
    let n = s.range(6, 24);
    let mut flags = Flags::DEFAULT;
    let mut most = 0;
    for _ in 0..n {
        let op = s.weighted(&[6, 4, 2, 3, 2, 5, 10, 2, 1, 1]);
        match op {
            0 => {
                let g = gen_g(s, &c);
                log.push_str(&format!(" {};", g.show()));
                let mut r = vec![];
                for b in p.iter_mut() {
                    r.push(guard("mk", || -> Result<_, String> {
                        let ast = g.to_ast(b);
                        Ok(match ast {
                            Ok(a) => b.mk(&a).map_err(|e| e.to_string()),
                            Err(e) => Err(e),
                        })
                    })??);
                }
                let b = r.pop().unwrap();
                if let Ok(e) = same(r.pop().unwrap(), b, "mk")? {
                    pool.push(e);
                }
            }
            1 => {
                let mut names = 0;
                let size = s.range(1, 6);
                let mut pat = wild::gen_wild(s, &flags, size, &mut names);
                if s.chance(1, 10) {
                    pat.push_str(*s.pick(&["\\b", "(", "^a", "[z-a]"]));
                }
                log.push_str(&format!(" /{}/;", pat));
                let [x, y] = &mut p;
                let a = guard("mk_regex", || x.mk_regex(&pat).map_err(|e| e.to_string()))?;
                let b = guard("mk_regex", || y.mk_regex(&pat).map_err(|e| e.to_string()))?;
                if let Ok(e) = same(a, b, "mk_regex")? {
                    pool.push(e);
                }
            }
            2 => {
                flags = Flags::gen(s);
                for b in p.iter_mut() {
                    flags.apply(b);
                }
                log.push_str(&format!(" flags[{}];", flags.show()));
            }
            3 if !pool.is_empty() => {
                let e = *s.pick(&pool);
                let mut o = gen_opts(s);
                if s.chance(1, 10) {
                    o.allowed_escapes.push('x');
                }
                log.push_str(&format!(" quote({},{:?});", e.as_u32(), o.allowed_escapes));
                let [x, y] = &mut p;
                let a = guard("json_quote", || x.json_quote(e, &o).map_err(|e| e.to_string()))?;
                let b = guard("json_quote", || y.json_quote(e, &o).map_err(|e| e.to_string()))?;
                if let Ok(e) = same(a, b, "json_quote")? {
                    pool.push(e);
                }
            }
            4 => {
                let (pa, pb) = (gen_pat(s, &c, 5).to_pattern(), gen_pat(s, &c, 5).to_pattern());
                let fuel = *s.pick(&[0u64, 10, 100, 1000, 50_000]);
                log.push_str(&format!(" contained(/{}/,/{}/,{});", pa, pb, fuel));
                let [x, y] = &mut p;
                let a = guard("is_contained_in", || x.is_contained_in(&pa, &pb, fuel).map_err(|e| e.to_string()))?;
                let b = guard("is_contained_in", || y.is_contained_in(&pa, &pb, fuel).map_err(|e| e.to_string()))?;
                let _ = same(a, b, "is_contained_in")?;
            }
            5 if !pool.is_empty() => {
                let e = *s.pick(&pool);
                let fuel = *s.pick(&[u64::MAX, 100_000, 1000, 100, 30]);
                let fuel = if fuel == u64::MAX { 200_000 } else { fuel };
                log.push_str(&format!(" compile({},{});", e.as_u32(), fuel));
                let f = |b: &RegexBuilder| b.to_regex_limited(e, fuel).map_err(|e| e.to_string());
                let a = guard("to_regex_limited", || f(&p[0]))?;
                let b = guard("to_regex_limited", || f(&p[1]))?;
                let _ = same(a.as_ref().map(rfacts).map_err(|e| e.clone()), b.as_ref().map(rfacts).map_err(|e| e.clone()), "to_regex_limited")?;
                if let (Ok(a), Ok(b)) = (a, b) {
                    for x in 0..=255u8 {
                        same((a.alpha().map(x), a.alpha().inv_map(a.alpha().map(x))), (b.alpha().map(x), b.alpha().inv_map(b.alpha().map(x))), "byte map")?;
                    }
                    if rxs.len() < 4 {
                        rxs.push([a, b]);
                    }
                }
            }
            6 if !rxs.is_empty() => {
                let i = s.usize(rxs.len());
                let w = gen_bytes(s, &c.pool, 10);
                log.push_str(&format!(" walk({},{});", i, show(&w)));
                let [x, y] = &mut rxs[i];
                let (mut q, mut r) = (x.initial_state(), y.initial_state());
                same(q, r, "initial_state")?;
                for (j, b) in w.iter().enumerate() {
                    if x.cost() > 3_000_000 {
                        break;
                    }
                    q = guard("transition", || x.transition(q, *b))?;
                    r = guard("transition", || y.transition(r, *b))?;
                    same(q, r, &format!("state after {}", show(&w[..=j])))?;
                    same(x.lookahead_len_for_state(q), y.lookahead_len_for_state(r), "lookahead length")?;
                    if j % 2 == 0 {
                        same(x.next_byte(q), y.next_byte(r), "hint")?;
                    }
                }
                same(rfacts(x), rfacts(y), "statistics")?;
                most = most.max(q.as_usize());
            }
            7 if !rxs.is_empty() => {
                let i = s.usize(rxs.len());
                let [x, y] = &mut rxs[i];
                if crate::props::engine::count_states(&mut x.clone(), 200).is_some() {
                    log.push_str(&format!(" dfa({});", i));
                    let a = guard("dfa", || x.dfa())?;
                    let b = guard("dfa", || y.dfa())?;
                    most = most.max((a.len() - 256) / x.alpha().len());
                    same(a, b, "exported table")?;
                    same(rfacts(x), rfacts(y), "statistics after export")?;
                }
            }
            8 if !pool.is_empty() => {
                let e = *s.pick(&pool);
                same(
                    guard("expr_to_string", || p[0].exprset().expr_to_string(e))?,
                    guard("expr_to_string", || p[1].exprset().expr_to_string(e))?,
                    "text of an expression",
                )?;
            }
            9 => {
                // continue with a clone of one of them
                let i = s.usize(2);
                p[i] = p[i].clone();
                for r in rxs.iter_mut() {
                    r[i] = r[i].clone();
                }
                log.push_str(&format!(" clone{};", i));
            }
            _ => {}
        }
        same(facts(&p[0]), facts(&p[1]), "cost, size and bytes of the store")?;
    }
    ctx.desc = log;
    ctx.nontrivial = n >= 8 && most >= 4;
    let _ = ESCAPES;
    Ok(())
}

fn c25_raw(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = gen_k(s);
    let c = raw_cfg(s, k, 7);
    struct W {
        es: ExprSet,
        dc: DerivCache,
        rc: RelevanceCache,
        nc: NextByteCache,
    }
    let mk = || W {
        es: ExprSet::new(k),
        dc: DerivCache::new(),
        rc: RelevanceCache::new(),
        nc: NextByteCache::new(),
    };
    let mut w = [guard("ExprSet::new", mk)?, guard("ExprSet::new", mk)?];
    let mut pool = vec![ExprRef::EMPTY_STRING, ExprRef::ANY_BYTE];
    let mut log = format!("k={}", k);
    let n = s.range(8, 40);
    for _ in 0..n {
        match s.weighted(&[6, 3, 8, 4, 3, 2]) {
            0 => {
                let g = gen_g(s, &c);
                log.push_str(&format!(" {};", g.show()));
                let [x, y] = &mut w;
                let a = guard("building", || build_raw(&g, &mut x.es))?;
                let b = guard("building", || build_raw(&g, &mut y.es))?;
                pool.push(same(a, b, "reference")?);
            }
            1 => {
                let v: Vec<ExprRef> = (0..s.range(1, 5)).map(|_| *s.pick(&pool)).collect();
                let kind = s.usize(3);
                log.push_str(&format!(" {}{:?};", ["or", "and", "cat"][kind], v.iter().map(|x| x.as_u32()).collect::<Vec<_>>()));
                let f = |x: &mut W| match kind {
                    0 => x.es.mk_or(v.clone()),
                    1 => x.es.mk_and(v.clone()),
                    _ => x.es.mk_concat(v.clone()),
                };
                let [x, y] = &mut w;
                let a = guard("mk", || f(x))?;
                let b = guard("mk", || f(y))?;
                pool.push(same(a, b, "reference")?);
            }
            2 => {
                let e = *s.pick(&pool);
                let b = if s.chance(1, 2) { *s.pick(&c.pool) } else { s.usize(k) as u8 };
                log.push_str(&format!(" d({},{});", e.as_u32(), b));
                let [x, y] = &mut w;
                let p = guard("derivative", || x.dc.derivative(&mut x.es, e, b))?;
                let q = guard("derivative", || y.dc.derivative(&mut y.es, e, b))?;
                pool.push(same(p, q, "derivative")?);
                same((x.dc.num_deriv, x.dc.num_bytes()), (y.dc.num_deriv, y.dc.num_bytes()), "derivative count")?;
            }
            3 => {
                let e = *s.pick(&pool);
                let fuel = *s.pick(&[100_000u64, 1000, 50, 5]);
                log.push_str(&format!(" nonempty({},{});", e.as_u32(), fuel));
                let f = |x: &mut W| x.rc.is_non_empty_limited(&mut x.es, e, fuel).map_err(|e| e.to_string());
                let [x, y] = &mut w;
                let a = guard("is_non_empty_limited", || f(x))?;
                let b = guard("is_non_empty_limited", || f(y))?;
                let _ = same(a, b, "is_non_empty_limited")?;
                same(x.rc.num_bytes(), y.rc.num_bytes(), "size of the emptiness cache")?;
            }
            4 => {
                let e = *s.pick(&pool);
                let [x, y] = &mut w;
                let a = guard("next_byte", || x.nc.next_byte(&x.es, e))?;
                let b = guard("next_byte", || y.nc.next_byte(&y.es, e))?;
                same(a, b, "hint")?;
            }
            _ if k == 256 => {
                let roots: Vec<ExprRef> = (0..s.range(1, 4)).map(|_| *s.pick(&pool)).collect();
                log.push_str(&format!(" compress{:?};", roots.iter().map(|x| x.as_u32()).collect::<Vec<_>>()));
                let f = |x: &W| {
                    let (al, es, r) = AlphabetInfo::from_exprset(&x.es, &roots);
                    let m: Vec<usize> = (0..=255u8).map(|b| al.map(b)).collect();
                    let t: Vec<String> = r.iter().map(|e| es.expr_to_string(*e)).collect();
                    (al.len(), m, es.len(), es.cost(), r, t)
                };
                let a = guard("AlphabetInfo::from_exprset", || f(&w[0]))?;
                let b = guard("AlphabetInfo::from_exprset", || f(&w[1]))?;
                same(a, b, "compressed store")?;
            }
            _ => {}
        }
        let f = |x: &W| (x.es.cost(), x.es.len(), x.es.num_bytes());
        same(f(&w[0]), f(&w[1]), "cost, size and bytes of the store")?;
        if pool.len() > 14 {
            pool.drain(2..6);
        }
        if w[0].es.cost() > 2_000_000 {
            break;
        }
    }
    for e in &pool {
        same(
            guard("expr_to_string", || w[0].es.expr_to_string(*e))?,
            guard("expr_to_string", || w[1].es.expr_to_string(*e))?,
            "text of an expression",
        )?;
    }
    ctx.desc = log;
    ctx.nontrivial = n >= 10;
    Ok(())
}

// ------------------------------------------------------------------ C26

/// operands that the traversal must process for e
fn operands(es: &ExprSet, e: ExprRef, nullable_check: bool) -> Vec<ExprRef> {
    let a = es.get_args(e).to_vec();
    if nullable_check && format!("{:?}", es.get_tag(e)) == "Concat" {
        let mut v = vec![];
        for x in a {
            v.push(x);
            if !es.is_nullable(x) {
                break;
            }
        }
        v
    } else {
        a
    }
}

fn c26(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = gen_k(s);
    let c = raw_cfg(s, k, 14);
    let mut es = guard("ExprSet::new", || ExprSet::new(k))?;
    let mut roots = vec![];
    let mut desc = format!("k={}", k);
    for _ in 0..s.range(1, 3) {
        let g = gen_g(s, &c);
        desc.push_str(&format!(" {};", g.show()));
        let mut e = guard("building", || build_raw(&g, &mut es))?;
        if s.chance(1, 6) {
            let e2 = es.mk_byte(s.usize(k) as u8);
            e = guard("mk_lookahead", || {
                let l = es.mk_lookahead(e2, s.below(3) as u32);
                es.mk_concat(vec![e, l])
            })?;
        }
        if let Some(f) = roots.last().copied() {
            if s.chance(1, 2) {
                e = guard("mk", || match s.usize(3) {
                    0 => es.mk_or(vec![f, e]),
                    1 => es.mk_concat(vec![e, f, e]),
                    _ => {
                        let n = es.mk_not(e);
                        es.mk_and(vec![n, f])
                    }
                })?;
            }
        }
        roots.push(e);
    }
    if s.chance(1, 12) {
        let mut d = String::new();
        let e = *roots.last().unwrap();
        let e = doubling(s, &mut es, e, k, &mut d)?;
        desc.push_str(&d);
        roots.push(e);
    }
    if s.chance(1, 150) {
        // a node with very many operands
        let n = ((1usize << s.range(5, 17)) + 2) - s.usize(5);
        let kind = s.usize(3);
        let e = guard("wide node", || {
            let x = es.mk_byte((k - 1) as u8);
            // operands of a concatenation may come again at any distance
            let every = if s.chance(1, 2) { s.range(1, n + 1) as u32 } else { u32::MAX };
            let v: Vec<ExprRef> = (0..n as u32)
                .map(|i| if kind == 0 { i % every } else { i })
                .map(|i| es.mk_repeat(x, if kind == 0 { i % 7 } else { 2 + i / 3 }, 9 + i))
                .collect();
            match kind {
                0 => es.mk_concat(v),
                1 => es.mk_or(v),
                _ => es.mk_and(v),
            }
        })?;
        desc.push_str(&format!(" {} of {} repetitions", ["Concat", "Or", "And"][kind], n));
        ctx.label("wide node");
        roots.push(e);
    }
    let mode = s.chance(1, 2);
    let adds = s.chance(1, 3);
    ctx.desc = format!("{} concat_nullable_check={} closure {}", desc, mode, if adds { "adds expressions" } else { "is pure" });
    // key: the expression and an arbitrary tag (as the derivative cache does), values: call numbers
    let tag = s.below(3) as u8;
    let mut cache: HashMap<(ExprRef, u8), u64> = HashMap::new();
    let mut model: HashMap<ExprRef, u64> = HashMap::new();
    if s.chance(1, 3) {
        // entries of another tag must not matter
        for e in &roots {
            cache.insert((*e, tag + 1), 7);
        }
    }
    if s.chance(1, 3) {
        // some results are known from before
        let mut at = *roots.last().unwrap();
        for _ in 0..s.range(1, 4) {
            let a = es.get_args(at).to_vec();
            if a.is_empty() {
                break;
            }
            at = *s.pick(&a);
        }
        cache.insert((at, tag), 999_999);
        model.insert(at, 999_999);
        ctx.label("partly filled cache");
    }
    let mut calls = 0u64;
    let mut shared = false;
    for round in 0..s.range(1, 3) {
        let root = *s.pick(&roots);
        let mut trace: Vec<(ExprRef, Vec<u64>, u64)> = vec![];
        let len0 = es.len();
        let base = calls;
        let r = guard("map", || {
            es.map(
                root,
                &mut cache,
                mode,
                |e| (e, tag),
                |es, args, e| {
                    let v = base + trace.len() as u64 + 1;
                    trace.push((e, args, v));
                    if adds {
                        let n = es.mk_not(e);
                        es.mk_concat(vec![n, e]);
                    }
                    v
                },
            )
        })?;
        calls += trace.len() as u64;
        if !adds && es.len() != len0 {
            return Err("the traversal added expressions".into());
        }
        // reference: everything reachable without passing through known results
        let mut need = HashSet::new();
        let mut todo = vec![root];
        let mut edges = 0;
        while let Some(e) = todo.pop() {
            if model.contains_key(&e) || !need.insert(e) {
                continue;
            }
            for a in operands(&es, e, mode) {
                edges += 1;
                todo.push(a);
            }
        }
        if edges > need.len() {
            shared = true;
        }
        let nm = |e: ExprRef| es.expr_to_string_max_len(e, 80);
        for (e, args, v) in &trace {
            if model.contains_key(e) {
                return Err(format!("round {}: {} was processed although its result was known", round, nm(*e)));
            }
            if !need.contains(e) {
                return Err(format!("round {}: {} was processed but is not an operand that counts", round, nm(*e)));
            }
            let want: Option<Vec<u64>> = operands(&es, *e, mode).iter().map(|a| model.get(a).copied()).collect();
            match want {
                None => return Err(format!("round {}: {} was processed before one of its operands", round, nm(*e))),
                Some(w) => {
                    if w != *args {
                        return Err(format!("round {}: {} got the results {:?} of its operands, expected {:?}", round, nm(*e), args, w));
                    }
                }
            }
            model.insert(*e, *v);
        }
        if trace.len() != need.len() {
            return Err(format!("round {}: {} of {} expressions were processed", round, trace.len(), need.len()));
        }
        if model.get(&root) != Some(&r) {
            return Err(format!("round {}: map returned {}, the root's result is {:?}", round, r, model.get(&root)));
        }
        for (e, v) in &model {
            if cache.get(&(*e, tag)) != Some(v) {
                return Err(format!("round {}: the cache does not hold the result of {}", round, nm(*e)));
            }
        }
    }
    // simple_map: a fresh traversal of everything
    let root = *s.pick(&roots);
    let mut done: HashMap<ExprRef, u64> = HashMap::new();
    let mut trace: Vec<(ExprRef, Vec<u64>)> = vec![];
    let r = guard("simple_map", || {
        es.simple_map(root, |_, args, e| {
            trace.push((e, args));
            trace.len() as u64
        })
    })?;
    for (i, (e, args)) in trace.iter().enumerate() {
        let want: Option<Vec<u64>> = es.get_args(*e).iter().map(|a| done.get(a).copied()).collect();
        if want.as_ref() != Some(args) {
            return Err(format!("simple_map: operand results of {} are {:?}, expected {:?}", es.expr_to_string_max_len(*e, 80), args, want));
        }
        if done.insert(*e, i as u64 + 1).is_some() {
            return Err(format!("simple_map processed {} twice", es.expr_to_string_max_len(*e, 80)));
        }
    }
    if done.get(&root) != Some(&r) {
        return Err("simple_map does not return the root's result".into());
    }
    let mut todo = vec![root];
    let mut all = HashSet::new();
    while let Some(e) = todo.pop() {
        if all.insert(e) {
            todo.extend(es.get_args(e));
        }
    }
    if all.len() != done.len() {
        return Err(format!("simple_map processed {} of {} expressions", done.len(), all.len()));
    }
    ctx.nontrivial = calls >= 5 && shared;
    Ok(())
}

// ------------------------------------------------------------------ C27

fn c27(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 6);
    c.pool.truncate(3);
    let n_alt = if s.chance(1, 3) { s.range(2, 3) } else { 1 };
    let mut parts = vec![];
    let mut asts = vec![];
    let mut descs = vec![];
    let mut b = RegexBuilder::new();
    for _ in 0..n_alt {
        let ga = gen_g(s, &c);
        let mut gb = gen_g(s, &c);
        if n_alt > 1 {
            gb = G::Cat(vec![G::Byte(*s.pick(&c.pool)), gb]);
        }
        parts.push((ga.rnode(), gb.rnode()));
        descs.push(format!("{} LA({})", ga.show(), gb.show()));
        let (xa, xb) = guard("building", || -> Result<_, String> { Ok((ga.to_ast(&mut b)?, gb.to_ast(&mut b)?)) })??;
        asts.push(RegexAst::Concat(vec![xa, RegexAst::LookAhead(Box::new(xb))]));
    }
    let plain = gen_g(s, &c);
    ctx.desc = descs.join(" | ");
    let ast = if n_alt == 1 { asts.pop().unwrap() } else { RegexAst::Or(asts) };
    let e = guard("building", || b.mk(&ast))?.map_err(|e| format!("rejected: {}", e))?;
    let p = guard("building", || plain.build(&mut b))??;
    let (ls, cl) = match mk_looks(&parts) {
        Some(x) => x,
        None => return ctx.discard("reference automaton too big"),
    };
    let (al, mut es, roots) = guard("AlphabetInfo::from_exprset", || AlphabetInfo::from_exprset(b.exprset(), &[e, p]))?;
    let mut dc = DerivCache::new();
    let mut nonzero = false;
    for _ in 0..s.range(3, 8) {
        let w = gen_bytes(s, &c.pool, 14);
        let mut cfg = cfg_start(&ls);
        let mut x = roots[0];
        let mut y = roots[1];
        // bound and reported length after every prefix
        let mut seq: Vec<(usize, Option<usize>)> = vec![];
        for i in 0..=w.len() {
            if i > 0 {
                let sym = al.map(w[i - 1]) as u8;
                x = guard("derivative", || dc.derivative(&mut es, x, sym))?;
                y = guard("derivative", || dc.derivative(&mut es, y, sym))?;
                cfg = cfg_step(&ls, &cfg, cl.of[w[i - 1] as usize] as usize);
            }
            let poss = guard("possible_lookahead_len", || es.possible_lookahead_len(x))?;
            let len = cfg_len(&ls, &cfg);
            let got = if es.is_nullable(x) { Some(es.lookahead_len(x).unwrap_or(0)) } else { None };
            if got != len {
                return Err(format!("after {}: reported length {:?}, expected {:?}", show(&w[..i]), got, len));
            }
            if poss > i {
                return Err(format!("after {}: possible lookahead of {} bytes although only {} were read", show(&w[..i]), poss, i));
            }
            let q = guard("possible_lookahead_len", || es.possible_lookahead_len(y))?;
            if q != 0 {
                return Err(format!("after {}: possible lookahead {} without any lookahead in {}", show(&w[..i]), q, plain.show()));
            }
            if len.unwrap_or(0) > 0 {
                nonzero = true;
            }
            for (j, (pj, _)) in seq.iter().enumerate() {
                if let Some(l) = len {
                    if l > pj + (i - j) {
                        return Err(format!(
                            "{}: a length of {} is reported, but after {} the possible lookahead was only {}",
                            show(&w[..i]),
                            l,
                            show(&w[..j]),
                            pj
                        ));
                    }
                }
            }
            if len.map_or(false, |l| l > poss) {
                return Err(format!("after {}: length {:?} is reported but only {} is possible", show(&w[..i]), len, poss));
            }
            seq.push((poss, len));
        }
    }
    ctx.nontrivial = nonzero;
    Ok(())
}

// ------------------------------------------------------------------ C28

fn c28(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 8);
    c.prefix = s.chance(1, 3);
    let mut b = RegexBuilder::new();
    let g = gen_g(s, &c);
    let look = s.chance(1, 3);
    let e = if look {
        let h = gen_g(s, &c);
        ctx.desc = format!("{} LA({})", g.show(), h.show());
        guard("building", || -> Result<_, String> {
            let (x, y) = (g.to_ast(&mut b)?, h.to_ast(&mut b)?);
            b.mk(&RegexAst::Concat(vec![x, RegexAst::LookAhead(Box::new(y))])).map_err(|e| e.to_string())
        })??
    } else {
        ctx.desc = g.show();
        guard("building", || g.build(&mut b))??
    };
    let mut rx = guard("to_regex", || b.to_regex(e))?;
    let texts: Vec<Vec<u8>> = (0..s.range(1, 6)).map(|_| gen_bytes(s, &c.pool, 10)).collect();
    let mut paths: Vec<Vec<StateID>> = vec![];
    let mut cost = rx.cost();
    let mut states = HashSet::new();
    for w in &texts {
        let mut q = rx.initial_state();
        let mut p = vec![q];
        for x in w {
            if rx.cost() > 3_000_000 {
                return ctx.discard("too much work");
            }
            q = guard("transition", || rx.transition(q, *x))?;
            p.push(q);
            if rx.cost() < cost {
                return Err(format!("cost went down from {} to {}", cost, rx.cost()));
            }
            cost = rx.cost();
        }
        for q in &p {
            states.insert(*q);
            rx.lookahead_len_for_state(*q);
            rx.next_byte(*q);
        }
        paths.push(p);
    }
    let before = (rx.cost(), rx.num_bytes(), rx.stats());
    let mut repeats = 0;
    let mut cl = rx.clone();
    if (cl.cost(), cl.num_bytes(), cl.stats()) != before {
        return Err(format!("statistics of a clone: {}, of the original: {}", cl.stats(), before.2));
    }
    for _ in 0..s.range(4, 16) {
        let i = s.usize(texts.len());
        let m = s.range(0, texts[i].len());
        let w = &texts[i][..m];
        let r = if s.chance(1, 3) { &mut cl } else { &mut rx };
        let what = match s.usize(6) {
            0 => {
                r.is_match_bytes(w);
                "is_match_bytes"
            }
            1 => {
                r.lookahead_len_bytes(w);
                "lookahead_len_bytes"
            }
            2 => {
                let q = r.initial_state();
                let q = r.transition_bytes(q, w);
                if q != paths[i][m] {
                    return Err(format!("{} leads to another state than before", show(w)));
                }
                "transition_bytes"
            }
            3 => {
                r.next_byte(paths[i][m]);
                "next_byte"
            }
            4 => {
                r.is_accepting(paths[i][m]);
                "is_accepting"
            }
            _ => {
                let k = s.range(0, m);
                let q = r.transition_bytes(paths[i][k], &w[k..]);
                if q != paths[i][m] {
                    return Err(format!("{} leads to another state than before", show(w)));
                }
                "transition_bytes from the middle"
            }
        };
        repeats += 1;
        let now = (r.cost(), r.num_bytes(), r.stats());
        if now != before {
            return Err(format!(
                "{} of {} was answered before, but asking again changed (cost, bytes, statistics) from {:?} to {:?}",
                what,
                show(w),
                before,
                now
            ));
        }
    }
    // bytes of the same class lead the same way at no cost
    let reps: Vec<Option<u8>> = (0..=255u8).map(|x| (0..x).find(|y| rx.alpha().map(*y) == rx.alpha().map(x))).collect();
    for p in &paths {
        for (i, q) in p.iter().enumerate().take(p.len() - 1) {
            let _ = i;
            let x = s.byte();
            if let Some(y) = reps[x as usize] {
                let t = guard("transition", || rx.transition(*q, y))?;
                let n = rx.stats();
                let u = guard("transition", || rx.transition(*q, x))?;
                if t != u || rx.stats() != n {
                    return Err(format!("bytes {:#x} and {:#x} share a symbol, but the second is computed anew", y, x));
                }
                repeats += 1;
            }
        }
    }
    // a complete exploration, and then nothing is left to compute
    if let Some(st) = crate::props::engine::count_states(&mut rx, 150) {
        let before = (rx.cost(), rx.num_bytes(), rx.stats());
        for (q, _) in st.iter() {
            for _ in 0..4 {
                let x = s.byte();
                rx.transition(*q, x);
            }
            repeats += 4;
        }
        if st.len() < 200 {
            guard("dfa", || rx.dfa())?;
        }
        let now = (rx.cost(), rx.num_bytes(), rx.stats());
        if now != before {
            return Err(format!("all transitions were known, but more walking and exporting changed {:?} to {:?}", before, now));
        }
    }
    ctx.nontrivial = states.len() >= 4 && repeats >= 10;
    Ok(())
}

fn c28_raw(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = gen_k(s);
    let c = raw_cfg(s, k, 8);
    let mut es = guard("ExprSet::new", || ExprSet::new(k))?;
    let mut dc = DerivCache::new();
    let mut rc = RelevanceCache::new();
    let mut nc = NextByteCache::new();
    let mut desc = format!("k={}", k);
    let mut pool = vec![];
    for _ in 0..s.range(1, 3) {
        let g = gen_g(s, &c);
        desc.push_str(&format!(" {};", g.show()));
        pool.push(guard("building", || build_raw(&g, &mut es))?);
    }
    ctx.desc = desc;
    // asked: (expression, symbol) -> derivative, expression -> non-empty
    let mut ders: Vec<(ExprRef, u8, ExprRef)> = vec![];
    let mut rels: Vec<(ExprRef, bool)> = vec![];
    let mut repeats = 0;
    let mut cost = es.cost();
    for _ in 0..s.range(10, 50) {
        if es.cost() < cost {
            return Err(format!("cost went down from {} to {}", cost, es.cost()));
        }
        cost = es.cost();
        if cost > 1_000_000 {
            break;
        }
        match s.weighted(&[5, 3, 5, 5, 1]) {
            0 => {
                let e = *s.pick(&pool);
                let x = if s.chance(2, 3) { *s.pick(&c.pool) } else { s.usize(k) as u8 };
                let d = guard("derivative", || dc.derivative(&mut es, e, x))?;
                ders.push((e, x, d));
                if pool.len() < 30 {
                    pool.push(d);
                }
            }
            1 => {
                let e = *s.pick(&pool);
                if let Ok(r) = guard("is_non_empty_limited", || rc.is_non_empty_limited(&mut es, e, 100_000))? {
                    rels.push((e, r));
                }
            }
            2 if !ders.is_empty() => {
                let (e, x, d) = *s.pick(&ders);
                let before = (es.cost(), es.len(), dc.num_deriv, dc.num_bytes());
                let again = guard("derivative", || dc.derivative(&mut es, e, x))?;
                repeats += 1;
                if again != d {
                    return Err(format!("the derivative of {} by {} is another one when asked again", es.expr_to_string_max_len(e, 100), x));
                }
                let now = (es.cost(), es.len(), dc.num_deriv, dc.num_bytes());
                if now != before {
                    return Err(format!(
                        "the derivative of {} by {} was known, but asking again changed (cost, expressions, derivatives, bytes) {:?} to {:?}",
                        es.expr_to_string_max_len(e, 100),
                        x,
                        before,
                        now
                    ));
                }
            }
            3 if !rels.is_empty() => {
                let (e, r) = *s.pick(&rels);
                let before = (es.cost(), es.len(), rc.num_bytes());
                let fuel = *s.pick(&[0u64, 1, u64::MAX]);
                let again = guard("is_non_empty_limited", || rc.is_non_empty_limited(&mut es, e, fuel))?;
                repeats += 1;
                match again {
                    Ok(x) if x == r => {}
                    x => {
                        return Err(format!(
                            "emptiness of {} was decided ({}), asked again with limit {}: {:?}",
                            es.expr_to_string_max_len(e, 100),
                            r,
                            fuel,
                            x.map_err(|e| e.to_string())
                        ))
                    }
                }
                let now = (es.cost(), es.len(), rc.num_bytes());
                if now != before {
                    return Err(format!(
                        "emptiness of {} was known, but asking again changed (cost, expressions, bytes) {:?} to {:?}",
                        es.expr_to_string_max_len(e, 100),
                        before,
                        now
                    ));
                }
            }
            _ => {
                let e = *s.pick(&pool);
                let a = guard("next_byte", || nc.next_byte(&es, e))?;
                let n = nc.num_bytes();
                let b = guard("next_byte", || nc.next_byte(&es, e))?;
                repeats += 1;
                if a != b || nc.num_bytes() != n {
                    return Err("asking for a hint again is not free".into());
                }
            }
        }
    }
    ctx.nontrivial = repeats >= 10;
    let _ = (BS::FULL, JsonQuoteOptions::no_unicode as fn() -> JsonQuoteOptions);
    Ok(())
}
