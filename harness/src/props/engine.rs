//! C07 lookahead, C08 next-byte hints, C09 alphabet compression, C10 exported table, C13 query history

use crate::cmp::{check_next, compare, note, nontriv, show, Opts};
use crate::gen::*;
use crate::props::lang::rewrite;
use crate::refa::{Classes, Dfa, RNode, BS};
use crate::runner::{guard, Arm, Ctx};
use crate::src::Src;
use derivre::raw::{DerivCache, NextByteCache, RelevanceCache};
use derivre::{AlphabetInfo, NextByte, Regex, RegexAst, RegexBuilder, StateID};
use std::collections::{HashMap, HashSet};

pub fn register(v: &mut Vec<Arm>) {
    v.push(Arm { prop: "C07", name: "pattern", quick: 50000, thorough: 750000, both: true,
        rule: "A(?P<stop>B) with random A, B patterns; breadth-first walk of (engine state, A state, set of B states with ages) comparing acceptance, reported length and deadness. Non-trivial: some input has an accepted split with a non-zero reported length and A has at least 2 live states.",
        f: c07_pat });
    v.push(Arm { prop: "C07", name: "builder", quick: 60000, thorough: 900000, both: true,
        rule: "Concat[A, LookAhead(B)] with builder trees incl. And/Not/Prefix-free complement operands, and unions of such alternatives; same walk. Non-trivial: as arm pattern.",
        f: c07_builder });
    v.push(Arm { prop: "C07", name: "long", quick: 1200, thorough: 18000, both: true,
        rule: "long texts: A = P F{i,j}, B = F{k,l} c (as pattern or tree) on P F^n c with n up to 100000: the reported length is computed from the counts; acceptance and length also one byte earlier, later, and with a foreign byte. Non-trivial: the text matches and the length is more than 250.",
        f: c07_long });
    v.push(Arm { prop: "C07", name: "plain", quick: 30000, thorough: 450000, both: true,
        rule: "lookahead-free expressions: every match reports 0 and every non-match reports nothing, in all reachable states. Non-trivial: minimal DFA has at least 3 states.",
        f: c07_plain });
    v.push(Arm { prop: "C08", name: "hints", quick: 200000, thorough: 3000000, both: true,
        rule: "builder trees biased to forced bytes (literals, unions of literals with common first byte, repeats, complements, lookaheads excluded); hint of every reachable state checked against the reference automaton and the engine's own transitions. Non-trivial: at least one state gave a forced hint.",
        f: c08 });
    v.push(Arm { prop: "C08", name: "lookahead", quick: 40000, thorough: 600000, both: true,
        rule: "the same for regexes with a trailing lookahead, oracle = the A/B configuration walk. Non-trivial: at least one forced hint.",
        f: c08_look });
    v.push(Arm { prop: "C08", name: "raw", quick: 100000, thorough: 1500000, both: true,
        rule: "raw NextByteCache on compiled stores: hints of random derivatives vs reference automaton over the compressed alphabet. Non-trivial: at least one forced hint.",
        f: c08_raw });
    v.push(Arm { prop: "C08", name: "wide", quick: 2000, thorough: 30000, both: true,
        rule: "unions of chains over 20..200 separately mentioned bytes and up to 8 groups of bytes that stay together, so that symbols of one and of several bytes get all numbers up to 255; same check as arm hints. Non-trivial: at least one state gave a forced hint.",
        f: c08_wide });
    v.push(Arm { prop: "C08", name: "algebra", quick: 20000, thorough: 300000, both: false,
        rule: "two or three random hints joined with | and & in any order and grouping, against the sets of next bytes and end they allow. Non-trivial: the hints differ.",
        f: c08_algebra });
    v.push(Arm { prop: "C09", name: "roots", quick: 60000, thorough: 900000, both: true,
        rule: "1-4 expressions compiled together: every root accepts the same bytes as before (raw derivative walk through the byte map against reference automata), symbol map well-formed, bytes sharing a symbol not distinguished, inverse map only for singleton symbols. Non-trivial: at least 3 symbols.",
        f: c09_roots });
    v.push(Arm { prop: "C09", name: "sizes", quick: 2500, thorough: 37500, both: true,
        rule: "expressions that mention many distinct bytes and/or more than 64 byte sets so that the compressed alphabet reaches 28..256 symbols (word boundaries 31/32/33/63/64/65, 255, 256); full product walk. Non-trivial: at least 28 symbols.",
        f: c09_sizes });
    v.push(Arm { prop: "C10", name: "table", quick: 100000, thorough: 1500000, both: true,
        rule: "random regexes exported after a random query prefix: shape, every row complete, table walk agrees with the engine along random and systematically explored strings, dead strings end in row 0, later answers unchanged. Non-trivial: at least 4 states.",
        f: c10 });
    v.push(Arm { prop: "C10", name: "many", quick: 6000, thorough: 90000, both: true,
        rule: "regexes with 60..245 states (byte-sized row numbers near the limit). Non-trivial: at least 100 states.",
        f: c10_many });
    v.push(Arm { prop: "C13", name: "history", quick: 100000, thorough: 1500000, both: true,
        rule: "random interleavings of transition/transition_bytes/is_accepting/lookahead_len/next_byte/is_match/dfa/clone on several clones; every answer compared with a fresh regex asked only that question, and state ids must be functional per clone. Non-trivial: at least 10 operations over at least 2 clones.",
        f: c13 });
    v.push(Arm { prop: "C13", name: "texts", quick: 40000, thorough: 600000, both: true,
        rule: "texts of up to 120 bytes, each made from an earlier one (extended, cut, one byte changed, inserted or removed, cut and continued), matched one after the other on one regex and its clones, through every matching call; every answer against a fresh regex asked only that. Non-trivial: both answers occur and at least three texts are longer than 16 bytes.",
        f: c13_texts });
    v.push(Arm { prop: "C13", name: "chain", quick: 400, thorough: 6000, both: true,
        rule: "repeated random words: regexes with up to 25000 states whose hint, length and successor are known by construction, asked in random, reversed and strided order, twice, on the regex and a clone, with or without walking the states again. Non-trivial: more than 300 states.",
        f: c13_chain });
    v.push(Arm { prop: "C13", name: "manystates", quick: 100, thorough: 1500, both: true,
        rule: "regexes with 2^9..2^19 states (the n-th symbol from the end), fed 3000..150000 random symbols: every step compared with the text, state and byte always give the same state, each state always the same acceptance, hint and length; walked again on a clone and on the same regex. Non-trivial: more than 500 states were visited.",
        f: c13_many });
}

// ------------------------------------------------------------------ C07

pub struct Look {
    a: Dfa,
    b: Dfa,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Cfg {
    /// per alternative: A state, sorted (B state, age)
    alts: Vec<(u32, Vec<(u32, u32)>)>,
}

fn look_norm(l: &Look, a: u32, mut v: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    if l.a.acc[a as usize] {
        v.push((l.b.start, 0));
    }
    v.retain(|(q, _)| l.b.live[*q as usize]);
    v.sort();
    // per B state only the smallest age matters
    v.dedup_by(|x, y| x.0 == y.0);
    v
}

pub fn cfg_start(ls: &[Look]) -> Cfg {
    Cfg {
        alts: ls
            .iter()
            .map(|l| (l.a.start, look_norm(l, l.a.start, vec![])))
            .collect(),
    }
}

pub fn cfg_step(ls: &[Look], c: &Cfg, sym: usize) -> Cfg {
    Cfg {
        alts: ls
            .iter()
            .zip(&c.alts)
            .map(|(l, (a, v))| {
                let a2 = l.a.step(*a, sym);
                let v2 = v.iter().map(|(q, n)| (l.b.step(*q, sym), n + 1)).collect();
                (a2, look_norm(l, a2, v2))
            })
            .collect(),
    }
}

pub fn cfg_len(ls: &[Look], c: &Cfg) -> Option<usize> {
    ls.iter()
        .zip(&c.alts)
        .flat_map(|(l, (_, v))| v.iter().filter(|(q, _)| l.b.acc[*q as usize]).map(|(_, n)| *n as usize))
        .min()
}

fn cfg_live(ls: &[Look], c: &Cfg) -> bool {
    ls.iter()
        .zip(&c.alts)
        .any(|(l, (a, v))| (l.a.live[*a as usize] && l.b.live[l.b.start as usize]) || !v.is_empty())
}

pub fn look_walk(rx: &mut Regex, ls: &[Look], cl: &Classes, ctx: &mut Ctx, next: bool) -> Result<bool, String> {
    let mut ids: HashMap<(StateID, Cfg), usize> = HashMap::new();
    let c0 = cfg_start(ls);
    let s0 = rx.initial_state();
    let mut nodes = vec![(s0, c0.clone(), 0usize, 0u8)];
    ids.insert((s0, c0), 0);
    let mut i = 0;
    let mut nonzero = false;
    let mut forced = false;
    while i < nodes.len() {
        let (s, c, _, _) = nodes[i].clone();
        let word = |nodes: &Vec<(StateID, Cfg, usize, u8)>| {
            let mut w = vec![];
            let mut j = i;
            while j != 0 {
                w.push(nodes[j].3);
                j = nodes[j].2;
            }
            w.reverse();
            w
        };
        let want = cfg_len(ls, &c);
        let got = rx.lookahead_len_for_state(s);
        if got != want {
            let w = word(&nodes);
            let direct = rx.lookahead_len_bytes(&w);
            return Err(format!(
                "lookahead length for {} is {:?} (lookahead_len_bytes: {:?}), expected {:?}",
                show(&w),
                got,
                direct,
                want
            ));
        }
        if rx.is_accepting(s) != want.is_some() {
            return Err(format!("is_accepting after {} disagrees with the lookahead length", show(&word(&nodes))));
        }
        if want.unwrap_or(0) > 0 {
            nonzero = true;
        }
        let live = cfg_live(ls, &c);
        if s.is_dead() == live {
            return Err(format!("after {} dead={} but live={}", show(&word(&nodes)), s.is_dead(), live));
        }
        let succ: Vec<Cfg> = (0..cl.k).map(|x| cfg_step(ls, &c, x)).collect();
        if next {
            let nb = rx.next_byte(s);
            let lv: Vec<bool> = succ.iter().map(|x| cfg_live(ls, x)).collect();
            let ok = match nb {
                NextByte::SomeBytes => !s.is_dead(),
                NextByte::Dead => s.is_dead(),
                NextByte::ForcedByte(b) => {
                    forced = true;
                    want.is_none()
                        && (0..=255u8).all(|x| x == b || (!lv[cl.of[x as usize] as usize] && rx.transition(s, x).is_dead()))
                }
                NextByte::ForcedEOI => {
                    forced = true;
                    want.is_some() && (0..=255u8).all(|x| !lv[cl.of[x as usize] as usize] && rx.transition(s, x).is_dead())
                }
            };
            if !ok {
                return Err(format!("unsound hint {:?} after {}", nb, show(&word(&nodes))));
            }
        }
        if nodes.len() < 600 {
            let mut last: Option<(StateID, u8)> = None;
            for b in 0..=255u8 {
                let t = rx.transition(s, b);
                let k = cl.of[b as usize];
                if last == Some((t, k)) {
                    continue;
                }
                last = Some((t, k));
                let key = (t, succ[k as usize].clone());
                if !ids.contains_key(&key) && nodes.len() < 1200 {
                    ids.insert(key.clone(), nodes.len());
                    nodes.push((key.0, key.1, i, b));
                }
            }
        } else {
            ctx.labels.entry("walk truncated (unbounded lengths)").or_insert(0);
        }
        i += 1;
    }
    if nodes.len() >= 600 {
        ctx.label("walk truncated (unbounded lengths)");
    }
    ctx.add("configurations explored", nodes.len() as u64);
    Ok(if next { forced } else { nonzero })
}

pub fn mk_looks(parts: &[(RNode, RNode)]) -> Option<(Vec<Look>, Classes)> {
    let refs: Vec<&RNode> = parts.iter().flat_map(|(a, b)| [a, b]).collect();
    let cl = Classes::for_nodes(&refs);
    let mut v = vec![];
    for (a, b) in parts {
        let a = Dfa::from_rnode(&cl, a).ok()?;
        let b = Dfa::from_rnode(&cl, &RNode::MinW(Box::new(b.clone()))).ok()?;
        v.push(Look { a, b });
    }
    Some((v, cl))
}

fn look_case(s: &mut Src, ctx: &mut Ctx, next: bool, builder: bool) -> Result<(), String> {
    let mut c = GCfg::full(s, 6);
    c.pool.truncate(3);
    c.unicode = !builder && s.chance(1, 8);
    let n_alt = if s.chance(1, 5) { 2 } else { 1 };
    if n_alt > 1 {
        ctx.label("union of lookahead alternatives");
    }
    let mut rx;
    let mut parts = vec![];
    if builder {
        let mut asts = vec![];
        let mut b = RegexBuilder::new();
        let mut descs = vec![];
        for _ in 0..n_alt {
            let ga = gen_g(s, &c);
            let mut gb = gen_g(s, &c);
            if n_alt > 1 {
                // only a single lookahead is documented; unions of lookaheads that match ""
                // report the length of another alternative (see DESIGN.md), so stay off them
                gb = G::Cat(vec![G::Byte(*s.pick(&c.pool)), gb]);
            }
            parts.push((ga.rnode(), gb.rnode()));
            descs.push(format!("{} LA({})", ga.show(), gb.show()));
            let (xa, xb) = guard("building", || -> Result<_, String> { Ok((ga.to_ast(&mut b)?, gb.to_ast(&mut b)?)) })??;
            asts.push(RegexAst::Concat(vec![xa, RegexAst::LookAhead(Box::new(xb))]));
        }
        ctx.desc = descs.join(" | ");
        let ast = if n_alt == 1 { asts.pop().unwrap() } else { RegexAst::Or(asts) };
        rx = guard("building", || b.mk(&ast).map(|e| b.to_regex(e)))?.map_err(|e| format!("rejected: {}", e))?;
    } else {
        let mut ps = vec![];
        let n_alt = 1;
        for _ in 0..n_alt {
            let pa = gen_pat(s, &c, 7);
            let pb = gen_pat(s, &c, 7);
            parts.push((pa.rnode(), pb.rnode()));
            let mut names = 0;
            let ta = pa.to_pattern_from(&mut names);
            let tb = pb.to_pattern_from(&mut names);
            ps.push(format!("(?:{})(?P<stop>{})", ta, tb));
        }
        let pat = ps.join("|");
        ctx.desc = format!("/{}/", pat);
        rx = guard("compile", || Regex::new(&pat))?.map_err(|e| format!("valid pattern rejected: {}", e))?;
    }
    let (ls, cl) = match mk_looks(&parts) {
        Some(x) => x,
        None => return ctx.discard("reference automaton too big"),
    };
    let r = look_walk(&mut rx, &ls, &cl, ctx, next)?;
    ctx.nontrivial = r && ls.iter().any(|l| l.a.live.iter().filter(|x| **x).count() >= 2 || next);
    // text API
    for _ in 0..3 {
        let w = gen_bytes(s, &c.pool, 7);
        let mut cfg = cfg_start(&ls);
        for b in &w {
            cfg = cfg_step(&ls, &cfg, cl.of[*b as usize] as usize);
        }
        let want = cfg_len(&ls, &cfg);
        let got = rx.lookahead_len_bytes(&w);
        if got != want {
            return Err(format!("lookahead_len_bytes({}) = {:?}, expected {:?}", show(&w), got, want));
        }
        if let Ok(t) = std::str::from_utf8(&w) {
            let got = rx.lookahead_len(t);
            if got != want {
                return Err(format!("lookahead_len({:?}) = {:?}, expected {:?}", t, got, want));
            }
            if rx.is_match(t) != want.is_some() {
                return Err(format!("is_match({:?}) = {}", t, want.is_none()));
            }
        }
    }
    Ok(())
}

fn c07_pat(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    look_case(s, ctx, false, false)
}
fn c07_builder(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    look_case(s, ctx, false, true)
}
fn c08_look(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let b = s.chance(1, 2);
    look_case(s, ctx, true, b)
}

/// A = P F{i,j} and B = F{k,l} c, so that the splits of P F^n c are counted, not searched
fn c07_long(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let p: &[u8] = s.pick(&[&b""[..], b"a", b"pq", b"bb"]);
    let f: &[u8] = s.pick(&[&b"b"[..], b"b", b"bd", b"xyz"]);
    let p = if p == b"bb" && f[0] == b'b' { &b"a"[..] } else { p };
    let big = |s: &mut Src| -> usize {
        match s.usize(12) {
            0..=5 => s.range(0, 40),
            6..=8 => s.range(40, 700),
            9 => (1 << s.range(5, 10)) + s.usize(4) - 2,
            10 => s.range(700, 9000),
            _ => 65_530 + s.range(0, 1000) * s.range(0, 30),
        }
    };
    let n = big(s);
    let i = if s.chance(1, 2) { 0 } else { s.range(0, 6) };
    let j = match s.usize(4) {
        0 => None,
        1 => Some(i),
        _ => Some(i + s.range(0, 6)),
    };
    let k = if s.chance(1, 2) { s.range(0, 3) } else { s.range(0, n.min(600)) };
    let l = match s.usize(3) {
        0 => Some(k + s.range(0, 300)),
        _ => None,
    };
    let pat = |x: &[u8]| String::from_utf8(x.to_vec()).unwrap();
    let cnt = |lo: usize, hi: Option<usize>| match hi {
        Some(h) => format!("{{{},{}}}", lo, h),
        None => format!("{{{},}}", lo),
    };
    let mut rx = if s.chance(1, 2) {
        let t = format!("{}({}){}(?P<stop>({}){}c)", pat(p), pat(f), cnt(i, j), pat(f), cnt(k, l));
        ctx.desc = format!("/{}/ n={}", t, n);
        guard("Regex::new", || Regex::new(&t))?.map_err(|e| e.to_string())?
    } else {
        let rep = |lo: usize, hi: Option<usize>| RegexAst::Repeat(Box::new(RegexAst::ByteLiteral(f.to_vec())), lo as u32, hi.map_or(u32::MAX, |h| h as u32));
        let t = RegexAst::Concat(vec![
            RegexAst::ByteLiteral(p.to_vec()),
            rep(i, j),
            RegexAst::LookAhead(Box::new(RegexAst::Concat(vec![rep(k, l), RegexAst::Byte(b'c')]))),
        ]);
        ctx.desc = format!("{:?} n={}", t, n);
        let mut b = RegexBuilder::new();
        let e = guard("mk", || b.mk(&t))?.map_err(|e| e.to_string())?;
        guard("to_regex", || b.to_regex(e))?
    };
    // the length for m fillers
    let want = |m: usize| -> Option<usize> {
        let t = j.unwrap_or(usize::MAX).min(m.checked_sub(k)?);
        if t < i || l.map_or(false, |l| m - t > l) {
            return None;
        }
        Some((m - t) * f.len() + 1)
    };
    let text = |m: usize| -> Vec<u8> {
        let mut w = p.to_vec();
        for _ in 0..m {
            w.extend_from_slice(f);
        }
        w.push(b'c');
        w
    };
    for m in [n, n + 1, n.saturating_sub(1), n / 2] {
        let w = text(m);
        let got = guard("lookahead_len_bytes", || rx.lookahead_len_bytes(&w))?;
        if got != want(m) {
            return Err(format!("{} fillers: reported length {:?}, expected {:?}", m, got, want(m)));
        }
        if want(m).unwrap_or(0) > 250 {
            ctx.nontrivial = true;
        }
        if got.is_some() != rx.is_match_bytes(&w) {
            return Err(format!("{} fillers: is_match and lookahead_len disagree", m));
        }
        // one byte less or more is no match
        let s0 = rx.initial_state();
        let st = rx.transition_bytes(s0, &w[..w.len() - 1]);
        if rx.is_accepting(st) || rx.lookahead_len_for_state(st).is_some() {
            return Err(format!("{} fillers without the end: accepted", m));
        }
        let st = rx.transition(st, b'c');
        if rx.lookahead_len_for_state(st) != want(m) {
            return Err(format!("{} fillers in two steps: {:?}, expected {:?}", m, rx.lookahead_len_for_state(st), want(m)));
        }
        let st = rx.transition(st, b'c');
        if !st.is_dead() {
            return Err(format!("{} fillers and two ends: not dead", m));
        }
        ctx.add("texts", 1);
    }
    Ok(())
}

fn c07_plain(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = GCfg::full(s, 8);
    let g = gen_g(s, &c);
    ctx.desc = g.show();
    let mut rx = build(&g)?;
    if let Some((d, _)) = crate::cmp::compare_r(
        &mut rx,
        &g.rnode(),
        Opts { la: true, ..Opts::LANG },
        ctx,
    )? {
        ctx.nontrivial = nontriv(&d);
    }
    Ok(())
}

fn build(g: &G) -> Result<Regex, String> {
    guard("building the expression", || -> Result<Regex, String> {
        let mut b = RegexBuilder::new();
        let e = g.build(&mut b)?;
        Ok(b.to_regex(e))
    })?
}

// ------------------------------------------------------------------ C08

fn gen_forced(s: &mut Src, c: &GCfg) -> G {
    // shapes that make forced hints likely
    let lit = |s: &mut Src| G::BLit((0..s.range(1, 4)).map(|_| *s.pick(&c.pool)).collect());
    match s.usize(8) {
        0 => G::Cat(vec![lit(s), gen_g(s, c), lit(s)]),
        1 => {
            let p = *s.pick(&c.pool);
            let n = s.range(2, 4);
            G::Or((0..n)
                .map(|_| {
                    let l = lit(s);
                    if s.chance(3, 4) {
                        G::Cat(vec![G::Byte(p), l])
                    } else {
                        l
                    }
                })
                .collect())
        }
        2 => {
            let (a, b) = gen_rep(s, 4);
            G::Cat(vec![G::Rep(Box::new(lit(s)), a, b), gen_g(s, c)])
        }
        3 => G::And(vec![G::Cat(vec![lit(s), gen_g(s, c)]), gen_g(s, c)]),
        4 => G::Cat(vec![gen_g(s, c), lit(s)]),
        5 => {
            let x = gen_g(s, c);
            G::Or(vec![x.clone(), G::Cat(vec![x, lit(s)])])
        }
        6 => G::Or(vec![
            G::Cat(vec![lit(s), G::And(vec![gen_g(s, c), gen_g(s, c)])]),
            lit(s),
        ]),
        _ => gen_g(s, c),
    }
}

fn c08(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 5);
    c.prefix = s.chance(1, 4);
    let g = gen_forced(s, &c);
    let g = if c.prefix { strip_prefix_andnot(&g) } else { g };
    c08_core(&g, ctx)
}

/// Alphabets of many symbols: each alternative is a chain of singletons and sets of bytes nothing else tells apart
fn c08_wide(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut bytes: Vec<u8> = (0..=255).collect();
    for i in 0..255 {
        let j = i + s.usize(256 - i);
        bytes.swap(i, j);
    }
    let ngroups = s.range(0, 8);
    let mut groups = vec![];
    let mut at = 0;
    for _ in 0..ngroups {
        let n = s.range(2, 5);
        let mut x = BS::EMPTY;
        for b in &bytes[at..at + n] {
            x.set(*b);
        }
        at += n;
        groups.push(G::Set(x));
    }
    let nsing = *s.pick(&[20usize, 33, 64, 65, 100, 128, 130, 150, 180, 200]);
    let singles: Vec<u8> = bytes[at..(at + nsing).min(256)].to_vec();
    let atom = |s: &mut Src| -> G {
        if !groups.is_empty() && s.chance(1, 3) {
            s.pick(&groups).clone()
        } else {
            G::Byte(*s.pick(&singles))
        }
    };
    let mut alts: Vec<G> = singles.chunks(2).map(|c| G::BLit(c.to_vec())).collect();
    for g in &groups {
        let mut v = vec![];
        for _ in 0..s.range(0, 2) {
            v.push(atom(s));
        }
        v.push(g.clone());
        for _ in 0..s.range(0, 2) {
            v.push(atom(s));
        }
        let k = s.usize(alts.len() + 1);
        let x = G::Cat(v);
        let x = if s.chance(1, 5) { G::Rep(Box::new(x), s.range(0, 2) as u32, 3) } else { x };
        alts.insert(k, x);
    }
    c08_core(&G::Or(alts), ctx)
}

fn c08_core(g: &G, ctx: &mut Ctx) -> Result<(), String> {
    ctx.desc = g.show();
    let mut rx = build(g)?;
    let r = g.rnode();
    let cl = Classes::for_nodes(&[&r]);
    let d = match Dfa::from_rnode(&cl, &r) {
        Ok(d) => d,
        Err(_) => return ctx.discard("reference automaton too big"),
    };
    // hints asked in exploration order, twice; then the language walk again (no later answer changes)
    let mut seen = HashSet::new();
    let s0 = rx.initial_state();
    let mut todo = vec![(s0, d.start, Vec::<u8>::new())];
    seen.insert((s0, d.start));
    let mut forced = 0u64;
    while let Some((st, q, w)) = todo.pop() {
        let h1 = check_next(&mut rx, &d, &cl, st, q).map_err(|e| format!("after {}: {}", show(&w), e))?;
        let h2 = rx.next_byte(st);
        if h1 != h2 {
            return Err(format!("hint after {} changed from {:?} to {:?}", show(&w), h1, h2));
        }
        if st.is_dead() && h1 != NextByte::Dead {
            return Err(format!("dead state has hint {:?}", h1));
        }
        match h1 {
            NextByte::ForcedByte(_) => {
                forced += 1;
                ctx.label("forced byte hints")
            }
            NextByte::ForcedEOI => {
                forced += 1;
                ctx.label("forced end hints")
            }
            _ => {}
        }
        if seen.len() > 1500 {
            continue;
        }
        for b in 0..=255u8 {
            let t = rx.transition(st, b);
            let r = d.step(q, cl.of[b as usize] as usize);
            if seen.insert((t, r)) {
                let mut w2 = w.clone();
                w2.push(b);
                todo.push((t, r, w2));
            }
        }
    }
    ctx.nontrivial = forced > 0 && nontriv(&d);
    let st = compare(&mut rx, &d, &cl, Opts::DEAD).map_err(|e| format!("after asking hints: {}", e))?;
    note(ctx, &d, &st);
    Ok(())
}

fn c08_algebra(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let gen = |s: &mut Src| match s.usize(6) {
        0 => NextByte::SomeBytes,
        1 => NextByte::Dead,
        2 => NextByte::ForcedEOI,
        3 => NextByte::ForcedByte(*s.pick(&[0, 1, 255])),
        _ => NextByte::ForcedByte(s.byte()),
    };
    // 0..=255: a byte, 256: the end
    let allows = |h: NextByte, x: u32| match h {
        NextByte::SomeBytes => true,
        NextByte::Dead => false,
        NextByte::ForcedEOI => x == 256,
        NextByte::ForcedByte(b) => x == b as u32,
    };
    let v: Vec<NextByte> = (0..s.range(2, 3)).map(|_| gen(s)).collect();
    ctx.desc = format!("{:?}", v);
    ctx.nontrivial = v[0] != v[1];
    for h in &v {
        if *h | *h != *h || *h & *h != *h {
            return Err(format!("joining {:?} with itself changes it", h));
        }
    }
    for rev in [false, true] {
        for right in [false, true] {
            let mut w = v.clone();
            if rev {
                w.reverse();
            }
            let (or, and) = if right {
                let l = *w.last().unwrap();
                let r = w[..w.len() - 1].iter().rev();
                (r.clone().fold(l, |a, h| *h | a), r.fold(l, |a, h| *h & a))
            } else {
                let r = w[1..].iter();
                (r.clone().fold(w[0], |a, h| a | *h), r.fold(w[0], |a, h| a & *h))
            };
            for x in 0..=256 {
                if v.iter().any(|h| allows(*h, x)) && !allows(or, x) {
                    return Err(format!("{:?} joined with | is {:?}, which excludes {}", w, or, x));
                }
                if v.iter().all(|h| allows(*h, x)) && !allows(and, x) {
                    return Err(format!("{:?} joined with & is {:?}, which excludes {}", w, and, x));
                }
            }
        }
    }
    Ok(())
}

fn strip_prefix_andnot(g: &G) -> G {
    crate::props::lang::clean(g)
}

fn c08_raw(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = GCfg::full(s, 5);
    let g = gen_forced(s, &c);
    ctx.desc = g.show();
    let r = g.rnode();
    let cl = Classes::for_nodes(&[&r]);
    let d = match Dfa::from_rnode(&cl, &r) {
        Ok(d) => d,
        Err(_) => return ctx.discard("reference automaton too big"),
    };
    let mut b = RegexBuilder::new();
    let e = guard("building", || g.build(&mut b))??;
    let (alpha, mut es, v) = guard("from_exprset", || AlphabetInfo::from_exprset(b.exprset(), &[e]))?;
    let mut dc = DerivCache::new();
    let mut nb = NextByteCache::new();
    let mut cur = v[0];
    let mut q = d.start;
    let mut w = vec![];
    let mut forced = false;
    for _ in 0..12 {
        let h = nb.next_byte(&es, cur);
        let h2 = NextByteCache::new().next_byte(&es, cur);
        if h != h2 {
            return Err(format!("hint after {} depends on the cache: {:?} vs {:?}", show(&w), h, h2));
        }
        let acc = d.acc[q as usize];
        let live_sym = |x: usize| -> bool {
            (0..=255u8).any(|b| alpha.map(b) == x && d.live[d.step(q, cl.of[b as usize] as usize) as usize])
        };
        let ok = match h {
            NextByte::SomeBytes => true,
            NextByte::Dead => !d.live[q as usize],
            NextByte::ForcedByte(x) => {
                forced = true;
                !acc && (0..alpha.len()).all(|y| y == x as usize || !live_sym(y))
            }
            NextByte::ForcedEOI => {
                forced = true;
                acc && (0..alpha.len()).all(|y| !live_sym(y))
            }
        };
        if !ok {
            return Err(format!("unsound raw hint {:?} after {}", h, show(&w)));
        }
        // continue along live bytes mostly
        let live: Vec<u8> = (0..=255u8)
            .filter(|b| d.live[d.step(q, cl.of[*b as usize] as usize) as usize])
            .collect();
        let b = if live.is_empty() || s.chance(1, 10) { s.byte() } else { *s.pick(&live) };
        w.push(b);
        cur = dc.derivative(&mut es, cur, alpha.map(b) as u8);
        q = d.step(q, cl.of[b as usize] as usize);
    }
    ctx.nontrivial = forced;
    Ok(())
}

// ------------------------------------------------------------------ C09

fn alpha_wf(alpha: &AlphabetInfo, atoms: &[BS]) -> Result<(), String> {
    let n = alpha.len();
    if n == 0 || n > 256 {
        return Err(format!("alphabet size {}", n));
    }
    let mut members: Vec<Vec<u8>> = vec![vec![]; 256];
    for b in 0..=255u8 {
        let m = alpha.map(b);
        if m >= n {
            return Err(format!("byte {:#x} has symbol {} but the alphabet size is {}", b, m, n));
        }
        members[m].push(b);
    }
    for (m, v) in members.iter().enumerate().take(n) {
        let inv = alpha.inv_map(m);
        match inv {
            Some(b) if v.len() == 1 && v[0] == b => {}
            Some(b) => return Err(format!("inv_map({}) = {:#x} but the symbol's bytes are {:x?}", m, b, v)),
            None => {
                // permitted: the inverse is only promised to be right when given
            }
        }
    }
    if alpha.has_error() {
        return Err("has_error() on a fresh alphabet".into());
    }
    let _ = atoms;
    // the table position of (state, byte): the same for bytes that share a symbol, different otherwise
    for st in [0u32, 1, 2, 3, 127, 128, 255, 256, 65_535, 65_536, 1 << 20] {
        let st = StateID::new(st);
        for b in 0..=255u8 {
            let i = alpha.map_state(st, b);
            if i != alpha.map(b) + st.as_usize() * n {
                return Err(format!("map_state({:?}, {:#x}) = {} with {} symbols, the byte's symbol is {}", st, b, i, n, alpha.map(b)));
            }
        }
    }
    Ok(())
}

fn c09_roots(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 6);
    c.wide = 3;
    c.unicode = s.chance(1, 6);
    let n = s.range(1, 4);
    let gs: Vec<G> = (0..n).map(|_| gen_g(s, &c)).collect();
    ctx.desc = gs.iter().map(|g| g.show()).collect::<Vec<_>>().join(" ; ");
    let mut b = RegexBuilder::new();
    let mut refs = vec![];
    for g in &gs {
        refs.push(guard("building", || g.build(&mut b))??);
    }
    let (alpha, mut es, roots) = guard("from_exprset", || AlphabetInfo::from_exprset(b.exprset(), &refs))?;
    if roots.len() != refs.len() {
        return Err(format!("{} roots in, {} out", refs.len(), roots.len()));
    }
    let mut atoms = vec![];
    let rn: Vec<RNode> = gs.iter().map(|g| g.rnode()).collect();
    rn.iter().for_each(|r| r.atoms(&mut atoms));
    alpha_wf(&alpha, &atoms)?;
    if es.alphabet_size() != alpha.len() {
        return Err(format!("store alphabet {} but reported size {}", es.alphabet_size(), alpha.len()));
    }
    ctx.nontrivial = alpha.len() >= 3;
    if alpha.len() < 256 {
        ctx.label("alphabet smaller than 256");
    }
    let mut dc = DerivCache::new();
    for (g, (r, root)) in gs.iter().zip(rn.iter().zip(&roots)) {
        let cl = Classes::for_nodes(&[r]);
        let d = match Dfa::from_rnode(&cl, r) {
            Ok(d) => d,
            Err(_) => {
                ctx.label("one root skipped: reference too big");
                continue;
            }
        };
        // raw derivative walk
        let mut seen = HashSet::new();
        let mut todo = vec![(*root, d.start, Vec::<u8>::new())];
        seen.insert((*root, d.start));
        while let Some((e, q, w)) = todo.pop() {
            if es.is_nullable(e) != d.acc[q as usize] {
                return Err(format!(
                    "root {}: {} is {}accepted after compression, expected the opposite",
                    g.show(),
                    show(&w),
                    if d.acc[q as usize] { "not " } else { "" }
                ));
            }
            if seen.len() > 400 {
                ctx.label("state cap hit (explored partially)");
                break;
            }
            let mut by_sym: HashMap<usize, derivre::ExprRef> = HashMap::new();
            for x in 0..=255u8 {
                let sym = alpha.map(x);
                let t = *by_sym
                    .entry(sym)
                    .or_insert_with(|| dc.derivative(&mut es, e, sym as u8));
                let nq = d.step(q, cl.of[x as usize] as usize);
                if seen.insert((t, nq)) {
                    let mut w2 = w.clone();
                    w2.push(x);
                    todo.push((t, nq, w2));
                }
            }
        }
    }
    // the original references still compile alone to the same language
    let i = s.usize(n);
    let mut rx = guard("to_regex", || b.to_regex(refs[i]))?;
    crate::cmp::compare_r(&mut rx, &rn[i], Opts::LANG, ctx)?;
    ctx.discard = None;
    Ok(())
}

fn c09_sizes(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let target = match s.weighted(&[4, 2, 1, 1]) {
        0 => *s.pick(&[29usize, 30, 31, 32, 33, 62, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129]),
        1 => s.range(1, 256),
        2 => *s.pick(&[250usize, 254, 255, 256]),
        _ => s.range(200, 256),
    };
    // choose `target` bytes in random order
    let mut bytes: Vec<u8> = (0..=255).collect();
    for i in 0..target.min(255) {
        let j = i + s.usize(256 - i);
        bytes.swap(i, j);
    }
    bytes.truncate(target);
    let singles = s.chance(1, 2);
    let mut c = GCfg::full(s, 5);
    c.pool = bytes.iter().copied().take(8).collect();
    let g1 = if singles {
        // individually mentioned bytes
        match s.usize(4) {
            0 => G::BLit(bytes.clone()),
            1 => G::Or(
                bytes
                    .chunks(3)
                    .map(|ch| G::BLit(ch.to_vec()))
                    .collect(),
            ),
            2 => G::Cat(vec![
                G::Or(bytes.iter().map(|b| G::Cat(vec![G::Byte(*b), G::Byte(*b)])).collect()),
                gen_g(s, &c),
            ]),
            _ => G::Rep(
                Box::new(G::Or(
                    bytes.chunks(2).map(|ch| G::BLit(ch.to_vec())).collect(),
                )),
                0,
                3,
            ),
        }
    } else {
        // byte sets: nested ranges, sliding windows or random sets (possibly more than 64 of them)
        let m = s.range(5, 150);
        let kind = s.usize(3);
        let sets: Vec<BS> = (0..m)
            .map(|i| match kind {
                0 => {
                    let mut x = BS::EMPTY;
                    for b in bytes.iter().take(1 + (i + 1) * bytes.len() / m) {
                        x.set(*b);
                    }
                    x
                }
                1 => {
                    let mut x = BS::EMPTY;
                    for b in bytes.iter().skip(i % bytes.len()).take(3) {
                        x.set(*b);
                    }
                    x
                }
                _ => {
                    let mut x = BS::EMPTY;
                    for j in 0..4 {
                        x.0[j] = s.u64() & s.u64();
                    }
                    x
                }
            })
            .collect();
        match s.usize(3) {
            0 => G::Cat(sets.into_iter().map(G::Set).collect()),
            1 => {
                let n = sets.len();
                G::Or(
                    (0..n)
                        .map(|i| G::Cat(vec![G::Set(sets[i]), G::Set(sets[(i + 1) % n])]))
                        .collect(),
                )
            }
            _ => G::Cat(vec![
                G::Rep(Box::new(G::Cat(sets.into_iter().take(12).map(G::Set).collect())), 0, 2),
                gen_g(s, &c),
            ]),
        }
    };
    let g = match s.usize(5) {
        0 => G::Not(Box::new(g1)),
        1 => G::And(vec![g1.clone(), G::Not(Box::new(gen_g(s, &c)))]),
        2 => {
            let y = gen_g(s, &c);
            G::Or(vec![g1, G::Not(Box::new(G::Cat(vec![G::Not(Box::new(y.clone())), y])))])
        }
        3 => {
            let y = gen_g(s, &c);
            let z = gen_g(s, &c);
            G::And(vec![
                G::Not(Box::new(G::Cat(vec![y, G::Not(Box::new(z.clone()))]))),
                G::Not(Box::new(G::Or(vec![g1, G::Not(Box::new(rewrite(s, &z, 2)))]))),
            ])
        }
        _ => g1,
    };
    ctx.desc = format!("target {} {}", target, g.show());
    let mut b = RegexBuilder::new();
    let e = guard("building", || g.build(&mut b))??;
    let mut rx = guard("to_regex", || b.to_regex(e))?;
    let n = rx.alpha().len();
    alpha_wf(&rx.alpha().clone(), &[])?;
    ctx.nontrivial = n >= 28;
    match n {
        31 => ctx.label("31 symbols"),
        32 => ctx.label("32 symbols"),
        33 => ctx.label("33 symbols"),
        63..=65 => ctx.label("63-65 symbols"),
        255 => ctx.label("255 symbols"),
        256 => ctx.label("256 symbols"),
        100..=254 => ctx.label("100-254 symbols"),
        _ => {}
    }
    crate::cmp::compare_r(&mut rx, &g.rnode(), Opts { cap: 400, ..Opts::DEAD }, ctx)?;
    Ok(())
}

// ------------------------------------------------------------------ C10

pub fn count_states(rx: &mut Regex, cap: usize) -> Option<Vec<(StateID, Vec<u8>)>> {
    let s0 = rx.initial_state();
    let mut seen = HashSet::new();
    let mut v = vec![(s0, vec![])];
    seen.insert(s0);
    let mut i = 0;
    while i < v.len() {
        let (s, w) = v[i].clone();
        for b in 0..=255u8 {
            let t = rx.transition(s, b);
            if seen.insert(t) {
                let mut w2 = w.clone();
                w2.push(b);
                v.push((t, w2));
                if v.len() > cap {
                    return None;
                }
            }
        }
        i += 1;
    }
    Some(v)
}

fn table_check(rx: &mut Regex, fresh: &Regex, s: &mut Src, pool: &[u8]) -> Result<(), String> {
    let tab = guard("dfa()", || rx.dfa())?;
    let n = rx.alpha().len();
    if tab.len() < 256 || (tab.len() - 256) % n != 0 {
        return Err(format!("table has {} bytes: not 256 + rows of {}", tab.len(), n));
    }
    let rows = (tab.len() - 256) / n;
    for (b, m) in tab[..256].iter().enumerate() {
        if *m as usize >= n {
            return Err(format!("byte {:#x} maps to symbol {} of {}", b, m, n));
        }
    }
    for (i, x) in tab[256..].iter().enumerate() {
        if *x as usize >= rows {
            return Err(format!("row {} refers to row {} but there are {} rows", i / n, x, rows));
        }
    }
    let step = |st: usize, b: u8| -> usize { tab[256 + st * n + tab[b as usize] as usize] as usize };
    // every reachable state of the exported regex, all bytes
    let mut seen = HashSet::new();
    let s0 = rx.initial_state();
    let mut todo = vec![(s0, s0.as_usize(), Vec::<u8>::new())];
    seen.insert((s0, s0.as_usize()));
    while let Some((st, row, w)) = todo.pop() {
        if st.as_usize() != row {
            return Err(format!("after {} the table is in row {} but the regex in state {:?}", show(&w), row, st));
        }
        if st.is_dead() != (row == 0) {
            return Err(format!("after {}: dead={} row={}", show(&w), st.is_dead(), row));
        }
        for b in 0..=255u8 {
            let t = rx.transition(st, b);
            let r = step(row, b);
            if seen.insert((t, r)) {
                let mut w2 = w.clone();
                w2.push(b);
                todo.push((t, r, w2));
            }
        }
    }
    // strings: acceptance through the table equals acceptance of a regex that was never exported
    let mut f = fresh.clone();
    for _ in 0..10 {
        let w = gen_bytes(s, pool, 12);
        let mut row = s0.as_usize();
        for b in &w {
            row = step(row, *b);
        }
        let st = StateID::new(row as u32);
        let want = f.is_match_bytes(&w);
        if rx.is_accepting(st) != want {
            return Err(format!("table walk of {} ends in a state with accepting={}, a fresh regex says {}", show(&w), !want, want));
        }
        if rx.is_match_bytes(&w) != want {
            return Err(format!("after dfa(), is_match_bytes({}) changed to {}", show(&w), !want));
        }
        let fs = f.initial_state();
        let fs = f.transition_bytes(fs, &w);
        if fs.is_dead() != (row == 0) {
            return Err(format!("{}: fresh regex dead={}, table row {}", show(&w), fs.is_dead(), row));
        }
        if f.next_byte(fs) != rx.next_byte(st) {
            return Err(format!("{}: hint {:?} in a fresh regex, {:?} after export", show(&w), f.next_byte(fs), rx.next_byte(st)));
        }
    }
    // exporting again gives the same table
    let tab2 = guard("dfa() again", || rx.dfa())?;
    if tab2 != tab {
        return Err("exporting twice gives different tables".into());
    }
    Ok(())
}

fn c10(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let c = GCfg::full(s, 8);
    let g = gen_g(s, &c);
    ctx.desc = g.show();
    let rx0 = build(&g)?;
    c10_run(s, ctx, rx0, &c.pool, 4)
}

fn c10_run(s: &mut Src, ctx: &mut Ctx, rx0: Regex, pool: &[u8], min: usize) -> Result<(), String> {
    let st = match count_states(&mut rx0.clone(), 245) {
        Some(v) => v,
        None => return ctx.discard("too many states to export"),
    };
    ctx.nontrivial = st.len() >= min;
    ctx.add("states exported", st.len() as u64);
    let mut rx = rx0.clone();
    // queries before exporting
    match s.usize(4) {
        0 => {}
        1 => {
            for _ in 0..s.range(1, 6) {
                let w = gen_bytes(s, pool, 8);
                rx.is_match_bytes(&w);
            }
            ctx.label("queried before export");
        }
        2 => {
            let s0 = rx.initial_state();
            let mut q = s0;
            for _ in 0..s.range(1, 10) {
                let b = if s.chance(1, 4) { s.byte() } else { *s.pick(pool) };
                q = rx.transition(q, b);
                rx.next_byte(q);
                if s.chance(1, 3) {
                    let d = rx.transition(StateID::DEAD, b);
                    rx.is_accepting(d);
                }
            }
            ctx.label("queried before export");
        }
        _ => {
            // everything explored
            let _ = count_states(&mut rx, 245);
            ctx.label("queried before export");
        }
    }
    table_check(&mut rx, &rx0, s, pool)
}

fn c10_many(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = s.range(60, 240) as u32;
    let g = match s.usize(5) {
        0 => G::Rep(Box::new(G::Byte(b'a')), n, n),
        1 => G::Rep(Box::new(G::Set(BS::range(b'a', b'f'))), s.below(n as u64) as u32, n),
        2 => {
            let w: Vec<u8> = (0..n).map(|i| b'a' + ((i * 7 + i / 5) % 26) as u8).collect();
            G::Or(vec![G::BLit(w), G::BLit(b"zz".to_vec())])
        }
        3 => {
            let k = s.range(20, 60);
            G::Or(
                (0..k)
                    .map(|_| G::BLit((0..s.range(2, 6)).map(|_| b'a' + s.below(8) as u8).collect()))
                    .collect(),
            )
        }
        _ => G::Cat(vec![
            G::Rep(Box::new(G::Set(BS::range(b'0', b'9'))), 1, n / 2),
            G::Byte(b'.'),
            G::Rep(Box::new(G::Set(BS::range(b'0', b'9'))), 0, n / 2),
        ]),
    };
    ctx.desc = g.show();
    let rx0 = build(&g)?;
    c10_run(s, ctx, rx0, b"abcdef019.z", 100)
}

// ------------------------------------------------------------------ C13

fn c13(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 6);
    c.pool.truncate(4);
    let look = s.chance(1, 3);
    let mut b = RegexBuilder::new();
    let g = gen_g(s, &c);
    let fresh = if look {
        let gb = gen_g(s, &c);
        ctx.desc = format!("{} LA({})", g.show(), gb.show());
        guard("building", || -> Result<Regex, String> {
            let (x, y) = (g.to_ast(&mut b)?, gb.to_ast(&mut b)?);
            let e = b
                .mk(&RegexAst::Concat(vec![x, RegexAst::LookAhead(Box::new(y))]))
                .map_err(|e| format!("{}", e))?;
            Ok(b.to_regex(e))
        })??
    } else {
        ctx.desc = g.show();
        guard("building", || -> Result<Regex, String> {
            let e = g.build(&mut b)?;
            Ok(b.to_regex(e))
        })??
    };
    struct Cl {
        rx: Regex,
        /// strings known to lead to a state
        known: Vec<(Vec<u8>, StateID)>,
        by_word: HashMap<Vec<u8>, StateID>,
        trans: HashMap<(StateID, u8), StateID>,
    }
    let mut first = fresh.clone();
    let s0 = first.initial_state();
    let mut cls = vec![Cl {
        rx: first,
        known: vec![(vec![], s0)],
        by_word: HashMap::from([(vec![], s0)]),
        trans: HashMap::new(),
    }];
    // answers of a fresh regex asked only that question
    let f_la = |w: &[u8]| fresh.clone().lookahead_len_bytes(w);
    let f_state = |w: &[u8]| -> (bool, Option<usize>, bool) {
        let mut r = fresh.clone();
        let st = r.initial_state();
        let st = r.transition_bytes(st, w);
        (r.is_accepting(st), r.lookahead_len_for_state(st), st.is_dead())
    };
    let f_nb = |w: &[u8]| -> NextByte {
        let mut r = fresh.clone();
        let st = r.initial_state();
        let st = r.transition_bytes(st, w);
        r.next_byte(st)
    };
    let nops = s.range(10, 40);
    let mut log = String::new();
    let small = count_states(&mut fresh.clone(), 100).is_some();
    for _ in 0..nops {
        let ci = s.usize(cls.len());
        let op = s.weighted(&[8, 3, 4, 4, 4, 4, 1, 2]);
        let ki = s.usize(cls[ci].known.len());
        let (w, st) = cls[ci].known[ki].clone();
        let rd = |s: &mut Src| -> u8 { if s.chance(1, 8) { s.byte() } else { *s.pick(&c.pool) } };
        match op {
            0 => {
                let b = rd(s);
                log.push_str(&format!(" c{}.step({},{:#x})", ci, show(&w), b));
                let cl = &mut cls[ci];
                let t = cl.rx.transition(st, b);
                if let Some(old) = cl.trans.get(&(st, b)) {
                    if *old != t {
                        return Err(format!("transition changed: {:?} by {:#x} was {:?}, now {:?};{}", st, b, old, t, log));
                    }
                }
                cl.trans.insert((st, b), t);
                let mut w2 = w.clone();
                w2.push(b);
                if let Some(old) = cl.by_word.get(&w2) {
                    if *old != t {
                        return Err(format!("{} led to {:?} before, now to {:?};{}", show(&w2), old, t, log));
                    }
                }
                if w2.len() < 14 {
                    cl.by_word.insert(w2.clone(), t);
                    cl.known.push((w2, t));
                }
            }
            1 => {
                let n = s.range(0, 5);
                let x: Vec<u8> = (0..n).map(|_| rd(s)).collect();
                log.push_str(&format!(" c{}.bytes({},{})", ci, show(&w), show(&x)));
                let cl = &mut cls[ci];
                let t = cl.rx.transition_bytes(st, &x);
                // the same byte by byte
                let mut u = st;
                for b in &x {
                    u = cl.rx.transition(u, *b);
                }
                if u != t {
                    return Err(format!("{} from {:?}: at once {:?}, byte by byte {:?};{}", show(&x), st, t, u, log));
                }
                let mut w2 = w.clone();
                w2.extend(&x);
                if let Some(old) = cl.by_word.get(&w2) {
                    if *old != t {
                        return Err(format!("{} led to {:?} before, now to {:?};{}", show(&w2), old, t, log));
                    }
                }
                if w2.len() < 14 {
                    cl.by_word.insert(w2.clone(), t);
                    cl.known.push((w2, t));
                }
            }
            2 => {
                log.push_str(&format!(" c{}.acc({})", ci, show(&w)));
                let (a, l, d) = f_state(&w);
                let cl = &mut cls[ci];
                let ord = s.chance(1, 2);
                let (ga, gl) = if ord {
                    let x = cl.rx.is_accepting(st);
                    (x, cl.rx.lookahead_len_for_state(st))
                } else {
                    let y = cl.rx.lookahead_len_for_state(st);
                    (cl.rx.is_accepting(st), y)
                };
                if (ga, gl, st.is_dead()) != (a, l, d) {
                    return Err(format!(
                        "state after {}: accepting/len/dead {:?}, a fresh regex says {:?};{}",
                        show(&w),
                        (ga, gl, st.is_dead()),
                        (a, l, d),
                        log
                    ));
                }
            }
            3 => {
                log.push_str(&format!(" c{}.next({})", ci, show(&w)));
                let want = f_nb(&w);
                let got = cls[ci].rx.next_byte(st);
                if got != want {
                    return Err(format!("hint after {}: {:?}, a fresh regex says {:?};{}", show(&w), got, want, log));
                }
            }
            4 | 5 => {
                let mut x = w.clone();
                for _ in 0..s.range(0, 4) {
                    x.push(rd(s));
                }
                log.push_str(&format!(" c{}.match({})", ci, show(&x)));
                let want = f_la(&x);
                let cl = &mut cls[ci];
                let got = if op == 4 { cl.rx.lookahead_len_bytes(&x) } else { want };
                let m = cl.rx.is_match_bytes(&x);
                if got != want || m != want.is_some() {
                    return Err(format!(
                        "{}: lookahead_len_bytes {:?} is_match_bytes {}, a fresh regex says {:?};{}",
                        show(&x),
                        got,
                        m,
                        want,
                        log
                    ));
                }
                if let Ok(t) = std::str::from_utf8(&x) {
                    if cl.rx.lookahead_len(t) != want {
                        return Err(format!("lookahead_len({:?}) differs from a fresh regex;{}", t, log));
                    }
                }
            }
            6 => {
                if small {
                    log.push_str(&format!(" c{}.dfa", ci));
                    guard("dfa()", || cls[ci].rx.dfa())?;
                }
            }
            _ => {
                if cls.len() < 4 {
                    log.push_str(&format!(" c{}=clone(c{})", cls.len(), ci));
                    let o = &cls[ci];
                    let n = Cl {
                        rx: o.rx.clone(),
                        known: o.known.clone(),
                        by_word: o.by_word.clone(),
                        trans: o.trans.clone(),
                    };
                    cls.push(n);
                }
            }
        }
    }
    ctx.nontrivial = nops >= 10 && cls.len() >= 2;
    if cls.len() >= 2 {
        ctx.label("used clones");
    }
    if look {
        ctx.label("with lookahead");
    }
    ctx.desc.push_str(&crate::runner::clip(&log, 400));
    // finally: every known (word, state) is still right in its clone, and equal states answer equally
    for (ci, cl) in cls.iter_mut().enumerate() {
        let known = cl.known.clone();
        let mut by_state: HashMap<StateID, (Option<usize>, NextByte)> = HashMap::new();
        for (w, st) in known {
            let r0 = cl.rx.initial_state();
            let st2 = cl.rx.transition_bytes(r0, &w);
            if st2 != st {
                return Err(format!("c{}: {} now leads to {:?}, before to {:?};{}", ci, show(&w), st2, st, log));
            }
            let l = cl.rx.lookahead_len_for_state(st);
            let nb = cl.rx.next_byte(st);
            if l != f_la(&w) {
                return Err(format!("c{}: final length after {} is {:?}, fresh {:?};{}", ci, show(&w), l, f_la(&w), log));
            }
            if let Some(o) = by_state.get(&st) {
                if *o != (l, nb) {
                    return Err(format!("c{}: state {:?} gives different answers;{}", ci, st, log));
                }
            }
            by_state.insert(st, (l, nb));
        }
    }
    let _ = RelevanceCache::new();
    Ok(())
}

fn c13_many(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = s.range(8, 18);
    let len = *s.pick(&[3000usize, 10_000, 10_000, 30_000, 60_000, 150_000]);
    let kind = s.usize(3);
    let seed = s.u64();
    let pat = match kind {
        0 => format!("[ab]*a[ab]{{{}}}", n),
        1 => format!("(?:a|b|c)*[ab](?:a|b|c){{{}}}", n),
        _ => format!("[a-d]*(?:a[a-d]{{{}}}|c[a-d]{{{}}})", n, n / 2),
    };
    ctx.desc = format!("/{}/ {} symbols seed {:x}", pat, len, seed);
    let mut rx = guard("compile", || Regex::new(&pat))?.map_err(|e| e.to_string())?;
    let fresh = rx.clone();
    let mut x = seed;
    let k = [2u64, 3, 4][kind];
    let text: Vec<u8> = (0..len).map(|_| b'a' + (crate::src::splitmix(&mut x) % k) as u8).collect();
    // acceptance after i symbols
    let want = |i: usize| -> bool {
        let at = |d: usize| if i > d { text[i - 1 - d] } else { 0 };
        match kind {
            0 => at(n) == b'a',
            1 => at(n) == b'a' || at(n) == b'b',
            _ => at(n) == b'a' || at(n / 2) == b'c',
        }
    };
    let mut trans: HashMap<(StateID, u8), StateID> = HashMap::new();
    let mut info: HashMap<StateID, (Option<usize>, NextByte)> = HashMap::new();
    let mut path = Vec::with_capacity(len + 1);
    let mut st = rx.initial_state();
    path.push(st);
    for i in 1..=len {
        let b = text[i - 1];
        let t = guard("transition", || rx.transition(st, b))?;
        if *trans.entry((st, b)).or_insert(t) != t {
            return Err(format!("symbol {}: the same state and byte gave another state", i));
        }
        st = t;
        path.push(st);
        let la = rx.lookahead_len_for_state(st);
        if la != if want(i) { Some(0) } else { None } {
            return Err(format!("after {} symbols: length {:?}, expected acceptance {}", i, la, want(i)));
        }
        if st.is_dead() {
            return Err(format!("dead after {} symbols", i));
        }
        let hint = rx.next_byte(st);
        if *info.entry(st).or_insert((la, hint)) != (la, hint) {
            return Err(format!("after {} symbols: the answers of a state changed", i));
        }
        if hint != NextByte::SomeBytes {
            return Err(format!("after {} symbols: hint {:?} although every symbol is possible", i, hint));
        }
    }
    // the same regex again, in pieces
    let mut st = rx.initial_state();
    let mut at = 0;
    let mut cl = rx.clone();
    while at < len {
        let m = 1 + (crate::src::splitmix(&mut x) % 997) as usize;
        let to = (at + m).min(len);
        let t = rx.transition_bytes(st, &text[at..to]);
        if t != path[to] {
            return Err(format!("walking again: another state after {} symbols", to));
        }
        let t2 = cl.transition_bytes(st, &text[at..to]);
        if t2 != t {
            return Err(format!("walking a clone: another state after {} symbols", to));
        }
        if rx.is_accepting(t) != want(to) || cl.is_accepting(t) != want(to) {
            return Err(format!("walking again: wrong acceptance after {} symbols", to));
        }
        st = t;
        at = to;
    }
    let mut f = fresh.clone();
    if f.is_match_bytes(&text) != want(len) || rx.is_match_bytes(&text) != want(len) {
        return Err("is_match_bytes on the whole text".into());
    }
    if info.len() > 500 {
        ctx.nontrivial = true;
    }
    ctx.add("states", info.len() as u64);
    Ok(())
}

fn c13_texts(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 5);
    c.pool = vec![b'a', b'b', b'1'];
    c.wide = 1;
    let n = s.range(1, 4);
    let star = |g: G| G::Rep(Box::new(g), 0, u32::MAX);
    let any = || star(G::Set(BS::range(0, 255)));
    let ab = || G::Set({
        let mut x = BS::EMPTY;
        x.set(b'a');
        x.set(b'b');
        x
    });
    let g = match s.usize(8) {
        0 => G::Cat(vec![star(ab()), G::Byte(b'a'), G::Rep(Box::new(ab()), n as u32, n as u32)]),
        1 => star(gen_g(s, &c)),
        2 => G::Not(Box::new(G::Cat(vec![any(), gen_g(s, &c), any()]))),
        3 => G::Cat(vec![any(), gen_g(s, &c)]),
        4 => G::Cat(vec![star(ab()), G::Rep(Box::new(G::Byte(b'1')), n as u32, n as u32 + 1)]),
        5 => {
            // the number of a's modulo n + 1
            let bs = star(G::Byte(b'b'));
            let one = G::Cat(vec![bs.clone(), G::Byte(b'a')]);
            G::Cat(vec![star(G::Rep(Box::new(one), n as u32 + 1, n as u32 + 1)), bs])
        }
        6 => G::Or(vec![star(G::Cat(vec![ab(), gen_g(s, &c)])), G::Cat(vec![any(), G::Byte(b'1')])]),
        _ => G::Cat(vec![gen_g(s, &c), any(), gen_g(s, &c)]),
    };
    let look = s.chance(1, 4);
    let mut b = RegexBuilder::new();
    let fresh = guard("building", || -> Result<Regex, String> {
        let x = g.to_ast(&mut b)?;
        let e = if look {
            let y = RegexAst::Regex(s.pick(&["b*a", "1", "[ab]{2}1", "(?:ab|1)+"]).to_string());
            b.mk(&RegexAst::Concat(vec![x, RegexAst::LookAhead(Box::new(y))]))
        } else {
            b.mk(&x)
        }
        .map_err(|e| e.to_string())?;
        Ok(b.to_regex(e))
    })??;
    ctx.desc = format!("{}{}", g.show(), if look { " LA" } else { "" });
    let sym = |s: &mut Src| -> u8 { if s.chance(1, 200) { s.byte() } else { *s.pick(b"aaabbb1") } };
    let len = s.range(10, 60);
    let mut texts: Vec<Vec<u8>> = vec![(0..len).map(|_| sym(s)).collect()];
    let mut cls = vec![fresh.clone()];
    let (mut yes, mut no, mut long) = (0, 0, 0);
    for k in 0..s.range(6, 18) {
        let mut t = s.pick(&texts).clone();
        if k > 0 && s.chance(1, 2) {
            t = texts.last().unwrap().clone();
        }
        match s.usize(8) {
            0 | 1 => {
                for _ in 0..s.range(1, 20) {
                    t.push(sym(s));
                }
            }
            2 => {
                let n = s.usize(t.len() + 1);
                t.truncate(n);
            }
            3 if !t.is_empty() => {
                let i = s.usize(t.len());
                t[i] = sym(s);
            }
            4 => {
                let i = s.usize(t.len() + 1);
                t.insert(i, sym(s));
            }
            5 if !t.is_empty() => {
                let i = s.usize(t.len());
                t.remove(i);
            }
            6 => {
                let n = s.usize(t.len() + 1);
                t.truncate(n);
                for _ in 0..s.range(1, 40) {
                    t.push(sym(s));
                }
            }
            _ => {}
        }
        t.truncate(120);
        if s.chance(1, 8) && cls.len() < 4 {
            let x = s.pick(&cls).clone();
            cls.push(x);
        }
        let ci = s.usize(cls.len());
        let want = fresh.clone().lookahead_len_bytes(&t);
        if want.is_some() {
            yes += 1
        } else {
            no += 1
        }
        if t.len() > 16 {
            long += 1
        }
        let rx = &mut cls[ci];
        let got = match s.usize(4) {
            0 => rx.lookahead_len_bytes(&t),
            1 => {
                if rx.is_match_bytes(&t) != want.is_some() {
                    return Err(format!("text {} on clone {}: is_match_bytes is {} , a fresh regex says {:?}", show(&t), ci, want.is_none(), want));
                }
                want
            }
            2 => {
                let st = rx.initial_state();
                let st = rx.transition_bytes(st, &t);
                rx.lookahead_len_for_state(st)
            }
            _ => match std::str::from_utf8(&t) {
                Ok(u) => rx.lookahead_len(u),
                Err(_) => rx.lookahead_len_bytes(&t),
            },
        };
        if got != want {
            return Err(format!("text {} on clone {}: {:?}, a fresh regex says {:?}; before it: {}", show(&t), ci, got, want, texts.iter().map(|t| show(t)).collect::<Vec<_>>().join(" ")));
        }
        texts.push(t);
    }
    ctx.nontrivial = yes > 0 && no > 0 && long >= 3;
    Ok(())
}

fn c13_chain(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let w: Vec<u8> = (0..s.range(1, 9)).map(|_| b'a' + s.below(5) as u8).collect();
    let m = *s.pick(&[40usize, 300, 600, 1200, 2900]);
    let end = *s.pick(&[b'a', b'z']);
    let total = m * w.len();
    let pat = format!("(?:{}){{{}}}{}", String::from_utf8_lossy(&w), m, end as char);
    ctx.desc = format!("/{}/", pat);
    let mut rx = guard("compile", || Regex::new(&pat))?.map_err(|e| e.to_string())?;
    let byte = |i: usize| if i < total { w[i % w.len()] } else { end };
    let mut path = vec![rx.initial_state()];
    let early = s.chance(1, 2);
    for i in 0..=total {
        if early && i % 3 == 0 {
            rx.next_byte(path[i]);
        }
        let t = rx.transition(path[i], byte(i));
        path.push(t);
    }
    ctx.nontrivial = total > 300;
    let mut cl = rx.clone();
    let check = |rx: &mut Regex, i: usize, how: usize| -> Result<(), String> {
        let st = path[i];
        let last = i == total + 1;
        if how & 1 == 0 {
            let want = if last { NextByte::ForcedEOI } else { NextByte::ForcedByte(byte(i)) };
            let got = rx.next_byte(st);
            if got != want {
                return Err(format!("after {} of {} bytes: hint {:?}, expected {:?}", i, total + 1, got, want));
            }
        }
        if how & 2 == 0 {
            let want = if last { Some(0) } else { None };
            let got = rx.lookahead_len_for_state(st);
            if got != want {
                return Err(format!("after {} of {} bytes: length {:?}, expected {:?}", i, total + 1, got, want));
            }
        }
        if how & 4 == 0 && !last {
            let got = rx.transition(st, byte(i));
            if got != path[i + 1] {
                return Err(format!("after {} of {} bytes: the successor was {:?}, now {:?}", i, total + 1, path[i + 1], got));
            }
            let x = rx.transition(st, b'!');
            if !x.is_dead() {
                return Err(format!("after {} of {} bytes: ! leads to {:?}", i, total + 1, x));
            }
        }
        Ok(())
    };
    let n = total + 2;
    let mut x = s.u64();
    for _ in 0..s.range(2, 4) {
        let how = s.usize(7);
        let r = if s.chance(1, 3) { &mut cl } else { &mut rx };
        match s.usize(4) {
            0 => {
                for i in (0..n).rev() {
                    check(r, i, how)?;
                }
            }
            1 => {
                for _ in 0..n {
                    check(r, (crate::src::splitmix(&mut x) % n as u64) as usize, how)?;
                }
            }
            2 => {
                let step = s.range(2, 1000);
                for k in 0..step {
                    for i in (k..n).step_by(step) {
                        check(r, i, how)?;
                    }
                }
            }
            _ => {
                for i in 0..n {
                    check(r, i, how)?;
                }
            }
        }
    }
    Ok(())
}
