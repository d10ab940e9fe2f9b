//! Language-level properties: C01 C02 C03 C04 C05 C06 C15 C22

use crate::cmp::{compare, compare_r, nontriv, note, show, Opts};
use crate::gen::*;
use crate::refa::{Classes, Dfa, RNode, BS};
use crate::runner::{guard, Arm, Ctx};
use crate::src::Src;
use crate::wild::{self, Flags};
use derivre::{Regex, RegexAst, RegexBuilder};

pub fn register(v: &mut Vec<Arm>) {
    v.push(Arm { prop: "C01", name: "ast", quick: 120000, thorough: 1800000, both: true,
        rule: "random pattern syntax trees (literals, classes, groups, alternation, greedy/lazy counted repetition, outer anchors) rendered to a pattern string; reference automaton built from the tree by textbook constructions; exact product walk over all 256 bytes. Non-trivial: minimal reference DFA has at least 3 states.",
        f: c01_ast });
    v.push(Arm { prop: "C01", name: "syntax", quick: 15000, thorough: 225000, both: true,
        rule: "patterns over the wider surface syntax (perl/posix/unicode classes, class set operations, inline flags, named captures, byte mode, parser flags); meaning = independent lowering of the parsed HIR to a reference automaton; exact product walk. Non-trivial: minimal reference DFA has at least 3 states.",
        f: c01_wild });
    v.push(Arm { prop: "C02", name: "combinators", quick: 250000, thorough: 3750000, both: true,
        rule: "random builder expression trees over all combinators incl. empty operand lists, shared sub-expressions and ExprRef nodes; reference automaton by product/subset constructions; exact product walk. Non-trivial: contains at least two combinator nodes and the minimal DFA has at least 3 states.",
        f: c02 });
    v.push(Arm { prop: "C02", name: "bigcounts", quick: 5000, thorough: 75000, both: true,
        rule: "builder trees with large repetition counts (up to hundreds) and long literals; exact product walk. Non-trivial: minimal DFA has at least 10 states.",
        f: c02_big });
    v.push(Arm { prop: "C02", name: "wide", quick: 3000, thorough: 45000, both: true,
        rule: "very wide builder nodes: literals and byte literals of up to 5000 bytes (lengths around powers of two), concatenations, unions and intersections of up to 700 operands, repetitions of literals whose count is up to 1000; expected answers computed directly from the construction for the word, its one-byte changes, prefixes, extensions and shifts. Non-trivial: every case.",
        f: c02_wide });
    v.push(Arm { prop: "C03", name: "dead", quick: 200000, thorough: 3000000, both: true,
        rule: "intersection/complement-heavy builder trees; always_empty and deadness of every reachable state compared with liveness in the reference automaton. Non-trivial: expression contains And/Not and the minimal DFA has at least 3 states or is empty.",
        f: c03 });
    v.push(Arm { prop: "C03", name: "look", quick: 60000, thorough: 900000, both: true,
        rule: "A LookAhead(B), or a union of two such, where A and B often are empty or have dead branches only the emptiness search can see; as languages A followed by the prefix-minimal words of B; always_empty and deadness of every reached state against the reference automaton. Non-trivial: the expression contains And/Not and the minimal DFA has at least 3 states or is empty.",
        f: c03_look });
    v.push(Arm { prop: "C03", name: "relations", quick: 100000, thorough: 1500000, both: true,
        rule: "emptiness by construction: X and-not rewritten-X, X & not X, disjoint prefixes/lengths/suffixes, nested differences; always_empty and dead states vs reference. Non-trivial: as stated for arm dead.",
        f: c03_rel });
    v.push(Arm { prop: "C04", name: "patterns", quick: 40000, thorough: 600000, both: true,
        rule: "pattern pairs (second mutated from the first: widened, narrowed, rewritten, or independent); is_contained_in and mk_contained_in vs reference automaton inclusion and difference. Non-trivial: both languages non-empty and patterns differ.",
        f: c04_pat });
    v.push(Arm { prop: "C04", name: "trees", quick: 100000, thorough: 1500000, both: true,
        rule: "pairs of builder trees; mk_contained_in_ast and RegexAst::contained_in compared with the reference difference. Non-trivial: both languages non-empty and trees differ.",
        f: c04_ast });
    v.push(Arm { prop: "C05", name: "monotone", quick: 80000, thorough: 1200000, both: true,
        rule: "And/Not expressions compiled under increasing fuel limits: every success must equal the unlimited result (emptiness verdict and full product walk for the smallest success), success must be monotone in fuel; same for is_contained_in and for a raw emptiness cache reused after a failure. Non-trivial: at least one limit failed.",
        f: c05_mono });
    v.push(Arm { prop: "C05", name: "expensive", quick: 400, thorough: 6000, both: true,
        rule: "containment families that need exponentially many derivatives (n-th symbol from the end): limits far below must give an error. Non-trivial: every case.",
        f: c05_exp });
    v.push(Arm { prop: "C05", name: "later", quick: 400, thorough: 6000, both: true,
        rule: "a limit that suffices for an And/Not expression or a containment query in a fresh builder suffices, with a generous margin, in a builder that has done a lot of other work (60000..700000 units of cost) before, and is charged anew for every call. Non-trivial: the margin is far below the earlier work.",
        f: c05_later });
    v.push(Arm { prop: "C06", name: "prefixes", quick: 150000, thorough: 2250000, both: true,
        rule: "Prefixes over And/Not-free operands, itself nested and composed with all combinators; exact product walk against the reference prefix closure, incl. deadness. Non-trivial: contains Prefixes over a non-empty language with a word of length 2 or more.",
        f: c06 });
    v.push(Arm { prop: "C06", name: "sandwich", quick: 40000, thorough: 600000, both: true,
        rule: "Prefixes over operands with And/Not: accepted words lie between the operand's language and its true prefix closure (the exact equality fails there: see known finding). Non-trivial: minimal DFA of the operand has at least 3 states.",
        f: c06_sandwich });
    v.push(Arm { prop: "C15", name: "classes", quick: 100000, thorough: 1500000, both: true,
        rule: "random code point classes (ranges at encoding boundaries, negation, union, intersection, difference, symmetric difference) with own set arithmetic and own UTF-8 automaton; exact product walk decides all 1.1M code points and all ill-formed sequences at once. Non-trivial: class neither empty nor everything.",
        f: c15_cls });
    v.push(Arm { prop: "C15", name: "props", quick: 6000, thorough: 90000, both: true,
        rule: "named properties, perl/posix classes, case-insensitive letters, dot; sets from the regex-syntax tables; exact product walk. Non-trivial: class neither empty nor everything.",
        f: c15_props });
    v.push(Arm { prop: "C15", name: "utf8", quick: 20000, thorough: 300000, both: true,
        rule: "patterns in default mode: product with a hand-written UTF-8 automaton: no ill-formed match, and no live state on a prefix of no well-formed text. Non-trivial: at least 8 reachable product states.",
        f: c15_utf8 });
    v.push(Arm { prop: "C22", name: "pattern", quick: 60000, thorough: 900000, both: true,
        rule: "random keyword sets (duplicates, shared prefixes, keywords that are prefixes of others, permuted) as alternation patterns with optional common tail; exact product walk with the trie automaton incl. deadness. Non-trivial: at least 3 distinct keywords.",
        f: c22_pat });
    v.push(Arm { prop: "C22", name: "builder", quick: 80000, thorough: 1200000, both: true,
        rule: "the same with the builder (Or of literals / concatenations incl. classes and shared sub-expressions). Non-trivial: at least 3 distinct keywords.",
        f: c22_builder });
    v.push(Arm { prop: "C22", name: "huge", quick: 80, thorough: 1200, both: true,
        rule: "2000..40000 random keywords (stores of more than 65536 expressions), random families (uniform, shared prefixes, numbered identifiers), as pattern or builder union; keywords, their prefixes, extensions and one-byte mutations asked, oracle = sorted keyword list. Non-trivial: every case.",
        f: c22_huge });
    v.push(Arm { prop: "C22", name: "deep", quick: 1000, thorough: 15000, both: true,
        rule: "keyword sets whose trie branches at more than 100 depths (chains a, ab, abc, .. and combs), and large dictionaries of hundreds of words. Non-trivial: every case.",
        f: c22_deep });
}

/// a few direct string queries, including text API and piecewise stepping
pub fn spot(s: &mut Src, rx: &mut Regex, d: &Dfa, cl: &Classes, reps: &[u8]) -> Result<(), String> {
    for _ in 0..3 {
        let mut w = gen_bytes(s, reps, 8);
        // bias to matches: extend by a shortest completion
        let q = d.run(cl, &w);
        if s.chance(1, 2) {
            if let Some(t) = d.shortest_from(cl, q) {
                w.extend(t);
            }
        }
        let want = d.accepts(cl, &w);
        let got = rx.is_match_bytes(&w);
        if got != want {
            return Err(format!("is_match_bytes({}) = {}, expected {}", show(&w), got, want));
        }
        if let Ok(t) = std::str::from_utf8(&w) {
            let got = rx.is_match(t);
            if got != want {
                return Err(format!("is_match({:?}) = {}, expected {}", t, got, want));
            }
        }
        let cut = if w.is_empty() { 0 } else { s.usize(w.len() + 1) };
        let s0 = rx.initial_state();
        let s1 = rx.transition_bytes(s0, &w[..cut]);
        let s2 = rx.transition_bytes(s1, &w[cut..]);
        if rx.is_accepting(s2) != want {
            return Err(format!("stepping {} in two pieces ends accepting={}, expected {}", show(&w), !want, want));
        }
    }
    Ok(())
}

fn c01_ast(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 8);
    c.unicode = s.chance(1, 2);
    let size = if s.chance(1, 8) { 16 } else { 9 };
    let p = gen_pat(s, &c, size);
    let mut pat = p.to_pattern();
    let wrap = s.weighted(&[5, 1, 1, 1]);
    if wrap & 1 != 0 {
        pat = format!("^(?:{})", pat);
    }
    if wrap & 2 != 0 {
        pat = if wrap & 1 != 0 { format!("{}$", pat) } else { format!("(?:{})$", pat) };
    }
    if wrap != 0 {
        ctx.label("outer anchors");
    }
    ctx.desc = format!("/{}/", pat);
    let use_builder = s.chance(1, 2);
    let mut rx = guard("compile", || -> anyhow::Result<Regex> {
        if use_builder {
            let mut b = RegexBuilder::new();
            let e = b.mk_regex(&pat)?;
            Ok(b.to_regex(e))
        } else {
            Regex::new(&pat)
        }
    })?
    .map_err(|e| format!("valid pattern rejected: {}", e))?;
    if let Some((d, cl)) = compare_r(&mut rx, &p.rnode(), Opts::LANG, ctx)? {
        ctx.nontrivial = nontriv(&d);
        spot(s, &mut rx, &d, &cl, &c.pool)?;
    }
    Ok(())
}

fn c01_wild(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let f = Flags::gen(s);
    let mut names = 0;
    let size = s.range(1, 8);
    let mut pat = wild::gen_wild(s, &f, size, &mut names);
    if s.chance(1, 4) {
        pat = match s.usize(4) {
            0 => format!("^(?:{})", pat),
            1 => format!("(?:{})$", pat),
            2 => format!("^(?:{})$", pat),
            _ => format!("(^a|(?:{}))", pat),
        };
    }
    ctx.desc = format!("/{}/ {}", pat, f.show());
    let hir = match f.parser().parse(&pat) {
        Ok(h) => h,
        Err(_) => return ctx.discard("pattern rejected by the regex-syntax parser"),
    };
    let r = match wild::lower(&hir, true, true) {
        Ok(r) => r,
        Err(_) => return ctx.discard("inner assertion"),
    };
    let use_builder = s.chance(1, 2);
    let mut rx = guard("compile", || -> anyhow::Result<Regex> {
        if use_builder {
            let mut b = RegexBuilder::new();
            f.apply(&mut b);
            let e = b.mk_regex(&pat)?;
            Ok(b.to_regex(e))
        } else {
            Regex::new_with_parser(f.parser(), &pat)
        }
    })?
    .map_err(|e| format!("valid pattern rejected: {}", e))?;
    if !f.unicode || !f.utf8 {
        ctx.label("byte mode");
    }
    if let Some((d, cl)) = compare_r(&mut rx, &r, Opts::LANG, ctx)? {
        ctx.nontrivial = nontriv(&d);
        spot(s, &mut rx, &d, &cl, b"ab0 \xc3\xa9")?;
    }
    Ok(())
}

fn compile(g: &G) -> Result<Regex, String> {
    guard("building the expression", || -> Result<Regex, String> {
        let mut b = RegexBuilder::new();
        let e = g.build(&mut b)?;
        Ok(b.to_regex(e))
    })?
}

pub fn comb_count(g: &G) -> usize {
    match g {
        G::And(v) | G::Or(v) | G::Cat(v) => 1 + v.iter().map(comb_count).sum::<usize>(),
        G::Not(x) | G::Rep(x, _, _) | G::Prefix(x) => 1 + comb_count(x),
        G::Ref(x) => comb_count(x),
        _ => 0,
    }
}

fn label_g(g: &G, ctx: &mut Ctx) {
    if g.any(&|x| matches!(x, G::And(_))) {
        ctx.label("has And");
    }
    if g.any(&|x| matches!(x, G::Not(_))) {
        ctx.label("has Not");
    }
    if g.any(&|x| matches!(x, G::Rep(..))) {
        ctx.label("has Repeat");
    }
    if g.any(&|x| matches!(x, G::Ref(_))) {
        ctx.label("has ExprRef");
    }
    if g.any(&|x| matches!(x, G::And(v) | G::Or(v) | G::Cat(v) if v.is_empty())) {
        ctx.label("has empty operand list");
    }
    if g.any(&|x| matches!(x, G::Rx(_))) {
        ctx.label("has embedded pattern");
    }
}

fn c02(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 9);
    c.prefix = s.chance(1, 10);
    c.unicode = s.chance(1, 8);
    if s.chance(1, 10) {
        c.max_size = 14;
    }
    let g = gen_pfx(s, &c);
    ctx.desc = g.show();
    label_g(&g, ctx);
    let mut rx = compile(&g)?;
    if let Some((d, cl)) = compare_r(&mut rx, &g.rnode(), Opts::LANG, ctx)? {
        ctx.nontrivial = comb_count(&g) >= 2 && nontriv(&d);
        spot(s, &mut rx, &d, &cl, &c.pool)?;
    }
    Ok(())
}

fn c02_big(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 3);
    c.not = false;
    c.and = false;
    c.max_rep = 2;
    let n = s.range(1, 3);
    let mut parts = vec![];
    for _ in 0..n {
        parts.push(match s.usize(4) {
            0 => {
                let lo = s.range(0, 120) as u32;
                let hi = match s.usize(3) {
                    0 => u32::MAX,
                    1 => lo.max(1),
                    _ => lo + s.range(1, 200) as u32,
                };
                G::Rep(Box::new(G::Set(gen_set(s, &c))), lo, hi)
            }
            1 => {
                let e = gen_g(s, &c);
                let lo = s.range(0, 30) as u32;
                let hi = lo + s.range(1, 40) as u32;
                G::Rep(Box::new(e), lo, hi)
            }
            2 => {
                let m = s.range(1, 200);
                let a = *s.pick(&c.pool);
                let b = *s.pick(&c.pool);
                G::BLit((0..m).map(|i| if i % 7 == 3 { b } else { a }).collect())
            }
            _ => gen_g(s, &c),
        });
    }
    let g = match s.usize(4) {
        0 => G::Or(parts),
        1 => G::And(vec![
            G::Cat(parts),
            G::Rep(Box::new(G::Set(BS::FULL)), s.range(0, 60) as u32, s.range(60, 250) as u32),
        ]),
        _ => G::Cat(parts),
    };
    ctx.desc = g.show();
    let mut rx = compile(&g)?;
    if let Some((d, cl)) = compare_r(&mut rx, &g.rnode(), Opts::LANG, ctx)? {
        ctx.nontrivial = d.n() >= 10;
        spot(s, &mut rx, &d, &cl, &c.pool)?;
    }
    Ok(())
}

/// Wide nodes whose language is known from the construction: a fixed word w, w repeated n..m times, a union of words,
/// a concatenation of sets, an intersection of "some byte at position i" constraints.
fn c02_wide(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let len = |s: &mut Src, max: usize| -> usize {
        let l = match s.usize(3) {
            0 => {
                let p = 1usize << s.range(4, 12);
                (p + 2).saturating_sub(s.usize(5))
            }
            1 => s.range(1, 300),
            _ => s.range(1, 5000),
        };
        l.clamp(1, max)
    };
    let word = |s: &mut Src, n: usize| -> Vec<u8> {
        match s.usize(4) {
            0 => vec![b'a' + s.usize(3) as u8; n],
            1 => (0..n).map(|i| b'a' + (i % 7) as u8).collect(),
            2 => (0..n).map(|_| s.byte()).collect(),
            _ => (0..n).map(|_| b'a' + s.usize(3) as u8).collect(),
        }
    };
    let mut b = RegexBuilder::new();
    let kind = s.usize(6);
    // the membership test and a member to vary
    let (ast, member, base): (RegexAst, Box<dyn Fn(&[u8]) -> bool>, Vec<u8>) = match kind {
        0 => {
            // one literal, in one of several spellings
            let n = len(s, 5000);
            let w = word(s, n);
            let ast = match s.usize(4) {
                0 => RegexAst::ByteLiteral(w.clone()),
                1 => match String::from_utf8(w.clone()) {
                    Ok(t) => RegexAst::Literal(t),
                    Err(_) => RegexAst::ByteLiteral(w.clone()),
                },
                2 => RegexAst::Concat(w.iter().map(|x| RegexAst::Byte(*x)).collect()),
                _ => {
                    let k = s.usize(w.len() + 1);
                    RegexAst::Concat(vec![RegexAst::ByteLiteral(w[..k].to_vec()), RegexAst::ByteLiteral(w[k..].to_vec())])
                }
            };
            let w2 = w.clone();
            (ast, Box::new(move |x| x == w2), w)
        }
        1 => {
            // a concatenation of sets
            let n = len(s, 700);
            let c = GCfg::full(s, 2);
            let few: Vec<BS> = (0..s.range(1, 4)).map(|_| gen_set(s, &c)).filter(|x| x.len() > 0).collect();
            if few.is_empty() {
                return ctx.discard("no set");
            }
            let sets: Vec<BS> = (0..n).map(|_| *s.pick(&few)).collect();
            let base: Vec<u8> = sets.iter().map(|x| *s.pick(&x.bytes())).collect();
            let ast = RegexAst::Concat(sets.iter().map(|x| RegexAst::ByteSet(x.words())).collect());
            (ast, Box::new(move |x| x.len() == sets.len() && x.iter().zip(&sets).all(|(b, s)| s.has(*b))), base)
        }
        2 => {
            // a union of words
            let n = len(s, 700);
            let ws: std::collections::BTreeSet<Vec<u8>> = (0..n)
                .map(|_| {
                    let k = s.range(0, 6);
                    word(s, k)
                })
                .collect();
            let mut v: Vec<Vec<u8>> = ws.iter().cloned().collect();
            let base = s.pick(&v).clone();
            for i in (1..v.len()).rev() {
                let j = s.usize(i + 1);
                v.swap(i, j);
            }
            let ast = RegexAst::Or(v.into_iter().map(RegexAst::ByteLiteral).collect());
            (ast, Box::new(move |x| ws.contains(x)), base)
        }
        3 => {
            // many constraints at once: position i carries a byte of set i (one operand each), length n
            let n = s.range(2, 40);
            let c = GCfg::full(s, 2);
            let mut cons: Vec<(usize, BS)> = vec![];
            for _ in 0..s.range(1, 30) {
                let x = gen_set(s, &c);
                if x.len() > 0 {
                    cons.push((s.usize(n), x));
                }
            }
            let any = || Box::new(RegexAst::ByteSet(BS::FULL.words()));
            let mut v: Vec<RegexAst> = cons
                .iter()
                .map(|(i, x)| {
                    RegexAst::Concat(vec![
                        RegexAst::Repeat(any(), *i as u32, *i as u32),
                        RegexAst::ByteSet(x.words()),
                        RegexAst::Repeat(any(), 0, u32::MAX),
                    ])
                })
                .collect();
            v.push(RegexAst::Repeat(any(), n as u32, n as u32));
            let base: Vec<u8> = (0..n)
                .map(|i| {
                    let mut m = BS::FULL;
                    for (j, x) in &cons {
                        if *j == i {
                            m = m.and(x);
                        }
                    }
                    let v = m.bytes();
                    if v.is_empty() {
                        b'a'
                    } else {
                        *s.pick(&v)
                    }
                })
                .collect();
            let cons2 = cons.clone();
            (RegexAst::And(v), Box::new(move |x| x.len() == n && cons2.iter().all(|(i, y)| y.has(x[*i]))), base)
        }
        4 => {
            // a repeated word
            let k = s.range(1, 6);
            let w = word(s, k);
            let lo = len(s, 1000);
            let hi = match s.usize(4) {
                0 => u32::MAX,
                1 => lo as u32,
                _ => lo as u32 + s.range(1, 300) as u32,
            };
            let n = lo + if hi as usize > lo && s.chance(1, 2) { s.range(0, 3).min(hi as usize - lo) } else { 0 };
            let base: Vec<u8> = w.iter().cycle().take(n * k).cloned().collect();
            let ast = RegexAst::Repeat(Box::new(RegexAst::ByteLiteral(w.clone())), lo as u32, hi);
            (
                ast,
                Box::new(move |x| {
                    x.len() % w.len() == 0
                        && x.len() / w.len() >= lo
                        && (hi == u32::MAX || x.len() / w.len() <= hi as usize)
                        && x.chunks(w.len()).all(|c| c == &w[..])
                }),
                base,
            )
        }
        _ => {
            // the complement of a word with a common frame
            let n = len(s, 2000);
            let w = word(s, n);
            let w2 = w.clone();
            (RegexAst::Not(Box::new(RegexAst::ByteLiteral(w.clone()))), Box::new(move |x| x != &w2[..]), w)
        }
    };
    ctx.desc = crate::runner::clip(&format!("kind {} base {} {:?}", kind, show(&base), ast), 400);
    ctx.label(["literal", "sets", "union", "constraints", "repeat", "complement"][kind]);
    ctx.nontrivial = true;
    let e = guard("mk", || b.mk(&ast))?.map_err(|e| format!("rejected: {}", e))?;
    let mut rx = guard("to_regex", || b.to_regex(e))?;
    let mut ws: Vec<Vec<u8>> = vec![base.clone(), vec![]];
    let near = |s: &mut Src, n: usize| -> usize {
        // positions near the ends, powers of two, or anywhere
        match s.usize(4) {
            0 => s.usize(3).min(n),
            1 => n - s.usize(3).min(n),
            2 => {
                let p = (1usize << s.range(4, 12)) + 1;
                (p - s.usize(3)).min(n)
            }
            _ => s.usize(n + 1),
        }
    };
    for _ in 0..12 {
        let mut w = base.clone();
        for _ in 0..s.range(1, 2) {
            let i = near(s, w.len());
            match s.usize(5) {
                0 => w.insert(i, b'a' + s.usize(3) as u8),
                1 if i < w.len() => {
                    w.remove(i);
                }
                2 if i < w.len() => w[i] = w[i].wrapping_add(1 + s.usize(3) as u8),
                3 => w.truncate(i),
                _ => {
                    if i < w.len() {
                        let x = w[i];
                        w.insert(i, x)
                    }
                }
            }
        }
        ws.push(w);
    }
    for w in ws {
        let want = member(&w);
        let got = rx.is_match_bytes(&w);
        ctx.add(if want { "members" } else { "non-members" }, 1);
        if got != want {
            return Err(format!(
                "is_match_bytes = {}, expected {} for {} ({} bytes; first difference from the base at {:?})",
                got,
                want,
                crate::runner::clip(&show(&w), 300),
                w.len(),
                w.iter().zip(&base).position(|(a, b)| a != b)
            ));
        }
    }
    Ok(())
}

fn dead_checks(s: &mut Src, g: &G, c: &GCfg, ctx: &mut Ctx) -> Result<(), String> {
    ctx.desc = g.show();
    label_g(g, ctx);
    let mut rx = compile(g)?;
    for b in 0..=255u8 {
        if rx.transition(derivre::StateID::DEAD, b) != derivre::StateID::DEAD {
            return Err(format!("byte {:#x} leaves the dead state", b));
        }
    }
    if rx.is_accepting(derivre::StateID::DEAD) {
        return Err("the dead state accepts".into());
    }
    if let Some((d, cl)) = compare_r(&mut rx, &g.rnode(), Opts::DEAD, ctx)? {
        ctx.nontrivial = g.has_andnot() && (nontriv(&d) || d.is_empty());
        spot(s, &mut rx, &d, &cl, &c.pool)?;
    }
    Ok(())
}

fn c03(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 9);
    c.rx = s.chance(1, 3);
    if s.chance(1, 2) {
        c.pool.truncate(2);
    }
    if s.chance(1, 10) {
        c.max_size = 13;
    }
    let g = gen_g(s, &c);
    dead_checks(s, &g, &c, ctx)
}

/// language-preserving rewriting
pub fn rewrite(s: &mut Src, g: &G, depth: usize) -> G {
    if depth == 0 {
        return g.clone();
    }
    let g2 = match g {
        G::And(v) => {
            let mut w: Vec<G> = v.iter().map(|x| rewrite(s, x, depth - 1)).collect();
            if s.chance(1, 2) {
                w.reverse();
            }
            if s.chance(1, 3) {
                // De Morgan
                G::Not(Box::new(G::Or(w.into_iter().map(|x| G::Not(Box::new(x))).collect())))
            } else {
                G::And(w)
            }
        }
        G::Or(v) => {
            let mut w: Vec<G> = v.iter().map(|x| rewrite(s, x, depth - 1)).collect();
            if s.chance(1, 2) {
                w.reverse();
            }
            if s.chance(1, 3) {
                G::Not(Box::new(G::And(w.into_iter().map(|x| G::Not(Box::new(x))).collect())))
            } else {
                G::Or(w)
            }
        }
        G::Cat(v) => {
            let w: Vec<G> = v.iter().map(|x| rewrite(s, x, depth - 1)).collect();
            if w.len() >= 2 && s.chance(1, 3) {
                // distribute over a union in front
                if let G::Or(alts) = &w[0] {
                    let rest = w[1..].to_vec();
                    G::Or(
                        alts.iter()
                            .map(|a| {
                                let mut t = vec![a.clone()];
                                t.extend(rest.clone());
                                G::Cat(t)
                            })
                            .collect(),
                    )
                } else {
                    G::Cat(w)
                }
            } else {
                G::Cat(w)
            }
        }
        G::Not(x) => G::Not(Box::new(rewrite(s, x, depth - 1))),
        G::Rep(x, lo, hi) => {
            let y = rewrite(s, x, depth - 1);
            if *hi == u32::MAX && s.chance(1, 2) {
                // e{lo,} = e{lo} e*
                G::Cat(vec![
                    G::Rep(Box::new(y.clone()), *lo, *lo),
                    G::Rep(Box::new(y), 0, u32::MAX),
                ])
            } else if *hi != u32::MAX && *hi > 0 && *hi > *lo && s.chance(1, 2) {
                // e{lo,hi} = e{lo} (e e{0,hi-lo-1})?
                G::Cat(vec![
                    G::Rep(Box::new(y.clone()), *lo, *lo),
                    G::Rep(
                        Box::new(G::Cat(vec![y.clone(), G::Rep(Box::new(y), 0, *hi - *lo - 1)])),
                        0,
                        1,
                    ),
                ])
            } else {
                G::Rep(Box::new(y), *lo, *hi)
            }
        }
        G::Set(b) if b.len() >= 2 && b.len() < 200 && s.chance(1, 2) => {
            let bytes = b.bytes();
            let cut = 1 + s.usize(bytes.len() - 1);
            let mut x = BS::EMPTY;
            let mut y = BS::EMPTY;
            for (i, v) in bytes.iter().enumerate() {
                if i < cut {
                    x.set(*v)
                } else {
                    y.set(*v)
                }
            }
            G::Or(vec![G::Set(x), G::Set(y)])
        }
        G::Lit(t) if s.chance(1, 2) => G::BLit(t.as_bytes().to_vec()),
        g => g.clone(),
    };
    match s.weighted(&[6, 1, 1, 1]) {
        0 => g2,
        1 => G::Not(Box::new(G::Not(Box::new(g2)))),
        2 => G::Or(vec![g2, G::None]),
        _ => G::Cat(vec![G::Eps, g2]),
    }
}

fn sigma_star() -> G {
    G::Rep(Box::new(G::Set(BS::FULL)), 0, u32::MAX)
}

fn c03_rel(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 5);
    c.rx = false;
    c.pool.truncate(3);
    let x = gen_g(s, &c);
    let not = |g: G| G::Not(Box::new(g));
    let g = match s.usize(8) {
        0 => G::And(vec![x.clone(), not(rewrite(s, &x, 3))]),
        1 => {
            let y = rewrite(s, &x, 3);
            G::Or(vec![G::And(vec![x.clone(), not(y.clone())]), G::And(vec![y, not(x)])])
        }
        2 => {
            // length constraint
            let n = s.range(0, 4) as u32;
            G::And(vec![x, G::Rep(Box::new(G::Set(BS::FULL)), n, n)])
        }
        3 => {
            let y = gen_g(s, &c);
            G::And(vec![x.clone(), y.clone(), not(G::And(vec![x, y]))])
        }
        4 => {
            // x followed by something that excludes all
            let y = gen_g(s, &c);
            let z = rewrite(s, &y, 3);
            G::Cat(vec![x, G::And(vec![y, not(z)])])
        }
        5 => {
            let y = gen_g(s, &c);
            G::And(vec![G::Cat(vec![sigma_star(), x]), not(G::Cat(vec![sigma_star(), y]))])
        }
        6 => {
            let y = gen_g(s, &c);
            G::And(vec![G::Cat(vec![x, sigma_star()]), not(G::Cat(vec![y, sigma_star()]))])
        }
        _ => {
            let y = gen_g(s, &c);
            let e = G::And(vec![x.clone(), not(rewrite(s, &x, 3))]);
            G::Or(vec![e, y])
        }
    };
    dead_checks(s, &g, &c, ctx)
}

// ------------------------------------------------------------------ containment

/// fuel that any check of a case has to get by with
const BUDGET: u64 = 1_000_000;

fn mutate_pat(s: &mut Src, p: &Pat, c: &GCfg) -> Pat {
    match s.usize(9) {
        0 => Pat::Alt(vec![p.clone(), gen_pat(s, c, 3)]),
        1 => Pat::Alt(vec![gen_pat(s, c, 3), p.clone()]),
        2 => Pat::Rep(Box::new(Pat::Grp(Box::new(p.clone()), 0)), 0, u32::MAX, false),
        3 => Pat::Rep(Box::new(Pat::Grp(Box::new(p.clone()), 0)), 0, 1, false),
        4 => Pat::Cat(vec![p.clone(), Pat::Rep(Box::new(gen_cls(s, c)), 0, u32::MAX, false)]),
        _ => mutate_rec(s, p, c),
    }
}

fn mutate_rec(s: &mut Src, p: &Pat, c: &GCfg) -> Pat {
    match p {
        Pat::Cat(v) | Pat::Alt(v) if !v.is_empty() => {
            let i = s.usize(v.len());
            let mut w = v.clone();
            w[i] = mutate_rec(s, &v[i], c);
            if matches!(p, Pat::Cat(_)) {
                Pat::Cat(w)
            } else {
                if s.chance(1, 3) {
                    w.reverse();
                }
                Pat::Alt(w)
            }
        }
        Pat::Rep(x, lo, hi, l) => match s.usize(4) {
            0 => Pat::Rep(x.clone(), lo.saturating_sub(1), *hi, *l),
            1 => Pat::Rep(x.clone(), *lo, u32::MAX, *l),
            2 => Pat::Rep(x.clone(), *lo, if *hi == u32::MAX { *lo + 2 } else { *hi + 1 }, !*l),
            _ => Pat::Rep(Box::new(mutate_atom(s, x, c)), *lo, *hi, *l),
        },
        Pat::Grp(x, k) => Pat::Grp(Box::new(mutate_rec(s, x, c)), *k),
        Pat::Chr(x) => {
            let y = gen_uchar(s, c);
            Pat::Cls(false, vec![(*x, *x), (y, y)])
        }
        Pat::Cls(false, v) => {
            let mut w = v.clone();
            if w.len() > 1 && s.chance(1, 2) {
                w.pop();
            } else {
                let y = gen_uchar(s, c);
                w.push((y, y));
            }
            Pat::Cls(false, w)
        }
        Pat::Cls(true, _) => Pat::AnyChar,
        Pat::Dot => Pat::AnyChar,
        _ => gen_pat(s, c, 3),
    }
}

fn mutate_atom(s: &mut Src, p: &Pat, c: &GCfg) -> Pat {
    let q = mutate_rec(s, p, c);
    if matches!(q, Pat::Rep(..)) {
        Pat::Grp(Box::new(q), 0)
    } else {
        q
    }
}

fn c04_pat(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 6);
    c.unicode = s.chance(1, 4);
    let p = gen_pat(s, &c, 7);
    let q = if s.chance(1, 5) { gen_pat(s, &c, 7) } else { mutate_pat(s, &p, &c) };
    let (p, q) = if s.chance(1, 3) { (q, p) } else { (p, q) };
    let (ps, qs) = (p.to_pattern(), q.to_pattern());
    ctx.desc = format!("/{}/ in /{}/", ps, qs);
    let (rp, rq) = (p.rnode(), q.rnode());
    let cl = Classes::for_nodes(&[&rp, &rq]);
    let (dp, dq) = match (Dfa::from_rnode(&cl, &rp), Dfa::from_rnode(&cl, &rq)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return ctx.discard("reference automaton too big"),
    };
    let diff = match dp.product_of(&dq, |a, b| a && !b) {
        Ok(d) => d,
        Err(_) => return ctx.discard("reference automaton too big"),
    };
    let want = diff.is_empty();
    ctx.label(if want { "contained" } else { "not contained" });
    ctx.nontrivial = !dp.is_empty() && !dq.is_empty() && ps != qs;
    let mut b = RegexBuilder::new();
    // the check is exponential on some inputs; those that exceed a generous budget are C05's business
    let got = match guard("is_contained_in", || b.is_contained_in(&ps, &qs, BUDGET))? {
        Ok(r) => r,
        Err(_) if b.mk_contained_in(&ps, &qs).is_ok() => return ctx.discard("containment check exceeded the budget"),
        Err(e) => return Err(format!("is_contained_in failed: {}", e)),
    };
    if got != want {
        return Err(format!(
            "is_contained_in = {}, expected {}{}",
            got,
            want,
            match diff.shortest_from(&cl, diff.start) {
                Some(w) => format!(" (separating string {})", show(&w)),
                None => String::new(),
            }
        ));
    }
    let mut rx = guard("mk_contained_in", || -> anyhow::Result<Regex> {
        let e = b.mk_contained_in(&ps, &qs)?;
        Ok(b.to_regex(e))
    })?
    .map_err(|e| format!("mk_contained_in failed: {}", e))?;
    let st = compare(&mut rx, &diff, &cl, Opts::DEAD).map_err(|e| format!("mk_contained_in: {}", e))?;
    note(ctx, &diff, &st);
    Ok(())
}

fn c04_ast(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 6);
    c.pool.truncate(3);
    let p = gen_g(s, &c);
    let q = match s.usize(4) {
        0 => gen_g(s, &c),
        1 => rewrite(s, &p, 3),
        2 => G::Or(vec![rewrite(s, &p, 2), gen_g(s, &c)]),
        _ => G::And(vec![rewrite(s, &p, 2), gen_g(s, &c)]),
    };
    ctx.desc = format!("{} in {}", p.show(), q.show());
    let (rp, rq) = (p.rnode(), q.rnode());
    let cl = Classes::for_nodes(&[&rp, &rq]);
    let (dp, dq) = match (Dfa::from_rnode(&cl, &rp), Dfa::from_rnode(&cl, &rq)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return ctx.discard("reference automaton too big"),
    };
    let diff = match dp.product_of(&dq, |a, b| a && !b) {
        Ok(d) => d,
        Err(_) => return ctx.discard("reference automaton too big"),
    };
    ctx.label(if diff.is_empty() { "contained" } else { "not contained" });
    ctx.nontrivial = !dp.is_empty() && !dq.is_empty() && p.show() != q.show();
    let via_ast = s.chance(1, 3);
    let mut rx = guard("mk_contained_in_ast", || -> Result<Regex, String> {
        let mut b = RegexBuilder::new();
        let pa = p.to_ast(&mut b)?;
        let qa = q.to_ast(&mut b)?;
        let e = if via_ast {
            b.mk(&pa.contained_in(&qa))
        } else {
            b.mk_contained_in_ast(&pa, &qa)
        }
        .map_err(|e| format!("rejected: {}", e))?;
        Ok(b.to_regex(e))
    })??;
    let st = compare(&mut rx, &diff, &cl, Opts::DEAD)?;
    note(ctx, &diff, &st);
    Ok(())
}

// ------------------------------------------------------------------ fuel

/// limits around the sizes of machine words
fn big_fuel(s: &mut Src) -> u64 {
    let sh = *s.pick(&[8u32, 15, 16, 20, 24, 31, 32, 32, 33, 40, 48, 63]);
    let base = 1u64 << sh;
    match s.usize(3) {
        0 => base - 1,
        1 => base + s.below(4),
        _ => base.saturating_add(s.below(base)),
    }
}

fn c05_mono(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 8);
    c.pool.truncate(3);
    c.rx = s.chance(1, 4);
    let x = gen_g(s, &c);
    let g = if s.chance(1, 2) {
        let y = if s.chance(1, 2) { rewrite(s, &x, 3) } else { gen_g(s, &c) };
        G::And(vec![x, G::Not(Box::new(y))])
    } else {
        x
    };
    ctx.desc = g.show();
    let r = g.rnode();
    let cl = Classes::for_nodes(&[&r]);
    let d = match Dfa::from_rnode(&cl, &r) {
        Ok(d) => d,
        Err(_) => return ctx.discard("reference automaton too big"),
    };
    let mut b = RegexBuilder::new();
    let e = guard("building", || g.build(&mut b))??;
    let mut fuels: Vec<u64> = vec![0, 1, 5];
    for _ in 0..6 {
        let sh = s.range(2, 14);
        fuels.push((1u64 << sh) + s.below(1 << sh));
    }
    for _ in 0..2 {
        fuels.push(big_fuel(s));
    }
    fuels.push(u64::MAX);
    fuels.sort();
    let mut succeeded: Option<u64> = None;
    for f in fuels {
        let res = guard("to_regex_limited", || b.to_regex_limited(e, f))?;
        match res {
            Err(_) => {
                ctx.nontrivial = true;
                ctx.label("limit hit");
                if f == u64::MAX {
                    return Err("unlimited fuel failed".into());
                }
                if let Some(g) = succeeded {
                    return Err(format!("fuel {} succeeded but larger fuel {} failed", g, f));
                }
            }
            Ok(mut rx) => {
                if rx.always_empty() != d.is_empty() {
                    return Err(format!("with fuel {}: always_empty = {}, language empty = {}", f, !d.is_empty(), d.is_empty()));
                }
                if succeeded.is_none() || f == u64::MAX {
                    compare(&mut rx, &d, &cl, Opts::DEAD).map_err(|m| format!("with fuel {}: {}", f, m))?;
                }
                if succeeded.is_none() {
                    succeeded = Some(f);
                }
            }
        }
    }
    // raw cache: a failed limited check must not poison later answers
    {
        let (_, mut es, v) = derivre::AlphabetInfo::from_exprset(b.exprset(), &[e]);
        let mut rc = derivre::raw::RelevanceCache::new();
        let mut done: Option<u64> = None;
        let mut fs = vec![0u64, 3, 10, 40, 200, 1000, 10000, big_fuel(s), u64::MAX];
        fs.sort();
        for f in fs {
            match guard("is_non_empty_limited", || rc.is_non_empty_limited(&mut es, v[0], f))? {
                Err(_) => {
                    if let Some(g) = done {
                        return Err(format!("raw emptiness: fuel {} succeeded, then {} failed", g, f));
                    }
                }
                Ok(ne) => {
                    if ne == d.is_empty() {
                        return Err(format!("raw emptiness check with fuel {} after failures says non-empty={}", f, ne));
                    }
                    done = Some(f);
                }
            }
        }
    }
    // containment queries
    if s.chance(1, 2) {
        let mut c = GCfg::full(s, 6);
        c.pool.truncate(3);
        let p = gen_pat(s, &c, 7);
        let q = mutate_pat(s, &p, &c);
        let (ps, qs) = (p.to_pattern(), q.to_pattern());
        ctx.desc.push_str(&format!(" and /{}/ in /{}/", ps, qs));
        let full = match guard("is_contained_in", || b.is_contained_in(&ps, &qs, BUDGET))? {
            Ok(r) => r,
            Err(_) if b.mk_contained_in(&ps, &qs).is_ok() => return ctx.discard("containment check exceeded the budget"),
            Err(e) => return Err(format!("is_contained_in failed: {}", e)),
        };
        let mut ok: Option<u64> = None;
        let mut fs = vec![0u64, 1, 10, 30, 100, 300, 1000, 5000, 100000, big_fuel(s)];
        fs.sort();
        for f in fs {
            match guard("is_contained_in", || b.is_contained_in(&ps, &qs, f))? {
                Err(_) => {
                    ctx.nontrivial = true;
                    ctx.label("containment limit hit");
                    if let Some(g) = ok {
                        return Err(format!("/{}/ in /{}/: fuel {} succeeded but larger {} failed", ps, qs, g, f));
                    }
                }
                Ok(v) => {
                    if v != full {
                        return Err(format!("/{}/ in /{}/: {} with fuel {}, {} unlimited", ps, qs, v, f, full));
                    }
                    ok = ok.or(Some(f));
                }
            }
        }
    }
    Ok(())
}

/// what was done before is not charged
fn c05_later(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 6);
    c.pool.truncate(3);
    c.rx = false;
    c.refs = false;
    let x = gen_g(s, &c);
    let y = if s.chance(1, 2) { rewrite(s, &x, 3) } else { gen_g(s, &c) };
    let g = G::And(vec![x, G::Not(Box::new(y))]);
    let (p, q) = {
        let p = gen_pat(s, &c, 5);
        let q = mutate_pat(s, &p, &c);
        (p.to_pattern(), q.to_pattern())
    };
    let mut f0 = None;
    {
        let mut b = RegexBuilder::new();
        let e = guard("building", || g.build(&mut b))??;
        for sh in 2..12 {
            let f = 1u64 << sh;
            let r1 = guard("to_regex_limited", || b.to_regex_limited(e, f))?.ok().map(|mut r| r.always_empty());
            let r2 = guard("is_contained_in", || b.is_contained_in(&p, &q, f))?.ok();
            if let (Some(a), Some(c)) = (r1, r2) {
                f0 = Some((f, a, c));
                break;
            }
        }
    }
    let (f, we, wc) = match f0 {
        Some(x) => x,
        None => return ctx.discard("needs more fuel than 2048"),
    };
    let mut b = RegexBuilder::new();
    let work = s.range(60_000, 700_000) as u64;
    let mut z = s.u64();
    ctx.desc = format!("{} and /{}/ in /{}/ take less than {}, after work of cost {}", g.show(), p, q, f, work);
    while b.exprset().cost() < work {
        let r = crate::src::splitmix(&mut z);
        let w = r.to_le_bytes();
        let v: Vec<RegexAst> = (0..8).map(|i| RegexAst::ByteLiteral(w[i / 2..].to_vec())).collect();
        let a = match r >> 62 {
            0 => RegexAst::Or(v),
            1 => RegexAst::Not(Box::new(RegexAst::Concat(v))),
            2 => RegexAst::Repeat(Box::new(RegexAst::Or(v)), w[0] as u32, 256 + w[1] as u32),
            _ => RegexAst::And(v),
        };
        guard("building", || b.mk(&a))?.map_err(|e| e.to_string())?;
    }
    ctx.nontrivial = work > 16 * f + 20_000;
    let e = guard("building", || g.build(&mut b))??;
    let limit = 16 * f + 20_000;
    for round in 0..3 {
        match guard("to_regex_limited", || b.to_regex_limited(e, limit))? {
            Err(e) => return Err(format!("round {}: to_regex_limited fails with a limit of {}: {}", round, limit, e)),
            Ok(mut r) => {
                if r.always_empty() != we {
                    return Err(format!("round {}: always_empty is {}", round, !we));
                }
            }
        }
        match guard("is_contained_in", || b.is_contained_in(&p, &q, limit))? {
            Err(e) => return Err(format!("round {}: is_contained_in fails with a limit of {}: {}", round, limit, e)),
            Ok(v) if v != wc => return Err(format!("round {}: is_contained_in is {}", round, v)),
            Ok(_) => {}
        }
    }
    Ok(())
}

/// checks that have to look at a long row of expressions one after the other
fn c05_long(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = *s.pick(&[200u32, 500, 900]);
    let x = *s.pick(&["ab", "x", "[ab]c", "012"]);
    let y = *s.pick(&["q", "(q|zz)", "[qr]+"]);
    let contained = s.chance(1, 2);
    let (small, big) = match s.usize(3) {
        0 => (format!("({x}){{{n}}}"), format!("({x}){{{}}}({}{y})", n - 1, if contained { format!("{x}|") } else { String::new() })),
        1 => (format!("({x}){{{n}}}{y}"), format!("({x}){{{n}}}{}", if contained { format!("({y}|r)") } else { "r".to_string() })),
        _ => (format!("({x}){{{n}}}"), format!("({x}){{{}}}", if contained { format!("{},", n - 3) } else { format!("0,{}", n - 3) })),
    };
    let fuel = *s.pick(&[0u64, 1, 10, n as u64 / 4]);
    ctx.desc = format!("/{}/ in /{}/ fuel {}", small, big, fuel);
    ctx.label("long row");
    let mut b = RegexBuilder::new();
    match guard("is_contained_in", || b.is_contained_in(&small, &big, fuel))? {
        Err(_) => {}
        Ok(v) => return Err(format!("answered {} within a fuel of {} although {} expressions have to be looked at", v, fuel, n)),
    }
    let e = b.mk_contained_in(&small, &big).map_err(|e| format!("{}", e))?;
    match guard("to_regex_limited", || b.to_regex_limited(e, fuel))? {
        Err(_) => {}
        Ok(_) => return Err(format!("to_regex_limited succeeded within a fuel of {}", fuel)),
    }
    let v = guard("is_contained_in", || b.is_contained_in(&small, &big, u64::MAX - 7))?.map_err(|e| format!("ample fuel: {}", e))?;
    if v != contained {
        return Err(format!("contained: {}, expected {}", v, contained));
    }
    Ok(())
}

fn c05_exp(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    ctx.nontrivial = true;
    if s.chance(1, 2) {
        return c05_long(s, ctx);
    }
    let n = s.range(9, 11);
    let (a, b2, o) = *s.pick(&[("a", "[ab]", "."), ("x", "[xy]", "[a-z]"), ("0", "[01]", "[0-9]"), ("A", "[AB]", "[A-Z]")]);
    // strings whose n-th symbol from the end is a  vs  one of two
    let (small, big) = match s.usize(3) {
        0 => (format!("{o}*{a}{o}{{{n}}}"), format!("{o}*{b2}{o}{{{n}}}")),
        1 => (format!("({o}*{a}{o}{{{n}}})"), format!("{o}*({b2}{o}{{{n}}})")),
        _ => (format!("{o}*{a}{o}{{{n}}}"), format!("({o}*{a}{o}{{{n}}}|{o}*{a}{o}{{{}}})", n - 1)),
    };
    let fuel = *s.pick(&[0u64, 100, 1000, 5_000]);
    ctx.desc = format!("/{}/ in /{}/ fuel {}", small, big, fuel);
    let mut b = RegexBuilder::new();
    match guard("is_contained_in", || b.is_contained_in(&small, &big, fuel))? {
        Err(_) => {}
        Ok(v) => return Err(format!("answered {} within a fuel of {} although the check needs at least 2^{} derivatives", v, fuel, n)),
    }
    let e = b.mk_contained_in(&small, &big).map_err(|e| format!("{}", e))?;
    match guard("to_regex_limited", || b.to_regex_limited(e, fuel))? {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("to_regex_limited succeeded within a fuel of {}", fuel)),
    }
}

// ------------------------------------------------------------------ prefixes

/// generate with And/Not never below Prefix
pub fn gen_pfx(s: &mut Src, c: &GCfg) -> G {
    let g = gen_g(s, c);
    clean_pfx(&g, false)
}

pub fn clean(g: &G) -> G {
    clean_pfx(g, false)
}

fn clean_pfx(g: &G, under: bool) -> G {
    let many = |v: &Vec<G>| v.iter().map(|x| clean_pfx(x, under)).collect::<Vec<_>>();
    match g {
        G::And(v) => {
            if under {
                G::Or(many(v))
            } else {
                G::And(many(v))
            }
        }
        G::Not(x) => {
            if under {
                G::Rep(Box::new(clean_pfx(x, under)), 0, 1)
            } else {
                G::Not(Box::new(clean_pfx(x, under)))
            }
        }
        G::Or(v) => G::Or(many(v)),
        G::Cat(v) => G::Cat(many(v)),
        G::Rep(x, a, b) => G::Rep(Box::new(clean_pfx(x, under)), *a, *b),
        G::Prefix(x) => G::Prefix(Box::new(clean_pfx(x, true))),
        G::Ref(x) => G::Ref(Box::new(clean_pfx(x, under))),
        g => g.clone(),
    }
}

fn c06(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 8);
    c.prefix = true;
    c.unicode = s.chance(1, 6);
    if s.chance(1, 2) {
        c.and = false;
        c.not = false;
    }
    let mut g = gen_pfx(s, &c);
    if !g.any(&|x| matches!(x, G::Prefix(_))) {
        g = clean_pfx(&G::Prefix(Box::new(g)), false);
    }
    ctx.desc = g.show();
    label_g(&g, ctx);
    let mut rx = compile(&g)?;
    if let Some((d, cl)) = compare_r(&mut rx, &g.rnode(), Opts::DEAD, ctx)? {
        ctx.nontrivial = nontriv(&d);
        spot(s, &mut rx, &d, &cl, &c.pool)?;
    }
    Ok(())
}

fn c06_sandwich(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 7);
    c.pool.truncate(3);
    let g = gen_g(s, &c);
    let p = G::Prefix(Box::new(g.clone()));
    ctx.desc = p.show();
    let r = g.rnode();
    let cl = Classes::for_nodes(&[&r]);
    let d = match Dfa::from_rnode(&cl, &r) {
        Ok(d) => d,
        Err(_) => return ctx.discard("reference automaton too big"),
    };
    ctx.nontrivial = nontriv(&d) && g.has_andnot();
    if g.has_andnot() {
        ctx.label("operand has And/Not");
    }
    let mut rx = compile(&p)?;
    // walk: q acc => accepted, accepted => q live
    let mut seen = std::collections::HashSet::new();
    let s0 = rx.initial_state();
    let mut todo = vec![(s0, d.start, Vec::<u8>::new())];
    seen.insert((s0, d.start));
    while let Some((st, q, w)) = todo.pop() {
        let a = rx.is_accepting(st);
        if d.acc[q as usize] && !a {
            return Err(format!("{} is a word of the operand but is not accepted as a prefix", show(&w)));
        }
        if a && !d.live[q as usize] {
            return Err(format!("{} is accepted but cannot be extended to a word of the operand", show(&w)));
        }
        if st.is_dead() && d.live[q as usize] && !d.acc[q as usize] && d.shortest_from(&cl, q).is_some() {
            return Err(format!("dead after {} although a word of the operand continues it", show(&w)));
        }
        if seen.len() > 2000 {
            ctx.label("state cap hit (explored partially)");
            break;
        }
        for b in 0..=255u8 {
            let t = rx.transition(st, b);
            let r = d.step(q, cl.of[b as usize] as usize);
            if seen.insert((t, r)) {
                let mut w2 = w.clone();
                w2.push(b);
                todo.push((t, r, w2));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ unicode classes

type Ranges = Vec<(u32, u32)>;

fn norm(mut v: Ranges) -> Ranges {
    v.sort();
    let mut o: Ranges = vec![];
    for (a, b) in v {
        if let Some(l) = o.last_mut() {
            if a <= l.1.saturating_add(1) {
                l.1 = l.1.max(b);
                continue;
            }
        }
        o.push((a, b));
    }
    o
}
fn neg(v: &Ranges) -> Ranges {
    let v = norm(v.clone());
    let mut o = vec![];
    let mut next = 0u32;
    for (a, b) in v {
        if a > next {
            o.push((next, a - 1));
        }
        next = b + 1;
    }
    if next <= 0x10FFFF {
        o.push((next, 0x10FFFF));
    }
    o
}
fn union(a: &Ranges, b: &Ranges) -> Ranges {
    let mut v = a.clone();
    v.extend(b.iter().copied());
    norm(v)
}
fn inter(a: &Ranges, b: &Ranges) -> Ranges {
    neg(&union(&neg(a), &neg(b)))
}

fn esc_cls(c: char, o: &mut String) {
    if c.is_ascii_alphanumeric() {
        o.push(c)
    } else {
        o.push_str(&format!("\\x{{{:X}}}", c as u32))
    }
}

fn gen_ucls(s: &mut Src, c: &GCfg, depth: usize) -> (String, Ranges) {
    // returns the text of a bracketed class
    let negated = s.chance(1, 3);
    let n = s.range(1, 4);
    let mut t = String::new();
    let mut r: Ranges = vec![];
    for _ in 0..n {
        if depth > 0 && s.chance(1, 5) {
            let (tt, rr) = gen_ucls(s, c, depth - 1);
            t.push_str(&tt);
            r = union(&r, &rr);
        } else {
            let a = gen_uchar(s, c);
            let b = if s.chance(1, 2) { gen_uchar(s, c) } else { a };
            let (a, b) = (a.min(b), a.max(b));
            esc_cls(a, &mut t);
            if a != b {
                t.push('-');
                esc_cls(b, &mut t);
            }
            r = union(&r, &vec![(a as u32, b as u32)]);
        }
    }
    if depth > 0 && s.chance(1, 4) {
        let (tt, rr) = gen_ucls(s, c, depth - 1);
        match s.usize(3) {
            0 => {
                t.push_str("&&");
                t.push_str(&tt);
                r = inter(&r, &rr);
            }
            1 => {
                t.push_str("--");
                t.push_str(&tt);
                r = inter(&r, &neg(&rr));
            }
            _ => {
                t.push_str("~~");
                t.push_str(&tt);
                r = union(&inter(&r, &neg(&rr)), &inter(&rr, &neg(&r)));
            }
        }
    }
    if negated {
        r = neg(&r);
    }
    (format!("[{}{}]", if negated { "^" } else { "" }, t), norm(r))
}

/// Do the parser's class ranges agree with the ones computed here? regex-syntax 0.8.4 gets set
/// operations wrong when a gap is exactly the surrogate range; those classes say nothing about derivre.
fn parser_agrees(t: &str, r: &Ranges) -> bool {
    use regex_syntax::hir::{Class, HirKind};
    let strip = |v: Ranges| -> Ranges {
        let mut o = vec![];
        for (a, b) in v {
            if a < 0xD800 {
                o.push((a, b.min(0xD7FF)));
            }
            if b > 0xDFFF {
                o.push((a.max(0xE000), b));
            }
        }
        norm(o)
    };
    let h = match regex_syntax::parse(t) {
        Ok(h) => h,
        Err(_) => return true,
    };
    let got: Ranges = match h.kind() {
        HirKind::Class(Class::Unicode(u)) => u.ranges().iter().map(|x| (x.start() as u32, x.end() as u32)).collect(),
        HirKind::Class(Class::Bytes(u)) => u.ranges().iter().map(|x| (x.start() as u32, x.end() as u32)).collect(),
        HirKind::Literal(l) => match std::str::from_utf8(&l.0) {
            Ok(x) => x.chars().map(|c| (c as u32, c as u32)).collect(),
            Err(_) => return true,
        },
        _ => return true,
    };
    strip(got) == strip(r.clone())
}

fn c15_cls(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 4);
    c.unicode = true;
    let (t, r) = gen_ucls(s, &c, 2);
    let n = RNode::codepoints(&r);
    ctx.desc = t.clone();
    if !parser_agrees(&t, &r) {
        return ctx.discard("parser deviates (surrogate gap)");
    }
    ctx.nontrivial = !r.is_empty() && r != vec![(0, 0x10FFFF)];
    // alone or in context
    let (pat, node) = match s.weighted(&[6, 1, 1, 1, 1]) {
        0 => (t.clone(), n),
        1 => (format!("{}{{2}}", t), RNode::Cat(vec![n.clone(), n])),
        2 => {
            let (t2, r2) = gen_ucls(s, &c, 1);
            if !parser_agrees(&t2, &r2) {
                return ctx.discard("parser deviates (surrogate gap)");
            }
            (format!("{}|{}", t, t2), RNode::Alt(vec![n, RNode::codepoints(&r2)]))
        }
        3 => {
            let (t2, r2) = gen_ucls(s, &c, 1);
            if !parser_agrees(&t2, &r2) {
                return ctx.discard("parser deviates (surrogate gap)");
            }
            (format!("{}{}", t, t2), RNode::Cat(vec![n, RNode::codepoints(&r2)]))
        }
        _ => {
            // same class twice in one builder (class cache) in different spellings
            let inv = neg(&r);
            let mut u = String::from("[^");
            let mut any = false;
            for (a, b) in &inv {
                let f = |x: u32, up: bool| -> Option<char> {
                    if (0xD800..0xE000).contains(&x) {
                        char::from_u32(if up { 0xE000 } else { 0xD7FF })
                    } else {
                        char::from_u32(x)
                    }
                };
                let (a, b) = (f(*a, true).unwrap(), f(*b, false).unwrap());
                if a <= b {
                    any = true;
                    esc_cls(a, &mut u);
                    u.push('-');
                    esc_cls(b, &mut u);
                }
            }
            u.push(']');
            if any && !parser_agrees(&u, &r) {
                return ctx.discard("parser deviates (surrogate gap)");
            }
            if any {
                (format!("{}x{}", t, u), RNode::Cat(vec![n.clone(), RNode::lit(b"x"), n]))
            } else {
                (format!("{}x", t), RNode::Cat(vec![n, RNode::lit(b"x")]))
            }
        }
    };
    ctx.desc = format!("/{}/", pat);
    if r.iter().any(|x| x.1 >= 0x10000) {
        ctx.label("has 4-byte code points");
    }
    let mut rx = guard("compile", || Regex::new(&pat))?.map_err(|e| format!("valid class rejected: {}", e))?;
    compare_r(&mut rx, &node, Opts::DEAD, ctx)?;
    Ok(())
}

const PROPS: &[&str] = &[
    "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\pL", "\\PL", "\\p{Greek}", "\\p{Lu}", "\\P{Nd}", "\\pN", "[[:alpha:]]",
    "[[:^alpha:]]", "[[:punct:]]", "\\p{Cyrillic}", "\\p{Any}", "\\p{ASCII}", "\\p{Han}", "\\p{Emoji}", "\\p{Sc}",
    "\\p{Arabic}", "\\P{ASCII}", ".", "(?s:.)", "(?R:.)", "\\p{Hiragana}", "\\p{Alphabetic}", "\\p{White_Space}", "\\p{Cn}",
    "\\p{Co}", "\\p{Cf}", "\\p{Lowercase}", "\\p{Uppercase}", "\\p{Math}", "\\p{XIDS}", "\\p{XIDC}",
];

fn c15_props(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 4);
    c.unicode = true;
    let base = match s.weighted(&[5, 3, 2, 2, 1]) {
        0 => s.pick(PROPS).to_string(),
        1 => {
            let (t, _) = gen_ucls(s, &c, 1);
            format!("(?i:{})", t)
        }
        2 => {
            let mut t = String::from("(?i:");
            esc_cls(gen_uchar(s, &c), &mut t);
            t.push(')');
            t
        }
        3 => {
            let p = s.pick(PROPS[..22].as_ref()).to_string();
            let (t, _) = gen_ucls(s, &c, 1);
            let op = s.pick(&["&&", "--", "~~", ""]);
            if p.starts_with('.') || p.starts_with('(') {
                t
            } else {
                format!("[{}{}{}{}]", if s.chance(1, 3) { "^" } else { "" }, p, op, t)
            }
        }
        _ => {
            let a = s.pick(&["s", "k", "K", "ß", "Σ", "ς", "ſ", "\\x{212A}", "\\x{1E9E}", "İ", "ı", "ŉ", "ǅ", "Ω"]).to_string();
            format!("(?i:{})", a)
        }
    };
    ctx.desc = format!("/{}/", base);
    let hir = match Flags::DEFAULT.parser().parse(&base) {
        Ok(h) => h,
        Err(_) => return ctx.discard("pattern rejected by the regex-syntax parser"),
    };
    let r = match wild::lower(&hir, true, true) {
        Ok(r) => r,
        Err(_) => return ctx.discard("not a class"),
    };
    let mut rx = guard("compile", || Regex::new(&base))?.map_err(|e| format!("valid class rejected: {}", e))?;
    if let Some((d, cl)) = compare_r(&mut rx, &r, Opts::DEAD, ctx)? {
        ctx.nontrivial = d.n() >= 3;
        // and the text API on actual characters
        for _ in 0..8 {
            let ch = gen_uchar(s, &c);
            let t = ch.to_string();
            let want = d.accepts(&cl, t.as_bytes());
            if rx.is_match(&t) != want {
                return Err(format!("is_match({:?}) = {}, expected {}", t, !want, want));
            }
        }
    }
    Ok(())
}

/// hand-written UTF-8 automaton (Unicode table 3-7): 0 = boundary, 255 = ill-formed
pub fn utf8_step(q: u8, b: u8) -> u8 {
    match (q, b) {
        (0, 0x00..=0x7F) => 0,
        (0, 0xC2..=0xDF) => 1,
        (0, 0xE0) => 4,
        (0, 0xE1..=0xEC) | (0, 0xEE..=0xEF) => 2,
        (0, 0xED) => 5,
        (0, 0xF0) => 6,
        (0, 0xF1..=0xF3) => 3,
        (0, 0xF4) => 7,
        (1, 0x80..=0xBF) => 0,
        (2, 0x80..=0xBF) => 1,
        (3, 0x80..=0xBF) => 2,
        (4, 0xA0..=0xBF) => 1,
        (5, 0x80..=0x9F) => 1,
        (6, 0x90..=0xBF) => 2,
        (7, 0x80..=0x8F) => 2,
        _ => 255,
    }
}

pub fn check_utf8(rx: &mut Regex, cap: usize) -> Result<(usize, bool), String> {
    let mut ids = std::collections::HashMap::new();
    let s0 = rx.initial_state();
    let mut nodes = vec![(s0, 0u8, 0usize, 0u8)];
    ids.insert((s0, 0u8), 0usize);
    let mut capped = false;
    let mut i = 0;
    while i < nodes.len() {
        let (st, q, _, _) = nodes[i];
        let word = |nodes: &Vec<(derivre::StateID, u8, usize, u8)>| {
            let mut w = vec![];
            let mut j = i;
            while j != 0 {
                w.push(nodes[j].3);
                j = nodes[j].2;
            }
            w.reverse();
            show(&w)
        };
        if rx.is_accepting(st) && q != 0 {
            return Err(format!("matches {} which is not valid UTF-8", word(&nodes)));
        }
        if q == 255 {
            if !st.is_dead() {
                return Err(format!("state after {} is not dead, but it is a prefix of no valid UTF-8", word(&nodes)));
            }
            i += 1;
            continue;
        }
        for b in 0..=255u8 {
            let t = rx.transition(st, b);
            let r = utf8_step(q, b);
            if !ids.contains_key(&(t, r)) {
                if nodes.len() >= cap {
                    capped = true;
                    continue;
                }
                ids.insert((t, r), nodes.len());
                nodes.push((t, r, i, b));
            }
        }
        i += 1;
    }
    Ok((nodes.len(), capped))
}

fn c15_utf8(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let pat = if s.chance(1, 2) {
        let mut c = GCfg::full(s, 8);
        c.unicode = true;
        gen_pat(s, &c, 10).to_pattern()
    } else {
        let mut names = 0;
        let size = s.range(1, 10);
        wild::gen_wild(s, &Flags::DEFAULT, size, &mut names)
    };
    ctx.desc = format!("/{}/", pat);
    let mut rx = match guard("compile", || Regex::new(&pat))? {
        Ok(r) => r,
        Err(_) => return ctx.discard("pattern rejected"),
    };
    let (n, capped) = check_utf8(&mut rx, 3000)?;
    ctx.nontrivial = n >= 8;
    if capped {
        ctx.label("state cap hit (explored partially)");
    }
    Ok(())
}

// ------------------------------------------------------------------ keyword tries

/// complete DFA (not minimised) for words followed by a tail automaton
fn trie_dfa(words: &[Vec<u8>], tail: &RNode) -> Option<(Dfa, Classes)> {
    let mut atoms = vec![];
    let mut used = BS::EMPTY;
    for w in words {
        for b in w {
            used.set(*b);
        }
    }
    for b in used.bytes() {
        atoms.push(BS::single(b));
    }
    tail.atoms(&mut atoms);
    let cl = Classes::from_atoms(&atoms);
    let k = cl.k;
    // trie nodes + sink 0
    let mut trans: Vec<u32> = vec![0; k * 2];
    let mut acc = vec![false, false];
    for w in words {
        let mut n = 1usize;
        for b in w {
            let c = cl.of[*b as usize] as usize;
            if trans[n * k + c] == 0 {
                trans[n * k + c] = acc.len() as u32;
                trans.extend(std::iter::repeat(0).take(k));
                acc.push(false);
            }
            n = trans[n * k + c] as usize;
        }
        acc[n] = true;
    }
    let mut d = Dfa {
        k,
        trans,
        acc,
        live: vec![],
        start: 1,
    };
    d.minimize();
    if !matches!(tail, RNode::Eps) {
        let t = Dfa::from_rnode(&cl, tail).ok()?;
        d = d.concat(&t).ok()?;
    }
    Some((d, cl))
}

fn gen_words(s: &mut Src) -> Vec<Vec<u8>> {
    let n = *s.pick(&[2usize, 3, 5, 8, 15, 40]);
    let alpha: &[u8] = *s.pick(&[&b"ab"[..], &b"abcdefgh"[..], &b"xy-_01"[..], &b"aA"[..]]);
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let mut w: Vec<u8> = if !v.is_empty() && s.chance(2, 3) {
            // share a prefix of an earlier word
            let p = s.pick(&v).clone();
            let cut = s.usize(p.len() + 1);
            p[..cut].to_vec()
        } else {
            vec![]
        };
        if s.chance(1, 12) {
            if let Some(x) = v.last() {
                w = x.clone(); // duplicate
            }
        } else if s.chance(1, 12) {
            w.extend("łó€😀".chars().nth(s.usize(4)).unwrap().to_string().as_bytes());
        } else {
            let m = s.range(0, 5);
            for _ in 0..m {
                w.push(*s.pick(alpha));
            }
        }
        // words stay valid utf-8: cut at a char boundary
        let w = match String::from_utf8(w) {
            Ok(x) => x.into_bytes(),
            Err(e) => {
                let k = e.utf8_error().valid_up_to();
                e.into_bytes()[..k].to_vec()
            }
        };
        v.push(w);
    }
    v
}

fn gen_tail(s: &mut Src) -> (String, RNode, G) {
    let set = |b: &[u8]| {
        let mut x = BS::EMPTY;
        for c in b {
            x.set(*c);
        }
        x
    };
    match s.weighted(&[4, 1, 1, 1, 1]) {
        0 => (String::new(), RNode::Eps, G::Eps),
        1 => ("[ab]".into(), RNode::Set(set(b"ab")), G::Set(set(b"ab"))),
        2 => {
            let g = G::Rep(Box::new(G::Set(set(b"a0"))), 0, u32::MAX);
            ("[a0]*".into(), g.rnode(), g)
        }
        3 => ("z".into(), RNode::lit(b"z"), G::Lit("z".into())),
        _ => {
            let g = G::Rep(Box::new(G::Lit("ab".into())), 0, 1);
            ("(?:ab)?".into(), g.rnode(), g)
        }
    }
}

fn distinct_words(w: &[Vec<u8>]) -> usize {
    let mut v = w.to_vec();
    v.sort();
    v.dedup();
    v.len()
}

fn words_pattern(s: &mut Src, ws: &[Vec<u8>]) -> String {
    let esc = |w: &Vec<u8>| regex_syntax::escape(std::str::from_utf8(w).unwrap());
    let v: Vec<String> = ws
        .iter()
        .map(|w| {
            let e = esc(w);
            if e.is_empty() {
                "(?:)".to_string()
            } else if s.chance(1, 10) {
                format!("({})", e)
            } else {
                e
            }
        })
        .collect();
    // sometimes nested alternations
    if v.len() >= 4 && s.chance(1, 3) {
        let k = 1 + s.usize(v.len() - 2);
        format!("(?:{})|{}", v[..k].join("|"), v[k..].join("|"))
    } else {
        v.join("|")
    }
}

fn walk_words(rx: &mut Regex, words: &[Vec<u8>], tail: &RNode, ctx: &mut Ctx) -> Result<(), String> {
    let (d, cl) = match trie_dfa(words, tail) {
        Some(x) => x,
        None => return ctx.discard("reference automaton too big"),
    };
    let st = compare(rx, &d, &cl, Opts { cap: 20000, ..Opts::DEAD })?;
    note(ctx, &d, &st);
    Ok(())
}

fn c22_pat(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ws = gen_words(s);
    let (ts, tn, _) = gen_tail(s);
    let mut pat = words_pattern(s, &ws);
    if !ts.is_empty() {
        pat = format!("(?:{}){}", pat, ts);
    }
    ctx.desc = format!("/{}/", pat);
    ctx.nontrivial = distinct_words(&ws) >= 3;
    let mut rx = guard("compile", || Regex::new(&pat))?.map_err(|e| format!("valid pattern rejected: {}", e))?;
    walk_words(&mut rx, &ws, &tn, ctx)
}

fn c22_builder(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ws = gen_words(s);
    ctx.nontrivial = distinct_words(&ws) >= 3;
    let (_, tn, tg) = gen_tail(s);
    let dist = s.chance(1, 2);
    let shape = s.usize(4);
    let lit = |w: &Vec<u8>, i: usize| -> G {
        match (i + shape) % 4 {
            0 => G::Lit(String::from_utf8(w.clone()).unwrap()),
            1 => G::BLit(w.clone()),
            2 => G::Cat(w.iter().map(|b| G::Byte(*b)).collect()),
            _ => {
                let k = w.len() / 2;
                G::Cat(vec![G::BLit(w[..k].to_vec()), G::BLit(w[k..].to_vec())])
            }
        }
    };
    let mut alts: Vec<G> = ws.iter().enumerate().map(|(i, w)| lit(w, i)).collect();
    // single-byte words may also be given as one byte set
    if s.chance(1, 3) {
        let mut set = BS::EMPTY;
        for w in &ws {
            if w.len() == 1 {
                set.set(w[0]);
            }
        }
        if set != BS::EMPTY {
            alts.push(G::Set(set));
        }
    }
    let g = if dist {
        G::Or(alts.into_iter().map(|a| G::Cat(vec![a, tg.clone()])).collect())
    } else {
        G::Cat(vec![G::Or(alts), tg.clone()])
    };
    ctx.desc = g.show();
    let incremental = s.chance(1, 3);
    let mut rx = guard("building", || -> Result<Regex, String> {
        let mut b = RegexBuilder::new();
        let e = if incremental && dist {
            // fold the union one keyword at a time
            let mut cur = RegexAst::NoMatch;
            if let G::Or(v) = &g {
                for x in v {
                    let a = x.to_ast(&mut b)?;
                    let r = b.mk(&RegexAst::Or(vec![cur, a])).map_err(|e| format!("{}", e))?;
                    cur = RegexAst::ExprRef(r);
                }
            }
            b.mk(&cur).map_err(|e| format!("{}", e))?
        } else {
            g.build(&mut b)?
        };
        Ok(b.to_regex(e))
    })??;
    if incremental && dist {
        ctx.label("built incrementally");
    }
    walk_words(&mut rx, &ws, &tn, ctx)
}

fn c22_deep(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    ctx.nontrivial = true;
    let kind = s.usize(4);
    let mut ws: Vec<Vec<u8>> = vec![];
    match kind {
        0 => {
            // every prefix of a long word, optionally with branches
            let n = s.range(90, 180);
            let w: Vec<u8> = (0..n).map(|i| b"abc"[(i * i + i / 7) % 3]).collect();
            for i in 1..=n {
                if i % 3 != 2 || s.chance(1, 2) {
                    ws.push(w[..i].to_vec());
                }
            }
        }
        1 => {
            // comb: a^i b
            let n = s.range(101, 160);
            for i in 0..n {
                let mut w = vec![b'a'; i];
                w.push(b'b');
                ws.push(w);
            }
        }
        2 => {
            let n = s.range(101, 140);
            for i in 0..n {
                let mut w = vec![b'a'; i];
                w.extend_from_slice(b"xy");
                ws.push(w.clone());
                if s.chance(1, 3) {
                    w.push(b'z');
                    ws.push(w);
                }
            }
        }
        _ => {
            let n = s.range(200, 600);
            for i in 0..n {
                let m = s.range(2, 7);
                let mut w = vec![];
                for _ in 0..m {
                    w.push(b'a' + s.below(6) as u8);
                }
                if i % 50 == 0 {
                    w.truncate(1);
                }
                ws.push(w);
            }
        }
    }
    // permute
    for i in (1..ws.len()).rev() {
        let j = s.usize(i + 1);
        ws.swap(i, j);
    }
    let via_pattern = s.chance(1, 2);
    ctx.desc = format!(
        "{} words kind {} {} first {}",
        ws.len(),
        kind,
        if via_pattern { "pattern" } else { "builder" },
        show(&ws[0])
    );
    let mut rx = if via_pattern {
        let pat: Vec<String> = ws
            .iter()
            .map(|w| regex_syntax::escape(std::str::from_utf8(w).unwrap()))
            .collect();
        let pat = pat.join("|");
        guard("compile", || Regex::new(&pat))?.map_err(|e| format!("valid pattern rejected: {}", e))?
    } else {
        guard("building", || -> Result<Regex, String> {
            let mut b = RegexBuilder::new();
            let v = ws.iter().map(|w| RegexAst::ByteLiteral(w.clone())).collect();
            let e = b.mk(&RegexAst::Or(v)).map_err(|e| format!("{}", e))?;
            Ok(b.to_regex(e))
        })??
    };
    walk_words(&mut rx, &ws, &RNode::Eps, ctx)
}

fn c22_huge(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    ctx.nontrivial = true;
    let n = *s.pick(&[2000usize, 9000, 9000, 16000, 24000, 40000]);
    let kind = s.usize(4);
    let seed = s.u64();
    // bulk randomness from one drawn seed
    let mut x = seed | 1;
    let mut rnd = move |m: u64| -> u64 {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 11) % m
    };
    let mut ws: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let mut w: Vec<u8> = vec![];
        match kind {
            0 => {
                for _ in 0..4 + rnd(8) {
                    w.push(b'a' + rnd(26) as u8);
                }
            }
            1 => {
                w.extend(format!("identifier{}", rnd(n as u64 * 2)).bytes());
            }
            2 => {
                if i > 0 && rnd(3) > 0 {
                    let p: &Vec<u8> = &ws[rnd(i as u64) as usize];
                    w.extend_from_slice(&p[..rnd(p.len() as u64 + 1) as usize]);
                }
                for _ in 0..1 + rnd(6) {
                    w.push(b'a' + rnd(10) as u8);
                }
            }
            _ => {
                for _ in 0..3 + rnd(5) {
                    w.push(1 + rnd(255) as u8);
                }
            }
        }
        ws.push(w);
    }
    let via_pattern = kind != 3 && s.chance(1, 3);
    ctx.desc = format!("{} words kind {} seed {} {}", n, kind, seed, if via_pattern { "pattern" } else { "builder" });
    let mut rx = if via_pattern {
        let pat: Vec<String> = ws.iter().map(|w| regex_syntax::escape(std::str::from_utf8(w).unwrap())).collect();
        guard("compile", || Regex::new(&pat.join("|")))?.map_err(|e| format!("valid pattern rejected: {}", e))?
    } else {
        guard("building", || -> Result<Regex, String> {
            let mut b = RegexBuilder::new();
            let v = ws.iter().map(|w| RegexAst::ByteLiteral(w.clone())).collect();
            let e = b.mk(&RegexAst::Or(v)).map_err(|e| format!("{}", e))?;
            Ok(b.to_regex(e))
        })??
    };
    let mut sorted = ws.clone();
    sorted.sort();
    sorted.dedup();
    let is_kw = |w: &[u8]| sorted.binary_search_by(|p| p.as_slice().cmp(w)).is_ok();
    let is_prefix = |w: &[u8]| {
        let i = sorted.partition_point(|p| p.as_slice() < w);
        i < sorted.len() && sorted[i].starts_with(w)
    };
    for k in 0..n.min(6000) {
        let mut w = ws[(k * 7919) % n].clone();
        match k % 5 {
            0 | 1 => {}
            2 => w.push(b'a' + rnd(10) as u8),
            3 => {
                let i = rnd(w.len() as u64) as usize;
                w[i] = if kind == 3 { rnd(256) as u8 } else { b'a' + rnd(26) as u8 };
            }
            _ => {
                let m = rnd(w.len() as u64 + 1) as usize;
                w.truncate(m)
            }
        }
        let mut st = rx.initial_state();
        for i in 0..w.len() {
            st = guard("transition", || rx.transition(st, w[i]))?;
            let want = is_prefix(&w[..=i]);
            if st.is_dead() == want {
                return Err(format!("after {} the state is {} dead", show(&w[..=i]), if want { "wrongly" } else { "wrongly not" }));
            }
            if st.is_dead() {
                break;
            }
        }
        if guard("is_match", || rx.is_match_bytes(&w))? != is_kw(&w) {
            return Err(format!("{} is {} a keyword", show(&w), if is_kw(&w) { "" } else { "not" }));
        }
    }
    Ok(())
}

fn c03_look(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 4);
    c.rx = s.chance(1, 4);
    c.pool.truncate(2 + s.usize(2));
    let any = || RNode::Rep(Box::new(RNode::Set(BS::range(0, 255))), 0, None);
    // sometimes empty without looking it
    let side = |s: &mut Src, c: &GCfg| -> G {
        let x = gen_g(s, c);
        match s.usize(6) {
            0 => {
                let y = rewrite(s, &x, 2);
                G::And(vec![x, G::Not(Box::new(y))])
            }
            1 => {
                let (p, q) = (gen_g(s, c), gen_g(s, c));
                G::And(vec![G::Cat(vec![x.clone(), p]), G::Cat(vec![x, q])])
            }
            2 => {
                let y = gen_g(s, c);
                G::And(vec![x, G::Not(Box::new(y))])
            }
            3 => {
                let y = gen_g(s, c);
                G::Or(vec![G::And(vec![x.clone(), G::Not(Box::new(x))]), y])
            }
            _ => x,
        }
    };
    let two = s.chance(1, 3);
    let mut parts = vec![];
    let mut nodes = vec![];
    let mut desc = vec![];
    let mut andnot = false;
    for _ in 0..if two { 2 } else { 1 } {
        let a = side(s, &c);
        let mut b = side(s, &c);
        if two {
            // unions of lookaheads: bodies that are not nullable
            b = G::Cat(vec![G::Byte(*s.pick(&c.pool)), b]);
            if s.chance(1, 2) {
                if let G::Cat(v) = &mut b {
                    v.reverse();
                }
            }
        }
        andnot |= a.has_andnot() || b.has_andnot();
        let (ra, rb) = (a.rnode(), b.rnode());
        let longer = RNode::Cat(vec![rb.clone(), RNode::Set(BS::range(0, 255)), any()]);
        nodes.push(RNode::Cat(vec![ra, RNode::And(vec![rb, RNode::Not(Box::new(longer))])]));
        desc.push(format!("{} LA({})", a.show(), b.show()));
        parts.push((a, b));
    }
    ctx.desc = desc.join(" | ");
    let mut bl = RegexBuilder::new();
    let e = guard("building", || -> Result<derivre::ExprRef, String> {
        let mut v = vec![];
        for (a, b) in &parts {
            let (x, y) = (a.to_ast(&mut bl)?, b.to_ast(&mut bl)?);
            v.push(RegexAst::Concat(vec![x, RegexAst::LookAhead(Box::new(y))]));
        }
        let ast = if v.len() == 1 { v.pop().unwrap() } else { RegexAst::Or(v) };
        bl.mk(&ast).map_err(|e| e.to_string())
    })??;
    let mut rx = guard("to_regex", || bl.to_regex(e))?;
    let node = if nodes.len() == 1 { nodes.pop().unwrap() } else { RNode::Alt(nodes) };
    if let Some((d, _)) = compare_r(&mut rx, &node, Opts { cap: 400, ..Opts::DEAD }, ctx)? {
        ctx.nontrivial = andnot && (nontriv(&d) || d.is_empty());
    }
    Ok(())
}
