//! C11 JSON quoting, C12 rejection, C14 builder sessions, C21 canonical forms

use crate::cmp::{compare, compare_r, nontriv, note, show, Opts};
use crate::gen::*;
use crate::props::lang::rewrite;
use crate::refa::{Classes, Dfa, RNode, BS};
use crate::runner::{guard, Arm, Ctx};
use crate::src::Src;
use crate::wild::{self, Flags, LowerErr};
use derivre::raw::DerivCache;
use derivre::{AlphabetInfo, ExprRef, JsonQuoteOptions, Regex, RegexAst, RegexBuilder};
use std::rc::Rc;

pub fn register(v: &mut Vec<Arm>) {
    v.push(Arm { prop: "C11", name: "quote", quick: 150000, thorough: 2250000, both: true,
        rule: "And/Not/Prefix-free expressions over bytes biased to control, quote, backslash and DEL; random allowed-escape subset and raw mode; quoted expression compared exactly with the byte-wise substitution of every symbol set by its allowed encodings. Non-trivial: the expression mentions a byte that needs an escape and the quoted language is not empty.",
        f: c11 });
    v.push(Arm { prop: "C11", name: "pattern", quick: 10000, thorough: 150000, both: true,
        rule: "the same for pattern strings (Unicode classes, dot, negated classes). Non-trivial: minimal DFA of the quoted language has at least 4 states.",
        f: c11_pat });
    v.push(Arm { prop: "C11", name: "multi", quick: 30000, thorough: 450000, both: true,
        rule: "one builder, 1-3 expressions, 2-6 quoting calls in any order: the same expression under several option sets, quoted expressions quoted again; every result compared exactly at the end. Non-trivial: some expression was quoted under two option sets that give different languages, or twice over.",
        f: c11_multi });
    v.push(Arm { prop: "C11", name: "look", quick: 20000, thorough: 300000, both: true,
        rule: "A LookAhead(B) quoted in raw mode: acceptance, reported length and deadness against the walk over the quoted A and B. Non-trivial: some reported length is not 0 and something needs an escape.",
        f: c11_look });
    v.push(Arm { prop: "C12", name: "soup", quick: 60000, thorough: 900000, both: true,
        rule: "token soup over the regex syntax incl. anchors, word boundaries, bad groups, flags, classes, repetition, stop groups: never a panic; parser errors and inner assertions must be errors; assertion-free patterns must compile; a compiled regex is walked with all queries. Non-trivial: the soup parses, or contains an assertion.",
        f: c12_soup });
    v.push(Arm { prop: "C12", name: "builder", quick: 60000, thorough: 900000, both: true,
        rule: "a faulty leaf (unknown reference, wrong-size byte set, bad pattern) at a random position of a random tree must give an error; unsupported json_quote operands and escapes must give errors; afterwards earlier and new expressions of the same builder still denote their reference language. Non-trivial: every case with at least one rejected request and one verified expression.",
        f: c12_builder });
    v.push(Arm { prop: "C14", name: "session", quick: 3000, thorough: 45000, both: true,
        rule: "builder sessions of 6-20 operations (build, parse with changing flags, containment, quote, compile, failing requests, clone) with a model of every returned reference; at the end every reference is compiled and compared exactly with its reference language. Non-trivial: at least 3 references alive and a flag change, failure, quote or clone in between.",
        f: c14 });
    v.push(Arm { prop: "C14", name: "flags", quick: 10000, thorough: 150000, both: true,
        rule: "the same pattern text parsed under several flag settings in one builder (class cache shared), meanings from the reference parser with the same flags. Non-trivial: at least two settings give different languages.",
        f: c14_flags });
    v.push(Arm { prop: "C14", name: "big", quick: 60, thorough: 900, both: true,
        rule: "random references built early, then 60000..200000 unrelated expressions (literals, sets, repeats, unions, classes) in the same builder, then further ones: early, late and mixed references are compiled and compared exactly with their reference languages. Non-trivial: every case.",
        f: c14_big });
    v.push(Arm { prop: "C14", name: "contained", quick: 8000, thorough: 120000, both: true,
        rule: "containment queries (is_contained_in, mk_contained_in) under changing flags in one builder, meanings from the reference parser with the flags set at that time; the patterns are related (widened, other case, other mode) or independent. Non-trivial: the verdict under some setting differs from that under the default flags, or both verdicts occur.",
        f: c14_contained });
    v.push(Arm { prop: "C21", name: "canon", quick: 400000, thorough: 6000000, both: true,
        rule: "compiled stores: unions/intersections of pool expressions under permutation, duplication and nesting, neutral/absorbing operands, double complement, single repetition; derivatives added to the pool. Non-trivial: at least 3 distinct operands.",
        f: c21_canon });
    v.push(Arm { prop: "C21", name: "lookfinite", quick: 30000, thorough: 450000, both: true,
        rule: "A LookAhead(B) with And/Not-free A, B a literal or a repeated class and a terminator (and unions of two), for which the model has at most 150 configurations of (A state, B states with smallest lengths): exhaustive exploration of all strings ends with finitely many states (cap 20000). Non-trivial: at least 5 configurations.",
        f: c21_lookfinite });
    v.push(Arm { prop: "C21", name: "rebuild", quick: 150000, thorough: 2250000, both: true,
        rule: "compiled stores after random derivatives and emptiness checks: every union, intersection, concatenation, complement and prefix closure in the store is built again from its operands (as stored, permuted, nested) and must be itself, without adding an expression. Non-trivial: at least 5 such expressions of 2 kinds.",
        f: c21_rebuild });
    v.push(Arm { prop: "C21", name: "same", quick: 300000, thorough: 4500000, both: false,
        rule: "the same tree built twice in one builder with unrelated work in between gives the identical reference (trees, patterns, quoting, containment). Non-trivial: at least 3 nodes.",
        f: c21_same });
    v.push(Arm { prop: "C21", name: "finite", quick: 200000, thorough: 3000000, both: true,
        rule: "exhaustive exploration of all strings: the number of states of a lookahead-free regex stays finite (bounded by a calibrated cap far above what size-limited expressions reach). Non-trivial: at least 6 states.",
        f: c21_finite });
}

// ------------------------------------------------------------------ C11

pub const ESCAPES: &str = "\"\\bfnrtu";

pub fn quote_forms(b: u8, allowed: &str) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let short = match b {
        b'\\' => Some('\\'),
        b'"' => Some('"'),
        8 => Some('b'),
        12 => Some('f'),
        10 => Some('n'),
        13 => Some('r'),
        9 => Some('t'),
        _ => None,
    };
    if let Some(c) = short {
        if allowed.contains(c) {
            v.push(vec![b'\\', c as u8]);
        }
    }
    if b < 0x20 {
        if allowed.contains('u') {
            let lo = format!("\\u{:04x}", b).into_bytes();
            let mut up = lo.clone();
            let n = up.len();
            up[n - 1] = up[n - 1].to_ascii_uppercase();
            if up != lo {
                v.push(up);
            }
            v.push(lo);
        }
    } else if b == 0x7f {
        if allowed.contains('u') {
            v.push(b"\\u007F".to_vec());
        }
    } else if short.is_none() {
        v.push(vec![b]);
    }
    v
}

pub fn quote_set(s: &BS, allowed: &str) -> RNode {
    let mut plain = BS::EMPTY;
    let mut words: Vec<Vec<BS>> = vec![];
    for b in s.bytes() {
        for f in quote_forms(b, allowed) {
            if f.len() == 1 {
                plain.set(f[0]);
            } else {
                words.push(f.iter().map(|x| BS::single(*x)).collect());
            }
        }
    }
    if plain != BS::EMPTY {
        words.push(vec![plain]);
    }
    if words.is_empty() {
        RNode::Empty
    } else {
        RNode::Seqs(Rc::new(words))
    }
}

pub fn gen_opts(s: &mut Src) -> JsonQuoteOptions {
    match s.weighted(&[2, 2, 6]) {
        0 => JsonQuoteOptions::no_unicode(),
        1 => JsonQuoteOptions::with_unicode(),
        _ => {
            let mut e = String::new();
            let dense = s.chance(1, 2);
            for c in ESCAPES.chars() {
                if s.chance(if dense { 3 } else { 1 }, 4) {
                    e.push(c);
                    if s.chance(1, 12) {
                        e.push(c);
                    }
                }
            }
            if s.chance(1, 3) {
                e = e.chars().rev().collect();
            }
            if s.chance(1, 10) {
                // the same characters again, in any order
                let v: Vec<char> = e.chars().collect();
                for _ in 0..s.range(1, 40) {
                    if !v.is_empty() {
                        e.push(*s.pick(&v));
                    }
                }
            }
            JsonQuoteOptions {
                allowed_escapes: e,
                raw_mode: s.chance(1, 2),
            }
        }
    }
}

fn json_pool(s: &mut Src) -> Vec<u8> {
    let n = s.range(1, 5);
    (0..n)
        .map(|_| {
            *s.pick(&[
                b'a', b'"', b'\\', b'\n', b'\t', 0x08, 0x0c, b'\r', 0x00, 0x01, 0x0b, 0x1f, 0x1e, 0x0e, 0x10, 0x1a, 0x20, 0x7f,
                b'n', b'u', b'0', b'b', b'/', b'1', b'f', b'F', 0x7e, 0x80, 0x21, 0x23, 0x5b, 0x5d,
            ])
        })
        .collect()
}

fn json_set(s: &mut Src, pool: &[u8]) -> BS {
    let mut x = match s.usize(7) {
        0 => BS::EMPTY,
        1 => BS::FULL,
        2 => BS::range(0, 0x1f),
        3 => {
            let mut x = BS::range(0, 0x1f);
            x.clear(b'\n');
            x
        }
        4 => BS::range(0, 0x7f),
        5 => BS::range(0x20, 0xff),
        _ => {
            let a = *s.pick(pool);
            let w = s.below(40) as u8;
            BS::range(a.saturating_sub(w / 2), a.saturating_add(w / 2 + 1))
        }
    };
    for b in pool {
        match s.usize(3) {
            0 => {}
            1 => x.set(*b),
            _ => x.clear(*b),
        }
    }
    x
}

fn gen_json(s: &mut Src, pool: &[u8], depth: usize) -> G {
    if depth == 0 {
        return match s.weighted(&[4, 5, 2, 1, 1]) {
            0 => G::Byte(*s.pick(pool)),
            1 => G::Set(json_set(s, pool)),
            2 => G::BLit((0..s.range(1, 4)).map(|_| *s.pick(pool)).collect()),
            3 => G::Eps,
            _ => G::None,
        };
    }
    match s.weighted(&[4, 4, 3, 2]) {
        0 => G::Cat((0..s.range(2, 3)).map(|_| gen_json(s, pool, depth - 1)).collect()),
        1 => G::Or((0..s.range(2, 3)).map(|_| gen_json(s, pool, depth - 1)).collect()),
        2 => {
            let (a, b) = gen_rep(s, 3);
            G::Rep(Box::new(gen_json(s, pool, depth - 1)), a, b)
        }
        _ => gen_json(s, pool, 0),
    }
}

fn needs_escape(r: &RNode) -> bool {
    let mut a = vec![];
    r.atoms(&mut a);
    a.iter().any(|s| s.bytes().iter().any(|b| *b < 0x20 || *b == b'"' || *b == b'\\' || *b == 0x7f))
}

fn quote_node(r: &RNode, o: &JsonQuoteOptions) -> RNode {
    let q = r.subst(&|s| quote_set(s, &o.allowed_escapes));
    if o.raw_mode {
        q
    } else {
        RNode::Cat(vec![RNode::lit(b"\""), q, RNode::lit(b"\"")])
    }
}

fn c11(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let pool = json_pool(s);
    let depth = s.range(0, 2);
    let g = gen_json(s, &pool, depth);
    let o = gen_opts(s);
    ctx.desc = format!("quote({}, {:?} raw={})", g.show(), o.allowed_escapes, o.raw_mode);
    let r = g.rnode();
    let q = quote_node(&r, &o);
    let mut rx = guard("json_quote", || -> Result<Regex, String> {
        let mut b = RegexBuilder::new();
        let e = g.build(&mut b)?;
        let e = b.json_quote(e, &o).map_err(|e| format!("json_quote rejected: {}", e))?;
        Ok(b.to_regex(e))
    })??;
    if let Some((d, _)) = compare_r(&mut rx, &q, Opts::DEAD, ctx)? {
        ctx.nontrivial = needs_escape(&r) && !d.is_empty();
        ctx.label(if o.raw_mode { "raw mode" } else { "quoted mode" });
    }
    Ok(())
}

fn c11_multi(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut b = RegexBuilder::new();
    // reference, language, times quoted, name
    let mut es: Vec<(ExprRef, RNode, usize, String)> = vec![];
    let pool = json_pool(s);
    for i in 0..s.range(1, 3) {
        let depth = s.range(0, 2);
        let g = gen_json(s, &pool, depth);
        let e = guard("building", || g.build(&mut b))??;
        es.push((e, g.rnode(), 0, format!("e{}={}", i, g.show())));
    }
    let mut desc = es.iter().map(|e| e.3.clone()).collect::<Vec<_>>().join("; ");
    let mut used: Vec<(usize, JsonQuoteOptions)> = vec![];
    let mut out: Vec<(ExprRef, RNode, String)> = vec![];
    for _ in 0..s.range(2, 6) {
        let i = s.usize(es.len());
        if es[i].2 >= 2 {
            continue;
        }
        let mut o = gen_opts(s);
        if let Some((_, p)) = used.last() {
            // the options of another call with one of them changed
            match s.usize(4) {
                0 => o.allowed_escapes = p.allowed_escapes.clone(),
                1 => o.raw_mode = p.raw_mode,
                2 => {
                    o = p.clone();
                    let c = *s.pick(&ESCAPES.chars().collect::<Vec<_>>());
                    if o.allowed_escapes.contains(c) {
                        o.allowed_escapes.retain(|x| x != c);
                    } else {
                        o.allowed_escapes.push(c);
                    }
                }
                _ => {}
            }
        }
        let nm = format!("quote({}, {:?} raw={})", es[i].3.split('=').next().unwrap(), o.allowed_escapes, o.raw_mode);
        desc.push_str("; ");
        desc.push_str(&nm);
        let q = guard("json_quote", || b.json_quote(es[i].0, &o))?.map_err(|e| format!("{} rejected: {}", nm, e))?;
        let r = quote_node(&es[i].1, &o);
        out.push((q, r.clone(), nm.clone()));
        if es[i].2 > 0 {
            ctx.nontrivial = true;
        }
        let lvl = es[i].2 + 1;
        used.push((i, o));
        if s.chance(1, 3) {
            es.push((q, r, lvl, format!("e{}={}", es.len(), nm)));
        }
    }
    ctx.desc = desc;
    let mut langs: Vec<Option<Dfa>> = vec![];
    let refs: Vec<&RNode> = out.iter().map(|x| &x.1).collect();
    let cl = Classes::for_nodes(&refs);
    for (q, r, nm) in &out {
        let mut rx = guard("to_regex", || b.to_regex(*q))?;
        let d = match Dfa::from_rnode(&cl, r) {
            Ok(d) => d,
            Err(_) => {
                langs.push(None);
                continue;
            }
        };
        let st = compare(&mut rx, &d, &cl, Opts::DEAD).map_err(|m| format!("{}: {}", nm, m))?;
        note(ctx, &d, &st);
        langs.push(Some(d));
    }
    for i in 0..out.len() {
        for j in 0..i {
            if used[i].0 == used[j].0 {
                if let (Some(x), Some(y)) = (&langs[i], &langs[j]) {
                    if x.product_of(y, |a, b| a != b).map_or(false, |d| !d.is_empty()) {
                        ctx.nontrivial = true;
                    }
                }
            }
        }
    }
    Ok(())
}

fn c11_look(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let pool = json_pool(s);
    let (da, db) = (s.range(0, 1), s.range(0, 2));
    let ga = gen_json(s, &pool, da);
    let gb = gen_json(s, &pool, db);
    let mut o = gen_opts(s);
    o.raw_mode = true;
    ctx.desc = format!("quote({} LA({}), {:?} raw)", ga.show(), gb.show(), o.allowed_escapes);
    let mut rx = guard("json_quote", || -> Result<Regex, String> {
        let mut b = RegexBuilder::new();
        let (x, y) = (ga.to_ast(&mut b)?, gb.to_ast(&mut b)?);
        let e = b.mk(&RegexAst::Concat(vec![x, RegexAst::LookAhead(Box::new(y))])).map_err(|e| e.to_string())?;
        let e = b.json_quote(e, &o).map_err(|e| format!("json_quote rejected: {}", e))?;
        Ok(b.to_regex(e))
    })??;
    let (ra, rb) = (ga.rnode(), gb.rnode());
    let (ls, cl) = match crate::props::engine::mk_looks(&[(quote_node(&ra, &o), quote_node(&rb, &o))]) {
        Some(x) => x,
        None => return ctx.discard("reference automaton too big"),
    };
    let nonzero = crate::props::engine::look_walk(&mut rx, &ls, &cl, ctx, false)?;
    ctx.nontrivial = nonzero && (needs_escape(&ra) || needs_escape(&rb));
    Ok(())
}

fn c11_pat(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (pat, r) = if s.chance(1, 2) {
        let mut c = GCfg::full(s, 6);
        c.unicode = s.chance(1, 2);
        c.pool = json_pool(s).into_iter().filter(|b| *b < 0x80).collect();
        if c.pool.is_empty() {
            c.pool.push(b'"');
        }
        let p = gen_pat(s, &c, 7);
        (p.to_pattern(), p.rnode())
    } else {
        let pat = s
            .pick(&[
                ".*", "[^\"]*", "(?s:.)", "[^\\\\\"]+", "\\PL", "[\\x00-\\x1f]", "[^\\x00-\\x1f\"\\\\]{0,3}", "\\s+", "[^a-z]", "\\\\[\"n]",
                "(.|\\n)*", "[\\n\\t]x|\\r", "\\x7f.", "[^\\n]{1,2}\"", "(foo|bar)\\n", "\\D\\d", "[^\\x7f]", "[^ -~]",
            ])
            .to_string();
        let hir = Flags::DEFAULT.parser().parse(&pat).map_err(|e| format!("internal: {}", e))?;
        let r = wild::lower(&hir, true, true).map_err(|e| format!("internal: {:?}", e))?;
        (pat, r)
    };
    let o = gen_opts(s);
    ctx.desc = format!("quote(/{}/, {:?} raw={})", pat, o.allowed_escapes, o.raw_mode);
    let q = quote_node(&r, &o);
    let mut rx = guard("json_quote", || -> Result<Regex, String> {
        let mut b = RegexBuilder::new();
        let e = b.mk_regex(&pat).map_err(|e| format!("valid pattern rejected: {}", e))?;
        let e = b.json_quote(e, &o).map_err(|e| format!("json_quote rejected: {}", e))?;
        Ok(b.to_regex(e))
    })??;
    if let Some((d, _)) = compare_r(&mut rx, &q, Opts::DEAD, ctx)? {
        ctx.nontrivial = d.n() >= 4;
    }
    Ok(())
}

// ------------------------------------------------------------------ C12

const TOKENS: &[&str] = &[
    "a", "b", "xyz", ".", "\\d", "\\w", "\\b", "\\B", "^", "$", "\\A", "\\z", "(?m:^)", "(?m:$)", "\\b{start}", "\\<", "(", ")", "[", "]",
    "[^", "{", "}", "{2,3}", "{1,", "{3}", "{2,1}", "*", "+", "?", "??", "*?", "|", "|", "(?:", "(?P<stop>", "(?P<x>", "(?<y>", "(?i)", "(?s)",
    "(?x)", "(?-u)", "(?R)", "(?U)", "\\pL", "\\p{Foo}", "\\p{Greek}", "\\xff", "\\x{110000}", "\\u{d800}", "\\u00e9", "\\", "-", "&&", "--", "~~",
    "[a-z]", "[z-a]", "[[:alpha:]]", "[[:foo:]]", "é", "😀", "\u{0}", "\n", "#", " ", "\\n", "\\Q", "\\1", "(?=a)", "(?!a)", "(?<=a)", "(?>a)",
    "[]", "[^]", "[a", "(?P<1>", "\\G", "\\K", "\\R", "\\h", "{0}", "{0,0}", "{,3}", "()", "(|)", "[a&&b]", "\\z", "$", "^", "{1000}",
];

fn c12_soup(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let f = Flags::gen(s);
    let mut pat = String::new();
    match s.usize(4) {
        0 => {
            // valid pattern with one token inserted
            let mut names = 0;
            let size = s.range(1, 6);
            pat = wild::gen_wild(s, &f, size, &mut names);
            for _ in 0..s.range(1, 2) {
                let idx: Vec<usize> = pat.char_indices().map(|(i, _)| i).chain([pat.len()]).collect();
                let at = *s.pick(&idx);
                let t = *s.pick(TOKENS);
                pat.insert_str(at, t);
            }
        }
        1 => {
            // assertions at chosen structural places
            let t = *s.pick(&["^", "$", "\\b", "\\B", "\\A", "\\z", "(?m:^)", "(?m:$)", "(?R:$)", "(?mR:^)", "\\b{end}", "\\b{start-half}"]);
            let a = *s.pick(&["a", "[ab]*", "(x|y)", "", "(?:ab)?"]);
            let b = *s.pick(&["b", "c+", "(d)", "", ".*"]);
            let shapes = [
                format!("{t}{a}{b}"),
                format!("{a}{t}{b}"),
                format!("{a}{b}{t}"),
                format!("({t}{a}|{b})"),
                format!("({a}|{t}{b})c"),
                format!("x({a}{t}|{b})"),
                format!("({a}{t}|{b})x"),
                format!("(?:{t}{a})*{b}"),
                format!("({a}{b}{t})+"),
                format!("{a}|{t}|{b}"),
                format!("(({t}){a})"),
                format!("({a}({b}{t}))"),
                format!("{t}{t}{a}"),
                format!("{a}(?P<stop>{b}{t})"),
                format!("({t}){{2}}{a}"),
                format!("(?:{a}|{t})?"),
            ];
            pat = s.pick(&shapes).clone();
        }
        _ => {
            for _ in 0..s.range(1, 9) {
                pat.push_str(s.pick(TOKENS));
            }
        }
    }
    ctx.desc = format!("/{}/ {}", pat, f.show());
    let use_builder = s.chance(1, 2);
    let res = guard("compiling a pattern", || -> anyhow::Result<Regex> {
        if use_builder {
            let mut b = RegexBuilder::new();
            f.apply(&mut b);
            let e = b.mk_regex(&pat)?;
            Ok(b.to_regex(e))
        } else {
            Regex::new_with_parser(f.parser(), &pat)
        }
    })?;
    match f.parser().parse(&pat) {
        Err(_) => {
            ctx.label("syntax error");
            if res.is_ok() {
                return Err("compiled although the pattern has a syntax error".into());
            }
        }
        Ok(h) => {
            ctx.nontrivial = true;
            match wild::lower(&h, true, true) {
                Ok(r) => {
                    ctx.label("plain pattern");
                    match res {
                        Err(e) => return Err(format!("supported pattern rejected: {}", e)),
                        Ok(mut rx) => {
                            compare_r(&mut rx, &r, Opts { cap: 500, ..Opts::LANG }, ctx)?;
                            ctx.discard = None;
                            let rx2 = rx;
                            return walk_any(s, rx2);
                        }
                    }
                }
                Err(LowerErr::Look) => {
                    ctx.label("inner assertion");
                    if res.is_ok() {
                        return Err("compiled although an assertion is not at an outer edge".into());
                    }
                }
                Err(LowerErr::Gray) => ctx.label("assertion next to zero-width"),
                Err(LowerErr::Stop) => {
                    ctx.label("stop group");
                    if let Ok(rx) = res {
                        return walk_any(s, rx);
                    }
                }
            }
        }
    }
    Ok(())
}

/// use every query on random walks: nothing may panic
fn walk_any(s: &mut Src, mut rx: Regex) -> Result<(), String> {
    guard("queries on a compiled regex", || {
        for _ in 0..3 {
            let mut st = rx.initial_state();
            for _ in 0..10 {
                rx.is_accepting(st);
                rx.lookahead_len_for_state(st);
                rx.next_byte(st);
                let b = if s.chance(1, 3) { s.byte() } else { *s.pick(b"abx0\xc3\xa9 ") };
                st = rx.transition(st, b);
            }
        }
        let _ = rx.always_empty();
        let _ = rx.stats();
        let _ = format!("{:?}", rx);
        let _ = rx.num_bytes();
    })
}

fn inject(s: &mut Src, g: &G, b: &mut RegexBuilder, bad: &RegexAst) -> Result<RegexAst, String> {
    // replace a random leaf/child by the faulty node
    Ok(match g {
        G::And(v) | G::Or(v) | G::Cat(v) if !v.is_empty() => {
            let i = s.usize(v.len());
            let mut w: Vec<RegexAst> = vec![];
            for (j, x) in v.iter().enumerate() {
                if i == j {
                    w.push(inject(s, x, b, bad)?)
                } else {
                    w.push(x.to_ast(b)?)
                }
            }
            match g {
                G::And(_) => RegexAst::And(w),
                G::Or(_) => RegexAst::Or(w),
                _ => RegexAst::Concat(w),
            }
        }
        G::Not(x) => RegexAst::Not(Box::new(inject(s, x, b, bad)?)),
        G::Rep(x, lo, hi) => RegexAst::Repeat(Box::new(inject(s, x, b, bad)?), *lo, *hi),
        G::Prefix(x) => RegexAst::Prefixes(Box::new(inject(s, x, b, bad)?)),
        _ => bad.clone(),
    })
}

fn verify(b: &RegexBuilder, e: ExprRef, r: &RNode, what: &str) -> Result<bool, String> {
    let cl = Classes::for_nodes(&[r]);
    let d = match Dfa::from_rnode(&cl, r) {
        Ok(d) => d,
        Err(_) => return Ok(false),
    };
    verify_dfa(b, e, &d, &cl, what)
}

fn verify_dfa(b: &RegexBuilder, e: ExprRef, d: &Dfa, cl: &Classes, what: &str) -> Result<bool, String> {
    let mut rx = guard("to_regex", || b.to_regex(e))?;
    compare(&mut rx, d, cl, Opts { cap: 800, ..Opts::LANG }).map_err(|m| format!("{}: {}", what, m))?;
    if b.is_nullable(e) != d.acc[d.start as usize] {
        return Err(format!("{}: is_nullable = {}", what, b.is_nullable(e)));
    }
    Ok(true)
}

/// quoting something supported in a builder in which a quoting has just failed
fn requote(s: &mut Src, b: &mut RegexBuilder, c: &GCfg, desc: &mut String) -> Result<bool, String> {
    let mut p = c.clone();
    p.and = false;
    p.not = false;
    p.prefix = false;
    let g = match s.usize(3) {
        0 => G::Or(vec![G::BLit(vec![b'a', b'b']), G::BLit(vec![b'a', b'c']), gen_g(s, &p)]),
        _ => gen_g(s, &p),
    };
    let o = gen_opts(s);
    desc.push_str(&format!(" requote {} {:?} {};", g.show(), o.allowed_escapes, o.raw_mode));
    let e = guard("building", || g.build(b))??;
    let q = guard("json_quote", || b.json_quote(e, &o))?.map_err(|m| format!("{} after{}", m, desc))?;
    verify(b, q, &quote_node(&g.rnode(), &o), "quoting after a failed quoting").map_err(|m| format!("{} after{}", m, desc))
}

fn c12_builder(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 6);
    c.unicode = s.chance(1, 8);
    let mut b = RegexBuilder::new();
    let g0 = gen_g(s, &c);
    let e0 = guard("building", || g0.build(&mut b))??;
    let mut desc = format!("first {};", g0.show());
    let mut rejected = 0;
    for _ in 0..s.range(1, 3) {
        match s.usize(5) {
            0 => {
                let bad = match s.usize(5) {
                    4 => RegexAst::ExprRef(ExprRef::new(u32::MAX)),
                    0 => RegexAst::ExprRef(ExprRef::INVALID),
                    1 => RegexAst::ExprRef(ExprRef::new(u32::MAX - s.below(5) as u32)),
                    2 => RegexAst::ExprRef(ExprRef::new(1_000_000 + s.below(1000) as u32)),
                    _ => RegexAst::ByteSet(vec![0x55; *s.pick(&[0usize, 1, 7, 9, 16])]),
                };
                let g = gen_g(s, &c);
                let ast = inject(s, &g, &mut b, &bad)?;
                desc.push_str(&format!(" bad {:?};", ast));
                if guard("mk", || b.mk(&ast))?.is_ok() {
                    ctx.desc = desc;
                    return Err("a tree with an invalid leaf was accepted".into());
                }
                // the first numbers that are not references yet, without anything else being built meanwhile
                let n = b.exprset().len() as u32 + s.below(3) as u32;
                let next = RegexAst::ExprRef(ExprRef::new(n));
                let next = match s.usize(4) {
                    0 => next,
                    1 => RegexAst::Concat(vec![next]),
                    2 => RegexAst::Not(Box::new(next)),
                    _ => RegexAst::Or(vec![next, RegexAst::EmptyString]),
                };
                desc.push_str(&format!(" bad {:?};", next));
                if guard("mk", || b.mk(&next))?.is_ok() {
                    ctx.desc = desc;
                    return Err("a reference that does not exist yet was accepted".into());
                }
                rejected += 1;
            }
            1 => {
                let bad = s.pick(&["(", "[a", "a{2,1}", "\\b", "a^b", "a$b", "*", "\\p{Foo}", "x\\Bx", "(?m:^)a", "(?P<n>a)(?P<n>b)", "(?=x)", "(^a)*"]);
                let g = gen_g(s, &c);
                let ast = inject(s, &g, &mut b, &RegexAst::Regex(bad.to_string()))?;
                desc.push_str(&format!(" bad {:?};", ast));
                if guard("mk", || b.mk(&ast))?.is_ok() {
                    ctx.desc = desc;
                    return Err("a tree with an unsupported pattern was accepted".into());
                }
                rejected += 1;
            }
            2 => {
                // quoting unsupported nodes: two different operands no simplification can remove
                let x = G::BLit(vec![*s.pick(&c.pool), b'q']);
                let y = G::Rep(Box::new(G::BLit(vec![b'q', b'r'])), 2, 5);
                let core = match s.usize(3) {
                    0 => G::And(vec![x, y]),
                    1 => G::Not(Box::new(x)),
                    _ => G::Prefix(Box::new(y)),
                };
                let g = match s.usize(4) {
                    0 => core,
                    1 => G::Cat(vec![G::Lit("z".into()), core]),
                    2 => G::Or(vec![G::Lit("zz".into()), G::Cat(vec![core, G::Byte(b'k')])]),
                    _ => G::Rep(Box::new(G::Cat(vec![G::Byte(b'w'), core])), 0, 3),
                };
                let e = guard("building", || g.build(&mut b))??;
                let o = gen_opts(s);
                desc.push_str(&format!(" quote {} {:?};", g.show(), o.allowed_escapes));
                if guard("json_quote", || b.json_quote(e, &o))?.is_ok() {
                    ctx.desc = desc;
                    return Err("json_quote accepted an unsupported operator".into());
                }
                if !requote(s, &mut b, &c, &mut desc)? {
                    ctx.label("quoting after the failure skipped: too big");
                }
                if !verify(&b, e, &g.rnode(), "the expression whose quoting failed")? {
                    ctx.label("verification skipped: too big");
                }
                rejected += 1;
            }
            3 => {
                let badc = *s.pick(&['a', 'x', 'N', ' ', '/', '\'', '0', 'é', '\n', 'U', 'v']);
                let mut o = gen_opts(s);
                let idx: Vec<usize> = (0..=o.allowed_escapes.len()).collect();
                let at = *s.pick(&idx);
                o.allowed_escapes.insert(at, badc);
                desc.push_str(&format!(" quote first {:?};", o.allowed_escapes));
                if guard("json_quote", || b.json_quote(e0, &o))?.is_ok() {
                    ctx.desc = desc;
                    return Err(format!("json_quote accepted the escape {:?}", badc));
                }
                if s.chance(1, 3) && !requote(s, &mut b, &c, &mut desc)? {
                    ctx.label("quoting after the failure skipped: too big");
                }
                rejected += 1;
            }
            _ => {
                let bad: String = match s.usize(4) {
                    0 => s.pick(&["(", "\\b", "[z-a]", "a\\Bb"]).to_string(),
                    1 => format!("{}\\b{}", s.pick(&["ab", "[ab]*", "x|y", ""]), s.pick(&["cd", "c*", "q+"])),
                    2 => format!("(?s){}{}", s.pick(&["(a", "a)", "a{3,1}", "x**\\Bq", "a$b"]), s.pick(&["", "bc", "d*"])),
                    _ => format!("{}(?:{})", s.pick(&["a", "ab*", "[0-9]{2}"]), s.pick(&["\\B", "x^y", "a\\<", "\\p{Foo}"])),
                };
                desc.push_str(&format!(" containment with /{}/;", bad));
                let how = s.usize(4);
                let fuel = *s.pick(&[u64::MAX, 1_000_000, 100]);
                let r = guard("is_contained_in", || match how {
                    0 => b.is_contained_in(&bad, "a", fuel).map(|_| ()),
                    1 => b.is_contained_in("a", &bad, fuel).map(|_| ()),
                    2 => b.is_contained_in(&bad, &bad, fuel).map(|_| ()),
                    _ => match s.usize(3) {
                        0 => b.mk_contained_in(&bad, "ab*"),
                        1 => b.mk_contained_in("ab*", &bad),
                        _ => b.mk_contained_in(&bad, &bad),
                    }
                    .map(|_| ()),
                })?;
                if r.is_ok() {
                    ctx.desc = desc;
                    return Err("is_contained_in accepted an unsupported pattern".into());
                }
                rejected += 1;
            }
        }
    }
    let g1 = gen_g(s, &c);
    desc.push_str(&format!(" then {}", g1.show()));
    ctx.desc = desc;
    let e1 = guard("building", || g1.build(&mut b))??;
    let v0 = verify(&b, e0, &g0.rnode(), "expression built before the failures")?;
    let v1 = verify(&b, e1, &g1.rnode(), "expression built after the failures")?;
    ctx.nontrivial = rejected > 0 && (v0 || v1);
    Ok(())
}

// ------------------------------------------------------------------ C14

/// reference automaton of a pool entry, shared by clones of the entry
type Memo = std::rc::Rc<std::cell::OnceCell<Option<(Dfa, Classes)>>>;
/// reference, model, And/Not-free, description, reference automaton
type Entry = (ExprRef, RNode, bool, String, Memo);

fn verify_memo(b: &RegexBuilder, e: ExprRef, r: &RNode, memo: &Memo, what: &str) -> Result<bool, String> {
    let m = memo.get_or_init(|| {
        let cl = Classes::for_nodes(&[r]);
        Dfa::from_rnode(&cl, r).ok().map(|d| (d, cl))
    });
    match m {
        None => Ok(false),
        Some((d, cl)) => verify_dfa(b, e, d, cl, what),
    }
}

fn c14(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 5);
    c.unicode = s.chance(1, 5);
    struct B {
        b: RegexBuilder,
        flags: Flags,
        /// reference, model, And/Not-free
        pool: Vec<Entry>,
    }
    let mut bs = vec![B {
        b: RegexBuilder::new(),
        flags: Flags::DEFAULT,
        pool: vec![],
    }];
    let mut desc = String::new();
    let mut special = 0;
    for _ in 0..s.range(6, 20) {
        let i = s.usize(bs.len());
        let op = s.weighted(&[6, 5, 3, 2, 3, 2, 2, 1, 2]);
        let nb = bs.len();
        let me = &mut bs[i];
        match op {
            0 => {
                // combine pool entries and a fresh tree
                let g = gen_g(s, &c);
                // embedded patterns are parsed under the current flags: only use when default
                if me.flags != Flags::DEFAULT && g.any(&|x| matches!(x, G::Rx(_))) {
                    continue;
                }
                let mut asts = vec![g.to_ast(&mut me.b)?];
                let mut nodes = vec![g.rnode()];
                let mut ok = !g.has_andnot();
                let mut names = g.show();
                for _ in 0..s.range(0, 2) {
                    if !me.pool.is_empty() {
                        let (e, n, o, nm, _) = s.pick(&me.pool).clone();
                        asts.push(RegexAst::ExprRef(e));
                        nodes.push(n);
                        ok &= o;
                        names.push_str(&format!(", <{}>", nm));
                    }
                }
                let (ast, node, ok, nm) = match s.usize(6) {
                    0 => (RegexAst::And(asts), RNode::And(nodes), false, "And"),
                    1 => (RegexAst::Or(asts), RNode::Alt(nodes), ok, "Or"),
                    2 => (
                        RegexAst::Not(Box::new(RegexAst::Or(asts))),
                        RNode::Not(Box::new(RNode::Alt(nodes))),
                        false,
                        "Nor",
                    ),
                    3 => (
                        RegexAst::Repeat(Box::new(RegexAst::Concat(asts)), 0, 3),
                        RNode::Rep(Box::new(RNode::Cat(nodes)), 0, Some(3)),
                        ok,
                        "Rep03",
                    ),
                    _ => (RegexAst::Concat(asts), RNode::Cat(nodes), ok, "Cat"),
                };
                let e = guard("mk", || me.b.mk(&ast))?.map_err(|e| format!("rejected: {}", e))?;
                let nm = crate::runner::clip(&format!("{}[{}]", nm, names), 200);
                desc.push_str(&format!(" b{}:{};", i, nm));
                me.pool.push((e, node, ok, nm, Memo::default()));
            }
            1 => {
                // pattern under current flags
                let f = me.flags;
                let mut names = 0;
                let size = s.range(1, 5);
                let pat = wild::gen_wild(s, &f, size, &mut names);
                let hir = match f.parser().parse(&pat) {
                    Ok(h) => h,
                    Err(_) => {
                        special += 1;
                        if guard("mk_regex", || me.b.mk_regex(&pat))?.is_ok() {
                            return Err(format!("pattern with a syntax error accepted: /{}/", pat));
                        }
                        continue;
                    }
                };
                if let Ok(n) = wild::lower(&hir, true, true) {
                    let e = guard("mk_regex", || me.b.mk_regex(&pat))?
                        .map_err(|e| format!("/{}/ {} rejected: {}", pat, f.show(), e))?;
                    let nm = format!("/{}/{}", pat, f.show());
                    desc.push_str(&format!(" b{}:{};", i, nm));
                    me.pool.push((e, n, true, nm, Memo::default()));
                }
            }
            2 => {
                let f = Flags::gen(s);
                f.apply(&mut me.b);
                me.flags = f;
                special += 1;
                desc.push_str(&format!(" b{}:flags[{}];", i, f.show()));
            }
            3 => {
                // failing requests
                special += 1;
                let r = match s.usize(5) {
                    3 => {
                        let x = RegexAst::Literal("nn".into());
                        let y = RegexAst::Repeat(Box::new(RegexAst::Literal("no".into())), 2, 4);
                        let z = match s.usize(3) {
                            0 => RegexAst::Not(Box::new(x)),
                            1 => RegexAst::And(vec![x, y]),
                            _ => RegexAst::Prefixes(Box::new(y)),
                        };
                        let e = guard("mk", || me.b.mk(&z))?.map_err(|e| e.to_string())?;
                        let o = gen_opts(s);
                        guard("json_quote", || me.b.json_quote(e, &o))?.is_ok()
                    }
                    4 => {
                        let e = match me.pool.last() {
                            Some(x) => x.0,
                            None => continue,
                        };
                        let mut o = gen_opts(s);
                        o.allowed_escapes.push(*s.pick(&['x', 'a', ' ']));
                        guard("json_quote", || me.b.json_quote(e, &o))?.is_ok()
                    }
                    0 => guard("mk_regex", || me.b.mk_regex("a\\b"))?.is_ok(),
                    1 => guard("mk", || {
                        me.b.mk(&RegexAst::Concat(vec![
                            RegexAst::Literal("zz".into()),
                            RegexAst::ExprRef(ExprRef::INVALID),
                        ]))
                    })?
                    .is_ok(),
                    _ => guard("mk", || me.b.mk(&RegexAst::Or(vec![RegexAst::Byte(3), RegexAst::ByteSet(vec![1])])))?.is_ok(),
                };
                if r {
                    return Err("an invalid request was accepted".into());
                }
                desc.push_str(&format!(" b{}:fail;", i));
            }
            4 => {
                // quote something quotable
                let cand: Vec<usize> = (0..me.pool.len()).filter(|j| me.pool[*j].2).collect();
                if cand.is_empty() {
                    continue;
                }
                let j = *s.pick(&cand);
                let o = gen_opts(s);
                let (e, n, _, nm, _) = me.pool[j].clone();
                let q = guard("json_quote", || me.b.json_quote(e, &o))?.map_err(|e| format!("json_quote({}) rejected: {}", nm, e))?;
                special += 1;
                let nm = format!("quote(<{}>,{:?},{})", nm, o.allowed_escapes, o.raw_mode);
                desc.push_str(&format!(" b{}:{};", i, nm));
                me.pool.push((q, quote_node(&n, &o), true, crate::runner::clip(&nm, 200), Memo::default()));
            }
            5 => {
                // compile and query something in between
                if let Some((e, _, _, nm, _)) = me.pool.last().cloned() {
                    let mut rx = guard("to_regex", || me.b.to_regex(e))?;
                    let w = gen_bytes(s, &c.pool, 6);
                    rx.is_match_bytes(&w);
                    let _ = guard("to_regex_limited", || me.b.to_regex_limited(e, 5))?;
                    desc.push_str(&format!(" b{}:compile <{}>;", i, nm));
                }
            }
            6 => {
                if nb < 3 {
                    let n = B {
                        b: me.b.clone(),
                        flags: me.flags,
                        pool: me.pool.clone(),
                    };
                    desc.push_str(&format!(" b{}=clone(b{});", nb, i));
                    special += 1;
                    bs.push(n);
                }
            }
            7 => {
                // containment queries leave nodes behind
                let _ = guard("is_contained_in", || me.b.is_contained_in("[ab]*c", "[a-c]*", 100_000))?;
                desc.push_str(&format!(" b{}:contained;", i));
            }
            _ => {
                // re-verify one entry now
                if !me.pool.is_empty() {
                    let (e, n, _, nm, memo) = s.pick(&me.pool).clone();
                    ctx.desc = desc.clone();
                    verify_memo(&me.b, e, &n, &memo, &format!("mid-session b{} <{}>", i, nm))?;
                }
            }
        }
    }
    ctx.desc = desc;
    let mut verified = 0;
    for (i, me) in bs.iter().enumerate() {
        for (e, n, _, nm, memo) in &me.pool {
            if verify_memo(&me.b, *e, n, memo, &format!("end of session b{} <{}>", i, nm))? {
                verified += 1;
            } else {
                ctx.label("reference skipped: too big");
            }
        }
    }
    ctx.add("references verified", verified);
    ctx.nontrivial = verified >= 3 && special >= 1;
    Ok(())
}

fn c14_big(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 6);
    c.unicode = s.chance(1, 4);
    let mut b = RegexBuilder::new();
    let mut pool: Vec<(ExprRef, RNode, String)> = vec![];
    let mut add = |s: &mut Src, b: &mut RegexBuilder, pool: &mut Vec<(ExprRef, RNode, String)>| -> Result<(), String> {
        let g = gen_g(s, &c);
        let e = guard("building", || g.build(b))??;
        pool.push((e, g.rnode(), g.show()));
        if pool.len() > 1 && s.chance(1, 2) {
            let (e1, n1, d1) = s.pick(pool).clone();
            let (e2, n2, d2) = s.pick(pool).clone();
            let (x, y) = (RegexAst::ExprRef(e1), RegexAst::ExprRef(e2));
            let (ast, n) = match s.usize(2) {
                0 => (RegexAst::Or(vec![x, y]), RNode::Alt(vec![n1, n2])),
                _ => (RegexAst::Concat(vec![x, y]), RNode::Cat(vec![n1, n2])),
            };
            let e = guard("building", || b.mk(&ast))?.map_err(|e| e.to_string())?;
            pool.push((e, n, format!("{}({}, {})", ast.tag(), d1, d2)));
        }
        Ok(())
    };
    for _ in 0..s.range(2, 4) {
        add(s, &mut b, &mut pool)?;
    }
    let target = s.range(60_000, 200_000);
    let kind = s.usize(3);
    let mut x = s.u64();
    let mut last = RegexAst::Byte(b'a');
    while b.exprset().len() < target {
        let r = crate::src::splitmix(&mut x);
        let bytes = r.to_le_bytes();
        let ast = match (kind, r >> 61) {
            (0, 0..=5) | (1, 0) => RegexAst::ByteLiteral(bytes[..2 + (r >> 50) as usize % 4].to_vec()),
            (1, 1..=3) => RegexAst::Repeat(Box::new(last.clone()), (r % 1000) as u32, 1000 + (r >> 20) as u32 % 100_000),
            (2, 0..=4) => RegexAst::ByteSet((0..8u64).map(|i| (r >> i) as u32).collect()),
            (_, 6) => RegexAst::Not(Box::new(RegexAst::ByteLiteral(bytes[..4].to_vec()))),
            _ => RegexAst::Or(vec![RegexAst::ByteLiteral(bytes[..3].to_vec()), last.clone()]),
        };
        let e = guard("building", || b.mk(&ast))?.map_err(|e| e.to_string())?;
        // keep the unrelated expressions themselves small
        last = if r & 0x700 == 0 || b.exprset().get_args(e).len() > 6 { RegexAst::Byte(bytes[5]) } else { RegexAst::ExprRef(e) };
    }
    for _ in 0..s.range(2, 4) {
        add(s, &mut b, &mut pool)?;
    }
    ctx.desc = format!(
        "{} expressions (kind {}), checked: {}",
        b.exprset().len(),
        kind,
        pool.iter().map(|p| p.2.clone()).collect::<Vec<_>>().join("; ")
    );
    ctx.nontrivial = true;
    for (e, n, d) in &pool {
        if !verify(&b, *e, n, d)? {
            ctx.label("verification skipped: too big");
        }
    }
    Ok(())
}

fn c14_flags(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut b = RegexBuilder::new();
    let mut names = 0;
    let size = s.range(1, 4);
    let pat = match s.usize(4) {
        2 => s
            .pick(&[
                "\\141", "a # \\1", "\\0", "[\\7]", "\\08", "(?x) a b", "(?-x: a)", "(?-s:.)", "(?R).", "(?-s:a.b)", "(?U)a+?", "a\\ b", "[a b]", "x{2, 3}", "(?-i:k)", "(?-u:\\xFF)", "\\x{4B}", "(?m)a",
                "a#b\n", "(?-u:[^a])", "(?s-i:.k)", "\\#", "[\\ #]", "(?x: [ a ] # b\n)", "a{ 2 }", "\\pL", "(?-u:\\w)", "\\Q", "(?i)(?-i)k", "\\k", "\\z", "\\A",
            ])
            .to_string(),
        3 => (0..s.range(1, 40)).map(|_| *s.pick(&['a', 'k', 'S', 'K', '0', '9', 'z', 'B'])).collect(),
        0 => s
            .pick(&["[a-k]", "k", ".", "a b", "[^a]", "\\w", "s#x", "ſ", "[[:alpha:]]", "x.y", "(a|B)c", "\\D", "é", " ", "[k-s]+", "A.b C"])
            .to_string(),
        _ => wild::gen_wild(s, &Flags::DEFAULT, size, &mut names),
    };
    ctx.desc = format!("/{}/ under", pat);
    let mut got: Vec<(ExprRef, RNode, Flags)> = vec![];
    let mut cur = Flags::DEFAULT;
    for k in 0..s.range(2, 5) {
        let mut f = Flags {
            unicode: !s.chance(1, 4),
            utf8: !s.chance(1, 4),
            ws: s.chance(1, 3),
            icase: s.chance(1, 2),
            dotnl: s.chance(1, 2),
        };
        if k > 0 && s.chance(1, 2) {
            // change a single flag through its own setter only
            let mut g = cur;
            match s.usize(5) {
                0 => {
                    g.unicode = !g.unicode;
                    b.unicode(g.unicode);
                }
                1 => {
                    g.utf8 = !g.utf8;
                    b.utf8(g.utf8);
                }
                2 => {
                    g.ws = !g.ws;
                    b.ignore_whitespace(g.ws);
                }
                3 => {
                    g.icase = !g.icase;
                    b.case_insensitive(g.icase);
                }
                _ => {
                    g.dotnl = !g.dotnl;
                    b.dot_matches_new_line(g.dotnl);
                }
            }
            f = g;
        } else {
            f.apply(&mut b);
        }
        cur = f;
        ctx.desc.push_str(&format!(" [{}]", f.show()));
        let r = guard("mk_regex", || b.mk_regex(&pat))?;
        match f.parser().parse(&pat) {
            Err(_) => {
                if r.is_ok() {
                    return Err(format!("accepted under [{}] although the reference parser rejects it", f.show()));
                }
            }
            Ok(h) => match wild::lower(&h, true, true) {
                Ok(n) => {
                    let e = r.map_err(|e| format!("rejected under [{}]: {}", f.show(), e))?;
                    got.push((e, n, f));
                }
                Err(_) => {}
            },
        }
    }
    let mut distinct = std::collections::HashSet::new();
    for (e, n, f) in &got {
        verify(&b, *e, n, &format!("under [{}]", f.show()))?;
        distinct.insert(*e);
    }
    ctx.nontrivial = distinct.len() >= 2;
    Ok(())
}

fn c14_contained(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut b = RegexBuilder::new();
    let mut names = 0;
    let size = s.range(1, 3);
    let p = if s.chance(3, 4) {
        s.pick(&["[a-k]", "k", ".", "a b", "[^a]", "s#x", "[[:alpha:]]", "x.y", "(a|B)c", "é", "ab*", "[k-s]+", "A.b C"]).to_string()
    } else {
        wild::gen_wild(s, &Flags::DEFAULT, size, &mut names)
    };
    let q = match s.usize(8) {
        0 => p.to_uppercase(),
        1 => format!("(?:{})|b", p),
        2 => format!("(?s:{})|\n", p),
        3 => format!("(?:{})*", p),
        4 => p.to_lowercase(),
        5 => format!("(?i:{})", p),
        6 => p.replace(' ', ""),
        _ => wild::gen_wild(s, &Flags::DEFAULT, 2, &mut names),
    };
    ctx.desc = format!("/{}/ in /{}/ under", p, q);
    let model = |f: &Flags| -> Option<(bool, RNode, RNode)> {
        let (hp, hq) = (f.parser().parse(&p).ok()?, f.parser().parse(&q).ok()?);
        let (rp, rq) = (wild::lower(&hp, true, true).ok()?, wild::lower(&hq, true, true).ok()?);
        let cl = Classes::for_nodes(&[&rp, &rq]);
        let (dp, dq) = (Dfa::from_rnode(&cl, &rp).ok()?, Dfa::from_rnode(&cl, &rq).ok()?);
        Some((dp.product_of(&dq, |a, b| a && !b).ok()?.is_empty(), rp, rq))
    };
    let mut verdicts = std::collections::BTreeSet::new();
    for _ in 0..s.range(2, 4) {
        let f = Flags {
            unicode: !s.chance(1, 4),
            utf8: !s.chance(1, 4),
            ws: s.chance(1, 3),
            icase: s.chance(1, 2),
            dotnl: s.chance(1, 2),
        };
        f.apply(&mut b);
        ctx.desc.push_str(&format!(" [{}]", f.show()));
        let (want, rp, rq) = match model(&f) {
            Some(m) => m,
            None => continue,
        };
        if s.chance(1, 3) {
            let e = guard("mk_contained_in", || b.mk_contained_in(&p, &q))?.map_err(|e| format!("mk_contained_in rejected under [{}]: {}", f.show(), e))?;
            verify(&b, e, &RNode::And(vec![rp, RNode::Not(Box::new(rq))]), &format!("mk_contained_in under [{}]", f.show()))?;
        } else {
            match guard("is_contained_in", || b.is_contained_in(&p, &q, 1_000_000))? {
                Ok(v) if v != want => return Err(format!("is_contained_in = {} under [{}], expected {}", v, f.show(), want)),
                Ok(_) => {}
                Err(_) => ctx.label("not decided within the budget"),
            }
        }
        verdicts.insert(want);
        // the flags are still the same
        if s.chance(1, 3) {
            let e = guard("mk_regex", || b.mk_regex(&p))?.map_err(|e| format!("rejected under [{}]: {}", f.show(), e))?;
            if let Some((_, rp, _)) = model(&f) {
                verify(&b, e, &rp, &format!("after the query, under [{}]", f.show()))?;
            }
        }
    }
    ctx.nontrivial = verdicts.len() == 2 || matches!(model(&Flags::DEFAULT), Some((v, ..)) if !verdicts.contains(&v));
    Ok(())
}

// ------------------------------------------------------------------ C21

/// number of operands: mostly few, sometimes many
fn wide(s: &mut Src, few: usize) -> usize {
    if s.chance(1, 40) {
        s.range(few, 150)
    } else {
        s.range(1, few)
    }
}

fn c21_canon(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 5);
    c.rx = s.chance(1, 3);
    c.pool.truncate(3);
    let n = s.range(2, 4);
    let gs: Vec<G> = (0..n).map(|_| gen_g(s, &c)).collect();
    let mut b = RegexBuilder::new();
    let mut refs = vec![];
    for g in &gs {
        refs.push(guard("building", || g.build(&mut b))??);
    }
    let (alpha, mut es, roots) = guard("from_exprset", || AlphabetInfo::from_exprset(b.exprset(), &refs))?;
    let mut pool = roots.clone();
    let mut dc = DerivCache::new();
    for _ in 0..s.range(0, 4) {
        let e = *s.pick(&pool);
        let k = s.usize(alpha.len());
        let d = guard("derivative", || dc.derivative(&mut es, e, k as u8))?;
        pool.push(d);
    }
    pool.extend([
        ExprRef::EMPTY_STRING,
        ExprRef::NO_MATCH,
        ExprRef::ANY_BYTE_STRING,
        ExprRef::NON_EMPTY_BYTE_STRING,
    ]);
    let k = s.usize(alpha.len());
    pool.push(es.mk_byte(k as u8));
    ctx.desc = format!("pool {}", gs.iter().map(|g| g.show()).collect::<Vec<_>>().join(" ; "));
    let shown = |es: &derivre::raw::ExprSet, v: &[ExprRef]| -> String {
        v.iter().map(|e| es.expr_to_string(*e)).collect::<Vec<_>>().join(" ; ")
    };
    for _ in 0..6 {
        let m = wide(s, 5);
        let ops: Vec<ExprRef> = (0..m).map(|_| *s.pick(&pool)).collect();
        let mut dd = ops.clone();
        dd.sort();
        dd.dedup();
        if dd.len() >= 3 {
            ctx.nontrivial = true;
        }
        for is_or in [true, false] {
            let name = if is_or { "mk_or" } else { "mk_and" };
            let mk = |es: &mut derivre::raw::ExprSet, v: Vec<ExprRef>| -> Result<ExprRef, String> {
                guard(name, || if is_or { es.mk_or(v) } else { es.mk_and(v) })
            };
            let base = mk(&mut es, ops.clone())?;
            // permutation with duplicates
            let mut p = ops.clone();
            for _ in 0..s.range(0, 2) {
                let x = *s.pick(&ops);
                p.push(x);
            }
            for i in (1..p.len()).rev() {
                let j = s.usize(i + 1);
                p.swap(i, j);
            }
            let x = mk(&mut es, p.clone())?;
            if x != base {
                return Err(format!("{} depends on operand order/duplication: [{}] vs [{}]", name, shown(&es, &ops), shown(&es, &p)));
            }
            // nesting: group a random subset
            let cut = s.usize(p.len() + 1);
            let inner = mk(&mut es, p[..cut].to_vec())?;
            let mut q = p[cut..].to_vec();
            let at = s.usize(q.len() + 1);
            q.insert(at, inner);
            let y = mk(&mut es, q)?;
            if y != base {
                return Err(format!("{} depends on nesting: [{}] split at {} gives {} instead of {}", name, shown(&es, &p), cut, es.expr_to_string(y), es.expr_to_string(base)));
            }
            let (neutral, absorb) = if is_or {
                (ExprRef::NO_MATCH, ExprRef::ANY_BYTE_STRING)
            } else {
                (ExprRef::ANY_BYTE_STRING, ExprRef::NO_MATCH)
            };
            let mut q = p.clone();
            let at = s.usize(q.len() + 1);
            q.insert(at, neutral);
            if mk(&mut es, q)? != base {
                return Err(format!("{}: neutral operand not removed: [{}]", name, shown(&es, &p)));
            }
            let mut q = p.clone();
            let at = s.usize(q.len() + 1);
            q.insert(at, absorb);
            if mk(&mut es, q)? != absorb {
                return Err(format!("{}: absorbing operand does not absorb: [{}]", name, shown(&es, &p)));
            }
            if mk(&mut es, vec![base])? != base || mk(&mut es, vec![])? != neutral {
                return Err(format!("{} of one or no operand", name));
            }
            pool.push(base);
        }
        let x = *s.pick(&pool);
        let nx = guard("mk_not", || es.mk_not(x))?;
        let nnx = guard("mk_not", || es.mk_not(nx))?;
        if nnx != x {
            return Err(format!("double complement of {} is {}", es.expr_to_string(x), es.expr_to_string(nnx)));
        }
        pool.push(nx);
        if guard("mk_repeat", || es.mk_repeat(x, 1, 1))? != x {
            return Err(format!("{}{{1}} is not the same expression", es.expr_to_string(x)));
        }
        let m = wide(s, 4);
        let ops: Vec<ExprRef> = (0..m).map(|_| *s.pick(&pool)).collect();
        let base = guard("mk_concat", || es.mk_concat(ops.clone()))?;
        let cut = s.usize(ops.len() + 1);
        let a = guard("mk_concat", || es.mk_concat(ops[..cut].to_vec()))?;
        let b2 = guard("mk_concat", || es.mk_concat(ops[cut..].to_vec()))?;
        let two = guard("mk_concat", || es.mk_concat(vec![a, ExprRef::EMPTY_STRING, b2]))?;
        let z = guard("mk_concat", || es.mk_concat(vec![a, ExprRef::NO_MATCH, b2]))?;
        if z != ExprRef::NO_MATCH {
            return Err("concatenation with the empty language is not the empty language".into());
        }
        // operands containing the empty language may be simplified at different times
        if two != base {
            return Err(format!("concatenation depends on nesting: [{}] split at {}", shown(&es, &ops), cut));
        }
        pool.push(base);
        if pool.len() > 14 {
            pool.truncate(14);
        }
    }
    Ok(())
}

fn c21_same(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 8);
    c.prefix = true;
    c.unicode = s.chance(1, 4);
    let g = gen_g(s, &c);
    ctx.desc = g.show();
    ctx.nontrivial = g.size() >= 3;
    let mut b = RegexBuilder::new();
    let e1 = guard("building", || g.build(&mut b))??;
    // keywords with common beginnings, as a union and as a pattern
    let kws: Vec<Vec<u8>> = if s.chance(1, 2) {
        let n = s.range(2, 12);
        (0..n).map(|_| (0..s.range(1, 5)).map(|_| *s.pick(b"aab")).collect()).collect()
    } else {
        vec![]
    };
    let kpat = kws.iter().map(|w| String::from_utf8(w.clone()).unwrap()).collect::<Vec<_>>().join("|");
    let kw = |b: &mut RegexBuilder| -> Result<(ExprRef, ExprRef), String> {
        let x = b.mk(&RegexAst::Or(kws.iter().map(|w| RegexAst::ByteLiteral(w.clone())).collect()));
        Ok((x.map_err(|e| e.to_string())?, b.mk_regex(&kpat).map_err(|e| e.to_string())?))
    };
    let k1 = guard("building", || kw(&mut b))??;
    let q1 = guard("json_quote", || b.json_quote(e1, &JsonQuoteOptions::with_unicode()))?.ok();
    // unrelated work
    for _ in 0..s.range(0, 3) {
        let h = gen_g(s, &c);
        guard("building", || h.build(&mut b))??;
    }
    for _ in 0..s.range(0, 4) {
        // classes (which may come again), failures, flags set and reset
        match s.weighted(&[6, 2, 1, 1]) {
            0 => {
                let p = *s.pick(&["\\w+", "\\d", "[^a]", "(?i:k)", "é|[à-ü]x", "\\w", "."]);
                guard("mk_regex", || b.mk_regex(p))?.map_err(|e| e.to_string())?;
            }
            1 => {
                let p = *s.pick(&["a\\b", "(", "\\w\\b\\w", "[é]$a", "(a|[b"]);
                if guard("mk_regex", || b.mk_regex(p))?.is_ok() {
                    return Err(format!("/{}/ accepted", p));
                }
            }
            2 => {
                b.case_insensitive(true);
                let _ = guard("mk_regex", || b.mk_regex(&kpat))?;
                b.case_insensitive(false);
            }
            _ => {
                let _ = guard("json_quote", || b.json_quote(k1.0, &JsonQuoteOptions::no_unicode()))?;
            }
        }
    }
    let mut rx = guard("to_regex", || b.to_regex(e1))?;
    rx.is_match("abc");
    let e2 = guard("building", || g.build(&mut b))??;
    if e1 != e2 {
        return Err("building the same tree again gives a different reference".into());
    }
    if guard("building", || kw(&mut b))?? != k1 {
        return Err(format!("building the union of {} again gives a different reference", kpat));
    }
    let q2 = guard("json_quote", || b.json_quote(e2, &JsonQuoteOptions::with_unicode()))?.ok();
    if q1 != q2 {
        return Err("quoting the same expression again gives a different reference".into());
    }
    let mut b2 = b.clone();
    let e3 = guard("building", || g.build(&mut b2))??;
    if e3 != e1 {
        return Err("building the same tree in a clone gives a different reference".into());
    }
    let pa = gen_pat(s, &c, 5).to_pattern();
    let pb = gen_pat(s, &c, 5).to_pattern();
    let x = guard("mk_contained_in", || b.mk_contained_in(&pa, &pb))?.map_err(|e| format!("{}", e))?;
    let y = guard("mk_contained_in", || b.mk_contained_in(&pa, &pb))?.map_err(|e| format!("{}", e))?;
    if x != y {
        return Err("mk_contained_in of the same patterns gives a different reference".into());
    }
    Ok(())
}

/// far above the largest count seen in calibration (see DESIGN.md)
const STATE_CAP: usize = 20_000;

fn c21_finite(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 7);
    c.max_rep = 3;
    c.prefix = s.chance(1, 6);
    c.pool.truncate(3);
    let g = crate::props::lang::clean(&gen_g(s, &c));
    ctx.desc = g.show();
    let r = g.rnode();
    let cl = Classes::for_nodes(&[&r]);
    let d = match Dfa::from_rnode(&cl, &r) {
        Ok(d) if d.n() <= 60 => d,
        _ => return ctx.discard("reference automaton too big"),
    };
    let mut rx = guard("building", || -> Result<Regex, String> {
        let mut b = RegexBuilder::new();
        let e = g.build(&mut b)?;
        Ok(b.to_regex(e))
    })??;
    let mut seen = std::collections::HashSet::new();
    let s0 = rx.initial_state();
    let mut todo = std::collections::VecDeque::from([(s0, d.start)]);
    seen.insert(s0);
    while let Some((st, q)) = todo.pop_front() {
        for b in 0..=255u8 {
            let t = rx.transition(st, b);
            if seen.insert(t) {
                todo.push_back((t, d.step(q, cl.of[b as usize] as usize)));
            }
        }
        if seen.len() > STATE_CAP {
            return Err(format!("more than {} states for a language with {} residuals", STATE_CAP, d.n()));
        }
    }
    match seen.len() {
        0..=29 => {}
        30..=99 => ctx.label("30-99 states"),
        100..=999 => ctx.label("100-999 states"),
        1000..=4999 => ctx.label("1000-4999 states"),
        _ => ctx.label("5000+ states"),
    }
    ctx.nontrivial = seen.len() >= 6 && nontriv(&d);
    let _ = (rewrite as fn(&mut Src, &G, usize) -> G, show as fn(&[u8]) -> String);
    Ok(())
}

/// with a trailing lookahead: finitely many as long as the reported lengths have finitely many values to remember
fn c21_lookfinite(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    use crate::props::engine::{cfg_start, cfg_step, mk_looks};
    let mut c = GCfg::positive(s, 5);
    c.max_rep = 3;
    c.pool.truncate(3);
    let mut b = RegexBuilder::new();
    let n_alt = if s.chance(1, 5) { 2 } else { 1 };
    let (mut parts, mut asts, mut descs) = (vec![], vec![], vec![]);
    for _ in 0..n_alt {
        let ga = match s.usize(3) {
            0 => G::Cat(vec![G::Rep(Box::new(gen_g(s, &c)), 0, u32::MAX), gen_g(s, &c)]),
            1 => G::Rep(Box::new(gen_g(s, &c)), s.range(0, 1) as u32, u32::MAX),
            _ => gen_g(s, &c),
        };
        // only such B whose derivatives have one spelling each
        let gb = match s.usize(3) {
            0 => {
                let n = s.range(1, 4);
                G::BLit((0..n).map(|_| *s.pick(&c.pool)).collect())
            }
            k => {
                let end = *s.pick(&c.pool);
                let mut set = gen_set(s, &c);
                set.clear(end);
                let (lo, hi) = if k == 1 { (0, u32::MAX) } else { gen_rep(s, 3) };
                G::Cat(vec![G::Rep(Box::new(G::Set(set)), lo, hi), G::Byte(end)])
            }
        };
        parts.push((ga.rnode(), gb.rnode()));
        descs.push(format!("{} LA({})", ga.show(), gb.show()));
        let (xa, xb) = guard("building", || -> Result<_, String> { Ok((ga.to_ast(&mut b)?, gb.to_ast(&mut b)?)) })??;
        asts.push(RegexAst::Concat(vec![xa, RegexAst::LookAhead(Box::new(xb))]));
    }
    ctx.desc = descs.join(" | ");
    let ast = if n_alt == 1 { asts.pop().unwrap() } else { RegexAst::Or(asts) };
    let mut rx = guard("building", || b.mk(&ast).map(|e| b.to_regex(e)))?.map_err(|e| format!("rejected: {}", e))?;
    let (ls, cl) = match mk_looks(&parts) {
        Some(x) => x,
        None => return ctx.discard("reference automaton too big"),
    };
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![cfg_start(&ls)];
    seen.insert(cfg_start(&ls));
    while let Some(x) = todo.pop() {
        for k in 0..cl.k {
            let y = cfg_step(&ls, &x, k);
            if seen.insert(y.clone()) {
                todo.push(y);
            }
        }
        if seen.len() > 150 {
            return ctx.discard("unbounded lookahead");
        }
    }
    let configs = seen.len();
    let mut seen = std::collections::HashSet::new();
    let mut todo = std::collections::VecDeque::from([rx.initial_state()]);
    seen.insert(rx.initial_state());
    while let Some(st) = todo.pop_front() {
        for b in 0..=255u8 {
            let t = rx.transition(st, b);
            if seen.insert(t) {
                todo.push_back(t);
            }
        }
        if seen.len() > 20_000 {
            return Err(format!("more than 20000 states although {} configurations of positions and lengths exist", configs));
        }
    }
    match seen.len() {
        0..=29 => {}
        30..=99 => ctx.label("30-99 states"),
        100..=999 => ctx.label("100-999 states"),
        1000..=4999 => ctx.label("1000-4999 states"),
        _ => ctx.label("5000+ states"),
    }
    ctx.nontrivial = configs >= 5;
    Ok(())
}

fn c21_rebuild(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 8);
    c.prefix = s.chance(1, 3);
    let mut b = RegexBuilder::new();
    let g = gen_g(s, &c);
    ctx.desc = g.show();
    let e = guard("building", || g.build(&mut b))??;
    let (al, mut es, roots) = guard("AlphabetInfo::from_exprset", || AlphabetInfo::from_exprset(b.exprset(), &[e]))?;
    let mut dc = DerivCache::new();
    let mut x = roots[0];
    let mut w = vec![];
    for _ in 0..s.range(0, 6) {
        let y = *s.pick(&c.pool);
        w.push(y);
        x = guard("derivative", || dc.derivative(&mut es, x, al.map(y) as u8))?;
    }
    if s.chance(1, 2) {
        let mut rc = derivre::raw::RelevanceCache::new();
        let _ = guard("is_non_empty_limited", || rc.is_non_empty_limited(&mut es, x, 20_000))?;
    }
    ctx.desc.push_str(&format!(" after {}", show(&w)));
    let n = es.len() as u32;
    let mut kinds = std::collections::BTreeMap::new();
    let mut count = 0;
    for i in 1..n.min(400) {
        let e = ExprRef::new(i);
        let args: Vec<ExprRef> = es.get_args(e).to_vec();
        let tag = format!("{:?}", es.get_tag(e));
        let (r, r2) = guard("rebuilding", || match tag.as_str() {
            "Or" | "And" => {
                let mut p = args.clone();
                for k in (1..p.len()).rev() {
                    let j = s.usize(k + 1);
                    p.swap(k, j);
                }
                if s.chance(1, 2) {
                    p.push(p[0]);
                }
                let k = s.usize(p.len() + 1);
                let (l, r) = p.split_at(k);
                if tag == "Or" {
                    let r1 = es.mk_or(args.clone());
                    let l = es.mk_or(l.to_vec());
                    let r = es.mk_or(r.to_vec());
                    // a part may be merged into one set of bytes, so only the whole is compared
                    (r1, es.mk_or(vec![l, r]))
                } else {
                    let r1 = es.mk_and(args.clone());
                    let l = es.mk_and(l.to_vec());
                    let r = es.mk_and(r.to_vec());
                    (r1, es.mk_and(vec![l, r]))
                }
            }
            "Concat" => {
                let k = s.usize(args.len() + 1);
                let r1 = es.mk_concat(args.clone());
                let l = es.mk_concat(args[..k].to_vec());
                let r = es.mk_concat(args[k..].to_vec());
                (r1, es.mk_concat(vec![l, r]))
            }
            "Not" => {
                let r1 = es.mk_not(args[0]);
                let x = es.mk_not(e);
                (r1, es.mk_not(x))
            }
            "Prefixes" => (es.mk_prefixes(args[0]), es.mk_prefixes(e)),
            "Repeat" => (es.mk_repeat(e, 1, 1), e),
            _ => (e, e),
        })?;
        if r != e || r2 != e {
            return Err(format!(
                "expression {} ({}, {}) built again from its operands gives {} and {}",
                i,
                tag,
                es.expr_to_string_max_len(e, 200),
                es.expr_to_string_max_len(r, 200),
                es.expr_to_string_max_len(r2, 200)
            ));
        }
        if !args.is_empty() {
            count += 1;
            *kinds.entry(tag).or_insert(0) += 1;
        }
        // reading it back
        if es.get_flags(e).is_nullable() != es.is_nullable(e) || es.get_flags(e).is_positive() != es.is_positive(e) {
            return Err(format!("flags of expression {} disagree", i));
        }
        if es.is_nullable(e) && !es.is_positive(e) {
            return Err(format!("expression {} is nullable but not positive", i));
        }
        if es.get(e).args() != &args[..] || es.get(e).nullable() != es.is_nullable(e) {
            return Err(format!("operands or nullability of expression {} disagree", i));
        }
    }
    ctx.nontrivial = count >= 5 && kinds.len() >= 2;
    Ok(())
}
