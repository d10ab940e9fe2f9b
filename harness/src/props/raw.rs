//! C16 hash-consing, C17 map_ast, C18 call-stack depth, C19 raw derivatives, C20 symbol sets, C23 forced prefixes

use crate::cmp::show;
use crate::gen::*;
use crate::props::lang::clean;
use crate::refa::{Classes, Dfa, RNode, BS};
use crate::runner::{guard, Arm, Ctx};
use crate::src::Src;
use derivre::raw::{DerivCache, ExprSet, RelevanceCache, VecHashCons};
use derivre::{map_ast, ExprRef};
use std::collections::HashMap;

pub fn register(v: &mut Vec<Arm>) {
    v.push(Arm { prop: "C16", name: "ops", quick: 1000000, thorough: 15000000, both: false,
        rule: "20-120 random operations (whole and incremental insertion in random splits, re-insertion, reads, validity, clones that diverge) against a Vec+HashMap model; vectors empty, short with a tiny alphabet, near-duplicates (prefix, extension, one word changed) and long. Non-trivial: at least 8 distinct vectors, a re-insertion and an incremental insertion.",
        f: c16 });
    v.push(Arm { prop: "C16", name: "bulk", quick: 600, thorough: 9000, both: false,
        rule: "2000-30000 insertions with growth and heavy duplication, all ids re-read at the end. Non-trivial: at least 1000 distinct vectors.",
        f: c16_bulk });
    v.push(Arm { prop: "C17", name: "fold", quick: 100000, thorough: 1500000, both: false,
        rule: "random trees (leaves, unary chains, wide nodes, up to 200 nodes): exact trace of mapper calls against a recursive reference; failure injected at every node of trees up to 40 nodes, at 10 random nodes otherwise. Non-trivial: at least 3 nodes with children and one node with 2 or more children.",
        f: c17 });
    v.push(Arm { prop: "C19", name: "derive", quick: 800000, thorough: 12000000, both: false,
        rule: "random expression trees in ExprSet::new(k), k in 1..=256 biased to word boundaries; derivative/nullable/positive/emptiness compared with the reference automaton of the same language over k symbols along a breadth-first walk; warm and fresh caches, extra stores. Non-trivial: minimal DFA has at least 3 states.",
        f: c19 });
    v.push(Arm { prop: "C19", name: "boolean", quick: 600000, thorough: 9000000, both: false,
        rule: "the same with trees dominated by intersection and complement over concatenations and any-symbol strings (emptiness queries). Non-trivial: the emptiness check was asked about an expression not flagged positive.",
        f: c19_bool });
    v.push(Arm { prop: "C20", name: "sets", quick: 800000, thorough: 12000000, both: false,
        rule: "2-6 random symbol sets over k symbols (k in 1..=256 biased to word boundaries), chains of and/sub/not/or/neg_or incl. the any-symbol constant; result compared as expression and symbol by symbol with a bit-vector model. Non-trivial: k is not a multiple of 32, or a result is empty, singleton or everything.",
        f: c20 });
    v.push(Arm { prop: "C23", name: "forced", quick: 500000, thorough: 7500000, both: false,
        rule: "expression trees biased to leading literals, with prefixes taken from accepted words (exact, longer, shorter, mutated); a positive answer is checked against the reference automaton. Non-trivial: the answer was positive for a non-empty prefix, or the expression really forces the prefix.",
        f: c23 });
    v.push(Arm { prop: "C18", name: "deep", quick: 120, thorough: 2500, both: true,
        rule: "child process on a 256 KB stack: layers of a random template list repeated thousands of times (concatenation left and right, union, intersection, complement, repetition, prefixes, lookahead), built by references or as one tree, or a deeply nested pattern; then compiled, matched, hinted, emptiness-checked and quoted; answers compared with an iterative membership table. Non-trivial: nesting of at least 1000 levels.",
        f: crate::props::deep::c18 });
}

// ------------------------------------------------------------------ C16

#[derive(Clone)]
struct Model {
    vecs: Vec<Vec<u32>>,
    ids: HashMap<Vec<u32>, u32>,
}

impl Model {
    fn insert(&mut self, v: &[u32]) -> u32 {
        if let Some(i) = self.ids.get(v) {
            return *i;
        }
        let i = self.vecs.len() as u32;
        self.vecs.push(v.to_vec());
        self.ids.insert(v.to_vec(), i);
        i
    }
}

fn gen_vec(s: &mut Src, m: &Model) -> Vec<u32> {
    let word = |s: &mut Src| -> u32 {
        match s.weighted(&[6, 2, 1]) {
            0 => s.below(3) as u32,
            1 => *s.pick(&[u32::MAX, 0x100, 0x8000_0000, 7]),
            _ => s.below(1 << 32) as u32,
        }
    };
    match s.weighted(&[8, 5, 1, 1]) {
        0 => {
            let n = s.range(0, 5);
            (0..n).map(|_| word(s)).collect()
        }
        1 if !m.vecs.is_empty() => {
            let mut v = m.vecs[s.usize(m.vecs.len())].clone();
            match s.usize(5) {
                0 => {}
                1 => v.push(word(s)),
                2 => {
                    v.pop();
                }
                3 => {
                    if !v.is_empty() {
                        let i = s.usize(v.len());
                        v[i] = v[i].wrapping_add(1 + s.below(2) as u32);
                    }
                }
                _ => v.insert(0, word(s)),
            }
            v
        }
        2 => {
            let n = *s.pick(&[127usize, 128, 129, 130, 200, 256, 1000]);
            let x = word(s);
            let mut v = vec![x; n];
            if s.chance(1, 2) {
                let i = s.usize(n);
                v[i] = word(s);
            }
            v
        }
        _ => vec![],
    }
}

fn push_split(s: &mut Src, h: &mut VecHashCons, m: &Model, known: usize, v: &[u32]) -> Result<(), String> {
    let mut i = 0;
    let ask = s.chance(1, 3);
    loop {
        // reading is possible during an insertion, and what is being inserted does not count yet
        if ask && s.chance(1, 2) {
            if h.len() != known || (0..2).any(|d| h.is_valid((known + d) as u32)) || h.is_valid(u32::MAX) {
                return Err(format!("during an insertion: len() = {}, id {} valid: {}, {} distinct vectors so far", h.len(), known, h.is_valid(known as u32), known));
            }
            let _ = h.num_bytes();
            if known > 0 {
                let k = s.usize(known);
                if !h.is_valid(k as u32) || h.get(k as u32) != &m.vecs[k][..] {
                    return Err(format!("during an insertion: id {} valid: {}, get gives {:?}, inserted was {:?}", k, h.is_valid(k as u32), h.get(k as u32), m.vecs[k]));
                }
            }
        }
        if i >= v.len() {
            break;
        }
        if s.chance(1, 2) {
            h.push_u32(v[i]);
            i += 1;
        } else {
            let big = if s.chance(1, 4) { 1000 } else { 4 };
            let n = s.range(0, (v.len() - i).min(big));
            h.push_slice(&v[i..i + n]);
            i += n;
        }
    }
    if s.chance(1, 5) {
        h.push_slice(&[]);
    }
    Ok(())
}

fn c16_check(h: &VecHashCons, m: &Model) -> Result<(), String> {
    if h.len() != m.vecs.len() {
        return Err(format!("len() = {} after {} distinct vectors", h.len(), m.vecs.len()));
    }
    for (i, v) in m.vecs.iter().enumerate() {
        if !h.is_valid(i as u32) {
            return Err(format!("id {} is not valid although {} vectors are stored", i, m.vecs.len()));
        }
        let g = h.get(i as u32);
        if g != &v[..] {
            return Err(format!("get({}) = {:?}, inserted was {:?}", i, g, v));
        }
    }
    for x in [m.vecs.len() as u32, m.vecs.len() as u32 + 1, u32::MAX] {
        if h.is_valid(x) {
            return Err(format!("id {} is valid although only {} vectors are stored", x, m.vecs.len()));
        }
    }
    Ok(())
}

fn c16(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut pool: Vec<(VecHashCons, Model)> = vec![(
        VecHashCons::new(),
        Model {
            vecs: vec![],
            ids: HashMap::new(),
        },
    )];
    let n = s.range(1, 120);
    let mut log = String::new();
    let mut dups = 0;
    let mut incr = 0;
    for _ in 0..n {
        let k = s.usize(pool.len());
        match s.weighted(&[10, 6, 3, 1, 1]) {
            x @ (0 | 1) => {
                let v = gen_vec(s, &pool[k].1);
                if log.len() < 160 {
                    log.push_str(&format!("{}{}{:?} ", k, if x == 0 { "ins" } else { "inc" }, &v[..v.len().min(4)]));
                }
                let (h, m) = &mut pool[k];
                let before = m.vecs.len();
                let want = m.insert(&v);
                if m.vecs.len() == before {
                    dups += 1;
                }
                let got = if x == 0 {
                    guard("insert", || h.insert(&v))?
                } else {
                    incr += 1;
                    let mid_clone = s.chance(1, 12);
                    guard("incremental insertion", || {
                        h.start_insert();
                        push_split(s, h, m, before, &v)?;
                        if mid_clone {
                            let mut c = h.clone();
                            c.push_u32(77);
                            c.finish_insert();
                        }
                        Ok::<u32, String>(h.finish_insert())
                    })??
                };
                if got != want {
                    ctx.desc = log;
                    return Err(format!("inserting {:?} returned id {}, expected {}", v, got, want));
                }
                let r = guard("get", || h.get(got).to_vec())?;
                if r != v {
                    ctx.desc = log;
                    return Err(format!("get({}) = {:?} right after inserting {:?}", got, r, v));
                }
            }
            2 => {
                let (h, m) = &pool[k];
                if !m.vecs.is_empty() {
                    let i = s.usize(m.vecs.len());
                    let g = guard("get", || h.get(i as u32).to_vec())?;
                    if g != m.vecs[i] {
                        ctx.desc = log;
                        return Err(format!("get({}) = {:?}, inserted was {:?}", i, g, m.vecs[i]));
                    }
                }
            }
            3 => {
                if pool.len() < 4 {
                    let c = pool[k].clone();
                    pool.push(c);
                    ctx.label("clone");
                }
            }
            _ => {
                let (h, m) = &pool[k];
                let _ = h.num_bytes();
                c16_check(h, m)?;
            }
        }
    }
    ctx.desc = log;
    for (h, m) in &pool {
        guard("final read", || c16_check(h, m))??;
    }
    let mx = pool.iter().map(|p| p.1.vecs.len()).max().unwrap();
    if pool[0].1.ids.contains_key(&vec![]) {
        ctx.label("empty vector stored");
    }
    ctx.nontrivial = mx >= 8 && dups > 0 && incr > 0;
    Ok(())
}

fn c16_bulk(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (n, space) = if s.chance(1, 8) {
        (s.range(70_000, 300_000), 1u64 << s.range(17, 40))
    } else {
        (s.range(2000, 30000), s.range(500, 40000) as u64)
    };
    let wl = s.range(1, 6);
    let mut x = s.u64();
    ctx.desc = format!("bulk n={} space={} max len {} seed {:x}", n, space, wl, x);
    let mut h = VecHashCons::new();
    let mut m = Model {
        vecs: vec![],
        ids: HashMap::new(),
    };
    for _ in 0..n {
        let r = crate::src::splitmix(&mut x) % space;
        let len = (r as usize % (wl + 1)).min(wl);
        let v: Vec<u32> = (0..len).map(|i| ((r / 3) >> (i * 2)) as u32).collect();
        let want = m.insert(&v);
        let got = guard("insert", || h.insert(&v))?;
        if got != want {
            return Err(format!("inserting {:?} returned id {}, expected {}", v, got, want));
        }
    }
    guard("final read", || c16_check(&h, &m))??;
    let h2 = h.clone();
    c16_check(&h2, &m)?;
    ctx.nontrivial = m.vecs.len() >= 1000;
    ctx.add("distinct vectors", m.vecs.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------ C17

#[derive(Debug)]
struct T {
    id: usize,
    kids: Vec<T>,
}

fn gen_tree(s: &mut Src, budget: &mut usize, next: &mut usize, depth: usize) -> T {
    let id = *next;
    *next += 1;
    let mut kids = vec![];
    let n = match s.weighted(&[4, 4, 4, 2, 1]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => s.range(2, 5),
        _ => s.range(0, 20),
    };
    if depth < 60 {
        for _ in 0..n {
            if *budget == 0 {
                break;
            }
            *budget -= 1;
            kids.push(gen_tree(s, budget, next, depth + 1));
        }
    }
    T { id, kids }
}

fn reference(t: &T, out: &mut Vec<(usize, Vec<u64>, u64)>) -> u64 {
    let args: Vec<u64> = t.kids.iter().map(|k| reference(k, out)).collect();
    // the result depends on the call number, so equal subtrees give different results
    let r = out.len() as u64 * 1000 + t.id as u64;
    out.push((t.id, args, r));
    r
}

fn c17(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut budget = match s.usize(3) {
        0 => s.range(0, 6),
        1 => s.range(3, 40),
        _ => s.range(20, 200),
    };
    let mut next = 0;
    let t = gen_tree(s, &mut budget, &mut next, 0);
    let mut want = vec![];
    let root = reference(&t, &mut want);
    fn sh(t: &T) -> String {
        if t.kids.is_empty() {
            ".".into()
        } else {
            format!("({})", t.kids.iter().map(sh).collect::<String>())
        }
    }
    ctx.desc = sh(&t);
    let mut trace: Vec<(usize, Vec<u64>, u64)> = vec![];
    let r = guard("map_ast", || {
        map_ast(
            &t,
            |t| &t.kids[..],
            |t, args: Vec<u64>| {
                let r = trace.len() as u64 * 1000 + t.id as u64;
                trace.push((t.id, args, r));
                Ok(r)
            },
        )
    })?
    .map_err(|e| format!("error without a failing mapper: {}", e))?;
    if trace != want {
        let i = (0..want.len().max(trace.len()))
            .find(|i| trace.get(*i) != want.get(*i))
            .unwrap();
        return Err(format!(
            "mapper call {}: got (node, child results, result) {:?}, expected {:?}",
            i,
            trace.get(i),
            want.get(i)
        ));
    }
    if r != root {
        return Err(format!("result {} instead of the root's {}", r, root));
    }
    let n = want.len();
    let faults: Vec<usize> = if n <= 40 {
        (0..n).collect()
    } else {
        (0..10).map(|_| s.usize(n)).collect()
    };
    for f in faults {
        let mut calls: Vec<(usize, Vec<u64>)> = vec![];
        let r = guard("map_ast with failing mapper", || {
            map_ast(
                &t,
                |t| &t.kids[..],
                |t, args: Vec<u64>| {
                    let i = calls.len();
                    calls.push((t.id, args));
                    if i == f {
                        Err(anyhow::anyhow!("boom {}", f))
                    } else {
                        Ok(i as u64 * 1000 + t.id as u64)
                    }
                },
            )
        })?;
        match r {
            Ok(_) => return Err(format!("failure of mapper call {} was swallowed", f)),
            Err(e) => {
                if e.to_string() != format!("boom {}", f) {
                    return Err(format!("failure of call {} came back as {:?}", f, e.to_string()));
                }
            }
        }
        if calls.len() != f + 1 {
            return Err(format!("mapper failed at call {} but was called {} times", f, calls.len()));
        }
        for i in 0..=f {
            if calls[i].0 != want[i].0 || calls[i].1 != want[i].1 {
                return Err(format!("call {} before the failure: {:?}, expected {:?}", i, calls[i], want[i]));
            }
        }
        ctx.add("injected failures", 1);
    }
    fn inner(t: &T) -> (usize, bool) {
        let mut r = ((!t.kids.is_empty()) as usize, t.kids.len() >= 2);
        for k in &t.kids {
            let x = inner(k);
            r.0 += x.0;
            r.1 |= x.1;
        }
        r
    }
    let (a, b) = inner(&t);
    ctx.nontrivial = a >= 3 && b;
    Ok(())
}

// ------------------------------------------------------------------ raw stores

pub fn gen_k(s: &mut Src) -> usize {
    match s.weighted(&[4, 6, 3, 2]) {
        0 => s.range(2, 12),
        1 => *s.pick(&[1usize, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 159, 160, 161, 191, 192, 223, 224, 225, 255, 256, 2, 3]),
        2 => s.range(1, 256),
        _ => 256,
    }
}

pub fn raw_cfg(s: &mut Src, k: usize, size: usize) -> GCfg {
    let mut c = GCfg::full(s, size);
    c.limit = k;
    c.rx = false;
    c.refs = false;
    let n = s.range(1, 4);
    c.pool = vec![];
    for _ in 0..n {
        let b = match s.usize(4) {
            0 => k - 1,
            1 => s.usize(k),
            _ => s.usize(k.min(4)),
        } as u8;
        if !c.pool.contains(&b) {
            c.pool.push(b);
        }
    }
    c
}

/// Classes of the symbols below k; representatives are below k, every symbol below k is mapped.
pub fn classes_k(ns: &[&RNode], k: usize) -> Classes {
    let mut atoms = vec![];
    for n in ns {
        n.atoms(&mut atoms);
    }
    let mut ids: HashMap<Vec<bool>, u8> = HashMap::new();
    let mut of = [0u8; 256];
    let mut rep = vec![];
    for b in 0..k {
        let sig: Vec<bool> = atoms.iter().map(|a| a.has(b as u8)).collect();
        let n = ids.len() as u8;
        let c = *ids.entry(sig).or_insert_with(|| {
            rep.push(b as u8);
            n
        });
        of[b] = c;
    }
    Classes {
        of,
        k: ids.len(),
        rep,
    }
}

fn walk_raw(s: &mut Src, ctx: &mut Ctx, k: usize, g: &G) -> Result<(), String> {
    ctx.desc = format!("k={} {}", k, g.show());
    let r = g.rnode();
    let cl = classes_k(&[&r], k);
    let dfa = match Dfa::from_rnode(&cl, &r) {
        Ok(d) => d,
        Err(_) => return ctx.discard("reference automaton too big"),
    };
    let mut es = guard("ExprSet::new", || ExprSet::new(k))?;
    // unrelated earlier content in the store must not matter
    if s.chance(1, 3) {
        let c2 = raw_cfg(s, k, 4);
        let g2 = clean(&gen_g(s, &c2));
        guard("building", || build_raw(&g2, &mut es))?;
    }
    let root = guard("building", || build_raw(g, &mut es))?;
    let mut warm = DerivCache::new();
    let mut rel = RelevanceCache::new();
    let mut nodes: Vec<(ExprRef, u32, usize, u8)> = vec![(root, dfa.start, 0, 0)];
    let mut seen: HashMap<(ExprRef, u32), ()> = HashMap::new();
    seen.insert((root, dfa.start), ());
    let path = |nodes: &Vec<(ExprRef, u32, usize, u8)>, mut i: usize| -> Vec<u8> {
        let mut w = vec![];
        while i != 0 {
            w.push(nodes[i].3);
            i = nodes[i].2;
        }
        w.reverse();
        w
    };
    let mut i = 0;
    let mut asked = 0u64;
    while i < nodes.len() && i < 60 {
        let (e, q, _, _) = nodes[i];
        let at = |nodes: &Vec<_>| show(&path(nodes, i));
        if !es.is_valid(e) {
            return Err(format!("derivative after {} is not a valid expression", at(&nodes)));
        }
        let nul = es.is_nullable(e);
        if nul != dfa.acc[q as usize] {
            return Err(format!(
                "derivative after symbols {} is {}nullable, but the word is {}in the language",
                at(&nodes),
                if nul { "" } else { "not " },
                if dfa.acc[q as usize] { "" } else { "not " }
            ));
        }
        let live = dfa.live[q as usize];
        if es.is_positive(e) && !live {
            return Err(format!("derivative after {} is flagged positive but denotes no word", at(&nodes)));
        }
        if !es.is_positive(e) {
            asked += 1;
        }
        let mode = s.weighted(&[6, 2, 2]);
        let verdict = match mode {
            0 => guard("is_non_empty", || rel.is_non_empty(&mut es, e))?,
            1 => guard("is_non_empty (fresh cache)", || RelevanceCache::new().is_non_empty(&mut es, e))?,
            _ => {
                let fuel = s.below(200);
                match guard("is_non_empty_limited", || rel.is_non_empty_limited(&mut es, e, fuel))? {
                    Ok(v) => v,
                    Err(_) => {
                        ctx.label("fuel error followed by unlimited query");
                        guard("is_non_empty", || rel.is_non_empty(&mut es, e))?
                    }
                }
            }
        };
        if verdict != live {
            return Err(format!(
                "emptiness check after {} says {}, but {}",
                at(&nodes),
                if verdict { "non-empty" } else { "empty" },
                match dfa.shortest_from(&cl, q) {
                    Some(w) => format!("{} completes a word", show(&w)),
                    None => "no word follows".into(),
                }
            ));
        }
        for c in 0..cl.k {
            let mut syms = vec![cl.rep[c]];
            if s.chance(1, 4) {
                let others: Vec<u8> = (0..k).map(|b| b as u8).filter(|b| cl.of[*b as usize] as usize == c).collect();
                syms.push(*s.pick(&others));
                syms.push(*others.last().unwrap());
            }
            for b in syms {
                let d = if s.chance(1, 6) {
                    guard("derivative (fresh cache)", || DerivCache::new().derivative(&mut es, e, b))?
                } else {
                    guard("derivative", || warm.derivative(&mut es, e, b))?
                };
                let t = dfa.step(q, c);
                if nodes.len() < 150 && seen.insert((d, t), ()).is_none() {
                    nodes.push((d, t, i, b));
                }
            }
        }
        i += 1;
    }
    ctx.add("expressions checked", i as u64);
    ctx.add("emptiness asked of unflagged expressions", asked);
    // the same questions in a clone of the store with cold caches
    if s.chance(1, 4) {
        let mut es2 = es.clone();
        let mut rel2 = RelevanceCache::new();
        for j in (0..i).rev().step_by(3) {
            let (e, q, _, _) = nodes[j];
            let v = guard("is_non_empty (clone)", || rel2.is_non_empty(&mut es2, e))?;
            if v != dfa.live[q as usize] {
                return Err(format!("emptiness check in a cloned store says {} for the state after {}", v, show(&path(&nodes, j))));
            }
        }
    }
    ctx.nontrivial = dfa.n() >= 3;
    if asked > 0 && g.has_andnot() {
        ctx.label("emptiness asked");
    }
    if k % 32 != 0 {
        ctx.label("k not a multiple of 32");
    }
    if dfa.is_empty() {
        ctx.label("empty language");
    }
    Ok(())
}

fn c19(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = gen_k(s);
    let mut c = raw_cfg(s, k, 9);
    c.prefix = s.chance(1, 4);
    c.wide = 2;
    let g = clean(&gen_g(s, &c));
    walk_raw(s, ctx, k, &g)
}

fn c19_bool(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = gen_k(s);
    let c = raw_cfg(s, k, 5);
    fn node(s: &mut Src, c: &GCfg, d: usize) -> G {
        let any = || G::Rep(Box::new(G::Set(BS::FULL)), 0, u32::MAX);
        if d == 0 {
            return match s.weighted(&[3, 3, 2, 2, 1, 1]) {
                0 => G::Byte(*s.pick(&c.pool)),
                1 => G::Set(gen_set(s, c)),
                2 => G::Not(Box::new(G::Eps)),
                3 => G::Not(Box::new(G::None)),
                4 => G::Eps,
                _ => any(),
            };
        }
        match s.weighted(&[4, 4, 4, 2, 2, 2]) {
            0 => G::Not(Box::new(node(s, c, d - 1))),
            1 => G::And(vec![node(s, c, d - 1), node(s, c, d - 1)]),
            2 => G::Cat(vec![node(s, c, d - 1), node(s, c, d.saturating_sub(2))]),
            3 => G::Or(vec![node(s, c, d - 1), node(s, c, d - 1)]),
            4 => {
                let (a, b) = gen_rep(s, 3);
                G::Rep(Box::new(node(s, c, d - 1)), a, b)
            }
            _ => G::And(vec![
                node(s, c, d - 1),
                G::Not(Box::new(G::Cat(vec![any(), node(s, c, d.saturating_sub(2)), any()]))),
            ]),
        }
    }
    let d = s.range(1, 4);
    let g = node(s, &c, d);
    // restrict full sets to k symbols in the description only; the store masks to its words
    walk_raw(s, ctx, k, &g)?;
    ctx.nontrivial = ctx.discard.is_none() && ctx.labels.contains_key("emptiness asked");
    Ok(())
}

// ------------------------------------------------------------------ C20

fn c20(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = gen_k(s);
    let all = if k == 256 { BS::FULL } else { BS::range(0, (k - 1) as u8) };
    let mut es = guard("ExprSet::new", || ExprSet::new(k))?;
    let w = es.alphabet_words();
    let c = raw_cfg(s, k, 1);
    let mk = |es: &mut ExprSet, b: &BS| -> ExprRef { es.mk_byte_set(&b.words()[..w]) };
    let mut log = format!("k={}", k);
    let mut pool: Vec<(BS, ExprRef)> = vec![];
    for _ in 0..s.range(1, 4) {
        let b = match s.weighted(&[5, 2, 1, 1]) {
            0 => gen_set(s, &c),
            1 => BS::single(*s.pick(&c.pool)),
            2 => all,
            _ => BS::single((k - 1) as u8).not().and(&all),
        };
        let e = guard("mk_byte_set", || mk(&mut es, &b))?;
        check_set(&mut es, k, &b, e, "mk_byte_set", &mut *ctx)?;
        if b != BS::EMPTY {
            log.push_str(&format!(" {:?}", b));
            pool.push((b, e));
        }
    }
    // the predefined any-symbol expression
    pool.push((all, ExprRef::ANY_BYTE));
    ctx.desc = log.clone();
    check_set(&mut es, k, &all, ExprRef::ANY_BYTE, "the any-symbol constant", ctx)?;
    for _ in 0..s.range(1, 10) {
        let i = s.usize(pool.len());
        let j = s.usize(pool.len());
        let (a, ea) = pool[i];
        let (b, eb) = pool[j];
        let (op, want, got): (String, BS, ExprRef) = match s.usize(6) {
            0 => ("and".into(), a.and(&b), guard("mk_byte_set_and", || es.mk_byte_set_and(ea, eb))?),
            1 => ("sub".into(), a.and(&b.not()), guard("mk_byte_set_sub", || es.mk_byte_set_sub(ea, eb))?),
            2 => ("not".into(), a.not().and(&all), guard("mk_byte_set_not", || es.mk_byte_set_not(ea))?),
            x @ (3 | 4) => {
                let n = s.range(0, 4);
                let mut m = BS::EMPTY;
                let mut args = vec![];
                for _ in 0..n {
                    let (b, e) = pool[s.usize(pool.len())];
                    m = m.or(&b);
                    args.push(e);
                }
                if x == 3 {
                    ("or".into(), m, guard("mk_byte_set_or", || es.mk_byte_set_or(&args))?)
                } else {
                    ("neg_or".into(), m.not().and(&all), guard("mk_byte_set_neg_or", || es.mk_byte_set_neg_or(&args))?)
                }
            }
            _ => {
                let x = *s.pick(&c.pool);
                let ws = guard("byte_set_from_byte", || es.byte_set_from_byte(x))?;
                ("from_byte".into(), BS::single(x), guard("mk_byte_set", || es.mk_byte_set(&ws))?)
            }
        };
        if log.len() < 300 {
            log.push_str(&format!(" {}({:?},{:?})", op, a, b));
        }
        ctx.desc = log.clone();
        check_set(&mut es, k, &want, got, &op, ctx)?;
        if want != BS::EMPTY {
            if pool.len() < 12 {
                pool.push((want, got));
            }
            if want.len() == 1 || want == all {
                ctx.nontrivial = true;
            }
        } else {
            ctx.nontrivial = true;
        }
    }
    if k % 32 != 0 {
        ctx.nontrivial = true;
        ctx.label("k not a multiple of 32");
    }
    Ok(())
}

fn check_set(es: &mut ExprSet, k: usize, want: &BS, got: ExprRef, op: &str, ctx: &mut Ctx) -> Result<(), String> {
    let w = es.alphabet_words();
    let canon = if *want == BS::EMPTY {
        ExprRef::NO_MATCH
    } else if want.len() == 1 {
        es.mk_byte(want.bytes()[0])
    } else {
        es.mk_byte_set(&want.words()[..w])
    };
    // membership, read back through the derivative
    let mut dc = DerivCache::new();
    for x in 0..k {
        let d = guard("derivative", || dc.derivative(es, got, x as u8))?;
        let m = d == ExprRef::EMPTY_STRING;
        if (!m && d != ExprRef::NO_MATCH) || m != want.has(x as u8) {
            return Err(format!(
                "{}: symbol {} is {}in the result, expected the set {:?} (k={})",
                op,
                x,
                if m { "" } else { "not " },
                want,
                k
            ));
        }
    }
    let any_const = got == ExprRef::ANY_BYTE && *want == (if k == 256 { BS::FULL } else { BS::range(0, (k - 1) as u8) });
    if got != canon && !any_const {
        return Err(format!(
            "{}: the result for the set {:?} (k={}) is {}, not the canonical {}",
            op,
            want,
            k,
            es.expr_to_string(got),
            es.expr_to_string(canon)
        ));
    }
    if any_const && got != canon {
        return Err(format!(
            "{}: the set of all {} symbols is the any-symbol constant in one place and {} in another",
            op,
            k,
            es.expr_to_string(canon)
        ));
    }
    ctx.add("sets checked", 1);
    Ok(())
}

// ------------------------------------------------------------------ C23

fn c23(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = raw_cfg(s, 256, 4);
    c.pool = vec![b'a', b'b'];
    if s.chance(1, 3) {
        c.pool.push(b'c');
    }
    if s.chance(1, 4) {
        // high bytes, ends of the alphabet, and their neighbours
        let h = *s.pick(&[0x7fu8, 0x80, 0xbf, 0xc3, 0xfe, 0, 0x3f, 0x40]);
        c.pool = vec![h, h + 1, b'a'];
    }
    c.prefix = s.chance(1, 8);
    let lit = |s: &mut Src, c: &GCfg, lo: usize| -> G {
        let n = s.range(lo, 5);
        G::BLit((0..n).map(|_| *s.pick(&c.pool)).collect())
    };
    let g = match s.weighted(&[3, 4, 3, 2, 2, 2, 2]) {
        0 => lit(s, &c, 0),
        1 => {
            let mut v = vec![lit(s, &c, 0)];
            for _ in 0..s.range(1, 3) {
                v.push(if s.chance(1, 3) { lit(s, &c, 0) } else { gen_g(s, &c) });
            }
            G::Cat(v)
        }
        2 => {
            let n = s.range(1, 4);
            G::Or((0..n).map(|_| G::Cat(vec![lit(s, &c, 0), gen_g(s, &c)])).collect())
        }
        3 => {
            let x = lit(s, &c, 1);
            let (a, b) = gen_rep(s, 3);
            G::Cat(vec![G::Rep(Box::new(x), a, b), gen_g(s, &c)])
        }
        4 => {
            let set = match s.usize(3) {
                0 => {
                    let a = *s.pick(&c.pool);
                    BS::range(a, a.saturating_add(s.range(0, 2) as u8))
                }
                1 => {
                    let mut b = BS::single(*s.pick(&c.pool));
                    b.set(*s.pick(&c.pool));
                    b
                }
                _ => gen_set(s, &c),
            };
            let mut v = vec![G::Set(set)];
            if s.chance(1, 3) {
                v.insert(0, lit(s, &c, 1));
            }
            if s.chance(1, 2) {
                v.push(lit(s, &c, 0));
            } else {
                v.push(gen_g(s, &c));
            }
            G::Cat(v)
        }
        5 => G::And(vec![G::Cat(vec![lit(s, &c, 0), gen_g(s, &c)]), gen_g(s, &c)]),
        _ => gen_g(s, &c),
    };
    let g = clean(&g);
    ctx.desc = g.show();
    let r = g.rnode();
    let singles: Vec<RNode> = c.pool.iter().chain(b"abc").map(|b| RNode::Set(BS::single(*b))).collect();
    let mut refs: Vec<&RNode> = singles.iter().collect();
    refs.push(&r);
    let cl = Classes::for_nodes(&refs);
    let dfa = match Dfa::from_rnode(&cl, &r) {
        Ok(d) => d,
        Err(_) => return ctx.discard("reference automaton too big"),
    };
    let mut es = ExprSet::new(256);
    let e = guard("building", || build_raw(&g, &mut es))?;
    // does every word start with p?
    let forces = |p: &[u8]| -> Result<(), Vec<u8>> {
        let mut q = dfa.start;
        for (i, b) in p.iter().enumerate() {
            if dfa.acc[q as usize] {
                return Err(p[..i].to_vec());
            }
            for x in 0..=255u8 {
                let t = dfa.step(q, cl.of[x as usize] as usize);
                if x != *b && dfa.live[t as usize] {
                    let mut w = p[..i].to_vec();
                    w.push(x);
                    w.extend(dfa.shortest_from(&cl, t).unwrap());
                    return Err(w);
                }
            }
            q = dfa.step(q, cl.of[*b as usize] as usize);
        }
        Ok(())
    };
    let mut prefixes: Vec<Vec<u8>> = vec![vec![]];
    // maximal really forced prefix, and some words
    let mut f = vec![];
    loop {
        let cand: Vec<u8> = (0..cl.k)
            .map(|c| cl.rep[c])
            .filter(|b| {
                let mut p = f.clone();
                p.push(*b);
                forces(&p).is_ok()
            })
            .collect();
        if cand.len() != 1 || f.len() > 12 {
            break;
        }
        f.push(cand[0]);
    }
    if let Some(w) = dfa.shortest_from(&cl, dfa.start) {
        let mut longer = w.clone();
        longer.push(b'a');
        prefixes.push(longer);
        for i in 1..=w.len().min(8) {
            prefixes.push(w[..i].to_vec());
            let mut m = w[..i].to_vec();
            m[i - 1] = *s.pick(&c.pool);
            prefixes.push(m.clone());
            // the ends of the class of the last symbol
            let k = cl.of[w[i - 1] as usize];
            let same: Vec<u8> = (0..=255u8).filter(|x| cl.of[*x as usize] == k).collect();
            m[i - 1] = same[0];
            prefixes.push(m.clone());
            m[i - 1] = same[same.len() - 1];
            prefixes.push(m);
        }
    }
    for i in 1..=f.len() {
        prefixes.push(f[..i].to_vec());
    }
    for _ in 0..4 {
        prefixes.push(gen_bytes(s, &c.pool, 4));
    }
    for p in prefixes {
        let ans = guard("has_simply_forced_bytes", || es.has_simply_forced_bytes(e, &p))?;
        ctx.add("prefixes asked", 1);
        if p.is_empty() {
            if !ans {
                return Err("the empty prefix is not forced".into());
            }
            continue;
        }
        let truth = forces(&p);
        if ans {
            if let Err(w) = truth {
                return Err(format!(
                    "prefix {} is reported forced but the expression matches {}",
                    show(&p),
                    show(&w)
                ));
            }
            ctx.nontrivial = true;
            ctx.label("positive answer");
        } else if truth.is_ok() {
            ctx.nontrivial = true;
            ctx.label("really forced, reported not forced");
            if let G::BLit(l) = &g {
                if l.starts_with(&p) {
                    return Err(format!("literal {} does not force its prefix {}", show(l), show(&p)));
                }
            }
        }
    }
    Ok(())
}
