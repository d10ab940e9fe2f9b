//! Checks of the oracle itself: automaton constructions against direct membership, UTF-8 sequences
//! against the standard library. Never reported as a violation.

use crate::gen::*;
use crate::refa::*;
use crate::runner::{Arm, Ctx};
use crate::src::Src;

pub fn register(v: &mut Vec<Arm>) {
    v.push(Arm { prop: "SELF", name: "dfa", quick: 20000, thorough: 400_000, both: false,
        rule: "reference automata against direct recursive membership", f: dfa });
    v.push(Arm { prop: "SELF", name: "utf8", quick: 20000, thorough: 400_000, both: false,
        rule: "code point ranges against std encoding", f: utf8 });
}

fn dfa(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = GCfg::full(s, 9);
    c.max_rep = 3;
    let g = gen_g(s, &c);
    ctx.desc = g.show();
    let mut r = g.rnode();
    if s.chance(1, 6) {
        r = RNode::MinW(Box::new(r));
    }
    let cl = Classes::for_nodes(&[&r]);
    let d = match Dfa::from_rnode(&cl, &r) {
        Ok(d) => d,
        Err(_) => return ctx.discard("too big"),
    };
    let p = d.prefixes();
    let mut words = vec![vec![]];
    for _ in 0..12 {
        words.push(gen_bytes(s, &cl.rep, 6));
        words.push(gen_bytes(s, &c.pool, 6));
    }
    for w in words {
        let a = d.accepts(&cl, &w);
        let b = ends(&r, &w, 0).contains(&w.len());
        if a != b {
            return Err(format!("{:?}: automaton {} direct {}", w, a, b));
        }
        if a {
            for i in 0..=w.len() {
                if !p.accepts(&cl, &w[..i]) {
                    return Err("prefix closure".into());
                }
            }
        }
        let q = d.run(&cl, &w);
        if let Some(x) = d.shortest_from(&cl, q) {
            let mut y = w.clone();
            y.extend(x);
            if !d.accepts(&cl, &y) || !p.accepts(&cl, &w) {
                return Err("shortest_from".into());
            }
        } else if p.accepts(&cl, &w) {
            return Err("liveness".into());
        }
    }
    ctx.nontrivial = d.n() >= 3;
    Ok(())
}

fn utf8(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cp = |s: &mut Src| -> u32 {
        match s.usize(4) {
            0 => *s.pick(&[0u32, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x3f, 0x40, 0xfff, 0x1000]),
            1 => s.below(0x900) as u32,
            _ => s.below(0x110000) as u32,
        }
    };
    let a = cp(s);
    let b = (a + s.below(70) as u32).max(if s.chance(1, 2) { cp(s) } else { 0 }).min(0x10ffff);
    ctx.desc = format!("{:x}-{:x}", a, b);
    let mut q = vec![];
    utf8_seqs(a, b, &mut q);
    let r = RNode::Seqs(std::rc::Rc::new(q));
    for _ in 0..30 {
        let mut c = match s.usize(5) {
            0 => a,
            1 => b,
            2 => a.saturating_sub(1),
            3 => (b + 1).min(0x10ffff),
            _ => cp(s),
        };
        if (0xd800..0xe000).contains(&c) {
            c = 0x40;
        }
        let ch = char::from_u32(c).unwrap();
        let mut buf = [0; 4];
        let e = ch.encode_utf8(&mut buf).as_bytes();
        let m = ends(&r, e, 0).contains(&e.len());
        if m != (a <= c && c <= b) {
            return Err(format!("{:x}: {}", c, m));
        }
        // random bytes: accepted only if valid
        let n = s.range(1, 4);
        let w: Vec<u8> = (0..n).map(|_| s.byte()).collect();
        if ends(&r, &w, 0).contains(&w.len()) {
            match std::str::from_utf8(&w) {
                Ok(t) if t.chars().count() == 1 => {}
                _ => return Err(format!("{:?} accepted", w)),
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
