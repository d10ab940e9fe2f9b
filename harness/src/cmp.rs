//! Exact comparison of a compiled regex with a reference DFA: breadth-first product over all bytes.

use crate::refa::{Classes, Dfa, RNode};
use crate::runner::Ctx;
use derivre::{NextByte, Regex, StateID};
use std::collections::HashMap;

#[derive(Clone, Copy)]
pub struct Opts {
    pub dead: bool,
    pub next: bool,
    pub la: bool,
    pub cap: usize,
}

impl Opts {
    pub const LANG: Opts = Opts {
        dead: false,
        next: false,
        la: false,
        cap: 3000,
    };
    pub const DEAD: Opts = Opts {
        dead: true,
        next: false,
        la: false,
        cap: 3000,
    };
    pub const ALL: Opts = Opts {
        dead: true,
        next: true,
        la: true,
        cap: 3000,
    };
}

pub struct Stats {
    pub pairs: usize,
    pub states: usize,
    pub capped: bool,
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for c in b {
        for e in std::ascii::escape_default(*c) {
            s.push(e as char);
        }
    }
    s.push('"');
    s
}

/// engine work (its own cost counter) after which a walk stops: bounds the time, not the verdict
pub const WORK: u64 = 5_000_000;

/// Product walk. Err carries the shortest distinguishing input.
pub fn compare(rx: &mut Regex, dfa: &Dfa, cl: &Classes, o: Opts) -> Result<Stats, String> {
    let s0 = rx.initial_state();
    if o.dead {
        let e = rx.always_empty();
        if e != dfa.is_empty() {
            return Err(format!(
                "always_empty() = {} but the language is {}",
                e,
                match dfa.shortest_from(cl, dfa.start) {
                    Some(w) => format!("non-empty, it contains {}", show(&w)),
                    None => "empty".to_string(),
                }
            ));
        }
    }
    let mut ids: HashMap<(StateID, u32), u32> = HashMap::new();
    let mut nodes: Vec<(StateID, u32, u32, u8)> = vec![(s0, dfa.start, 0, 0)];
    ids.insert((s0, dfa.start), 0);
    let path = |nodes: &Vec<(StateID, u32, u32, u8)>, mut i: usize| -> Vec<u8> {
        let mut w = vec![];
        while i != 0 {
            w.push(nodes[i].3);
            i = nodes[i].2 as usize;
        }
        w.reverse();
        w
    };
    let mut capped = false;
    let mut distinct = std::collections::HashSet::new();
    let mut i = 0;
    let c0 = rx.cost();
    while i < nodes.len() {
        if rx.cost().wrapping_sub(c0) > WORK {
            capped = true;
            break;
        }
        let (s, q, _, _) = nodes[i];
        distinct.insert(s);
        let acc = rx.is_accepting(s);
        let want = dfa.acc[q as usize];
        if acc != want {
            let w = path(&nodes, i);
            let direct = rx.is_match_bytes(&w);
            return Err(format!(
                "input {} {} match but the regex says {} (is_match_bytes: {})",
                show(&w),
                if want { "must" } else { "must not" },
                acc,
                direct
            ));
        }
        if o.la {
            let l = rx.lookahead_len_for_state(s);
            let exp = if want { Some(0) } else { None };
            if l != exp {
                return Err(format!(
                    "lookahead length after {} is {:?}, expected {:?}",
                    show(&path(&nodes, i)),
                    l,
                    exp
                ));
            }
        }
        let live = dfa.live[q as usize];
        if o.dead && s.is_dead() == live {
            return Err(format!(
                "after {} the state {} dead, but {}",
                show(&path(&nodes, i)),
                if s.is_dead() { "is" } else { "is not" },
                match dfa.shortest_from(cl, q) {
                    Some(w) => format!("{} completes a match", show(&w)),
                    None => "no continuation matches".to_string(),
                }
            ));
        }
        if o.next {
            check_next(rx, dfa, cl, s, q).map_err(|e| format!("after {}: {}", show(&path(&nodes, i)), e))?;
        }
        let mut last = (s, u32::MAX);
        for b in 0..=255u8 {
            let c = cl.of[b as usize] as usize;
            let t = rx.transition(s, b);
            let r = dfa.step(q, c);
            if (t, r) == last {
                continue;
            }
            last = (t, r);
            if !ids.contains_key(&(t, r)) {
                if nodes.len() >= o.cap {
                    capped = true;
                    continue;
                }
                ids.insert((t, r), nodes.len() as u32);
                nodes.push((t, r, i as u32, b));
            }
        }
        i += 1;
    }
    Ok(Stats {
        pairs: nodes.len(),
        states: distinct.len(),
        capped,
    })
}

pub fn check_next(rx: &mut Regex, dfa: &Dfa, cl: &Classes, s: StateID, q: u32) -> Result<NextByte, String> {
    let nb = rx.next_byte(s);
    let acc = dfa.acc[q as usize];
    let live_via = |b: u8| -> bool { dfa.live[dfa.step(q, cl.of[b as usize] as usize) as usize] };
    match nb {
        NextByte::SomeBytes => {
            if s.is_dead() {
                return Err("hint SomeBytes in the dead state".into());
            }
        }
        NextByte::Dead => {
            if !s.is_dead() || dfa.live[q as usize] {
                return Err(format!(
                    "dead hint in a live state ({:?} completes a match)",
                    dfa.shortest_from(cl, q).map(|w| show(&w))
                ));
            }
        }
        NextByte::ForcedByte(b) => {
            if acc {
                return Err(format!("hint ForcedByte({:#x}) in an accepting state", b));
            }
            for x in 0..=255u8 {
                if x != b && live_via(x) {
                    return Err(format!("hint ForcedByte({:#x}) but byte {:#x} can continue to a match", b, x));
                }
                if x != b && !rx.transition(s, x).is_dead() {
                    return Err(format!("hint ForcedByte({:#x}) but byte {:#x} does not lead to the dead state", b, x));
                }
            }
        }
        NextByte::ForcedEOI => {
            if !acc {
                return Err("hint ForcedEOI in a state that does not accept".into());
            }
            for x in 0..=255u8 {
                if live_via(x) {
                    return Err(format!("hint ForcedEOI but byte {:#x} can continue to a match", x));
                }
                if !rx.transition(s, x).is_dead() {
                    return Err(format!("hint ForcedEOI but byte {:#x} does not lead to the dead state", x));
                }
            }
        }
    }
    Ok(nb)
}

/// Compare against an RNode; Ok(None) when the reference automaton is too big.
pub fn compare_r(rx: &mut Regex, r: &RNode, o: Opts, ctx: &mut Ctx) -> Result<Option<(Dfa, Classes)>, String> {
    let cl = Classes::for_nodes(&[r]);
    let dfa = match Dfa::from_rnode(&cl, r) {
        Ok(d) => d,
        Err(_) => {
            ctx.discard = Some("reference automaton too big");
            return Ok(None);
        }
    };
    let st = compare(rx, &dfa, &cl, o)?;
    note(ctx, &dfa, &st);
    Ok(Some((dfa, cl)))
}

pub fn note(ctx: &mut Ctx, dfa: &Dfa, st: &Stats) {
    ctx.add("product pairs explored", st.pairs as u64);
    if st.capped {
        ctx.label("state cap hit (explored partially)");
    }
    if dfa.is_empty() {
        ctx.label("empty language");
    }
    if dfa.n() >= 4 {
        ctx.label("minimal DFA has 4+ states");
    }
    if dfa.n() >= 10 {
        ctx.label("minimal DFA has 10+ states");
    }
}

/// non-trivial: the language is neither empty nor everything and needs at least 3 states
pub fn nontriv(d: &Dfa) -> bool {
    d.n() >= 3
}
