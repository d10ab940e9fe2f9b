//! Reference semantics: a small regular-language IR and textbook DFA constructions.
//! Shares nothing with the code under test (no derivatives, no rewriting).

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct BS(pub [u64; 4]);

impl BS {
    pub const EMPTY: BS = BS([0; 4]);
    pub const FULL: BS = BS([!0; 4]);
    pub fn single(b: u8) -> BS {
        let mut s = BS::EMPTY;
        s.set(b);
        s
    }
    pub fn range(a: u8, b: u8) -> BS {
        let mut s = BS::EMPTY;
        for x in a..=b {
            s.set(x);
        }
        s
    }
    /// the smallest member
    pub fn first(&self) -> Option<u8> {
        self.bytes().first().copied()
    }
    pub fn set(&mut self, b: u8) {
        self.0[b as usize / 64] |= 1 << (b % 64);
    }
    pub fn clear(&mut self, b: u8) {
        self.0[b as usize / 64] &= !(1 << (b % 64));
    }
    pub fn has(&self, b: u8) -> bool {
        self.0[b as usize / 64] & (1 << (b % 64)) != 0
    }
    pub fn not(&self) -> BS {
        BS([!self.0[0], !self.0[1], !self.0[2], !self.0[3]])
    }
    pub fn or(&self, o: &BS) -> BS {
        let mut r = *self;
        for i in 0..4 {
            r.0[i] |= o.0[i];
        }
        r
    }
    pub fn and(&self, o: &BS) -> BS {
        let mut r = *self;
        for i in 0..4 {
            r.0[i] &= o.0[i];
        }
        r
    }
    pub fn len(&self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
    pub fn words(&self) -> Vec<u32> {
        let mut r = vec![];
        for x in self.0 {
            r.push(x as u32);
            r.push((x >> 32) as u32);
        }
        r
    }
    pub fn bytes(&self) -> Vec<u8> {
        (0..=255u8).filter(|b| self.has(*b)).collect()
    }
}

impl std::fmt::Debug for BS {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[")?;
        let mut i = 0usize;
        let mut first = true;
        while i < 256 {
            if self.has(i as u8) {
                let s = i;
                while i + 1 < 256 && self.has((i + 1) as u8) {
                    i += 1;
                }
                if !first {
                    write!(f, ",")?;
                }
                first = false;
                if s == i {
                    write!(f, "{:02x}", s)?;
                } else {
                    write!(f, "{:02x}-{:02x}", s, i)?;
                }
            }
            i += 1;
        }
        write!(f, "]")
    }
}

#[derive(Clone, Debug)]
pub enum RNode {
    Eps,
    Empty,
    Set(BS),
    /// finite union of sequences of byte sets
    Seqs(Rc<Vec<Vec<BS>>>),
    Cat(Vec<RNode>),
    Alt(Vec<RNode>),
    And(Vec<RNode>),
    Not(Box<RNode>),
    Rep(Box<RNode>, u32, Option<u32>),
    Prefix(Box<RNode>),
    /// words with no proper prefix in the language
    MinW(Box<RNode>),
}

impl RNode {
    pub fn lit(s: &[u8]) -> RNode {
        if s.is_empty() {
            RNode::Eps
        } else {
            RNode::Seqs(Rc::new(vec![s.iter().map(|b| BS::single(*b)).collect()]))
        }
    }
    pub fn words(ws: &[Vec<u8>]) -> RNode {
        RNode::Seqs(Rc::new(
            ws.iter()
                .map(|s| s.iter().map(|b| BS::single(*b)).collect())
                .collect(),
        ))
    }
    pub fn any_string() -> RNode {
        RNode::Rep(Box::new(RNode::Set(BS::FULL)), 0, None)
    }
    pub fn codepoints(ranges: &[(u32, u32)]) -> RNode {
        let mut seqs = vec![];
        for &(a, b) in ranges {
            utf8_seqs(a, b, &mut seqs);
        }
        if seqs.is_empty() {
            RNode::Empty
        } else {
            RNode::Seqs(Rc::new(seqs))
        }
    }
    pub fn atoms(&self, out: &mut Vec<BS>) {
        match self {
            RNode::Eps | RNode::Empty => {}
            RNode::Set(s) => out.push(*s),
            RNode::Seqs(v) => {
                for s in v.iter() {
                    out.extend_from_slice(s)
                }
            }
            RNode::Cat(v) | RNode::Alt(v) | RNode::And(v) => v.iter().for_each(|x| x.atoms(out)),
            RNode::Not(x) | RNode::Rep(x, _, _) | RNode::Prefix(x) | RNode::MinW(x) => x.atoms(out),
        }
    }
    /// bytewise homomorphic substitution of byte sets
    pub fn subst(&self, f: &dyn Fn(&BS) -> RNode) -> RNode {
        match self {
            RNode::Eps => RNode::Eps,
            RNode::Empty => RNode::Empty,
            RNode::Set(s) => f(s),
            RNode::Seqs(v) => RNode::Alt(
                v.iter()
                    .map(|s| RNode::Cat(s.iter().map(|b| f(b)).collect()))
                    .collect(),
            ),
            RNode::Cat(v) => RNode::Cat(v.iter().map(|x| x.subst(f)).collect()),
            RNode::Alt(v) => RNode::Alt(v.iter().map(|x| x.subst(f)).collect()),
            RNode::And(v) => RNode::And(v.iter().map(|x| x.subst(f)).collect()),
            RNode::Not(x) => RNode::Not(Box::new(x.subst(f))),
            RNode::Rep(x, a, b) => RNode::Rep(Box::new(x.subst(f)), *a, *b),
            RNode::Prefix(x) => RNode::Prefix(Box::new(x.subst(f))),
            RNode::MinW(x) => RNode::MinW(Box::new(x.subst(f))),
        }
    }
}

/// UTF-8 byte-range sequences for code points [a, b], surrogates removed.
pub fn utf8_seqs(a: u32, b: u32, out: &mut Vec<Vec<BS>>) {
    if a > b {
        return;
    }
    if a < 0xE000 && b >= 0xD800 {
        // cut the surrogates out
        if a < 0xD800 {
            utf8_seqs(a, 0xD7FF, out);
        }
        if b >= 0xE000 {
            utf8_seqs(0xE000, b, out);
        }
        return;
    }
    for lim in [0x7F, 0x7FF, 0xFFFF] {
        if a <= lim && b > lim {
            utf8_seqs(a, lim, out);
            utf8_seqs(lim + 1, b, out);
            return;
        }
    }
    let enc = |c: u32| -> Vec<u8> {
        if c < 0x80 {
            vec![c as u8]
        } else if c < 0x800 {
            vec![0xC0 | (c >> 6) as u8, 0x80 | (c & 0x3f) as u8]
        } else if c < 0x10000 {
            vec![
                0xE0 | (c >> 12) as u8,
                0x80 | ((c >> 6) & 0x3f) as u8,
                0x80 | (c & 0x3f) as u8,
            ]
        } else {
            vec![
                0xF0 | (c >> 18) as u8,
                0x80 | ((c >> 12) & 0x3f) as u8,
                0x80 | ((c >> 6) & 0x3f) as u8,
                0x80 | (c & 0x3f) as u8,
            ]
        }
    };
    // same length now; split so that trailing positions are either fixed or full
    fn rec(a: &[u8], b: &[u8], pre: &mut Vec<BS>, out: &mut Vec<Vec<BS>>) {
        if a.is_empty() {
            out.push(pre.clone());
            return;
        }
        if a.len() == 1 {
            pre.push(BS::range(a[0], b[0]));
            out.push(pre.clone());
            pre.pop();
            return;
        }
        let lo = vec![0x80u8; a.len() - 1];
        let hi = vec![0xBFu8; a.len() - 1];
        if a[0] == b[0] {
            pre.push(BS::single(a[0]));
            rec(&a[1..], &b[1..], pre, out);
            pre.pop();
            return;
        }
        let mut first = a[0];
        let mut last = b[0];
        if a[1..] != lo[..] {
            pre.push(BS::single(a[0]));
            rec(&a[1..], &hi, pre, out);
            pre.pop();
            first += 1;
        }
        let tail_partial = b[1..] != hi[..];
        if tail_partial {
            last -= 1;
        }
        if first <= last {
            pre.push(BS::range(first, last));
            rec(&lo, &hi, pre, out);
            pre.pop();
        }
        if tail_partial {
            pre.push(BS::single(b[0]));
            rec(&lo, &b[1..], pre, out);
            pre.pop();
        }
    }
    rec(&enc(a), &enc(b), &mut vec![], out);
}

/// Partition of the 256 bytes by the atoms
#[derive(Clone)]
pub struct Classes {
    pub of: [u8; 256],
    pub k: usize,
    pub rep: Vec<u8>,
}

impl Classes {
    pub fn from_atoms(atoms: &[BS]) -> Classes {
        let mut a: Vec<BS> = atoms.to_vec();
        a.sort();
        a.dedup();
        let words = (a.len() + 63) / 64;
        let mut sig: Vec<Vec<u64>> = vec![vec![0; words]; 256];
        for (i, s) in a.iter().enumerate() {
            for b in 0..256 {
                if s.has(b as u8) {
                    sig[b][i / 64] |= 1 << (i % 64);
                }
            }
        }
        let mut m: HashMap<Vec<u64>, usize> = HashMap::new();
        let mut of = [0u8; 256];
        let mut rep = vec![];
        for (b, s) in sig.into_iter().enumerate() {
            let n = m.len();
            let c = *m.entry(s).or_insert_with(|| {
                rep.push(b as u8);
                n
            });
            of[b] = c as u8;
        }
        Classes {
            of,
            k: m.len(),
            rep,
        }
    }
    pub fn for_nodes(ns: &[&RNode]) -> Classes {
        let mut atoms = vec![];
        for n in ns {
            n.atoms(&mut atoms);
        }
        Classes::from_atoms(&atoms)
    }
}

#[derive(Clone, Debug)]
pub struct Dfa {
    pub k: usize,
    pub trans: Vec<u32>,
    pub acc: Vec<bool>,
    pub live: Vec<bool>,
    pub start: u32,
}

#[derive(Debug)]
pub struct TooBig;

/// multiplicative hasher: the automata are built millions of times
#[derive(Default, Clone, Copy)]
pub struct Fast(u64);
impl std::hash::Hasher for Fast {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FastMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fast>>;

thread_local! {
    static BUDGET: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

fn spend(n: usize) -> Result<(), TooBig> {
    BUDGET.with(|b| {
        let v = b.get() + n as u64;
        b.set(v);
        if v > MAX_TOTAL {
            Err(TooBig)
        } else {
            Ok(())
        }
    })
}

const MAX_STATES: usize = 3000;
const MAX_TOTAL: u64 = 50_000_000;
const MAX_WORK: usize = 400_000;

impl Dfa {
    pub fn n(&self) -> usize {
        self.acc.len()
    }
    #[inline]
    pub fn step(&self, s: u32, c: usize) -> u32 {
        self.trans[s as usize * self.k + c]
    }
    pub fn run(&self, cl: &Classes, s: &[u8]) -> u32 {
        let mut q = self.start;
        for b in s {
            q = self.step(q, cl.of[*b as usize] as usize);
        }
        q
    }
    pub fn accepts(&self, cl: &Classes, s: &[u8]) -> bool {
        self.acc[self.run(cl, s) as usize]
    }
    pub fn is_empty(&self) -> bool {
        !self.live[self.start as usize]
    }
    /// shortest accepted continuation from state q
    pub fn shortest_from(&self, cl: &Classes, q: u32) -> Option<Vec<u8>> {
        let mut prev: HashMap<u32, (u32, u8)> = HashMap::new();
        let mut queue = std::collections::VecDeque::new();
        queue.push_back(q);
        let mut seen = vec![false; self.n()];
        seen[q as usize] = true;
        while let Some(s) = queue.pop_front() {
            if self.acc[s as usize] {
                let mut w = vec![];
                let mut x = s;
                while x != q {
                    let (p, b) = prev[&x];
                    w.push(b);
                    x = p;
                }
                w.reverse();
                return Some(w);
            }
            for c in 0..self.k {
                let t = self.step(s, c);
                if !seen[t as usize] {
                    seen[t as usize] = true;
                    prev.insert(t, (s, cl.rep[c]));
                    queue.push_back(t);
                }
            }
        }
        None
    }

    fn build<S: Clone + Eq + std::hash::Hash>(
        k: usize,
        start: S,
        mut step: impl FnMut(&S, usize) -> S,
        acc: impl Fn(&S) -> bool,
    ) -> Result<Dfa, TooBig> {
        let mut ids: FastMap<S, u32> = FastMap::default();
        let mut states = vec![start.clone()];
        ids.insert(start, 0);
        let mut trans = vec![];
        let mut i = 0;
        while i < states.len() {
            let s = states[i].clone();
            for c in 0..k {
                let t = step(&s, c);
                let id = match ids.get(&t) {
                    Some(x) => *x,
                    None => {
                        let id = states.len() as u32;
                        ids.insert(t.clone(), id);
                        states.push(t);
                        id
                    }
                };
                trans.push(id);
            }
            spend(k)?;
            if states.len() > MAX_STATES || trans.len() > MAX_WORK {
                return Err(TooBig);
            }
            i += 1;
        }
        let accn = states.len();
        let accv: Vec<bool> = states.iter().map(|s| acc(s)).collect();
        let mut d = Dfa {
            k,
            trans,
            acc: accv,
            live: vec![],
            start: 0,
        };
        let rounds = d.minimize();
        spend(rounds * d.k * accn)?;
        Ok(d)
    }

    /// Moore partition refinement, BFS renumbering, liveness
    pub fn minimize(&mut self) -> usize {
        let mut rounds = 0;
        let n = self.n();
        let k = self.k;
        let mut cls: Vec<u32> = self.acc.iter().map(|a| *a as u32).collect();
        let mut ncls = {
            let any_a = self.acc.iter().any(|x| *x);
            let any_n = self.acc.iter().any(|x| !*x);
            any_a as usize + any_n as usize
        };
        loop {
            let mut m: FastMap<Vec<u32>, u32> = FastMap::default();
            let mut new = vec![0u32; n];
            for s in 0..n {
                let mut key = Vec::with_capacity(k + 1);
                key.push(cls[s]);
                for c in 0..k {
                    key.push(cls[self.trans[s * k + c] as usize]);
                }
                let l = m.len() as u32;
                new[s] = *m.entry(key).or_insert(l);
            }
            rounds += 1;
            let nn = m.len();
            cls = new;
            if nn == ncls {
                break;
            }
            ncls = nn;
        }
        // BFS from start over classes
        let mut order = vec![u32::MAX; ncls];
        let mut repr = vec![];
        let s0 = cls[self.start as usize];
        order[s0 as usize] = 0;
        // representative state for each class
        let mut rep_of = vec![u32::MAX; ncls];
        for s in 0..n {
            if rep_of[cls[s] as usize] == u32::MAX {
                rep_of[cls[s] as usize] = s as u32;
            }
        }
        repr.push(rep_of[s0 as usize]);
        let mut i = 0;
        let mut trans = vec![];
        while i < repr.len() {
            let s = repr[i] as usize;
            for c in 0..k {
                let t = cls[self.trans[s * k + c] as usize] as usize;
                if order[t] == u32::MAX {
                    order[t] = repr.len() as u32;
                    repr.push(rep_of[t]);
                }
                trans.push(order[t]);
            }
            i += 1;
        }
        let acc: Vec<bool> = repr.iter().map(|s| self.acc[*s as usize]).collect();
        self.trans = trans;
        self.acc = acc;
        self.start = 0;
        self.compute_live();
        rounds
    }

    fn compute_live(&mut self) {
        let n = self.n();
        let mut rev: Vec<Vec<u32>> = vec![vec![]; n];
        for s in 0..n {
            for c in 0..self.k {
                rev[self.trans[s * self.k + c] as usize].push(s as u32);
            }
        }
        let mut live = self.acc.clone();
        let mut st: Vec<u32> = (0..n as u32).filter(|s| live[*s as usize]).collect();
        while let Some(s) = st.pop() {
            for &p in &rev[s as usize] {
                if !live[p as usize] {
                    live[p as usize] = true;
                    st.push(p);
                }
            }
        }
        self.live = live;
    }

    pub fn empty(k: usize) -> Dfa {
        Dfa {
            k,
            trans: vec![0; k],
            acc: vec![false],
            live: vec![false],
            start: 0,
        }
    }

    pub fn not(&self) -> Dfa {
        let mut d = self.clone();
        for a in d.acc.iter_mut() {
            *a = !*a;
        }
        d.compute_live();
        d
    }

    /// product of two finished automata (its own work budget)
    pub fn product_of(&self, o: &Dfa, f: impl Fn(bool, bool) -> bool) -> Result<Dfa, TooBig> {
        BUDGET.with(|b| b.set(0));
        self.product(o, f)
    }

    fn product(&self, o: &Dfa, f: impl Fn(bool, bool) -> bool) -> Result<Dfa, TooBig> {
        Dfa::build(
            self.k,
            (self.start, o.start),
            |s, c| (self.step(s.0, c), o.step(s.1, c)),
            |s| f(self.acc[s.0 as usize], o.acc[s.1 as usize]),
        )
    }

    pub fn concat(&self, o: &Dfa) -> Result<Dfa, TooBig> {
        let mut s0 = vec![];
        if self.acc[self.start as usize] && o.live[o.start as usize] {
            s0.push(o.start);
        }
        Dfa::build(
            self.k,
            (self.start, s0),
            |s, c| {
                let a = self.step(s.0, c);
                let mut v: Vec<u32> = s
                    .1
                    .iter()
                    .map(|q| o.step(*q, c))
                    .filter(|q| o.live[*q as usize])
                    .collect();
                if self.acc[a as usize] && o.live[o.start as usize] {
                    v.push(o.start);
                }
                v.sort_unstable();
                v.dedup();
                (a, v)
            },
            |s| s.1.iter().any(|q| o.acc[*q as usize]),
        )
    }

    pub fn repeat(&self, min: u32, max: Option<u32>) -> Result<Dfa, TooBig> {
        let e = self;
        let nullable = e.acc[e.start as usize];
        let min = if nullable { 0 } else { min };
        if max == Some(0) {
            return Dfa::from_rnode_raw(e.k, &RNode::Eps, None);
        }
        // state: None = initial (before anything), else set of (completed copies, state in copy)
        let cap = std::cmp::max(min, 1) - 1;
        let bump = |i: u32| -> Option<u32> {
            match max {
                Some(m) => {
                    if i + 1 < m {
                        Some(i + 1)
                    } else {
                        None
                    }
                }
                None => Some(std::cmp::min(i + 1, cap)),
            }
        };
        let init: (bool, Vec<(u32, u32)>) = (true, vec![(0, e.start)]);
        // when e is nullable, copies may be skipped, but min = 0 makes this unnecessary
        Dfa::build(
            e.k,
            init,
            |s, c| {
                let mut v = vec![];
                for &(i, q) in &s.1 {
                    let t = e.step(q, c);
                    if e.live[t as usize] {
                        v.push((i, t));
                        if e.acc[t as usize] {
                            if let Some(j) = bump(i) {
                                v.push((j, e.start));
                            }
                        }
                    }
                }
                v.sort_unstable();
                v.dedup();
                (false, v)
            },
            |s| {
                if s.0 {
                    min == 0
                } else {
                    s.1.iter().any(|(i, q)| e.acc[*q as usize] && i + 1 >= min)
                }
            },
        )
    }

    pub fn prefixes(&self) -> Dfa {
        let mut d = self.clone();
        d.acc = d.live.clone();
        d.minimize();
        d
    }

    pub fn min_words(&self) -> Result<Dfa, TooBig> {
        Dfa::build(
            self.k,
            Some(self.start),
            |s, c| match s {
                Some(q) if !self.acc[*q as usize] => Some(self.step(*q, c)),
                _ => None,
            },
            |s| matches!(s, Some(q) if self.acc[*q as usize]),
        )
    }

    fn union_of(k: usize, v: &[RNode], cl: Option<&Classes>) -> Result<Dfa, TooBig> {
        match v.len() {
            1 => Dfa::from_rnode_raw(k, &v[0], cl),
            n => {
                let a = Dfa::union_of(k, &v[..n / 2], cl)?;
                let b = Dfa::union_of(k, &v[n / 2..], cl)?;
                a.product(&b, |a, b| a || b)
            }
        }
    }

    fn from_rnode_raw(k: usize, r: &RNode, cl: Option<&Classes>) -> Result<Dfa, TooBig> {
        match r {
            RNode::Eps => Dfa::build(k, true, |_, _| false, |s| *s),
            RNode::Empty => Ok(Dfa::empty(k)),
            RNode::Set(s) => {
                let cl = cl.unwrap();
                Dfa::build(
                    k,
                    0u8,
                    |q, c| {
                        if *q == 0 && s.has(cl.rep[c]) {
                            1
                        } else {
                            2
                        }
                    },
                    |q| *q == 1,
                )
            }
            RNode::Seqs(v) => {
                let cl = cl.unwrap();
                let init: Vec<(u32, u32)> = (0..v.len() as u32).map(|i| (i, 0)).collect();
                Dfa::build(
                    k,
                    init,
                    |s, c| {
                        let b = cl.rep[c];
                        s.iter()
                            .filter(|(i, p)| {
                                (*p as usize) < v[*i as usize].len()
                                    && v[*i as usize][*p as usize].has(b)
                            })
                            .map(|(i, p)| (*i, p + 1))
                            .collect()
                    },
                    |s| s.iter().any(|(i, p)| *p as usize == v[*i as usize].len()),
                )
            }
            RNode::Cat(v) => {
                let mut it = v.iter();
                let mut d = match it.next() {
                    None => return Dfa::from_rnode_raw(k, &RNode::Eps, cl),
                    Some(x) => Dfa::from_rnode_raw(k, x, cl)?,
                };
                for x in it {
                    d = d.concat(&Dfa::from_rnode_raw(k, x, cl)?)?;
                }
                Ok(d)
            }
            RNode::Alt(v) => match v.len() {
                0 => Ok(Dfa::empty(k)),
                1 => Dfa::from_rnode_raw(k, &v[0], cl),
                n => {
                    // balanced, so that unions of many small parts stay cheap
                    let a = Dfa::union_of(k, &v[..n / 2], cl)?;
                    let b = Dfa::union_of(k, &v[n / 2..], cl)?;
                    a.product(&b, |a, b| a || b)
                }
            },
            RNode::And(v) => {
                let mut d = Dfa::empty(k).not();
                for x in v {
                    d = d.product(&Dfa::from_rnode_raw(k, x, cl)?, |a, b| a && b)?;
                }
                Ok(d)
            }
            RNode::Not(x) => Ok(Dfa::from_rnode_raw(k, x, cl)?.not()),
            RNode::Rep(x, a, b) => Dfa::from_rnode_raw(k, x, cl)?.repeat(*a, *b),
            RNode::Prefix(x) => Ok(Dfa::from_rnode_raw(k, x, cl)?.prefixes()),
            RNode::MinW(x) => Dfa::from_rnode_raw(k, x, cl)?.min_words(),
        }
    }

    pub fn from_rnode(cl: &Classes, r: &RNode) -> Result<Dfa, TooBig> {
        BUDGET.with(|b| b.set(0));
        Dfa::from_rnode_raw(cl.k, r, Some(cl))
    }
}

/// Independent, different-in-kind second oracle: direct recursive membership on a string
/// (set of end positions), used to cross-check the DFA constructions themselves.
pub fn ends(r: &RNode, s: &[u8], i: usize) -> Vec<usize> {
    let mut v = match r {
        RNode::Eps => vec![i],
        RNode::Empty => vec![],
        RNode::Set(b) => {
            if i < s.len() && b.has(s[i]) {
                vec![i + 1]
            } else {
                vec![]
            }
        }
        RNode::Seqs(qs) => qs
            .iter()
            .filter(|q| i + q.len() <= s.len() && q.iter().enumerate().all(|(j, b)| b.has(s[i + j])))
            .map(|q| i + q.len())
            .collect(),
        RNode::Cat(xs) => {
            let mut cur = vec![i];
            for x in xs {
                let mut nx = vec![];
                for p in cur {
                    nx.extend(ends(x, s, p));
                }
                nx.sort_unstable();
                nx.dedup();
                cur = nx;
            }
            cur
        }
        RNode::Alt(xs) => xs.iter().flat_map(|x| ends(x, s, i)).collect(),
        RNode::And(xs) => {
            let mut cur: Vec<usize> = (i..=s.len()).collect();
            for x in xs {
                let e = ends(x, s, i);
                cur.retain(|p| e.contains(p));
            }
            cur
        }
        RNode::Not(x) => {
            let e = ends(x, s, i);
            (i..=s.len()).filter(|p| !e.contains(p)).collect()
        }
        RNode::Rep(x, min, max) => {
            let mut res = vec![];
            let mut cur = vec![i];
            let mut n = 0u32;
            let lim = (s.len() as u32 + 1).saturating_add(*min);
            loop {
                if n >= *min {
                    res.extend_from_slice(&cur);
                }
                if cur.is_empty() || n >= lim || Some(n) == *max {
                    break;
                }
                let mut nx = vec![];
                for p in &cur {
                    nx.extend(ends(x, s, *p));
                }
                nx.sort_unstable();
                nx.dedup();
                cur = nx;
                n += 1;
            }
            res
        }
        RNode::Prefix(_) => panic!("prefix not supported by ends()"),
        RNode::MinW(x) => {
            // minimal: the first end position only
            ends(x, s, i).into_iter().min().into_iter().collect()
        }
    };
    v.sort_unstable();
    v.dedup();
    v
}
