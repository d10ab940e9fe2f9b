//! Generators for builder expressions (G) and pattern strings (Pat).

use crate::refa::{RNode, BS};
use crate::src::Src;
use derivre::{ExprRef, RegexAst, RegexBuilder};

#[derive(Clone, Debug)]
pub enum G {
    Eps,
    None,
    Byte(u8),
    Set(BS),
    Lit(String),
    BLit(Vec<u8>),
    Rx(Pat),
    And(Vec<G>),
    Or(Vec<G>),
    Cat(Vec<G>),
    Not(Box<G>),
    Rep(Box<G>, u32, u32),
    Prefix(Box<G>),
    /// built first, then referenced by ExprRef
    Ref(Box<G>),
}

impl G {
    pub fn rnode(&self) -> RNode {
        match self {
            G::Eps => RNode::Eps,
            G::None => RNode::Empty,
            G::Byte(b) => RNode::Set(BS::single(*b)),
            G::Set(s) => RNode::Set(*s),
            G::Lit(s) => RNode::lit(s.as_bytes()),
            G::BLit(s) => RNode::lit(s),
            G::Rx(p) => p.rnode(),
            G::And(v) => RNode::And(v.iter().map(|x| x.rnode()).collect()),
            G::Or(v) => RNode::Alt(v.iter().map(|x| x.rnode()).collect()),
            G::Cat(v) => RNode::Cat(v.iter().map(|x| x.rnode()).collect()),
            G::Not(x) => RNode::Not(Box::new(x.rnode())),
            G::Rep(x, a, b) => RNode::Rep(
                Box::new(x.rnode()),
                *a,
                if *b == u32::MAX { None } else { Some(*b) },
            ),
            G::Prefix(x) => RNode::Prefix(Box::new(x.rnode())),
            G::Ref(x) => x.rnode(),
        }
    }
    pub fn to_ast(&self, b: &mut RegexBuilder) -> Result<RegexAst, String> {
        let many = |v: &Vec<G>, b: &mut RegexBuilder| -> Result<Vec<RegexAst>, String> {
            v.iter().map(|x| x.to_ast(b)).collect()
        };
        Ok(match self {
            G::Eps => RegexAst::EmptyString,
            G::None => RegexAst::NoMatch,
            G::Byte(x) => RegexAst::Byte(*x),
            G::Set(s) => RegexAst::ByteSet(s.words()),
            G::Lit(s) => RegexAst::Literal(s.clone()),
            G::BLit(s) => RegexAst::ByteLiteral(s.clone()),
            G::Rx(p) => RegexAst::Regex(p.to_pattern()),
            G::And(v) => RegexAst::And(many(v, b)?),
            G::Or(v) => RegexAst::Or(many(v, b)?),
            G::Cat(v) => RegexAst::Concat(many(v, b)?),
            G::Not(x) => RegexAst::Not(Box::new(x.to_ast(b)?)),
            G::Rep(x, lo, hi) => RegexAst::Repeat(Box::new(x.to_ast(b)?), *lo, *hi),
            G::Prefix(x) => RegexAst::Prefixes(Box::new(x.to_ast(b)?)),
            G::Ref(x) => RegexAst::ExprRef(x.build(b)?),
        })
    }
    pub fn build(&self, b: &mut RegexBuilder) -> Result<ExprRef, String> {
        let ast = self.to_ast(b)?;
        b.mk(&ast)
            .map_err(|e| format!("builder rejected {:?}: {}", self, e))
    }
    pub fn any(&self, f: &dyn Fn(&G) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            G::And(v) | G::Or(v) | G::Cat(v) => v.iter().any(|x| x.any(f)),
            G::Not(x) | G::Rep(x, _, _) | G::Prefix(x) | G::Ref(x) => x.any(f),
            _ => false,
        }
    }
    pub fn has_andnot(&self) -> bool {
        self.any(&|g| matches!(g, G::And(_) | G::Not(_)))
    }
    pub fn size(&self) -> usize {
        1 + match self {
            G::And(v) | G::Or(v) | G::Cat(v) => v.iter().map(|x| x.size()).sum(),
            G::Not(x) | G::Rep(x, _, _) | G::Prefix(x) | G::Ref(x) => x.size(),
            _ => 0,
        }
    }
    pub fn show(&self) -> String {
        match self {
            G::Eps => "eps".into(),
            G::None => "none".into(),
            G::Byte(b) => format!("byte(0x{:02x})", b),
            G::Set(s) => format!("set{:?}", s),
            G::Lit(s) => format!("{:?}", s),
            G::BLit(s) => format!("b{:02x?}", s),
            G::Rx(p) => format!("rx(/{}/)", p.to_pattern()),
            G::And(v) => format!("And[{}]", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            G::Or(v) => format!("Or[{}]", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            G::Cat(v) => format!("Cat[{}]", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            G::Not(x) => format!("Not({})", x.show()),
            G::Rep(x, a, b) => {
                if *b == u32::MAX {
                    format!("Rep({}, {}, inf)", x.show(), a)
                } else {
                    format!("Rep({}, {}, {})", x.show(), a, b)
                }
            }
            G::Prefix(x) => format!("Prefixes({})", x.show()),
            G::Ref(x) => format!("ref({})", x.show()),
        }
    }
}

thread_local! {
    /// set while a case of the thorough tier runs
    pub static BOOST: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

#[derive(Clone)]
pub struct GCfg {
    pub and: bool,
    pub not: bool,
    pub prefix: bool,
    pub rx: bool,
    pub refs: bool,
    pub unicode: bool,
    pub max_size: usize,
    pub max_rep: u32,
    pub pool: Vec<u8>,
    /// fraction (out of 16) of wide random sets
    pub wide: u64,
    /// only bytes < this may be used (raw stores with small alphabets)
    pub limit: usize,
}

pub fn gen_pool(s: &mut Src) -> Vec<u8> {
    let n = s.range(1, 5);
    let base: &[u8] = b"abcxyz019_ \n\t\"\\-,Xu";
    let mut v = vec![];
    for i in 0..n {
        let b = match s.weighted(&[6, 4, 2]) {
            0 => b"abcde"[i % 5],
            1 => *s.pick(base),
            _ => *s.pick(&[0x00u8, 0x1f, 0x20, 0x7f, 0x80, 0xbf, 0xc2, 0xe0, 0xff, 0x3f, 0x40, 0x1e, 0x21, 0x5f, 0x60]),
        };
        if !v.contains(&b) {
            v.push(b);
        }
    }
    v
}

impl GCfg {
    pub fn full(s: &mut Src, max_size: usize) -> GCfg {
        // the thorough tier mixes in larger expressions
        let max_size = if BOOST.with(|b| b.get()) { max_size * (1 + s.weighted(&[3, 2, 1])) } else { max_size };
        GCfg {
            and: true,
            not: true,
            prefix: false,
            rx: true,
            refs: true,
            unicode: false,
            max_size,
            max_rep: 4,
            pool: gen_pool(s),
            wide: 1,
            limit: 256,
        }
    }
    pub fn positive(s: &mut Src, max_size: usize) -> GCfg {
        GCfg {
            and: false,
            not: false,
            ..GCfg::full(s, max_size)
        }
    }
}

pub fn gen_set(s: &mut Src, c: &GCfg) -> BS {
    let lim = |b: BS| -> BS {
        if c.limit >= 256 {
            b
        } else {
            b.and(&BS::range(0, (c.limit - 1) as u8))
        }
    };
    let sub = |s: &mut Src| -> BS {
        let mut r = BS::EMPTY;
        for b in &c.pool {
            if s.chance(1, 2) {
                r.set(*b);
            }
        }
        r
    };
    let r = match s.weighted(&[8, 4, 2, 2, c.wide, 1]) {
        0 => {
            let mut r = sub(s);
            if r == BS::EMPTY {
                r.set(*s.pick(&c.pool));
            }
            r
        }
        1 => sub(s).not(),
        2 => BS::FULL,
        3 => {
            let a = *s.pick(&c.pool);
            let w = s.below(40) as u8;
            BS::range(a.saturating_sub(w / 2), a.saturating_add(w / 2 + 1))
        }
        4 => {
            let mut r = BS::EMPTY;
            for i in 0..4 {
                r.0[i] = s.u64();
            }
            r
        }
        _ => BS::EMPTY,
    };
    lim(r)
}

pub fn gen_g(s: &mut Src, c: &GCfg) -> G {
    let size = s.range(1, c.max_size);
    let mut prev = vec![];
    gen_rec(s, c, size, 0, &mut prev)
}

fn gen_leaf(s: &mut Src, c: &GCfg) -> G {
    match s.weighted(&[
        6,
        6,
        1,
        1,
        if c.limit >= 256 { 4 } else { 0 },
        3,
        if c.rx { 3 } else { 0 },
    ]) {
        0 => G::Byte(*s.pick(&c.pool)),
        1 => G::Set(gen_set(s, c)),
        2 => G::Eps,
        3 => G::None,
        4 => {
            let n = s.range(0, 3);
            let mut t = String::new();
            for _ in 0..n {
                t.push(gen_char(s, c));
            }
            G::Lit(t)
        }
        5 => {
            let n = s.range(0, 4);
            G::BLit((0..n).map(|_| *s.pick(&c.pool)).collect())
        }
        _ => G::Rx(gen_pat(s, c, 3)),
    }
}

fn gen_char(s: &mut Src, c: &GCfg) -> char {
    let a: Vec<u8> = c.pool.iter().copied().filter(|b| *b < 0x80).collect();
    if a.is_empty() {
        'a'
    } else {
        *s.pick(&a) as char
    }
}

fn split(s: &mut Src, total: usize, n: usize) -> Vec<usize> {
    let mut v = vec![1; n];
    let mut rest = total.saturating_sub(n);
    while rest > 0 {
        let i = s.usize(n);
        v[i] += 1;
        rest -= 1;
    }
    v
}

fn gen_rec(s: &mut Src, c: &GCfg, size: usize, depth: usize, prev: &mut Vec<G>) -> G {
    let r = if !prev.is_empty() && depth > 0 && s.chance(1, 7) {
        let i = s.usize(prev.len());
        return prev[i].clone();
    } else if size <= 1 {
        gen_leaf(s, c)
    } else {
        match s.weighted(&[
            6,
            6,
            if c.and { 4 } else { 0 },
            if c.not { 4 } else { 0 },
            5,
            if c.prefix { 2 } else { 0 },
            if c.refs { 1 } else { 0 },
        ]) {
            x @ 0..=2 => {
                let n = if s.chance(1, 20) {
                    s.range(0, 1)
                } else {
                    s.range(2, 4).min(size.max(2))
                };
                let parts = split(s, size - 1, n.max(1));
                let v: Vec<G> = (0..n)
                    .map(|i| gen_rec(s, c, parts[i], depth + 1, prev))
                    .collect();
                match x {
                    0 => G::Cat(v),
                    1 => G::Or(v),
                    _ => G::And(v),
                }
            }
            3 => G::Not(Box::new(gen_rec(s, c, size - 1, depth + 1, prev))),
            4 => {
                let e = gen_rec(s, c, size - 1, depth + 1, prev);
                let (a, b) = gen_rep(s, c.max_rep);
                G::Rep(Box::new(e), a, b)
            }
            5 => G::Prefix(Box::new(gen_rec(s, c, size - 1, depth + 1, prev))),
            _ => G::Ref(Box::new(gen_rec(s, c, size - 1, depth + 1, prev))),
        }
    };
    if prev.len() < 12 {
        prev.push(r.clone());
    }
    r
}

pub fn gen_rep(s: &mut Src, max_rep: u32) -> (u32, u32) {
    match s.weighted(&[4, 3, 3, 3, 2, 1]) {
        0 => (0, u32::MAX),
        1 => (1, u32::MAX),
        2 => (0, 1),
        3 => {
            let a = s.range(0, max_rep as usize) as u32;
            let b = a + s.range(0, max_rep as usize) as u32;
            (a, b)
        }
        4 => (s.range(0, max_rep as usize) as u32, u32::MAX),
        _ => {
            let a = s.range(0, 3) as u32;
            (a, a)
        }
    }
}

/// Build the same expression in a raw store.
pub fn build_raw(g: &G, es: &mut derivre::raw::ExprSet) -> ExprRef {
    match g {
        G::Eps => ExprRef::EMPTY_STRING,
        G::None => ExprRef::NO_MATCH,
        G::Byte(b) => es.mk_byte(*b),
        G::Set(s) => {
            let w = es.alphabet_words();
            let k = es.alphabet_size();
            let all = if k >= 256 { BS::FULL } else { BS::range(0, (k - 1) as u8) };
            es.mk_byte_set(&s.and(&all).words()[..w])
        }
        G::Lit(s) => es.mk_literal(s),
        G::BLit(s) => es.mk_byte_literal(s),
        G::Rx(_) => panic!("no patterns in raw stores"),
        G::And(v) => {
            let a = v.iter().map(|x| build_raw(x, es)).collect();
            es.mk_and(a)
        }
        G::Or(v) => {
            let a = v.iter().map(|x| build_raw(x, es)).collect();
            es.mk_or(a)
        }
        G::Cat(v) => {
            let a = v.iter().map(|x| build_raw(x, es)).collect();
            es.mk_concat(a)
        }
        G::Not(x) => {
            let a = build_raw(x, es);
            es.mk_not(a)
        }
        G::Rep(x, lo, hi) => {
            let a = build_raw(x, es);
            es.mk_repeat(a, *lo, *hi)
        }
        G::Prefix(x) => {
            let a = build_raw(x, es);
            es.mk_prefixes(a)
        }
        G::Ref(x) => build_raw(x, es),
    }
}

// ---------------------------------------------------------------- patterns

#[derive(Clone, Debug)]
pub enum Pat {
    Empty,
    Chr(char),
    /// negated?, ranges
    Cls(bool, Vec<(char, char)>),
    Dot,
    AnyChar,
    Cat(Vec<Pat>),
    Alt(Vec<Pat>),
    Rep(Box<Pat>, u32, u32, bool),
    /// kind: 0 non-capturing, 1 capturing, 2 named
    Grp(Box<Pat>, u8),
}

/// one of the ways to write a character, chosen by the position in the text
fn esc_char(c: char, out: &mut String) {
    let u = c as u32;
    let style = (out.len() * 7 + u as usize) % 12;
    match c {
        '\0'..='\x1f' | '\x7f' => match style {
            // as it is
            0..=4 => out.push(c),
            5 => out.push_str(&format!("\\x{{{:x}}}", u)),
            6 => out.push_str(&format!("\\u{:04x}", u)),
            _ => match c {
                '\n' => out.push_str("\\n"),
                '\t' => out.push_str("\\t"),
                '\r' => out.push_str("\\r"),
                _ => out.push_str(&format!("\\x{:02X}", u)),
            },
        },
        'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => match style {
            9 => out.push_str(&format!("\\x{:02x}", u)),
            10 if out.len() % 5 == 0 => out.push_str(&format!("\\U{:08X}", u)),
            _ => out.push(c),
        },
        c if u < 0x80 => {
            if c == ' ' || c == '"' || c == ',' || c == '\'' || c == '/' || c == ':' || c == ';' || c == '=' || c == '@' || c == '`' || c == '!' || c == '%' || c == '<' || c == '>'
            {
                out.push(c)
            } else {
                out.push('\\');
                out.push(c)
            }
        }
        c => match style {
            0..=5 => out.push(c),
            6 if u < 0x10000 => out.push_str(&format!("\\u{:04X}", u)),
            7 => out.push_str(&format!("\\U{:08x}", u)),
            _ => out.push_str(&format!("\\u{{{:X}}}", u)),
        },
    }
}

impl Pat {
    pub fn to_pattern(&self) -> String {
        self.to_pattern_from(&mut 0)
    }
    /// group names are numbered from *n on, so that several texts can be joined
    pub fn to_pattern_from(&self, n: &mut usize) -> String {
        let mut s = String::new();
        self.write(&mut s, 0, n);
        s
    }
    /// prec: 0 = alternation ok, 1 = concat ok, 2 = atom needed
    fn write(&self, o: &mut String, prec: u8, names: &mut usize) {
        match self {
            Pat::Empty => {
                if prec == 2 {
                    o.push_str("(?:)")
                }
            }
            Pat::Chr(c) => esc_char(*c, o),
            Pat::Cls(neg, v) => {
                o.push('[');
                if *neg {
                    o.push('^');
                }
                for (a, b) in v {
                    esc_char(*a, o);
                    if a != b {
                        o.push('-');
                        esc_char(*b, o);
                    }
                }
                o.push(']');
            }
            Pat::Dot => o.push('.'),
            Pat::AnyChar => o.push_str("(?s:.)"),
            Pat::Cat(v) => {
                if prec == 2 {
                    o.push_str("(?:");
                }
                for x in v {
                    x.write(o, if matches!(x, Pat::Cat(_)) { 2 } else { 1 }, names);
                }
                if prec == 2 {
                    o.push(')');
                }
            }
            Pat::Alt(v) => {
                if prec > 0 {
                    o.push_str("(?:");
                }
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    x.write(o, if matches!(x, Pat::Alt(_)) { 2 } else { 1 }, names);
                }
                if prec > 0 {
                    o.push(')');
                }
            }
            Pat::Rep(x, a, b, lazy) => {
                // generators wrap nested repetitions in a group
                x.write(o, 2, names);
                let t = match (*a, *b) {
                    (0, u32::MAX) => "*".to_string(),
                    (1, u32::MAX) => "+".to_string(),
                    (0, 1) => "?".to_string(),
                    (a, u32::MAX) => format!("{{{},}}", a),
                    (a, b) if a == b => format!("{{{}}}", a),
                    (a, b) => format!("{{{},{}}}", a, b),
                };
                o.push_str(&t);
                if *lazy {
                    o.push('?');
                }
            }
            Pat::Grp(x, k) => {
                match k {
                    0 => o.push_str("(?:"),
                    1 => o.push('('),
                    _ => {
                        *names += 1;
                        o.push_str(&format!("(?P<{}>", group_name(*names)));
                    }
                }
                x.write(o, 0, names);
                o.push(')');
            }
        }
    }
    pub fn rnode(&self) -> RNode {
        match self {
            Pat::Empty => RNode::Eps,
            Pat::Chr(c) => RNode::lit(c.to_string().as_bytes()),
            Pat::Cls(neg, v) => {
                let mut r: Vec<(u32, u32)> = v.iter().map(|(a, b)| (*a as u32, *b as u32)).collect();
                r.sort();
                if *neg {
                    let mut o = vec![];
                    let mut next = 0u32;
                    for (a, b) in r {
                        if a > next {
                            o.push((next, a - 1));
                        }
                        next = next.max(b + 1);
                    }
                    if next <= 0x10FFFF {
                        o.push((next, 0x10FFFF));
                    }
                    RNode::codepoints(&o)
                } else {
                    RNode::codepoints(&r)
                }
            }
            Pat::Dot => RNode::codepoints(&[(0, 9), (11, 0x10FFFF)]),
            Pat::AnyChar => RNode::codepoints(&[(0, 0x10FFFF)]),
            Pat::Cat(v) => RNode::Cat(v.iter().map(|x| x.rnode()).collect()),
            Pat::Alt(v) => RNode::Alt(v.iter().map(|x| x.rnode()).collect()),
            Pat::Rep(x, a, b, _) => RNode::Rep(
                Box::new(x.rnode()),
                *a,
                if *b == u32::MAX { None } else { Some(*b) },
            ),
            Pat::Grp(x, _) => x.rnode(),
        }
    }
    pub fn size(&self) -> usize {
        1 + match self {
            Pat::Cat(v) | Pat::Alt(v) => v.iter().map(|x| x.size()).sum(),
            Pat::Rep(x, ..) | Pat::Grp(x, _) => x.size(),
            _ => 0,
        }
    }
}

const UCHARS: &[char] = &[
    '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{cfff}', '\u{d000}', '\u{d7ff}',
    '\u{e000}', '\u{ffff}', '\u{10000}', '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{100000}',
    '\u{10ffff}', 'ł', 'é', 'Ω', '€', '\u{1F600}', 'ſ', '\u{212a}', '\u{bf}', '\u{c0}', '\u{40}', '\u{3f}',
];

pub fn gen_uchar(s: &mut Src, c: &GCfg) -> char {
    if !c.unicode || s.chance(1, 2) {
        gen_char(s, c)
    } else if s.chance(1, 2) {
        *s.pick(UCHARS)
    } else {
        loop {
            let x = match s.usize(4) {
                0 => s.below(0x80),
                1 => s.below(0x800),
                2 => s.below(0x10000),
                _ => s.below(0x110000),
            } as u32;
            if let Some(c) = char::from_u32(x) {
                return c;
            } else {
                // surrogate: deterministic fallback
                return char::from_u32(0xE000 + (x & 0x7ff)).unwrap();
            }
        }
    }
}

/// regex-syntax 0.8.4 negates a class that has one range ending at U+D7FF and the next one starting
/// at U+E000 into a class containing both end points (its gap computation swaps the inverted
/// bounds). That is the parser's doing, not derivre's, so such classes are not generated.
pub fn fix_surrogate_edge(v: &mut Vec<(char, char)>) {
    if v.iter().any(|r| r.1 == '\u{d7ff}') {
        for r in v.iter_mut() {
            if r.0 == '\u{e000}' {
                r.0 = '\u{e001}';
                r.1 = r.1.max(r.0);
            }
        }
    }
}

pub fn gen_cls(s: &mut Src, c: &GCfg) -> Pat {
    let n = s.range(1, 4);
    let neg = s.chance(1, 3);
    let mut v = vec![];
    for _ in 0..n {
        let a = gen_uchar(s, c);
        let b = if s.chance(1, 2) { gen_uchar(s, c) } else { a };
        v.push((a.min(b), a.max(b)));
    }
    if neg {
        fix_surrogate_edge(&mut v);
    }
    Pat::Cls(neg, v)
}

pub fn gen_pat(s: &mut Src, c: &GCfg, size: usize) -> Pat {
    let size = s.range(1, size);
    gen_pat_rec(s, c, size)
}

fn gen_pat_rec(s: &mut Src, c: &GCfg, size: usize) -> Pat {
    if size <= 1 {
        return match s.weighted(&[8, 5, 1, 1, 1]) {
            0 => Pat::Chr(gen_uchar(s, c)),
            1 => gen_cls(s, c),
            2 => Pat::Dot,
            3 => Pat::AnyChar,
            _ => Pat::Empty,
        };
    }
    match s.weighted(&[6, 5, 5, 2]) {
        x @ 0..=1 => {
            let n = s.range(2, 4).min(size.max(2));
            let parts = split(s, size - 1, n);
            let v: Vec<Pat> = (0..n).map(|i| gen_pat_rec(s, c, parts[i])).collect();
            if x == 0 {
                Pat::Cat(v)
            } else {
                Pat::Alt(v)
            }
        }
        2 => {
            let e = gen_pat_rec(s, c, size - 1);
            let e = if matches!(e, Pat::Rep(..)) {
                Pat::Grp(Box::new(e), 0)
            } else {
                e
            };
            let (a, b) = gen_rep(s, c.max_rep);
            Pat::Rep(Box::new(e), a, b, s.chance(1, 4))
        }
        _ => {
            let k = s.below(3) as u8;
            Pat::Grp(Box::new(gen_pat_rec(s, c, size - 1)), k)
        }
    }
}

/// Random byte strings biased to an alphabet of representatives
pub fn gen_bytes(s: &mut Src, reps: &[u8], max: usize) -> Vec<u8> {
    let n = s.range(0, max);
    (0..n)
        .map(|_| {
            if s.chance(1, 10) {
                s.byte()
            } else {
                *s.pick(reps)
            }
        })
        .collect()
}

/// The name of the n-th group of a pattern: never "stop", but often nearly so.
pub fn group_name(n: usize) -> String {
    const NAMES: &[&str] = &["g", "Stop", "stopx", "STOP", "sto", "xstop", "stop_", "_stop", "sTop", "stop1", "stop.", "Lookahead", "ſtop"];
    let b = NAMES[n % NAMES.len()];
    if n < NAMES.len() {
        b.to_string()
    } else {
        format!("{}{}", b, n)
    }
}
