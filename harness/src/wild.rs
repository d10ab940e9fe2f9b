//! Patterns in the full surface syntax, with their meaning taken from the parsed form
//! (regex-syntax HIR) by an independent lowering to the reference IR.

use crate::refa::{RNode, BS};
use crate::src::Src;
use regex_syntax::hir::{self, Hir, HirKind, Look};
use regex_syntax::{Parser, ParserBuilder};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Flags {
    pub unicode: bool,
    pub utf8: bool,
    pub ws: bool,
    pub icase: bool,
    pub dotnl: bool,
}

impl Flags {
    pub const DEFAULT: Flags = Flags {
        unicode: true,
        utf8: true,
        ws: false,
        icase: false,
        dotnl: false,
    };
    pub fn gen(s: &mut Src) -> Flags {
        let mut f = Flags::DEFAULT;
        if s.chance(1, 2) {
            f.icase = s.chance(1, 3);
            f.dotnl = s.chance(1, 3);
            f.ws = s.chance(1, 4);
            if s.chance(1, 4) {
                f.utf8 = false;
                f.unicode = s.chance(1, 2);
            }
        }
        f
    }
    pub fn parser(&self) -> Parser {
        ParserBuilder::new()
            .unicode(self.unicode)
            .utf8(self.utf8)
            .ignore_whitespace(self.ws)
            .case_insensitive(self.icase)
            .dot_matches_new_line(self.dotnl)
            .build()
    }
    pub fn apply(&self, b: &mut derivre::RegexBuilder) {
        b.unicode(self.unicode)
            .utf8(self.utf8)
            .ignore_whitespace(self.ws)
            .case_insensitive(self.icase)
            .dot_matches_new_line(self.dotnl);
    }
    pub fn show(&self) -> String {
        let mut v = vec![];
        if !self.unicode {
            v.push("-unicode")
        }
        if !self.utf8 {
            v.push("-utf8")
        }
        if self.ws {
            v.push("+ws")
        }
        if self.icase {
            v.push("+icase")
        }
        if self.dotnl {
            v.push("+dotnl")
        }
        v.join(" ")
    }
}

#[derive(Debug)]
pub enum LowerErr {
    /// an assertion that is not ^ / $ at an outer edge
    Look,
    /// ^ / $ next to something that is itself zero-width: either answer is fine
    Gray,
    /// (?P<stop>..)
    Stop,
}

pub fn lower(h: &Hir, st: bool, en: bool) -> Result<RNode, LowerErr> {
    Ok(match h.kind() {
        HirKind::Empty => RNode::Eps,
        HirKind::Literal(l) => RNode::lit(&l.0),
        HirKind::Class(hir::Class::Bytes(b)) => {
            let mut s = BS::EMPTY;
            for r in b.ranges() {
                for x in r.start()..=r.end() {
                    s.set(x);
                }
            }
            if s == BS::EMPTY {
                RNode::Empty
            } else {
                RNode::Set(s)
            }
        }
        HirKind::Class(hir::Class::Unicode(u)) => {
            let v: Vec<(u32, u32)> = u
                .ranges()
                .iter()
                .map(|r| (r.start() as u32, r.end() as u32))
                .collect();
            RNode::codepoints(&v)
        }
        HirKind::Look(Look::Start) if st => RNode::Eps,
        HirKind::Look(Look::End) if en => RNode::Eps,
        HirKind::Look(_) => return Err(LowerErr::Look),
        HirKind::Repetition(r) => RNode::Rep(Box::new(lower(&r.sub, false, false)?), r.min, r.max),
        HirKind::Capture(c) => {
            if c.name.as_deref() == Some("stop") {
                return Err(LowerErr::Stop);
            }
            lower(&c.sub, st, en)?
        }
        HirKind::Concat(v) => {
            let zero = |h: &Hir| h.properties().maximum_len() == Some(0);
            let mut r = vec![];
            for (i, x) in v.iter().enumerate() {
                let a = st && i == 0;
                let b = en && i + 1 == v.len();
                match lower(x, a, b) {
                    Ok(n) => r.push(n),
                    Err(LowerErr::Look)
                        if (st && v[..i].iter().all(zero)) || (en && v[i + 1..].iter().all(zero)) =>
                    {
                        return Err(LowerErr::Gray)
                    }
                    Err(e) => return Err(e),
                }
            }
            RNode::Cat(r)
        }
        HirKind::Alternation(v) => {
            let mut r = vec![];
            for x in v {
                r.push(lower(x, st, en)?);
            }
            RNode::Alt(r)
        }
    })
}

const CLASSES: &[&str] = &[
    "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\pL", "\\PL", "\\p{Greek}", "\\p{Lu}", "\\P{Nd}", "\\pN",
    "[[:alpha:]]", "[^[:digit:]]", "[[:^space:]x]", "[a-z&&[^c-e]]", "[a-f--b-c]", "[a-f~~d-k]", "[\\w--\\d]",
    "[^\\w\\s]", "[\\p{Greek}&&\\p{Lu}]", "[^a]", "[^\\n]", "[^\"\\\\]", "[\\x00-\\x1f]", "[\\x00-\\x7f]",
    "[^\\x00-\\x7f]", "[\\u{80}-\\u{7ff}]", "[\\u{800}-\\u{ffff}]", "[\\u{10000}-\\u{10ffff}]", "[k-s]", "[a-zA-Z_]",
    "\\p{Cyrillic}", "\\p{Any}", "\\p{ASCII}", "[\\p{Han}]", "[^\\p{L}\\p{N}]", "[a-cx-z0-3]", "[ł-žé]", "[^€]",
];
const SMALL: &[&str] = &[
    "[ab]", "[a-c]", "[^ab]", "[0-9]", "[a-z]", "[xyz]", "[abx]", "[b-d]", "[a-ce-g]", "[\\x20-\\x7e]", "[-a]", "[]a]",
    "[a\\-z]", "[é]", "[à-ü]", "[k]", "[K\\u{212a}]",
];
const LITS: &[&str] = &[
    "a", "b", "c", "ab", "abc", "ba", "x", "0", "1", "-", " ", "é", "ł", "ſ", "K", "ß", "Σ", "ς", "€", "😀", "\\n",
    "\\t", "\\.", "\\\\", "\"", "\\x41", "\\u{e9}", "\\x7F", "\\u{1F600}", "aa", "foo", "far", "bar", "k", "s", "#",
];

pub fn atom(s: &mut Src, f: &Flags) -> String {
    match s.weighted(&[10, 5, 4, 1, 1, if f.utf8 { 0 } else { 2 }]) {
        0 => s.pick(LITS).to_string(),
        1 => s.pick(SMALL).to_string(),
        2 => {
            if f.unicode {
                s.pick(CLASSES).to_string()
            } else {
                s.pick(&["\\d", "\\W", "[^\\s]", "[[:alpha:]]", "[a-z&&[^c-e]]", "[^a]", "[\\x80-\\xff]", "\\xff", "[^\\xc0-\\xfe]"])
                    .to_string()
            }
        }
        3 => ".".to_string(),
        4 => "".to_string(),
        _ => s
            .pick(&["(?-u:\\xff)", "(?-u:[^a])", "(?-u:.)", "(?s-u:.)", "(?-u:[\\x80-\\xbf])", "(?-u:\\W)", "(?-u:\\xe2\\x82)"])
            .to_string(),
    }
}

pub fn rep_suffix(s: &mut Src, max: usize) -> String {
    let mut t = match s.weighted(&[4, 4, 4, 3, 2, 2]) {
        0 => "*".to_string(),
        1 => "+".to_string(),
        2 => "?".to_string(),
        3 => {
            let a = s.range(0, max);
            format!("{{{},{}}}", a, a + s.range(0, max))
        }
        4 => format!("{{{},}}", s.range(0, max)),
        _ => format!("{{{}}}", s.range(0, max)),
    };
    if s.chance(1, 5) {
        t.push('?');
    }
    t
}

/// a wild pattern of about `size` nodes; always a complete group-safe term at prec 0
pub fn gen_wild(s: &mut Src, f: &Flags, size: usize, names: &mut usize) -> String {
    if size <= 1 {
        if s.chance(1, 40) {
            return (0..s.range(2, 40)).map(|_| *s.pick(&['a', 'k', 'S', 'K', '0', '9', 'z', 'B'])).collect();
        }
        return atom(s, f);
    }
    match s.weighted(&[7, 5, 5, 3, 3]) {
        0 => {
            let n = s.range(2, 3);
            let mut o = String::new();
            for _ in 0..n {
                let x = gen_wild(s, f, (size - 1) / n, names);
                if needs_group_in_concat(&x) {
                    o.push_str(&format!("(?:{})", x));
                } else {
                    o.push_str(&x);
                }
                if f.ws && s.chance(1, 4) {
                    o.push(' ');
                }
            }
            o
        }
        1 => {
            let n = s.range(2, 4);
            let v: Vec<String> = (0..n).map(|_| gen_wild(s, f, (size - 1) / n, names)).collect();
            v.join("|")
        }
        2 => {
            let x = gen_wild(s, f, size - 1, names);
            format!("(?:{}){}", x, rep_suffix(s, 4))
        }
        3 => {
            let x = gen_wild(s, f, size - 1, names);
            match s.usize(4) {
                0 => format!("({})", x),
                1 => {
                    *names += 1;
                    format!("(?P<{}>{})", crate::gen::group_name(*names), x)
                }
                2 => {
                    *names += 1;
                    format!("(?<{}>{})", crate::gen::group_name(*names), x)
                }
                _ => format!("(?:{})", x),
            }
        }
        _ => {
            let fl = s.pick(&["i", "-i", "s", "-s", "U", "x", "R", "is", "m"]).to_string();
            let x = gen_wild(s, f, size - 1, names);
            if s.chance(1, 4) {
                format!("(?:(?{}){})", fl, x)
            } else {
                format!("(?{}:{})", fl, x)
            }
        }
    }
}

fn needs_group_in_concat(x: &str) -> bool {
    x.contains('|')
}
