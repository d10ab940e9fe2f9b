//! Exact fixtures for the recorded findings: does the listed input still fail?

use derivre::{RegexAst, RegexBuilder};

pub struct Known {
    pub prop: &'static str,
    pub id: &'static str,
    /// true: the defect still shows
    pub f: fn() -> bool,
}

fn rx(p: &str) -> RegexAst {
    RegexAst::Regex(p.to_string())
}

fn rejects(a: RegexAst, w: &str) -> bool {
    let r = std::panic::catch_unwind(|| {
        let mut b = RegexBuilder::new();
        let e = b.mk(&RegexAst::Prefixes(Box::new(a))).unwrap();
        !b.to_regex(e).is_match(w)
    });
    r.unwrap_or(true)
}

pub fn all() -> Vec<Known> {
    vec![
        Known {
            prop: "C06",
            id: "prefixes-of-and",
            f: || rejects(RegexAst::And(vec![rx("[ab]c"), rx("[bd]c")]), ""),
        },
        Known {
            prop: "C06",
            id: "prefixes-of-not",
            f: || rejects(RegexAst::Not(Box::new(rx("(a|b)?"))), ""),
        },
    ]
}
