//! C18: expression depth must not exhaust the call stack. The work runs in a child process
//! on a thread with a small stack; a crash of the child is the violation.

use crate::runner::Ctx;
use crate::src::Src;
use derivre::raw::{DerivCache, NextByteCache, RelevanceCache};
use derivre::{AlphabetInfo, ExprRef, JsonQuoteOptions, NextByte, Regex, RegexAst, RegexBuilder};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const NCH: usize = 24;

pub fn c18(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ch: Vec<String> = (0..NCH).map(|_| s.below(1 << 16).to_string()).collect();
    let exe = std::env::current_exe().map_err(|e| e.to_string()).unwrap();
    let mut child = Command::new(exe)
        .arg("c18child")
        .args(&ch)
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .stdin(Stdio::null())
        .spawn()
        .expect("spawn child");
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let t2 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    let lim = if ctx.thorough { 60 } else { 15 };
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(st) => break Some(st),
            None => {
                if t0.elapsed().as_secs() > lim {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    };
    let out = String::from_utf8_lossy(&t1.join().unwrap()).to_string();
    let err = String::from_utf8_lossy(&t2.join().unwrap()).to_string();
    let mut verdict = None;
    for l in out.lines() {
        if let Some(d) = l.strip_prefix("DESC ") {
            ctx.desc = d.to_string();
        } else if l == "DEEP" {
            ctx.nontrivial = true;
        } else if let Some(x) = l.strip_prefix("LABEL ") {
            for k in LABELS {
                if *k == x {
                    ctx.label(k);
                }
            }
        } else if l == "OK" {
            verdict = Some(Ok(()));
        } else if let Some(m) = l.strip_prefix("VIOLATION ") {
            verdict = Some(Err(m.to_string()));
        } else if let Some(m) = l.strip_prefix("HARNESS ") {
            panic!("harness error in child: {}", m);
        }
    }
    let st = match status {
        None => {
            ctx.nontrivial = false;
            return ctx.discard("time limit of the child");
        }
        Some(st) => st,
    };
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = st.signal() {
        if sig == 9 {
            // killed from outside (memory guard): says nothing about the call stack
            ctx.nontrivial = false;
            return ctx.discard("child killed (SIGKILL)");
        }
        let over = err.contains("overflow");
        if over || sig == 11 || sig == 6 || sig == 7 {
            return Err(format!(
                "child died with signal {} ({}) on a 256 KB stack",
                sig,
                if over { "stack overflow" } else { "no message" }
            ));
        }
        panic!("child died with signal {}", sig);
    }
    match verdict {
        Some(r) => r,
        None => panic!("child gave no verdict, exit {:?}, stderr {}", st.code(), err),
    }
}

const LABELS: &[&str] = &[
    "built by references",
    "built as one tree",
    "pattern",
    "positive spine",
    "boolean spine",
    "prefix spine",
    "keyword chain",
    "emptiness decided",
    "emptiness fuel spent",
    "json quoted",
    "lookahead top",
    "left nesting",
    "bare store",
    "late verdict",
];

fn say(s: &str) {
    let mut o = std::io::stdout();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}

pub fn child(args: &[String]) -> i32 {
    let ch: Vec<u64> = args.iter().map(|x| x.parse().unwrap_or(0)).collect();
    let h = std::thread::Builder::new()
        .stack_size(256 << 10)
        .spawn(move || {
            let mut s = Src::replay(ch);
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut s)))
        })
        .expect("spawn thread");
    match h.join() {
        Ok(Ok(Ok(()))) => say("OK"),
        Ok(Ok(Err(m))) => say(&format!("VIOLATION {}", m.replace('\n', " "))),
        _ => {
            let (m, l) = crate::runner::LAST_PANIC_ANY
                .lock()
                .map(|x| x.clone())
                .unwrap_or_default();
            if l.starts_with("src/") {
                say(&format!("HARNESS panic: {} at {}", m, l));
            } else {
                say(&format!("VIOLATION panic: {} at {}", m.replace('\n', " "), l));
            }
        }
    }
    0
}

#[derive(Clone, Debug)]
enum L {
    CatL(u8),
    CatR(u8),
    Or(Vec<u8>),
    And(Vec<u8>),
    Not,
    Opt,
    StarCat(u8),
    Star,
    Rep(u8, u32, u32),
}

type Mx = Vec<Vec<bool>>;

fn mx(m: usize) -> Mx {
    vec![vec![false; m + 1]; m + 1]
}

fn cat(a: &Mx, b: &Mx) -> Mx {
    let n = a.len();
    let mut r = mx(n - 1);
    for i in 0..n {
        for j in i..n {
            if a[i][j] {
                for k in j..n {
                    if b[j][k] {
                        r[i][k] = true;
                    }
                }
            }
        }
    }
    r
}

fn unit(m: usize) -> Mx {
    let mut r = mx(m);
    for i in 0..=m {
        r[i][i] = true;
    }
    r
}

fn or(a: &Mx, b: &Mx) -> Mx {
    a.iter()
        .zip(b)
        .map(|(x, y)| x.iter().zip(y).map(|(p, q)| *p || *q).collect())
        .collect()
}

fn star(a: &Mx) -> Mx {
    let mut r = unit(a.len() - 1);
    loop {
        let n = or(&r, &cat(&r, a));
        if n == r {
            return r;
        }
        r = n;
    }
}

fn lit(w: &[u8], s: &[u8]) -> Mx {
    let mut r = mx(s.len());
    for i in 0..=s.len() {
        if s[i..].starts_with(w) {
            r[i][i + w.len()] = true;
        }
    }
    r
}

fn apply(l: &L, e: &Mx, s: &[u8]) -> Mx {
    let m = s.len();
    match l {
        L::CatL(b) => cat(&lit(&[*b], s), e),
        L::CatR(b) => cat(e, &lit(&[*b], s)),
        L::Or(w) => or(&lit(w, s), e),
        L::And(set) => {
            let mut r = e.clone();
            for i in 0..=m {
                for j in i..=m {
                    r[i][j] &= s[i..j].iter().all(|c| set.contains(c));
                }
            }
            r
        }
        L::Not => {
            let mut r = mx(m);
            for i in 0..=m {
                for j in i..=m {
                    r[i][j] = !e[i][j];
                }
            }
            r
        }
        L::Opt => or(&unit(m), e),
        L::StarCat(b) => cat(&star(&lit(&[*b], s)), e),
        L::Star => star(e),
        L::Rep(b, lo, hi) => {
            let x = cat(&lit(&[*b], s), e);
            let mut r = mx(m);
            let mut p = unit(m);
            for i in 0..=*hi {
                if i >= *lo {
                    r = or(&r, &p);
                }
                p = cat(&p, &x);
            }
            r
        }
    }
}

fn table(base: &[u8], layers: &[L], n: usize, s: &[u8]) -> bool {
    let mut e = lit(base, s);
    for i in 0..n {
        e = apply(&layers[i % layers.len()], &e, s);
    }
    e[0][s.len()]
}

fn to_ast(l: &L, e: RegexAst) -> RegexAst {
    let set = |v: &Vec<u8>| {
        let mut w = vec![0u32; 8];
        for b in v {
            w[*b as usize / 32] |= 1 << (b % 32);
        }
        RegexAst::ByteSet(w)
    };
    match l {
        L::CatL(b) => RegexAst::Concat(vec![RegexAst::Byte(*b), e]),
        L::CatR(b) => RegexAst::Concat(vec![e, RegexAst::Byte(*b)]),
        L::Or(w) => RegexAst::Or(vec![RegexAst::ByteLiteral(w.clone()), e]),
        L::And(v) => RegexAst::And(vec![RegexAst::Repeat(Box::new(set(v)), 0, u32::MAX), e]),
        L::Not => RegexAst::Not(Box::new(e)),
        L::Opt => RegexAst::Repeat(Box::new(e), 0, 1),
        L::StarCat(b) => RegexAst::Concat(vec![RegexAst::Repeat(Box::new(RegexAst::Byte(*b)), 0, u32::MAX), e]),
        L::Star => RegexAst::Repeat(Box::new(e), 0, u32::MAX),
        L::Rep(b, lo, hi) => RegexAst::Repeat(Box::new(RegexAst::Concat(vec![RegexAst::Byte(*b), e])), *lo, *hi),
    }
}

/// one pattern layer: text before and after the previous layer
fn to_pat(l: &L) -> Option<(String, String)> {
    Some(match l {
        L::CatL(b) => (format!("(?:{}", *b as char), ")".into()),
        L::CatR(b) => ("(?:".into(), format!("{})", *b as char)),
        L::Or(w) => (format!("(?:{}|", String::from_utf8_lossy(w)), ")".into()),
        L::Opt => ("(?:".into(), ")?".into()),
        L::StarCat(b) => (format!("(?:{}*", *b as char), ")".into()),
        L::Star => ("(".into(), ")*".into()),
        L::Rep(b, lo, hi) => (format!("(?:{}", *b as char), format!("){{{},{}}}", lo, hi)),
        _ => return None,
    })
}

fn gen_layers(s: &mut Src, boolean: bool) -> Vec<L> {
    let b = |s: &mut Src| *s.pick(b"ab");
    let n = s.range(1, 4);
    let mut v = vec![];
    for _ in 0..n {
        let l = match s.weighted(&[3, 3, 3, 2, 2, 1, 2, if boolean { 4 } else { 0 }, if boolean { 6 } else { 0 }]) {
            0 => L::CatL(b(s)),
            1 => L::CatR(b(s)),
            2 => {
                let k = s.range(1, 3);
                L::Or((0..k).map(|_| b(s)).collect())
            }
            3 => L::Opt,
            4 => L::StarCat(b(s)),
            5 => L::Star,
            6 => {
                let lo = s.range(0, 2) as u32;
                L::Rep(b(s), lo, lo + s.range(1, 2) as u32)
            }
            7 => L::And(if s.chance(1, 2) { vec![b'a', b'b'] } else { vec![b(s), b(s)] }),
            _ => L::Not,
        };
        v.push(l);
    }
    v
}

fn words(base: &[u8], layers: &[L], n: usize, s: &mut Src) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for len in 0..=3usize {
        for x in 0..(1u32 << len) {
            v.push((0..len).map(|i| if x >> i & 1 == 1 { b'b' } else { b'a' }).collect());
        }
    }
    for _ in 0..4 {
        let k = s.range(4, 9);
        v.push((0..k).map(|_| *s.pick(b"abz")).collect());
    }
    v.push(base.to_vec());
    // words that thread through a few layers
    let _ = (layers, n);
    v
}

fn run(s: &mut Src) -> Result<(), String> {
    match s.weighted(&[6, 5, 4, 2, 2, 5, 3]) {
        0 => spine(s, false),
        1 => spine(s, true),
        2 => pattern(s),
        3 => prefix(s),
        4 => keywords(s),
        5 => store(s),
        _ => late(s),
    }
}

fn spine(s: &mut Src, boolean: bool) -> Result<(), String> {
    let n = s.range(1000, if boolean { 6000 } else { 12000 });
    let layers = gen_layers(s, boolean);
    // nested stars and repeats cost quadratic time
    let n = if layers.iter().any(|l| matches!(l, L::StarCat(_) | L::Rep(..))) { n.min(3500) } else { n };
    let n = if layers.iter().any(|l| matches!(l, L::Star)) { n.min(5000) } else { n };
    let n = if 2 * layers.iter().filter(|l| matches!(l, L::StarCat(_))).count() >= layers.len() { n.min(1000) } else { n };
    let base: Vec<u8> = if s.chance(1, 2) { b"z".to_vec() } else { b"a".to_vec() };
    let tree = s.chance(1, 3);
    let boolean = layers.iter().any(|l| matches!(l, L::And(_) | L::Not));
    // concatenations on one side only flatten into one long vector: keep those shorter
    let n = if layers.iter().all(|l| matches!(l, L::CatL(_) | L::CatR(_) | L::Or(_))) {
        n.min(3000)
    } else {
        n
    };
    say(&format!("DESC spine n={} base={:?} layers={:?} tree={}", n, base, layers, tree));
    say("DEEP");
    say(if tree { "LABEL built as one tree" } else { "LABEL built by references" });
    say(if boolean { "LABEL boolean spine" } else { "LABEL positive spine" });
    if layers.iter().any(|l| matches!(l, L::CatR(_))) {
        say("LABEL left nesting");
    }
    let mut b = RegexBuilder::new();
    let e = if tree {
        let mut a = RegexAst::ByteLiteral(base.clone());
        for i in 0..n {
            a = to_ast(&layers[i % layers.len()], a);
        }
        let r = b.mk(&a);
        std::mem::forget(a);
        r.map_err(|e| format!("mk failed: {}", e))?
    } else {
        let mut e = b.mk(&RegexAst::ByteLiteral(base.clone())).map_err(|e| e.to_string())?;
        for i in 0..n {
            e = b
                .mk(&to_ast(&layers[i % layers.len()], RegexAst::ExprRef(e)))
                .map_err(|x| format!("mk failed at layer {}: {}", i, x))?;
        }
        e
    };
    let ws = words(&base, &layers, n, s);
    let want: Vec<bool> = ws.iter().map(|w| table(&base, &layers, n, w)).collect();
    if b.is_nullable(e) != want[0] {
        return Err(format!("is_nullable is {}", !want[0]));
    }
    if boolean {
        return boolean_checks(b.exprset(), e, &ws, &want);
    }
    let look = s.chance(1, 4);
    let mut rx = if look {
        say("LABEL lookahead top");
        let z = b.mk(&RegexAst::Literal("q".into())).unwrap();
        let t = b
            .mk(&RegexAst::Concat(vec![
                RegexAst::ExprRef(z),
                RegexAst::LookAhead(Box::new(RegexAst::ExprRef(e))),
            ]))
            .map_err(|x| format!("lookahead: {}", x))?;
        b.to_regex(t)
    } else {
        b.to_regex(e)
    };
    if rx.always_empty() {
        return Err("always_empty on a non-empty expression".into());
    }
    if !look {
        full_checks(&mut rx, &ws, &want, "")?;
        // quoting
        let raw = s.chance(1, 2);
        let mut o = JsonQuoteOptions::no_unicode();
        o.raw_mode = raw;
        let q = b.json_quote(e, &o).map_err(|x| format!("json_quote: {}", x))?;
        say("LABEL json quoted");
        let mut rq = b.to_regex(q);
        let mut qs = vec![];
        for w in &ws {
            let mut x = vec![];
            if !raw {
                x.push(b'"');
            }
            x.extend_from_slice(w);
            if !raw {
                x.push(b'"');
            }
            qs.push(x);
        }
        full_checks(&mut rq, &qs, &want, "quoted ")?;
    } else {
        for (w, m) in ws.iter().zip(&want) {
            let mut x = b"q".to_vec();
            x.extend_from_slice(w);
            // accepted if the minimal prefix of the lookahead is exactly w
            let minimal = (0..w.len()).all(|i| !table(&base, &layers, n, &w[..i]));
            let acc = rx.lookahead_len_bytes(&x);
            let exp = if *m && minimal { Some(w.len()) } else { None };
            if acc != exp {
                return Err(format!("lookahead length on {:?} is {:?}, expected {:?}", x, acc, exp));
            }
        }
    }
    Ok(())
}

fn full_checks(rx: &mut Regex, ws: &[Vec<u8>], want: &[bool], what: &str) -> Result<(), String> {
    for (w, m) in ws.iter().zip(want) {
        let r = rx.is_match_bytes(w);
        if r != *m {
            return Err(format!("{}{:?}: is_match {}, expected {}", what, String::from_utf8_lossy(w), r, m));
        }
        let mut st = rx.initial_state();
        for (i, b) in w.iter().enumerate() {
            let h = rx.next_byte(st);
            let nx = rx.transition(st, *b);
            match h {
                NextByte::ForcedByte(f) if f != *b && !nx.is_dead() => {
                    return Err(format!("{}{:?}: forced byte {} is wrong at {}", what, w, f, i));
                }
                NextByte::ForcedEOI if !nx.is_dead() => {
                    return Err(format!("{}{:?}: forced end is wrong at {}", what, w, i));
                }
                NextByte::Dead if !st.is_dead() => {
                    return Err(format!("{}{:?}: dead hint in a live state at {}", what, w, i));
                }
                _ => {}
            }
            st = nx;
        }
        if st.is_dead() && *m {
            return Err(format!("{}{:?}: dead although it matches", what, w));
        }
    }
    Ok(())
}

fn boolean_checks(es: &derivre::raw::ExprSet, e: ExprRef, ws: &[Vec<u8>], want: &[bool]) -> Result<(), String> {
    let (alpha, mut es, roots) = AlphabetInfo::from_exprset(es, &[e]);
    let mut d = DerivCache::new();
    let mut nb = NextByteCache::new();
    let mut any = false;
    for (w, m) in ws.iter().zip(want) {
        let mut r = roots[0];
        for b in w {
            let _ = nb.next_byte(&es, r);
            r = d.derivative(&mut es, r, alpha.map(*b) as u8);
        }
        if es.is_nullable(r) != *m {
            return Err(format!("{:?}: derivative nullable is {}, expected {}", String::from_utf8_lossy(w), !m, m));
        }
        any |= *m;
    }
    let mut rel = RelevanceCache::new();
    match rel.is_non_empty_limited(&mut es, roots[0], 100_000) {
        Ok(v) => {
            say("LABEL emptiness decided");
            if any && !v {
                return Err("emptiness check says empty but a word is accepted".into());
            }
        }
        Err(_) => say("LABEL emptiness fuel spent"),
    }
    Ok(())
}

/// tens of thousands of layers in a bare store: what is asked of one expression
/// (hint, flags, one derivative) must not depend on the call stack either
fn store(s: &mut Src) -> Result<(), String> {
    let few = s.chance(1, 3);
    let n = if few { s.range(5_000, 9_000) } else { s.range(20_000, 50_000) };
    let k = s.range(1, 4);
    let kinds: Vec<(usize, u8, u32)> = (0..k).map(|_| (s.weighted(&[5, 4, 0, 1, 1, 2]), *s.pick(b"ab"), s.range(0, 3) as u32)).collect();
    let base = *s.pick(b"abz");
    say(&format!("DESC store n={} base={:?} kinds={:?}", n, base as char, kinds));
    say("DEEP");
    say("LABEL bare store");
    let mut es = derivre::raw::ExprSet::new(256);
    // (first bytes, nullable, matches the empty string only), by the same fold as the expression
    let mut e = es.mk_byte(base);
    let mut first = [false; 256];
    first[base as usize] = true;
    let mut nullable = false;
    for i in 0..n {
        let (kind, b, c) = kinds[i % k];
        match kind {
            0 => {
                // (e b){lo,lo+1}
                let x = es.mk_byte(b);
                let y = es.mk_concat(vec![e, x]);
                if nullable {
                    first[b as usize] = true;
                }
                nullable = false;
                let lo = 1 + c % 2;
                e = es.mk_repeat(y, lo, lo + 1);
            }
            1 => {
                // (e b)+ or (e b){lo,}
                let x = es.mk_byte(b);
                let y = es.mk_concat(vec![e, x]);
                if nullable {
                    first[b as usize] = true;
                }
                nullable = c == 0;
                e = es.mk_repeat(y, c, u32::MAX);
            }
            2 => {
                // e | b e
                let x = es.mk_byte(b);
                let y = es.mk_concat(vec![x, e]);
                e = es.mk_or(vec![e, y]);
                first[b as usize] = true;
            }
            3 => {
                e = es.mk_repeat(e, 0, 1);
                nullable = true;
            }
            4 => {
                // e e
                e = es.mk_concat(vec![e, e]);
                let x = es.mk_byte(b);
                if nullable {
                    first[b as usize] = true;
                }
                nullable = false;
                e = es.mk_concat(vec![e, x]);
                e = es.mk_repeat(e, 1, 2);
            }
            _ => {
                // a lookahead of what there is so far, followed by nothing
                let x = es.mk_byte(b);
                let y = es.mk_concat(vec![e, x]);
                if nullable {
                    first[b as usize] = true;
                }
                nullable = false;
                e = es.mk_repeat(y, 2, 2 + c);
            }
        }
    }
    if es.is_nullable(e) != nullable {
        return Err(format!("is_nullable is {}", !nullable));
    }
    let got = NextByteCache::new().next_byte(&es, e);
    let fs: Vec<u8> = (0..=255u8).filter(|b| first[*b as usize]).collect();
    let ok = match got {
        NextByte::ForcedByte(b) => fs == [b] && !nullable,
        NextByte::ForcedEOI | NextByte::Dead => false,
        _ => true,
    };
    if !ok {
        return Err(format!("hint {:?}, but first bytes are {:?} and nullable {}", got, fs, nullable));
    }
    let (_, es2, roots) = AlphabetInfo::from_exprset(&es, &[e]);
    if es2.is_nullable(roots[0]) != nullable {
        return Err("the compressed copy differs in nullability".into());
    }
    // derivatives of nested repetitions are long concatenations: quadratic
    let mut d = DerivCache::new();
    let bytes: &[u8] = if few && kinds.iter().all(|k| k.0 == 3 || k.0 == 1) { b"abz" } else { b"" };
    for b in bytes.iter().copied() {
        let r = d.derivative(&mut es, e, b);
        let dead = r == ExprRef::NO_MATCH;
        if dead == first[b as usize] {
            return Err(format!("derivative for {:?} is empty: {}, expected {}", b as char, dead, !dead));
        }
    }
    Ok(())
}

/// emptiness checks that look at thousands of expressions in a row before they know
fn late(s: &mut Src) -> Result<(), String> {
    let n = s.range(3000, 16000);
    let x = *s.pick(&["ab", "x", "[ab]c", "012"]);
    let y = *s.pick(&["q", "(q|zz)", "[qr]+"]);
    let contained = s.chance(1, 3);
    let kind = s.usize(4);
    let (small, big) = match kind {
        0 => (format!("({x}){{{n}}}"), format!("({x}){{{}}}({}{y})", n - 1, if contained { format!("{x}|") } else { String::new() })),
        1 => (format!("({x}){{{n}}}{y}"), format!("({x}){{{n}}}{}", if contained { format!("({y}|r)") } else { "r".to_string() })),
        2 => (format!("({x}){{{n}}}"), format!("({x}){{{}}}", if contained { format!("{},", n - 3) } else { format!("0,{}", n - 3) })),
        // a length condition against a word condition
        _ => (format!("(?s-u:.){{{}}}", n), format!("([ab]|{}){{1,{}}}", if contained { "(?s-u:.)" } else { "(?-u:[^b])" }, if contained { n } else { n - 1 })),
    };
    say(&format!("DESC late kind={} n={} x={} y={} contained={}", kind, n, x, y, contained));
    say("DEEP");
    say("LABEL late verdict");
    let parse = |b: &mut RegexBuilder, t: &str| b.mk_regex(t).map_err(|e| format!("rejected: {}", e));
    let mut b = RegexBuilder::new();
    b.utf8(false);
    let (p, q) = (parse(&mut b, &small)?, parse(&mut b, &big)?);
    let e = b.mk_contained_in_ast(&RegexAst::ExprRef(p), &RegexAst::ExprRef(q)).map_err(|e| e.to_string())?;
    let steps = s.range(0, 3);
    let mut rx = b.to_regex(e);
    if rx.always_empty() != contained {
        return Err(format!("always_empty is {}", !contained));
    }
    if contained {
        return Ok(());
    }
    // the same verdict from the raw cache, for the whole and for what follows a few bytes
    let (al, mut es, v) = AlphabetInfo::from_exprset(b.exprset(), &[e]);
    let (mut rc, mut dc) = (RelevanceCache::new(), DerivCache::new());
    let mut at = v[0];
    let mut st = rx.initial_state();
    let word: &[u8] = match x {
        "ab" => b"abab",
        "x" => b"xxxx",
        "[ab]c" => b"acbc",
        _ => b"0120",
    };
    for i in 0..=steps {
        if !rc.is_non_empty(&mut es, at) {
            return Err(format!("empty after {} bytes", i));
        }
        if st.is_dead() {
            return Err(format!("dead after {} bytes", i));
        }
        let c = if kind == 3 { b'b' + i as u8 } else { word[i] };
        at = dc.derivative(&mut es, at, al.map(c) as u8);
        st = rx.transition(st, c);
    }
    Ok(())
}

fn pattern(s: &mut Src) -> Result<(), String> {
    let n = s.range(1000, 4000);
    let layers = gen_layers(s, false);
    let n = if 2 * layers.iter().filter(|l| matches!(l, L::StarCat(_))).count() >= layers.len() { n.min(1000) } else { n };
    let n = if layers.iter().all(|l| matches!(l, L::CatL(_) | L::CatR(_) | L::Or(_))) {
        n.min(2000)
    } else {
        n
    };
    let base = b"z".to_vec();
    say(&format!("DESC pattern n={} layers={:?}", n, layers));
    say("DEEP");
    say("LABEL pattern");
    let mut pre = vec![];
    let mut post = String::new();
    for i in 0..n {
        let (a, b) = to_pat(&layers[i % layers.len()]).unwrap();
        pre.push(a);
        post.push_str(&b);
    }
    pre.reverse();
    let text = format!("{}z{}", pre.concat(), post);
    let parser = regex_syntax::ParserBuilder::new()
        .nest_limit(1_000_000)
        .unicode(false)
        .utf8(false)
        .build();
    let ws = words(&base, &layers, n, s);
    let want: Vec<bool> = ws.iter().map(|w| table(&base, &layers, n, w)).collect();
    let mut rx = Regex::new_with_parser(parser, &text).map_err(|e| format!("rejected: {}", e))?;
    full_checks(&mut rx, &ws, &want, "")
}

/// e' = Prefixes(Cat(x, e)): all prefixes of the word
fn prefix(s: &mut Src) -> Result<(), String> {
    let n = s.range(1000, 3000);
    let opt = s.chance(1, 2);
    say(&format!("DESC prefix spine n={} optional={}", n, opt));
    say("DEEP");
    say("LABEL prefix spine");
    let mut b = RegexBuilder::new();
    let mut e = b.mk(&RegexAst::Literal("z".into())).unwrap();
    for i in 0..n {
        let x = if i % 2 == 0 { b'a' } else { b'b' };
        let mut a = RegexAst::Concat(vec![RegexAst::Byte(x), RegexAst::ExprRef(e)]);
        if opt {
            a = RegexAst::Repeat(Box::new(a), 0, 1);
        }
        e = b
            .mk(&RegexAst::Prefixes(Box::new(a)))
            .map_err(|x| format!("mk: {}", x))?;
    }
    let full: Vec<u8> = (0..n)
        .rev()
        .map(|i| if i % 2 == 0 { b'a' } else { b'b' })
        .collect();
    let mut rx = b.to_regex(e);
    for l in [0usize, 1, 2, 5, 9] {
        let w = &full[..l];
        if !rx.is_match_bytes(w) {
            return Err(format!("prefix {:?} rejected", w));
        }
        let mut v = w.to_vec();
        v.push(b'z');
        if rx.is_match_bytes(&v) {
            return Err(format!("{:?} accepted", v));
        }
    }
    Ok(())
}

/// keywords a^i b: long chains of shared prefixes in the alternation factoring
fn keywords(s: &mut Src) -> Result<(), String> {
    let n = s.range(1000, 2500);
    let step = s.range(1, 3);
    let tail = s.chance(1, 2);
    say(&format!("DESC keyword chain n={} step={} tail={}", n, step, tail));
    say("DEEP");
    say("LABEL keyword chain");
    let kws: Vec<Vec<u8>> = (1..=n / step)
        .map(|i| {
            let mut v = vec![b'a'; i * step];
            if tail {
                v.push(b"xyz"[i % 3]);
            }
            v
        })
        .collect();
    let mut b = RegexBuilder::new();
    let e = b
        .mk(&RegexAst::Or(kws.iter().map(|k| RegexAst::ByteLiteral(k.clone())).collect()))
        .map_err(|e| e.to_string())?;
    let mut rx = b.to_regex(e);
    for i in [1usize, 2, 50, 99, 100, 101, 102, 103, 150] {
        if i > kws.len() {
            continue;
        }
        let k = &kws[i - 1];
        if !rx.is_match_bytes(k) {
            return Err(format!("keyword {} rejected", i));
        }
        let mut w = k.clone();
        w.push(b'q');
        if rx.is_match_bytes(&w) {
            return Err(format!("keyword {} + q accepted", i));
        }
        if tail {
            *w.last_mut().unwrap() = b'a';
            w.pop();
            w.pop();
            if rx.is_match_bytes(&w) {
                return Err(format!("keyword {} without its last byte accepted", i));
            }
        }
    }
    Ok(())
}
