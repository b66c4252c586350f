//! Replays tokenizer behaviours of the specification (MCJoker) on the real tokenizer, and
//! makes long random inputs for the specification to predict.
use conform_common::*;
use joker::lexer::Lexer;
use joker::token::{Token, TokenData};
use real::*;
use serde_json::Value;
use std::io::Write;

use crate::real;

fn class(kind: &str) -> &'static str {
    match kind {
        "P" => "punct", "N" => "number", "S" => "string", "R" => "regexp",
        "W" | "A" | "I" => "word", _ => "eof",
    }
}

/// Tags: <component>:<class of lexeme>
pub fn check(src: &str, exp: &Value, fill: bool, closed: bool, out: &mut Vec<Mismatch>) {
    let ops = arr(get(exp, "ops"));
    let toks = arr(get(exp, "toks"));
    let err = arr(get(exp, "err"));
    let mut lexer = Lexer::new(src.chars());
    let mut prev_end = 0i64;
    for (i, t) in toks.iter().enumerate() {
        let op = match st(&ops[i]) { "div" => true, "re" => false, _ => fill };
        let k = st(get(t, "k"));
        let slash = st(&ops[i]) != "any";
        let cls = if slash && k != "R" { "slash" } else { class(k) };
        let got = match observe(|| lexer.read_token(op)) {
            Err(p) => { out.push(mismatch(format!("panic:{}", cls), format!("token {}: {}", i, p))); return; }
            Ok(Err(e)) => {
                let (kind, arg) = error(&e);
                // An error while the specification sees a gap is about that gap.
                out.push(mismatch(format!("accept:{}", cls), format!("token {}: expected {}, got error {} {}", i, t, kind, arg)));
                if kind == "UnterminatedComment" {
                    out.push(mismatch("trivia:comment", format!("token {}: expected {}, got error {}", i, t, kind)));
                }
                // A character refused although no lexeme of the specification starts there.
                let first = src.chars().nth(spec_posn(get(t, "s")).0 as usize);
                if kind == "IllegalChar" && first.map_or(true, |c| int(&arg) != c as i64) {
                    out.push(mismatch("trivia:illegal", format!("token {}: expected {}, got error {} {}", i, t, kind, arg)));
                }
                return;
            }
            Ok(Ok(tok)) => tok,
        };
        if !check_token(t, &got, i, cls, out) { return; }
        let end = spec_posn(get(t, "e"));
        if posn(&lexer.posn()) != end {
            out.push(mismatch("extent:posn", format!("token {}: reported position {:?}, expected {:?}", i, lexer.posn(), end)));
        }
        if got.location.start.offset as i64 != prev_end && (got.location.start.offset as i64) < prev_end {
            out.push(mismatch("extent:overlap", format!("token {}", i)));
        }
        prev_end = got.location.end.offset as i64;
    }
    if err.is_empty() {
        // The end of the input stays the end of the input.
        let end = get(toks.last().unwrap(), "e");
        for j in 0..4 {
            match observe(|| lexer.read_token(j % 2 == 0)) {
                Err(p) => { out.push(mismatch("panic:eof", p)); return; }
                Ok(Ok(Token { value: TokenData::EOF, location, newline })) => {
                    if posn(&location.start) != spec_posn(end) || posn(&location.end) != spec_posn(end) || newline {
                        out.push(mismatch("eof:stable", format!("later end-of-input token at {:?} newline {}", location, newline)));
                        return;
                    }
                }
                Ok(other) => { out.push(mismatch("eof:stable", format!("{:?} after the end of the input", other))); return; }
            }
        }
        return;
    }
    let (kind, arg, cls) = (st(&err[0]), &err[1], st(&err[2]));
    let last = ops.last().map(st).unwrap_or("any");
    let op = match last { "div" => true, "re" => false, _ => fill };
    match observe(|| lexer.read_token(op)) {
        Err(p) => out.push(mismatch(format!("panic:{}", cls), format!("expected error {} {}: {}", kind, arg, p))),
        Ok(Ok(t)) => {
            out.push(mismatch(format!("reject:{}:{}", cls, kind), format!("expected error {} {}, got {:?}", kind, arg, token_value(&t))));
        }
        Ok(Err(e)) => {
            let (k, a) = error(&e);
            if k != kind || !same(&a, arg) {
                out.push(mismatch(format!("errkind:{}:{}", cls, kind), format!("expected error {} {}, got {} {}", kind, arg, k, a)));
            }
        }
    }
    let _ = closed;
}

pub fn check_token(t: &Value, got: &Token, i: usize, cls: &str, out: &mut Vec<Mismatch>) -> bool {
    let before = out.len();
    let (es, ee) = (spec_posn(get(t, "s")), spec_posn(get(t, "e")));
    let (gs, ge) = (posn(&got.location.start), posn(&got.location.end));
    let shown = token_value(got);
    if gs.0 != es.0 {
        out.push(mismatch("trivia:start", format!("token {}: expected {}, got {}", i, t, shown)));
        out.push(mismatch(format!("extent:{}", cls), format!("token {}: expected {}, got {}", i, t, shown)));
        return false;
    }
    let (k, v, value) = payload(&got.value);
    let ek = st(get(t, "k"));
    let ev = get(t, "v");
    if k != ek {
        out.push(mismatch(format!("kind:{}", cls), format!("token {}: expected {}, got {}", i, t, shown)));
        let gcls = class(k);
        if gcls != cls {
            out.push(mismatch(format!("kind:{}", gcls), format!("token {}: expected {}, got {}", i, t, shown)));
        }
    } else if k == "N" {
        let ev = arr(ev);
        if !same(&v, &ev[0]) {
            out.push(mismatch("value:number", format!("token {}: source expected {}, got {}", i, ev[0], v)));
        }
        let want = spec_number(&ev[1]);
        if value.map(|x| x.to_bits()) != Some(want.to_bits()) {
            out.push(mismatch("value:number", format!("token {}: value of {} expected {:?}, got {:?}", i, ev[0], want, value)));
        }
    } else if !same(&v, ev) {
        out.push(mismatch(format!("value:{}", cls), format!("token {}: expected {}, got {}", i, t, shown)));
    }
    if ge.0 != ee.0 {
        out.push(mismatch(format!("extent:{}", cls), format!("token {}: expected {}, got {}", i, t, shown)));
    } else if (gs, ge) != (es, ee) {
        out.push(mismatch("linecol", format!("token {}: expected {}, got {}", i, t, shown)));
    }
    if got.newline != (*get(t, "n") == Value::Bool(true)) {
        out.push(mismatch("newline", format!("token {}: expected {}, got {}", i, t, shown)));
    }
    out.len() == before
}

pub fn replay(files: &[String], only: Option<usize>) {
    let mut cases = Vec::new();
    for f in files { cases.extend(load_lazy(f)); }
    run_cases(&cases, only, |case| {
        let src = text(get(case, "src"));
        let closed = *get(case, "closed") == Value::Bool(true);
        let mut out = Vec::new();
        for &fill in &[true, false] {
            check(&src, case, fill, closed, &mut out);
            if !closed {
                // The outcome was decided before the input ended: whatever follows is irrelevant.
                for suffix in &["\n", "a", "/", "*/ 0", "'"] {
                    check(&format!("{}{}", src, suffix), case, fill, closed, &mut out);
                }
            }
            if !out.is_empty() { break; }
        }
        out
    });
}

// ---------------------------------------------------------------------------------------
// Sessions: many behaviours of the specification, one after the other, in a single reading.

/// A position of a behaviour that starts at (off, line, col) of the whole text.
fn shifted(q: &Value, at: (i64, i64, i64)) -> Value {
    let (o, l, c) = spec_posn(q);
    obj(vec![("o", n((o + at.0) as u64)), ("l", n((l + at.1) as u64)), ("c", n((if l == 0 { c + at.2 } else { c }) as u64))])
}

/// What may stand between two behaviours.
#[derive(Clone, Copy)]
enum Gap { Line, Space, Many(&'static str, usize) }

/// How far a text of trivia moves, and whether it has a line terminator: its characters, none of which is a CR.
fn stride(text: &str) -> (i64, i64, i64, bool) {
    let newline = |c: &char| *c == '\n' || *c == '\u{2028}' || *c == '\u{2029}' || *c == '\r';
    let lines = text.chars().filter(|c| newline(c)).count() as i64;
    (text.chars().count() as i64, lines, text.chars().rev().take_while(|c| !newline(c)).count() as i64, lines > 0)
}

/// Behaviours that may stand in the middle of a line: nothing of them depends on what is before on
/// it, and they leave no comment open to its end.
fn inline(b: &Value) -> bool {
    let src = text(get(b, "src"));
    !["//", "<!--", "-->", "\r"].iter().any(|x| src.contains(x))
}

/// After a line terminator the machine of the specification is in its initial state, but for the
/// position and the newline flag. So the behaviour of texts separated by line terminators is the
/// sequence of their behaviours, shifted, with the flag set on the first token of each. The same holds
/// of texts separated by other trivia if nothing in them depends on the line so far.
fn session(behaviours: &[Value], segments: &[usize], gap: Gap) -> (String, Value) {
    let (mut src, mut ops, mut toks) = (String::new(), Vec::new(), Vec::new());
    let mut at = (0i64, 0i64, 0i64);
    let mut fresh = false;
    for (j, &i) in segments.iter().enumerate() {
        let b = &behaviours[i];
        let ts = arr(get(b, "toks"));
        let last = j + 1 == segments.len();
        let (mut end, mut any, mut trailing) = ((0, 0, 0), false, false);
        for (k, t) in ts.iter().enumerate() {
            let eof = st(get(t, "k")) == "E";
            if eof { end = spec_posn(get(t, "e")); trailing = *get(t, "n") == Value::Bool(true); }
            if eof && !last { continue; }
            any = true;
            let flag = *get(t, "n") == Value::Bool(true) || (fresh && k == 0);
            toks.push(obj(vec![("k", get(t, "k").clone()), ("v", get(t, "v").clone()), ("s", shifted(get(t, "s"), at)),
                               ("e", shifted(get(t, "e"), at)), ("n", Value::Bool(flag))]));
            ops.push(arr(get(b, "ops"))[k].clone());
        }
        let here = text(get(b, "src"));
        if last {
            ops.extend(arr(get(b, "ops")).iter().skip(ts.len()).cloned());
            src.push_str(&here);
            return (src, obj(vec![("ops", list(ops)), ("toks", list(toks)), ("err", get(b, "err").clone())]));
        }
        let sep = match gap {
            Gap::Line => {
                // a CR at the end must not join the separator
                let sep = if here.ends_with('\r') { "\u{2028}" } else { ["\n", "\r", "\u{2029}"][j % 3] };
                (if sep == "\r" && text(get(&behaviours[segments[j + 1]], "src")).starts_with('\n') { "\n" } else { sep }).to_string()
            }
            Gap::Space => [" ", "\t", "\u{3000}", " /**/"][j % 4].to_string(),
            Gap::Many(x, count) if j == 0 => {
                let body: String = std::iter::repeat(x).take(count).collect();
                if x.trim().is_empty() { body } else { format!(" /*{}*/", body) }
            }
            Gap::Many(..) => " ".to_string(),
        };
        let (chars, lines, tail, newline) = stride(&sep);
        src.push_str(&here);
        src.push_str(&sep);
        let col = if lines > 0 { tail } else { chars + end.2 + if end.1 == 0 { at.2 } else { 0 } };
        at = (at.0 + here.chars().count() as i64 + chars, at.1 + end.1 + lines, col);
        fresh = newline || trailing || (fresh && !any);
    }
    unreachable!()
}

const MANY: [Gap; 8] = [Gap::Many(" ", 300), Gap::Many(" ", 70_000), Gap::Many("\n", 300), Gap::Many("\u{2028}", 70_000), Gap::Many("x", 70_000), Gap::Many("* ", 40_000), Gap::Many("\n", 70_000), Gap::Many("x\n", 40_000)];

pub fn sessions(seed: u64, files: &[String], only: Option<usize>) {
    let mut behaviours = Vec::new();
    for f in files { behaviours.extend(load(f)); }
    behaviours.retain(|b| *get(b, "closed") == Value::Bool(true));
    let (whole, broken): (Vec<usize>, Vec<usize>) = (0..behaviours.len()).partition(|&i| arr(get(&behaviours[i], "err")).is_empty());
    let mut r = Rng(seed);
    let mut order = whole.clone();
    for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j); }
    let mut cases = Vec::new();
    let case = |gap: u64, c: Vec<usize>| obj(vec![("gap", n(gap)), ("segments", list(c.into_iter().map(|i| n(i as u64)).collect()))]);
    let flat: Vec<usize> = order.iter().cloned().filter(|&i| inline(&behaviours[i])).collect();
    let flat_broken: Vec<usize> = broken.iter().cloned().filter(|&i| inline(&behaviours[i])).collect();
    for &(gap, order, broken) in &[(0u64, &order, &broken), (1, &flat, &flat_broken)] {
        for &len in &[2usize, 3, 10, 100, 1000, usize::max_value()] {
            for (k, c) in order.chunks(len).enumerate() {
                if len < 100 && k >= 20000 { break; }
                let mut c: Vec<usize> = c.to_vec();
                if k % 2 == 1 && !broken.is_empty() { c.push(*r.pick(broken)); }
                cases.push(case(gap, c));
            }
        }
    }
    // far into a text, a line, or a number of lines
    for gap in 2..2 + MANY.len() as u64 {
        for _ in 0..4 { cases.push(case(gap, (0..5).map(|_| *r.pick(&flat)).collect())); }
    }
    let single: Vec<usize> = flat.iter().cloned().filter(|&i| !text(get(&behaviours[i], "src")).contains(|c| c == '\n' || c == '\u{2028}' || c == '\u{2029}')).collect();
    cases.push(case(0, (0..70_000).map(|_| *r.pick(&whole)).collect()));
    cases.push(case(1, (0..30_000).map(|_| *r.pick(&single)).collect()));
    run_cases(&cases, only, |case| {
        let segments: Vec<usize> = arr(get(case, "segments")).iter().map(|i| int(i) as usize).collect();
        let gap = match int(get(case, "gap")) { 0 => Gap::Line, 1 => Gap::Space, k => MANY[k as usize - 2] };
        let (src, exp) = session(&behaviours, &segments, gap);
        let mut out = Vec::new();
        check(&src, &exp, true, true, &mut out);
        if src.len() <= 300 {
            for m in &mut out { m.detail = format!("in {:?}: {}", src, m.detail); }
        }
        out
    });
}

// ---------------------------------------------------------------------------------------
// Random inputs

const WORDS: &'static [&'static str] = &[
    "null", "true", "false", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete",
    "do", "else", "export", "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new",
    "return", "super", "switch", "this", "throw", "try", "typeof", "var", "void", "while", "with", "enum",
    "arguments", "eval", "yield", "await", "implements", "interface", "let", "package", "private", "protected",
    "public", "static", "async", "from", "of", "get", "set", "target", "use", "as", "undefined", "constructor",
];
const PUNCTS: &'static [&'static str] = &[
    "{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+", "-", "*",
    "%", "/", "++", "--", "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "?", ":", "=", "+=", "-=", "*=",
    "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "=>",
];
const SPACES: &'static [&'static str] = &[
    " ", " ", " ", "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2007}", "\u{200a}", "\u{202f}",
    "\u{205f}", "\u{3000}", "\u{feff}",
];
const NEWLINES: &'static [&'static str] = &["\n", "\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "\n\r", "\r\r\n"];
const ODD: &'static [char] = &[
    'a', 'z', '$', '_', '0', '9', 'é', 'λ', '中', '\u{200c}', '\u{200d}', '\u{1d49c}', '\u{10ffff}', '\u{301}', '\u{660}',
    '#', '@', '`', '\u{0}', '\u{7f}', '\u{180e}', '\u{85}', '\u{2030}', '\u{fffe}', '\u{2118}', '\u{212e}', '\u{309b}',
];

fn digits(r: &mut Rng, set: &str, max: usize, s: &mut String) {
    let set: Vec<char> = set.chars().collect();
    for _ in 0..1 + r.below(max) { s.push(*r.pick(&set)); }
}

fn exponent(r: &mut Rng, s: &mut String) {
    if r.chance(1, 3) {
        s.push(*r.pick(&['e', 'E']));
        s.push_str(*r.pick(&["", "+", "-"]));
        let n = *r.pick(&[1, 2, 2, 3, 5]);
        digits(r, "0123456789", n, s);
    }
}

fn number(r: &mut Rng, s: &mut String) {
    let long = *r.pick(&[1, 2, 4, 10, 20, 30]);
    match r.below(9) {
        0 => { s.push_str(*r.pick(&["0x", "0X"])); digits(r, "0123456789abcdefABCDEF", long, s); }
        1 => { s.push_str(*r.pick(&["0o", "0O"])); digits(r, "01234567", long * 2, s); }
        2 => { s.push_str(*r.pick(&["0b", "0B"])); digits(r, "01", long * 3, s); }
        3 => { s.push('0'); digits(r, "01234567", long, s); }
        4 => { s.push('0'); digits(r, "0123456789", 4, s); exponent(r, s); }
        5 => { s.push('.'); digits(r, "0123456789", long, s); exponent(r, s); }
        6 => { digits(r, "123456789", 1, s); if r.chance(1, 2) { digits(r, "0123456789", long, s); } exponent(r, s); }
        7 => { digits(r, "123456789", 3, s); s.push('.'); exponent(r, s); }
        _ => { digits(r, "123456789", long, s); s.push('.'); digits(r, "0123456789", long, s); exponent(r, s); }
    }
}

fn escape(r: &mut Rng, s: &mut String, word: bool, first: bool) {
    let c = if word {
        *r.pick(if first { &['a', 'Z', '$', '_', 'é', '中', '\u{1d49c}'][..] } else { &['a', '7', '_', '\u{200d}', '\u{301}', '\u{1d7d8}'][..] }) as u32
    } else {
        *r.pick(&[0u32, 0x41, 0x7f, 0xff, 0x100, 0xd7ff, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xfffffff])
    };
    if c > 0xffff || r.chance(1, 3) {
        let z = r.below(4);
        s.push_str(&format!("\\u{{{}{:x}}}", "000".get(..z).unwrap_or(""), c));
    } else if r.chance(1, 2) {
        s.push_str(&format!("\\u{:04x}", c));
    } else {
        s.push_str(&format!("\\u{:04X}", c));
    }
}

fn string(r: &mut Rng, s: &mut String) {
    let q = *r.pick(&['"', '\'']);
    s.push(q);
    for _ in 0..r.below(8) {
        match r.below(12) {
            0 => { s.push('\\'); s.push(*r.pick(&['n', 'r', 't', 'b', 'v', 'f', '\\', '\'', '"', 'a', 'e', '8', '9', ' ', 'é', '/', '中'])); }
            1 => { s.push('\\'); digits(r, "01234567", 4, s); }
            2 => { s.push_str("\\x"); let c = r.below(256); s.push_str(&format!("{:02x}", c)); }
            3 => escape(r, s, false, false),
            4 => { s.push('\\'); s.push_str(*r.pick(NEWLINES)); if s.ends_with("\n\r") || s.ends_with("\r\r\n") { s.pop(); while s.ends_with('\r') { s.pop(); } if s.ends_with('\\') { s.push('\n'); } } }
            5 => s.push(if q == '"' { '\'' } else { '"' }),
            6 => s.push_str("/*"),
            _ => { let c = *r.pick(ODD); if c != q { s.push(c) } }
        }
    }
    s.push(q);
}

fn regexp(r: &mut Rng, s: &mut String) {
    s.push('/');
    let first = s.len();
    for _ in 0..1 + r.below(6) {
        match r.below(8) {
            0 => { s.push('\\'); s.push(*r.pick(&['/', '[', ']', '\\', 'd', 'n', 'é'])); }
            1 => {
                s.push('[');
                for _ in 0..r.below(4) { s.push_str(*r.pick(&["/", "\\]", "a", "[", "^", "\\\\", "é", "*"])); }
                s.push(']');
            }
            2 => s.push_str(if s.len() > first { *r.pick(&["*", "+", "?", "=", "]", "(", ")"]) } else { "=" }),
            _ => s.push(*r.pick(&['a', 'b', '.', '^', '$', 'λ', ' ', '"', '\''])),
        }
    }
    s.push('/');
    for _ in 0..r.below(4) { s.push(*r.pick(&['g', 'i', 'm', 'u', 'y', 'x', '0', 'é'])); }
}

fn word(r: &mut Rng, s: &mut String) {
    match r.below(6) {
        0 | 1 => s.push_str(*r.pick(WORDS)),
        2 => {
            // near miss: a known word with one letter changed, doubled, dropped or escaped
            let w: Vec<char> = r.pick(WORDS).chars().collect();
            let i = r.below(w.len());
            for (j, &c) in w.iter().enumerate() {
                if j != i { s.push(c); continue; }
                match r.below(4) {
                    0 => { s.push(c); s.push(c); }
                    1 => if w.len() > 1 { } else { s.push(c) },
                    2 => s.push(c.to_ascii_uppercase()),
                    _ => s.push_str(&format!("\\u{:04x}", c as u32)),
                }
            }
        }
        3 => { escape(r, s, true, true); for _ in 0..r.below(3) { escape(r, s, true, false); } }
        _ => {
            s.push(*r.pick(&['a', 'x', '$', '_', 'é', 'λ', '中', '\u{2118}', '\u{1d49c}']));
            for _ in 0..r.below(5) { s.push(*r.pick(&['a', '0', '_', '$', 'Z', '\u{200c}', '\u{301}', '\u{660}'])); }
        }
    }
}

fn comment(r: &mut Rng, s: &mut String) {
    match r.below(6) {
        0 => { s.push_str("//"); for _ in 0..r.below(4) { s.push(*r.pick(ODD)); } s.push_str(*r.pick(NEWLINES)); }
        1 => { s.push_str("<!--"); for _ in 0..r.below(4) { s.push(*r.pick(ODD)); } s.push_str(*r.pick(NEWLINES)); }
        2 => { s.push_str(*r.pick(NEWLINES)); s.push_str("-->"); for _ in 0..r.below(4) { s.push(*r.pick(ODD)); } s.push_str(*r.pick(NEWLINES)); }
        3 => { s.push_str("/*"); for _ in 0..r.below(4) { s.push_str(*r.pick(&["*", "a", "//", "/ ", "é", "<!--", "'"])); } s.push_str("*/"); }
        _ => {
            s.push_str("/*");
            for _ in 0..r.below(5) { let x = if r.chance(1, 2) { *r.pick(NEWLINES) } else { *r.pick(&["*", "a", "//", "/ ", "'", "**"]) }; s.push_str(x); }
            s.push_str("*/");
            if r.chance(1, 3) { s.push_str("-->"); s.push_str(*r.pick(NEWLINES)); }
        }
    }
}

/// One lexeme or comment of some hundred characters.
fn long(r: &mut Rng, s: &mut String) {
    let n = 60 + r.below(400);
    let mut fill = |s: &mut String, r: &mut Rng, xs: &[&str]| for _ in 0..n { s.push_str(*r.pick(xs)); };
    match r.below(9) {
        0 => { s.push_str("/*"); fill(s, r, &["*", "a", "\n", "\r\n", "\r", "/ ", "é", "\u{2028}"]); s.push_str("*/"); }
        1 => { s.push_str("//"); fill(s, r, &["*", "a", "/", "é", "\t"]); s.push('\n'); }
        2 => { s.push('"'); fill(s, r, &["a", "'", "\\n", "\\0", "\\x41", "\\u{1d49c}", "\\\r\n", "\\\n", "\\7", "é"]); s.push('"'); }
        3 => { s.push('x'); fill(s, r, &["a", "0", "_", "\\u0061", "é", "\u{200c}"]); s.push(' '); }
        4 => { s.push_str("0x"); fill(s, r, &["0", "f", "9", "A"]); s.push(' '); }
        5 => { s.push('7'); fill(s, r, &["0", "1", "9"]); s.push_str(*r.pick(&[".", ".5", "e-300", "e5", ".0e-400"])); s.push(' '); }
        6 => { s.push('/'); s.push('x'); fill(s, r, &["a", "\\/", "[/\\]]", "]", "*", "é"]); s.push_str("/g "); }
        7 => fill(s, r, &[" ", "\t", "\n", "\r\n", "\r", "\u{2029}", "\u{3000}"]),
        _ => fill(s, r, &["(", ")", "{", "}", "[", "]", ";", ",", "=", "+ ", "! "]),
    }
}

pub fn inputs(seed: u64, count: usize, path: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut r = Rng(seed);
    for _ in 0..count {
        let mut src = String::new();
        // ops[i]: how a slash starting token i+1 is to be read; chosen without knowing the tokens
        let mut ops = Vec::new();
        let pieces = 3 + r.below(12);
        let safe = r.chance(3, 4);
        for _ in 0..pieces {
            match r.below(14) {
                0 | 1 => number(&mut r, &mut src),
                2 | 3 => string(&mut r, &mut src),
                4 => regexp(&mut r, &mut src),
                5 | 6 => word(&mut r, &mut src),
                7 | 8 | 9 => src.push_str(*r.pick(PUNCTS)),
                10 => comment(&mut r, &mut src),
                11 => src.push_str(*r.pick(NEWLINES)),
                13 if r.chance(1, 60) => long(&mut r, &mut src),
                12 if !safe => src.push(*r.pick(ODD)),
                _ => src.push_str(*r.pick(SPACES)),
            }
            if safe || r.chance(1, 2) {
                let x = if r.chance(1, 5) { *r.pick(NEWLINES) } else { *r.pick(SPACES) };
                src.push_str(x);
            }
        }
        if r.chance(1, 6) && !src.is_empty() {
            // end in the middle of something
            let cut = r.below(src.chars().count());
            src = src.chars().take(cut).collect();
        }
        for _ in 0..src.chars().count() + 1 { ops.push(s(if r.chance(1, 2) { "div" } else { "re" })); }
        let case = obj(vec![("src", codes(&src)), ("ops", list(ops))]);
        writeln!(f, "{}", serde_json::to_string(&case).unwrap()).unwrap();
    }
}
