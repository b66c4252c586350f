//! Tokens to text, in several layouts with line terminators between the same tokens.
use joker::track::{Posn, Span};

pub struct Laid {
    pub text: String,
    pub spans: Vec<Span>,
    pub end: u32,
}

pub const LAYOUTS: usize = 5;

fn wordish(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$' || c == '\\'
}
fn separate(c: char) -> bool {
    "(){}[];,:?~'\"".contains(c)
}

/// A name spelt with an escape.
pub fn escaped(token: &str) -> bool {
    token.contains('\\') && !token.starts_with(|c: char| "'\"/".contains(c))
}

/// What a name stands for.
pub fn denoted(token: &str) -> String {
    let mut out = String::new();
    let mut rest = token;
    while let Some(i) = rest.find("\\u") {
        out.push_str(&rest[..i]);
        let digits;
        if rest[i + 2..].starts_with('{') {
            let end = i + rest[i..].find('}').unwrap();
            digits = &rest[i + 3..end];
            rest = &rest[end + 1..];
        } else {
            digits = &rest[i + 2..i + 6];
            rest = &rest[i + 6..];
        }
        out.push(::std::char::from_u32(u32::from_str_radix(digits, 16).unwrap()).unwrap());
    }
    out + rest
}

/// Other spellings of the same tokens: names that are no words of the language, numbers, and strings that
/// cannot be directives.
pub fn respell(tokens: &[(String, bool)]) -> Vec<(String, bool)> {
    let mut prev = "";
    tokens.iter().enumerate().map(|(i, &(ref t, nl))| {
        let before = prev;
        prev = t;
        let pick = |list: &[&str]| list[(i + tokens.len()) % list.len()].to_string();
        let text = match &t[..] {
            "0" => pick(&["0x0", "0.0", "0e7", "0B00", ".0", "0o0"]),
            "1" => pick(&["0x1", "1.0", "10e-1", "0b1", ".1e1", "0O1"]),
            "2" => pick(&["0X02", "2e0", "20E-1", "0b10"]),
            "'s'" if "=([,+?".contains(before) && before.len() == 1 => pick(&["'\\x73'", "\"s\"", "'\\u0073'", "'\\\ns'", "'\\u{73}'", "'\\s'", "'s\\\r\n'"]),
            _ if t.len() == 1 && t.chars().all(|c| c.is_ascii_lowercase()) => {
                let c = t.chars().next().unwrap() as u32;
                match (i + tokens.len()) % 4 {
                    0 => format!("\\u{:04x}", c),
                    1 => format!("\\u{{{:x}}}", c),
                    2 => format!("\\u{{{:06X}}}", c),
                    _ => format!("\\u{:04X}", c),
                }
            }
            _ => t.clone(),
        };
        (text, nl)
    }).collect()
}

/// Whether two tokens stay apart without anything between them.
fn apart(a: &str, b: &str) -> bool {
    if escaped(a) && a.ends_with('}') {
        return b.chars().next().map_or(true, |y| separate(y) || "=+-*%<>!&|^".contains(y));
    }
    let (x, y) = match (a.chars().last(), b.chars().next()) {
        (Some(x), Some(y)) => (x, y),
        _ => return true,
    };
    separate(x) || separate(y) || (wordish(x) && !x.is_numeric() && "=+-*%<>!&|^".contains(y)) || ("=+-*%<>!&|^.".contains(x) && wordish(y) && !y.is_numeric())
}

fn gap(layout: usize, i: usize, a: &str, b: &str, nl: bool) -> &'static str {
    let first = a.is_empty();
    match (layout, nl) {
        (0, false) => if first { "" } else { " " },
        (0, true) => "\n",
        // as tight as possible
        (1, false) => if first || apart(a, b) { "" } else { " " },
        (1, true) => "\n",
        // comments
        (2, false) => ["/*c*/", " /* * / */ ", "/**/\t", " /*'*/"][i % 4],
        (2, true) => ["/*\n*/", "//c\n", " // /*\n /*x*/", "/*1*//*\r\n*/ "][i % 4],
        // unusual white space and line terminators
        (3, false) => ["\t", "\u{A0}", "\u{B}\u{C} ", "\u{FEFF}"][i % 4],
        (3, true) => ["\u{2028}", "\r\n", "\r", "\u{2029}\t\u{2003}"][i % 4],
        // a bit of everything
        (_, false) => ["  ", "/*\\u0041*/", "\t/*/**/", " "][(i * 7 + 3) % 4],
        (_, true) => ["\n\n", "\u{2028}\u{2028}", "/*\u{2029}*/", "//\u{A0}\r"][(i * 5 + 1) % 4],
    }
}

pub fn lay(tokens: &[(String, bool)], layout: usize) -> Laid {
    let mut text = String::new();
    let mut spans = Vec::new();
    let mut at = Posn::origin();
    let mut cr = false;
    let mut push = |s: &str, text: &mut String| {
        for c in s.chars() {
            text.push(c);
            at.offset += 1;
            match c {
                '\n' if cr => {}
                '\n' | '\r' | '\u{2028}' | '\u{2029}' => {
                    at.line += 1;
                    at.column = 0;
                }
                _ => at.column += 1,
            }
            cr = c == '\r';
        }
        at
    };
    let mut prev = "";
    for (i, &(ref t, nl)) in tokens.iter().enumerate() {
        if t == "EOF" {
            let g = if nl || layout >= 2 { gap(layout, i, prev, "", nl) } else { "" };
            if prev.ends_with('/') && g.starts_with('/') {
                push(" ", &mut text);
            }
            let start = push(g, &mut text);
            spans.push(Span { start, end: start });
            continue;
        }
        let g = gap(layout, i, prev, t, nl);
        if prev.ends_with('/') && g.starts_with('/') {
            push(" ", &mut text);
        }
        let start = push(g, &mut text);
        let end = push(t, &mut text);
        spans.push(Span { start, end });
        prev = t;
    }
    let end = at.offset;
    Laid { text, spans, end }
}
