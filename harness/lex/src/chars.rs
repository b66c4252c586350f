//! Observes what every single code point means in each lexical context and compares it with
//! the signatures the specification (CharSweep) gives for it.
use crate::real::*;
use conform_common::*;
use joker::error::Error;
use joker::lexer::Lexer;
use joker::token::{Token, TokenData};
use joker::word::Name;
use serde_json::Value;

fn lex(src: &str, op: bool) -> Result<joker::result::Result<Token>, String> {
    observe(|| Lexer::new(src.chars()).read_token(op))
}

fn show<T: std::fmt::Debug>(x: T) -> String { format!("?{:?}", x) }

fn lead(c: char) -> String {
    match lex(&c.to_string(), true) {
        Ok(Ok(Token { value: TokenData::EOF, newline, .. })) => if newline { "newline" } else { "space" }.to_string(),
        Ok(Ok(t)) => match payload(&t.value).0 {
            "P" => "punct".to_string(), "N" => "digit".to_string(),
            "W" | "A" | "I" => "word".to_string(),
            _ => show(t),
        },
        Ok(Err(Error::UnterminatedString(None))) => "quote".to_string(),
        Ok(Err(Error::IncompleteWordEscape(None))) => "backslash".to_string(),
        Ok(Err(Error::IllegalChar(d))) if d == c => "illegal".to_string(),
        other => show(other),
    }
}

fn is_word(t: &Token, want: &str, end: u32) -> bool {
    match t.value {
        TokenData::Identifier(Name::String(ref x)) => x == want && t.location.end.offset == end,
        _ => false,
    }
}

fn cont(c: char) -> String {
    let src = format!("a{}", c);
    match lex(&src, true) {
        Ok(Ok(ref t)) if is_word(t, &src, 2) => "yes".to_string(),
        Ok(Ok(ref t)) if is_word(t, "a", 1) => "no".to_string(),
        Ok(Err(Error::IncompleteWordEscape(None))) if c == '\\' => "no".to_string(),
        other => show(other),
    }
}

fn touch(c: char) -> String {
    match lex(&format!("1{}", c), true) {
        Ok(Err(Error::IdAfterNumber(d))) if d == c => "id".to_string(),
        Ok(Err(Error::MissingExponent(None))) if c == 'e' || c == 'E' => "no".to_string(),
        Ok(Ok(ref t)) if t.location.start.offset == 0 => "no".to_string(),
        other => show(other),
    }
}

fn in_string(c: char) -> String {
    match lex(&format!("'{}'", c), true) {
        Ok(Ok(Token { value: TokenData::String(ref x), .. })) if x.value == c.to_string() => "char".to_string(),
        Ok(Err(Error::UnterminatedString(Some(d)))) if d == c => "newline".to_string(),
        _ if c == '\'' || c == '\\' => "special".to_string(),
        other => show(other),
    }
}

fn in_regexp(c: char) -> String {
    match lex(&format!("/{}/", c), false) {
        Ok(Ok(Token { value: TokenData::RegExp(ref x), .. })) if x.pattern == c.to_string() && x.flags.is_empty() => "char".to_string(),
        Ok(Err(Error::UnterminatedRegExp(Some(d)))) if d == c => "newline".to_string(),
        _ if "/\\[*".contains(c) => "special".to_string(),
        other => show(other),
    }
}

fn in_line(c: char) -> String {
    match lex(&format!("//{}b", c), true) {
        Ok(Ok(Token { value: TokenData::EOF, newline: false, .. })) => "char".to_string(),
        Ok(Ok(Token { value: TokenData::Identifier(_), newline: true, .. })) => "newline".to_string(),
        other => show(other),
    }
}

fn in_block(c: char) -> String {
    match lex(&format!("/*{}*/b", c), true) {
        Ok(Ok(Token { value: TokenData::Identifier(_), newline, location })) => {
            format!("{} {} {}", if newline { "newline" } else { "same" }, location.start.line, location.start.column)
        }
        other => show(other),
    }
}

fn string_value(src: &str, c: u32) -> String {
    match lex(src, true) {
        Ok(Ok(Token { value: TokenData::String(ref x), .. })) => {
            let v: Vec<u32> = x.value.chars().map(|c| c as u32).collect();
            match v.len() {
                0 => "none".to_string(),
                1 if v[0] == c => "self".to_string(),
                1 => v[0].to_string(),
                _ => show(v),
            }
        }
        Ok(Err(_)) => "error".to_string(),
        other => show(other),
    }
}

fn esc_word(prefix: &str, c: u32) -> String {
    let src = format!("{}\\u{{{:x}}}", prefix, c);
    match lex(&src, true) {
        Ok(Ok(ref t)) => {
            let want = format!("{}{}", prefix, std::char::from_u32(c).unwrap_or('?'));
            if is_word(t, &want, src.chars().count() as u32) { "yes".to_string() } else { show(t) }
        }
        Ok(Err(Error::IllegalUnicode(u))) if u == c => "no".to_string(),
        other => show(other),
    }
}

fn observed(c: u32) -> Vec<String> {
    let tail = vec![esc_word("", c), esc_word("a", c), string_value(&format!("'\\u{{{:x}}}'", c), c)];
    let mut v = match std::char::from_u32(c) {
        None => vec!["-".to_string(); 8],
        Some(ch) => vec![lead(ch), cont(ch), touch(ch), in_string(ch), in_regexp(ch), in_line(ch), in_block(ch),
                         string_value(&format!("'\\{}'", ch), c)],
    };
    v.extend(tail);
    v
}

const CONTEXTS: &'static [&'static str] = &["lead", "continue", "after-number", "string", "regexp", "line-comment", "block-comment",
    "string-escape", "word-escape-start", "word-escape-continue", "string-unicode"];

pub fn sweep(file: &str, only: Option<usize>) {
    let mut points: Vec<(u32, Vec<String>)> = load(file).iter().map(|p| {
        (int(get(p, "cp")) as u32, arr(get(p, "sig")).iter().map(|x| st(x).to_string()).collect())
    }).collect();
    points.sort();
    points.dedup();
    let block = 64u32;
    let last = 0x110000 + 64;
    let cases: Vec<Value> = (0..last / block).map(|b| Value::U64((b * block) as u64)).collect();
    run_cases(&cases, only, |case| {
        let lo = int(case) as u32;
        let mut out = Vec::new();
        for c in lo..lo + block {
            let at = match points.binary_search_by(|p| p.0.cmp(&c)) { Ok(i) => i, Err(i) => i - 1 };
            let want = &points[at].1;
            let got = observed(c);
            for (i, (w, g)) in want.iter().zip(&got).enumerate() {
                if w != g {
                    out.push(mismatch(format!("char:{}", CONTEXTS[i]), format!("U+{:04X}: expected {}, got {}", c, w, g)));
                }
            }
        }
        out
    });
}
