//! What the real tokenizer did, in the vocabulary of the specification.
use conform_common::*;
use joker::error::Error;
use joker::token::{CharCase, Exp, NumberSource, Radix, Sign, Token, TokenData};
use joker::track::Posn;
use joker::word::Name;
use serde_json::Value;
use std::collections::BTreeMap;

pub fn s(x: &str) -> Value {
    Value::String(x.to_string())
}

pub fn n(x: u64) -> Value {
    Value::U64(x)
}

pub fn list(xs: Vec<Value>) -> Value {
    Value::Array(xs)
}

fn exp(e: &Option<Exp>) -> Value {
    match *e {
        None => list(vec![]),
        Some(ref e) => list(vec![
            s(match e.e { CharCase::LowerCase => "l", CharCase::UpperCase => "u" }),
            s(match e.sign { None => "", Some(Sign::Plus) => "+", Some(Sign::Minus) => "-" }),
            codes(&e.value),
        ]),
    }
}

fn cc(c: CharCase) -> Value {
    s(match c { CharCase::LowerCase => "l", CharCase::UpperCase => "u" })
}

fn opt(x: &Option<String>) -> Value {
    list(x.iter().map(|x| codes(x)).collect())
}

pub fn number_source(src: &NumberSource) -> Value {
    match *src {
        NumberSource::DecimalInt(ref d, ref e) => list(vec![s("DecimalInt"), codes(d), exp(e)]),
        NumberSource::RadixInt(r, ref d) => {
            let (r, c) = match r {
                Radix::Bin(c) => (2, cc(c)),
                Radix::Oct(Some(c)) => (8, cc(c)),
                Radix::Oct(None) => (8, s("legacy")),
                Radix::Hex(c) => (16, cc(c)),
            };
            list(vec![s("RadixInt"), n(r), c, codes(d)])
        }
        // An absent and an empty fraction are the same text: "1." against "1.".
        NumberSource::Float(ref i, ref f, ref e) => {
            list(vec![s("Float"), opt(i), codes(f.as_ref().map(|f| &f[..]).unwrap_or("")), exp(e)])
        }
    }
}

/// Kind and payload of a token; numbers carry their value separately.
pub fn payload(t: &TokenData) -> (&'static str, Value, Option<f64>) {
    match *t {
        TokenData::Reserved(r) => ("W", s(r.name()), None),
        TokenData::Identifier(Name::Atom(a)) => ("A", s(a.name()), None),
        TokenData::Identifier(Name::String(ref x)) => ("I", codes(x), None),
        TokenData::Number(ref x) => {
            ("N", x.source.as_ref().map(number_source).unwrap_or(Value::Null), Some(x.value))
        }
        TokenData::String(ref x) => {
            ("S", list(vec![x.source.as_ref().map(|x| codes(x)).unwrap_or(Value::Null), codes(&x.value)]), None)
        }
        TokenData::RegExp(ref x) => {
            let flags: String = x.flags.iter().cloned().collect();
            ("R", list(vec![codes(&x.pattern), codes(&flags)]), None)
        }
        TokenData::EOF => ("E", s("EOF"), None),
        ref p => ("P", s(&format!("{:?}", p)), None),
    }
}

pub fn posn(p: &Posn) -> (i64, i64, i64) {
    (p.offset as i64, p.line as i64, p.column as i64)
}

pub fn spec_posn(v: &Value) -> (i64, i64, i64) {
    (int(get(v, "o")), int(get(v, "l")), int(get(v, "c")))
}

pub fn posn_value(p: &Posn) -> Value {
    obj(vec![("o", n(p.offset as u64)), ("l", n(p.line as u64)), ("c", n(p.column as u64))])
}

pub fn token_value(t: &Token) -> Value {
    let (k, v, _) = payload(&t.value);
    obj(vec![("k", s(k)), ("v", v), ("s", posn_value(&t.location.start)), ("e", posn_value(&t.location.end)),
             ("n", Value::Bool(t.newline))])
}

fn opt_char(c: &Option<char>) -> i64 {
    c.map(|c| c as i64).unwrap_or(-1)
}

/// <<kind, argument>> of an error, the argument being a code point, -1 or a word.
pub fn error(e: &Error) -> (String, Value) {
    let (k, a) = match *e {
        Error::IncompleteWordEscape(ref c) => ("IncompleteWordEscape", opt_char(c)),
        Error::UnterminatedComment => ("UnterminatedComment", -1),
        Error::UnterminatedRegExp(ref c) => ("UnterminatedRegExp", opt_char(c)),
        Error::MissingExponent(ref c) => ("MissingExponent", opt_char(c)),
        Error::UnterminatedString(ref c) => ("UnterminatedString", opt_char(c)),
        Error::MissingBinaryDigits => ("MissingBinaryDigits", -1),
        Error::MissingOctalDigits => ("MissingOctalDigits", -1),
        Error::MissingHexDigits => ("MissingHexDigits", -1),
        Error::IllegalChar(c) => ("IllegalChar", c as i64),
        Error::InvalidDigit(c) => ("InvalidDigit", c as i64),
        Error::IllegalUnicode(u) => ("IllegalUnicode", std::cmp::min(u, 0x110000) as i64),
        Error::IdAfterNumber(c) => ("IdAfterNumber", c as i64),
        Error::DigitAfterNumber(c) => ("DigitAfterNumber", c as i64),
        Error::ReservedWordWithEscapes(w) => return ("ReservedWordWithEscapes".to_string(), s(w.name())),
    };
    (k.to_string(), Value::I64(a))
}

/// The value a number denotes, from the specification's canonical form.
pub fn spec_number(v: &Value) -> f64 {
    let v = arr(v);
    let e = int(&v[2]);
    if st(&v[0]) == "dec" {
        let d = text(&v[1]);
        if d.is_empty() { 0.0 } else { format!("{}e{}", d, e).parse().unwrap() }
    } else {
        let m = arr(&v[1]).iter().fold(0u64, |m, b| (m << 1) | int(b) as u64);
        if m == 0 { 0.0 } else if e > 1023 { std::f64::INFINITY } else { (m as f64) * 2f64.powi(e as i32) }
    }
}
