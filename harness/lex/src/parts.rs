//! The questions of the specification (Parts) put to the real types.
use conform_common::*;
use crate::real::{number_source, spec_number, spec_posn};
use joker::error::Error;
use joker::lexer::Lexer;
use joker::token::*;
use joker::track::{span, Posn, Span, TrackingMut, TrackingRef, Untrack};
use joker::word::{Name, Reserved};
use serde_json::Value;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use unjson::error as jerr;
use unjson::ty::{Ty, TyOf};

fn place(v: &Value) -> Posn {
    let (o, l, c) = spec_posn(v);
    Posn { offset: o as u32, line: l as u32, column: c as u32 }
}

fn maybe_span(v: &Value) -> Option<Span> {
    arr(v).get(0).map(|x| Span { start: place(get(x, "s")), end: place(get(x, "e")) })
}

fn exponent(v: &Value) -> Option<Exp> {
    let v = arr(v);
    if v.is_empty() {
        return None;
    }
    Some(Exp {
        e: if st(&v[0]) == "l" { CharCase::LowerCase } else { CharCase::UpperCase },
        sign: match st(&v[1]) { "+" => Some(Sign::Plus), "-" => Some(Sign::Minus), _ => None },
        value: text(&v[2]),
    })
}

/// The sources a specification source stands for: an empty fraction may be there or not.
fn sources(v: &Value) -> Vec<NumberSource> {
    let a = arr(v);
    match st(&a[0]) {
        "DecimalInt" => vec![NumberSource::DecimalInt(text(&a[1]), exponent(&a[2]))],
        "RadixInt" => {
            let case = match st(&a[2]) { "l" => Some(CharCase::LowerCase), "u" => Some(CharCase::UpperCase), _ => None };
            let r = match (int(&a[1]), case) {
                (2, Some(c)) => Radix::Bin(c),
                (8, c) => Radix::Oct(c),
                (16, Some(c)) => Radix::Hex(c),
                _ => panic!("unknown radix {}", v),
            };
            vec![NumberSource::RadixInt(r, text(&a[3]))]
        }
        _ => {
            let int = arr(&a[1]).get(0).map(text);
            let frac = text(&a[2]);
            let mut fs = vec![Some(frac.clone())];
            if frac.is_empty() {
                fs.push(None);
            }
            fs.into_iter().map(|f| NumberSource::Float(int.clone(), f, exponent(&a[3]))).collect()
        }
    }
}

fn datum(v: &Value) -> TokenData {
    let a = arr(v);
    let (k, x, y) = (st(&a[0]), st(&a[1]), st(&a[2]));
    match k {
        "number" => TokenData::Number(NumberLiteral {
            source: if y.is_empty() { None } else { Some(NumberSource::DecimalInt(y.to_string(), None)) },
            value: x.parse().unwrap(),
        }),
        "string" => TokenData::String(StringLiteral { source: if y.is_empty() { None } else { Some(y.to_string()) }, value: x.to_string() }),
        "regexp" => TokenData::RegExp(RegExpLiteral { pattern: x.to_string(), flags: y.chars().collect() }),
        "name" => TokenData::Identifier(Name::from(x.to_string())),
        "eof" => TokenData::EOF,
        "word" => TokenData::Reserved(reserved(x)),
        "punct" => if x == "/" { TokenData::Slash } else { TokenData::SlashAssign },
        _ => panic!("unknown datum {}", v),
    }
}

fn reserved(x: &str) -> Reserved {
    match Lexer::new(x.chars()).read_token(false) {
        Ok(Token { value: TokenData::Reserved(r), .. }) => r,
        r => panic!("{} is read as {:?}", x, r),
    }
}

fn token(v: &Value) -> Token {
    let mut t = Token::new(place(get(v, "s")), place(get(v, "e")), datum(get(v, "v")));
    t.newline = *get(v, "n") == Value::Bool(true);
    t
}

/// A structure made of everything the library knows how to forget the locations of.
#[derive(Clone, Debug, PartialEq)]
enum Tree {
    Span(Option<Span>),
    Flag(bool),
    RegExp(RegExpLiteral),
    Str(StringLiteral),
    Num(NumberLiteral),
    Opt(Option<Box<Tree>>),
    Boxed(Box<Tree>),
    Vec(Vec<Tree>),
}

impl Untrack for Tree {
    fn untrack(&mut self) {
        match *self {
            Tree::Span(ref mut x) => x.untrack(),
            Tree::Flag(ref mut x) => x.untrack(),
            Tree::RegExp(ref mut x) => x.untrack(),
            Tree::Str(ref mut x) => x.untrack(),
            Tree::Num(ref mut x) => x.untrack(),
            Tree::Opt(ref mut x) => x.untrack(),
            Tree::Boxed(ref mut x) => x.untrack(),
            Tree::Vec(ref mut x) => x.untrack(),
        }
    }
}

fn tree(v: &Value) -> Tree {
    let a = arr(v);
    let kid = || Box::new(tree(&arr(&a[1])[0]));
    match st(&a[0]) {
        "span" => Tree::Span(maybe_span(&a[1])),
        "flag" => Tree::Flag(a[1] == Value::Bool(true)),
        "text" => match st(&a[1]) {
            "regexp" => Tree::RegExp(RegExpLiteral { pattern: "a".to_string(), flags: vec!['i', 'g'] }),
            "string" => Tree::Str(StringLiteral { source: Some("'a'".to_string()), value: "a".to_string() }),
            _ => Tree::Num(NumberLiteral { source: Some(NumberSource::DecimalInt("1".to_string(), None)), value: 1.0 }),
        },
        "opt" => Tree::Opt(if arr(&a[1]).is_empty() { None } else { Some(kid()) }),
        "box" => Tree::Boxed(kid()),
        _ => Tree::Vec(arr(&a[1]).iter().map(tree).collect()),
    }
}

/// Literals compare by value, so how they were written is looked at separately.
fn writing(t: &Tree, out: &mut Vec<String>) {
    match *t {
        Tree::Str(ref x) => out.push(format!("{:?} {:?}", x.source, x.value)),
        Tree::Num(ref x) => out.push(format!("{:?} {:?}", x.source, x.value)),
        Tree::RegExp(ref x) => out.push(format!("{:?} {:?}", x.pattern, x.flags)),
        Tree::Opt(Some(ref x)) | Tree::Boxed(ref x) => writing(x, out),
        Tree::Vec(ref xs) => for x in xs { writing(x, out) },
        _ => {}
    }
}

fn lex_error(kind: &str, arg: &Value) -> Error {
    let c = || std::char::from_u32(int(arg) as u32).unwrap();
    match kind {
        "IncompleteWordEscape" => Error::IncompleteWordEscape(Some(c())),
        "UnterminatedComment" => Error::UnterminatedComment,
        "UnterminatedRegExp" => Error::UnterminatedRegExp(Some(c())),
        "MissingExponent" => Error::MissingExponent(Some(c())),
        "UnterminatedString" => Error::UnterminatedString(Some(c())),
        "MissingBinaryDigits" => Error::MissingBinaryDigits,
        "MissingOctalDigits" => Error::MissingOctalDigits,
        "MissingHexDigits" => Error::MissingHexDigits,
        "IllegalChar" => Error::IllegalChar(c()),
        "InvalidDigit" => Error::InvalidDigit(c()),
        "IllegalUnicode" => Error::IllegalUnicode(int(arg) as u32),
        "IdAfterNumber" => Error::IdAfterNumber(c()),
        "DigitAfterNumber" => Error::DigitAfterNumber(c()),
        "ReservedWordWithEscapes" => Error::ReservedWordWithEscapes(reserved(st(arg))),
        k => panic!("unknown error {}", k),
    }
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn json_type(s: &str) -> Ty {
    let v: Value = match s {
        "null" => Value::Null,
        "boolean" => Value::Bool(true),
        "string" => Value::String(String::new()),
        "number" => Value::I64(1),
        "object" => serde_json::from_str("{}").unwrap(),
        _ => serde_json::from_str("[]").unwrap(),
    };
    v.ty()
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn check(case: &Value) -> Vec<Mismatch> {
    let mut out = Vec::new();
    let tell = |out: &mut Vec<Mismatch>, tag: &str, ok: bool, detail: String| {
        if !ok {
            out.push(mismatch(tag.to_string(), detail));
        }
    };
    let yes = |k: &str| *get(case, k) == Value::Bool(true);
    match st(get(case, "q")) {
        "name" => {
            let t = st(get(case, "text"));
            let want = arr(get(case, "name"));
            let name = Name::from(t.to_string());
            let atom = name.atom().map(|a| a.name());
            let expected = if st(&want[0]) == "atom" { Some(st(&want[1])) } else { None };
            tell(&mut out, "name:atom", atom == expected && (expected.is_some() == matches!(name, Name::Atom(_))), format!("{:?} is the name {:?} with atom {:?}", t, name, atom));
            tell(&mut out, "name:text", name.as_ref() == t, format!("the name {:?} of {:?} spells {:?}", name, t, name.as_ref() as &str));
            let again = Name::from(name.clone().into_string());
            tell(&mut out, "name:text", again == name && name.clone().into_string() == t, format!("the name {:?} of {:?} becomes {:?}", name, t, name.clone().into_string()));
            // what the tokenizer makes of a text that is one plain word
            if let Ok(Token { value, location, .. }) = Lexer::new(t.chars()).read_token(false) {
                if location.start.offset == 0 && location.end.offset as usize == t.chars().count() && !t.contains('\\') {
                    match value {
                        TokenData::Reserved(r) => tell(&mut out, "name:reserved", r.name() == t && r.into_string() == t && reserved(r.name()) == r, format!("the reserved word {:?} is named {:?}", t, r.name())),
                        TokenData::Identifier(n) => tell(&mut out, "name:token", n == name, format!("{:?} is read as {:?} but named {:?}", t, n, name)),
                        _ => {}
                    }
                }
            }
        }
        "names" => {
            let (a, b) = (Name::from(st(get(case, "a")).to_string()), Name::from(st(get(case, "b")).to_string()));
            tell(&mut out, "name:equal", (a == b) == yes("same") && (a != b || hash(&a) == hash(&b)), format!("{:?} == {:?}: {}", a, b, a == b));
        }
        "source" => {
            let want = spec_number(get(case, "value"));
            for src in sources(get(case, "source")) {
                let got = src.value();
                tell(&mut out, "source:value", got.to_bits() == want.to_bits(), format!("{:?} denotes {:?}, expected {:?}", src, got, want));
                match src.clone().into_token_data() {
                    TokenData::Number(NumberLiteral { source: Some(s), value }) => {
                        tell(&mut out, "source:token", value.to_bits() == want.to_bits() && s == src && same(&number_source(&s), get(case, "source")), format!("the literal of {:?} is {:?} {:?}", src, s, value))
                    }
                    t => tell(&mut out, "source:token", false, format!("the literal of {:?} is {:?}", src, t)),
                }
            }
        }
        "equal" => {
            let (a, b) = (datum(get(case, "a")), datum(get(case, "b")));
            tell(&mut out, "equal:literal", (a == b) == yes("same") && (a != b) != yes("same"), format!("{} == {}: {}", get(case, "a"), get(case, "b"), a == b));
            tell(&mut out, "equal:string", a.is_string() == (st(&arr(get(case, "a"))[0]) == "string"), format!("{} is a string: {}", get(case, "a"), a.is_string()));
        }
        "tokens" => {
            let (a, b) = (token(get(case, "a")), token(get(case, "b")));
            tell(&mut out, "equal:token", (a == b) == yes("same"), format!("{} == {}: {}", get(case, "a"), get(case, "b"), a == b));
        }
        "join" => {
            let (l, r, want) = (maybe_span(get(case, "l")), maybe_span(get(case, "r")), maybe_span(get(case, "out")));
            tell(&mut out, "span:join", span(&l, &r) == want && span(&&l, &&r) == want, format!("{:?} joined with {:?} is {:?}", l, r, span(&l, &r)));
            let mut slot = l;
            *slot.tracking_mut() = r;
            tell(&mut out, "span:tracking", slot == r && *slot.tracking_ref() == r && *l.tracking_ref() == l && *(&&l).tracking_ref() == l, format!("{:?} set to {:?} is {:?}", l, r, slot));
        }
        "show" => {
            let s = Span { start: place(get(case, "s")), end: place(get(case, "e")) };
            let shown = arr(get(case, "shown"));
            let posn = |v: &Value| { let v = arr(v); format!("{}:{}", int(&v[0]), int(&v[1])) };
            tell(&mut out, "span:show", format!("{:?}", s.start) == posn(&shown[0]) && format!("{:?}", s.end) == posn(&shown[1]), format!("{} and {} are shown as {:?} and {:?}", get(case, "s"), get(case, "e"), s.start, s.end));
            tell(&mut out, "span:show", format!("{:?}", s) == format!("{}..{}", posn(&shown[0]), posn(&shown[1])), format!("{} is shown as {:?}", case_text(case), s));
            let t = Token::new(s.start, s.end, TokenData::EOF);
            tell(&mut out, "span:token", t.location == s && !t.newline && t.value == TokenData::EOF, format!("a new token at {:?} is {:?}", s, t));
            let o = Posn::origin();
            tell(&mut out, "span:origin", (o.offset, o.line, o.column) == (0, 0, 0), format!("the origin is {:?} {}", o, o.offset));
        }
        "forget" => {
            let before = tree(get(case, "tree"));
            let want = tree(get(case, "out"));
            let mut got = before.clone();
            got.untrack();
            let (mut a, mut b) = (vec![], vec![]);
            writing(&got, &mut a);
            writing(&want, &mut b);
            tell(&mut out, "forget", got == want && a == b, format!("{:?} becomes {:?} {:?}", before, got, a));
        }
        "message" | "unicode" | "reserved" => {
            let e = lex_error(st(get(case, "kind")), get(case, "arg"));
            let said = format!("{}", e);
            #[allow(deprecated)]
            let described = std::error::Error::description(&e).to_string();
            tell(&mut out, "message:joker", described.contains(st(get(case, "names"))) && said.starts_with(&described), format!("{:?} is described as {:?} {:?}", e, described, said));
            let part = match st(get(case, "q")) {
                "unicode" => Some(format!("{:x}", int(get(case, "arg")))),
                "reserved" => Some(st(get(case, "arg")).to_string()),
                _ => arr(get(case, "tells")).get(0).map(|c| format!("{:?}", std::char::from_u32(int(c) as u32).unwrap())),
            };
            if let Some(p) = part {
                tell(&mut out, "message:joker", said[described.len()..].to_lowercase().contains(&p.to_lowercase()), format!("{:?} says {:?}, not mentioning {}", e, said, p));
            }
        }
        "json" => {
            let (a, b) = (st(get(case, "a")), st(get(case, "b")));
            let num = |s: &str| s.parse::<usize>().unwrap();
            let (got, want, parts): (jerr::Error, jerr::Error, Vec<String>) = match st(get(case, "kind")) {
                "TypeMismatch" => {
                    let want = jerr::Error::TypeMismatch(leak(a), json_type(b));
                    tell(&mut out, "message:type", format!("{}", json_type(b)) == b, format!("{} is called {}", b, json_type(b)));
                    (jerr::type_error::<()>(leak(a), json_type(b)).unwrap_err(), want, vec![a.to_string(), b.to_string()])
                }
                "MissingField" => (jerr::field_error::<()>(leak(a)).unwrap_err(), jerr::Error::MissingField(leak(a)), vec![format!("'{}'", a)]),
                "IllegalString" => (jerr::string_error::<()>(leak(a), b.to_string()).unwrap_err(), jerr::Error::IllegalString(leak(a), b.to_string()), vec![a.to_string(), format!("{:?}", b)]),
                "IndexOutOfBounds" => (jerr::index_error::<()>(num(a), num(b)).unwrap_err(), jerr::Error::IndexOutOfBounds(num(a), num(b)), vec![format!("index {}", b), format!("length {}", a)]),
                _ => (jerr::array_error::<()>(num(a), num(b)).unwrap_err(), jerr::Error::WrongArrayLength(num(a), num(b)), vec![format!("expected array of length {}", a), format!("got array of length {}", b)]),
            };
            tell(&mut out, "message:made", got == want, format!("made {:?} instead of {:?}", got, want));
            let said = format!("{}", want);
            let mut rest = &said[..];
            for p in &parts {
                match rest.find(&p[..]) {
                    Some(i) => rest = &rest[i + p.len()..],
                    None => tell(&mut out, "message:unjson", false, format!("{:?} says {:?}, not mentioning {} in place", want, said, p)),
                }
            }
        }
        q => panic!("unknown question {}", q),
    }
    out
}

fn case_text(v: &Value) -> String {
    serde_json::to_string(v).unwrap()
}

pub fn replay(files: &[String], only: Option<usize>) {
    let mut cases = Vec::new();
    for f in files {
        cases.extend(load_lazy(f));
    }
    run_cases(&cases, only, check);
}
