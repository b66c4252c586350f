//! The operator tables of the specification against those of the tree types.
use conform_common::*;
use crate::events::unop;
use easter::punc::{Assop, Binop, Logop, Precedence, ToOp, Unop};
use joker::lexer::Lexer;
use joker::token::Token;
use serde_json::Value;

/// The first token of a text, read where an operator may stand.
fn token(text: &str) -> Token {
    Lexer::new(text.chars()).read_token(true).unwrap()
}

fn precedence(s: &str) -> Option<u32> {
    s.parse::<Binop>().map(|o| o.precedence()).or(s.parse::<Logop>().map(|o| o.precedence())).ok()
}

fn check(case: &Value) -> Vec<Mismatch> {
    let mut out = Vec::new();
    let o = case.as_object().unwrap();
    if let Some(text) = o.get("op") {
        let text = st(text);
        let is = |k: &str| *get(case, k) == Value::Bool(true);
        let mut want = |kind: &str, got: Option<String>, expected: bool| {
            let ok = match got { Some(ref s) => expected && s == text, None => !expected };
            if !ok {
                out.push(mismatch(format!("op:{}", kind), format!("{:?} as {}: {:?}, expected {}", text, kind, got, expected)));
            }
        };
        want("binary", text.parse::<Binop>().ok().map(|o| format!("{}", o)), is("binary"));
        want("logical", text.parse::<Logop>().ok().map(|o| format!("{}", o)), is("logical"));
        want("assign", text.parse::<Assop>().ok().map(|o| format!("{}", o)), is("assign"));
        want("prefix", text.parse::<Unop>().ok().map(|o| unop(&o.tag).to_string()), is("prefix"));
        if is("token") {
            let t = token(text);
            for &allow_in in &[true, false] {
                want("token:binary", t.to_binop(allow_in).map(|o| format!("{}", o)), is("binary") && (allow_in || text != "in"));
            }
            want("token:logical", t.to_logop().map(|o| format!("{}", o)), is("logical"));
            want("token:assign", t.to_assop().map(|o| format!("{}", o)), is("assign"));
            for l in [t.to_binop(true).map(|o| o.location), t.to_logop().map(|o| o.location), t.to_assop().map(|o| o.location)].iter().filter_map(|l| *l) {
                if l != Some(t.location) {
                    want("token:place", Some(format!("{:?}", l)), false);
                }
            }
        }
    } else {
        let (a, b) = (st(get(case, "a")), st(get(case, "b")));
        match (precedence(a), precedence(b)) {
            (Some(p), Some(q)) => {
                if (p > q) != (*get(case, "tighter") == Value::Bool(true)) || (p == q) != (*get(case, "same") == Value::Bool(true)) {
                    out.push(mismatch("op:precedence", format!("{} has precedence {}, {} has {}", a, p, b, q)));
                }
            }
            _ => out.push(mismatch("op:precedence", format!("{} or {} has no precedence", a, b))),
        }
    }
    out
}

pub fn replay(files: &[String], only: Option<usize>) {
    let mut cases = Vec::new();
    for f in files {
        cases.extend(load_lazy(f));
    }
    run_cases(&cases, only, check);
}
