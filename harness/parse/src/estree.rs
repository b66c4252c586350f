//! ESTree documents of the specification, read by the real reader.
use crate::events::{Lin, Payload};
use crate::layout::lay;
use crate::program::parse;
use conform_common::*;
use easter::stmt::Script;
use estree::error::Error;
use estree::{ESTreeScript, IntoScript};
use joker::track::Untrack;
use serde_json::Value;
use unjson::ty::Object;

/// A tagged value of the specification as JSON.
pub fn plain(v: &Value) -> Value {
    let a = arr(v);
    match st(&a[0]) {
        "o" => Value::Object(match a[1] {
            Value::Object(ref o) => o.iter().map(|(k, v)| (k.clone(), plain(v))).collect(),
            _ => Object::new(),
        }),
        "a" => Value::Array(arr(&a[1]).iter().map(plain).collect()),
        "s" => a[1].clone(),
        "n" => serde_json::from_str(st(&a[1])).unwrap(),
        "b" => a[1].clone(),
        "z" => Value::Null,
        t => panic!("unknown value {}", t),
    }
}

fn read(doc: &Value) -> Result<Result<Script, Error>, String> {
    let o = match *doc {
        Value::Object(ref o) => o.clone(),
        _ => panic!("a document is an object"),
    };
    observe(|| o.into_script())
}

fn lin(s: &Script) -> Lin {
    let mut l = Lin::default();
    l.script(s);
    l
}

fn same_payload(text: &str, got: &Payload) -> bool {
    match *got {
        Payload::Text(ref t) => t == text,
        Payload::Number(v) => text.parse::<f64>().ok() == Some(v),
        Payload::Str(ref v, _) => v == text,
        Payload::RegExp(ref p, ref f) => format!("/{}/{}", p, f.iter().cloned().collect::<String>()) == text,
    }
}

fn compare(want: &[Value], got: &Lin, what: &str, out: &mut Vec<Mismatch>) {
    for (i, w) in want.iter().enumerate() {
        let w = arr(w);
        let (name, text) = (st(&w[0]), st(&w[1]));
        match got.events.get(i) {
            Some(g) if g.name == name && same_payload(text, &g.payload) => {}
            Some(g) => {
                out.push(mismatch(format!("{}:{}", what, name), format!("event {}: expected {} {:?}, got {} {:?}", i, name, text, g.name, g.payload)));
                return;
            }
            None => {
                out.push(mismatch(format!("{}:{}", what, name), format!("the tree ends where {} {} is expected", name, text)));
                return;
            }
        }
    }
    if let Some(g) = got.events.get(want.len()) {
        out.push(mismatch(format!("{}:extra:{}", what, g.name), format!("the tree goes on with {} {:?}", g.name, g.payload)));
    }
}

fn parts(e: &Error) -> (&'static str, String) {
    use unjson::error::Error as J;
    match *e {
        Error::Json(J::TypeMismatch(_, t)) => ("TypeMismatch", t.to_string()),
        Error::Json(J::MissingField(f)) => ("MissingField", f.to_string()),
        Error::Json(J::WrongArrayLength(n, _)) => ("WrongArrayLength", n.to_string()),
        Error::Json(J::IllegalString(_, ref s)) => ("IllegalString", s.clone()),
        Error::Json(J::IndexOutOfBounds(_, _)) => ("IndexOutOfBounds", String::new()),
        Error::InvalidTypeTag(ref s) => ("InvalidTypeTag", s.clone()),
        Error::NodeTypeMismatch(_, ref t) => ("NodeTypeMismatch", t.to_string()),
        Error::UnexpectedInitializer(_) => ("UnexpectedInitializer", String::new()),
        Error::InvalidLHS(f) => ("InvalidLHS", f.to_string()),
        Error::UninitializedPattern(_) => ("UninitializedPattern", String::new()),
    }
}

pub fn check(case: &Value) -> Vec<Mismatch> {
    let mut out = Vec::new();
    let doc = plain(get(case, "doc"));
    let got = match read(&doc) {
        Ok(g) => g,
        Err(p) => {
            out.push(mismatch("panic", p));
            return out;
        }
    };
    let faults: Vec<(&str, &str)> = case.as_object().unwrap().get("faults").map(|f| arr(f).iter().map(|f| { let f = arr(f); (st(&f[1]), st(&f[2])) }).collect()).unwrap_or_default();
    match got {
        Ok(ref s) => {
            let l = lin(s);
            if faults.is_empty() {
                compare(arr(get(case, "out")), &l, "tree", &mut out);
            } else {
                out.push(mismatch(format!("accepts:{}", faults[0].0), format!("accepted in spite of {:?}: {}", faults, doc)));
            }
            if !l.located.is_empty() {
                out.push(mismatch("located", format!("a tree read from a document has locations at {:?}", l.located)));
            }
        }
        Err(ref e) => {
            let (kind, detail) = parts(e);
            if faults.is_empty() {
                out.push(mismatch(format!("rejects:{}", kind), format!("rejected with {}: {}", e, doc)));
            } else if !faults.iter().any(|f| f.0 == kind && f.1 == detail) {
                out.push(mismatch(format!("errkind:{}", faults[0].0), format!("reported {} {:?} ({}) instead of one of {:?}: {}", kind, detail, e, faults, doc)));
            }
        }
    }
    // the same through the deserializer, from text
    let text = serde_json::to_string(&doc).unwrap();
    match observe(|| serde_json::from_str::<ESTreeScript>(&text)) {
        Err(p) => out.push(mismatch("panic", p)),
        Ok(r) => match (&r, &got) {
            (&Ok(_), &Ok(_)) => {}
            (&Err(ref a), &Err(ref b)) => {
                if !a.to_string().contains(&b.to_string()) {
                    out.push(mismatch("serde:message", format!("{} but {}", a, b)));
                }
            }
            _ => out.push(mismatch("serde:verdict", format!("from text: {:?}", r.map(|_| ()).map_err(|e| e.to_string())))),
        },
    }
    if case.as_object().unwrap().contains_key("toks") {
        program(case, got.ok(), &mut out);
    }
    out
}

/// The document of a program says what parsing the program says.
fn program(case: &Value, read: Option<Script>, out: &mut Vec<Mismatch>) {
    let toks: Vec<(String, bool)> = arr(get(case, "toks")).iter().map(|t| { let a = arr(t); (st(&a[0]).to_string(), a[1] == Value::Bool(true)) }).collect();
    let laid = lay(&toks, 0);
    let parsed = match parse(st(get(case, "entry")), &laid.text) {
        Ok(Ok((t, _))) => t,
        Ok(Err(e)) => {
            out.push(mismatch("parse:reject", format!("{:?} for {:?}", e, laid.text)));
            return;
        }
        Err(p) => {
            out.push(mismatch("panic", p));
            return;
        }
    };
    let read = match read { Some(r) => r, None => return };
    if *get(case, "alike") != Value::Bool(true) {
        return;
    }
    let (a, b) = (lin(&read), parsed.lin());
    let bare = |l: &Lin| l.events.iter().map(|e| {
        let p = match e.payload {
            Payload::Str(ref v, _) => Payload::Str(v.clone(), None),
            Payload::Text(_) if e.name == "semicolon" => Payload::Text(String::new()),
            ref p => p.clone(),
        };
        (e.name, p)
    }).collect::<Vec<_>>();
    let (a, b) = (bare(&a), bare(&b));
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        out.push(mismatch(format!("same:{}", b.get(i).or(a.get(i)).map_or("", |e| e.0)),
                          format!("event {} of {:?}: read {:?}, parsed {:?}", i, laid.text, a.get(i), b.get(i))));
        return;
    }
    // as values, once places and inserted semicolons are given up
    if let crate::program::Tree::Script(ref s) = parsed {
        let (mut x, mut y) = (read.clone(), s.clone());
        x.untrack();
        y.untrack();
        if x != y && !out_of_scope(s) {
            out.push(mismatch("same:value", format!("{:?} is not {:?} for {:?}", x, y, laid.text)));
        }
    }
}

/// `new` without arguments has no document of its own.
fn out_of_scope(s: &Script) -> bool {
    format!("{:?}", s).contains("New(") && format!("{:?}", s).contains("None)")
}

pub fn replay(files: &[String], only: Option<usize>) {
    let mut cases = Vec::new();
    for f in files {
        cases.extend(load_lazy(f));
    }
    run_cases(&cases, only, check);
}
