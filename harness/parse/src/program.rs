//! Outcomes of the parser specification, replayed on the real parser.
use crate::events::{Event, Lin, Payload, Place};
use crate::layout::{denoted, escaped, lay, respell, Laid, LAYOUTS};
use conform_common::*;
use easter::stmt::{Module, Script};
use esprit::error::Error;
use esprit::Program;
use joker::track::{Span, TrackingMut, TrackingRef, Untrack};
use serde_json::Value;

#[derive(Clone, PartialEq, Debug)]
pub enum Tree {
    Script(Script),
    Module(Module),
}

impl Tree {
    pub fn lin(&self) -> Lin {
        self.lin_in(Lin::default())
    }
    pub fn lin_in(&self, mut l: Lin) -> Lin {
        match *self {
            Tree::Script(ref s) => l.script(s),
            Tree::Module(ref m) => l.module(m),
        }
        l
    }
    pub fn untracked(&self) -> Tree {
        let mut t = self.clone();
        t.untrack();
        t
    }
    pub fn untrack(&mut self) {
        match *self {
            Tree::Script(ref mut s) => s.untrack(),
            Tree::Module(ref mut m) => m.untrack(),
        }
    }
}

pub type Outcome = Result<(Tree, Option<Program>), Error>;

pub fn parse(entry: &str, text: &str) -> Result<Outcome, String> {
    observe(|| match entry {
        "script" => esprit::script(text).map(|s| (Tree::Script(s), None)),
        "strict" => esprit::strict(text).map(|s| (Tree::Script(s), None)),
        "module" => esprit::module(text).map(|m| (Tree::Module(m), None)),
        "program" => esprit::program(text).map(|p| {
            let t = match p {
                Program::Ambiguous(_, ref s) => Tree::Script(s.clone()),
                Program::Module(ref m) => Tree::Module(m.clone()),
            };
            (t, Some(p))
        }),
        _ => panic!("entry {}", entry),
    })
}

/// Kind, span and text (when the error has them).
pub fn error_parts(e: &Error) -> (&'static str, Option<Span>, Option<String>) {
    match *e {
        Error::UnexpectedToken(ref t) => ("UnexpectedToken", Some(t.location), None),
        Error::FailedASI(ref t) => ("FailedASI", Some(t.location), None),
        Error::LexError(_) => ("LexError", None, None),
        Error::TopLevelReturn(_) => ("TopLevelReturn", None, None),
        Error::IllegalBreak(ref t) => ("IllegalBreak", Some(t.location), None),
        Error::IllegalContinue(ref t) => ("IllegalContinue", Some(t.location), None),
        Error::InvalidLabel(ref id) => ("InvalidLabel", id.location, Some(id.name.as_ref().to_string())),
        Error::InvalidLabelType(ref id) => ("InvalidLabelType", id.location, Some(id.name.as_ref().to_string())),
        Error::ContextualKeyword(s, a) => ("ContextualKeyword", Some(s), Some(a.name().to_string())),
        Error::IllegalStrictBinding(s, a) => ("IllegalStrictBinding", Some(s), Some(a.name().to_string())),
        Error::DuplicateDefault(ref t) => ("DuplicateDefault", Some(t.location), None),
        Error::StrictWith(ref t) => ("StrictWith", Some(t.location), None),
        Error::ThrowArgument(ref t) => ("ThrowArgument", Some(t.location), None),
        Error::OrphanTry(ref t) => ("OrphanTry", Some(t.location), None),
        Error::InvalidLHS(_, _) => ("InvalidLHS", None, None),
        Error::UnsupportedFeature(f) => ("UnsupportedFeature", None, Some(f.to_string())),
        _ => ("Other", None, None),
    }
}

/// Errors whose place is that of a token. `throw` reports its keyword.
fn placed(kind: &str) -> bool {
    match kind {
        "InvalidLHS" | "TopLevelReturn" | "UnsupportedFeature" => false,
        _ => true,
    }
}

fn decode_string(text: &str) -> String {
    text[1..text.len() - 1].replace("\\x20", " ")
}
fn decode_regexp(text: &str) -> (String, Vec<char>) {
    let end = text.rfind('/').unwrap();
    (text[1..end].to_string(), text[end + 1..].chars().collect())
}

fn same_payload(name: &str, text: &str, got: &Payload) -> bool {
    match *got {
        Payload::Text(ref t) => if escaped(text) { *t == denoted(text) } else { t == text },
        Payload::Number(v) => text.parse::<f64>().ok() == Some(v),
        Payload::Str(ref v, ref source) => {
            *v == decode_string(text) && (name != "directive" || source.as_ref().map(|s| &s[..]) == Some(text))
        }
        Payload::RegExp(ref p, ref f) => {
            let (p2, f2) = decode_regexp(text);
            *p == p2 && *f == f2
        }
    }
}

/// The events of an outcome with shared names.
pub fn compare_tree(spec: &[Value], lin: &Lin, laid: &Laid, out: &mut Vec<Mismatch>) {
    for (i, want) in spec.iter().enumerate() {
        let w = arr(want);
        let (name, text, idx) = (st(&w[0]), st(&w[1]), int(&w[2]) as usize);
        let got: &Event = match lin.events.get(i) {
            Some(g) => g,
            None => {
                out.push(mismatch(format!("tree:{}", name), format!("the tree ends where {} {} is expected", name, text)));
                return;
            }
        };
        if got.name != name || !same_payload(name, text, &got.payload) {
            let what = if got.name == name { name.to_string() } else { format!("{}", name) };
            out.push(mismatch(format!("tree:{}", what), format!("event {}: expected {} {:?}, got {} {:?}", i, name, text, got.name, got.payload)));
            return;
        }
        if idx == 0 {
            continue;
        }
        let span = laid.spans[idx - 1];
        match got.place {
            Place::Unrecorded => {}
            Place::Span(Some(s)) if s == span => {}
            Place::Start(Some(p)) if p == span.start => {}
            ref p => {
                out.push(mismatch(format!("loc:{}", name), format!("event {}: {} {:?} is at {:?} but its token at {:?} in {:?}", i, name, text, p, span, laid.text)));
            }
        }
    }
    if lin.events.len() > spec.len() {
        let g = &lin.events[spec.len()];
        out.push(mismatch(format!("tree:extra:{}", g.name), format!("the tree goes on with {} {:?}", g.name, g.payload)));
    }
}

pub fn tokens(case: &Value) -> Vec<(String, bool)> {
    arr(get(case, "toks")).iter().map(|t| { let a = arr(t); (st(&a[0]).to_string(), a[1] == Value::Bool(true)) }).collect()
}

/// Same structure, names, literals and operators; semicolons are given up on purpose.
fn same_shape(a: &Lin, b: &Lin) -> bool {
    a.events.len() == b.events.len()
        && a.events.iter().zip(&b.events).all(|(x, y)| x.name == y.name && (x.name == "semicolon" || x.payload == y.payload))
}

pub fn show(r: &Outcome) -> String {
    match *r {
        Ok(_) => "accepted".to_string(),
        Err(ref e) => { let s = format!("{:?}", e); s.chars().take(300).collect() }
    }
}

fn check_untrack(tree: &Tree, lin: &Lin, out: &mut Vec<Mismatch>) -> Tree {
    let once = tree.untracked();
    let l1 = once.lin();
    for kind in &l1.located {
        out.push(mismatch(format!("untrack:left:{}", kind), format!("a {} keeps its location", kind)));
        break;
    }
    if !same_shape(lin, &l1) {
        out.push(mismatch("untrack:changed", "erasing locations changed the tree"));
    }
    let twice = once.untracked();
    if twice != once || format!("{:?}", twice) != format!("{:?}", once) {
        out.push(mismatch("untrack:twice", "erasing locations a second time changed the tree"));
    }
    once
}

/// Text that follows a token at which parsing has already failed.
const SUFFIXES: &'static [&'static str] = &[" z", " )", " ;", "\n}", " function"];

/// A real outcome against the specification's.
pub fn judge(got: &Outcome, toks: &[(String, bool)], res: &str, err: &[Value], spec: &[Value], laid: &Laid, out: &mut Vec<Mismatch>) {
    match *got {
        Ok((ref tree, _)) => {
            if res != "accept" {
                out.push(mismatch(format!("accept:{}", st(&err[0])), format!("expected {:?}", err)));
            } else {
                compare_tree(spec, &tree.lin(), laid, out);
            }
        }
        Err(ref e) => {
            let (kind, span, text) = error_parts(e);
            if res == "accept" {
                out.push(mismatch(format!("reject:{}", kind), "expected a tree"));
            } else if kind != st(&err[0]) {
                out.push(mismatch(format!("errkind:{}", st(&err[0])), format!("expected {:?}", err)));
            } else {
                let idx = int(&err[2]) as usize;
                if placed(kind) && idx > 0 {
                    let want = laid.spans[idx - 1];
                    let eof = toks[idx - 1].0 == "EOF";
                    if span.map_or(true, |s| if eof { s.start.offset < want.start.offset } else { s != want }) {
                        out.push(mismatch(format!("errpos:{}", kind), format!("expected token {} at {:?}, reported at {:?}", st(&err[1]), want, span)));
                        // read on past the token at which it should have stopped, or stopped before it
                        match span {
                            Some(s) if s.start.offset > want.start.offset => out.push(mismatch(format!("accept:{}", kind), format!("token {} at {:?} was accepted", st(&err[1]), want))),
                            Some(s) if s.start.offset < want.start.offset => out.push(mismatch(format!("reject:{}", kind), format!("a token before {} at {:?} was refused", st(&err[1]), want))),
                            _ => {}
                        }
                    }
                }
                if let Some(t) = text {
                    let want = st(&err[1]);
                    if if escaped(want) { t != denoted(want) } else { t != want } {
                        out.push(mismatch(format!("errtext:{}", kind), format!("expected {:?}, got {}", err, t)));
                    }
                }
            }
        }
    }
}

pub fn check(case: &Value) -> Vec<Mismatch> {
    let mut out = Vec::new();
    let entry = st(get(case, "entry"));
    let toks = tokens(case);
    let res = st(get(case, "res"));
    let err = arr(get(case, "err"));
    let spec = arr(get(case, "out"));
    let mut first: Option<Tree> = None;
    // the specification's newlines only; then one more before every token where it makes no difference; then before some of them
    let free: Vec<usize> = arr(get(case, "free")).iter().map(|i| int(i) as usize - 1).collect();
    let with = |keep: &dyn Fn(usize) -> bool| {
        let mut t = toks.clone();
        for &i in &free { if keep(i) { t[i].1 = true; } }
        t
    };
    let turn = toks.len();
    let all = [with(&|_| false), with(&|_| true), with(&|i| (i + turn) % 3 == 0)];
    // what becomes of words spelt with an escape where the words themselves are restricted is left open
    let open = toks.iter().any(|t| escaped(&t.0)) && (entry != "script" || toks.iter().any(|t| t.0.contains("use strict")));
    for layout in 0..LAYOUTS + 3 {
        let laid = match layout {
            l if l == LAYOUTS + 2 => lay(&respell(&all[0]), 4),
            LAYOUTS => lay(&all[1], 0),
            l if l > LAYOUTS => lay(&all[2], 1 + turn % (LAYOUTS - 1)),
            l => lay(&all[0], l),
        };
        let pre = out.len();
        let got = match parse(entry, &laid.text) {
            Err(p) => {
                out.push(mismatch("panic", format!("{} {:?}: {}", entry, laid.text, p)));
                break;
            }
            Ok(r) => r,
        };
        if open {
            continue;
        }
        judge(&got, &toks, res, err, spec, &laid, &mut out);
        if layout < 2 && res == "accept" {
            if let Ok((ref tree, _)) = got {
                let once = check_untrack(tree, &tree.lin(), &mut out);
                match first {
                    None => first = Some(once),
                    Some(ref f) => if *f != once {
                        out.push(mismatch("untrack:layout", "trees of two layouts differ after erasing locations"));
                    },
                }
            }
        }
        if out.len() > pre {
            for m in &mut out[pre..] {
                m.detail = format!("{} {:?}: {}; got {}", entry, laid.text, m.detail, show(&got));
                if layout > 0 {
                    // the plain layout was read as specified, this one is not
                    m.tag = if m.tag.starts_with("loc:") || m.tag.starts_with("untrack:") { m.tag.clone() } else { format!("layout:{}", m.tag) };
                }
            }
            break;
        }
    }
    if out.is_empty() && !open && res == "error" && ["UnexpectedToken", "FailedASI"].contains(&st(&err[0])) && toks.last().map_or(false, |t| t.0 != "EOF") {
        let laid = lay(&toks, 0);
        let want = parse(entry, &laid.text);
        for s in SUFFIXES {
            let text = format!("{}{}", laid.text, s);
            let got = parse(entry, &text);
            let ok = match (&want, &got) {
                (&Ok(Err(ref a)), &Ok(Err(ref b))) => {
                    let ((k1, s1, _), (k2, s2, _)) = (error_parts(a), error_parts(b));
                    k1 == k2 && s1 == s2
                }
                _ => false,
            };
            if !ok {
                let shown = match got { Ok(ref r) => show(r), Err(ref p) => p.clone() };
                out.push(mismatch(if got.is_err() { "panic" } else { "errpos:suffix" }, format!("{} {:?}: expected the error before the suffix, got {}", entry, text, shown)));
                if let Ok(_) = got {
                    out.push(mismatch("accept:suffix", format!("{} {:?}: an error before the suffix was passed over", entry, text)));
                }
                break;
            }
        }
    }
    out.extend(check_entries(&lay(&toks, 0).text));
    out
}

/// The entry points agree with one another on this text.
pub fn check_entries(text: &str) -> Vec<Mismatch> {
    let mut out = Vec::new();
    let mut rs = Vec::new();
    for e in &["script", "strict", "module", "program"] {
        match parse(e, text) {
            Err(p) => {
                out.push(mismatch("panic", format!("{} {:?}: {}", e, text, p)));
                return out;
            }
            Ok(r) => rs.push(r),
        }
        match (parse(e, text), rs.last().unwrap()) {
            (Ok(ref again), first) if same_outcome(again, first) => {}
            _ => out.push(mismatch("entry:deterministic", format!("{} {:?}: parsing twice gave two answers", e, text))),
        }
    }
    let mut bad = |tag: &str, what: &str| out.push(mismatch(tag, format!("{:?}: {} (script {}; strict {}; module {}; program {})", text, what, show(&rs[0]), show(&rs[1]), show(&rs[2]), show(&rs[3]))));
    let shape = |r: &Outcome| r.as_ref().ok().map(|t| t.0.lin().events);
    match (shape(&rs[0]), shape(&rs[1])) {
        (None, Some(_)) => bad("entry:strict-accepts-more", "accepted only in strict mode"),
        (Some(ref a), Some(ref b)) if a != b => bad("entry:strict-tree", "strict mode changes the tree"),
        _ => {}
    }
    match (shape(&rs[1]), shape(&rs[2])) {
        (None, Some(_)) => bad("entry:module-accepts-more", "accepted as a module only"),
        (Some(ref a), Some(ref b)) if a != b => bad("entry:module-tree", "module code changes the tree"),
        _ => {}
    }
    if let Ok((ref t, Some(ref p))) = rs[3] {
        let place = match *t { Tree::Script(ref s) => s.location, Tree::Module(ref m) => m.location };
        let (mut erased, mut moved) = (p.clone(), p.clone());
        erased.untrack();
        *moved.tracking_mut() = None;
        let inner = |p: &Program| match *p { Program::Ambiguous(_, ref s) => Tree::Script(s.clone()), Program::Module(ref m) => Tree::Module(m.clone()) };
        let mut alone = t.clone();
        *match alone { Tree::Script(ref mut s) => s.tracking_mut(), Tree::Module(ref mut m) => m.tracking_mut() } = None;
        if *p.tracking_ref() != place || erased.tracking_ref().is_some() || inner(&erased) != t.untracked() || inner(&moved) != alone {
            bad("untrack:program", "the place of a program, or what erasing it leaves, is not that of its tree");
        }
        // what it is taken for must agree with parsing it as that
        let s = p.clone().script();
        match (&s, &rs[0]) {
            (&Ok(ref a), &Ok((Tree::Script(ref b), _))) if a == b => {}
            (&Err(_), _) => {}
            _ => bad("entry:program-script", "program and script differ"),
        }
        let strict = p.clone().strict();
        match (&strict, &rs[1]) {
            (&Ok(ref a), &Ok((Tree::Script(ref b), _))) if a == b => {}
            (&Err(_), &Err(_)) => {}
            _ => bad("entry:program-strict", "program with its strict checks and strict differ"),
        }
        let module = p.clone().module();
        match (&module, &rs[2]) {
            (&Ok(ref a), &Ok((Tree::Module(ref b), _))) if a == b => {}
            (&Err(_), &Err(_)) => {}
            _ => bad("entry:program-module", "program with its module checks and module differ"),
        }
    } else if rs[0].is_ok() || rs[2].is_ok() {
        bad("entry:program-rejects", "rejected as a program only");
    }
    out
}

fn same_outcome(a: &Outcome, b: &Outcome) -> bool {
    match (a, b) {
        (&Ok((ref x, _)), &Ok((ref y, _))) => x == y && x.lin().events == y.lin().events,
        (&Err(ref x), &Err(ref y)) => x == y,
        _ => false,
    }
}

pub fn replay(files: &[String], only: Option<usize>) {
    let mut cases = Vec::new();
    for f in files {
        cases.extend(load_lazy(f));
    }
    run_cases(&cases, only, check);
}
