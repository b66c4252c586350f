//! What errors say of themselves.
use conform_common::*;
use easter::cover;
use easter::decl::{Decl, Export, Import};
use easter::expr::Expr;
use easter::id::{Id, IdExt};
use easter::patt::{CompoundPatt, Patt};
use easter::punc::Semi;
use esprit::error::{Check, Error};
use joker::lexer::Lexer;
use joker::token::{StringLiteral, Token};
use joker::track::{Posn, Span};
use joker::word::{Atom, Name};
use serde_json::Value;
use std::error::Error as StdError;

fn span() -> Span {
    Span { start: Posn::origin(), end: Posn::origin() }
}
fn token(text: &str) -> Token {
    Lexer::new(text.chars()).read_token(true).unwrap()
}
fn id(text: &str) -> Id {
    Id::new(Name::String(text.to_string()), None)
}
fn string(text: &str) -> StringLiteral {
    StringLiteral { source: None, value: text.to_string() }
}

fn make(kind: &str, inner: &str) -> Error {
    match kind {
        "UnexpectedToken" => Error::UnexpectedToken(token(")")),
        "FailedASI" => Error::FailedASI(token("b")),
        "LexError" => Error::LexError(match inner {
            "unterminated string" => joker::error::Error::UnterminatedString(None),
            "illegal character" => joker::error::Error::IllegalChar('#'),
            _ => panic!("lexical error {}", inner),
        }),
        "TopLevelReturn" => Error::TopLevelReturn(span()),
        "IllegalBreak" => Error::IllegalBreak(token("break")),
        "IllegalContinue" => Error::IllegalContinue(token("continue")),
        "InvalidLabel" => Error::InvalidLabel(id("l")),
        "InvalidLabelType" => Error::InvalidLabelType(id("l")),
        "ContextualKeyword" => Error::ContextualKeyword(span(), Atom::Yield),
        "IllegalStrictBinding" => Error::IllegalStrictBinding(span(), Atom::Eval),
        "UnexpectedDirective" => Error::UnexpectedDirective(None, string("use module")),
        "UnexpectedModule" => Error::UnexpectedModule(None),
        "ImportInScript" => Error::ImportInScript(Import::ForEffect(None, string("m"))),
        "ExportInScript" => Error::ExportInScript(Export::Decl(Decl::Let(None, vec![], Semi::Explicit(None)))),
        "ForOfLetExpr" => Error::ForOfLetExpr(span()),
        "DuplicateDefault" => Error::DuplicateDefault(token("default")),
        "StrictWith" => Error::StrictWith(token("with")),
        "ThrowArgument" => Error::ThrowArgument(token("throw")),
        "OrphanTry" => Error::OrphanTry(token("try")),
        "InvalidLHS" => Error::InvalidLHS(None, match inner {
            "assignment" => cover::Error::InvalidAssignTarget(None),
            "property" => cover::Error::InvalidPropPatt(None),
            _ => panic!("pattern error {}", inner),
        }),
        "UnsupportedFeature" => Error::UnsupportedFeature("f"),
        "CompoundParamWithUseStrict" => Error::CompoundParamWithUseStrict(CompoundPatt::Arr(None, vec![], None)),
        _ => panic!("kind {}", kind),
    }
}

/// The error that another passes on, as text.
fn inner(e: &Error) -> Option<(String, String)> {
    match *e {
        Error::LexError(ref e) => Some((e.description().to_string(), format!("{}", e))),
        Error::InvalidLHS(_, ref e) => Some((e.description().to_string(), format!("{}", e))),
        _ => None,
    }
}

fn reading(kind: &str, arg: &str) -> estree::error::Error {
    use estree::error::Error::*;
    match kind {
        "InvalidTypeTag" => InvalidTypeTag(arg.to_string()),
        "UnexpectedInitializer" => UnexpectedInitializer(Expr::Null(None)),
        "InvalidLHS" => InvalidLHS("x"),
        "UninitializedPattern" => UninitializedPattern(match arg {
            "array" => Patt::Compound(CompoundPatt::Arr(None, vec![], None)),
            "object" => Patt::Compound(CompoundPatt::Obj(None, vec![])),
            _ => Patt::Simple(id("a")),
        }),
        "Json" => Json(match arg {
            "type" => unjson::error::Error::MissingField("type"),
            _ => unjson::error::Error::MissingField("body"),
        }),
        _ => panic!("kind {}", kind),
    }
}

fn check(case: &Value) -> Vec<Mismatch> {
    let mut out = Vec::new();
    let kind = st(get(case, "kind"));
    let mut want = |tag: &str, ok: bool, detail: String| if !ok {
        out.push(mismatch(tag, detail));
    };
    match st(get(case, "q")) {
        "syntax" => {
            let e = make(kind, st(get(case, "inner")));
            let (described, said) = (e.description().to_string(), format!("{}", e));
            let says = st(get(case, "says"));
            let names = |t: &str, w: &str| t.to_lowercase().contains(w);
            want("names", names(&described, says) && names(&said, says), format!("{:?} is described as {:?} {:?}, not mentioning {}", e, described, said, says));
            match (e.cause(), inner(&e)) {
                (Some(c), Some((d, s))) => {
                    want("cause", c.description() == d && format!("{}", c) == s, format!("{:?} is caused by {:?}", e, c));
                    want("passed", described.contains(&d), format!("{:?} is described as {:?}", e, described));
                }
                (None, None) => {}
                (c, _) => want("cause", false, format!("{:?} is caused by {:?}", e, c)),
            }
            want("cause", e.cause().is_some() == (*get(case, "caused") == Value::Bool(true)), format!("{:?} is caused by {:?}", e, e.cause()));
            want("same", e == e.clone() && format!("{:?}", e) == format!("{:?}", e.clone()), format!("a copy of {:?} differs", e));
        }
        "pair" => {
            let other = st(get(case, "other"));
            let (a, b) = (make(kind, ""), make(other, ""));
            let same = kind == other;
            want("apart", (a.description() == b.description()) == same && (a == b) == same, format!("{} and {} are described as {:?} and {:?}", kind, other, a.description(), b.description()));
        }
        "perform" => {
            let e = make(kind, "");
            let module = *get(case, "module") == Value::Bool(true);
            let c = if st(get(case, "check")) == "strict" { Check::Strict(e.clone()) } else { Check::Module(e.clone()) };
            let got = c.clone().perform(module);
            let ok = match got { Ok(()) => *get(case, "fails") == Value::Bool(false), Err(ref x) => *get(case, "fails") == Value::Bool(true) && *x == e };
            want("perform", ok, format!("{:?} performed with module {} gives {:?}", c, module, got));
        }
        "reading" | "mismatch" => {
            let arg = st(get(case, "arg"));
            let said = if st(get(case, "q")) == "mismatch" {
                use estree::IntoScript;
                let doc: Value = serde_json::from_str(&format!("{{\"type\":\"Program\",\"body\":[{{\"type\":\"BreakStatement\",\"label\":{{\"type\":{:?}}}}}]}}", arg)).unwrap();
                match doc.as_object().unwrap().clone().into_script() {
                    Ok(_) => "read".to_string(),
                    Err(e) => format!("{}", e),
                }
            } else {
                format!("{}", reading(kind, arg))
            };
            for w in arr(get(case, "says")) {
                want("reading", said.contains(st(w)), format!("{} of {:?} says {:?}, not mentioning {}", kind, arg, said, st(w)));
            }
        }
        q => panic!("question {}", q),
    }
    out
}

pub fn replay(files: &[String], only: Option<usize>) {
    let mut cases = Vec::new();
    for f in files {
        cases.extend(load_lazy(f));
    }
    run_cases(&cases, only, check);
}
