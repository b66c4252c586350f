//! Replays client call sequences of the specification (MCTokenBuffer) on the real tokenizer,
//! and records call histories of the real tokenizer for TraceTokenBuffer to validate.
use crate::real::*;
use crate::tokens;
use conform_common::*;
use joker::lexer::Lexer;
use joker::result::Result;
use joker::token::Token;
use serde_json::Value;
use std::io::Write;
use std::str::Chars;

enum Reply { Token(Token), Nothing }

struct Client<'a> { lexer: Lexer<Chars<'a>>, out: Vec<Option<Token>> }

impl<'a> Client<'a> {
    fn new(src: &'a str) -> Self { Client { lexer: Lexer::new(src.chars()), out: vec![] } }

    fn call(&mut self, f: &str, op: bool) -> Result<Reply> {
        Ok(match f {
            "peek" => Reply::Token(self.lexer.peek_token(op)?.clone()),
            "repeek" => Reply::Token(self.lexer.repeek_token().clone()),
            "read" => { let t = self.lexer.read_token(op)?; self.out.push(Some(t.clone())); Reply::Token(t) }
            "reread" => { let t = self.lexer.reread_token(); self.out.push(Some(t.clone())); Reply::Token(t) }
            "skip" => { self.lexer.skip_token(op)?; self.out.push(None); Reply::Nothing }
            "unread" => { let t = self.out.pop().unwrap().unwrap(); self.lexer.unread_token(t); Reply::Nothing }
            _ => panic!("unknown call {}", f),
        })
    }
}

pub fn replay(files: &[String], only: Option<usize>) {
    let mut cases = Vec::new();
    for f in files { cases.extend(load_lazy(f)); }
    run_cases(&cases, only, |case| {
        let src = text(get(case, "src"));
        let mut c = Client::new(&src);
        let mut out = Vec::new();
        for (i, ev) in arr(get(case, "hist")).iter().enumerate() {
            let f = st(get(ev, "fn"));
            let res = arr(get(ev, "res"));
            let failing = ev.as_object().unwrap().contains_key("err");
            match observe(|| c.call(f, st(get(ev, "op")) == "div")) {
                Err(p) => { out.push(mismatch("panic", format!("call {}: {}", i, p))); break; }
                Ok(Err(e)) => {
                    let (k, a) = error(&e);
                    if !failing || k != st(&res[0]) || !same(&a, &res[1]) {
                        out.push(mismatch("answer", format!("call {} {}: expected {}, got error {} {}", i, f, list(res.clone()), k, a)));
                    }
                    break;
                }
                Ok(Ok(reply)) => {
                    if failing { out.push(mismatch("answer", format!("call {} {}: expected error {}", i, f, list(res.clone())))); break; }
                    if let Reply::Token(ref t) = reply {
                        let mut mm = Vec::new();
                        tokens::check_token(&res[0], t, i, "token", &mut mm);
                        if !mm.is_empty() { out.push(mismatch("answer", format!("call {} {}: {}", i, f, mm[0].detail))); break; }
                    }
                    if posn(&c.lexer.posn()) != spec_posn(get(ev, "pos")) {
                        out.push(mismatch("posn", format!("call {} {}: position {:?}, expected {}", i, f, c.lexer.posn(), get(ev, "pos"))));
                        break;
                    }
                }
            }
        }
        out
    });
}

fn recorded(t: &Token) -> Value {
    token_value(t)
}

/// Random histories; one JSON object per line. A panic is recorded as an unexplainable error.
pub fn record(seed: u64, count: usize, path: &str) {
    quiet_panics();
    let tmp = format!("{}.inputs", path);
    tokens::inputs(seed ^ 0xb0f, count, &tmp);
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut r = Rng(seed);
    for case in load(&tmp) {
        let src = text(get(&case, "src"));
        let mut c = Client::new(&src);
        let mut buffered = 0;                 // what the client knows about its own pushback
        let mut hist = Vec::new();
        let calls = 5 + r.below(60);
        for _ in 0..calls {
            let mut choice = vec!["peek", "read", "read", "skip"];
            if buffered > 0 { choice.push("repeek"); choice.push("reread"); }
            if buffered < 2 && c.out.last().map_or(false, |x| x.is_some()) { choice.push("unread"); choice.push("unread"); }
            let f = *r.pick(&choice);
            let op = r.chance(2, 3);
            let opname = match f { "peek" | "read" | "skip" => if op { "div" } else { "re" }, _ => "any" };
            let ev = |tok: Vec<Value>, err: bool, what: Value, pos: Value| {
                obj(vec![("fn", s(f)), ("op", s(opname)), ("tok", list(tok)), ("err", Value::Bool(err)), ("what", what), ("pos", pos)])
            };
            let nowhere = obj(vec![("o", n(0)), ("l", n(0)), ("c", n(0))]);
            match observe(|| c.call(f, op)) {
                Err(p) => { hist.push(ev(vec![], true, list(vec![s("panic"), s(&p)]), nowhere)); break; }
                Ok(Err(e)) => { let (k, a) = error(&e); hist.push(ev(vec![], true, list(vec![s(&k), a]), nowhere)); break; }
                Ok(Ok(reply)) => {
                    let tok = match reply { Reply::Token(t) => vec![recorded(&t)], Reply::Nothing => vec![] };
                    hist.push(ev(tok, false, list(vec![]), posn_value(&c.lexer.posn())));
                }
            }
            match f {
                "peek" => if buffered == 0 { buffered = 1 },
                "read" | "skip" => if buffered > 0 { buffered -= 1 },
                "reread" => buffered -= 1,
                "unread" => buffered += 1,
                _ => {}
            }
        }
        writeln!(f, "{}", serde_json::to_string(&obj(vec![("src", codes(&src)), ("hist", list(hist))])).unwrap()).unwrap();
    }
}
