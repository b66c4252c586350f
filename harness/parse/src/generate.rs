//! Random programs, mostly of the language, sometimes damaged: inputs for the parser specification.
use conform_common::Rng;
use std::io::Write;

type Toks = Vec<(String, bool)>;

struct Gen<'a> {
    rng: &'a mut Rng,
    out: Toks,
    nl: bool,
    budget: i32,
    fun: bool,
    it: bool,
    sw: bool,
    labels: Vec<(String, bool)>,
    strict: bool,
    wild: bool,
}

const NAMES: &'static [&'static str] = &["a", "b", "c", "x", "of", "get", "set", "target", "async", "from"];
const SLOPPY_NAMES: &'static [&'static str] = &["yield", "static", "eval", "arguments", "await", "package"];
const KEYS: &'static [&'static str] = &["a", "b", "get", "set", "if", "in", "null", "yield", "1", "'s'", "let", "function", "of", "2", "\"t\"", "default", "eval"];
const BINARY: &'static [&'static str] = &["||", "&&", "|", "^", "&", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "instanceof", "in", "<<", ">>", ">>>", "+", "-", "*", "/", "%"];
const ASSIGN: &'static [&'static str] = &["=", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];
const UNARY: &'static [&'static str] = &["-", "+", "!", "~", "typeof", "void", "delete"];
const ANY: &'static [&'static str] = &["a", "(", ")", "{", "}", "[", "]", ";", ",", ":", "=", "+", "++", "in", "of", "if", "else", "var", "let", "const", "function", "1", "'s'", ".", "...", "?",
    "while", "for", "do", "return", "break", "continue", "case", "default", "new", "get", "yield", "eval", "=>", "class", "try", "catch", "throw", "with", "!", "/", "/=", "/r/", "import", "this", "'use strict'", "super", "finally"];

impl<'a> Gen<'a> {
    fn t(&mut self, s: &str) {
        let nl = self.nl || self.rng.chance(1, 40);
        self.nl = false;
        self.out.push((s.to_string(), nl));
        self.budget -= 1;
    }
    fn ts(&mut self, ss: &[&str]) {
        for s in ss {
            self.t(s);
        }
    }
    fn low(&self) -> bool {
        self.budget <= 0
    }
    fn name(&mut self) {
        let n = if self.rng.chance(1, 12) && (!self.strict || self.wild) { *self.rng.pick(SLOPPY_NAMES) } else { *self.rng.pick(NAMES) };
        self.t(n);
    }
    fn key(&mut self) {
        let n = *self.rng.pick(KEYS);
        self.t(n);
    }
    fn semi(&mut self) {
        match self.rng.below(10) {
            0..=5 => self.t(";"),
            6..=8 => self.nl = true,
            _ => {}
        }
    }

    fn program(&mut self) {
        self.prologue();
        let n = 1 + self.rng.below(4);
        for _ in 0..n {
            if self.low() { break; }
            self.stmt(true);
        }
    }
    fn prologue(&mut self) {
        while self.rng.chance(1, 7) {
            let d = *self.rng.pick(&["'use strict'", "'use strict'", "\"use strict\"", "'s'", "'use\\x20strict'", "''", "\"use asm\""]);
            self.t(d);
            if d.contains("use strict") {
                self.strict = true;
            }
            self.semi();
        }
    }
    fn items(&mut self) {
        let n = self.rng.below(4);
        for _ in 0..n {
            if self.low() { break; }
            self.stmt(true);
        }
    }
    fn block(&mut self) {
        self.t("{");
        self.items();
        self.t("}");
    }
    fn loop_body(&mut self) {
        let it = self.it;
        self.it = true;
        self.stmt(false);
        self.it = it;
    }
    fn paren(&mut self) {
        self.t("(");
        self.expr(true);
        self.t(")");
    }
    fn body(&mut self) {
        let (fun, it, sw, strict) = (self.fun, self.it, self.sw, self.strict);
        let labels = std::mem::replace(&mut self.labels, Vec::new());
        self.fun = true;
        self.it = false;
        self.sw = false;
        self.t("{");
        self.prologue();
        self.items();
        self.t("}");
        self.fun = fun;
        self.it = it;
        self.sw = sw;
        self.strict = strict;
        self.labels = labels;
    }
    fn params(&mut self) {
        self.t("(");
        let n = self.rng.below(4);
        for i in 0..n {
            if i + 1 == n && self.rng.chance(1, 3) {
                self.t("...");
                self.name();
            } else {
                self.name();
                if i + 1 < n || self.rng.chance(1, 8) { self.t(","); }
            }
        }
        self.t(")");
    }
    fn declarators(&mut self, kind: &str, inn: bool) {
        let n = 1 + self.rng.below(3) / 2 + self.rng.below(4) / 3;
        for i in 0..n {
            if i > 0 { self.t(","); }
            self.name();
            if kind == "const" || self.rng.chance(1, 2) {
                self.t("=");
                self.assign(inn);
            }
        }
    }

    fn stmt(&mut self, decl: bool) {
        if self.low() {
            if self.rng.chance(1, 2) { self.t(";"); } else { self.t("a"); self.semi(); }
            return;
        }
        let n = self.rng.below(if decl || self.wild { 30 } else { 26 });
        match n {
            0..=6 => { self.expr_stmt(); }
            7 => self.block(),
            8 => { self.t("var"); self.declarators("var", true); self.semi(); }
            9 => self.t(";"),
            10 | 11 => {
                self.t("if");
                self.paren();
                self.stmt(false);
                if self.rng.chance(1, 2) { self.t("else"); self.stmt(false); }
            }
            12 => { self.t("while"); self.paren(); self.loop_body(); }
            13 => { self.t("do"); self.loop_body(); self.t("while"); self.paren(); self.semi(); }
            14 | 15 => self.for_stmt(),
            16 | 17 => {
                let brk = self.rng.chance(1, 2);
                let ls: Vec<String> = self.labels.iter().filter(|l| brk || l.1).map(|l| l.0.clone()).collect();
                if !ls.is_empty() && self.rng.chance(1, 2) {
                    let l = self.rng.pick(&ls).clone();
                    self.t(if brk { "break" } else { "continue" });
                    self.t(&l);
                    self.semi();
                } else if self.it || (brk && self.sw) || self.wild {
                    self.t(if brk { "break" } else { "continue" });
                    if self.wild && self.rng.chance(1, 2) { self.name(); }
                    self.semi();
                } else {
                    self.t("debugger");
                    self.semi();
                }
            }
            18 => if self.fun || self.wild {
                self.t("return");
                if self.rng.chance(2, 3) { self.expr(true); }
                self.semi();
            } else {
                self.expr_stmt();
            },
            19 => { self.t("throw"); self.expr(true); self.semi(); }
            20 => if !self.strict || self.wild { self.t("with"); self.paren(); self.stmt(false); } else { self.expr_stmt(); },
            21 => {
                self.t("switch");
                self.paren();
                self.t("{");
                let sw = self.sw;
                self.sw = true;
                let (n, mut default) = (self.rng.below(4), self.wild);
                for _ in 0..n {
                    if !default && self.rng.chance(1, 3) {
                        self.t("default");
                        default = true;
                    } else if self.wild && self.rng.chance(1, 3) {
                        self.t("default");
                    } else {
                        self.t("case");
                        self.expr(true);
                    }
                    self.t(":");
                    self.items();
                }
                self.sw = sw;
                self.t("}");
            }
            22 | 23 => {
                self.t("try");
                self.block();
                let k = self.rng.below(3);
                if k < 2 { self.ts(&["catch", "("]); self.name(); self.t(")"); self.block(); }
                if k > 0 { self.t("finally"); self.block(); }
            }
            24 | 25 => {
                let l = self.rng.pick(&["l", "m", "a", "of", "get"]).to_string();
                if self.labels.iter().any(|x| x.0 == l) && !self.wild { self.t(";"); return; }
                self.ts(&[&l, ":"]);
                let looping = self.rng.chance(2, 3);
                self.labels.push((l, looping));
                if looping { self.loop_stmt(); } else { self.stmt(false); }
                self.labels.pop();
            }
            26 => { self.t("const"); self.declarators("const", true); self.semi(); }
            27 => { self.t("let"); self.declarators("let", true); self.semi(); }
            _ => { self.t("function"); if self.rng.chance(1, 4) { self.t("*"); } self.name(); self.params(); self.body(); }
        }
    }
    fn loop_stmt(&mut self) {
        match self.rng.below(3) {
            0 => { self.t("while"); self.paren(); self.loop_body(); }
            1 => { self.t("do"); self.loop_body(); self.t("while"); self.paren(); self.semi(); }
            _ => self.for_stmt(),
        }
    }
    fn expr_stmt(&mut self) {
        // not starting with "{" or "function"
        let at = self.out.len();
        self.expr(true);
        if !self.wild {
            let bad = self.out.get(at).map_or(false, |t| ["{", "function", "let"].contains(&&t.0[..]));
            if bad {
                let nl = self.out[at].1;
                self.out[at].1 = false;
                self.out.insert(at, ("(".to_string(), nl));
                self.t(")");
            }
        }
        self.semi();
    }
    fn for_stmt(&mut self) {
        self.ts(&["for", "("]);
        match self.rng.below(9) {
            0 => { self.t(";"); self.for_rest(); }
            1 => { self.expr(false); self.t(";"); self.for_rest(); }
            2 | 3 => {
                let k = *self.rng.pick(&["var", "let", "const"]);
                self.t(k);
                self.declarators(k, false);
                self.t(";");
                self.for_rest();
            }
            4 | 5 => {
                let k = *self.rng.pick(&["var", "let", "const"]);
                self.t(k);
                self.name();
                if k == "var" && self.rng.chance(1, 4) { self.t("="); self.assign(false); self.t("in"); self.expr(true); }
                else if self.rng.chance(1, 2) { self.t("in"); self.expr(true); } else { self.t("of"); self.assign(true); }
            }
            _ => {
                self.target(true);
                if self.rng.chance(1, 2) { self.t("in"); self.expr(true); } else { self.t("of"); self.assign(true); }
            }
        }
        self.t(")");
        self.loop_body();
    }
    fn for_rest(&mut self) {
        if self.rng.chance(1, 2) { self.expr(true); }
        self.t(";");
        if self.rng.chance(1, 2) { self.expr(true); }
    }

    fn expr(&mut self, inn: bool) {
        self.assign(inn);
        while self.rng.chance(1, 12) && !self.low() {
            self.t(",");
            self.assign(inn);
        }
    }
    fn target(&mut self, patterns: bool) {
        match self.rng.below(if patterns && !self.low() { 8 } else { 6 }) {
            0..=2 => self.name(),
            3 => { self.primary(); self.t("."); self.key_word(); }
            4 => { self.primary(); self.t("["); self.expr(true); self.t("]"); }
            5 => { self.name(); self.args(); self.t("."); self.key_word(); }
            6 => {
                self.t("[");
                let n = self.rng.below(4);
                for i in 0..n {
                    if i > 0 { self.t(","); }
                    if self.rng.chance(1, 5) { continue; }
                    if i + 1 == n && self.rng.chance(1, 3) { self.t("..."); }
                    self.target(true);
                }
                self.t("]");
            }
            _ => {
                self.t("{");
                let n = self.rng.below(4);
                for i in 0..n {
                    if i > 0 { self.t(","); }
                    if self.rng.chance(1, 3) { self.name(); } else { self.key(); self.t(":"); self.target(true); }
                }
                if n > 0 && self.rng.chance(1, 5) { self.t(","); }
                self.t("}");
            }
        }
    }
    fn key_word(&mut self) {
        let k = *self.rng.pick(&["a", "b", "if", "get", "null", "target", "class", "yield", "new"]);
        self.t(k);
    }
    fn assign(&mut self, inn: bool) {
        if self.low() {
            self.primary();
            return;
        }
        match self.rng.below(12) {
            0 => {
                let op = *self.rng.pick(ASSIGN);
                if self.wild { self.unary(); } else { self.target(op == "="); }
                self.t(op);
                self.assign(inn);
            }
            1 => { self.binary(inn); self.t("?"); self.assign(true); self.t(":"); self.assign(inn); }
            _ => self.binary(inn),
        }
    }
    fn binary(&mut self, inn: bool) {
        self.unary();
        while self.rng.chance(2, 7) && !self.low() {
            let op = *self.rng.pick(BINARY);
            if op == "in" && !inn && !self.wild { continue; }
            self.t(op);
            self.unary();
        }
    }
    fn unary(&mut self) {
        match self.rng.below(14) {
            0 | 1 if !self.low() => { let op = *self.rng.pick(UNARY); self.t(op); self.unary(); }
            2 => { let op = *self.rng.pick(&["++", "--"]); self.t(op); self.target(false); }
            3 => { self.target(false); let op = *self.rng.pick(&["++", "--"]); self.t(op); }
            _ => self.lhs(),
        }
    }
    fn args(&mut self) {
        self.t("(");
        let n = if self.low() { 0 } else { self.rng.below(3) };
        for i in 0..n {
            if i > 0 { self.t(","); }
            if self.rng.chance(1, 5) { self.t("..."); }
            self.assign(true);
        }
        self.t(")");
    }
    fn lhs(&mut self) {
        let mut news = 0;
        while self.rng.chance(1, 12) && !self.low() {
            self.t("new");
            news += 1;
        }
        if news > 0 && self.rng.chance(1, 8) { self.ts(&[".", "target"]); } else { self.primary(); }
        while self.rng.chance(1, 3) && !self.low() {
            match self.rng.below(3) {
                0 => { self.t("."); self.key_word(); }
                1 => { self.t("["); self.expr(true); self.t("]"); }
                _ => self.args(),
            }
        }
    }
    fn primary(&mut self) {
        let n = if self.low() { self.rng.below(14) } else { self.rng.below(22) };
        match n {
            0..=6 => self.name(),
            7 => { let t = *self.rng.pick(&["0", "1", "2", "3"]); self.t(t); }
            8 => { let t = *self.rng.pick(&["'s'", "\"t\"", "''"]); self.t(t); }
            9 => { let t = *self.rng.pick(&["/r/", "/=s/g"]); self.t(t); }
            10..=13 => { let t = *self.rng.pick(&["null", "true", "false", "this", "a"]); self.t(t); }
            14 | 15 => { self.t("("); self.expr(true); self.t(")"); }
            16 | 17 => {
                self.t("[");
                let n = self.rng.below(4);
                for _ in 0..n {
                    if self.rng.chance(1, 5) { self.t(","); continue; }
                    if self.rng.chance(1, 6) { self.t("..."); }
                    self.assign(true);
                    if self.rng.chance(4, 5) { self.t(","); } else { break; }
                }
                self.t("]");
            }
            18..=20 => {
                self.t("{");
                let n = self.rng.below(4);
                for i in 0..n {
                    if i > 0 { self.t(","); }
                    match self.rng.below(8) {
                        0 => { self.t("get"); self.key(); self.ts(&["(", ")"]); self.body(); }
                        1 => { self.ts(&["set"]); self.key(); self.t("("); self.name(); self.t(")"); self.body(); }
                        2 => { self.key(); self.params(); self.body(); }
                        3 => { self.t("*"); self.key(); self.params(); self.body(); }
                        4 => self.name(),
                        _ => { self.key(); self.t(":"); self.assign(true); }
                    }
                }
                if n > 0 && self.rng.chance(1, 5) { self.t(","); }
                self.t("}");
            }
            _ => {
                self.t("function");
                if self.rng.chance(1, 4) { self.t("*"); }
                if self.rng.chance(1, 2) { self.name(); }
                self.params();
                self.body();
            }
        }
    }
}

fn damage(rng: &mut Rng, ts: &mut Toks) {
    if ts.is_empty() {
        return;
    }
    let i = rng.below(ts.len());
    match rng.below(7) {
        0 => { ts.remove(i); }
        1 => { let t = ts[i].clone(); ts.insert(i, t); }
        2 => { let j = rng.below(ts.len()); ts.swap(i, j); }
        3 => { let t = rng.pick(ANY).to_string(); ts[i].0 = t; }
        4 => { let t = rng.pick(ANY).to_string(); let nl = rng.chance(1, 4); ts.insert(i, (t, nl)); }
        5 => { ts.truncate(i); }
        _ => { ts[i].1 = !ts[i].1; }
    }
}

pub fn one(rng: &mut Rng) -> (&'static str, Toks) {
    let entry = *rng.pick(&["script", "script", "script", "program", "strict", "module"]);
    let wild = rng.chance(1, 8);
    let budget = 5 + rng.below(35) as i32;
    let mut g = Gen { rng, out: Vec::new(), nl: false, budget, fun: false, it: false, sw: false, labels: Vec::new(), strict: entry == "strict" || entry == "module", wild };
    g.program();
    let mut ts = g.out;
    if rng.chance(1, 3) {
        for _ in 0..1 + rng.below(2) {
            damage(rng, &mut ts);
        }
    }
    (entry, ts)
}

pub fn inputs(seed: u64, n: usize, path: &str) {
    let mut rng = Rng(seed ^ 0x5eed_0f_9a45e);
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for _ in 0..n {
        let (entry, ts) = one(&mut rng);
        let toks: Vec<String> = ts.iter().map(|t| format!("[{},{}]", serde_json::to_string(&t.0).unwrap(), t.1)).collect();
        writeln!(f, "{{\"entry\":\"{}\",\"toks\":[{}]}}", entry, toks.join(",")).unwrap();
    }
}
