//! A syntax tree written in postfix order, the form in which the specification builds it,
//! together with every location found in it.
use easter::decl::{ConstDtor, Decl, Dtor, Export, Import};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{DotKey, Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt, RestPatt};
use easter::punc::Semi;
use easter::stmt::*;
use joker::token::{NumberLiteral, RegExpLiteral, StringLiteral};
use joker::track::{Posn, Span};
use joker::word::Name;

#[derive(Debug, Clone, PartialEq)]
pub enum Payload {
    Text(String),
    Number(f64),
    /// value, and source text if recorded
    Str(String, Option<String>),
    RegExp(String, Vec<char>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Place {
    /// this kind of event records no place of its own
    Unrecorded,
    Span(Option<Span>),
    Start(Option<Posn>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Event {
    pub name: &'static str,
    pub payload: Payload,
    pub place: Place,
}

#[derive(Default)]
pub struct Lin {
    pub events: Vec<Event>,
    /// nodes whose location is present, by kind
    pub located: Vec<&'static str>,
    pub nodes: usize,
    /// parts of the tree kept for a closer look, when wanted
    pub kept: Option<Kept>,
}

/// Statements with the number of events up to their end, declarators, names and bindings.
#[derive(Default)]
pub struct Kept {
    pub stmts: Vec<(usize, Stmt)>,
    pub items: Vec<(usize, StmtListItem)>,
    pub dtors: Vec<Dtor>,
    pub cdtors: Vec<ConstDtor>,
    pub ids: Vec<Id>,
    pub patts: Vec<Patt<Id>>,
}

fn name_text(n: &Name) -> String {
    n.as_ref().to_string()
}

impl Lin {
    fn ev(&mut self, name: &'static str, text: &str, place: Place) {
        self.events.push(Event { name, payload: Payload::Text(text.to_string()), place });
    }
    fn plain(&mut self, name: &'static str) {
        self.ev(name, "", Place::Unrecorded);
    }
    fn at(&mut self, kind: &'static str, loc: &Option<Span>) {
        self.nodes += 1;
        if loc.is_some() {
            self.located.push(kind);
        }
    }
    fn none(&mut self) {
        self.plain("none");
    }

    pub fn id(&mut self, id: &Id) {
        if let Some(ref mut k) = self.kept { k.ids.push(id.clone()); }
        self.at("Id", &id.location);
        self.ev("id", &name_text(&id.name), Place::Span(id.location));
    }
    fn opt_id(&mut self, id: &Option<Id>) {
        match *id {
            Some(ref id) => self.id(id),
            None => self.none(),
        }
    }
    fn number(&mut self, name: &'static str, loc: &Option<Span>, n: &NumberLiteral) {
        self.at("Number", loc);
        self.events.push(Event { name, payload: Payload::Number(n.value), place: Place::Span(*loc) });
    }
    pub fn string(&mut self, name: &'static str, loc: &Option<Span>, s: &StringLiteral) {
        self.at("String", loc);
        self.events.push(Event { name, payload: Payload::Str(s.value.clone(), s.source.clone()), place: Place::Span(*loc) });
    }
    fn regexp(&mut self, loc: &Option<Span>, r: &RegExpLiteral) {
        self.at("RegExp", loc);
        self.events.push(Event { name: "regexp", payload: Payload::RegExp(r.pattern.clone(), r.flags.clone()), place: Place::Span(*loc) });
    }
    fn word(&mut self, name: &'static str, loc: &Option<Span>) {
        self.at(name, loc);
        self.ev(name, "", Place::Span(*loc));
    }
    fn op<T: std::fmt::Display>(&mut self, name: &'static str, op: &easter::punc::Op<T>) {
        self.at("Op", &op.location);
        self.ev(name, &format!("{}", op.tag), Place::Span(op.location));
    }
    pub fn semi(&mut self, s: &Semi) {
        self.nodes += 1;
        match *s {
            Semi::Inserted => self.ev("semicolon", "inserted", Place::Unrecorded),
            Semi::Explicit(p) => {
                if p.is_some() {
                    self.located.push("Semi");
                }
                self.ev("semicolon", "explicit", Place::Start(p))
            }
        }
    }
    fn list<T, F: FnMut(&mut Self, &T)>(&mut self, items: &[T], mut f: F) {
        self.plain("[");
        for i in items {
            f(self, i);
        }
        self.plain("]");
    }

    // expressions
    fn dot(&mut self, key: &DotKey) {
        self.at("DotKey", &key.location);
        self.ev("member", &key.value, Place::Span(key.location));
    }
    fn item(&mut self, i: &ExprListItem) {
        match *i {
            ExprListItem::Expr(ref e) => self.expr(e),
            ExprListItem::Spread(ref l, ref e) => {
                self.at("Spread", l);
                self.expr(e);
                self.plain("spread");
            }
        }
    }
    fn opt_expr(&mut self, e: &Option<Expr>) {
        match *e {
            Some(ref e) => self.expr(e),
            None => self.none(),
        }
    }
    fn update(&mut self, kind: &'static str, l: &Option<Span>, name: &'static str, op: &str, t: &AssignTarget) {
        self.at(kind, l);
        self.target(t);
        self.ev(name, op, Place::Unrecorded);
    }
    pub fn expr(&mut self, e: &Expr) {
        match *e {
            Expr::This(ref l) => self.word("this", l),
            Expr::Id(ref id) => self.id(id),
            Expr::Arr(ref l, ref elts) => {
                self.at("Arr", l);
                self.list(elts, |t, e| match *e {
                    Some(ref e) => t.item(e),
                    None => t.plain("hole"),
                });
                self.plain("array");
            }
            Expr::Obj(ref l, ref props) => {
                self.at("Obj", l);
                self.list(props, |t, p| t.prop(p));
                self.plain("object");
            }
            Expr::Fun(ref f) => {
                self.opt_id(&f.id);
                self.fun(f);
                self.plain("funexpr");
            }
            Expr::Seq(ref l, ref es) => {
                self.at("Seq", l);
                for e in es {
                    self.expr(e);
                }
                self.ev("seq", &es.len().to_string(), Place::Unrecorded);
            }
            Expr::Unop(ref l, ref op, ref e) => {
                self.at("Unop", l);
                self.expr(e);
                self.at("Op", &op.location);
                self.ev("prefix", unop(&op.tag), Place::Span(op.location));
            }
            Expr::Binop(ref l, ref op, ref a, ref b) => {
                self.at("Binop", l);
                self.expr(a);
                self.expr(b);
                self.op("binary", op);
            }
            Expr::Logop(ref l, ref op, ref a, ref b) => {
                self.at("Logop", l);
                self.expr(a);
                self.expr(b);
                self.op("logical", op);
            }
            Expr::PreInc(ref l, ref t) => self.update("PreInc", l, "prefix", "++", t),
            Expr::PostInc(ref l, ref t) => self.update("PostInc", l, "postfix", "++", t),
            Expr::PreDec(ref l, ref t) => self.update("PreDec", l, "prefix", "--", t),
            Expr::PostDec(ref l, ref t) => self.update("PostDec", l, "postfix", "--", t),
            Expr::Assign(ref l, ref p, ref e) => {
                self.at("Assign", l);
                // no other array and object patterns are parsed: those of names could be declared as well
                if let (&mut Some(ref mut k), Some(Patt::Compound(c))) = (&mut self.kept, names(p)) {
                    k.patts.push(Patt::Compound(c.clone()));
                    k.dtors.push(Dtor::Compound(joker::track::span(p, &**e), c.clone(), (**e).clone()));
                    k.cdtors.push(ConstDtor { location: joker::track::span(p, &**e), patt: Patt::Compound(c), value: (**e).clone() });
                }
                self.target_patt(p);
                self.expr(e);
                self.ev("assign", "=", Place::Unrecorded);
            }
            Expr::BinAssign(ref l, ref op, ref t, ref e) => {
                self.at("BinAssign", l);
                self.target(t);
                self.expr(e);
                self.op("assign", op);
            }
            Expr::Cond(ref l, ref a, ref b, ref c) => {
                self.at("Cond", l);
                self.expr(a);
                self.expr(b);
                self.expr(c);
                self.plain("conditional");
            }
            Expr::Call(ref l, ref f, ref args) => {
                self.at("Call", l);
                self.expr(f);
                self.list(args, |t, a| t.item(a));
                self.plain("call");
            }
            Expr::New(ref l, ref f, ref args) => {
                self.at("New", l);
                self.expr(f);
                match *args {
                    Some(ref args) => self.list(args, |t, a| t.item(a)),
                    None => self.list(&[], |t, a| t.item(a)),
                }
                self.plain("new");
            }
            Expr::Dot(ref l, ref o, ref k) => {
                self.at("Dot", l);
                self.expr(o);
                self.dot(k);
            }
            Expr::Brack(ref l, ref o, ref i) => {
                self.at("Brack", l);
                self.expr(o);
                self.expr(i);
                self.plain("index");
            }
            Expr::NewTarget(ref l) => {
                self.at("NewTarget", l);
                self.plain("new.target");
            }
            Expr::True(ref l) => self.word("true", l),
            Expr::False(ref l) => self.word("false", l),
            Expr::Null(ref l) => self.word("null", l),
            Expr::Number(ref l, ref n) => self.number("number", l, n),
            Expr::RegExp(ref l, ref r) => self.regexp(l, r),
            Expr::String(ref l, ref s) => self.string("string", l, s),
        }
    }

    // targets and patterns, in the order of the expressions they come from
    fn target(&mut self, t: &AssignTarget) {
        match *t {
            AssignTarget::Id(ref id) => self.id(id),
            AssignTarget::Dot(ref l, ref o, ref k) => {
                self.at("Dot", l);
                self.expr(o);
                self.dot(k);
            }
            AssignTarget::Brack(ref l, ref o, ref i) => {
                self.at("Brack", l);
                self.expr(o);
                self.expr(i);
                self.plain("index");
            }
        }
    }
    fn target_patt(&mut self, p: &Patt<AssignTarget>) {
        self.patt(p, &mut |t, x| t.target(x));
    }
    pub fn bind(&mut self, p: &Patt<Id>) {
        if let Some(ref mut k) = self.kept { k.patts.push(p.clone()); }
        self.patt(p, &mut |t, x| t.id(x));
    }
    fn patt<T>(&mut self, p: &Patt<T>, f: &mut dyn FnMut(&mut Self, &T)) {
        match *p {
            Patt::Simple(ref x) => f(self, x),
            Patt::Compound(ref c) => self.compound(c, f),
        }
    }
    fn compound<T>(&mut self, c: &CompoundPatt<T>, f: &mut dyn FnMut(&mut Self, &T)) {
        match *c {
            CompoundPatt::Arr(ref l, ref elts, ref rest) => {
                self.at("Arr", l);
                self.plain("[");
                for e in elts {
                    match *e {
                        Some(ref p) => self.patt(p, f),
                        None => self.plain("hole"),
                    }
                }
                if let Some(ref r) = *rest {
                    self.at("RestPatt", &r.location);
                    self.patt(&r.patt, f);
                    self.plain("spread");
                }
                self.plain("]");
                self.plain("array");
            }
            CompoundPatt::Obj(ref l, ref props) => {
                self.at("Obj", l);
                self.plain("[");
                for p in props {
                    match *p {
                        PropPatt::Regular(ref l, ref k, ref p) => {
                            self.at("PropPatt", l);
                            self.key(k);
                            self.patt(p, f);
                            self.plain("init");
                        }
                        PropPatt::Shorthand(ref id) => {
                            self.id(id);
                            self.plain("shorthand");
                        }
                    }
                }
                self.plain("]");
                self.plain("object");
            }
        }
    }

    // object literals and functions
    fn key(&mut self, k: &PropKey) {
        match *k {
            PropKey::Id(ref l, ref s) => {
                self.at("PropKey", l);
                self.ev("key-name", s, Place::Span(*l));
            }
            PropKey::String(ref l, ref s) => self.string("key-string", l, s),
            PropKey::Number(ref l, ref n) => self.number("key-number", l, n),
        }
    }
    fn prop(&mut self, p: &Prop) {
        match *p {
            Prop::Regular(ref l, ref k, ref v) => {
                self.at("Prop", l);
                self.key(k);
                match *v {
                    PropVal::Init(ref e) => {
                        self.expr(e);
                        self.plain("init");
                    }
                    PropVal::Get(ref l, ref b) => {
                        self.at("Get", l);
                        self.script(b);
                        self.plain("getter");
                    }
                    PropVal::Set(ref l, ref p, ref b) => {
                        self.at("Set", l);
                        self.bind(p);
                        self.script(b);
                        self.plain("setter");
                    }
                }
            }
            Prop::Method(ref f) => {
                self.key(&f.id);
                self.fun(f);
                self.plain("method");
            }
            Prop::Shorthand(ref id) => {
                self.id(id);
                self.plain("shorthand");
            }
        }
    }
    fn fun<I>(&mut self, f: &Fun<I>) {
        self.at("Fun", &f.location);
        let Params { ref location, ref list, ref rest } = f.params;
        self.at("Params", location);
        self.list(list, |t, p| t.bind(p));
        match *rest {
            Some(ref r) => {
                self.at("RestPatt", &r.location);
                self.bind(&r.patt);
                self.plain("rest");
            }
            None => self.none(),
        }
        self.script(&f.body);
        self.ev("fun", if f.generator { "generator" } else { "" }, Place::Unrecorded);
    }

    // statements
    fn dirs(&mut self, dirs: &[Dir]) {
        self.list(dirs, |t, d| {
            t.at("Dir", &d.location);
            t.events.push(Event {
                name: "directive",
                payload: Payload::Str(d.string.value.clone(), d.string.source.clone()),
                place: Place::Unrecorded,
            });
            t.semi(&d.semi);
        });
    }
    pub fn script(&mut self, s: &Script) {
        self.at("Body", &s.location);
        self.dirs(&s.dirs);
        self.items(&s.items);
    }
    pub fn module(&mut self, m: &Module) {
        self.at("Body", &m.location);
        self.dirs(&m.dirs);
        self.list(&m.items, |t, i| match *i {
            ModItem::StmtListItem(ref i) => t.stmt_item(i),
            ModItem::Import(Import::ForEffect(ref l, ref s)) => {
                t.at("Import", l);
                t.string("import", l, s);
            }
            ModItem::Export(Export::Var(ref l, ref ds, ref s)) => {
                t.at("Export", l);
                t.dtors(ds);
                t.semi(s);
                t.plain("export-var");
            }
            ModItem::Export(Export::Decl(ref d)) => {
                t.decl(d);
                t.plain("export");
            }
        });
    }
    fn items(&mut self, items: &[StmtListItem]) {
        self.list(items, |t, i| t.stmt_item(i));
    }
    pub fn stmt_item(&mut self, i: &StmtListItem) {
        match *i {
            StmtListItem::Decl(ref d) => self.decl(d),
            StmtListItem::Stmt(ref s) => self.stmt(s),
        }
        let n = self.events.len();
        if let Some(ref mut k) = self.kept { k.items.push((n, i.clone())); }
    }
    fn block(&mut self, b: &Block) {
        self.at("Block", &b.location);
        self.items(&b.items);
        self.plain("block");
    }
    pub fn dtor(&mut self, d: &Dtor) {
        if let Some(ref mut k) = self.kept { k.dtors.push(d.clone()); }
        match *d {
            Dtor::Simple(ref l, ref id, ref init) => {
                self.at("Dtor", l);
                self.id(id);
                self.opt_expr(init);
            }
            Dtor::Compound(ref l, ref p, ref init) => {
                self.at("Dtor", l);
                self.compound(p, &mut |t, x| t.id(x));
                self.expr(init);
            }
        }
        self.plain("dtor");
    }
    pub fn cdtor(&mut self, d: &ConstDtor) {
        if let Some(ref mut k) = self.kept { k.cdtors.push(d.clone()); }
        self.at("ConstDtor", &d.location);
        self.bind(&d.patt);
        self.expr(&d.value);
        self.plain("cdtor");
    }
    fn dtors(&mut self, ds: &[Dtor]) {
        self.list(ds, |t, d| t.dtor(d));
    }
    fn decl(&mut self, d: &Decl) {
        match *d {
            Decl::Fun(ref f) => {
                self.id(&f.id);
                self.fun(f);
                self.plain("declaration");
            }
            Decl::Let(ref l, ref ds, ref s) => {
                self.at("Let", l);
                self.dtors(ds);
                self.semi(s);
                self.plain("let");
            }
            Decl::Const(ref l, ref ds, ref s) => {
                self.at("Const", l);
                self.list(ds, |t, d| t.cdtor(d));
                self.semi(s);
                self.plain("const");
            }
        }
    }
    fn for_of(&mut self, h: &ForOfHead) {
        match *h {
            ForOfHead::Var(ref l, ref p) => self.for_bind(l, p, "of-var"),
            ForOfHead::Let(ref l, ref p) => self.for_bind(l, p, "of-let"),
            ForOfHead::Const(ref l, ref p) => self.for_bind(l, p, "of-const"),
            ForOfHead::Patt(ref p) => {
                self.target_patt(p);
                self.plain("of-expr");
            }
        }
    }
    fn for_bind(&mut self, l: &Option<Span>, p: &Patt<Id>, name: &'static str) {
        self.at("ForInHead", l);
        self.bind(p);
        self.plain(name);
    }
    fn for_in(&mut self, h: &ForInHead) {
        match *h {
            ForInHead::VarInit(ref l, ref id, ref e) => {
                self.at("ForInHead", l);
                self.id(id);
                self.expr(e);
                self.plain("in-var-init");
            }
            ForInHead::Var(ref l, ref p) => self.for_bind(l, p, "in-var"),
            ForInHead::Let(ref l, ref p) => self.for_bind(l, p, "in-let"),
            ForInHead::Const(ref l, ref p) => self.for_bind(l, p, "in-const"),
            ForInHead::Patt(ref p) => {
                self.target_patt(p);
                self.plain("in-expr");
            }
        }
    }
    fn for_head(&mut self, h: &ForHead) {
        let (l, n, name) = match *h {
            ForHead::Var(ref l, ref ds) => {
                for d in ds { self.dtor(d); }
                (l, ds.len(), "for-var")
            }
            ForHead::Let(ref l, ref ds) => {
                for d in ds { self.dtor(d); }
                (l, ds.len(), "for-let")
            }
            ForHead::Const(ref l, ref ds) => {
                for d in ds { self.cdtor(d); }
                (l, ds.len(), "for-const")
            }
            ForHead::Expr(ref l, ref e) => {
                self.at("ForHead", l);
                self.expr(e);
                self.plain("for-expr");
                return;
            }
        };
        self.at("ForHead", l);
        self.ev(name, &n.to_string(), Place::Unrecorded);
    }
    pub fn stmt(&mut self, s: &Stmt) {
        self.stmt_events(s);
        let n = self.events.len();
        if let Some(ref mut k) = self.kept { k.stmts.push((n, s.clone())); }
    }
    fn stmt_events(&mut self, s: &Stmt) {
        match *s {
            Stmt::Empty(ref l) => {
                self.at("Empty", l);
                self.plain("empty");
            }
            Stmt::Block(ref b) => self.block(b),
            Stmt::Var(ref l, ref ds, ref semi) => {
                self.at("Var", l);
                self.dtors(ds);
                self.semi(semi);
                self.plain("var");
            }
            Stmt::Expr(ref l, ref e, ref semi) => {
                self.at("ExprStmt", l);
                self.expr(e);
                self.semi(semi);
                self.plain("expression");
            }
            Stmt::If(ref l, ref e, ref c, ref a) => {
                self.at("If", l);
                self.expr(e);
                self.stmt(c);
                match *a {
                    Some(ref a) => self.stmt(a),
                    None => self.none(),
                }
                self.plain("if");
            }
            Stmt::Label(ref l, ref id, ref b) => {
                self.at("Label", l);
                self.id(id);
                self.stmt(b);
                self.plain("label");
            }
            Stmt::Break(ref l, ref id, ref semi) => {
                self.at("Break", l);
                self.opt_id(id);
                self.semi(semi);
                self.plain("break");
            }
            Stmt::Cont(ref l, ref id, ref semi) => {
                self.at("Cont", l);
                self.opt_id(id);
                self.semi(semi);
                self.plain("continue");
            }
            Stmt::With(ref l, ref e, ref b) => {
                self.at("With", l);
                self.expr(e);
                self.stmt(b);
                self.plain("with");
            }
            Stmt::Switch(ref l, ref e, ref cases) => {
                self.at("Switch", l);
                self.expr(e);
                self.list(cases, |t, c| {
                    t.at("Case", &c.location);
                    t.opt_expr(&c.test);
                    t.items(&c.body);
                    t.plain("case");
                });
                self.plain("switch");
            }
            Stmt::Return(ref l, ref e, ref semi) => {
                self.at("Return", l);
                self.opt_expr(e);
                self.semi(semi);
                self.plain("return");
            }
            Stmt::Throw(ref l, ref e, ref semi) => {
                self.at("Throw", l);
                self.expr(e);
                self.semi(semi);
                self.plain("throw");
            }
            Stmt::Try(ref l, ref b, ref c, ref f) => {
                self.at("Try", l);
                self.block(b);
                match *c {
                    Some(ref c) => {
                        self.at("Catch", &c.location);
                        self.bind(&c.param);
                        self.block(&c.body);
                        self.plain("catch");
                    }
                    None => self.none(),
                }
                match *f {
                    Some(ref f) => self.block(f),
                    None => self.none(),
                }
                self.plain("try");
            }
            Stmt::While(ref l, ref e, ref b) => {
                self.at("While", l);
                self.expr(e);
                self.stmt(b);
                self.plain("while");
            }
            Stmt::DoWhile(ref l, ref b, ref e, ref semi) => {
                self.at("DoWhile", l);
                self.stmt(b);
                self.expr(e);
                self.semi(semi);
                self.plain("dowhile");
            }
            Stmt::For(ref l, ref h, ref t, ref u, ref b) => {
                self.at("For", l);
                match *h {
                    Some(ref h) => self.for_head(h),
                    None => self.none(),
                }
                self.opt_expr(t);
                self.opt_expr(u);
                self.stmt(b);
                self.plain("for");
            }
            Stmt::ForIn(ref l, ref h, ref e, ref b) => {
                self.at("ForIn", l);
                self.for_in(h);
                self.expr(e);
                self.stmt(b);
                self.plain("forin");
            }
            Stmt::ForOf(ref l, ref h, ref e, ref b) => {
                self.at("ForOf", l);
                self.for_of(h);
                self.expr(e);
                self.stmt(b);
                self.plain("forof");
            }
            Stmt::Debugger(ref l, ref semi) => {
                self.at("Debugger", l);
                self.semi(semi);
                self.plain("debugger");
            }
        }
    }
}

/// The spelling of a prefix operator (it has no Display).
pub fn unop(tag: &easter::punc::UnopTag) -> &'static str {
    use easter::punc::UnopTag::*;
    match *tag {
        Minus => "-",
        Plus => "+",
        Not => "!",
        BitNot => "~",
        Typeof => "typeof",
        Void => "void",
        Delete => "delete",
    }
}

/// A pattern whose targets are all names, as one that could be declared.
fn names(p: &Patt<AssignTarget>) -> Option<Patt<Id>> {
    Some(match *p {
        Patt::Simple(AssignTarget::Id(ref id)) => Patt::Simple(id.clone()),
        Patt::Simple(_) => return None,
        Patt::Compound(CompoundPatt::Arr(l, ref elts, ref rest)) => {
            let mut out = Vec::new();
            for e in elts {
                out.push(match *e { Some(ref p) => Some(names(p)?), None => None });
            }
            let rest = match *rest { Some(ref r) => Some(Box::new(RestPatt { location: r.location, patt: names(&r.patt)? })), None => None };
            Patt::Compound(CompoundPatt::Arr(l, out, rest))
        }
        Patt::Compound(CompoundPatt::Obj(l, ref props)) => {
            let mut out = Vec::new();
            for p in props {
                out.push(match *p {
                    PropPatt::Regular(l, ref k, ref p) => PropPatt::Regular(l, k.clone(), names(p)?),
                    PropPatt::Shorthand(ref id) => PropPatt::Shorthand(id.clone()),
                });
            }
            Patt::Compound(CompoundPatt::Obj(l, out))
        }
    })
}
