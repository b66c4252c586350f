extern crate quote;
extern crate syn11;
pub use syn11::*;
pub use syn11::DeriveInput as MacroInput;

use quote::{ToTokens, Tokens};

pub fn parse_macro_input(s: &str) -> Result<MacroInput, String> { syn11::parse_derive_input(s) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum UnOp { Deref, Not, Neg }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BlockCheckMode { Default, Unsafe }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BindingMode { ByRef(Mutability), ByValue(Mutability) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Block { pub stmts: Vec<Stmt> }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stmt { Expr(Box<Expr>), Semi(Box<Expr>) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Expr { pub node: ExprKind }

impl From<ExprKind> for Expr { fn from(node: ExprKind) -> Expr { Expr { node: node } } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ExprKind {
    Path(Option<QSelf>, Path),
    Unary(UnOp, Box<Expr>),
    MethodCall(Ident, Vec<Ty>, Vec<Expr>),
    Match(Box<Expr>, Vec<Arm>),
    Block(BlockCheckMode, Block),
    AddrOf(Mutability, Box<Expr>),
    Call(Box<Expr>, Vec<Expr>),
    Field(Box<Expr>, Ident),
    Paren(Box<Expr>)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Arm {
    pub attrs: Vec<Attribute>,
    pub pats: Vec<Pat>,
    pub guard: Option<Box<Expr>>,
    pub body: Box<Expr>
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FieldPat { pub ident: Ident, pub pat: Box<Pat>, pub is_shorthand: bool }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pat {
    Wild,
    Ident(BindingMode, Ident, Option<Box<Pat>>),
    Struct(Path, Vec<FieldPat>, bool),
    TupleStruct(Path, Vec<Pat>, Option<usize>),
    Path(Option<QSelf>, Path)
}

fn mutability(m: Mutability, t: &mut Tokens) {
    if m == Mutability::Mutable { t.append("mut"); }
}

fn commas<T: ToTokens>(xs: &[T], t: &mut Tokens) {
    for x in xs { x.to_tokens(t); t.append(","); }
}

impl ToTokens for BindingMode {
    fn to_tokens(&self, t: &mut Tokens) {
        match *self {
            BindingMode::ByRef(m) => { t.append("ref"); mutability(m, t); }
            BindingMode::ByValue(m) => { mutability(m, t); }
        }
    }
}

impl ToTokens for Block {
    fn to_tokens(&self, t: &mut Tokens) {
        t.append("{");
        for s in &self.stmts { s.to_tokens(t); }
        t.append("}");
    }
}

impl ToTokens for Stmt {
    fn to_tokens(&self, t: &mut Tokens) {
        match *self {
            Stmt::Expr(ref e) => e.to_tokens(t),
            Stmt::Semi(ref e) => { e.to_tokens(t); t.append(";"); }
        }
    }
}

impl ToTokens for Expr {
    fn to_tokens(&self, t: &mut Tokens) { self.node.to_tokens(t) }
}

impl ToTokens for ExprKind {
    fn to_tokens(&self, t: &mut Tokens) {
        match *self {
            ExprKind::Path(_, ref p) => p.to_tokens(t),
            ExprKind::Unary(op, ref e) => {
                t.append(match op { UnOp::Deref => "*", UnOp::Not => "!", UnOp::Neg => "-" });
                e.to_tokens(t);
            }
            ExprKind::MethodCall(ref id, ref tys, ref args) => {
                args[0].to_tokens(t);
                t.append(".");
                id.to_tokens(t);
                if tys.len() > 0 { t.append("::"); t.append("<"); commas(tys, t); t.append(">"); }
                t.append("(");
                commas(&args[1..], t);
                t.append(")");
            }
            ExprKind::Match(ref e, ref arms) => {
                t.append("match");
                e.to_tokens(t);
                t.append("{");
                for a in arms { a.to_tokens(t); t.append(","); }
                t.append("}");
            }
            ExprKind::Block(mode, ref b) => {
                if mode == BlockCheckMode::Unsafe { t.append("unsafe"); }
                b.to_tokens(t);
            }
            ExprKind::AddrOf(m, ref e) => { t.append("&"); mutability(m, t); e.to_tokens(t); }
            ExprKind::Call(ref f, ref args) => {
                f.to_tokens(t); t.append("("); commas(args, t); t.append(")");
            }
            ExprKind::Field(ref e, ref id) => { e.to_tokens(t); t.append("."); id.to_tokens(t); }
            ExprKind::Paren(ref e) => { t.append("("); e.to_tokens(t); t.append(")"); }
        }
    }
}

impl ToTokens for Arm {
    fn to_tokens(&self, t: &mut Tokens) {
        for (i, p) in self.pats.iter().enumerate() {
            if i > 0 { t.append("|"); }
            p.to_tokens(t);
        }
        if let Some(ref g) = self.guard { t.append("if"); g.to_tokens(t); }
        t.append("=>");
        self.body.to_tokens(t);
    }
}

impl ToTokens for Pat {
    fn to_tokens(&self, t: &mut Tokens) {
        match *self {
            Pat::Wild => t.append("_"),
            Pat::Ident(m, ref id, ref sub) => {
                m.to_tokens(t);
                id.to_tokens(t);
                if let Some(ref p) = *sub { t.append("@"); p.to_tokens(t); }
            }
            Pat::Struct(ref p, ref fields, dots) => {
                p.to_tokens(t);
                t.append("{");
                for f in fields {
                    if !f.is_shorthand { f.ident.to_tokens(t); t.append(":"); }
                    f.pat.to_tokens(t);
                    t.append(",");
                }
                if dots { t.append(".."); }
                t.append("}");
            }
            Pat::TupleStruct(ref p, ref pats, dot) => {
                p.to_tokens(t);
                t.append("(");
                for (i, x) in pats.iter().enumerate() {
                    if dot == Some(i) { t.append(".."); t.append(","); }
                    x.to_tokens(t);
                    t.append(",");
                }
                if dot == Some(pats.len()) { t.append(".."); }
                t.append(")");
            }
            Pat::Path(_, ref p) => p.to_tokens(t)
        }
    }
}
