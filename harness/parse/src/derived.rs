//! The derived location traits on a type with every shape they know, against the specification (Derive).
use conform_common::*;
use derive::{TrackingMut, TrackingRef, Untrack};
use joker::track::{Posn, Span, TrackingMut, TrackingRef, Untrack};
use serde_json::Value;

#[derive(Clone, Debug, PartialEq, TrackingRef, TrackingMut, Untrack)]
pub enum Node {
    Leaf(Option<Span>),
    Pair(Option<Span>, Box<Node>, Vec<Node>),
    Wrap(Inner, bool),
    Named { flag: bool, location: Option<Span>, kid: Option<Box<Node>> },
    Deep(Over, Vec<Node>),
    Gen(Gen<Node>),
    Twice(Option<Span>, Option<Span>),
    Wide(Option<Span>, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup, Tup),
    Broad { place: Option<Span>, f0: Tup, f1: Tup, f2: Tup, f3: Tup, f4: Tup, f5: Tup, f6: Tup, f7: Tup, f8: Tup, location: Option<Span>, f9: Tup, f10: Tup, f11: Tup, f12: Tup, f13: Tup, f14: Tup, f15: Tup, f16: Tup, f17: Tup },
    Two(Two<Node, Tup>),
    Many(Option<Span>, Vec<Option<Box<Node>>>, Option<Vec<Tup>>),
}

#[derive(Clone, Debug, PartialEq, TrackingRef, TrackingMut, Untrack)]
pub struct Two<A, B> {
    pub first: Box<A>,
    pub location: Option<Span>,
    pub second: B,
}

#[derive(Clone, Debug, PartialEq, TrackingRef, TrackingMut, Untrack)]
pub struct Inner {
    pub kids: Vec<Node>,
    pub location: Option<Span>,
}

#[derive(Clone, Debug, PartialEq, TrackingRef, TrackingMut, Untrack)]
pub struct Gen<T> {
    pub location: Option<Span>,
    pub value: Box<T>,
}

#[derive(Clone, Debug, PartialEq, TrackingRef, TrackingMut, Untrack)]
pub struct Tup(Option<Span>, bool);

#[derive(Clone, Debug, PartialEq, TrackingRef, TrackingMut, Untrack)]
pub struct Over(Tup, Vec<Tup>);

/// Without any location of its own.
#[derive(Clone, Debug, PartialEq, Untrack)]
pub enum Loose {
    Nothing,
    Something(Node),
    Several { first: Node, rest: Vec<Loose> },
}

fn sp(v: &Value) -> Option<Span> {
    let a = arr(v);
    let at = |v: &Value| { let o = int(v) as u32; Posn { offset: o, line: 0, column: o } };
    if a.is_empty() { None } else { Some(Span { start: at(&a[0]), end: at(&a[1]) }) }
}

fn flag(v: &Value) -> bool {
    *v == Value::Bool(true)
}

fn nodes(v: &Value) -> Vec<Node> {
    arr(v).iter().map(node).collect()
}

fn tup(v: &Value) -> Tup {
    let a = arr(v);
    Tup(sp(&a[1]), flag(&a[2]))
}

fn tups(v: &Value) -> Vec<Tup> {
    arr(v).iter().map(tup).collect()
}

fn node(v: &Value) -> Node {
    let a = arr(v);
    match st(&a[0]) {
        "Leaf" => Node::Leaf(sp(&a[1])),
        "Pair" => Node::Pair(sp(&a[1]), Box::new(node(&a[2])), nodes(&a[3])),
        "Wrap" => {
            let i = arr(&a[1]);
            Node::Wrap(Inner { kids: nodes(&i[1]), location: sp(&i[2]) }, flag(&a[2]))
        }
        "Named" => Node::Named { flag: flag(&a[1]), location: sp(&a[2]), kid: arr(&a[3]).get(0).map(|k| Box::new(node(k))) },
        "Deep" => {
            let o = arr(&a[1]);
            Node::Deep(Over(tup(&o[1]), arr(&o[2]).iter().map(tup).collect()), nodes(&a[2]))
        }
        "Gen" => Node::Gen(Gen { location: sp(&a[1]), value: Box::new(node(&a[2])) }),
        "Twice" => Node::Twice(sp(&a[1]), sp(&a[2])),
        "Wide" => {
            let f = tups(&a[2]);
            Node::Wide(sp(&a[1]), f[0].clone(), f[1].clone(), f[2].clone(), f[3].clone(), f[4].clone(), f[5].clone(), f[6].clone(), f[7].clone(), f[8].clone(), f[9].clone(), f[10].clone(), f[11].clone(), f[12].clone(), f[13].clone(), f[14].clone(), f[15].clone(), f[16].clone(), f[17].clone())
        }
        "Broad" => {
            let f = tups(&a[2]);
            Node::Broad { place: sp(&a[1]), f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone(), f5: f[5].clone(), f6: f[6].clone(), f7: f[7].clone(), f8: f[8].clone(), f9: f[9].clone(), f10: f[10].clone(), f11: f[11].clone(), f12: f[12].clone(), f13: f[13].clone(), f14: f[14].clone(), f15: f[15].clone(), f16: f[16].clone(), f17: f[17].clone(), location: sp(&a[3]) }
        }
        "Two" => Node::Two(Two { location: sp(&a[1]), first: Box::new(node(&a[2])), second: tup(&a[3]) }),
        "Many" => Node::Many(sp(&a[1]), arr(&a[2]).iter().map(|k| nodes(k).pop().map(Box::new)).collect(), arr(&a[3]).get(0).map(tups)),
        k => panic!("unknown shape {}", k),
    }
}

fn check(case: &Value) -> Vec<Mismatch> {
    let mut out = Vec::new();
    let (loc, moved, bare) = (sp(get(case, "loc")), node(get(case, "moved")), node(get(case, "bare")));
    let was = node(get(case, "tree"));
    if *was.tracking_ref() != loc {
        out.push(mismatch("derive:ref", format!("{:?} is at {:?}", was, was.tracking_ref())));
    }
    let mut t = was.clone();
    if *t.tracking_mut() != loc {
        out.push(mismatch("derive:mut", format!("{:?} is at {:?}", was, t.tracking_mut())));
    }
    *t.tracking_mut() = *moved.tracking_ref();
    if t != moved {
        out.push(mismatch("derive:mut", format!("{:?} moved is {:?}", was, t)));
    }
    let mut t = was.clone();
    t.untrack();
    if t != bare {
        out.push(mismatch("derive:untrack", format!("{:?} without locations is {:?}", was, t)));
    }
    let wrap = |n: &Node| vec![Loose::Nothing, Loose::Something(n.clone()), Loose::Several { first: n.clone(), rest: vec![Loose::Something(n.clone()), Loose::Nothing] }];
    let mut t = wrap(&was);
    t.untrack();
    if t != wrap(&bare) {
        out.push(mismatch("derive:untrack", format!("{:?} without locations is {:?}", wrap(&was), t)));
    }
    out
}

pub fn replay(files: &[String], only: Option<usize>) {
    let mut cases = Vec::new();
    for f in files {
        cases.extend(load_lazy(f));
    }
    run_cases(&cases, only, check);
}
