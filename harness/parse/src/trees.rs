//! Pairs of programs: when their trees are equal, and what is made of parts of them.
use conform_common::*;
use crate::events::{Event, Kept, Lin};
use crate::layout::{lay, LAYOUTS};
use crate::program::{compare_tree, parse, show, Tree};
use easter::decl::{ConstDtor, Dtor, DtorExt};
use easter::id::{Id, IdExt};
use easter::patt::Patt;
use easter::stmt::{Dir, ModItem};
use joker::track::{Span, TrackingRef, Untrack};
use serde_json::Value;

fn forget<T: Untrack + Clone>(t: &T) -> T {
    let mut t = t.clone();
    t.untrack();
    t
}
fn events<F: FnOnce(&mut Lin)>(f: F) -> Vec<Event> {
    let mut l = Lin::default();
    f(&mut l);
    l.events
}

/// Both ways round, with both operators, they are the same or they are not.
fn alike(a: &Tree, b: &Tree) -> Option<bool> {
    let all = [a == b, b == a, !(a != b), !(b != a)];
    if all.iter().all(|&x| x) { Some(true) } else if all.iter().all(|&x| !x) { Some(false) } else { None }
}

/// A statement that could be a directive, taken as one.
fn directive<T: PartialEq + Clone + TrackingRef>(out: &mut Vec<Mismatch>, what: &str, expected: bool, stmt: &T, lin: &Vec<Event>, is: bool, to: Option<Dir>, into: Result<Dir, T>) {
    if is != expected {
        out.push(mismatch("convert:is_directive", format!("{} {:?}: is_directive says {}", what, lin, is)));
    }
    let same = |d: &Dir| {
        let mut l = Lin::default();
        // the events of the statement are the string, its semicolon and the end of the statement
        l.string("string", &None, &d.string);
        l.semi(&d.semi);
        d.location == *stmt.tracking_ref() && lin.len() == 3 && l.events[0].payload == lin[0].payload && l.events[1] == lin[1]
    };
    match to {
        Some(ref d) if expected && same(d) => {}
        None if !expected => {}
        ref d => out.push(mismatch("convert:to_directive", format!("{} {:?}: to_directive gives {:?}", what, lin, d))),
    }
    match into {
        Ok(ref d) if expected && same(d) && Some(d) == to.as_ref() => {}
        Err(ref s) if !expected && s == stmt => {}
        Ok(ref d) => out.push(mismatch("convert:into_directive", format!("{} {:?}: into_directive gives {:?}", what, lin, d))),
        Err(_) => out.push(mismatch("convert:into_directive", format!("{} {:?}: into_directive refuses or changes it", what, lin))),
    }
}

/// From the start of the one to the end of the other.
fn reach(a: &Option<Span>, b: &Option<Span>) -> Option<Span> {
    match (*a, *b) {
        (Some(a), Some(b)) => Some(Span { start: a.start, end: b.end }),
        _ => None,
    }
}

fn parts(out: &mut Vec<Mismatch>, kept: &Kept, quotes: &[usize]) {
    let mut wrong = |tag: &str, detail: String| out.push(mismatch(format!("convert:{}", tag), detail));
    for id in &kept.ids {
        let want = events(|l| l.id(id));
        if events(|l| l.expr(&id.clone().into_expr())) != want || *id.clone().into_expr().tracking_ref() != id.location {
            wrong("into_expr", format!("{:?} becomes {:?}", id, id.clone().into_expr()));
        }
        let p = id.clone().into_patt();
        if events(|l| l.bind(&p)) != want || !p.is_simple() || *p.tracking_ref() != id.location {
            wrong("into_patt", format!("{:?} becomes {:?}", id, p));
        }
        let d = id.clone().into_dtor();
        let e = events(|l| l.dtor(&d));
        if e.len() != 3 || e[..1] != want[..] || e[1].name != "none" || e[2].name != "dtor" || *d.tracking_ref() != id.location {
            wrong("into_dtor", format!("{:?} becomes {:?}", id, d));
        }
        if Id::new(id.name.clone(), id.location) != *id {
            wrong("id", format!("{:?} is not made of its name and place", id));
        }
    }
    for p in &kept.patts {
        let simple = events(|l| l.bind(p)).len() == 1;
        if p.is_simple() != simple {
            wrong("is_simple", format!("{:?}: {}", p, p.is_simple()));
        }
    }
    for d in &kept.dtors {
        let want = events(|l| l.dtor(d));
        let (lhs, init) = match *d {
            Dtor::Simple(_, ref id, ref init) => (Patt::Simple(id.clone()), init.clone()),
            Dtor::Compound(_, ref c, ref e) => (Patt::Compound(c.clone()), Some(e.clone())),
        };
        let place = match init { Some(ref e) => reach(lhs.tracking_ref(), e.tracking_ref()), None => *lhs.tracking_ref() };
        let mut made = vec![("from_init_opt", Dtor::from_init_opt(lhs.clone(), init.clone()))];
        if let Some(ref e) = init {
            made.push(("from_init", Ok(Dtor::from_init(lhs.clone(), e.clone()))));
            made.push(("from", Ok(match lhs {
                Patt::Simple(ref id) => Dtor::from_simple_init(id.clone(), e.clone()),
                Patt::Compound(ref c) => Dtor::from_compound_init(c.clone(), e.clone()),
            })));
            // an initialiser given to an array or object pattern can be left out for a name only
            let refused = Dtor::from_init_opt(lhs.clone(), None);
            match (&lhs, &refused) {
                (&Patt::Simple(ref id), &Ok(Dtor::Simple(l, ref i, None))) if id == i && l == id.location => {}
                (&Patt::Compound(_), &Err(ref p)) if *p == lhs => {}
                _ => wrong("dtor:uninitialized", format!("{:?} without initialiser: {:?}", lhs, refused)),
            }
            // the same declarator as a constant
            let c = ConstDtor::from_init(lhs.clone(), e.clone());
            let ce = events(|l| l.cdtor(&c));
            if ce.len() != want.len() || ce[..ce.len() - 1] != want[..want.len() - 1] {
                wrong("cdtor", format!("{:?} as a constant: {:?}", d, c));
            }
        }
        for (how, m) in made {
            match m {
                Ok(ref m) if events(|l| l.dtor(m)) == want && *m.tracking_ref() == place && forget(m) == forget(d) => {}
                m => wrong("dtor", format!("{:?} made again with {}: {:?}", d, how, m)),
            }
        }
    }
    for d in &kept.cdtors {
        let want = events(|l| l.cdtor(d));
        let place = reach(d.patt.tracking_ref(), d.value.tracking_ref());
        let made = vec![
            ("from_init_opt", ConstDtor::from_init_opt(d.patt.clone(), Some(d.value.clone()))),
            ("from_init", Ok(ConstDtor::from_init(d.patt.clone(), d.value.clone()))),
            ("from", Ok(match d.patt {
                Patt::Simple(ref id) => ConstDtor::from_simple_init(id.clone(), d.value.clone()),
                Patt::Compound(ref c) => ConstDtor::from_compound_init(c.clone(), d.value.clone()),
            })),
        ];
        for (how, m) in made {
            match m {
                Ok(ref m) if events(|l| l.cdtor(m)) == want && m.location == place && forget(m) == forget(d) => {}
                m => wrong("cdtor", format!("{:?} made again with {}: {:?}", d, how, m)),
            }
        }
        match ConstDtor::from_init_opt(d.patt.clone(), None) {
            Err(ref p) if *p == d.patt => {}
            m => wrong("cdtor:uninitialized", format!("{:?} without a value: {:?}", d.patt, m)),
        }
    }
    for &(n, ref s) in &kept.stmts {
        let ev = events(|l| l.stmt(s));
        directive(out, "statement", quotes.contains(&n), s, &ev, s.is_directive(), s.to_directive(), s.clone().into_directive());
    }
    for &(n, ref i) in &kept.items {
        let ev = events(|l| l.stmt_item(i));
        directive(out, "item", quotes.contains(&n), i, &ev, i.is_directive(), i.to_directive(), i.clone().into_directive());
        match i.clone().into_mod_item() {
            ModItem::StmtListItem(ref j) if i == j => {}
            j => out.push(mismatch("convert:into_mod_item", format!("{:?} becomes {:?}", i, j))),
        }
    }
}

fn texts(v: &Value) -> Vec<(String, bool)> {
    arr(v).iter().map(|t| (st(t).to_string(), false)).collect()
}

fn check(case: &Value) -> Vec<Mismatch> {
    let mut out = Vec::new();
    let entry = st(get(case, "entry"));
    let (a, b) = (texts(get(case, "a")), texts(get(case, "b")));
    let same = *get(case, "same") == Value::Bool(true);
    let quotes: Vec<usize> = arr(get(case, "quotes")).iter().map(|q| int(q) as usize).collect();
    let mut read = |toks: &Vec<(String, bool)>, layout| {
        let mut toks = toks.clone();
        toks.push(("EOF".to_string(), false));
        let laid = lay(&toks, layout);
        let t = match parse(entry, &laid.text) {
            Ok(Ok((t, _))) => Some(t),
            Ok(r) => {
                out.push(mismatch("reject", format!("{} {:?}: {}", entry, laid.text, show(&r))));
                None
            }
            Err(p) => {
                out.push(mismatch("panic", format!("{} {:?}: {}", entry, laid.text, p)));
                None
            }
        };
        (laid, t)
    };
    let (first, second, other) = (read(&a, 0), read(&b, 0), read(&b, LAYOUTS - 3));
    let (t, u, v) = match (first.1, second.1, other.1) {
        (Some(t), Some(u), Some(v)) => (t, u, v),
        _ => return out,
    };
    let (x, y) = (&first.0.text, &second.0.text);
    let lin = u.lin_in(Lin { kept: Some(Kept::default()), ..Lin::default() });
    compare_tree(arr(get(case, "out")), &lin, &second.0, &mut out);
    let (ft, fu) = (t.untracked(), u.untracked());
    match alike(&ft, &fu) {
        Some(r) if r == same => {}
        r => out.push(mismatch(if same { "equal:missed" } else { "equal:confused" }, format!("{} {:?} and {:?} without places: equal is {:?}", entry, x, y, r))),
    }
    // what is printed tells what is recorded
    let (px, py) = (format!("{:?}", ft), format!("{:?}", fu));
    if !same && px == py {
        out.push(mismatch("print:confused", format!("{} {:?} and {:?} are both printed as {}", entry, x, y, px)));
    }
    if a == b && px != py {
        out.push(mismatch("print:varies", format!("{} {:?} is printed as {} and as {}", entry, x, px, py)));
    }
    // places count until they are forgotten
    if alike(&u, &u.clone()) != Some(true) || format!("{:?}", u) != format!("{:?}", u.clone()) || u.clone().lin().events != lin.events {
        out.push(mismatch("clone", format!("{} {:?}: a copy of the tree differs", entry, y)));
    }
    let moved = v.lin().events != lin.events;
    if moved && alike(&u, &v) != Some(false) {
        out.push(mismatch("equal:places", format!("{} {:?} and {:?} have trees of different places, taken for equal", entry, y, other.0.text)));
    }
    if alike(&fu, &v.untracked()) != Some(true) {
        out.push(mismatch("equal:layout", format!("{} {:?} and {:?} differ without their places", entry, y, other.0.text)));
    }
    if a != b && x == y {
        panic!("{:?} and {:?} have the same text", a, b);
    }
    if let Some(ref k) = lin.kept {
        parts(&mut out, k, &quotes);
    }
    out
}

pub fn replay(files: &[String], only: Option<usize>) {
    let mut cases = Vec::new();
    for f in files {
        cases.extend(load_lazy(f));
    }
    run_cases(&cases, only, check);
}
