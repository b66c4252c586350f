//! Programs with a part repeated: what the specification (ParsePump) does with a few copies is
//! carried on to many; nested ones are replayed at the depths the specification was run at.
use crate::layout::lay;
use crate::program;
use conform_common::*;
use serde_json::Value;
use std::collections::BTreeMap;

fn num(v: i64) -> Value {
    if v < 0 { Value::I64(v) } else { Value::U64(v as u64) }
}

/// The same but for the numbers, which go on as from a to b (tokens counted, tokens named).
fn carry(a: &Value, b: &Value, steps: i64) -> Option<Value> {
    if let (Some(x), Some(y)) = (a.as_i64(), b.as_i64()) {
        return Some(num(x + (y - x) * steps));
    }
    match (a, b) {
        (&Value::String(ref x), &Value::String(ref y)) if x != y => {
            let (x, y) = (x.parse::<i64>().ok()?, y.parse::<i64>().ok()?);
            Some(Value::String((x + (y - x) * steps).to_string()))
        }
        (&Value::Array(ref x), &Value::Array(ref y)) if x.len() == y.len() => {
            x.iter().zip(y).map(|(x, y)| carry(x, y, steps)).collect::<Option<Vec<_>>>().map(Value::Array)
        }
        _ => if a == b { Some(a.clone()) } else { None },
    }
}

/// Events and tokens: the same up to somewhere, then a new piece each time, which names tokens further on
/// by the unit's length, then the rest.
fn carry_list(a: &[Value], b: &[Value], unit: i64, steps: i64) -> Option<Vec<Value>> {
    let d = b.len().checked_sub(a.len())?;
    let i = a.iter().zip(b).take_while(|&(x, y)| x == y).count();
    let mut out = a[..i].to_vec();
    for k in 0..steps {
        out.extend(b[i..i + d].iter().map(|e| shift(e, unit * k)));
    }
    for (x, y) in a[i..].iter().zip(&b[i + d..]) {
        out.push(carry(x, y, steps)?);
    }
    Some(out)
}

/// An event that names a token names one further on.
fn shift(e: &Value, by: i64) -> Value {
    let mut e = e.clone();
    if let Value::Array(ref mut a) = e {
        if a.len() == 3 {
            let i = int(&a[2]);
            if i > 0 { a[2] = num(i + by); }
        }
    }
    e
}

struct Outcome {
    toks: Vec<Value>,
    out: Vec<Value>,
    res: Value,
    err: Value,
}

fn read(b: &Value) -> Outcome {
    let list = |f: &str| arr(get(b, f)).to_vec();
    Outcome { toks: list("toks"), out: list("out"), res: get(b, "res").clone(), err: get(b, "err").clone() }
}

fn carried(a: &Outcome, b: &Outcome, unit: i64, steps: i64) -> Option<Outcome> {
    Some(Outcome {
        toks: carry_list(&a.toks, &b.toks, unit, steps)?,
        out: carry_list(&a.out, &b.out, unit, steps)?,
        res: carry(&a.res, &b.res, steps)?,
        err: carry(&a.err, &b.err, steps)?,
    })
}

fn alike(a: &Outcome, b: &Outcome) -> bool {
    let eq = |x: &[Value], y: &[Value]| same(&Value::Array(x.to_vec()), &Value::Array(y.to_vec()));
    eq(&a.toks, &b.toks) && eq(&a.out, &b.out) && same(&a.res, &b.res) && same(&a.err, &b.err)
}

const FLAT: [i64; 10] = [31, 64, 127, 255, 256, 257, 1000, 4097, 33_000, 66_000];
const LEFT: [i64; 4] = [20, 64, 257, 1000];

pub fn replay(files: &[String], only: Option<usize>) {
    let mut groups: BTreeMap<i64, Vec<Value>> = BTreeMap::new();
    let mut cases = Vec::new();
    for f in files {
        for b in load(f) {
            if st(get(&b, "kind")) != "nested" {
                groups.entry(int(get(&b, "fam"))).or_insert_with(Vec::new).push(b.clone());
            }
            cases.push(b);
        }
    }
    for (key, mut g) in groups {
        g.sort_by_key(|b| int(get(b, "copies")));
        assert!(g.len() == 4, "family {}: {} outcomes", key, g.len());
        let unit = int(get(&g[1], "total")) - int(get(&g[0], "total"));
        let (a, b) = (read(&g[0]), read(&g[1]));
        for j in 2..4 {
            let is = read(&g[j]);
            match carried(&a, &b, unit, j as i64) {
                Some(ref c) if alike(c, &is) => {}
                c => panic!("family {}: {} copies give {:?} {:?}, not {:?}", key, j + 2, is.err, is.out, c.map(|c| (c.err, c.out))),
            }
        }
        let many: &[i64] = if st(get(&g[0], "kind")) == "flat" { &FLAT } else { &LEFT };
        for &n in many {
            cases.push(obj(vec![("first", g[0].clone()), ("second", g[1].clone()), ("unit", num(unit)), ("many", num(n))]));
        }
    }
    run_cases(&cases, only, |case| {
        if case.as_object().unwrap().get("many").is_none() {
            return program::check(case);
        }
        let (n, unit) = (int(get(case, "many")), int(get(case, "unit")));
        let (a, b) = (read(get(case, "first")), read(get(case, "second")));
        let entry = st(get(get(case, "first"), "entry"));
        let want = carried(&a, &b, unit, n - 2).unwrap();
        let toks: Vec<(String, bool)> = want.toks.iter().map(|t| { let t = arr(t); (st(&t[0]).to_string(), t[1] == Value::Bool(true)) }).collect();
        let mut out = Vec::new();
        for layout in 0..2 {
            let laid = lay(&toks, layout);
            match program::parse(entry, &laid.text) {
                Err(p) => out.push(mismatch("panic", p)),
                Ok(ref got) => program::judge(got, &toks, st(&want.res), arr(&want.err), &want.out, &laid, &mut out),
            }
            if !out.is_empty() { break; }
        }
        for m in &mut out {
            let detail: String = m.detail.chars().take(300).collect();
            let few: Vec<&str> = a.toks.iter().map(|t| st(&arr(t)[0])).collect();
            m.detail = format!("{} {:?} with {} copies, not 2, of its repeated part: {}", entry, few.join(" "), n, detail);
        }
        out
    });
}
