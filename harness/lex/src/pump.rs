//! Texts with a part repeated: what the specification (LexPump) does with a few copies is carried
//! on to many.
use crate::real::*;
use crate::tokens;
use conform_common::*;
use serde_json::Value;
use std::collections::BTreeMap;

/// What follows in the sequence a, b, ...: numbers go on growing by as much, sequences by the same
/// piece at the same place. None if a and b do not differ in that way.
fn carry(a: &Value, b: &Value, steps: usize) -> Option<Value> {
    if let (Some(x), Some(y)) = (a.as_i64(), b.as_i64()) {
        return Some(Value::I64(x + (y - x) * steps as i64));
    }
    match (a, b) {
        (&Value::Array(ref x), &Value::Array(ref y)) if x.len() == y.len() => {
            x.iter().zip(y).map(|(x, y)| carry(x, y, steps)).collect::<Option<Vec<_>>>().map(Value::Array)
        }
        (&Value::Array(ref x), &Value::Array(ref y)) if x.len() < y.len() => {
            let d = y.len() - x.len();
            let i = x.iter().zip(y).take_while(|&(x, y)| x == y).count();
            if x[i..] != y[i + d..] { return None; }
            let mut out = x[..i].to_vec();
            for _ in 0..steps { out.extend(y[i..i + d].iter().cloned()); }
            out.extend(x[i..].iter().cloned());
            Some(Value::Array(out))
        }
        (&Value::Object(ref x), &Value::Object(ref y)) if x.len() == y.len() => {
            let mut out = BTreeMap::new();
            for (k, v) in x {
                out.insert(k.clone(), carry(v, y.get(k)?, steps)?);
            }
            Some(Value::Object(out))
        }
        _ => if a == b { Some(a.clone()) } else { None },
    }
}

const COPIES: [usize; 14] = [99, 100, 101, 255, 256, 257, 1000, 1025, 4097, 16385, 32769, 65535, 65537, 140_000];

pub fn replay(files: &[String], only: Option<usize>) {
    let mut groups: BTreeMap<(i64, String), Vec<Value>> = BTreeMap::new();
    for f in files {
        for b in load(f) {
            groups.entry((int(get(&b, "fam")), get(&b, "ops").to_string())).or_insert_with(Vec::new).push(b);
        }
    }
    let mut cases = Vec::new();
    for (key, mut g) in groups {
        if g.len() < 4 { continue; } // more copies are more tokens: no repetition inside one
        g.sort_by_key(|b| int(get(b, "copies")));
        let outcome = |b: &Value| obj(vec![("ops", get(b, "ops").clone()), ("toks", get(b, "toks").clone()), ("err", get(b, "err").clone())]);
        let (a, b) = (outcome(&g[0]), outcome(&g[1]));
        for j in 2..4 {
            match carry(&a, &b, j) {
                Some(ref c) if same(c, &outcome(&g[j])) => {}
                c => panic!("family {:?}: {} copies give {}, not {:?}", key, int(get(&g[j], "copies")), outcome(&g[j]), c),
            }
        }
        let base = int(get(&g[0], "copies")) as usize;
        let field = |f: &str| get(&g[0], f).clone();
        for &n in (base..base + 8).collect::<Vec<_>>().iter().chain(&COPIES) {
            cases.push(obj(vec![("pre", field("pre")), ("unit", field("unit")), ("post", field("post")), ("copies", real_n(n)), ("base", real_n(base)), ("first", a.clone()), ("second", b.clone())]));
        }
    }
    run_cases(&cases, only, |case| {
        let (copies, base) = (int(get(case, "copies")) as usize, int(get(case, "base")) as usize);
        let mut src = text(get(case, "pre"));
        let unit = text(get(case, "unit"));
        for _ in 0..copies { src.push_str(&unit); }
        src.push_str(&text(get(case, "post")));
        let exp = carry(get(case, "first"), get(case, "second"), copies - base).unwrap();
        let mut out = Vec::new();
        for &fill in &[true, false] {
            tokens::check(&src, &exp, fill, true, &mut out);
            if !out.is_empty() { break; }
        }
        for m in &mut out {
            let detail: String = m.detail.chars().take(300).collect();
            m.detail = format!("{:?}, {} times {:?}, {:?}: {}", text(get(case, "pre")), copies, unit, text(get(case, "post")), detail);
        }
        out
    });
}

fn real_n(x: usize) -> Value {
    n(x as u64)
}
