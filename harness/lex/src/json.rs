//! Replays accessor histories of the specification (MCUnjson) on real JSON objects.
use conform_common::*;
use serde_json::Value;
use unjson::ty::{Object, TyOf};
use unjson::error::Error;
use unjson::{ExtractField, GetField, Unjson};

fn value(v: &Value) -> Value {
    let x = st(get(v, "v"));
    match st(get(v, "ty")) {
        "Null" => Value::Null,
        "Bool" => Value::Bool(x == "true"),
        "I64" => Value::I64(x.parse().unwrap()),
        "U64" => Value::U64(x.parse().unwrap()),
        "F64" => Value::F64(x.parse().unwrap()),
        ty if x.starts_with("rep ") || x.starts_with("deep ") => large(ty, x),
        "String" => Value::String(x.to_string()),
        "Array" | "Object" => serde_json::from_str(x).unwrap(),
        t => panic!("unknown representation {}", t),
    }
}

/// "rep N": a string, array or object of N parts; "deep N": N of them inside each other.
fn large(ty: &str, x: &str) -> Value {
    let mut words = x.split(' ');
    let (how, n) = (words.next().unwrap(), words.next().unwrap().parse::<usize>().unwrap());
    let one = |name: String, v: Value| if ty == "Array" { Value::Array(vec![v]) } else { Value::Object(Some((name, v)).into_iter().collect()) };
    match (ty, how) {
        ("String", _) => Value::String((0..n).map(|i| ['x', '\u{e9}', '"', '\u{1d49c}'][i % 4]).collect()),
        ("Array", "rep") => Value::Array((0..n).map(|i| Value::U64(i as u64)).collect()),
        ("Object", "rep") => Value::Object((0..n).map(|i| (format!("f{}", i), Value::I64(-(i as i64)))).collect()),
        _ => (0..n).fold(Value::Null, |v, i| one(format!("{}", i), v)),
    }
}

fn object(v: &Value) -> Object {
    arr(v).iter().map(|f| { let f = arr(f); (st(&f[0]).to_string(), value(&f[1])) }).collect()
}

/// Identity of values: the same representation and datum.
fn identical(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (&Value::I64(x), &Value::I64(y)) => x == y,
        (&Value::U64(x), &Value::U64(y)) => x == y,
        (&Value::F64(x), &Value::F64(y)) => x.to_bits() == y.to_bits(),
        (&Value::I64(_), _) | (&Value::U64(_), _) | (&Value::F64(_), _) => false,
        _ => a == b,
    }
}

/// What an accessor answered.
#[derive(Debug)]
enum Ans { Val(Value), I(i64), U(u64), F(f64), None, Err(Error) }

trait IntoAns { fn ans(self) -> Ans; }
impl IntoAns for Value { fn ans(self) -> Ans { Ans::Val(self) } }
impl<'a> IntoAns for &'a Value { fn ans(self) -> Ans { Ans::Val(self.clone()) } }
impl IntoAns for String { fn ans(self) -> Ans { Ans::Val(Value::String(self)) } }
impl<'a> IntoAns for &'a str { fn ans(self) -> Ans { Ans::Val(Value::String(self.to_string())) } }
impl IntoAns for Vec<Value> { fn ans(self) -> Ans { Ans::Val(Value::Array(self)) } }
impl<'a> IntoAns for &'a Vec<Value> { fn ans(self) -> Ans { Ans::Val(Value::Array(self.clone())) } }
impl IntoAns for Object { fn ans(self) -> Ans { Ans::Val(Value::Object(self)) } }
impl<'a> IntoAns for &'a Object { fn ans(self) -> Ans { Ans::Val(Value::Object(self.clone())) } }
impl IntoAns for bool { fn ans(self) -> Ans { Ans::Val(Value::Bool(self)) } }
impl IntoAns for i64 { fn ans(self) -> Ans { Ans::I(self) } }
impl IntoAns for u64 { fn ans(self) -> Ans { Ans::U(self) } }
impl IntoAns for f64 { fn ans(self) -> Ans { Ans::F(self) } }
impl<T: IntoAns> IntoAns for Option<T> { fn ans(self) -> Ans { match self { Some(x) => x.ans(), None => Ans::None } } }
impl<T: IntoAns> IntoAns for Result<T, Error> { fn ans(self) -> Ans { match self { Ok(x) => x.ans(), Err(e) => Ans::Err(e) } } }

fn call(o: &mut Object, f: &str, t: &str, opt: bool, name: &'static str) -> Ans {
    match (f, t, opt) {
        ("get", "field", _) => o.get_field(name).ans(),
        ("get", "string", false) => o.get_string(name).ans(),
        ("get", "string", true) => o.get_string_opt(name).ans(),
        ("get", "array", false) => o.get_array(name).ans(),
        ("get", "array", true) => o.get_array_opt(name).ans(),
        ("get", "object", false) => o.get_object(name).ans(),
        ("get", "object", true) => o.get_object_opt(name).ans(),
        ("get", "boolean", false) => o.get_bool(name).ans(),
        ("get", "boolean", true) => o.get_bool_opt(name).ans(),
        ("get", "i64", false) => o.get_i64(name).ans(),
        ("get", "i64", true) => o.get_i64_opt(name).ans(),
        ("get", "u64", false) => o.get_u64(name).ans(),
        ("get", "u64", true) => o.get_u64_opt(name).ans(),
        ("get", "f64", false) => o.get_f64(name).ans(),
        ("get", "f64", true) => o.get_f64_opt(name).ans(),
        ("get", "number", false) => o.get_number(name).ans(),
        ("get", "number", true) => o.get_number_opt(name).ans(),
        ("extract", "field", _) => o.extract_field(name).ans(),
        ("extract", "string", false) => o.extract_string(name).ans(),
        ("extract", "string", true) => o.extract_string_opt(name).ans(),
        ("extract", "array", false) => o.extract_array(name).ans(),
        ("extract", "array", true) => o.extract_array_opt(name).ans(),
        ("extract", "object", false) => o.extract_object(name).ans(),
        ("extract", "object", true) => o.extract_object_opt(name).ans(),
        ("extract", "boolean", false) => o.extract_bool(name).ans(),
        ("extract", "boolean", true) => o.extract_bool_opt(name).ans(),
        ("extract", "i64", false) => o.extract_i64(name).ans(),
        ("extract", "i64", true) => o.extract_i64_opt(name).ans(),
        ("extract", "u64", false) => o.extract_u64(name).ans(),
        ("extract", "u64", true) => o.extract_u64_opt(name).ans(),
        ("extract", "f64", false) => o.extract_f64(name).ans(),
        ("extract", "f64", true) => o.extract_f64_opt(name).ans(),
        ("extract", "number", false) => o.extract_number(name).ans(),
        ("extract", "number", true) => o.extract_number_opt(name).ans(),
        ("to", _, _) => {
            let v = o[name].clone();
            match (t, opt) {
                ("string", false) => v.into_string().ans(),
                ("string", true) => v.into_string_opt().ans(),
                ("array", false) => v.into_array().ans(),
                ("array", true) => v.into_array_opt().ans(),
                ("object", false) => v.into_object().ans(),
                ("object", true) => v.into_object_opt().ans(),
                ("boolean", false) => v.to_bool().ans(),
                ("boolean", true) => v.to_bool_opt().ans(),
                ("i64", false) => v.to_i64().ans(),
                ("i64", true) => v.to_i64_opt().ans(),
                ("u64", false) => v.to_u64().ans(),
                ("u64", true) => v.to_u64_opt().ans(),
                ("f64", false) => v.to_f64().ans(),
                ("f64", true) => v.to_f64_opt().ans(),
                ("number", false) => v.to_number().ans(),
                ("number", true) => v.to_number_opt().ans(),
                _ => panic!("unknown conversion {}", t),
            }
        }
        _ => panic!("unknown call {} {} {}", f, t, opt),
    }
}

/// The API wants names that live for ever.
fn field_name(s: &str) -> &'static str {
    const NAMES: [&'static str; 9] = ["a", "b", "c", "", "A", "a.b", "ab", "type", "/a"];
    NAMES.iter().find(|n| **n == s).unwrap_or_else(|| panic!("unknown field {}", s))
}

/// `datum` is the specification's name of the value looked at.
fn agrees(want: &[Value], before: Option<&Value>, got: &Ans) -> bool {
    match st(&want[0]) {
        "missing" => match *got { Ans::Err(ref e @ Error::MissingField(f)) => f == st(&want[1]) && format!("{}", e).contains(&format!("'{}'", f)), _ => false },
        "type" => match *got {
            // The word for the expected type may also mention null.
            Ans::Err(ref e @ Error::TypeMismatch(exp, ty)) => {
                exp.split(" or ").next() == Some(st(&want[1])) && format!("{}", ty) == st(&want[2])
                    && before.map_or(false, |v| v.ty() == ty)
                    && format!("{}", e) == format!("expected {}, got {}", exp, ty)
            }
            _ => false,
        },
        _ => match (st(&want[1]), got) {
            ("none", &Ans::None) => true,
            ("i64", &Ans::I(x)) => x.to_string() == st(&want[2]),
            ("u64", &Ans::U(x)) => x.to_string() == st(&want[2]),
            ("f64", &Ans::F(x)) | ("number", &Ans::F(x)) => x.to_bits() == st(&want[2]).parse::<f64>().unwrap().to_bits(),
            ("value", &Ans::Val(ref x)) | ("string", &Ans::Val(ref x)) | ("array", &Ans::Val(ref x)) | ("object", &Ans::Val(ref x))
            | ("boolean", &Ans::Val(ref x)) => before.map_or(false, |v| identical(v, x)),
            _ => false,
        },
    }
}

fn same_object(a: &Object, b: &Object) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && identical(x, y))
}

/// Tags: answer:<fn>:<type>:<opt|req>, state:<fn>
pub fn replay(files: &[String], only: Option<usize>) {
    let mut cases = Vec::new();
    for f in files { cases.extend(load_lazy(f)); }
    run_cases(&cases, only, |case| {
        let mut out = Vec::new();
        let mut o = object(get(case, "init"));
        for (i, ev) in arr(get(case, "hist")).iter().enumerate() {
            let (f, t) = (st(get(ev, "fn")), st(get(ev, "t")));
            let opt = *get(ev, "opt") == Value::Bool(true);
            let name = field_name(st(get(ev, "f")));
            let before = o.get(name).cloned();
            let want = arr(get(ev, "res"));
            match observe(|| call(&mut o, f, t, opt, name)) {
                Err(p) => { out.push(mismatch("panic", format!("call {} {}: {}", i, f, p))); break; }
                Ok(got) => {
                    if !agrees(want, before.as_ref(), &got) {
                        out.push(mismatch(format!("answer:{}:{}:{}:{}", f, t, if opt { "opt" } else { "req" }, st(&want[0])),
                                          format!("call {}: {}_{}{}({}) expected {}, got {:?}", i, f, t, if opt { "_opt" } else { "" }, name,
                                                  Value::Array(want.clone()), got)));
                    }
                }
            }
            let after = object(get(ev, "obj"));
            if !same_object(&o, &after) {
                out.push(mismatch(format!("state:{}", f), format!("call {}: {}_{}({}): object is {:?}, expected {:?}", i, f, t, name, o, after)));
                break;
            }
        }
        out
    });
}
