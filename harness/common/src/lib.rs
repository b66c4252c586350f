//! Shared plumbing of the conformance harnesses: reading the behaviours TLC prints, running
//! cases in parallel with panics treated as data, a watchdog for cases that never end, and
//! crash markers so that a case that kills the process can be found again.
use serde_json::Value;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Lines of the form "{...}" (a TLA+ string holding JSON), one behaviour each.
pub fn load(path: &str) -> Vec<Value> {
    let f = File::open(path).unwrap_or_else(|e| panic!("cannot open {}: {}", path, e));
    let mut lines = Vec::new();
    for line in BufReader::new(f).lines() {
        let line = line.unwrap();
        if line.starts_with("\"{") || line.starts_with('{') {
            lines.push(line);
        }
    }
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let chunk = (lines.len() + n - 1) / n.max(1) + 1;
    let mut out = Vec::with_capacity(lines.len());
    std::thread::scope(|s| {
        let hs: Vec<_> = lines.chunks(chunk).map(|c| s.spawn(move || c.iter().map(|l| parse(l)).collect::<Vec<_>>())).collect();
        for h in hs {
            out.extend(h.join().unwrap());
        }
    });
    out
}

/// The same, each left as text until `run_cases` comes to it.
pub fn load_lazy(path: &str) -> Vec<Value> {
    let f = File::open(path).unwrap_or_else(|e| panic!("cannot open {}: {}", path, e));
    BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| l.starts_with("\"{") || l.starts_with('{'))
        .map(|mut l| {
            l.shrink_to_fit();
            Value::String(l)
        })
        .collect()
}

fn case_of(v: &Value) -> Cow<'_, Value> {
    match *v {
        Value::String(ref line) => Cow::Owned(parse(line)),
        _ => Cow::Borrowed(v),
    }
}

fn parse(line: &str) -> Value {
    let json: Value = serde_json::from_str(line).unwrap_or_else(|e| panic!("bad behaviour line {}: {}", line, e));
    match json {
        Value::String(s) => serde_json::from_str(&s).unwrap_or_else(|e| panic!("bad behaviour {}: {}", s, e)),
        v => v,
    }
}

pub fn arr(v: &Value) -> &Vec<Value> {
    match *v {
        Value::Array(ref a) => a,
        _ => panic!("expected an array: {}", v),
    }
}

pub fn get<'a>(v: &'a Value, k: &str) -> &'a Value {
    v.as_object().and_then(|o| o.get(k)).unwrap_or_else(|| panic!("no field {} in {}", k, v))
}

pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("expected a string: {}", v))
}

pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("expected an integer: {}", v))
}

/// Code points to text. Lone surrogates cannot occur in a Rust string.
pub fn text(v: &Value) -> String {
    arr(v).iter().map(|c| std::char::from_u32(int(c) as u32).expect("scalar value")).collect()
}

pub fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::U64(c as u64)).collect())
}

thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));

pub fn obj(fields: Vec<(&str, Value)>) -> Value {
    let mut o = BTreeMap::new();
    for (k, v) in fields {
        o.insert(k.to_string(), v);
    }
    Value::Object(o)
}

/// Integers are integers whatever their JSON representation.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (&Value::Array(ref x), &Value::Array(ref y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (&Value::Object(ref x), &Value::Object(ref y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, x), (l, y))| k == l && same(x, y))
        }
        _ => match (a.as_i64(), b.as_i64()) {
            (Some(x), Some(y)) => x == y,
            _ => a == b,
        },
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// Runs code under test; a panic is an observation, not a failure of the harness.
pub fn observe<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().replace('\n', " ")))
}

pub struct Mismatch {
    pub tag: String,
    pub detail: String,
}

pub fn mismatch<A: Into<String>, B: Into<String>>(tag: A, detail: B) -> Mismatch {
    Mismatch { tag: tag.into(), detail: detail.into() }
}

pub struct Summary {
    pub cases: usize,
    pub mismatches: usize,
}

const CASE_LIMIT: Duration = Duration::from_secs(10);

/// Runs `f` on every case. Mismatches are printed as JSON lines {"tag", "case", "detail"}.
/// `CONFORM_MARK` names a file prefix where each worker records the case it is running.
pub fn run_cases<F>(cases: &[Value], only: Option<usize>, f: F) -> Summary
where
    F: Fn(&Value) -> Vec<Mismatch> + Sync,
{
    quiet_panics();
    let workers = if only.is_some() { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4) };
    let next = AtomicUsize::new(0);
    let bad = AtomicUsize::new(0);
    let per_tag: Mutex<std::collections::BTreeMap<String, usize>> = Mutex::new(Default::default());
    let mark = std::env::var("CONFORM_MARK").ok();
    let running: Vec<Arc<Mutex<Option<(usize, Instant)>>>> = (0..workers).map(|_| Arc::new(Mutex::new(None))).collect();
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, bad, mark, slot, f, per_tag, done) = (&next, &bad, &mark, running[w].clone(), &f, &per_tag, &done);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let marker = mark.as_ref().map(|m| File::create(format!("{}.{}", m, w)).unwrap());
                    loop {
                        const BATCH: usize = 64;
                        let lo = next.fetch_add(BATCH, Ordering::SeqCst);
                        if lo >= cases.len() {
                            break;
                        }
                        for i in lo..(lo + BATCH).min(cases.len()) {
                            if only.map_or(false, |o| o != i) {
                                continue;
                            }
                            *slot.lock().unwrap() = Some((i, Instant::now()));
                            if let Some(ref m) = marker {
                                let _ = m.write_at(format!("{:<20}", i).as_bytes(), 0);
                            }
                            let case = case_of(&cases[i]);
                            let found = match observe(|| f(&case)) {
                                Ok(found) => found,
                                Err(p) => vec![mismatch("panic", p)],
                            };
                            for mm in found {
                                bad.fetch_add(1, Ordering::SeqCst);
                                let n = {
                                    let mut t = per_tag.lock().unwrap();
                                    let n = t.entry(mm.tag.clone()).or_insert(0);
                                    *n += 1;
                                    *n
                                };
                                if n <= 20 {
                                    report(&mm, i, &case);
                                }
                            }
                            *slot.lock().unwrap() = None;
                        }
                    }
                    if let Some(ref m) = marker {
                        let _ = m.write_at(format!("{:<20}", "done").as_bytes(), 0);
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog
        while done.load(Ordering::SeqCst) < workers {
            std::thread::sleep(Duration::from_millis(20));
            for slot in &running {
                let stuck = match *slot.lock().unwrap() {
                    Some((i, t)) if t.elapsed() > CASE_LIMIT => Some(i),
                    _ => None,
                };
                if let Some(i) = stuck {
                    report(&mismatch("hang", "no answer within 10 s"), i, &case_of(&cases[i]));
                    println!("{{\"summary\":true,\"cases\":{},\"mismatches\":{}}}", i, bad.load(Ordering::SeqCst) + 1);
                    std::process::exit(0);
                }
            }
        }
    });
    for (tag, n) in per_tag.lock().unwrap().iter() {
        println!("{{\"tagcount\":{},\"n\":{}}}", serde_json::to_string(tag).unwrap(), n);
    }
    let sum = Summary { cases: cases.len(), mismatches: bad.load(Ordering::SeqCst) };
    println!("{{\"summary\":true,\"cases\":{},\"mismatches\":{}}}", sum.cases, sum.mismatches);
    sum
}

static OUT: Mutex<()> = Mutex::new(());

fn report(m: &Mismatch, index: usize, case: &Value) {
    let _g = OUT.lock().unwrap();
    let tag = serde_json::to_string(&m.tag).unwrap();
    let detail = serde_json::to_string(&m.detail).unwrap();
    let case = serde_json::to_string(case).unwrap();
    println!("{{\"tag\":{},\"index\":{},\"detail\":{},\"case\":{}}}", tag, index, detail, case);
    let _ = std::io::stdout().flush();
}

/// A small deterministic generator (splitmix64).
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let n = xs.len();
        &xs[self.below(n)]
    }
}
