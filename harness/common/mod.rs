//! Shared by every harness crate: reads operations (one JSON object per line) from the file named
//! by the first argument, performs each on the real code and writes the same object with the
//! result (`res`) and the projected state afterwards (`obs`) to standard output.
//!
//! Text crosses the boundary as an array of code points; a result is an array whose first element
//! is a tag. A panic in the code under test is a result like any other: `["panic", text]`.
#![allow(dead_code)]

pub use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Sut {
    fn reset(&mut self, op: &Value);
    fn apply(&mut self, op: &Value) -> Value;
    fn observe(&mut self) -> Value;
}

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => a
            .iter()
            .map(|c| char::from_u32(c.as_u64().expect("code point") as u32).expect("scalar value"))
            .collect(),
        _ => panic!("harness: not a text: {v}"),
    }
}

pub fn opt(v: Option<Value>) -> Value {
    match v {
        Some(v) => json!(["some", v]),
        None => json!(["none"]),
    }
}

pub fn ok(v: Value) -> Value {
    json!(["ok", v])
}

pub fn err(tag: &str) -> Value {
    json!(["err", tag])
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

pub fn run<S: Sut>(mut sut: S) {
    std::panic::set_hook(Box::new(|_| {}));
    let path = std::env::args().nth(1).expect("usage: harness OPS");
    let file = std::io::BufReader::new(std::fs::File::open(path).expect("operations"));
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut dead = false;
    for line in file.lines() {
        let line = line.expect("line");
        if line.is_empty() {
            continue;
        }
        let mut op: Value = serde_json::from_str(&line).expect("operation");
        // A crash or a hang of the process is attributed to the line that has no result.
        out.write_all(b"{").unwrap();
        out.flush().unwrap();
        let (res, obs) = if op["op"] == "reset" {
            dead = false;
            match catch_unwind(AssertUnwindSafe(|| {
                sut.reset(&op);
                sut.observe()
            })) {
                Ok(obs) => (json!(["reset"]), obs),
                Err(e) => (json!(["panic", panic_text(e)]), json!([])),
            }
        } else if dead {
            (json!(["skipped"]), json!([]))
        } else {
            match catch_unwind(AssertUnwindSafe(|| {
                let res = sut.apply(&op);
                let obs = sut.observe();
                (res, obs)
            })) {
                Ok(r) => r,
                Err(e) => {
                    let e = panic_text(e);
                    if e.starts_with("harness:") {
                        eprintln!("{e} in {line}");
                        std::process::exit(3);
                    }
                    dead = true;
                    (json!(["panic", e]), json!([]))
                }
            }
        };
        // Kept apart from `res`, so that a specification need not tell the two by their shape.
        let st = match res[0].as_str() {
            Some("panic") => "panic",
            Some("skipped") => "skipped",
            _ => "done",
        };
        let map = op.as_object_mut().expect("operation is an object");
        map.insert("st".into(), st.into());
        map.insert("res".into(), res);
        map.insert("obs".into(), obs);
        let s = serde_json::to_string(&op).unwrap();
        out.write_all(s[1..].as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
}
