//! Executes operations of the algebraics crate described by ndjson commands on stdin and writes
//! one event (the command with its resolved arguments and its outcome) per line to stdout.
mod alg;
mod arr;
mod ints;
mod interval;
mod misc;
mod modi;
mod poly;
mod quad;
mod val;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use val::*;

fn resolve(v: &Value, regs: &HashMap<String, Value>) -> Option<Value> {
    if let Some(o) = v.as_object() {
        if o.len() == 1 {
            if let Some(Value::String(r)) = o.get("r") {
                return regs.get(r).cloned();
            }
        }
    }
    Some(v.clone())
}

fn dispatch(e: &Value, a: &[Value]) -> Out {
    let op = e["op"].as_str().unwrap_or("");
    let form = e["form"].as_str().unwrap_or("");
    let kind = e["kind"].as_str().unwrap_or("");
    let m = &e["m"];
    match op.split_once('.') {
        Some(("a", op)) => alg::run(op, form, kind, a),
        Some(("i", op)) => interval::run(op, form, kind, a),
        Some(("p", op)) => poly::run(op, form, kind, m, a),
        Some(("m", op)) => modi::run(op, form, kind, m, a),
        Some(("t", op)) => ints::run(op, form, kind, a),
        Some(("x", op)) => misc::run(op, form, kind, m, a),
        Some(("g", op)) => arr::run(op, form, a),
        Some(("q", op)) => quad::run(op, form, kind, a),
        _ => uns(op),
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--hooks") {
        if cfg!(algebraics_verif) {
            println!("algebraics_verif");
        }
        if cfg!(algebraics_verif_quadratic) {
            println!("algebraics_verif_quadratic");
        }
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    // a big stack: recursion depth is not what is being checked
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(work)
        .unwrap()
        .join()
        .unwrap();
}

fn work() {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut regs: HashMap<String, Value> = HashMap::new();
    let mut session = Value::Null;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let mut e: Value = serde_json::from_str(&line).expect("bad command");
        if e["s"] != session {
            regs.clear();
            session = e["s"].clone();
        }
        let raw = e["a"].as_array().cloned().unwrap_or_default();
        let mut names = Vec::new();
        let mut args = Vec::new();
        let mut missing = false;
        for v in &raw {
            names.push(match v.get("r") {
                Some(Value::String(r)) if v.as_object().unwrap().len() == 1 => s(r),
                _ => s(""),
            });
            match resolve(v, &regs) {
                Some(v) => args.push(v),
                None => {
                    missing = true;
                    break;
                }
            }
        }
        if missing {
            // an earlier operation of this session had no result
            println!("{{\"skip\": 1}}");
            continue;
        }
        let out = catch_unwind(AssertUnwindSafe(|| dispatch(&e, &args)));
        let out = match out {
            Ok(Out::Ok(v)) => serde_json::json!({"k": "ok", "v": v}),
            Ok(Out::None) => serde_json::json!({"k": "none", "v": ""}),
            Ok(Out::Err(v)) => serde_json::json!({"k": "err", "v": v}),
            Ok(Out::Unsupported(t)) => serde_json::json!({"k": "unsupported", "v": t}),
            Err(p) => {
                if let Some(u) = p.downcast_ref::<Usage>() {
                    serde_json::json!({"k": "unsupported", "v": u.0})
                } else {
                    let msg = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|v| v.to_string()))
                        .unwrap_or_default();
                    let msg: String = msg.chars().filter(|c| c.is_ascii() && *c != '"').take(120).collect();
                    serde_json::json!({"k": "panic", "v": msg})
                }
            }
        };
        if let Some(d) = e["d"].as_str() {
            if out["k"] == "ok" {
                let v = match e["sel"].as_str() {
                    Some(f) => out["v"][f].clone(),
                    None => out["v"].clone(),
                };
                regs.insert(d.to_string(), v);
            } else {
                regs.remove(d);
            }
        }
        let o = e.as_object_mut().unwrap();
        o.insert("a".into(), Value::Array(args));
        o.insert("r".into(), Value::Array(names));
        o.insert("out".into(), out);
        let mut w = stdout.lock();
        serde_json::to_writer(&mut w, &e).unwrap();
        w.write_all(b"\n").unwrap();
        w.flush().unwrap();
    }
}
