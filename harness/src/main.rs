//! Records behaviours of the real fbas_analyzer code for the TLA+ trace specifications.
//!   harness inputs PROP SEED TIER OUT     -> inputs, one JSON object per line
//!   harness record PROP INPUTS OUT        -> inputs + the events observed, one line per case
mod enc;
mod gen;
mod core;
mod bins;
mod io;
mod docs;
mod obj;
mod sim;

use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// set when something was observed that cannot be right and took long: the rest is not recorded
pub static ENOUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn inputs(prop: &str, seed: u64, thorough: bool) -> Vec<Value> {
    match prop {
        "C12" | "C13" | "C14" | "C15" | "C16" => io::inputs(prop, seed, thorough),
        "C17" | "C18" | "C19" | "C20" | "K20" | "C30" => sim::inputs(prop, seed, thorough),
        "C21" | "C22" | "C23" | "C25" | "C26" => bins::inputs(prop, seed, thorough),
        "C27" => obj::inputs(prop, seed, thorough),
        "C29" => docs::inputs(prop, seed, thorough),
        _ => core::inputs(prop, seed, thorough),
    }
}
fn events(prop: &str, input: &Value) -> Vec<Value> {
    match prop {
        "C12" | "C13" | "C14" | "C15" | "C16" => io::events(prop, input),
        "C17" | "C18" | "C19" | "C20" | "K20" | "C30" => sim::events(prop, input),
        "C21" | "C22" | "C23" | "C25" | "C26" => bins::events(prop, input),
        "C27" => obj::events(prop, input),
        "C29" => docs::events(prop, input),
        _ => core::events(prop, input),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args[0].as_str() {
        "inputs" => {
            let mut w = BufWriter::new(std::fs::File::create(&args[4]).unwrap());
            let v = inputs(&args[1], args[2].parse().unwrap(), args[3] == "thorough");
            for (k, mut x) in v.into_iter().enumerate() {
                x["id"] = json!(k + 1);
                writeln!(w, "{}", x).unwrap();
            }
        }
        "record" => record(&args[1], &args[2], &args[3]),
        _ => panic!("usage"),
    }
}

/// TLC reads neither null nor floats nor integers over 31 bits: make them texts.
fn clean(v: Value) -> Value {
    match v {
        Value::Null => json!("null"),
        Value::Number(n) => match n.as_i64() {
            Some(x) if x.abs() < 1 << 31 => json!(x),
            _ => json!(n.to_string()),
        },
        Value::Array(a) => Value::Array(a.into_iter().map(clean).collect()),
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, clean(v))).collect()),
        v => v,
    }
}

fn record(prop: &str, inp: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::var("CASE_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(120);
    // (a limit on the whole, so that slow code still gets an answer)
    let budget: u64 = std::env::var("RECORD_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(1 << 30);
    let t0 = Instant::now();
    let started = Arc::new(AtomicU64::new(0));
    let current: Arc<Mutex<Option<Value>>> = Arc::new(Mutex::new(None));
    let w = Arc::new(Mutex::new(BufWriter::new(std::fs::File::create(out).unwrap())));
    {
        // a call that does not return is an observation too
        let (started, current, w) = (started.clone(), current.clone(), w.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = started.load(Ordering::SeqCst);
            if t0.elapsed().as_secs() > s + limit {
                let mut c = match current.lock().unwrap().clone() {
                    Some(c) => c,
                    None => continue,
                };
                c["ev"] = json!([{"op": "hang"}]);
                let mut w = w.lock().unwrap();
                writeln!(w, "{}", c).unwrap();
                w.flush().unwrap();
                std::process::exit(3);
            }
        });
    }
    // big stack: deep recursion of the code under test on small inputs is not what we look for
    let (prop, inp, out) = (prop.to_string(), inp.to_string(), out.to_string());
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let f = std::io::BufReader::new(std::fs::File::open(&inp).unwrap());
            for line in f.lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let mut c: Value = serde_json::from_str(&line).unwrap();
                std::fs::write(format!("{}.cur", out), &line).unwrap();
                *current.lock().unwrap() = Some(c.clone());
                started.store(t0.elapsed().as_secs(), Ordering::SeqCst);
                let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| events(&prop, &c)))
                    .unwrap_or_else(|_| vec![json!({"op": "panic", "in": "setup", "msg": ""})]);
                c["ev"] = Value::Array(e.into_iter().map(clean).collect());
                writeln!(w.lock().unwrap(), "{}", c).unwrap();
                if ENOUGH.load(Ordering::SeqCst) || t0.elapsed().as_secs() > budget {
                    break;
                }
            }
            *current.lock().unwrap() = None;
            w.lock().unwrap().flush().unwrap();
            std::fs::remove_file(format!("{}.cur", out)).ok();
        })
        .unwrap()
        .join()
        .unwrap();
}
