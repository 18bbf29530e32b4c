//! JSON encoding shared with the TLA+ trace specs.
use fbas_analyzer::{Fbas, NodeIdSet, QuorumSet};
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// TLC integers are 32 bit: thresholds from here on are encoded as BIG, which stands for usize::MAX.
pub const BIG: usize = 1_000_000;

pub fn enc_t(t: usize) -> usize {
    t.min(BIG)
}
pub fn enc_qset(q: &QuorumSet) -> Value {
    json!({
        "t": enc_t(q.threshold),
        "v": q.validators,
        "i": q.inner_quorum_sets.iter().map(enc_qset).collect::<Vec<_>>(),
    })
}
pub fn dec_qset(v: &Value) -> QuorumSet {
    let t = v["t"].as_u64().unwrap() as usize;
    QuorumSet {
        threshold: if t >= BIG { usize::MAX } else { t },
        validators: ids(&v["v"]),
        inner_quorum_sets: v["i"].as_array().unwrap().iter().map(dec_qset).collect(),
    }
}
pub fn dec_fbas(v: &Value) -> Fbas {
    let mut f = Fbas::new();
    for q in v["q"].as_array().unwrap() {
        f.add_generic_node(dec_qset(q));
    }
    f
}
pub fn enc_qsets(qs: &[QuorumSet]) -> Value {
    Value::Array(qs.iter().map(enc_qset).collect())
}
pub fn enc_fbas(f: &Fbas) -> Value {
    let n = f.number_of_nodes();
    let q: Vec<Value> = (0..n).map(|x| enc_qset(&f.get_quorum_set(x).unwrap())).collect();
    json!({"n": n, "q": q})
}
pub fn ids(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
pub fn set(v: &[usize]) -> NodeIdSet {
    v.iter().copied().collect()
}
pub fn enc_set(s: &NodeIdSet) -> Value {
    json!(s.iter().collect::<Vec<usize>>())
}
pub fn enc_sets(s: &[NodeIdSet]) -> Value {
    Value::Array(s.iter().map(enc_set).collect())
}
pub fn mask(m: usize, n: usize) -> Vec<usize> {
    (0..n).filter(|i| m >> i & 1 == 1).collect()
}
/// Records one call of the code under test: its fields, or the fact that it panicked.
pub fn ev(op: &str, f: impl FnOnce() -> Value) -> Value {
    let mut m = Map::new();
    m.insert("op".into(), json!(op));
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Value::Object(o)) => {
            for (k, v) in o {
                m.insert(k, v);
            }
        }
        Ok(v) => {
            m.insert("r".into(), v);
        }
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_string()
            };
            m.insert("op".into(), json!("panic"));
            m.insert("in".into(), json!(op));
            m.insert("msg".into(), json!(msg.chars().filter(|c| c.is_ascii()).take(200).collect::<String>()));
        }
    }
    Value::Object(m)
}
