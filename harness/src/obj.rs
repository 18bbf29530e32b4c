//! C27: an FBAS as an object that is built, changed, restricted, stored and copied.
use crate::enc::*;
use crate::gen::*;
use fbas_analyzer::*;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn doc_names(start: &str) -> Vec<&'static str> {
    match start {
        "doc" => vec!["b", "n0", "a"],
        "dock" => vec!["n1", "n3", "n10", "N1"],
        _ => vec![],
    }
}
pub fn inputs(prop: &str, seed: u64, thorough: bool) -> Vec<Value> {
    assert_eq!(prop, "C27");
    let mut r = Rng::new(seed ^ 0x27);
    let mut hist: Vec<Value> = std::fs::read_to_string(std::env::var("HISTORIES").unwrap())
        .unwrap()
        .lines()
        .map(|l| serde_json::from_str(l).unwrap())
        .collect();
    r.shuffle(&mut hist);
    hist.truncate(if thorough { 60000 } else { 9000 });
    // long lives of bigger objects
    for _ in 0..if thorough { 300 } else { 50 } {
        let mut h = vec![*r.pick(&["new", "gen3", "gen3", "doc", "dock"])];
        for _ in 0..r.range(6, 40) {
            h.push(match r.below(20) {
                0 => "swap_last",
                1 if h.len() > 1 => "swap_first",
                2 => "reload",
                _ => "gen",
            });
        }
        for _ in 0..r.range(1, 8) {
            h.push(*r.pick(&["tail", "head", "head", "even", "odd", "all", "reload", "reload", "swap_end", "swap_end", "gen"]));
        }
        hist.push(json!(h));
    }
    hist.into_iter()
        .map(|h| {
            let names = doc_names(h[0].as_str().unwrap());
            let pool: Vec<usize> = (0..names.len()).collect();
            let q: Vec<Value> = names.iter().map(|_| enc_qset(&one_qset(&mut r, &pool))).collect();
            let universe = if h.as_array().unwrap().len() > 7 {
                json!((0..50).map(|k| format!("n{}", k)).chain(["a", "b", "N1"].iter().map(|x| x.to_string())).collect::<Vec<_>>())
            } else if r.chance(50) {
                json!(["n0", "n1", "n2", "n3", "n4", "a", "b", "n10", "N1", "", "n"])
            } else {
                json!(["x", "N1", "b", "a", "n9", "n8", "n7", "n6", "n5", "n4", "n3", "n2", "n1", "n0"])
            };
            json!({"h": h, "names": names, "q": q, "universe": universe, "seed": r.below(1 << 30)})
        })
        .collect()
}
fn one_qset(r: &mut Rng, pool: &[usize]) -> QuorumSet {
    let mut q = match r.below(4) {
        0 => QuorumSet { threshold: r.below(pool.len() + 2), validators: pool.to_vec(), inner_quorum_sets: vec![] },
        1 => rand_qset(r, pool, 0, false),
        _ => rand_qset(r, pool, 2, false),
    };
    sort_qset(&mut q);
    q
}
fn look(f: &Fbas, universe: &Value) -> Value {
    let us: Vec<&str> = universe.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let n = f.number_of_nodes();
    let look: Vec<i64> = us.iter().map(|x| f.get_node_id(x).map(|x| x as i64).unwrap_or(-1)).collect();
    let orgs = json!([{"name": "all", "validators": us}]).to_string();
    let orgs = Groupings::organizations_from_json_str(&orgs, f);
    let group: Vec<usize> = (0..n + 20).filter(|&x| orgs.get_by_member(x).is_some()).collect();
    json!({
        "n": n,
        "all": f.all_nodes().iter().collect::<Vec<usize>>(),
        "q": enc_fbas(f)["q"],
        "beyond": f.get_quorum_set(n).is_some() || f.get_quorum_set(n + 3).is_some(),
        "look": look,
        "group": group,
    })
}
fn hash_of(f: &Fbas) -> String {
    let mut h = DefaultHasher::new();
    f.hash(&mut h);
    format!("{:x}", h.finish())
}
pub fn events(_prop: &str, c: &Value) -> Vec<Value> {
    let mut r = Rng::new(c["seed"].as_u64().unwrap());
    let uni = &c["universe"];
    let mut evs = vec![];
    let mut copies: Vec<Fbas> = vec![];
    let mut f = Fbas::new();
    for tok in c["h"].as_array().unwrap() {
        let mut tok = tok.as_str().unwrap();
        let n = f.number_of_nodes();
        if tok.starts_with("swap") && n == 0 {
            tok = "all";
        } else if tok == "swap_end" {
            tok = "swap_last";
        }
        let keep: Option<Vec<usize>> = match tok {
            "tail" => Some((1..n).collect()),
            "head" => Some((0..n.saturating_sub(1)).collect()),
            "even" => Some((0..n).filter(|x| x % 2 == 0).collect()),
            "odd" => Some((0..n).filter(|x| x % 2 == 1).collect()),
            "all" => Some((0..n).collect()),
            "none" => Some(vec![]),
            _ => None,
        };
        let g = &mut f;
        let e = match tok {
            "new" => ev("fresh", || {
                *g = if r.chance(50) { Fbas::new() } else { Fbas::default() };
                json!({"m": 0, "o": look(g, uni)})
            }),
            "gen3" => ev("fresh", || {
                *g = Fbas::new_generic_unconfigured(3);
                json!({"m": 3, "o": look(g, uni)})
            }),
            "doc" | "dock" => ev("doc", || {
                let nodes: Vec<Value> = (0..c["names"].as_array().unwrap().len())
                    .map(|k| json!({"publicKey": c["names"][k], "quorumSet": named(&c["q"][k], &c["names"])}))
                    .collect();
                *g = Fbas::from_json_str(&Value::Array(nodes).to_string());
                json!({"o": look(g, uni)})
            }),
            "gen" => {
                let pool: Vec<usize> = (0..n + 1).collect();
                let q = one_qset(&mut r, &pool);
                let mut e = ev("gen", || {
                    let id = g.add_generic_node(q.clone());
                    json!({"r": id, "q": enc_qset(&q), "o": look(g, uni)})
                });
                if e["op"] == "panic" && e["msg"].as_str().unwrap().contains("uplicate") {
                    e["op"] = json!("refused");
                }
                e
            }
            "swap_first" | "swap_last" => {
                let x = if tok == "swap_first" { 0 } else { n - 1 };
                let pool: Vec<usize> = (0..n).collect();
                let q = one_qset(&mut r, &pool);
                ev("swap", || {
                    let old = g.swap_quorum_set(x, q.clone());
                    json!({"x": x, "q": enc_qset(&q), "r": enc_qset(&old), "o": look(g, uni)})
                })
            }
            "reload" => ev("reload", || {
                let text = if r.chance(50) { g.to_json_string() } else { g.to_json_string_pretty() };
                let names: Vec<Value> = serde_json::from_str::<Value>(&text)
                    .unwrap()
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| x["publicKey"].clone())
                    .collect();
                *g = Fbas::from_json_str(&text);
                json!({"names": names, "o": look(g, uni)})
            }),
            _ => ev("restrict", || {
                let keep = keep.unwrap();
                let h = g.shrunken(set(&keep)).0;
                *g = h;
                json!({"keep": keep, "o": look(g, uni)})
            }),
        };
        let op = e["op"].as_str().unwrap().to_string();
        evs.push(e);
        if op == "panic" || op == "refused" {
            break;
        }
        copies.push(f.clone());
    }
    evs.push(ev("copies", || {
        let p = 0..copies.len();
        let cmp = |a: &Fbas, b: &Fbas| {
            assert_eq!(a.partial_cmp(b), Some(a.cmp(b)));
            a.cmp(b) as i64
        };
        json!({
            "o": copies.iter().map(|f| look(f, uni)).collect::<Vec<_>>(),
            "eq": p.clone().map(|k| p.clone().map(|l| copies[k] == copies[l]).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "cmp": p.clone().map(|k| p.clone().map(|l| cmp(&copies[k], &copies[l])).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "hash": copies.iter().map(hash_of).collect::<Vec<_>>(),
        })
    }));
    evs
}
fn named(q: &Value, names: &Value) -> Value {
    json!({
        "threshold": q["t"],
        "validators": q["v"].as_array().unwrap().iter().map(|x| names[x.as_u64().unwrap() as usize].clone()).collect::<Vec<_>>(),
        "innerQuorumSets": q["i"].as_array().unwrap().iter().map(|x| named(x, names)).collect::<Vec<_>>(),
    })
}
