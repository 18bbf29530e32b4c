//! C12..C16: JSON, groupings, merging, results.
use crate::core::{case_value, mix};
use crate::enc::*;
use crate::gen::*;
use fbas_analyzer::*;
use serde_json::{json, Value};

pub fn scratch() -> String {
    let d = std::env::var("SCRATCH").unwrap();
    std::fs::create_dir_all(&d).unwrap();
    d
}
/// Makes a JSON array longer without changing what it means: white space at the top level or within
/// its first object, or a part of the first object that nobody asks for.
pub fn padded(text: &str, pad: &Value) -> String {
    let size = pad["size"].as_u64().unwrap_or(0) as usize;
    if size == 0 {
        return text.to_string();
    }
    let blank = "  \n ".repeat(size / 4);
    let object = text.find('{');
    match (pad["how"].as_u64().unwrap(), object) {
        (0, _) => format!("{}{}", blank, text),
        (1, _) => text.replacen('[', &format!("[{}", blank), 1),
        (2, Some(at)) => format!("{}{{{}{}", &text[..at], blank, &text[at + 1..]),
        (3, Some(at)) => format!("{}{{\"remark\":\"{}\",{}", &text[..at], "x é 日 𝕏y ".repeat(size / 14), &text[at + 1..]),
        _ => {
            let at = text.rfind(']').unwrap();
            format!("{}{}]{}", &text[..at], blank, blank)
        }
    }
}
pub fn rand_pad(r: &mut Rng) -> Value {
    json!({"size": *r.pick(&[5000usize, 9000, 20_000, 70_000, 140_000, 300_000, 1_100_000, 2_200_000]), "how": r.below(5)})
}
pub fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect()
}
fn codes(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn from_codes(v: &Value) -> String {
    ids(v).into_iter().map(|c| std::char::from_u32(c as u32).unwrap()).collect()
}

/// Distinct public keys of all kinds: prefixes of each other, unicode, quotes, long, empty.
pub fn make_keys(r: &mut Rng, n: usize) -> Vec<String> {
    let kind = r.below(6);
    let place = r.below(3);
    let mut keys: Vec<String> = (0..n)
        .map(|k| match (kind, k % 5) {
            // as long as real ones, alike in all but one place
            (4, _) => {
                let id: String = [k / 26 / 26, k / 26 % 26, k % 26].iter().map(|&x| (b'A' + x as u8) as char).collect();
                let rest = "CM6QMP3DLRPTAZW2UZPCPX2LF3SXWXKPMP3GKFZBDSF3QZGV2G5QSTK7";
                match place {
                    0 => format!("G{}{}", id, &rest[..52]),
                    1 => format!("G{}{}{}", &rest[..26], id, &rest[26..52]),
                    _ => format!("G{}{}", &rest[..52], id),
                }
            }
            // upper and lower case, spaces around
            (5, 0) => format!("Node{}", k),
            (5, 1) => format!("node{}", k - 1),
            (5, 2) => format!("node{} ", k - 2),
            (5, 3) => format!(" node{}", k - 3),
            (5, _) => format!("NODE{}", k - 4),
            (0, _) => format!("n{}", k),
            (1, _) => format!("G{}", "A".repeat(k + 1)),
            (_, 0) => format!("{}", k),
            (_, 1) => format!("n{}", k),
            (_, 2) => format!("ключ \"{}\"", k),
            (_, 3) => format!("N{}\\x", 1000 - k),
            _ => format!("é,{}.", k),
        })
        .collect();
    if kind == 3 && n > 2 {
        keys[0] = "".to_string();
    }
    if kind != 0 || r.chance(50) {
        r.shuffle(&mut keys);
    }
    keys
}
fn name_qset(r: &mut Rng, q: &QuorumSet, keys: &[String]) -> Value {
    let mut v: Vec<String> = vec![];
    for &x in q.validators.iter() {
        v.push(keys[x].clone());
        if r.chance(8) {
            v.push(format!("unknown {}", x));
        }
    }
    if r.chance(15) {
        v.insert(0, "GNOBODY".to_string());
    }
    json!({"t": enc_t(q.threshold), "v": v,
           "i": q.inner_quorum_sets.iter().map(|x| name_qset(r, x, keys)).collect::<Vec<_>>()})
}
/// Renders a written quorum set as JSON text by hand, in a style given by `style`.
fn render_qset(q: &Value, style: usize) -> String {
    let t = q["t"].as_u64().unwrap() as usize;
    // (more than there are nodes, in any case)
    let t = if t >= BIG { [u64::MAX, 1 << 32, (1 << 32) + 1, 1 << 53, 1_000_000, (1 << 63) + 2, 1 << 31][(q["v"].as_array().unwrap().len() + q["i"].as_array().unwrap().len()) % 7] } else { t as u64 };
    let v = q["v"].to_string();
    let i: Vec<String> = q["i"].as_array().unwrap().iter().map(|x| render_qset(x, style / 2)).collect();
    let inner = if i.is_empty() && style % 2 == 0 {
        String::new()
    } else {
        format!(",\"innerQuorumSets\":[{}]", i.join(", "))
    };
    match style % 3 {
        0 => format!("{{\"threshold\":{},\"validators\":{}{}}}", t, v, inner),
        1 => format!("{{\"hashKey\":\"x\",\"validators\":{} , \"threshold\": {}{}}}", v, t, inner),
        _ => format!("{{\n \"validators\":{}{},\n \"quorumSets\": null, \"threshold\":{}\n}}", v, inner, t),
    }
}
fn render_doc(names: &[String], doc: &Value, style: usize) -> String {
    let nodes: Vec<String> = doc
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(k, d)| {
            let key = Value::String(names[k].clone()).to_string();
            let st = style + k;
            if !d["has"].as_bool().unwrap() {
                match st % 3 {
                    0 => format!("{{\"publicKey\":{}}}", key),
                    1 => format!("{{\"index\": 4, \"publicKey\":{}, \"active\": false}}", key),
                    _ => format!("{{\"publicKey\":{}, \"isp\": \"Acme, Inc.\", \"geoData\": {{}}}}", key),
                }
            } else {
                let q = render_qset(&d["q"], st);
                match st % 4 {
                    0 => format!("{{\"publicKey\":{},\"quorumSet\":{}}}", key, q),
                    1 => format!("{{\"quorumSet\":{},\"publicKey\":{}}}", q, key),
                    2 => format!("{{\"ip\":null,\"quorumSet\":{},\"statistics\":{{\"x\":[1,2.5]}},\"publicKey\":{}}}", q, key),
                    _ => format!("{{\"publicKey\":{},\"quorumSet\":{},\"isp\":null,\"geoData\":{{\"countryName\":null,\"latitude\":1.5}}}}", key, q),
                }
            }
        })
        .collect();
    format!("[{}]", nodes.join(",\n"))
}
fn reorder_qset(r: &mut Rng, q: &Value) -> Value {
    let mut v = q["v"].as_array().unwrap().clone();
    let mut i: Vec<Value> = q["i"].as_array().unwrap().iter().map(|x| reorder_qset(r, x)).collect();
    r.shuffle(&mut v);
    r.shuffle(&mut i);
    json!({"t": q["t"], "v": v, "i": i})
}
/// JSON as written by the code under test -> written form
fn parse_written(v: &Value) -> Value {
    let t = v["threshold"].as_u64().unwrap();
    json!({"t": enc_t(t as usize), "v": v["validators"],
           "i": v.get("innerQuorumSets").and_then(|x| x.as_array()).map(|a| a.iter().map(parse_written).collect::<Vec<_>>()).unwrap_or_default()})
}
/// same, for quorum sets printed with node ids
pub fn parse_id_qset(v: &Value) -> Value {
    let t = v["threshold"].as_u64().unwrap();
    let inner = v.get("inner_quorum_sets").or_else(|| v.get("innerQuorumSets"));
    json!({"t": enc_t(t as usize), "v": v.get("validators").cloned().unwrap_or(json!([])),
           "i": inner.and_then(|x| x.as_array()).map(|a| a.iter().map(parse_id_qset).collect::<Vec<_>>()).unwrap_or_default()})
}
fn pretty_value(p: &PrettyQuorumSet) -> Value {
    json!({"t": enc_t(p.threshold as usize), "v": p.validators,
           "i": p.inner_quorum_sets.iter().map(pretty_value).collect::<Vec<_>>()})
}

/// Disjoint groups over 0..n in random order; some empty, some of one node.
pub fn rand_groups(r: &mut Rng, n: usize) -> Vec<Vec<usize>> {
    let mut p: Vec<usize> = (0..n).collect();
    r.shuffle(&mut p);
    let mut gs = vec![];
    while !p.is_empty() {
        let k = r.range(1, p.len().min(4));
        let part: Vec<usize> = p.drain(..k).collect();
        if r.chance(75) {
            gs.push(part);
        }
        if r.chance(8) {
            gs.push(vec![]);
        }
    }
    gs
}
pub fn key_fbas(q: &Value, keys: &[String]) -> Fbas {
    // public keys as given, quorum sets exactly as given (loading sorts them)
    let nodes: Vec<Value> = keys.iter().map(|k| json!({ "publicKey": k })).collect();
    let mut f = Fbas::from_json_str(&Value::Array(nodes).to_string());
    for (x, q) in q.as_array().unwrap().iter().enumerate() {
        f.swap_quorum_set(x, dec_qset(q));
    }
    f
}
pub fn groups_json(groups: &Value, keys: &[String]) -> String {
    let v: Vec<Value> = groups
        .as_array()
        .unwrap()
        .iter()
        .map(|g| json!({"name": g["name"], "validators": ids(&g["validators"]).iter().map(|&x| keys[x].clone()).collect::<Vec<_>>(), "id": "ignored"}))
        .collect();
    Value::Array(v).to_string()
}
pub fn named_groups(gs: &[Vec<usize>], keys: &[String], r: &mut Rng) -> Value {
    let mut v = vec![];
    for (k, g) in gs.iter().enumerate() {
        let name = match r.below(5) {
            0 => format!("Org {}", k),
            1 => format!("Gruppe \"ö\" {}", k),
            _ => format!("o{}", k),
        };
        debug_assert!(!keys.contains(&name));
        v.push(json!({"name": name, "validators": g}));
    }
    Value::Array(v)
}

const TEXTS: [&str; 28] = [
    "hetzner online gmbh", "AMAZON.COM INC", " Germany", "Germany ", "germany", "Amazon",
    "Hetzner Online GmbH", "Hetzner Online GmbH.", "Hetzner, Online GmbH", "Amazon.com, Inc.", "Amazon.com Inc",
    "Amazon.com Inc..", "Zürich", "Zürich.", "zurich", "United States", "United States.", "United, States,", "", ".", ",", ",.",
    "..", "日本", "日本。", "A", "Germany", "Österreich",
];

pub fn inputs(prop: &str, seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed.wrapping_mul(97) ^ 0x12);
    match prop {
        "C12" => {
            let mut v = vec![];
            let mut cs = mix(seed, thorough, 6000, 60000, 8);
            cs.retain(|c| c.qsets.len() <= 70);
            for k in 0..if thorough { 150 } else { 16 } {
                cs.push(if k % 3 == 0 { wide_candidate(&mut r) } else { sprawl(&mut r, 300) });
            }
            for c in cs.iter() {
                let n = c.qsets.len();
                let names = make_keys(&mut r, n);
                let doc: Vec<Value> = c
                    .qsets
                    .iter()
                    .map(|q| {
                        if r.chance(10) {
                            json!({"has": false, "q": {"t": 0, "v": [], "i": []}})
                        } else {
                            json!({"has": true, "q": name_qset(&mut r, q, &names)})
                        }
                    })
                    .collect();
                let mut x = json!({"fam": c.family, "names": names, "doc": doc, "style": r.below(1000)});
                if r.chance(1) {
                    x["pad"] = rand_pad(&mut r);
                }
                v.push(x);
            }
            v.push(json!({"fam": "empty", "names": [], "doc": [], "style": 0}));
            v
        }
        "C13" => {
            let mut v = vec![];
            let n_cases = if thorough { 60000 } else { 6000 };
            for k in 0..n_cases {
                let n = if k % 1000 == 399 { r.range(100, 260) } else if k % 200 == 199 { r.range(30, 70) } else if k % 40 == 39 { r.range(10, 24) } else { r.range(1, 9) };
                let all = make_keys(&mut r, n + 3);
                // the FBAS has some of the nodes of the nodes file, in another order
                let mut names: Vec<String> = all.clone();
                r.shuffle(&mut names);
                names.truncate(n);
                let overlapping = k % 10 == 9;
                let mut free = all.clone();
                r.shuffle(&mut free);
                let mut orgs: Vec<Value> = vec![];
                let (most, members) = if n > 70 { (70, 40) } else if n > 9 { (12, 9) } else { (5, 4) };
                for j in 0..r.below(most) {
                    let m = r.below(members).min(free.len());
                    let keys: Vec<String> = if overlapping {
                        (0..m).map(|_| r.pick(&all).clone()).collect()
                    } else {
                        free.drain(..m).collect()
                    };
                    let name = match r.below(6) {
                        0 => r.pick(&TEXTS).to_string(),
                        1 if j > 0 => from_codes(&orgs[0]["name"]),
                        _ => format!("Org. {},", j),
                    };
                    orgs.push(json!({"name": codes(&name), "keys": keys}));
                }
                let kinds = if n > 9 { 28 } else { 6 };
                let pool: Vec<&str> = (0..r.range(1, kinds)).map(|_| *r.pick(&TEXTS)).collect();
                let mut order = all.clone();
                r.shuffle(&mut order);
                let nodes: Vec<Value> = order
                    .iter()
                    .map(|key| {
                        json!({"key": key, "hasisp": r.chance(75), "isp": codes(*r.pick(&pool)),
                               "hascountry": r.chance(75), "country": codes(*r.pick(&pool)), "style": r.below(9)})
                    })
                    .collect();
                let keycodes: Vec<Value> = names.iter().map(|x| codes(x)).collect();
                let mut x = json!({"fam": if overlapping { "overlapping" } else { "disjoint" }, "names": names,
                              "keycodes": keycodes, "orgs": orgs, "nodes": nodes});
                if r.chance(1) {
                    x["pad"] = rand_pad(&mut r);
                }
                v.push(x);
            }
            v
        }
        "C14" => {
            let mut v = vec![];
            let n_cases = if thorough { 100000 } else { 12000 };
            for k in 0..n_cases {
                let crowded = k % 300 == 13;
                let big = k % 6 == 5 || crowded && r.chance(50);
                let n = if crowded && big { *r.pick(&[64usize, 100, 130, 260]) } else if crowded { r.range(8, 14) } else if big { *r.pick(&[33usize, 40, 64, 65, 70]) } else { r.range(1, 9) };
                let gs = rand_groups(&mut r, n);
                let wide = if crowded { *r.pick(&[12, 40, 120]) } else if k % 10 == 5 { 20 } else { 8 };
                let focus: Vec<usize> = if big { (0..wide).map(|_| r.below(n)).collect() } else { (0..n).collect() };
                let m = if crowded { r.range(100, 350) } else { 0 } + r.below(if k % 200 == 7 { 90 } else if k % 3 == 0 { 24 } else { 8 });
                let p = *r.pick(&[20usize, 40, 60]);
                let mut sets: Vec<Vec<usize>> = (0..m)
                    .map(|_| {
                        let mut s: Vec<usize> = focus.iter().copied().filter(|_| r.chance(p)).collect();
                        s.sort_unstable();
                        s.dedup();
                        s
                    })
                    .collect();
                if k % 120 == 11 {
                    // many small sets that have nothing to do with each other, and others around them
                    let some: Vec<usize> = (0..r.range(10, 15)).map(|_| r.below(n)).collect();
                    for a in 0..some.len() {
                        for b in 0..a {
                            if some[a] != some[b] && r.chance(90) {
                                let mut s = vec![some[a], some[b]];
                                s.sort_unstable();
                                sets.push(s);
                            }
                        }
                    }
                    for _ in 0..8 {
                        let mut s = vec![*r.pick(&some), r.below(n), r.below(n)];
                        if r.chance(50) {
                            s.push(*r.pick(&some));
                        }
                        s.sort_unstable();
                        s.dedup();
                        sets.push(s);
                    }
                }
                // duplicates, subsets, supersets, the empty set
                for _ in 0..if sets.is_empty() { 0 } else { m.max(sets.len() / 4) / 3 } {
                    let mut s = r.pick(&sets).clone();
                    match r.below(3) {
                        0 if !s.is_empty() => {
                            let j = r.below(s.len());
                            s.remove(j);
                        }
                        1 => {
                            s.push(*r.pick(&focus));
                            s.sort_unstable();
                            s.dedup();
                        }
                        _ => {}
                    }
                    let at = r.below(sets.len() + 1);
                    sets.insert(at, s);
                }
                if r.chance(70) {
                    sets.retain(|s| !s.is_empty());
                }
                let keys: Vec<String> = (0..n).map(|k| format!("n{}", k)).collect();
                v.push(json!({"fam": if big { "big_ids" } else { "small" }, "n": n, "groups": named_groups(&gs, &keys, &mut r), "sets": sets}));
            }
            v
        }
        "C15" => {
            let mut v = vec![];
            let n_cases = if thorough { 80000 } else { 9000 };
            for k in 0..n_cases {
                let big = k % 20 == 19;
                let n = if big { *r.pick(&[12, 20, 31, 33, 64, 65, 80]) } else { r.range(1, 8) };
                let gs = if big && r.chance(40) {
                    // few groups with many members
                    let mut p: Vec<usize> = (0..n).collect();
                    r.shuffle(&mut p);
                    let m = r.range(2, n / 3);
                    p.chunks(m).filter(|_| r.chance(85)).map(|x| x.to_vec()).collect()
                } else {
                    rand_groups(&mut r, n)
                };
                let pool: Vec<usize> = (0..n).collect();
                let qs_: Vec<QuorumSet> = (0..3)
                    .map(|j| match (k + j) % 4 {
                        0 => rand_qset(&mut r, &pool, 2, true),
                        1 => {
                            let w = k % 8 == 1;
                            cover_qset(&mut r, &pool, 2, w, w)
                        }
                        2 => rand_qset(&mut r, &pool, 3, k % 3 == 0),
                        _ => {
                            // one inner set per group, as organizations configure it
                            let inner: Vec<QuorumSet> = gs
                                .iter()
                                .filter(|g| !g.is_empty())
                                .map(|g| {
                                    let t = r.range(1, g.len());
                                    qs(t, g.clone(), vec![])
                                })
                                .collect();
                            let rest: Vec<usize> = pool.iter().copied().filter(|x| !gs.iter().any(|g| g.contains(x))).collect();
                            let m = inner.len() + rest.len();
                            qs(r.range(1, m.max(1)), rest, inner)
                        }
                    })
                    .collect();
                let keys: Vec<String> = (0..n).map(|k| format!("n{}", k)).collect();
                let groups = named_groups(&gs, &keys, &mut r);
                let pretty: Vec<Value> = (0..n)
                    .map(|x| groups.as_array().unwrap().iter().find(|g| ids(&g["validators"]).contains(&x)).map(|g| g["name"].clone()).unwrap_or(json!(keys[x])))
                    .collect();
                let mut probes: Vec<Vec<usize>> = vec![];
                if big {
                    let mut blocks = gs.clone();
                    blocks.extend((0..n).filter(|x| !gs.iter().any(|g| g.contains(x))).map(|x| vec![x]));
                    let union = |keep: &[bool]| -> Vec<usize> { (0..keep.len()).filter(|&b| keep[b]).flat_map(|b| blocks[b].clone()).collect() };
                    for j in 0..12 {
                        let mut keep = vec![true; blocks.len()];
                        if j % 4 < 3 {
                            // just enough for one of the quorum sets
                            let mut o: Vec<usize> = (0..blocks.len()).collect();
                            r.shuffle(&mut o);
                            for &b in o.iter() {
                                keep[b] = false;
                                let mut s = vec![false; n];
                                union(&keep).iter().for_each(|&x| s[x] = true);
                                keep[b] = !ref_slice(&qs_[j % 4], &s);
                            }
                            probes.push(union(&keep));
                            if let Some(b) = (0..keep.len()).find(|&b| keep[b]) {
                                keep[b] = false;
                            }
                        } else {
                            let p = 10 + r.below(85);
                            keep.iter_mut().for_each(|x| *x = r.chance(p));
                        }
                        probes.push(union(&keep));
                    }
                }
                v.push(json!({"fam": if big { "big" } else { "small" }, "n": n, "groups": groups, "qs": enc_qsets(&qs_), "pretty": pretty, "probes": probes}));
            }
            v
        }
        "C16" => {
            let hist: Vec<Value> = std::fs::read_to_string(std::env::var("HISTORIES").unwrap())
                .unwrap()
                .lines()
                .map(|l| serde_json::from_str(l).unwrap())
                .collect();
            let pool: Vec<Case> = mix(seed, thorough, 900, 6000, 8)
                .into_iter()
                .map(|c| c.sorted())
                .filter(|c| ref_top_tier(&c.qsets).map(|(_, tt)| tt.iter().any(|x| *x)).unwrap_or(false))
                .collect();
            let per = if thorough { 12 } else { 8 };
            let mut vals = vec![];
            let long: Vec<Value> = match std::env::var("LONG") {
                Ok(p) => std::fs::read_to_string(p).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect(),
                Err(_) => vec![],
            };
            let big: Vec<Case> = big_cases(&mut r, if thorough { 300 } else { 60 }, 60, 100).into_iter().map(|c| c.sorted()).collect();
            let crowds: Vec<Case> = (0..6).map(|_| crowd(&mut r).sorted()).collect();
            for (j, h) in hist.iter().chain(long.iter()).enumerate() {
                for k in 0..per {
                    let c = if r.chance(6) { r.pick(&big).clone() } else if j % 100 == 99 && k == 0 { r.pick(&crowds).clone() } else { r.pick(&pool).clone() };
                    let n = c.qsets.len();
                    let mut x = case_value(&c);
                    let keys = make_keys(&mut r, n);
                    let gs = rand_groups(&mut r, n);
                    let mut groups = named_groups(&gs, &keys, &mut r);
                    let mut names: Vec<String> = vec![];
                    if r.chance(20) && !gs.is_empty() {
                        // a group that is named like a node (one of its members or another one)
                        let k = r.below(gs.len());
                        let x = if r.chance(60) && !gs[k].is_empty() { *r.pick(&gs[k]) } else { r.below(n) };
                        groups[k]["name"] = json!(keys[x]);
                        names.push(keys[x].clone());
                    }
                    for _ in 0..r.below(4) {
                        names.push(match r.below(4) {
                            0 => "nobody".to_string(),
                            1 if !gs.is_empty() => r.pick(groups.as_array().unwrap())["name"].as_str().unwrap().to_string(),
                            _ => r.pick(&keys).clone(),
                        });
                    }
                    x["h"] = h.clone();
                    x["keys"] = json!(keys);
                    x["groups"] = groups;
                    x["dropnames"] = json!(names);
                    let p = *r.pick(&[5usize, 20, 50]);
                    x["ids"] = json!((0..n + 2).filter(|_| r.chance(p)).collect::<Vec<usize>>());
                    vals.push(x);
                }
            }
            vals.extend(crate::core::counted_values(&mut r, thorough, 10));
            vals
        }
        _ => panic!("unknown property {}", prop),
    }
}

pub fn events(prop: &str, c: &Value) -> Vec<Value> {
    match prop {
        "C12" => c12(c),
        "C13" => c13(c),
        "C14" => {
            let n = c["n"].as_u64().unwrap() as usize;
            let keys: Vec<String> = (0..n).map(|k| format!("n{}", k)).collect();
            let f = Fbas::new_generic_unconfigured(n);
            let gj = groups_json(&c["groups"], &keys);
            let g = Groupings::from_json_str(&gj, &f);
            let sets: Vec<NodeIdSet> = c["sets"].as_array().unwrap().iter().map(|s| set(&ids(s))).collect();
            let mut e = vec![ev("rep", || json!((0..n).map(|x| g.merge_node(x)).collect::<Vec<_>>()))];
            for s in sets.iter().take(3) {
                e.push(ev("set", || json!({"s": enc_set(s), "r": enc_set(&g.merge_node_set(s.clone()))})));
            }
            e.push(ev("sets", || enc_sets(&g.merge_node_sets(sets.clone()))));
            e.push(ev("merge_minimal", || enc_sets(&g.merge_minimal_node_sets(sets.clone()))));
            e.push(ev("minimal", || enc_sets(&sets::remove_non_minimal_node_sets(sets.clone()))));
            e.push(ev("intersect", || json!({"r": sets::all_intersect(&sets), "involved": enc_set(&sets::involved_nodes(&sets)),
                "short": sets::all_intersect(&sets[..sets.len().min(3)])})));
            e.push(ev("is_minimal", || json!(sets::is_set_of_minimal_node_sets(&sets))));
            e
        }
        "C15" => {
            let n = c["n"].as_u64().unwrap() as usize;
            let keys: Vec<String> = (0..n).map(|k| format!("n{}", k)).collect();
            let f = Fbas::new_generic_unconfigured(n);
            let gj = groups_json(&c["groups"], &keys);
            let g = Groupings::organizations_from_json_str(&gj, &f);
            let q: Vec<QuorumSet> = c["qs"].as_array().unwrap().iter().map(dec_qset).collect();
            let mut e = vec![ev("rep", || json!((0..n).map(|x| g.merge_node(x)).collect::<Vec<_>>()))];
            for (k, x) in q.iter().enumerate() {
                e.push(ev("merge", || json!({"k": k + 1, "r": enc_qset(&g.merge_quorum_set(x.clone()))})));
                e.push(ev("pretty", || json!({"k": k + 1, "r": pretty_value(&x.clone().into_pretty_quorum_set(&f, Some(&g)))})));
            }
            e.push(ev("merges", || enc_qsets(&g.merge_quorum_sets(q.clone()))));
            e
        }
        "C16" if !c["count"].is_null() => crate::core::counted_events(prop, c, &dec_fbas(c)),
        "C16" => c16(c),
        _ => panic!("unknown property {}", prop),
    }
}

fn c12(c: &Value) -> Vec<Value> {
    let names = strings(&c["names"]);
    let style = c["style"].as_u64().unwrap() as usize;
    let text = padded(&render_doc(&names, &c["doc"], style), &c["pad"]);
    let mut e = vec![];
    e.push(ev("load", || {
        let f = Fbas::from_json_str(&text);
        let look = |k: &str| f.get_node_id(k).map(|x| x as i64).unwrap_or(-1);
        json!({"g": enc_fbas(&f), "ids": names.iter().map(|k| look(k)).collect::<Vec<_>>(), "unknown": look("GNOBODY")})
    }));
    e.push(ev("file", || {
        let p = format!("{}/c12.json", scratch());
        std::fs::write(&p, &text).unwrap();
        let f = Fbas::from_json_file(std::path::Path::new(&p));
        json!({"g": enc_fbas(&f), "equal": f == Fbas::from_json_str(&text)})
    }));
    e.push(ev("store", || {
        let f = Fbas::from_json_str(&text);
        let v: Value = serde_json::from_str(&f.to_json_string()).unwrap();
        let nodes = v.as_array().unwrap();
        let q: Vec<Value> = nodes.iter().map(|x| parse_written(&x["quorumSet"])).collect();
        fn known(q: &Value, names: &[String]) -> bool {
            q["v"].as_array().unwrap().iter().all(|x| names.iter().any(|k| x == k)) && q["i"].as_array().unwrap().iter().all(|i| known(i, names))
        }
        json!({"names": nodes.iter().map(|x| x["publicKey"].clone()).collect::<Vec<_>>(), "q": q,
               "known": q.iter().all(|x| known(x, &names))})
    }));
    e.push(ev("reload", || {
        let f = Fbas::from_json_str(&text);
        let g = Fbas::from_json_str(&f.to_json_string());
        json!({"equal": f == g && g.to_json_string() == f.to_json_string(),
               "pretty": Fbas::from_json_str(&f.to_json_string_pretty()) == f,
               "display": Fbas::from_json_str(&format!("{}", f)) == f, "g": enc_fbas(&g)})
    }));
    e.push(ev("reorder", || {
        let mut r = Rng::new(style as u64 + 5);
        let doc: Vec<Value> = c["doc"].as_array().unwrap().iter().map(|d| json!({"has": d["has"], "q": reorder_qset(&mut r, &d["q"])})).collect();
        let f = Fbas::from_json_str(&text);
        let g = Fbas::from_json_str(&render_doc(&names, &json!(doc), style + 1));
        json!({"equal": f == g, "text": f.to_json_string() == g.to_json_string(), "g": enc_fbas(&g)})
    }));
    e
}

fn enc_groups(g: &Groupings, names: &[String]) -> Value {
        let v = serde_json::to_value(g).unwrap();
        Value::Array(
            v.as_array()
                .unwrap()
                .iter()
                .map(|x| {
                    let vals: Vec<i64> = x["validators"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|k| names.iter().position(|y| k == y).map(|p| p as i64).unwrap_or(-1))
                        .collect();
                    json!({"name": codes(x["name"].as_str().unwrap()), "validators": vals})
                })
                .collect(),
        )
}
/// everything observable about one way of loading groups
fn c13_all<'f>(e: &mut Vec<Value>, f: &'f Fbas, fnames: &[String], kind: &str, load: &dyn Fn() -> Groupings<'f>) {
    let n = fnames.len();
    let a = Analysis::new(f);
        e.push(ev("loaded", || {
            let g = load();
            json!({"kind": kind, "r": enc_groups(&g, fnames), "count": g.number_of_groupings()})
        }));
        e.push(ev("member", || {
            let g = load();
            json!({"kind": kind, "some": (0..n).map(|x| g.get_by_member(x).is_some()).collect::<Vec<_>>(),
                   "pretty": a.all_nodes().into_pretty_vec(f, Some(&g)).iter().map(|s| codes(s)).collect::<Vec<_>>()})
        }));
        let mut names: Vec<String> = vec!["Org. 0,".into(), "Org. 0".into(), "United States".into(), "".into()];
        if let Ok(v) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| serde_json::to_value(load()).unwrap())) {
            for x in v.as_array().unwrap().iter().take(5) {
                let name = x["name"].as_str().unwrap().to_string();
                // the name itself and similar ones, which others may have or nobody
                names.extend([name.to_lowercase(), name.to_uppercase(), name.trim().to_string(), format!("{}.", name)]);
                names.push(name.chars().skip(1).collect());
                names.push(name);
            }
        }
        names.sort();
        names.dedup();
        for name in names {
            e.push(ev("byname", || {
                let g = load();
                let found = g.get_by_name(&name);
                let members: Vec<usize> = match found {
                    Some(x) => (0..n).filter(|&m| g.get_by_member(m).map(|y| std::ptr::eq(x, y)).unwrap_or(false)).collect(),
                    None => vec![],
                };
                json!({"kind": kind, "name": codes(&name), "some": found.is_some(), "members": members})
            }));
        }
}
fn c13(c: &Value) -> Vec<Value> {
    let names = strings(&c["names"]);
    let _n = names.len();
    let fbas_text = Value::Array(names.iter().map(|k| json!({ "publicKey": k })).collect()).to_string();
    let f = Fbas::from_json_str(&fbas_text);
    let orgs: Vec<Value> = c["orgs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|o| json!({"id": "x", "name": from_codes(&o["name"]), "validators": o["keys"], "url": null}))
        .collect();
    let orgs_text = Value::Array(orgs).to_string();
    let nodes: Vec<Value> = c["nodes"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let mut o = json!({"publicKey": x["key"], "ip": "1.2.3.4"});
            let style = x["style"].as_u64().unwrap();
            if x["hasisp"].as_bool().unwrap() {
                o["isp"] = json!(from_codes(&x["isp"]));
            } else if style % 3 == 0 {
                o["isp"] = Value::Null;
            }
            if x["hascountry"].as_bool().unwrap() {
                o["geoData"] = json!({"countryCode": "XX", "countryName": from_codes(&x["country"])});
            } else {
                match style % 4 {
                    0 => o["geoData"] = Value::Null,
                    1 => o["geoData"] = json!({}),
                    2 => o["geoData"] = json!({"countryName": null, "latitude": 1.0}),
                    _ => {}
                }
            }
            o
        })
        .collect();
    let nodes_text = padded(&Value::Array(nodes).to_string(), &c["pad"]);
    let orgs_text = padded(&orgs_text, &c["pad"]);
    let d = scratch();
    let (op, np) = (format!("{}/orgs.json", d), format!("{}/nodes.json", d));
    std::fs::write(&op, &orgs_text).unwrap();
    std::fs::write(&np, &nodes_text).unwrap();
    let (op, np) = (std::path::Path::new(&op), std::path::Path::new(&np));
    let mut e = vec![];
    c13_all(&mut e, &f, &names, "orgs", &|| Groupings::organizations_from_json_str(&orgs_text, &f));
    c13_all(&mut e, &f, &names, "orgs", &|| Groupings::from_json_file(op, &f));
    c13_all(&mut e, &f, &names, "isps", &|| Groupings::isps_from_json_str(&nodes_text, &f));
    c13_all(&mut e, &f, &names, "isps", &|| Groupings::isps_from_json_file(np, &f));
    c13_all(&mut e, &f, &names, "countries", &|| Groupings::countries_from_json_str(&nodes_text, &f));
    c13_all(&mut e, &f, &names, "countries", &|| Groupings::countries_from_json_file(np, &f));
    e.push(ev("loaded", || {
        let g = Groupings::from_json_str(&orgs_text, &f);
        json!({"kind": "orgs", "r": enc_groups(&g, &names), "count": g.number_of_groupings()})
    }));
    e.push(ev("loaded", || {
        let g = Groupings::organizations_from_json_file(op, &f);
        json!({"kind": "orgs", "r": enc_groups(&g, &names), "count": g.number_of_groupings()})
    }));
    e
}

fn fixed(x: f64) -> Value {
    json!((x * 10000.0).round() as i64)
}
fn lists(v: &Value) -> Value {
    v.clone()
}
fn describe(d: &(usize, usize, (usize, usize, f64), Vec<usize>)) -> Value {
    json!({"n": d.0, "nodes": d.1, "min": (d.2).0, "max": (d.2).1, "mean": fixed((d.2).2), "hist": d.3})
}
pub fn parse_describe(s: &str) -> Value {
    let v: Value = serde_json::from_str(s).unwrap();
    json!({"n": v[0], "nodes": v[1], "min": v[2][0], "max": v[2][1], "mean": fixed(v[2][2].as_f64().unwrap()), "hist": v[3]})
}
fn c16(c: &Value) -> Vec<Value> {
    let keys = strings(&c["keys"]);
    let n = keys.len();
    let f = key_fbas(&c["q"], &keys);
    let g = Groupings::from_json_str(&groups_json(&c["groups"], &keys), &f);
    let drop_ids = ids(&c["ids"]);
    let drop_names = strings(&c["dropnames"]);
    let drop: Vec<&str> = drop_names.iter().map(|x| x.as_str()).collect();
    let a = Analysis::new(&f);
    let mut e = vec![ev("rep", || json!((0..n).map(|x| g.merge_node(x)).collect::<Vec<_>>()))];
    let h = strings(&c["h"]);
    let mut cur = NodeIdSetVecResult::default();
    e.push(ev("start", || {
        cur = match h[0].as_str() {
            "mq" => a.minimal_quorums(),
            "mbs" => a.minimal_blocking_sets(),
            _ => a.minimal_splitting_sets(),
        };
        enc_sets(&cur.clone().unwrap())
    }));
    let views = |cur: &NodeIdSetVecResult| -> Value {
        json!({
            "unwrapped": enc_sets(&cur.clone().unwrap()),
            "vecs": cur.clone().into_vec_vec(),
            "idstring": lists(&serde_json::from_str(&cur.clone().into_id_string()).unwrap()),
            "serialized": serde_json::to_value(cur).unwrap(),
            "len": cur.len(), "empty": cur.is_empty(), "hasempty": cur.contains_empty_set(),
            "min": cur.min(), "max": cur.max(), "mean": fixed(cur.mean()), "histogram": cur.histogram(),
            "involved": enc_set(&cur.involved_nodes()),
            "describe": describe(&cur.describe()),
            "describestring": parse_describe(&cur.clone().into_describe_string()),
        })
    };
    let pretty = |cur: &NodeIdSetVecResult| -> Value {
        let parse = |s: String| -> Value { serde_json::from_str(&s).unwrap() };
        json!({
            "ids": cur.clone().into_vec_vec(),
            "plain": cur.clone().into_pretty_vec_vec(&f, None),
            "plainstring": parse(cur.clone().into_pretty_string(&f, None)),
            "grouped": cur.clone().into_pretty_vec_vec(&f, Some(&g)),
            "groupedstring": parse(cur.clone().into_pretty_string(&f, Some(&g))),
        })
    };
    e.push(ev("views", || views(&cur)));
    e.push(ev("pretty", || pretty(&cur)));
    for step in h.iter().skip(1) {
        let mut next = cur.clone();
        e.push(match step.as_str() {
            "without" => ev("without", || {
                next = cur.without_nodes(&drop_ids);
                json!({"ids": drop_ids, "r": next.clone().into_vec_vec()})
            }),
            "without_pretty" => ev("without_pretty", || {
                next = cur.without_nodes_pretty(&drop, &f, None);
                json!({"names": drop, "grouped": false, "r": next.clone().into_vec_vec()})
            }),
            "without_grouped" => ev("without_pretty", || {
                next = cur.without_nodes_pretty(&drop, &f, Some(&g));
                json!({"names": drop, "grouped": true, "r": next.clone().into_vec_vec()})
            }),
            "merged" => ev("merged", || {
                next = cur.merged_by_group(&g);
                json!(next.clone().into_vec_vec())
            }),
            _ => ev("minimal", || {
                next = cur.minimal_sets();
                json!(next.clone().into_vec_vec())
            }),
        });
        cur = next;
        e.push(ev("views", || views(&cur)));
        e.push(ev("pretty", || pretty(&cur)));
    }
    for k in 0..2 {
        e.push(ev("single", || {
            let s = if k == 0 { a.top_tier() } else { a.satisfiable_nodes() };
            let list = |s: NodeIdSetResult| json!(s.into_vec());
            let parse = |s: String| -> Value { serde_json::from_str(&s).unwrap() };
            json!({"r": list(s.clone()), "unwrapped": enc_set(&s.clone().unwrap()), "involved": enc_set(&s.involved_nodes()),
                   "idstring": parse(s.clone().into_id_string()), "serialized": serde_json::to_value(&s).unwrap(),
                   "len": s.len(), "empty": s.is_empty(), "describestring": parse(s.clone().into_describe_string()),
                   "without": list(s.without_nodes(&drop_ids)), "merged": list(s.merged_by_group(&g)),
                   "wpretty": list(s.without_nodes_pretty(&drop, &f, Some(&g))), "wplain": list(s.without_nodes_pretty(&drop, &f, None)),
                   "plain": s.clone().into_pretty_vec(&f, None), "grouped": s.clone().into_pretty_vec(&f, Some(&g)),
                   "groupedstring": parse(s.clone().into_pretty_string(&f, Some(&g)))})
        }));
    }
    e.push(ev("qsets", || {
        let q = a.symmetric_clusters();
        let parse = |s: String| -> Value { serde_json::from_str(&s).unwrap() };
        let list = |v: Value| Value::Array(v.as_array().unwrap().iter().map(parse_id_qset).collect());
        let one: Vec<Value> = q.iter().map(|x| json!({
            "id": parse_id_qset(&parse(x.clone().into_id_string())),
            "describe": parse_id_qset(&parse(x.clone().into_describe_string())),
            "pretty": parse_id_qset(&parse(x.clone().into_pretty_string(&f, None)))})).collect();
        json!({"r": enc_qsets(&q), "idstring": list(parse(q.clone().into_id_string())),
               "describe": list(parse(q.clone().into_describe_string())), "one": one,
               "pretty": list(parse(q.into_pretty_string(&f, None)))})
    }));
    e
}
