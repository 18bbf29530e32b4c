//! C29: documents that are not what they should be. Documents are trees that TLC judges and that are written here.
use crate::bins::{bin, run, BULK_COLUMNS};
use crate::enc::*;
use crate::gen::*;
use crate::io::{padded, scratch, strings};
use crate::sim::filler;
use fbas_analyzer::simulation::Graph;
use fbas_analyzer::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

// --- document trees: k is obj (f: fields [n, v]), arr (e: elements), str, nat, num (other numbers), bool or null ---

fn obj(f: Vec<(&str, Value)>) -> Value {
    json!({"k": "obj", "f": f.into_iter().map(|(n, v)| json!({"n": n, "v": v})).collect::<Vec<_>>()})
}
fn arr(e: Vec<Value>) -> Value {
    json!({"k": "arr", "e": e})
}
fn st(s: &str) -> Value {
    json!({"k": "str", "s": s})
}
fn nat(s: &str) -> Value {
    json!({"k": "nat", "s": s})
}
fn num(s: &str) -> Value {
    json!({"k": "num", "s": s})
}
fn write(v: &Value, pad: &str) -> String {
    match v["k"].as_str().unwrap() {
        "obj" => {
            let f: Vec<String> = v["f"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| format!("{}:{}{}", json!(x["n"].as_str().unwrap()), pad, write(&x["v"], pad)))
                .collect();
            format!("{{{}{}{}}}", pad, f.join(&format!(",{}", pad)), pad)
        }
        "arr" => {
            let e: Vec<String> = v["e"].as_array().unwrap().iter().map(|x| write(x, pad)).collect();
            format!("[{}]", e.join(&format!(",{}", pad)))
        }
        "str" => json!(v["s"].as_str().unwrap()).to_string(),
        "null" => "null".to_string(),
        _ => v["s"].as_str().unwrap().to_string(),
    }
}
const KEYS: [&str; 5] = ["a", "b", "c", "d", "é"];
fn tree_qset(r: &mut Rng, depth: usize) -> Value {
    let n = r.range(0, 3);
    let mut f = vec![
        ("threshold", nat(&r.range(0, 4).to_string())),
        ("validators", arr((0..n).map(|_| st(*r.pick(&KEYS))).collect())),
    ];
    if r.chance(70) {
        let m = if depth > 0 { r.range(0, 2) } else { 0 };
        f.push(("innerQuorumSets", arr((0..m).map(|_| tree_qset(r, depth - 1)).collect())));
    }
    if r.chance(10) {
        f.push(("hashKey", json!({"k": "null"})));
    }
    r.shuffle(&mut f);
    obj(f)
}
fn tree_node(r: &mut Rng, key: &str) -> Value {
    let mut f = vec![("publicKey", st(key))];
    if r.chance(85) {
        f.push(("quorumSet", tree_qset(r, 2)));
    }
    if r.chance(50) {
        f.push(("isp", if r.chance(20) { json!({"k": "null"}) } else { st("ISP") }));
    }
    if r.chance(50) {
        f.push(("geoData", match r.below(5) {
            0 => json!({"k": "null"}),
            1 => obj(vec![]),
            2 => obj(vec![("countryName", json!({"k": "null"}))]),
            _ => obj(vec![("countryCode", st("XX")), ("countryName", st("Land"))]),
        }));
    }
    if r.chance(40) {
        f.push(("active", json!({"k": "bool", "s": "true"})));
    }
    r.shuffle(&mut f);
    obj(f)
}
fn tree_nodes(r: &mut Rng) -> Value {
    let n = r.range(0, 4);
    arr((0..n).map(|k| tree_node(r, KEYS[k])).collect())
}
fn tree_orgs(r: &mut Rng) -> Value {
    let n = r.range(0, 3);
    arr((0..n)
        .map(|k| {
            let m = r.range(0, 3);
            let mut f = vec![
                ("name", st(&format!("Org {}", k))),
                ("validators", arr((0..m).map(|_| st(*r.pick(&KEYS))).collect())),
            ];
            if r.chance(40) {
                f.push(("id", nat("5")));
            }
            r.shuffle(&mut f);
            obj(f)
        })
        .collect())
}
fn other(r: &mut Rng) -> Value {
    match r.below(9) {
        0 => json!({"k": "null"}),
        1 => json!({"k": "bool", "s": *r.pick(&["true", "false"])}),
        2 => st(*r.pick(&["", "a", "3", "null"])),
        3 => nat(*r.pick(&["0", "1", "7", "18446744073709551615"])),
        4 => num(*r.pick(&["-1", "1.5", "18446744073709551616", "1e3", "2.0", "-3.5"])),
        5 => arr(vec![]),
        6 => obj(vec![]),
        7 => arr(vec![st("a")]),
        _ => obj(vec![("threshold", nat("1"))]),
    }
}
/// the places in a document
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<String>) {
    out.push(at.join(""));
    let (list, sub) = match v["k"].as_str().unwrap() {
        "obj" => ("f", "/v"),
        "arr" => ("e", ""),
        _ => return,
    };
    for (k, x) in v[list].as_array().unwrap().iter().enumerate() {
        at.push(format!("/{}/{}{}", list, k, sub));
        paths(if list == "f" { &x["v"] } else { x }, at, out);
        at.pop();
    }
}
fn mutate(r: &mut Rng, doc: &mut Value) {
    let mut ps = vec![];
    paths(doc, &mut vec![], &mut ps);
    // deep places are many: choose the level first
    let p = if r.chance(8) { String::new() } else { r.pick(&ps).clone() };
    let kind = doc.pointer(&p).unwrap()["k"].as_str().unwrap().to_string();
    if kind == "obj" && r.chance(70) {
        let t = doc.pointer_mut(&p).unwrap();
        let names = ["publicKey", "quorumSet", "threshold", "validators", "innerQuorumSets", "isp", "geoData", "countryName", "name", "x"];
        let n = t["f"].as_array().unwrap().len();
        let o = other(r);
        let f = t["f"].as_array_mut().unwrap();
        match r.below(5) {
            0 | 1 if n > 0 => {
                f.remove(r.below(n));
            }
            2 if n > 0 => {
                let x = f[r.below(n)].clone();
                f.push(x);
            }
            3 if n > 0 => {
                let k = r.below(n);
                let s = f[k]["n"].as_str().unwrap().to_string();
                f[k]["n"] = json!(match r.below(3) {
                    0 => s.to_uppercase(),
                    1 => format!("{}_", s),
                    _ => s.to_lowercase(),
                });
            }
            _ => f.push(json!({"n": *r.pick(&names), "v": o})),
        }
    } else {
        let o = other(r);
        *doc.pointer_mut(&p).unwrap() = if r.chance(15) { arr(vec![doc.pointer(&p).unwrap().clone()]) } else { o };
    }
}
/// not a JSON text any more
fn damage(r: &mut Rng, text: &str) -> String {
    let cs: Vec<char> = text.chars().collect();
    match r.below(4) {
        0 => cs[..r.below(cs.len())].iter().collect(),
        1 => format!("{}{}", text, *r.pick(&["]", "x", ",", "[]", "{}", "null"])),
        2 => format!("{}{}", *r.pick(&["x", ",", "]", "\u{feff}", "'"]), text),
        _ => {
            // without its last bracket, but with the rest
            let k = cs.iter().rposition(|c| *c == ']').unwrap();
            cs[..k].iter().collect()
        }
    }
}

pub fn inputs(_prop: &str, seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 0x29);
    let mut v = vec![];
    for k in 0..if thorough { 60000 } else { 5000 } {
        let kind = *["nodes", "nodes", "orgs", "graph", "nodes", "orgs", "nodes", "csv"].get(k % 8).unwrap();
        let mut x = json!({"kind": kind, "fam": kind, "broken": false});
        match kind {
            "nodes" | "orgs" => {
                let mut d = if kind == "nodes" { tree_nodes(&mut r) } else { tree_orgs(&mut r) };
                if !r.chance(15) {
                    for _ in 0..if r.chance(80) { 1 } else { 2 } {
                        mutate(&mut r, &mut d);
                    }
                }
                let mut text = write(&d, if r.chance(50) { "" } else { " " });
                if r.chance(12) && text.starts_with('[') {
                    text = damage(&mut r, &text);
                    x["broken"] = json!(true);
                }
                if r.chance(2) && text.starts_with('[') {
                    x["pad"] = json!({"size": *r.pick(&[9000, 70_000, 300_000]), "how": r.below(2)});
                }
                x["doc"] = d;
                x["text"] = json!(text);
                // real commands on a part of them
                x["commands"] = json!(k % 10 < 3);
            }
            "graph" => {
                let n = r.range(1, 5);
                let mut lines: Vec<Value> = (0..n)
                    .map(|_| {
                        let a = r.below(6);
                        let b = (a + r.range(1, 5)) % 6;
                        let mut f = vec![a.to_string(), b.to_string(), r.pick(&["0", "-1"]).to_string()];
                        if r.chance(30) {
                            f.push(r.pick(&["bgp", "mlp", ""]).to_string());
                        }
                        json!({"k": "fields", "f": f})
                    })
                    .collect();
                if r.chance(30) {
                    let k = r.below(lines.len() + 1);
                    lines.insert(k, json!({"k": "comment", "f": [*r.pick(&["#", "# 1|2|0", "#1|2|3"])]}));
                }
                if r.chance(30) {
                    let k = r.below(lines.len() + 1);
                    lines.insert(k, json!({"k": "empty", "f": [""]}));
                }
                if !r.chance(20) {
                    let at: Vec<usize> = (0..lines.len()).filter(|&k| lines[k]["k"] == "fields").collect();
                    let k = *r.pick(&at);
                    let f = lines[k]["f"].as_array_mut().unwrap();
                    if r.chance(25) {
                        f.truncate(r.range(1, 2));
                    } else {
                        let j = r.below(3);
                        let third = ["1", "2", "-2", "", "x", "0.0", " 0", "-1 ", "peer"];
                        let id = ["", "x", "-1", "1.5", " 1", "2 ", "# 1"];
                        f[j] = json!(if j == 2 { *r.pick(&third) } else { *r.pick(&id) });
                        // (a first field that makes the line a comment or an empty one)
                        if j == 0 && f[0] == "# 1" {
                            f[0] = json!("x1");
                        }
                    }
                }
                x["lines"] = json!(lines);
                x["text"] = json!(lines.iter().map(|l| strings(&l["f"]).join("|") + "\n").collect::<String>());
                // how many bytes of the compressed file are missing
                x["cut"] = json!(if r.chance(35) { r.range(1, 30) } else { 0 });
                if k % 160 == 3 {
                    // a long one: a comment line in between, and half of them cut anywhere
                    x["fill"] = json!({"size": *r.pick(&[9000usize, 70_000, 300_000, 1_200_000, 2_500_000]), "at": r.below(lines.len() + 1)});
                    x["cut"] = json!(if r.chance(50) { -1 - r.below(1000) as i64 } else { 0 });
                }
                x["commands"] = json!(k % 5 == 0);
            }
            _ => {
                // an output file that is to be updated: rows of cells, each with its class
                let experiment = r.chance(40);
                let cols: Vec<(String, &str)> = columns(experiment);
                let mut rows: Vec<Value> = (0..r.range(1, 3))
                    .map(|k| {
                        let cells: Vec<Value> = cols
                            .iter()
                            .map(|(n, t)| match *t {
                                "text" => json!(["text", format!("{}{}", if n == "label" { "old" } else { "h" }, k)]),
                                "bool" => json!(["bool", "true"]),
                                "float" => json!(["float", "1.25"]),
                                "optnat" | "optfloat" if r.chance(50) => json!(["none", ""]),
                                "optfloat" => json!(["float", "2.5"]),
                                _ if n == "run" => json!(["nat", k.to_string()]),
                                _ => json!(["nat", "7"]),
                            })
                            .collect();
                        json!(cells)
                    })
                    .collect();
                if r.chance(85) {
                    let k = r.below(rows.len());
                    let row = rows[k].as_array_mut().unwrap();
                    match r.below(6) {
                        0 => {
                            row.pop();
                        }
                        1 => row.push(json!(["text", "more"])),
                        2 => {
                            let keep = r.range(1, row.len() - 1);
                            row.truncate(keep);
                        }
                        _ => {
                            let j = r.below(row.len());
                            row[j] = r
                                .pick(&[json!(["text", "x"]), json!(["none", ""]), json!(["float", "1.5"]), json!(["neg", "-1"]), json!(["bool", "false"]), json!(["nat", "3"])])
                                .clone();
                        }
                    }
                }
                let mut text = cols.iter().map(|c| c.0.clone()).collect::<Vec<_>>().join(",") + "\n";
                for row in &rows {
                    text += &row.as_array().unwrap().iter().map(|c| c[1].as_str().unwrap()).collect::<Vec<_>>().join(",");
                    text.push('\n');
                }
                x["experiment"] = json!(experiment);
                x["cols"] = json!(cols.iter().map(|c| c.1).collect::<Vec<_>>());
                x["rows"] = json!(rows.iter().map(|row| row.as_array().unwrap().iter().map(|c| c[0].clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
                x["text"] = json!(text);
            }
        }
        v.push(x);
    }
    v
}
fn columns(experiment: bool) -> Vec<(String, &'static str)> {
    if experiment {
        let mut v: Vec<(String, &str)> = ["top_tier_size", "run", "mq_number", "mbs_number", "mss_number"].iter().map(|x| (x.to_string(), "nat")).collect();
        for x in ["mq_mean", "mbs_mean", "mss_mean"].iter() {
            v.push((x.to_string(), "float"));
        }
        for x in ["mq", "mbs", "mss", "hqi_after_mq", "hqi_alt_check", "total"].iter() {
            v.push((format!("analysis_duration_{}", x), "float"));
        }
        return v;
    }
    BULK_COLUMNS
        .split(',')
        .map(|c| {
            let opt = c.starts_with("orgs_") || c.starts_with("isps_") || c.starts_with("ctries_");
            let t = match c {
                "label" | "standard_form_hash" => "text",
                "has_quorum_intersection" => "bool",
                _ if c.ends_with("_mean") || c.starts_with("analysis") => if opt { "optfloat" } else { "float" },
                _ => if opt { "optnat" } else { "nat" },
            };
            (c.to_string(), t)
        })
        .collect()
}

fn load(via: &str, f: impl FnOnce() -> usize) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(n) => json!({"op": "load", "via": via, "ok": true, "n": n}),
        Err(_) => json!({"op": "load", "via": via, "ok": false, "n": 0}),
    }
}
fn command(what: &str, r: (i64, String)) -> Value {
    json!({"op": "command", "what": what, "exit": r.0, "printed": !r.1.trim().is_empty()})
}
const GOOD: &str = r#"[{"publicKey": "a", "quorumSet": {"threshold": 2, "validators": ["a", "b"]}}, {"publicKey": "b", "quorumSet": {"threshold": 1, "validators": ["b"]}}]"#;

pub fn events(_prop: &str, c: &Value) -> Vec<Value> {
    let dir = scratch();
    let mut text = padded(c["text"].as_str().unwrap(), &c["pad"]);
    if let Some(size) = c["fill"]["size"].as_u64() {
        let mut l: Vec<String> = text.lines().map(|x| x.to_string()).collect();
        l.insert(c["fill"]["at"].as_u64().unwrap() as usize, filler(size as usize, 50));
        text = l.join("\n") + "\n";
    }
    let text = &text[..];
    let path = format!("{}/doc.json", dir);
    std::fs::write(&path, text).unwrap();
    let p = Path::new(&path);
    let mut e = vec![];
    match c["kind"].as_str().unwrap() {
        "nodes" => {
            e.push(load("text", || Fbas::from_json_str(text).number_of_nodes()));
            e.push(load("file", || Fbas::from_json_file(p).number_of_nodes()));
            let f = Fbas::from_json_str(GOOD);
            e.push(load("isps", || Groupings::isps_from_json_str(text, &f).number_of_groupings()));
            e.push(load("ctry", || Groupings::countries_from_json_file(p, &f).number_of_groupings()));
            if c["commands"] == true {
                let mut x = bin("fbas_analyzer");
                x.arg(&path).arg("--results-only");
                e.push(command("analyzer", run(x, None)));
                e.push(command("piped", run(bin("fbas_analyzer"), Some(text))));
                e.push(bulk(&dir, GOOD, text, None));
            }
        }
        "orgs" => {
            let f = Fbas::from_json_str(GOOD);
            e.push(load("text", || Groupings::organizations_from_json_str(text, &f).number_of_groupings()));
            e.push(load("file", || Groupings::organizations_from_json_file(p, &f).number_of_groupings()));
            e.push(load("groups", || Groupings::from_json_str(text, &f).number_of_groupings()));
            if c["commands"] == true {
                std::fs::write(format!("{}/good.json", dir), GOOD).unwrap();
                let mut x = bin("fbas_analyzer");
                x.arg(format!("{}/good.json", dir)).arg("-a").arg("--merge-by-org").arg(&path);
                e.push(command("analyzer", run(x, None)));
                e.push(bulk(&dir, GOOD, GOOD, Some(text)));
            }
        }
        "graph" => {
            e.push(load("text", || Graph::from_as_rel_string(text).number_of_nodes()));
            e.push(load("file", || Graph::from_as_rel_file(p).number_of_nodes()));
            // the same, compressed
            let z = format!("{}/doc.bz2", dir);
            let mut w = bzip2::write::BzEncoder::new(std::fs::File::create(&z).unwrap(), bzip2::Compression::Default);
            std::io::Write::write_all(&mut w, text.as_bytes()).unwrap();
            w.finish().unwrap();
            let cut = c["cut"].as_i64().unwrap();
            if cut != 0 {
                let b = std::fs::read(&z).unwrap();
                // (a negative number means a share of the file)
                let cut = if cut > 0 { cut as usize } else { 1 + b.len() * (-cut - 1) as usize / 1001 };
                std::fs::write(&z, &b[..b.len() - cut]).unwrap();
            }
            e.push(load("packed", || Graph::from_as_rel_file(Path::new(&z)).number_of_nodes()));
            if c["commands"] == true {
                let mut x = bin("qsc_simulator");
                x.arg("AllNeighbors").arg(&path);
                e.push(command("simulator", run(x, None)));
                let mut x = bin("qsc_simulator");
                x.arg("GlobalRank").arg("-");
                e.push(command("piped", run(x, Some(text))));
                let mut x = bin("qsc_simulator");
                x.arg("AllNeighbors").arg(&z);
                e.push(command("packed", run(x, None)));
            }
        }
        _ => {
            let out = format!("{}/out.csv", dir);
            std::fs::write(&out, text).unwrap();
            let mut x;
            if c["experiment"] == true {
                x = bin("bulk_performance_experiment");
                x.args(&["-m", "2", "-r", "1", "-u", "-o"]).arg(&out);
            } else {
                let n = format!("{}/new.json", dir);
                std::fs::write(&n, GOOD).unwrap();
                x = bin("bulk_fbas_analyzer");
                x.arg("-u").arg("-o").arg(&out).arg(&n);
            }
            let (exit, _) = run(x, None);
            let now = std::fs::read_to_string(&out).unwrap_or_default();
            e.push(json!({"op": "update", "exit": exit, "same": now == text, "longer": now.lines().count() > text.lines().count()}));
        }
    }
    // nothing there at all
    e.push(match c["kind"].as_str().unwrap() {
        "graph" => load("nowhere", || Graph::from_as_rel_file(Path::new("/nonexistent/x")).number_of_nodes()),
        "orgs" => load("nowhere", || Groupings::organizations_from_json_file(Path::new("/nonexistent/x"), &Fbas::from_json_str(GOOD)).number_of_groupings()),
        _ => load("nowhere", || Fbas::from_json_file(Path::new("/nonexistent/x")).number_of_nodes()),
    });
    e
}
/// the bulk analyzer on three inputs, the second one with this document
fn bulk(dir: &str, good: &str, nodes: &str, orgs: Option<&str>) -> Value {
    for n in ["a", "c"].iter() {
        std::fs::write(format!("{}/{}_nodes.json", dir, n), good).unwrap();
    }
    std::fs::write(format!("{}/b_nodes.json", dir), nodes).unwrap();
    let out = format!("{}/bulk.csv", dir);
    std::fs::remove_file(&out).ok();
    let mut x = bin("bulk_fbas_analyzer");
    x.arg("-o").arg(&out);
    for n in ["a", "b", "c"].iter() {
        x.arg(format!("{}/{}_nodes.json", dir, n));
    }
    if let Some(o) = orgs {
        std::fs::write(format!("{}/b_organizations.json", dir), o).unwrap();
        x.arg(format!("{}/b_organizations.json", dir));
    }
    let (exit, _) = run(x, None);
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let labels: Vec<&str> = text.lines().skip(1).map(|l| l.split(',').next().unwrap()).collect();
    json!({"op": "bulk", "exit": exit, "labels": labels})
}
