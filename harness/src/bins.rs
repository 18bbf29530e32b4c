//! C21..C23, C25, C26: the command line tools.
use crate::core::{case_value, mix};
use crate::enc::*;
use crate::gen::*;
use crate::io::*;
use crate::sim::histories;
use fbas_analyzer::simulation::Graph;
use fbas_analyzer::*;
use serde_json::{json, Value};
use std::io::Write;
use std::process::{Command, Stdio};

pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
pub fn bin(name: &str) -> Command {
    let mut c = Command::new(format!("{}/{}", std::env::var("BINS").unwrap(), name));
    c.env_remove("RUST_LOG").env("RUST_BACKTRACE", "0").stderr(Stdio::null()).stdin(Stdio::null()).stdout(Stdio::piped());
    c
}
/// Runs to completion; exit code (-1: died) and standard output.
pub fn run(mut c: Command, input: Option<&str>) -> (i64, String) {
    if input.is_some() {
        c.stdin(Stdio::piped());
    }
    let mut child = c.spawn().unwrap();
    if let Some(text) = input {
        let mut i = child.stdin.take().unwrap();
        let text = text.to_string();
        std::thread::spawn(move || {
            i.write_all(text.as_bytes()).ok();
        });
    }
    let out = child.wait_with_output().unwrap();
    (out.status.code().map(|x| x as i64).unwrap_or(-1), String::from_utf8_lossy(&out.stdout).to_string())
}
pub fn fixed(x: f64) -> i64 {
    (x * 10000.0).round() as i64
}

// --- nodes files with ISPs and countries ---

const PROVIDERS: [(&str, &str); 8] = [
    ("Hetzner Online GmbH", "Hetzner Online GmbH"),
    ("Amazon.com, Inc.", "Amazon.com Inc"),
    ("Amazon.com Inc", "Amazon.com Inc"),
    ("Contabo GmbH.", "Contabo GmbH"),
    ("Zürich, Net", "Zürich Net"),
    ("日本,", "日本"),
    ("A", "A"),
    ("B.", "B"),
];
/// keys, organizations, and per node the ISP and country as written; with the groups they make
pub fn decorate(r: &mut Rng, x: &mut Value) {
    let n = us(&x["n"]);
    let keys = make_keys(r, n);
    let orgs = named_groups(&rand_groups(r, n), &keys, r);
    let raw = |share: usize, prefix: &str, r: &mut Rng| -> (Value, Value) {
        let m = r.range(1, 4);
        let off = r.below(PROVIDERS.len());
        let labels: Vec<Option<usize>> =
            (0..n).map(|_| if r.chance(share) { Some((off + r.below(m)) % PROVIDERS.len()) } else { None }).collect();
        let mut groups: std::collections::BTreeMap<String, Vec<usize>> = std::collections::BTreeMap::new();
        for (k, l) in labels.iter().enumerate() {
            if let Some(l) = l {
                groups.entry(format!("{}{}", prefix, PROVIDERS[*l].1)).or_default().push(k);
            }
        }
        let raws: Vec<Value> = labels.iter().map(|l| l.map(|l| json!(format!("{}{}", prefix, PROVIDERS[l].0))).unwrap_or(json!(""))).collect();
        (json!(raws), Value::Array(groups.into_iter().map(|(name, v)| json!({"name": name, "validators": v})).collect()))
    };
    let share = *r.pick(&[0, 60, 90, 100]);
    let (isp, isps) = raw(share, "", r);
    let share = *r.pick(&[0, 60, 90, 100]);
    let (ctry, ctries) = raw(share, "Land ", r);
    x["keys"] = json!(keys);
    x["isp"] = isp;
    x["ctry"] = ctry;
    x["groups"] = json!({"org": orgs, "isp": isps, "ctry": ctries});
    if r.chance(3) {
        x["pad"] = rand_pad(r);
    }
}
fn qset_json(q: &Value, keys: &[String]) -> String {
    let t = us(&q["t"]);
    let t = if t >= BIG { u64::MAX } else { t as u64 };
    let v: Vec<&String> = ids(&q["v"]).iter().map(|&x| &keys[x]).collect();
    let i: Vec<String> = q["i"].as_array().unwrap().iter().map(|x| qset_json(x, keys)).collect();
    format!("{{\"threshold\":{},\"validators\":{},\"innerQuorumSets\":[{}]}}", t, json!(v), i.join(","))
}
pub fn nodes_json(x: &Value) -> String {
    let keys = strings(&x["keys"]);
    let nodes: Vec<String> = (0..us(&x["n"]))
        .map(|k| {
            let mut s = format!("{{\"publicKey\":{}", json!(keys[k]));
            if x["isp"][k] != "" {
                s += &format!(",\"isp\":{}", x["isp"][k]);
            }
            s += &format!(",\"quorumSet\":{}", qset_json(&x["q"][k], &keys));
            if x["ctry"][k] != "" {
                s += &format!(",\"geoData\":{{\"countryCode\":\"XX\",\"countryName\":{}}}", x["ctry"][k]);
            }
            s + "}"
        })
        .collect();
    padded(&format!("[{}]", nodes.join(if nodes.len() % 2 == 0 { ",\n" } else { "," })), &x["pad"])
}
pub fn orgs_json(x: &Value) -> String {
    padded(&groups_json(&x["groups"]["org"], &strings(&x["keys"])), &x["pad"])
}

// --- C21 ---

fn inputs21(seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 21);
    let pool: Vec<Case> = mix(seed, false, 3000, 0, 7).into_iter().map(|c| c.sorted()).filter(|c| c.qsets.len() <= 8).collect();
    let big: Vec<Case> = big_cases(&mut r, if thorough { 400 } else { 60 }, 24, 30).into_iter().map(|c| c.sorted()).collect();
    // the many systems with one or two nodes are not that interesting here
    let mut opts = histories();
    r.shuffle(&mut opts);
    if !thorough {
        opts.truncate(4096);
    }
    let mut v = vec![];
    for part in opts.chunks(if thorough { 4 } else { 6 }) {
        let c = loop {
            let from = if r.chance(10) { &big } else { &pool };
            let c = r.pick(from);
            if c.qsets.len() > 2 || r.chance(2) {
                break c;
            }
        };
        let mut x = case_value(c);
        decorate(&mut r, &mut x);
        x["runs"] = json!(part);
        v.push(x);
    }
    v
}
const RESULTS: [&str; 9] = [
    "nodes_total", "nodes_total_merged", "symmetric_clusters", "minimal_quorums", "has_quorum_intersection",
    "nonintersecting_quorums", "minimal_blocking_sets", "minimal_splitting_sets", "top_tier",
];
fn number_before(s: &str, after: &str) -> Option<usize> {
    let k = s.find(after)?;
    s[k + after.len()..].split(' ').next()?.parse().ok()
}
/// one printed result: its form and value
fn value_of(name: &str, text: &str) -> Value {
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(_) => return json!({"form": "unreadable", "v": 0}),
    };
    if v.is_boolean() || v.is_number() {
        return json!({"form": "plain", "v": v});
    }
    if name == "symmetric_clusters" {
        let a: Vec<Value> = v.as_array().unwrap().iter().map(parse_id_qset).collect();
        fn texts(v: &Value) -> bool {
            v["v"].as_array().unwrap().iter().any(|x| x.is_string()) || v["i"].as_array().unwrap().iter().any(texts)
        }
        return json!({"form": if a.iter().any(texts) { "names" } else { "ids" }, "v": a});
    }
    let a = v.as_array().unwrap();
    if a.len() == 4 && a[0].is_u64() && a[2].is_array() {
        return json!({"form": "metrics", "v": parse_describe(text)});
    }
    let names = a.iter().any(|x| x.is_string() || x.as_array().map(|l| l.iter().any(|y| y.is_string())).unwrap_or(false));
    json!({"form": if names { "names" } else { "ids" }, "v": v})
}
fn parse_report(text: &str, o: &Value, out: &mut Vec<Value>) -> bool {
    let mut other = false;
    let lines: Vec<&str> = text.lines().collect();
    let mut k = 0;
    while k < lines.len() {
        let l = lines[k];
        k += 1;
        if let Some(name) = RESULTS.iter().find(|x| l.starts_with(&format!("{}: ", x))) {
            let mut t = l[name.len() + 2..].to_string();
            let mut used = 0;
            while serde_json::from_str::<Value>(&t).is_err() && k + used < lines.len() {
                t.push('\n');
                t.push_str(lines[k + used]);
                used += 1;
            }
            let mut v = value_of(name, &t);
            if v["form"] == "unreadable" {
                used = 0;
            }
            k += used;
            // an empty list looks the same in both forms
            if v["form"] == "ids" && o["p"] == true && !t.chars().any(|c| c.is_ascii_digit() || c == '"') {
                v["form"] = json!("names");
            }
            // so does a cluster list without validators
            v["op"] = json!("result");
            v["name"] = json!(name);
            out.push(v);
        } else if let Some(name) = RESULTS.iter().find(|x| l.starts_with(&format!("{}_analysis_duration: ", x))) {
            let t = &l[name.len() + 20..];
            let ok = t.ends_with('s') && t[..t.len() - 1].parse::<f64>().map(|x| x >= 0.0).unwrap_or(false);
            out.push(json!({"op": "duration", "name": name, "ok": ok}));
        } else if l.contains("All quorums intersect") || l.contains("Some quorums don't intersect") {
            out.push(json!({"op": "verdict", "v": l.contains("All quorums")}));
        } else if let Some(n) = number_before(l, "We found ") {
            let name = if l.contains("minimal quorums") {
                "minimal_quorums"
            } else if l.contains("minimal blocking") {
                "minimal_blocking_sets"
            } else {
                "minimal_splitting_sets"
            };
            out.push(json!({"op": "found", "name": name, "v": n}));
        } else if let Some(n) = number_before(l, "There is a total of ") {
            out.push(json!({"op": "found", "name": "top_tier", "v": n}));
        } else {
            other = true;
        }
    }
    other
}
fn events21(c: &Value) -> Vec<Value> {
    let d = scratch();
    let (np, op) = (format!("{}/c21 nodes.json", d), format!("{}/c21_orgs.json", d));
    let text = nodes_json(c);
    std::fs::write(&np, &text).unwrap();
    std::fs::write(&op, orgs_json(c)).unwrap();
    let mut out = vec![];
    for (k, o) in c["runs"].as_array().unwrap().iter().enumerate() {
        let on = |x: &str| o[x] == true;
        let long = k % 2 == 1;
        let mut cmd = bin("fbas_analyzer");
        if !on("stdin") && k % 3 == 0 {
            cmd.arg(&np);
        }
        for (x, s, l) in [("q", "-q", "--minimal-quorums"), ("b", "-b", "--minimal-blocking-sets"), ("s", "-s", "--minimal-splitting-sets"),
            ("a", "-a", "--all"), ("d", "-d", "--describe"), ("p", "-p", "--pretty"),
            ("alt", "--alternative-quorum-intersection-check", "--alternative-quorum-intersection-check"),
            ("dont", "--dont-check-quorum-intersection", "--dont-check-quorum-intersection"),
            ("ro", "--results-only", "--results-only"), ("isp", "--merge-by-isp", "--merge-by-isp"), ("ctry", "--merge-by-country", "--merge-by-country")].iter() {
            if on(x) {
                cmd.arg(if long { l } else { s });
            }
        }
        if on("org") {
            cmd.arg("--merge-by-org").arg(&op);
        }
        if !on("stdin") && k % 3 != 0 {
            cmd.arg(&np);
        }
        out.push(json!({"op": "start", "o": o}));
        let (code, text) = run(cmd, if on("stdin") { Some(&text) } else { None });
        let other = parse_report(&text, o, &mut out);
        out.push(json!({"op": "end", "exit": code, "text": other}));
    }
    out
}

// --- C22, C23: the bulk analyzer ---

fn codes(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
/// text of a CSV file to records; tells whether the last line was ended
fn csv(text: &str) -> (Vec<Vec<String>>, bool) {
    let (mut rows, mut row, mut cell) = (vec![], vec![], String::new());
    let (mut quoted, mut started) = (false, false);
    let mut it = text.chars().peekable();
    while let Some(ch) = it.next() {
        if quoted {
            if ch == '"' && it.peek() == Some(&'"') {
                cell.push('"');
                it.next();
            } else if ch == '"' {
                quoted = false;
            } else {
                cell.push(ch);
            }
            continue;
        }
        started = true;
        match ch {
            '"' => quoted = true,
            ',' => row.push(std::mem::take(&mut cell)),
            '\r' => {}
            '\n' => {
                row.push(std::mem::take(&mut cell));
                rows.push(std::mem::take(&mut row));
                started = false;
            }
            _ => cell.push(ch),
        }
    }
    if started || quoted {
        row.push(cell);
        rows.push(row);
    }
    (rows, !(started || quoted))
}
fn norm(s: &str) -> String {
    s.parse::<f64>().map(|x| format!("{:?}", x)).unwrap_or_else(|_| s.to_string())
}
/// the rows in the output of the bulk analyzer, and whether it has complete lines only
fn bulk_rows(text: &str) -> (Value, bool) {
    let (mut lines, ended) = csv(text);
    if lines.is_empty() {
        return (json!([]), ended);
    }
    let head = lines.remove(0);
    let ok = ended && lines.iter().all(|l| l.len() == head.len());
    let rows: Vec<Value> = lines
        .iter()
        .map(|l| {
            let get = |name: &str| -> Option<&str> {
                head.iter().position(|h| h == name).and_then(|k| l.get(k)).map(|x| x.as_str())
            };
            let int = |name: &str| get(name).and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1);
            let mean = |name: &str| get(name).and_then(|x| x.parse::<f64>().ok()).map(fixed).unwrap_or(-1);
            let metrics = |p: &str| {
                let m = |s: &str| json!([int(&format!("{}{}_min", p, s)), int(&format!("{}{}_max", p, s)), mean(&format!("{}{}_mean", p, s))]);
                json!({"tt": int(&format!("{}top_tier_size", p)), "mq": m("mq"), "mbs": m("mbs"), "mss": m("mss")})
            };
            let merged = |p: &str| {
                let cells: Vec<&str> = head.iter().filter(|h| h.starts_with(p)).map(|h| get(h).unwrap_or("")).collect();
                let mut v = metrics(p);
                let has = if cells.len() == 10 && cells.iter().all(|x| !x.is_empty()) { "all" } else if cells.iter().all(|x| x.is_empty()) { "none" } else { "mixed" };
                v["has"] = json!(has);
                v
            };
            let durations: Vec<f64> = ["mq", "mbs", "mss", "total"]
                .iter()
                .map(|x| get(&format!("analysis_duration_{}", x)).and_then(|x| x.parse().ok()).unwrap_or(-1.0))
                .collect();
            json!({
                "label": codes(get("label").unwrap_or("?")),
                "qi": get("has_quorum_intersection") == Some("true"),
                "plain": metrics(""), "org": merged("orgs_"), "isp": merged("isps_"), "ctry": merged("ctries_"),
                "hash": get("standard_form_hash").unwrap_or(""),
                "durations": durations.iter().all(|x| *x >= 0.0) && durations[3] >= durations[0],
                "raw": l.iter().map(|x| norm(x)).collect::<Vec<_>>().join("|"),
            })
        })
        .collect();
    (json!(rows), ok)
}
pub const BULK_COLUMNS: &str = "label,has_quorum_intersection,top_tier_size,mbs_min,mbs_max,mbs_mean,mss_min,mss_max,mss_mean,mq_min,mq_max,mq_mean,\
orgs_top_tier_size,orgs_mbs_min,orgs_mbs_max,orgs_mbs_mean,orgs_mss_min,orgs_mss_max,orgs_mss_mean,orgs_mq_min,orgs_mq_max,orgs_mq_mean,\
isps_top_tier_size,isps_mbs_min,isps_mbs_max,isps_mbs_mean,isps_mss_min,isps_mss_max,isps_mss_mean,isps_mq_min,isps_mq_max,isps_mq_mean,\
ctries_top_tier_size,ctries_mbs_min,ctries_mbs_max,ctries_mbs_mean,ctries_mss_min,ctries_mss_max,ctries_mss_mean,ctries_mq_min,ctries_mq_max,ctries_mq_mean,\
standard_form_hash,analysis_duration_mq,analysis_duration_mbs,analysis_duration_mss,analysis_duration_total";
fn quote(s: &str) -> String {
    if s.contains(|c| c == ',' || c == '"') {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
/// an output file whose rows no analysis would give
fn marker_file(r: &mut Rng, labels: &[String]) -> String {
    let mut s = format!("{}\n", BULK_COLUMNS);
    for l in labels {
        let mut cells: Vec<String> = vec![quote(l), r.pick(&["true", "false"]).to_string()];
        let metrics = |r: &mut Rng, has: bool, cells: &mut Vec<String>| {
            for k in 0..10 {
                cells.push(if !has {
                    String::new()
                } else if k > 0 && k % 3 == 0 {
                    format!("{}.{}", r.range(100, 999), r.range(1, 99999))
                } else {
                    r.range(1000, 9999).to_string()
                });
            }
        };
        metrics(r, true, &mut cells);
        for _ in 0..3 {
            let has = r.chance(60);
            metrics(r, has, &mut cells);
        }
        cells.push(format!("marker{}", r.range(1, 99999)));
        for _ in 0..4 {
            cells.push(format!("0.{}", r.range(1, 99999999)));
        }
        s += &cells.join(",");
        s.push('\n');
    }
    s
}
fn label_of(f: &Value, ignore: &str) -> String {
    let p: Vec<String> = strings(&f["names"]).into_iter().filter(|x| x != "nodes" && x != "organizations" && x != ignore).collect();
    p.join("_")
}
fn file_name(f: &Value) -> String {
    f["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join("_")
        + f["ext"].as_str().unwrap()
}
fn file(kind: &str, doc: usize, names: Vec<String>, ext: &str) -> Value {
    json!({"kind": kind, "doc": doc, "parts": names.iter().map(|x| codes(x)).collect::<Vec<_>>(), "names": names, "ext": ext})
}
fn bulk_docs(r: &mut Rng, pool: &[Case], k: usize) -> Vec<Value> {
    let mut docs: Vec<Value> = vec![];
    while docs.len() < k {
        if !docs.is_empty() && r.chance(15) {
            // the same network with other names
            let mut d = docs[0].clone();
            let c = case_of(&d);
            decorate(r, &mut d);
            d["q"] = case_value(&c)["q"].clone();
            docs.push(d);
            continue;
        }
        let c = r.pick(pool);
        if c.qsets.is_empty() {
            continue;
        }
        let mut x = case_value(c);
        decorate(r, &mut x);
        docs.push(x);
    }
    let forms: Vec<String> = docs.iter().map(|d| Fbas::from_json_str(&nodes_json(d)).to_standard_form().to_json_string()).collect();
    for (k, d) in docs.iter_mut().enumerate() {
        d["form"] = json!(forms.iter().position(|f| *f == forms[k]).unwrap());
    }
    docs
}
fn case_of(d: &Value) -> Case {
    Case { family: "-", qsets: d["q"].as_array().unwrap().iter().map(dec_qset).collect() }
}
const TOKENS: [&str; 16] = ["2020-06-03", "2020-06-04", "a", "b", "a b", "A", "10", "9", "x,y", "q\"r", "é", "日本", "z", "node", "organization", "stellar"];
fn inputs22(seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 22);
    let pool: Vec<Case> = mix(seed, false, 3000, 0, 7).into_iter().map(|c| c.sorted()).filter(|c| c.qsets.len() <= 7 && c.qsets.len() > 1).collect();
    let big: Vec<Case> = big_cases(&mut r, if thorough { 400 } else { 60 }, 24, 30).into_iter().map(|c| c.sorted()).collect();
    let mut v = vec![];
    while v.len() < if thorough { 3000 } else { 260 } {
        let nd = r.range(2, 4);
        let from = if r.chance(12) { &big } else { &pool };
        let docs = bulk_docs(&mut r, from, nd);
        let (mut files, mut cores): (Vec<Value>, Vec<Vec<String>>) = (vec![], vec![]);
        for d in 1..=nd {
            // what is left of the name for the label
            let mut core: Vec<String> = (0..if r.chance(10) { 0 } else { r.range(1, 2) }).map(|_| r.pick(&TOKENS).to_string()).collect();
            if r.chance(10) {
                core.insert(0, "".to_string());
                core.push("c".to_string());
            }
            if cores.contains(&core) {
                continue;
            }
            cores.push(core.clone());
            let with = |r: &mut Rng, word: &str, must: bool| {
                let mut n = core.clone();
                if must || r.chance(70) || n.is_empty() {
                    let at = r.below(n.len() + 1);
                    n.insert(at, word.to_string());
                }
                if r.chance(40) {
                    let at = r.below(n.len() + 1);
                    n.insert(at, "stellarbeat".to_string());
                }
                n
            };
            let n = with(&mut r, "nodes", false);
            let ext = if r.chance(15) { "_.json" } else { ".json" };
            files.push(file("nodes", d, n, ext));
            if r.chance(60) {
                let n = with(&mut r, "organizations", true);
                let ext = if r.chance(15) { "_.json" } else { ".json" };
                files.push(file("orgs", d, n, ext));
            }
        }
        let ignores = ["stellarbeat", "stellarbeat", "a", "zzz"];
        // names and labels are distinct whatever is ignored
        let distinct = |kind: &str, ignore: &str| {
            let mut l: Vec<String> = files.iter().filter(|f| f["kind"] == kind).map(|f| label_of(f, ignore)).collect();
            let n = l.len();
            l.sort();
            l.dedup();
            l.len() == n
        };
        let same_doc = |i: &str| {
            files.iter().all(|f| files.iter().all(|g| f["kind"] == g["kind"] || f["doc"] == g["doc"] || label_of(f, i) != label_of(g, i)))
        };
        if !ignores.iter().all(|i| distinct("nodes", i) && distinct("orgs", i) && same_doc(i)) {
            continue;
        }
        let nfiles = files.len();
        files.push(file("other", 1, vec![r.pick(&["readme", "nodes", "organizations", "a"]).to_string()], *r.pick(&[".txt", "", ".json.bak"])));
        let all: Vec<usize> = (1..=nfiles).collect();
        let mut runs = vec![];
        let jobs = |r: &mut Rng| *r.pick(&[1, 1, 2, 3, 4, 8]);
        let some = |r: &mut Rng, keep: usize| {
            let mut x: Vec<usize> = all.iter().cloned().filter(|_| r.chance(keep)).collect();
            r.shuffle(&mut x);
            x
        };
        for _ in 0..2 {
            let inputs = some(&mut r, 85);
            runs.push(json!({"do": "print", "inputs": inputs, "ignore": r.pick(&ignores), "jobs": jobs(&mut r)}));
        }
        let ignore = *r.pick(&ignores);
        if r.chance(50) {
            // an output file that is there already
            let mut labels: Vec<String> = files[..nfiles].iter().filter(|f| f["kind"] == "nodes").filter(|_| r.chance(50)).map(|f| label_of(f, ignore)).collect();
            for _ in 0..r.below(3) {
                let l = format!("{}-{}", r.pick(&TOKENS), r.below(100));
                if !labels.contains(&l) {
                    labels.push(l);
                }
            }
            r.shuffle(&mut labels);
            runs.push(json!({"do": "prepare", "labels": labels, "seed": r.below(1 << 30)}));
        } else {
            let inputs = some(&mut r, 60);
            runs.push(json!({"do": "write", "inputs": inputs, "ignore": ignore, "jobs": jobs(&mut r), "update": false, "spoil": false}));
        }
        let inputs = some(&mut r, 85);
        let mut refused = json!({"do": "refused", "inputs": inputs, "ignore": ignore, "jobs": jobs(&mut r), "update": false});
        if r.chance(50) {
            let at = r.below(refused["inputs"].as_array().unwrap().len() + 1);
            refused["inputs"].as_array_mut().unwrap().insert(at, json!(nfiles + 1));
            refused["update"] = json!(r.chance(70));
        }
        runs.push(refused);
        for _ in 0..r.range(1, 2) {
            let inputs = some(&mut r, 85);
            let ignore = if r.chance(70) { ignore } else { *r.pick(&ignores) };
            runs.push(json!({"do": "write", "inputs": inputs, "ignore": ignore, "jobs": jobs(&mut r), "update": true, "spoil": r.chance(60)}));
        }
        if r.chance(30) {
            let inputs = some(&mut r, 85);
            runs.push(json!({"do": "remove"}));
            runs.push(json!({"do": "write", "inputs": inputs, "ignore": ignore, "jobs": jobs(&mut r), "update": false, "spoil": false}));
        }
        v.push(json!({"fam": "names", "docs": docs, "files": files, "runs": runs}));
    }
    v
}
fn inputs23(seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 23);
    let pool: Vec<Case> = mix(seed, false, 2000, 0, 6).into_iter().map(|c| c.sorted()).filter(|c| c.qsets.len() <= 6 && c.qsets.len() > 1).collect();
    let mut hs = histories();
    r.shuffle(&mut hs);
    if !thorough {
        hs.truncate(1400);
    }
    // longer chains: more inputs, killed anywhere
    let long = if thorough { 400 } else { 70 };
    for _ in 0..long {
        let most = if r.chance(25) { 24 } else { 9 };
        let nd = r.range(5, most);
        let runs: Vec<Value> = (0..r.range(1, 3))
            .map(|_| {
                let share = *r.pick(&[50, 80, 100]);
                let labels: Vec<usize> = (0..nd).filter(|_| r.chance(share)).collect();
                let kill = if labels.is_empty() || r.chance(15) { -1 } else { r.below(labels.len()) as i64 };
                json!({"labels": labels, "jobs": r.pick(&[1, 1, 2, 3, 4, 8]), "kill": kill, "nd": nd})
            })
            .filter(|x| !x["labels"].as_array().unwrap().is_empty())
            .collect();
        if !runs.is_empty() {
            hs.push(json!(runs));
        }
    }
    hs.iter()
        .map(|h| {
            let nd = h[0]["nd"].as_u64().unwrap_or(4) as usize;
            let docs = bulk_docs(&mut r, &pool, nd);
            let mut names: Vec<String> = ["a", "b", "c", "d"].iter().map(|x| x.to_string()).collect();
            if r.chance(50) {
                names = ["2020-1", "2020-10", "2020-2", "30"].iter().map(|x| x.to_string()).collect();
            }
            if nd > 4 || r.chance(15) {
                // names that are easily taken for each other
                let style = r.below(3);
                names = match style {
                    0 => (1..=nd).map(|k| format!("2021-{}", k)).collect(),
                    1 => (1..=nd).map(|k| format!("{:02}", k)).collect(),
                    _ => {
                        let base = ["a", "A", "a ", " a", "a.", "a,b", "a, b", "\"a\"", "a\"", "é", "e", "E", "1", "01", "1.0", "1e0", "+1", " 1", "true", "TRUE", "-", "--", "a'", "a;b", "a\tb", "#a", "NaN", "inf"];
                        let mut b: Vec<String> = base.iter().map(|x| x.to_string()).collect();
                        r.shuffle(&mut b);
                        b
                    }
                };
                names.truncate(nd);
            }
            let mut files: Vec<Value> = (0..nd).map(|k| file("nodes", k + 1, vec![names[k].to_string(), "nodes".to_string()], ".json")).collect();
            for k in 0..nd {
                if r.chance(30) {
                    files.push(file("orgs", k + 1, vec![names[k].to_string(), "organizations".to_string()], ".json"));
                }
            }
            let runs: Vec<Value> = h
                .as_array()
                .unwrap()
                .iter()
                .map(|x| {
                    let l = ids(&x["labels"]);
                    let mut inputs: Vec<usize> =
                        (0..files.len()).filter(|&k| l.contains(&(us(&files[k]["doc"]) - 1))).map(|k| k + 1).collect();
                    r.shuffle(&mut inputs);
                    json!({"do": "gated", "inputs": inputs, "ignore": "stellarbeat", "jobs": x["jobs"], "kill": x["kill"], "broken": r.chance(30), "seed": r.below(1 << 30)})
                })
                .collect();
            let mut runs = runs;
            if r.chance(25) {
                // there is an output file already, also with a label of its own
                let labels = vec![names[r.below(nd)].to_string(), "bb".to_string()];
                runs.insert(0, json!({"do": "prepare", "labels": labels, "seed": r.below(1 << 30)}));
            }
            // in the end everything is finished
            runs.push(json!({"do": "gated", "inputs": (1..=files.len()).collect::<Vec<_>>(), "ignore": "stellarbeat", "jobs": r.pick(&[1, 2, 4]), "kill": -1, "seed": r.below(1 << 30)}));
            json!({"fam": "gated", "docs": docs, "files": files, "runs": runs})
        })
        .collect()
}
/// Opens a FIFO for writing if there is a reader.
fn open_fifo(p: &str) -> Option<std::fs::File> {
    use std::os::unix::fs::OpenOptionsExt;
    std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(p).ok()
}
fn pause(ms: u64) {
    std::thread::sleep(std::time::Duration::from_millis(ms));
}
const OLD: std::time::SystemTime = std::time::UNIX_EPOCH;
struct Bulk<'a> {
    c: &'a Value,
    dir: String,
    out: String,
    ev: Vec<Value>,
}
impl<'a> Bulk<'a> {
    fn content(&self, k: usize) -> String {
        let f = &self.c["files"][k - 1];
        let d = &self.c["docs"][us(&f["doc"]) - 1];
        if f["kind"] == "orgs" {
            orgs_json(d)
        } else {
            nodes_json(d)
        }
    }
    fn path(&self, k: usize) -> String {
        format!("{}/{}", self.dir, file_name(&self.c["files"][k - 1]))
    }
    fn is_nodes(&self, k: usize) -> bool {
        self.c["files"][k - 1]["kind"] == "nodes"
    }
    fn put(&self, k: usize) {
        std::fs::remove_file(self.path(k)).ok();
        std::fs::write(self.path(k), self.content(k)).unwrap();
    }
    fn disk(&self) -> (Value, bool, bool) {
        match std::fs::read_to_string(&self.out) {
            Ok(t) => {
                let (rows, complete) = bulk_rows(&t);
                (rows, complete, true)
            }
            Err(_) => (json!([]), true, false),
        }
    }
    fn labels(&self) -> Vec<String> {
        self.disk().0.as_array().unwrap().iter().map(|x| ids(&x["label"]).into_iter().map(|c| std::char::from_u32(c as u32).unwrap()).collect()).collect()
    }
    fn command(&self, x: &Value, out: bool, update: bool) -> Command {
        let mut c = bin("bulk_fbas_analyzer");
        let jobs = us(&x["jobs"]);
        if x["ignore"] != "stellarbeat" {
            c.arg("-i").arg(x["ignore"].as_str().unwrap());
        }
        if out {
            c.arg(if jobs % 2 == 0 { "--out" } else { "-o" }).arg(&self.out);
        }
        if update {
            c.arg(if jobs % 2 == 0 { "-u" } else { "--update" });
        }
        if jobs != 1 {
            c.arg("-j").arg(jobs.to_string());
        }
        c.arg("--");
        for k in ids(&x["inputs"]) {
            c.arg(self.path(k));
        }
        c
    }
    fn step(&mut self, x: &Value) {
        match x["do"].as_str().unwrap() {
            "prepare" => {
                let t = marker_file(&mut Rng::new(us(&x["seed"]) as u64), &strings(&x["labels"]));
                std::fs::write(&self.out, t).unwrap();
                self.ev.push(json!({"op": "prepare", "rows": self.disk().0}));
            }
            "remove" => {
                std::fs::remove_file(&self.out).ok();
                self.ev.push(json!({"op": "remove"}));
            }
            "print" => {
                let (code, text) = run(self.command(x, false, false), None);
                let (rows, complete) = bulk_rows(&text);
                self.ev.push(json!({"op": "printed", "inputs": x["inputs"], "ignore": codes(x["ignore"].as_str().unwrap()), "exit": code, "rows": rows, "complete": complete}));
            }
            "refused" => {
                let before = std::fs::read(&self.out).ok();
                let (code, _) = run(self.command(x, true, x["update"] == true), None);
                let after = std::fs::read(&self.out).ok();
                self.ev.push(json!({"op": "refused", "inputs": x["inputs"], "ignore": codes(x["ignore"].as_str().unwrap()), "update": x["update"], "exit": code, "untouched": before == after}));
            }
            "write" => {
                let have = self.labels();
                let ignore = x["ignore"].as_str().unwrap();
                let update = x["update"] == true;
                if update && x["spoil"] == true {
                    // inputs that need no analysis are not looked at
                    for k in ids(&x["inputs"]) {
                        if self.is_nodes(k) && have.contains(&label_of(&self.c["files"][k - 1], ignore)) {
                            std::fs::write(self.path(k), "garbage").unwrap();
                        }
                    }
                }
                self.ev.push(json!({"op": "begin", "inputs": x["inputs"], "ignore": codes(ignore), "update": update, "jobs": x["jobs"]}));
                let (code, _) = run(self.command(x, true, update), None);
                let (rows, complete, _) = self.disk();
                self.ev.push(json!({"op": "end", "exit": code, "rows": rows, "complete": complete}));
                for k in ids(&x["inputs"]) {
                    self.put(k);
                }
            }
            "gated" => self.gated(x),
            _ => panic!(),
        }
    }
    /// wait until these rows have been written, or for something to be wrong
    fn held(&mut self, label: &str, rows: &[String]) {
        for k in 0..2000 {
            let begun = std::fs::metadata(&self.out).and_then(|m| m.modified()).map(|t| t != OLD).unwrap_or(false);
            let there = begun && self.labels() == rows;
            if !there && k == 1999 {
                // certainly a violation: no need to wait as long for the next ones
                crate::ENOUGH.store(true, std::sync::atomic::Ordering::SeqCst);
            }
            if there || k == 1999 {
                // a little more time for what should not happen
                pause(3);
                let d = self.disk();
                self.ev.push(json!({"op": "held", "label": codes(label), "rows": d.0, "complete": d.1}));
                return;
            }
            pause(if k < 100 { 1 } else { 10 });
        }
    }
    fn gated(&mut self, x: &Value) {
        let mut r = Rng::new(us(&x["seed"]) as u64);
        let have = self.labels();
        let update = std::path::Path::new(&self.out).exists();
        let inputs = ids(&x["inputs"]);
        let name = |s: &Self, k: usize| label_of(&s.c["files"][k - 1], "stellarbeat");
        // inputs to be analyzed, by label, each behind a FIFO
        let mut todo: Vec<usize> = inputs.iter().cloned().filter(|&k| self.is_nodes(k) && !have.contains(&name(self, k))).collect();
        todo.sort_by_key(|&k| name(self, k));
        let mut tasks: Vec<String> = have.clone();
        tasks.extend(todo.iter().map(|&k| name(self, k)));
        tasks.sort();
        let hook = |k: usize| format!("{}/hook{}", self.dir, k);
        for &k in &todo {
            std::fs::remove_file(self.path(k)).ok();
            std::fs::remove_file(hook(k)).ok();
            assert!(Command::new("mkfifo").arg(hook(k)).status().unwrap().success());
            std::fs::hard_link(hook(k), self.path(k)).unwrap();
        }
        if r.chance(50) {
            for &k in &inputs {
                if self.is_nodes(k) && !todo.contains(&k) {
                    std::fs::write(self.path(k), "garbage").unwrap();
                }
            }
        }
        let hooks: Vec<(usize, String)> = todo.iter().map(|&k| (k, hook(k))).collect();
        self.ev.push(json!({"op": "begin", "inputs": x["inputs"], "ignore": codes("stellarbeat"), "update": update, "jobs": x["jobs"]}));
        if update {
            std::fs::OpenOptions::new().write(true).open(&self.out).unwrap().set_modified(OLD).unwrap();
        }
        let mut child = self.command(x, true, update).spawn().unwrap();
        let mut open: Vec<usize> = todo.clone();
        let kill = x["kill"].as_i64().unwrap();
        let mut released = 0;
        let mut killed = false;
        while !open.is_empty() {
            let head = name(self, open[0]);
            let at = tasks.iter().position(|l| *l == head).unwrap();
            self.held(&head, &tasks[..at]);
            if released == kill && x["broken"] == true {
                // the next input turns out to be no document
                let mut code = -2;
                let mut fed = false;
                for _ in 0..6000 {
                    if !fed {
                        if let Some(mut pipe) = open_fifo(&hooks.iter().find(|h| h.0 == open[0]).unwrap().1) {
                            pipe.write_all(b"[{\"publicKey\": ").ok();
                            fed = true;
                        }
                    }
                    if let Some(s) = child.try_wait().unwrap() {
                        code = s.code().map(|x| x as i64).unwrap_or(-1);
                        break;
                    }
                    pause(3);
                }
                child.kill().ok();
                child.wait().unwrap();
                let d = self.disk();
                self.ev.push(json!({"op": "broke", "exit": code, "rows": d.0, "complete": d.1, "exists": d.2}));
                killed = true;
                break;
            }
            if released == kill {
                child.kill().ok();
                child.wait().unwrap();
                let d = self.disk();
                self.ev.push(json!({"op": "kill", "rows": d.0, "complete": d.1, "exists": d.2}));
                killed = true;
                break;
            }
            // with several jobs, maybe not the first one
            let mut k = open[if us(&x["jobs"]) > 1 && r.chance(60) { r.below(open.len().min(us(&x["jobs"]))) } else { 0 }];
            let mut pipe = None;
            for attempt in 0..6000 {
                let h = &hooks.iter().find(|h| h.0 == k).unwrap().1;
                pipe = open_fifo(h);
                if pipe.is_some() || child.try_wait().unwrap().is_some() {
                    break;
                }
                if attempt == 100 {
                    k = open[0];
                }
                pause(3);
            }
            let mut pipe = match pipe {
                Some(p) => p,
                None => break,
            };
            let tmp = format!("{}/tmp", self.dir);
            std::fs::write(&tmp, self.content(k)).unwrap();
            std::fs::rename(&tmp, self.path(k)).unwrap();
            let text = self.content(k).into_bytes();
            let mut at = 0;
            while at < text.len() {
                match pipe.write(&text[at..]) {
                    Ok(n) => at += n,
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock && child.try_wait().unwrap().is_none() => pause(1),
                    Err(_) => break,
                }
            }
            drop(pipe);
            let first = k == open[0];
            open.retain(|&y| y != k);
            released += 1;
            if !first {
                pause(25);
            }
        }
        if !killed {
            let t0 = std::time::Instant::now();
            let code = loop {
                if let Some(s) = child.try_wait().unwrap() {
                    break s.code().map(|x| x as i64).unwrap_or(-1);
                }
                if t0.elapsed().as_secs() > 30 {
                    crate::ENOUGH.store(true, std::sync::atomic::Ordering::SeqCst);
                    child.kill().ok();
                    child.wait().unwrap();
                    break -2;
                }
                pause(1);
            };
            let (rows, complete, _) = self.disk();
            self.ev.push(json!({"op": "end", "exit": code, "rows": rows, "complete": complete}));
        }
        for (_, h) in hooks {
            std::fs::remove_file(h).ok();
        }
        for k in inputs {
            self.put(k);
        }
    }
}
fn events22(c: &Value) -> Vec<Value> {
    let dir = format!("{}/bulk", scratch());
    std::fs::remove_dir_all(&dir).ok();
    std::fs::create_dir_all(&dir).unwrap();
    let out = format!("{}/out.csv", dir);
    let mut b = Bulk { c, dir, out, ev: vec![] };
    for k in 1..=c["files"].as_array().unwrap().len() {
        b.put(k);
    }
    for x in c["runs"].as_array().unwrap() {
        b.step(x);
    }
    b.ev
}

// --- C25: simulator and graph generator ---

/// AS relationship lines, read without the library
fn as_lines(text: &str) -> Value {
    json!(text
        .lines()
        .map(|l| {
            let p: Vec<&str> = l.split('|').collect();
            let ok = p.len() >= 3 && !l.starts_with('#') && p[0].parse::<usize>().is_ok() && p[1].parse::<usize>().is_ok();
            if ok {
                json!({"k": "link", "a": p[0].parse::<usize>().unwrap(), "b": p[1].parse::<usize>().unwrap(), "peer": p[2].trim() == "0"})
            } else {
                json!({"k": if l.starts_with('#') || l.trim().is_empty() { "other" } else { "unreadable" }, "a": 0, "b": 0, "peer": false})
            }
        })
        .collect::<Vec<_>>())
}
/// A graph file: the writer compresses, whatever the name.
fn read_graph_file(path: &str) -> String {
    let raw = std::fs::read(path).unwrap_or_default();
    if raw.starts_with(b"BZh") {
        let mut t = String::new();
        use std::io::Read;
        bzip2::read::BzDecoder::new(&raw[..]).read_to_string(&mut t).ok();
        t
    } else {
        String::from_utf8_lossy(&raw).to_string()
    }
}
fn inputs25(seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 25);
    let rels = [(1i64, 8i64), (1, 4), (1, 2), (5, 8), (3, 4), (1, 1), (67, 100), (51, 100)];
    let mut v = vec![];
    for k in 0..if thorough { 9000 } else { 900 } {
        let source = k % 3;
        let mut x = json!({"source": "none"});
        let mut n = 0;
        if source == 1 {
            // a graph made here
            n = r.range(2, 8);
            let und = r.chance(60);
            let g = crate::sim::rand_graph(&mut r, n, und);
            let mut lines = vec![];
            for a in 0..n {
                for &b in &g[a] {
                    if und && a < b {
                        lines.push(if r.chance(50) { format!("{}|{}|0", a, b) } else { format!("{}|{}|0", b, a) });
                    }
                    if !und {
                        // customer a of provider b
                        lines.push(format!("{}|{}|-1", b, a));
                    }
                }
            }
            if lines.is_empty() {
                lines.push("0|1|0".to_string());
            }
            r.shuffle(&mut lines);
            lines.insert(r.below(lines.len() + 1), "# a comment".to_string());
            if r.chance(8) {
                // longer than what is read at once
                for _ in 0..r.range(1, 3) {
                    let dull = *r.pick(&["# ", "#0|1|0", "#|", "# x"]);
                    let long = *r.pick(&[100, 4000, 9000, 33000, 70000]);
                    lines.insert(r.below(lines.len() + 1), format!("#{}", dull.repeat(long / dull.len())));
                }
            }
            n = lines.iter().filter(|l| !l.starts_with('#')).map(|l| l.split('|').take(2).map(|x| x.parse::<usize>().unwrap()).max().unwrap()).max().unwrap() + 1;
            x = json!({"source": "lines", "lines": lines, "stdin": r.chance(50)});
        } else if source == 2 {
            let wide = r.chance(12);
            n = if wide { r.range(11, 48) } else { r.range(2, 10) };
            let (model, p, args) = if r.chance(60) {
                let m0 = r.range(2, if wide { 6 } else { n });
                let m = r.range(1, m0);
                ("scale_free", vec![n, m0, m], vec!["BarabasiAlbert".to_string(), n.to_string(), m0.to_string(), m.to_string()])
            } else {
                n = n.max(3);
                let k = 2 * r.range(1, if wide { 4 } else { (n - 1) / 2 });
                ("small_world", vec![n, k], vec!["WattsStrogatz".to_string(), n.to_string(), k.to_string()])
            };
            let mut args = args;
            let beta = r.below(5);
            if model == "small_world" {
                args.push(format!("{}", beta as f64 / 4.0));
            }
            x = json!({"source": "generator", "model": model, "p": p, "beta": if model == "small_world" { beta } else { 9 }, "args": args, "shuffle": r.chance(60), "file": r.chance(50), "stdin": r.chance(50)});
        }
        let kind = if source == 0 { *r.pick(&["super_safe", "ideal", "random"]) } else { *r.pick(&["random", "neighbors", "higher_tier", "higher_tier", "global_rank"]) };
        // there have to be enough nodes that someone links to
        let famous = source != 1 || Graph::from_as_rel_string(&strings(&x["lines"]).join("\n")).get_in_degrees().iter().all(|&y| y > 0);
        let kind = if kind == "random" && !famous { "neighbors" } else { kind };
        let wide = source == 0 && r.chance(15);
        let (initial, grow) = match (source, r.below(4)) {
            (0, y) if wide => match y {
                0 => (0, r.range(10, 60)),
                1 => (r.range(10, 60), 0),
                _ => (r.range(1, 30), r.range(1, 30)),
            },
            // famous nodes only as far as they exist
            (_, y) if source > 0 && kind == "random" && y % 2 == 0 && n > 2 => {
                let i = r.below(n);
                (i, r.range(if i == 0 { 1 } else { 0 }, n - i))
            }
            (0, 0) => (0, r.range(0, 8)),
            (0, 1) => (r.range(0, 9), 0),
            (0, _) => (r.range(1, 5), r.range(0, 5)),
            (_, 0) => (0, 0),
            (_, 1) => (0, n),
            (_, 2) => (n, 0),
            _ => {
                let i = r.range(1, n);
                (i, n - i)
            }
        };
        let p = *r.pick(&rels);
        let relative = if r.chance(50) { json!([]) } else { json!([p.0, p.1]) };
        let size = if wide { r.range(1, 40) } else if source == 0 { r.range(1, 10) } else { r.range(1, 3) };
        let threshold = if source > 0 && r.chance(40) { r.range(1, 4) } else { 0 };
        x["pol"] = json!({"kind": kind, "size": size, "threshold": threshold, "fame": source > 0, "rel": relative, "sym": r.chance(50)});
        x["initial"] = json!(initial);
        x["grow"] = json!(grow);
        x["fam"] = json!(format!("{}-{}", x["source"].as_str().unwrap(), kind));
        v.push(x);
    }
    v
}
fn qset_with_names(v: &Value) -> Option<Value> {
    let id = |x: &Value| x.as_str().and_then(|s| s.strip_prefix('n')).and_then(|s| s.parse::<usize>().ok());
    let vs: Option<Vec<usize>> = v["validators"].as_array()?.iter().map(id).collect();
    let inner: Option<Vec<Value>> = match v.get("innerQuorumSets") {
        Some(i) => i.as_array()?.iter().map(qset_with_names).collect(),
        None => Some(vec![]),
    };
    Some(json!({"t": enc_t(v["threshold"].as_u64()? as usize), "v": vs?, "i": inner?}))
}
fn events25(c: &Value) -> Vec<Value> {
    let d = scratch();
    let mut out = vec![];
    let path = format!("{}/graph.txt", d);
    let mut graph_text = String::new();
    let source = c["source"].as_str().unwrap();
    match source {
        "lines" => {
            graph_text = strings(&c["lines"]).join("\n");
            std::fs::write(&path, &graph_text).unwrap();
            out.push(json!({"op": "graph", "lines": as_lines(&graph_text)}));
        }
        "generator" => {
            let mut cmd = bin("graph_generator");
            let made = format!("{}/made.bz2", d);
            std::fs::remove_file(&made).ok();
            if c["shuffle"] == false {
                cmd.arg("--dont-shuffle");
            }
            if c["file"] == true {
                cmd.arg(if c["stdin"] == true { "-o" } else { "--output" }).arg(&made);
            }
            cmd.args(strings(&c["args"]));
            let (code, text) = run(cmd, None);
            graph_text = if c["file"] == true { read_graph_file(&made) } else { text };
            if c["file"] == true && c["stdin"] == false {
                // the file as it is
                std::fs::copy(&made, &path).ok();
                std::fs::rename(&path, format!("{}/graph.bz2", d)).ok();
            } else {
                std::fs::write(&path, &graph_text).unwrap();
            }
            out.push(json!({"op": "generated", "model": c["model"], "p": c["p"], "beta": c["beta"], "shuffle": c["shuffle"], "exit": code, "lines": as_lines(&graph_text)}));
        }
        _ => {}
    }
    let p = &c["pol"];
    let kind = p["kind"].as_str().unwrap();
    if kind == "higher_tier" || kind == "global_rank" {
        out.push(ev("ranks", || crate::sim::scores(&Graph::from_as_rel_string(&graph_text))));
    }
    let mut cmd = bin("qsc_simulator");
    let (initial, grow) = (us(&c["initial"]), us(&c["grow"]));
    if initial > 0 {
        cmd.arg(if grow % 2 == 0 { "-i" } else { "--initial" }).arg(initial.to_string());
    }
    if grow > 0 {
        cmd.arg(if initial % 2 == 0 { "-g" } else { "--grow-by" }).arg(grow.to_string());
    }
    let stdin = c["stdin"] == true;
    let file = if source == "generator" && c["file"] == true && !stdin { format!("{}/graph.bz2", d) } else { path };
    let graph_arg = if stdin { "-".to_string() } else { file };
    let rel = ids(&p["rel"]);
    let relative = if rel.is_empty() { None } else { Some(format!("{}", rel[0] as f64 / rel[1] as f64)) };
    match kind {
        "super_safe" => {
            cmd.arg("SuperSafe");
        }
        "ideal" => {
            cmd.arg("Ideal");
        }
        "random" if source == "none" => {
            cmd.arg("Random").arg(p["size"].to_string());
        }
        "random" => {
            cmd.arg("FameWeightedRandom").arg(p["size"].to_string()).arg(&graph_arg);
            if us(&p["threshold"]) > 0 {
                cmd.arg(p["threshold"].to_string());
            }
        }
        _ => {
            cmd.arg(match (kind, p["sym"] == true) {
                ("neighbors", _) => "AllNeighbors",
                ("global_rank", _) => "GlobalRank",
                (_, true) => "SymmetryEnforcingHigherTierNeighbors",
                _ => "HigherTierNeighbors",
            });
            cmd.arg(&graph_arg);
            if let Some(x) = relative {
                cmd.arg(x);
            }
        }
    }
    let (code, text) = run(cmd, if stdin { Some(&graph_text) } else { None });
    let doc: Value = serde_json::from_str(&text).unwrap_or(json!([]));
    let nodes = doc.as_array().cloned().unwrap_or_default();
    let names: Vec<i64> = nodes.iter().map(|x| x["publicKey"].as_str().and_then(|s| s.strip_prefix('n')).and_then(|s| s.parse().ok()).unwrap_or(-1)).collect();
    let q: Option<Vec<Value>> = nodes.iter().map(|x| qset_with_names(&x["quorumSet"])).collect();
    out.push(json!({"op": "simulated", "pol": p, "initial": initial, "grow": grow, "graphy": source != "none", "exit": code, "n": nodes.len(), "names": names, "q": q.map(|x| json!(x)).unwrap_or(json!("unreadable"))}));
    // the end of the pipe, unless that takes long
    if nodes.len() > 10 {
        return out;
    }
    let mut cmd = bin("fbas_analyzer");
    cmd.arg("--results-only");
    let (code, report) = run(cmd, Some(&text));
    let mut items = vec![];
    parse_report(&report, &json!({"p": false}), &mut items);
    let find = |name: &str| items.iter().find(|x| x["name"] == name).map(|x| x["v"].clone()).unwrap_or(json!(-1));
    out.push(json!({"op": "analyzed", "exit": code, "n": find("nodes_total"), "qi": find("has_quorum_intersection")}));
    out
}

// --- C26: performance experiment ---

fn inputs26(seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 26);
    let top = if thorough { 11 } else { 9 };
    let mut v = vec![];
    for k in 0..if thorough { 1500 } else { 220 } {
        let mut runs = vec![];
        let jobs = |r: &mut Rng| *r.pick(&[1, 1, 2, 3, 8]);
        let max = |r: &mut Rng, stellar: bool| if k % 5 == 0 || stellar { r.range(0, top) } else { r.range(0, 6) };
        let mut stellar = r.chance(40);
        if r.chance(60) {
            runs.push(json!({"do": "print", "max": max(&mut r, stellar), "runs": r.below(4), "stellar": stellar, "jobs": jobs(&mut r)}));
        }
        if r.chance(50) {
            let mut rows = vec![];
            for _ in 0..r.below(6) {
                let t = (r.range(1, 12), r.below(4));
                if !rows.contains(&t) {
                    rows.push(t);
                }
            }
            runs.push(json!({"do": "prepare", "tasks": rows, "seed": r.below(1 << 30)}));
        } else {
            let kill = if r.chance(40) { r.below(6) as i64 } else { -1 };
            runs.push(json!({"do": "run", "max": max(&mut r, stellar), "runs": r.range(1, 3), "stellar": stellar, "jobs": jobs(&mut r), "kill": kill}));
        }
        for _ in 0..r.range(1, 3) {
            if r.chance(25) {
                stellar = !stellar;
            }
            if r.chance(30) {
                runs.push(json!({"do": "refused", "max": max(&mut r, stellar), "runs": r.range(0, 2), "stellar": stellar, "jobs": jobs(&mut r)}));
            }
            let kill = if r.chance(40) { r.below(10) as i64 } else { -1 };
            runs.push(json!({"do": "run", "max": max(&mut r, stellar), "runs": r.range(0, 3), "stellar": stellar, "jobs": jobs(&mut r), "kill": kill}));
        }
        v.push(json!({"fam": "experiment", "todo": runs}));
    }
    v
}
const COLUMNS26: &str = "top_tier_size,run,mq_number,mbs_number,mss_number,mq_mean,mbs_mean,mss_mean,analysis_duration_mq,analysis_duration_mbs,analysis_duration_mss,analysis_duration_hqi_after_mq,analysis_duration_hqi_alt_check,analysis_duration_total";
fn experiment_rows(text: &str) -> (Value, bool) {
    let (mut lines, ended) = csv(text);
    if lines.is_empty() {
        return (json!([]), ended);
    }
    let head = lines.remove(0);
    let ok = ended && lines.iter().all(|l| l.len() == head.len());
    let rows: Vec<Value> = lines
        .iter()
        .map(|l| {
            let get = |name: &str| head.iter().position(|h| h == name).and_then(|k| l.get(k)).map(|x| x.as_str());
            let int = |name: &str| get(name).and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1);
            let col = |s: &str| json!([int(&format!("{}_number", s)), get(&format!("{}_mean", s)).and_then(|x| x.parse::<f64>().ok()).map(fixed).unwrap_or(-1)]);
            let d: Vec<f64> = head.iter().filter(|h| h.starts_with("analysis_duration")).map(|h| get(h).unwrap().parse().unwrap_or(-1.0)).collect();
            json!({"size": int("top_tier_size"), "run": int("run"), "mq": col("mq"), "mbs": col("mbs"), "mss": col("mss"),
                   "durations": d.len() == 6 && d.iter().all(|x| *x >= 0.0 && *x <= d[5]), "raw": l.iter().map(|x| norm(x)).collect::<Vec<_>>().join("|")})
        })
        .collect();
    (json!(rows), ok)
}
fn events26(c: &Value) -> Vec<Value> {
    let d = scratch();
    let path = format!("{}/experiment.csv", d);
    std::fs::remove_file(&path).ok();
    let mut out = vec![];
    for x in c["todo"].as_array().unwrap() {
        let exists = std::path::Path::new(&path).exists();
        let what = x["do"].as_str().unwrap();
        if what == "prepare" {
            let mut r = Rng::new(us(&x["seed"]) as u64);
            let mut t = format!("{}\n", COLUMNS26);
            for k in x["tasks"].as_array().unwrap() {
                t += &format!("{},{}", k[0], k[1]);
                for _ in 0..3 {
                    t += &format!(",{}", r.range(1000, 9999));
                }
                for _ in 0..9 {
                    t += &format!(",{}.{}", r.range(10, 99), r.range(1, 99999));
                }
                t.push('\n');
            }
            std::fs::write(&path, &t).unwrap();
            out.push(json!({"op": "prepare", "rows": experiment_rows(&t).0}));
            continue;
        }
        if what == "refused" && !exists {
            continue;
        }
        let mut cmd = bin("bulk_performance_experiment");
        let jobs = us(&x["jobs"]);
        let update = what == "run" && exists;
        let long = jobs % 2 == 0;
        cmd.arg(if long { "--max-top-tier-size" } else { "-m" }).arg(x["max"].to_string());
        cmd.arg(if long { "--runs" } else { "-r" }).arg(x["runs"].to_string());
        if x["stellar"] == true {
            cmd.arg("--stellar-like");
        }
        if jobs > 1 {
            cmd.arg(if long { "--jobs" } else { "-j" }).arg(jobs.to_string());
        }
        if update {
            cmd.arg(if long { "--update" } else { "-u" });
        }
        if what != "print" {
            cmd.arg(if long { "--out" } else { "-o" }).arg(&path);
        }
        let mut e = json!({"max": x["max"], "runs": x["runs"], "stellar": x["stellar"], "update": update});
        let disk = |e: &mut Value| {
            let t = std::fs::read_to_string(&path);
            let (rows, complete) = t.as_ref().map(|t| experiment_rows(t)).unwrap_or((json!([]), true));
            e["rows"] = rows;
            e["complete"] = json!(complete);
            e["exists"] = json!(t.is_ok());
        };
        if what == "print" {
            let (code, text) = run(cmd, None);
            let (rows, complete) = experiment_rows(&text);
            e["op"] = json!("printed");
            e["exit"] = json!(code);
            e["rows"] = rows;
            e["complete"] = json!(complete);
        } else if what == "refused" {
            let before = std::fs::read(&path).ok();
            let (code, _) = run(cmd, None);
            e["op"] = json!("refused");
            e["exit"] = json!(code);
            e["untouched"] = json!(before == std::fs::read(&path).ok());
        } else {
            let kill = x["kill"].as_i64().unwrap();
            let mut child = cmd.spawn().unwrap();
            let t0 = std::time::Instant::now();
            let code = loop {
                if let Some(s) = child.try_wait().unwrap() {
                    break s.code().map(|x| x as i64).unwrap_or(-1);
                }
                let lines = if kill >= 0 { std::fs::read_to_string(&path).map(|t| t.lines().count() as i64).unwrap_or(0) } else { 0 };
                let late = t0.elapsed().as_secs() > 60;
                if late && kill < 0 {
                    crate::ENOUGH.store(true, std::sync::atomic::Ordering::SeqCst);
                }
                if (kill >= 0 && lines > kill) || late {
                    child.kill().ok();
                    child.wait().unwrap();
                    break -2;
                }
                if kill < 0 {
                    pause(1);
                }
            };
            e["op"] = json!(if code == -2 && kill >= 0 { "killed" } else { "ran" });
            e["exit"] = json!(code);
            disk(&mut e);
        }
        out.push(e);
    }
    out
}

pub fn inputs(prop: &str, seed: u64, thorough: bool) -> Vec<Value> {
    match prop {
        "C21" => inputs21(seed, thorough),
        "C22" => inputs22(seed, thorough),
        "C23" => inputs23(seed, thorough),
        "C25" => inputs25(seed, thorough),
        "C26" => inputs26(seed, thorough),
        _ => panic!("{}", prop),
    }
}
pub fn events(prop: &str, c: &Value) -> Vec<Value> {
    match prop {
        "C21" => events21(c),
        "C22" | "C23" => events22(c),
        "C25" => events25(c),
        "C26" => events26(c),
        _ => panic!("{}", prop),
    }
}
