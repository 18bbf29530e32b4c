//! C01..C11: the analyses proper.
use crate::enc::*;
use crate::gen::*;
use fbas_analyzer::*;
use serde_json::{json, Value};

pub fn case_value(c: &Case) -> Value {
    json!({"fam": c.family, "n": c.qsets.len(), "q": enc_qsets(&c.qsets)})
}
/// All flat duplicate-free quorum sets over 0..n with thresholds 0..=|V|+1.
pub fn flat_universe(n: usize) -> Vec<QuorumSet> {
    let mut u = vec![];
    for m in 0..1usize << n {
        let v = mask(m, n);
        for t in 0..=v.len() + 1 {
            u.push(qs(t, v.clone(), vec![]));
        }
    }
    u
}
pub fn exhaustive(n: usize) -> Vec<Case> {
    let u = flat_universe(n);
    let total = u.len().pow(n as u32);
    (0..total)
        .map(|mut k| {
            let mut qsets = vec![];
            for _ in 0..n {
                qsets.push(u[k % u.len()].clone());
                k /= u.len();
            }
            Case { family: "exhaustive", qsets }
        })
        .collect()
}
/// The case mix used by most properties: everything with 1 and 2 nodes and flat quorum sets, a
/// sample of (or all) such systems with 3 nodes, and the random families.
pub fn mix(seed: u64, thorough: bool, quick_n: usize, thorough_n: usize, maxn: usize) -> Vec<Case> {
    let mut r = Rng::new(seed ^ 0xABCD);
    let mut v = vec![];
    v.extend(exhaustive(1));
    v.extend(exhaustive(2));
    let three = exhaustive(3);
    if thorough {
        v.extend(three);
    } else {
        for _ in 0..quick_n / 6 {
            v.push(three[r.below(three.len())].clone());
        }
    }
    let count = if thorough { thorough_n } else { quick_n };
    let cap = if thorough { maxn + 2 } else { maxn + 1 };
    let mut i = 0;
    while i < count {
        let fam = FAMILIES[i % FAMILIES.len()];
        let m = 3 + r.below(maxn - 2);
        let c = case(&mut r, fam, m);
        let live = c.qsets.iter().filter(|q| q.threshold > 0).count();
        if (c.family != "sparse" && c.qsets.len() > cap) || (c.family == "sparse" && live > 40) {
            continue;
        }
        v.push(c);
        i += 1;
    }
    v
}


fn live(c: &Case) -> usize {
    c.qsets.len()
}
/// how many slices listing a quorum set's slices naively yields
fn slice_count(q: &QuorumSet) -> f64 {
    let mut poly = vec![1.0f64];
    let mut mul = |x: f64| {
        poly.push(0.0);
        for k in (1..poly.len()).rev() {
            poly[k] += poly[k - 1] * x;
        }
    };
    q.validators.iter().for_each(|_| mul(1.0));
    q.inner_quorum_sets.iter().for_each(|i| mul(slice_count(i)));
    poly.get(q.threshold).copied().unwrap_or(0.0)
}
fn to_values(cs: Vec<Case>) -> Vec<Value> {
    cs.iter().map(case_value).collect()
}

/// systems with results that are too long to be listed by TLC
pub fn counted_values(r: &mut Rng, thorough: bool, loose: usize) -> Vec<Value> {
    let mut v = vec![];
    for k in 0..if thorough { 80 } else { 16 } {
        let (twisted, most) = *[(true, 900.0), (false, 8_000.0), (true, 300.0), (false, 3_000.0), (false, 14_000.0), (true, 900.0), (false, 1_000.0), (true, 2_500.0)].get(k % 8).unwrap();
        let (c, orgs, t, s) = counted(r, twisted, most, loose);
        let mut x = case_value(&c);
        x["count"] = json!({"orgs": orgs, "t": t, "s": s});
        v.push(x);
    }
    v
}
/// a summary of a long list of sets
pub fn summary(what: &str, r: &NodeIdSetVecResult, c: &Value) -> Value {
    let orgs: Vec<Vec<usize>> = c["count"]["orgs"].as_array().unwrap().iter().map(ids).collect();
    let sets = r.clone().unwrap();
    let mut all: Vec<Vec<usize>> = sets.iter().map(|s| s.iter().collect()).collect();
    let some: Vec<Vec<usize>> = (0..all.len()).step_by(all.len() / 40 + 1).map(|k| all[k].clone()).collect();
    let mut profiles = std::collections::BTreeSet::new();
    let mut others = 0;
    for s in sets.iter() {
        let mut p: Vec<usize> = orgs.iter().map(|o| o.iter().filter(|&&x| s.contains(x)).count()).filter(|&k| k > 0).collect();
        others += s.len() - p.iter().sum::<usize>();
        p.sort_unstable();
        profiles.insert(p);
    }
    all.sort_unstable();
    all.dedup();
    json!({"what": what, "len": r.len(), "distinct": all.len(), "others": others, "profiles": profiles, "some": some,
           "min": r.min(), "max": r.max(), "mean": crate::bins::fixed(r.mean()), "histogram": r.histogram(),
           "involved": enc_set(&r.involved_nodes()), "describe": crate::io::parse_describe(&r.clone().into_describe_string())})
}
pub fn counted_events(prop: &str, c: &Value, f: &Fbas) -> Vec<Value> {
    let mut e = vec![];
    let a = Analysis::new(f);
    if ["C03", "C16"].contains(&prop) {
        e.push(ev("counted", || summary("mq", &a.minimal_quorums(), c)));
        e.push(ev("counted_find", || json!({"what": "mq", "len": find_minimal_quorums(f).len()})));
    }
    if ["C05", "C16"].contains(&prop) {
        e.push(ev("counted", || summary("mbs", &a.minimal_blocking_sets(), c)));
        e.push(ev("counted_find", || json!({"what": "mbs", "len": find_minimal_blocking_sets(f).len()})));
    }
    if ["C06", "C16"].contains(&prop) {
        e.push(ev("counted", || summary("mss", &a.minimal_splitting_sets(), c)));
    }
    if prop == "C07" {
        e.push(ev("counted_tops", || {
            let b = Analysis::new(f);
            let first = b.top_tier().into_vec();
            json!({"first": first, "mq": enc_set(&a.minimal_quorums().involved_nodes()), "after": a.top_tier().into_vec(),
                   "mbs": enc_set(&a.minimal_blocking_sets().involved_nodes())})
        }));
    }
    e
}
pub fn inputs(prop: &str, seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed.wrapping_mul(31) ^ 0x55);
    match prop {
        "C01" => {
            let mut v = mix(seed, thorough, 9000, 60000, 5);
            v.retain(|c| live(c) <= 6);
            // weird quorum sets are what this property is about
            let extra = if thorough { 40000 } else { 6000 };
            for k in 0..extra {
                let n = r.range(1, 5);
                let pool: Vec<usize> = (0..n).collect();
                let depth = k % 4;
                let qsets = (0..n).map(|_| rand_qset(&mut r, &pool, depth, true)).collect();
                v.push(Case { family: "weird_deep", qsets });
            }
            for k in 0..if thorough { 4000 } else { 400 } {
                v.push(if k % 3 == 0 && k % 2 == 0 { sprawl(&mut r, 300) } else if k % 3 == 0 { wide_candidate(&mut r) } else { big_candidate(&mut r, BIG_FAMILIES[k % BIG_FAMILIES.len()]) });
            }
            let mut vals = to_values(v.clone());
            for (x, c) in vals.iter_mut().zip(v.iter()) {
                let n = c.qsets.len();
                x["probe"] = json!(if n > 6 { probes(&mut r, &c.qsets, 12) } else { vec![] });
                x["who"] = json!(if n > 6 { (0..4).map(|_| r.below(n)).collect() } else { vec![] });
            }
            vals
        }
        "C02" | "C24" => {
            let mut v = mix(seed, thorough, 12000, 100000, 7);
            // bigger systems: the oracle is a fixpoint, not an enumeration
            let extra = if thorough { 6000 } else { 800 };
            for _ in 0..extra {
                let fam = *r.pick(&FAMILIES);
                let m = 8 + r.below(12);
                v.push(case(&mut r, fam, m));
                if v.len() % 2 == 0 {
                    let fam = *r.pick(&BIG_FAMILIES);
                    v.push(big_candidate(&mut r, fam));
                }
            }
            let (many, most) = if prop == "C02" { (90, 300) } else { (60, 300) };
            v.extend((0..if thorough { 10 * many } else { many }).map(|_| sprawl(&mut r, most)));
            v.extend((0..if thorough { 200 } else { 20 }).map(|_| wide_candidate(&mut r)).filter(|c| c.qsets.len() <= most));
            let mut vals = to_values(v);
            for x in vals.iter_mut() {
                let n = x["n"].as_u64().unwrap() as usize;
                let subs: Vec<Vec<usize>> = (0..3)
                    .map(|_| {
                        let p = 30 + r.below(65);
                        (0..n).filter(|_| r.chance(p)).collect()
                    })
                    .collect();
                x["subs"] = json!(subs);
            }
            vals
        }
        "C03" | "C04" | "C05" | "C06" | "C07" => {
            let quick = match prop {
                "C05" => 20000,
                "C07" => 16000,
                _ => 24000,
            };
            let mut v = mix(seed, thorough, quick, 6 * quick, 7);
            v.extend(big_cases(&mut r, if thorough { 3000 } else { 300 }, 60, 150));
            v.extend((0..if thorough { 80 } else { 12 }).map(|_| crowd(&mut r)));
            let mut v = to_values(v);
            v.extend(counted_values(&mut r, thorough, if prop == "C04" { 40 } else { 10 }));
            v
        }
        // for the theorems and the search: small systems, systematically and sampled
        "M03" => {
            let mut v = vec![];
            v.extend(exhaustive(1));
            v.extend(exhaustive(2));
            let three = exhaustive(3);
            for _ in 0..if thorough { 3000 } else { 100 } {
                v.push(three[r.below(three.len())].clone());
            }
            let n = v.len() + if thorough { 900 } else { 90 };
            while v.len() < n {
                let fam = FAMILIES[v.len() % FAMILIES.len()];
                let m = 3 + r.below(5);
                let c = case(&mut r, fam, m);
                if c.qsets.len() <= 7 {
                    v.push(c);
                } else if c.family == "sparse" {
                    v.push(case(&mut r, "hypergraph", 7));
                }
            }
            to_values(v)
        }
        "C08" => {
            let mut v: Vec<Case> = mix(seed, thorough, 24000, 150000, 8);
            // two symmetric clusters with followers; identical quorum sets in disguise
            let extra = if thorough { 20000 } else { 4000 };
            for _ in 0..extra {
                let mut c = case(&mut r, "clusters", 6);
                let n = c.qsets.len();
                let q = c.qsets[r.below(n)].clone();
                for _ in 0..r.below(3) {
                    c.qsets.push(q.clone());
                }
                c.family = "clusters_plus";
                v.push(c);
            }
            for _ in 0..if thorough { 4000 } else { 600 } {
                let fam = *r.pick(&BIG_FAMILIES);
                v.push(big_candidate(&mut r, fam));
            }
            v.extend((0..if thorough { 900 } else { 120 }).map(|_| sprawl(&mut r, 300)));
            to_values(v.into_iter().map(|c| c.sorted()).collect())
        }
        "C10" => {
            let small = mix(seed, thorough, 5000, 40000, 6);
            let mut cases = small.clone();
            for c in big_cases(&mut r, if thorough { 2000 } else { 200 }, 24, 30) {
                cases.push(c);
            }
            // too big for their minimal quorums
            let listed = cases.len();
            cases.extend((0..if thorough { 300 } else { 40 }).map(|_| sprawl(&mut r, 257)));
            let mut vals = to_values(cases.clone());
            for (k, x) in vals.iter_mut().enumerate() {
                x["listed"] = json!(k < listed);
                let n = x["n"].as_u64().unwrap() as usize;
                let share = if k < small.len() { 65 } else { *r.pick(&[50, 80, 95]) };
                let mut keep: Vec<usize> = (0..n).filter(|_| r.chance(share)).collect();
                x["probe"] = json!(if k < small.len() { vec![] } else { probes(&mut r, &cases[k].qsets, 12) });
                if n > 10 && k < small.len() {
                    r.shuffle(&mut keep);
                    keep.truncate(6);
                    keep.sort_unstable();
                }
                let keep2: Vec<usize> = keep.iter().copied().filter(|_| r.chance(65)).collect();
                x["keep"] = json!(keep);
                x["keep2"] = json!(keep2);
                x["groups"] = json!(crate::io::rand_groups(&mut r, n.min(20)));
            }
            vals
        }
        // systems for model checking (M09: whole state machine, M3: exhaustive definitions)
        "M09" => {
            let mut v: Vec<Case> = vec![];
            let n = if thorough { 600 } else { 90 };
            while v.len() < n {
                let fam = FAMILIES[v.len() % FAMILIES.len()];
                let m = 3 + r.below(4);
                let c = case(&mut r, fam, m);
                if c.qsets.len() <= 7 {
                    v.push(c.sorted());
                } else if c.family == "sparse" {
                    v.push(case(&mut r, "hierarchy", 7).sorted());
                }
            }
            to_values(v)
        }
        "C09" => {
            let path = std::env::var("HISTORIES").unwrap();
            let hist: Vec<Value> = std::fs::read_to_string(path).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
            let per = if thorough { 4 } else { 3 };
            let pure = ["all", "sat", "unsat", "symcl", "symtt"];
            let mut vals = vec![];
            let pool: Vec<Case> = mix(seed, thorough, 900, 6000, 7).into_iter().map(|c| c.sorted()).collect();
            // systems with irrelevant nodes and nodes outside of the top tier matter most
            let mut long = vec![];
            if let Ok(path) = std::env::var("LONG") {
                long = std::fs::read_to_string(path).unwrap().lines().map(|l| serde_json::from_str::<Value>(l).unwrap()).collect();
            }
            let interesting: Vec<&Case> = pool
                .iter()
                .filter(|c| match ref_top_tier(&c.qsets) {
                    Some((sat, tt)) => {
                        let count = |v: &[bool]| v.iter().filter(|x| **x).count();
                        count(&tt) > 0 && count(&tt) < count(&sat)
                    }
                    None => false,
                })
                .collect();
            // and for verdicts and witnesses those where some quorums intersect and some don't
            let graphs: Vec<Case> = (0..400).map(|_| case(&mut r, "hypergraph", 8).sorted()).collect();
            // some systems that are too big for enumerating subsets
            let big: Vec<Case> = big_cases(&mut r, if thorough { 400 } else { 60 }, 24, 30).into_iter().map(|c| c.sorted()).collect();
            let partly: Vec<&Case> = graphs.iter().filter(|c| ref_partly_disjoint(&c.qsets)).collect();
            for h in hist.iter().chain(long.iter()) {
                let verdict = h.as_array().unwrap().iter().any(|q| q == "alt");
                for k in 0..per + if verdict { 2 } else { 0 } {
                    let c = if k < per && r.chance(5) { r.pick(&big).clone() } else if k >= per && !partly.is_empty() { (*r.pick(&partly)).clone() } else if k % 3 < 2 && !interesting.is_empty() { (*r.pick(&interesting)).clone() } else { r.pick(&pool).clone() };
                    let mut h = h.clone();
                    for q in h.as_array_mut().unwrap() {
                        if q == "pure" {
                            *q = json!(*r.pick(&pure));
                        }
                    }
                    let mut x = case_value(&c);
                    x["h"] = h;
                    vals.push(x);
                }
            }
            vals
        }
        "C28" => {
            let mut v: Vec<Case> = vec![Case { family: "empty", qsets: vec![] }];
            let mut sparse = 0;
            for c in mix(seed, thorough, 1800, 15000, 7) {
                if c.qsets.len() > 12 {
                    sparse += 1;
                    if sparse > if thorough { 200 } else { 20 } {
                        continue;
                    }
                }
                v.push(c);
            }
            // few links, so that trust keeps circulating or runs dry
            for _ in 0..if thorough { 4000 } else { 500 } {
                let n = r.range(1, 8);
                let qsets = (0..n)
                    .map(|_| {
                        let k = r.below(3);
                        let validators: Vec<usize> = (0..k).map(|_| r.below(n)).collect();
                        let inner_quorum_sets = if r.chance(25) { vec![rand_qset(&mut r, &(0..n.min(3)).collect::<Vec<_>>(), 1, true)] } else { vec![] };
                        QuorumSet { threshold: r.below(3), validators, inner_quorum_sets }
                    })
                    .collect();
                v.push(Case { family: "few_links", qsets });
            }
            for _ in 0..if thorough { 600 } else { 60 } {
                let fam = *r.pick(&BIG_FAMILIES);
                let c = big_candidate(&mut r, fam);
                if c.qsets.len() <= 30 {
                    v.push(c);
                }
            }
            v.extend((0..if thorough { 300 } else { 30 }).map(|_| sprawl(&mut r, 257)));
            let mut vals = to_values(v);
            for x in vals.iter_mut() {
                let n = x["n"].as_u64().unwrap() as usize;
                let mut perm: Vec<usize> = (0..n).collect();
                r.shuffle(&mut perm);
                x["perm"] = json!(perm);
                // some of the nodes: with all that they mention, or any
                let mut within = vec![];
                for k in 0..if n > 0 { 3 } else { 0 } {
                    let share = *r.pick(&[0usize, 10, 50]);
                    let one = r.below(n);
                    let mut w: Vec<usize> = (0..n).filter(|&y| y == one || r.chance(share)).collect();
                    let mut j = 0;
                    while k < 2 && j < w.len() {
                        let mut todo = vec![&x["q"][w[j]]];
                        let mut more = vec![];
                        while let Some(q) = todo.pop() {
                            more.extend(ids(&q["v"]));
                            todo.extend(q["i"].as_array().unwrap());
                        }
                        for y in more {
                            if !w.contains(&y) {
                                w.push(y);
                            }
                        }
                        j += 1;
                    }
                    r.shuffle(&mut w);
                    within.push(w);
                }
                x["within"] = json!(within);
            }
            vals
        }
        "C11" => {
            let mut cases: Vec<Case> = mix(seed, thorough, 8000, 60000, 6).into_iter().map(|c| c.sorted()).collect();
            let small = cases.len();
            cases.extend(big_cases(&mut r, if thorough { 2000 } else { 200 }, 24, 30).into_iter().map(|c| c.sorted()));
            // too big for their minimal quorums
            let listed = cases.len();
            cases.extend((0..if thorough { 300 } else { 40 }).map(|_| sprawl(&mut r, 257).sorted()));
            let mut vals = to_values(cases.clone());
            for (k, x) in vals.iter_mut().enumerate() {
                x["listed"] = json!(k < listed);
                let n = x["n"].as_u64().unwrap() as usize;
                x["probe"] = json!(if k < small { vec![] } else { probes(&mut r, &cases[k].qsets, 12) });
                // public keys whose order differs from the order of ids, of different lengths
                let mut keys: Vec<String> = (0..n)
                    .map(|k| match k % 4 {
                        0 => format!("{}", k),
                        1 => format!("n{}", k),
                        2 => format!("N{}x", 1000 - k),
                        _ => format!("é{}", k),
                    })
                    .collect();
                r.shuffle(&mut keys);
                let mut perm: Vec<usize> = (0..n).collect();
                r.shuffle(&mut perm);
                x["keys"] = json!(keys);
                x["perm"] = json!(perm);
            }
            vals
        }
        _ => panic!("unknown property {}", prop),
    }
}

/// results that were handed out and are looked at (again) later
enum Held {
    Set(NodeIdSetResult),
    Vec(NodeIdSetVecResult),
}
impl Held {
    fn enc(self) -> Value {
        match self {
            Held::Set(s) => json!(s.into_vec()),
            Held::Vec(v) => json!(v.into_vec_vec()),
        }
    }
}
/// one query; its answer, the result object, the witness (alternative check)
fn query(a: &Analysis, q: &str) -> (Value, Option<Held>, Option<NodeIdSetVecResult>) {
    let set = |r: NodeIdSetResult| (json!(r.clone().into_vec()), Some(Held::Set(r)), None);
    let vec = |r: NodeIdSetVecResult| (enc_sets(&r.clone().unwrap()), Some(Held::Vec(r)), None);
    match q {
        "hqi" => (json!(a.has_quorum_intersection()), None, None),
        "alt" => {
            let (r, w) = a.has_quorum_intersection_via_alternative_check();
            (json!(r), None, w)
        }
        "mq" => vec(a.minimal_quorums()),
        "mbs" => vec(a.minimal_blocking_sets()),
        "mss" => vec(a.minimal_splitting_sets()),
        "tt" => set(a.top_tier()),
        "all" => set(a.all_nodes()),
        "sat" => set(a.satisfiable_nodes()),
        "unsat" => set(a.unsatisfiable_nodes()),
        "symcl" => (enc_qsets(&a.symmetric_clusters()), None, None),
        "symtt" => (enc_qsets(&a.symmetric_top_tier().into_iter().collect::<Vec<_>>()), None, None),
        _ => panic!("query"),
    }
}
fn qset_json(q: &QuorumSet, keys: &[String]) -> Value {
    json!({
        "threshold": q.threshold,
        "validators": q.validators.iter().map(|&x| keys[x].clone()).collect::<Vec<_>>(),
        "innerQuorumSets": q.inner_quorum_sets.iter().map(|x| qset_json(x, keys)).collect::<Vec<_>>(),
    })
}

pub fn events(prop: &str, c: &Value) -> Vec<Value> {
    let f = dec_fbas(c);
    let n = f.number_of_nodes();
    if !c["count"].is_null() && prop != "C04" {
        return counted_events(prop, c, &f);
    }
    match prop {
        "C01" if n > 6 => {
            let probe: Vec<NodeIdSet> = c["probe"].as_array().unwrap().iter().map(|s| set(&ids(s))).collect();
            let mut e = vec![ev("probe_quorums", || json!({ "r": probe.iter().map(|s| f.is_quorum(s)).collect::<Vec<_>>() }))];
            for x in ids(&c["who"]) {
                let q = f.get_quorum_set(x).unwrap();
                e.push(ev("probe_slices", || json!({"x": x, "r": probe.iter().map(|s| q.is_quorum_slice(s)).collect::<Vec<_>>()})));
                e.push(ev("contained", || {
                    json!({"x": x, "r": enc_set(&q.contained_nodes()), "dups": q.contains_duplicates()})
                }));
                if slice_count(&q) <= 400.0 {
                    e.push(ev("enumerate", || json!({"x": x, "r": enc_sets(&q.to_quorum_slices())})));
                }
            }
            e
        }
        "C01" => {
            let mut e = vec![ev("quorums", || {
                json!((0..1usize << n).filter(|&m| f.is_quorum(&set(&mask(m, n)))).collect::<Vec<_>>())
            })];
            for x in 0..n {
                let q = f.get_quorum_set(x).unwrap();
                e.push(ev("slices", || {
                    json!({"x": x, "r": (0..1usize << n).filter(|&m| q.is_quorum_slice(&set(&mask(m, n)))).collect::<Vec<_>>()})
                }));
                e.push(ev("contained", || {
                    json!({"x": x, "r": enc_set(&q.contained_nodes()), "dups": q.contains_duplicates()})
                }));
                // (lists that get huge are left out)
                if slice_count(&q) > 400.0 {
                    continue;
                }
                e.push(ev("enumerate", || json!({"x": x, "r": enc_sets(&q.to_quorum_slices())})));
            }
            e
        }
        "C02" => {
            let mut e = vec![
                ev("satisfiable", || json!({"sat": enc_set(&f.satisfiable_nodes()), "unsat": enc_set(&f.unsatisfiable_nodes())})),
                ev("analysis", || {
                    let a = Analysis::new(&f);
                    json!({"sat": a.satisfiable_nodes().into_vec(), "unsat": a.unsatisfiable_nodes().into_vec(), "all": a.all_nodes().into_vec()})
                }),
            ];
            for s in c["subs"].as_array().unwrap() {
                e.push(ev("within", || {
                    let (a, b) = preprocessing::find_satisfiable_nodes(&set(&ids(s)), &f);
                    json!({"s": s, "sat": enc_set(&a), "unsat": enc_set(&b)})
                }));
            }
            e
        }
        "C24" => {
            let mut e = vec![
                ev("sccs", || enc_sets(&f.strongly_connected_components())),
            ];
            for s in c["subs"].as_array().unwrap() {
                e.push(ev("partition", || {
                    let r = preprocessing::partition_into_strongly_connected_components(&set(&ids(s)), &f);
                    json!({"s": s, "r": enc_sets(&r)})
                }));
            }
            e
        }
        "C03" => vec![
            ev("find", || enc_sets(&find_minimal_quorums(&f))),
            ev("analysis", || enc_sets(&Analysis::new(&f).minimal_quorums().unwrap())),
        ],
        "C04" => vec![
            ev("check", || json!(Analysis::new(&f).has_quorum_intersection())),
            ev("alternative", || {
                let (r, w) = Analysis::new(&f).has_quorum_intersection_via_alternative_check();
                match w {
                    Some(w) => json!({"r": r, "some": true, "w": enc_sets(&w.unwrap())}),
                    None => json!({"r": r, "some": false, "w": []}),
                }
            }),
            ev("find", || match find_nonintersecting_quorums(&f) {
                Some(w) => json!({"some": true, "w": enc_sets(&w)}),
                None => json!({"some": false, "w": []}),
            }),
        ],
        "C05" => vec![
            ev("find", || enc_sets(&find_minimal_blocking_sets(&f))),
            ev("analysis", || enc_sets(&Analysis::new(&f).minimal_blocking_sets().unwrap())),
        ],
        "C06" => vec![
            ev("analysis", || enc_sets(&Analysis::new(&f).minimal_splitting_sets().unwrap())),
            ev("find", || enc_sets(&find_minimal_splitting_sets(&f, &find_minimal_quorums(&f)))),
        ],
        "C07" => vec![
            ev("top_tier", || json!(Analysis::new(&f).top_tier().into_vec())),
            ev("top_tier_after_mbs", || {
                let a = Analysis::new(&f);
                let mbs = a.minimal_blocking_sets();
                json!({"r": a.top_tier().into_vec(), "involved": enc_set(&mbs.involved_nodes())})
            }),
            ev("top_tier_after_mq", || {
                let a = Analysis::new(&f);
                let mq = a.minimal_quorums();
                let r = a.top_tier().into_vec();
                let mbs = a.minimal_blocking_sets();
                json!({"r": r, "involved": enc_set(&mq.involved_nodes()), "again": a.top_tier().into_vec(),
                       "mbs": enc_set(&mbs.involved_nodes())})
            }),
            ev("involved", || {
                let a = Analysis::new(&f);
                json!({"mss": enc_set(&a.minimal_splitting_sets().involved_nodes()),
                       "hqi": a.has_quorum_intersection(),
                       "r": a.top_tier().into_vec()})
            }),
        ],
        "C08" => vec![
            ev("clusters", || enc_qsets(&find_symmetric_clusters(&f))),
            ev("analysis_clusters", || enc_qsets(&Analysis::new(&f).symmetric_clusters())),
            ev("top_tier", || enc_qsets(&find_symmetric_top_tier(&f).into_iter().collect::<Vec<_>>())),
            ev("analysis_top_tier", || enc_qsets(&Analysis::new(&f).symmetric_top_tier().into_iter().collect::<Vec<_>>())),
        ],
        "C09" => {
            let h: Vec<String> = c["h"].as_array().unwrap().iter().map(|q| q.as_str().unwrap().to_string()).collect();
            let mut e = vec![];
            let a = Analysis::new(&f);
            let mut held = vec![];
            for q in h.iter() {
                e.push(ev("query", || {
                    let (r, again, w) = query(&a, q);
                    if let Some(x) = again {
                        held.push((q.clone(), x));
                    }
                    if let Some(w) = w {
                        held.push(("witness".to_string(), Held::Vec(w)));
                    }
                    json!({"q": q, "r": r})
                }));
            }
            for (q, x) in held {
                if q == "witness" {
                    e.push(ev("witness", || json!({"w": x.enc()})));
                } else {
                    e.push(ev("held", || json!({"q": q, "r": x.enc()})));
                }
            }
            let last = h.last().unwrap();
            e.push(ev("fresh", || json!({"q": last, "r": query(&Analysis::new(&f), last).0})));
            e
        }
        "C10" => {
            let keep = ids(&c["keep"]);
            let keep2 = ids(&c["keep2"]);
            let mut e = vec![ev("relevant", || enc_set(&f.relevant_nodes()))];
            e.push(ev("shrink", || {
                let (g, m) = f.shrunken(set(&keep));
                json!({"g": enc_fbas(&g), "table": m.unshrink_table(),
                       "down": enc_set(&m.shrink_set(&set(&keep2))),
                       "up": enc_set(&m.unshrink_set(&m.shrink_set(&set(&keep2)))),
                       "downs": enc_sets(&m.shrink_sets(&[set(&keep2), set(&[]), set(&keep)])),
                       "ups": enc_sets(&m.unshrink_sets(&m.shrink_sets(&[set(&keep2), set(&[]), set(&keep)])))})
            }));
            e.push(ev("reshrink", || {
                // second manager keeps keep2 (ids of f); a set of ids of the first is carried over
                let (_, m1) = f.shrunken(set(&keep));
                let (g, m2) = f.shrunken(set(&keep2));
                let s = m1.shrink_set(&set(&keep2));
                let r = m2.reshrink_sets(&[s.clone(), set(&[])], &m1);
                json!({"g": enc_fbas(&g), "r": enc_sets(&r)})
            }));
            e.push(ev("groups", || {
                // a grouping of the original nodes, carried over
                let members: Vec<Vec<usize>> = c["groups"].as_array().unwrap().iter().map(ids).collect();
                let orgs: Vec<Value> = members
                    .iter()
                    .enumerate()
                    .map(|(k, g)| json!({"name": format!("g{}", k), "validators": g.iter().map(|x| format!("n{}", x)).collect::<Vec<_>>()}))
                    .collect();
                let orgs = Groupings::organizations_from_json_str(&Value::Array(orgs).to_string(), &f);
                let (g, m) = f.shrunken(set(&keep));
                let small = Groupings::shrunken(&orgs, &m, &g);
                let names: Vec<Value> = serde_json::to_value(&small).unwrap().as_array().unwrap().iter().map(|x| x["name"].clone()).collect();
                let of = |name: &str| -> Vec<usize> {
                    match small.get_by_name(name) {
                        Some(x) => (0..n + 1).filter(|&m| small.get_by_member(m).map(|y| std::ptr::eq(x, y)).unwrap_or(false)).collect(),
                        None => vec![n + 100],
                    }
                };
                json!({"count": small.number_of_groupings(), "names": names,
                       "members": (0..members.len()).map(|k| of(&format!("g{}", k))).collect::<Vec<_>>()})
            }));
            e.push(ev("twice", || {
                let (g, m1) = f.shrunken(set(&keep));
                let (g2, m2) = g.shrunken(m1.shrink_set(&set(&keep2)));
                json!({"g": enc_fbas(&g2), "table": m1.unshrink_sets(&m2.unshrink_sets(&[g2.all_nodes()])).iter().map(|s| enc_set(s)).collect::<Vec<_>>()})
            }));
            e
        }
        "C28" => {
            let perm = ids(&c["perm"]);
            let enc = |v: Vec<f64>| -> Vec<i64> { v.iter().map(|x| (x * 1e8).round() as i64).collect() };
            fn renamed(q: &QuorumSet, perm: &[usize]) -> QuorumSet {
                QuorumSet {
                    threshold: q.threshold,
                    validators: q.validators.iter().map(|&x| perm[x]).collect(),
                    inner_quorum_sets: q.inner_quorum_sets.iter().map(|i| renamed(i, perm)).collect(),
                }
            }
            let mut e: Vec<Value> = c["within"]
                .as_array()
                .unwrap()
                .iter()
                .map(|w| {
                    let w = ids(w);
                    ev("within", || {
                        json!({"w": w, "r": enc(preprocessing::rank_nodes(&w, &f)), "order": preprocessing::sort_by_rank(w.clone(), &f)})
                    })
                })
                .collect();
            e.extend(vec![
                ev("ranks", || json!({ "r": enc(f.rank_nodes()) })),
                ev("renamed", || {
                    let mut qs = vec![QuorumSet { threshold: 0, validators: vec![], inner_quorum_sets: vec![] }; n];
                    for x in 0..n {
                        qs[perm[x]] = renamed(&f.get_quorum_set(x).unwrap(), &perm);
                    }
                    let mut g = Fbas::new();
                    for q in qs {
                        g.add_generic_node(q);
                    }
                    json!({"base": enc(f.rank_nodes()), "r": enc(g.rank_nodes())})
                }),
            ]);
            e
        }
        "C11" => {
            let keys: Vec<String> = c["keys"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
            let perm = ids(&c["perm"]);
            let doc = |order: &[usize]| -> String {
                let v: Vec<Value> = order
                    .iter()
                    .map(|&x| json!({"publicKey": keys[x], "quorumSet": qset_json(&f.get_quorum_set(x).unwrap(), &keys)}))
                    .collect();
                Value::Array(v).to_string()
            };
            let identity: Vec<usize> = (0..n).collect();
            // names of the standard form's nodes, as ids of f
            let names = |g: &Fbas| -> Vec<i64> {
                let v: Value = serde_json::from_str(&g.to_json_string()).unwrap();
                v.as_array()
                    .unwrap()
                    .iter()
                    .map(|x| keys.iter().position(|k| *k == x["publicKey"].as_str().unwrap()).map(|p| p as i64).unwrap_or(-1))
                    .collect()
            };
            // ids of f in the byte order of their keys
            let mut byname = identity.clone();
            byname.sort_by_key(|&x| keys[x].clone());
            vec![
                ev("standard_form", || {
                    let g = Fbas::from_json_str(&doc(&identity)).to_standard_form();
                    json!({"g": enc_fbas(&g), "names": names(&g), "order": byname,
                        "mq": if c["listed"] == false { json!([]) } else { enc_sets(&find_minimal_quorums(&g)) }})
                }),
                ev("permuted", || {
                    let a = Fbas::from_json_str(&doc(&identity)).to_standard_form();
                    let b = Fbas::from_json_str(&doc(&perm)).to_standard_form();
                    json!({"same_text": a.to_json_string() == b.to_json_string(), "equal": a == b,
                           "g": enc_fbas(&b), "names": names(&b)})
                }),
                ev("extended", || {
                    // irrelevant nodes, at both ends: unknown keys, no quorum set, unsatisfiable ones
                    let mut v: Vec<Value> = serde_json::from_str(&doc(&identity)).unwrap();
                    let all: Vec<String> = keys.clone();
                    v.insert(0, json!({"publicKey": "0-first"}));
                    v.push(json!({"publicKey": "zz-last", "quorumSet": {"threshold": n + 1, "validators": all}}));
                    v.insert(n / 2, json!({"publicKey": "m-mid", "quorumSet": {"threshold": 2, "validators": ["m-mid", "0-first"]}}));
                    let a = Fbas::from_json_str(&doc(&identity)).to_standard_form();
                    let b = Fbas::from_json_str(&Value::Array(v).to_string()).to_standard_form();
                    json!({"same_text": a.to_json_string() == b.to_json_string(), "equal": a == b})
                }),
            ]
        }
        _ => panic!("unknown property {}", prop),
    }
}
