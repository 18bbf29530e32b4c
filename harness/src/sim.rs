//! C17..C20: simulation, quorum set policies, graphs.
use crate::core::case_value;
use crate::enc::*;
use crate::gen::*;
use crate::io::scratch;
use fbas_analyzer::simulation::monitors::*;
use fbas_analyzer::simulation::qsc::*;
use fbas_analyzer::simulation::*;
use fbas_analyzer::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
pub fn histories() -> Vec<Value> {
    let p = std::env::var("HISTORIES").unwrap();
    std::fs::read_to_string(p).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
}

// --- C17 ---

struct Log {
    ev: Vec<Value>,
    seen: Vec<QuorumSet>, // quorum sets by the number the trace knows them under
    decisions: Vec<usize>,
    next: usize,
}
impl Log {
    fn number(&mut self, q: &QuorumSet) -> usize {
        match self.seen.iter().position(|x| x == q) {
            Some(k) => k,
            None => {
                self.seen.push(q.clone());
                self.seen.len() - 1
            }
        }
    }
    fn numbers(&mut self, fbas: &Fbas) -> Vec<usize> {
        (0..fbas.number_of_nodes()).map(|x| self.number(&fbas.get_quorum_set(x).unwrap())).collect()
    }
}
struct LoggingQsc {
    log: Rc<RefCell<Log>>,
    inner: Option<Box<dyn QuorumSetConfigurator>>,
}
impl QuorumSetConfigurator for LoggingQsc {
    fn configure(&self, x: NodeId, fbas: &mut Fbas) -> ChangeEffect {
        let before = self.log.borrow_mut().numbers(fbas);
        let effect = match &self.inner {
            Some(q) => q.configure(x, fbas),
            None => {
                let d = {
                    let mut l = self.log.borrow_mut();
                    l.next += 1;
                    *l.decisions.get(l.next - 1).unwrap_or(&0)
                };
                if d == 1 || d == 3 {
                    let t = 1000 + self.log.borrow().next;
                    fbas.swap_quorum_set(x, qs(t, vec![x], vec![]));
                }
                if d == 1 || d == 2 { ChangeEffect::Change } else { ChangeEffect::NoChange }
            }
        };
        let after = self.log.borrow_mut().numbers(fbas);
        self.log.borrow_mut().ev.push(json!({"op": "configure", "x": x, "before": before, "after": after,
                                             "change": effect == ChangeEffect::Change}));
        effect
    }
}
struct LoggingMonitor {
    log: Rc<RefCell<Log>>,
    events: RefCell<Vec<Event>>,
    debug: DebugMonitor,
}
impl SimulationMonitor for LoggingMonitor {
    fn register_event(&self, event: Event) {
        self.events.borrow_mut().push(event);
        self.debug.register_event(event);
        DummyMonitor.register_event(event);
        let v = match event {
            Event::AddNode(x) => json!({"op": "AddNode", "x": x}),
            Event::StartGlobalReevaluation => json!({"op": "StartGlobalReevaluation"}),
            Event::StartGlobalReevaluationRound => json!({"op": "StartGlobalReevaluationRound"}),
            Event::FinishGlobalReevaluation(r) => json!({"op": "FinishGlobalReevaluation", "r": r}),
            Event::QuorumSetChange(x, c) => json!({"op": "QuorumSetChange", "x": x, "change": c == ChangeEffect::Change}),
        };
        self.log.borrow_mut().ev.push(v);
    }
}
fn inputs17(seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 17);
    let hs = histories();
    let mut v: Vec<Value> = vec![];
    for h in hs {
        let mut h = h;
        h["fam"] = json!("tlc");
        h["n0"] = json!(r.below(4));
        h["policy"] = json!("script");
        v.push(h);
    }
    for k in 0..if thorough { 6000 } else { 600 } {
        let policy = ["script", "lying", "forever", "ideal", "super_safe", "random", "dummy"][k % 7];
        let n0 = r.below(7);
        let calls: Vec<Value> = (0..r.range(1, 4))
            .map(|_| if r.chance(50) { json!(["grow", r.below(5)]) } else { json!(["reeval", r.below(8)]) })
            .collect();
        let decisions: Vec<usize> = match policy {
            "script" => (0..r.below(60)).map(|_| r.chance(30) as usize).collect(),
            "lying" => (0..r.below(60)).map(|_| r.below(4)).collect(),
            "forever" => vec![1; 3000],
            _ => vec![],
        };
        v.push(json!({"fam": policy, "policy": policy, "n0": n0, "calls": calls, "decisions": decisions, "size": r.range(1, 5)}));
    }
    // bigger systems and longer runs
    for k in 0..if thorough { 200 } else { 28 } {
        let policy = ["ideal", "super_safe", "script", "lying"][k % 4];
        let n0 = r.below(40);
        let calls: Vec<Value> = (0..r.range(1, 3))
            .map(|_| if r.chance(60) { json!(["grow", r.below(30)]) } else { json!(["reeval", r.below(12)]) })
            .collect();
        let decisions: Vec<usize> = match policy {
            "script" => (0..r.below(900)).map(|_| r.chance(10) as usize).collect(),
            "lying" => (0..r.below(900)).map(|_| if r.chance(80) { 0 } else { r.below(4) }).collect(),
            _ => vec![],
        };
        v.push(json!({"fam": format!("big_{}", policy), "policy": policy, "n0": n0, "calls": calls, "decisions": decisions, "size": 1}));
    }
    v
}
fn events17(c: &Value) -> Vec<Value> {
    let n0 = us(&c["n0"]);
    let fbas = dec_fbas(&json!({"q": (1..=n0).map(|k| json!({"t": k, "v": (0..n0).collect::<Vec<_>>(), "i": []})).collect::<Vec<_>>()}));
    let mut seen = vec![QuorumSet::new()];
    seen.extend((0..n0).map(|x| fbas.get_quorum_set(x).unwrap()));
    let log = Rc::new(RefCell::new(Log { ev: vec![], seen, decisions: ids(&c["decisions"]), next: 0 }));
    let inner: Option<Box<dyn QuorumSetConfigurator>> = match c["policy"].as_str().unwrap() {
        "ideal" => Some(Box::new(IdealQsc::new())),
        "super_safe" => Some(Box::new(SuperSafeQsc::new())),
        "random" => Some(Box::new(RandomQsc::new_simple(us(&c["size"])))),
        "dummy" => Some(Box::new(DummyQsc)),
        _ => None,
    };
    let qsc = Rc::new(LoggingQsc { log: log.clone(), inner });
    let monitor = Rc::new(LoggingMonitor { log: log.clone(), events: RefCell::new(vec![]), debug: DebugMonitor::new() });
    let mut sim = Simulator::new(fbas, qsc, monitor.clone());
    for call in c["calls"].as_array().unwrap() {
        let k = us(&call[1]);
        let e = if call[0] == "grow" {
            log.borrow_mut().ev.push(json!({"op": "grow", "k": k}));
            ev("return", || {
                sim.simulate_growth(k);
                json!(-1)
            })
        } else {
            log.borrow_mut().ev.push(json!({"op": "reeval", "max": k}));
            ev("return", || json!(sim.simulate_global_reevaluation(k)))
        };
        log.borrow_mut().ev.push(e);
    }
    let end = ev("final", || {
        let f = sim.finalize();
        let q = log.borrow_mut().numbers(&f);
        let names = (0..f.number_of_nodes()).all(|x| f.get_node_id(&format!("n{}", x)) == Some(x));
        json!({"q": q, "names": names})
    });
    let debug = ev("debug", || {
        let e = monitor.events.borrow().clone();
        let d = monitor.debug.events_ref().clone();
        json!({"same": e == d && d == monitor.debug.events_clone()})
    });
    let mut out = std::mem::take(&mut log.borrow_mut().ev);
    out.push(end);
    out.push(debug);
    out
}

// --- graphs ---

/// The links of a graph, read off its debug representation and confirmed by building it anew.
pub fn links(g: &Graph) -> Vec<Vec<usize>> {
    let s = format!("{:?}", g);
    let a = s.find("[").unwrap();
    let b = s.rfind("]").unwrap();
    let v: Value = serde_json::from_str(&s[a..=b]).unwrap();
    let l: Vec<Vec<usize>> = v.as_array().unwrap().iter().map(ids).collect();
    assert!(Graph::new(l.clone()) == *g);
    l
}
fn enc_graph(g: &Graph) -> Value {
    json!(links(g))
}
fn dec_graph(v: &Value) -> Graph {
    Graph::new(v.as_array().unwrap().iter().map(ids).collect())
}
pub fn rand_graph(r: &mut Rng, n: usize, undirected: bool) -> Vec<Vec<usize>> {
    let density = *r.pick(&[10, 25, 45, 70, 100]);
    let mut g = vec![vec![]; n];
    for a in 0..n {
        for b in 0..n {
            if undirected && a < b && r.chance(density) {
                g[a].push(b);
                g[b].push(a);
            }
            if !undirected && a != b && r.chance(density) {
                g[a].push(b);
            }
        }
    }
    if r.chance(40) {
        for l in g.iter_mut() {
            r.shuffle(l);
        }
    }
    g
}

// --- C18 ---

const RELS: [(i64, i64); 10] = [(0, 1), (1, 8), (1, 4), (3, 8), (1, 2), (5, 8), (3, 4), (1, 1), (67, 100), (51, 100)];
fn rel(v: &Value) -> Option<f64> {
    let a = v.as_array().unwrap();
    if a.is_empty() { None } else { Some(a[0].as_f64().unwrap() / a[1].as_f64().unwrap()) }
}
pub fn scores(g: &Graph) -> Value {
    json!(g.get_rank_scores().iter().map(|x| (x * 1e8).round() as i64).collect::<Vec<_>>())
}
fn inputs18(seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 18);
    let mut v = vec![json!({"fam": "thresholds", "pol": {"kind": "none", "g": []}, "q": [], "ops": []})];
    let kinds = ["super_safe", "ideal", "random", "neighbors", "higher_tier", "global_rank", "dummy",
                 "random", "neighbors", "higher_tier", "higher_tier", "global_rank"];
    for k in 0..if thorough { 24000 } else { 2400 } {
        let kind = kinds[k % kinds.len()];
        let graphy = ["neighbors", "higher_tier", "global_rank"].contains(&kind);
        let mut n = r.range(1, 7);
        let big = k % 75 > 72;
        if big {
            n = r.range(12, if graphy { 30 } else { 60 });
        }
        let g = if !graphy {
            vec![]
        } else {
            match r.below(7) {
                6 => {
                    // everybody links to one node: scores are certain
                    n = if big { *r.pick(&[16, 32]) } else { *r.pick(&[2, 4, 8, 8]) };
                    let few = r.range(2, n);
                    (0..n)
                        .map(|x| {
                            let y = r.below(few);
                            if y == x || r.chance(10) { vec![] } else { vec![y] }
                        })
                        .collect()
                }
                0 | 1 => rand_graph(&mut r, n, true),
                2 => {
                    // tiers
                    let a = r.range(1, n);
                    let mut g = vec![vec![]; n];
                    for x in 0..n {
                        for y in 0..n {
                            if x != y && y < a.max(x / 2) {
                                g[x].push(y);
                            }
                        }
                    }
                    g
                }
                3 => {
                    // star or chain
                    let star = r.chance(50);
                    let mut g: Vec<Vec<usize>> = vec![vec![]; n];
                    for x in 1..n {
                        let y = if star { 0 } else { x - 1 };
                        g[x].push(y);
                        g[y].push(x);
                    }
                    g
                }
                _ => rand_graph(&mut r, n, false),
            }
        };
        let n0 = if r.chance(50) { n } else { r.range(1, n) };
        let start = r.below(4);
        let pool: Vec<usize> = (0..n0).collect();
        let q: Vec<QuorumSet> = (0..n0)
            .map(|x| {
                let mut p = pool.clone();
                r.shuffle(&mut p);
                let deep = kind != "random" && start == 2;
                if start < 2 || (start == 2 && r.chance(50)) {
                    QuorumSet::new()
                } else if deep {
                    let nodups = cover_qset(&mut r, &pool, 1, false, false);
                    if r.chance(50) { nodups } else { qs(1, vec![x], vec![]) }
                } else {
                    let m = r.range(1, n0);
                    let t = r.range(0, m);
                    let inner = if r.chance(15) { vec![qs(1, vec![p[0]], vec![])] } else { vec![] };
                    qs(t, p[..m].to_vec(), inner)
                }
            })
            .collect();
        let mut size = r.range(1, n + 2);
        let weights = if r.chance(50) {
            vec![]
        } else {
            let mut w: Vec<usize> = (0..n0).map(|_| r.below(4)).collect();
            let nz = w.iter().filter(|&&x| x > 0).count();
            if nz == 0 {
                w = vec![];
            } else {
                size = r.range(1, nz);
            }
            if r.chance(30) && !w.is_empty() {
                w.extend(vec![1; n]);
            }
            w
        };
        let p = *r.pick(&RELS);
        let relative = if r.chance(40) { json!([]) } else { json!([p.0, p.1]) };
        let mut nodes = n0;
        let mut ops = vec![];
        let sweep = r.chance(40);
        if sweep {
            let mut o = pool.clone();
            for _ in 0..2 {
                r.shuffle(&mut o);
                ops.extend(o.iter().map(|&x| json!(["c", x])));
            }
        } else {
            for _ in 0..r.range(3, 12) {
                if r.chance(25) && (!graphy || nodes < n) && (nodes < 9 || big) {
                    ops.push(json!(["a", nodes]));
                    nodes += 1;
                } else {
                    ops.push(json!(["c", r.below(nodes)]));
                }
            }
        }
        let threshold = if r.chance(60) { 0 } else { r.range(1, n.max(9)) };
        v.push(json!({"fam": if big { format!("big_{}", kind) } else { kind.to_string() }, "pol": {"kind": kind, "size": size, "threshold": threshold, "weights": weights,
                      "g": g, "rel": relative, "sym": r.chance(50)},
                      "q": enc_qsets(&q), "ops": ops, "built": r.below(3)}));
    }
    v
}
fn events18(c: &Value) -> Vec<Value> {
    let p = &c["pol"];
    let kind = p["kind"].as_str().unwrap();
    if kind == "none" {
        let t67 = ev("thresholds", || {
            let t: Vec<usize> = (1..=3000).map(calculate_67p_threshold).collect();
            let r: Vec<Value> = RELS
                .iter()
                .map(|&(a, b)| {
                    let x = a as f64 / b as f64;
                    // 67/100 and 51/100 are not representable: stay clear of multiples of 100
                    let t: Vec<usize> = (1..=99).map(|k| calculate_x_threshold(k, x)).collect();
                    json!({"x": [a, b], "t": t})
                })
                .collect();
            json!({"t67": t, "rel": r})
        });
        return vec![t67];
    }
    let mut out = vec![];
    let g = dec_graph(&p["g"]);
    if kind == "higher_tier" || kind == "global_rank" {
        out.push(ev("ranks", || scores(&g)));
    }
    let x = rel(&p["rel"]);
    let sym = p["sym"].as_bool().unwrap();
    let built = us(&c["built"]);
    let threshold = Some(us(&p["threshold"])).filter(|&t| t > 0);
    let weights = Some(ids(&p["weights"])).filter(|w| !w.is_empty());
    // built through the different constructors
    let qsc: Box<dyn QuorumSetConfigurator> = match (kind, x) {
        ("super_safe", _) => Box::new(SuperSafeQsc::new()),
        ("ideal", _) => Box::new(IdealQsc::new()),
        ("dummy", _) => Box::new(DummyQsc),
        ("random", _) if threshold.is_none() && weights.is_none() && built == 0 => Box::new(RandomQsc::new_simple(us(&p["size"]))),
        ("random", _) => Box::new(RandomQsc::new(us(&p["size"]), threshold, weights)),
        ("neighbors", None) if built > 0 => Box::new(AllNeighborsQsc::new_67p(g)),
        ("neighbors", Some(x)) if built > 0 => Box::new(AllNeighborsQsc::new_relative(g, x)),
        ("neighbors", x) => Box::new(AllNeighborsQsc::new(g, x)),
        ("higher_tier", None) if built > 0 => Box::new(HigherTierNeighborsQsc::new_67p(g, sym)),
        ("higher_tier", Some(x)) if built > 0 => Box::new(HigherTierNeighborsQsc::new_relative(g, x, sym)),
        ("higher_tier", x) => Box::new(HigherTierNeighborsQsc::new(g, x, sym)),
        ("global_rank", None) if built > 0 => Box::new(GlobalRankQsc::new_67p(g)),
        ("global_rank", Some(x)) if built > 0 => Box::new(GlobalRankQsc::new_relative(g, x)),
        ("global_rank", x) => Box::new(GlobalRankQsc::new(g, x)),
        _ => panic!("policy"),
    };
    let mut f = dec_fbas(c);
    for o in c["ops"].as_array().unwrap() {
        let y = us(&o[1]);
        if o[0] == "a" {
            f.add_generic_node(QuorumSet::new());
            out.push(json!({"op": "add"}));
        } else {
            out.push(ev("configure", || {
                let e = qsc.configure(y, &mut f);
                json!({"x": y, "change": e == ChangeEffect::Change, "after": enc_fbas(&f)["q"]})
            }));
        }
    }
    out
}

// --- C19 ---

fn inputs19(seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 19);
    let mut v = vec![];
    for n in 0..=12 {
        v.push(json!({"model": "mesh", "p": [n]}));
    }
    for n in [16, 31, 32, 33, 40, 63, 64, 65, 100] {
        v.push(json!({"model": "mesh", "p": [n]}));
    }
    for _ in 0..if thorough { 60 } else { 12 } {
        let t: Vec<usize> = (0..r.range(1, 7)).map(|_| r.range(1, 18)).collect();
        v.push(json!({"model": "tiers", "p": t}));
        let n = r.range(40, 130);
        let m0 = r.range(2, n.min(30));
        let m = r.range(1, m0);
        v.push(json!({"model": "scale_free", "p": [n, m0, m]}));
        let k = 2 * r.below(12);
        v.push(json!({"model": "small_world", "p": [n, k], "beta": r.below(5)}));
        let n = r.range(10, 60);
        let und = r.chance(50);
        let g = rand_graph(&mut r, n, und);
        v.push(json!({"model": "any", "g": g}));
    }
    // all tier structures with up to 9 nodes
    fn tiers(left: usize, cur: &mut Vec<usize>, v: &mut Vec<Value>) {
        v.push(json!({"model": "tiers", "p": cur}));
        for k in 1..=left {
            cur.push(k);
            tiers(left - k, cur, v);
            cur.pop();
        }
    }
    tiers(if thorough { 11 } else { 8 }, &mut vec![], &mut v);
    let top = if thorough { 12 } else { 9 };
    let reps = if thorough { 6 } else { 2 };
    for n in 2..=top {
        for m0 in 2..=n {
            for m in 1..=m0 {
                for _ in 0..reps {
                    v.push(json!({"model": "scale_free", "p": [n, m0, m]}));
                }
            }
        }
        for k in (0..n).step_by(2) {
            for beta in 0..=4 {
                for _ in 0..reps {
                    v.push(json!({"model": "small_world", "p": [n, k], "beta": beta}));
                }
            }
        }
    }
    for _ in 0..if thorough { 400 } else { 40 } {
        let n = r.range(10, 40);
        let m0 = r.range(2, n.min(9));
        let m = r.range(1, m0);
        v.push(json!({"model": "scale_free", "p": [n, m0, m]}));
        let k = 2 * r.below((n + 1) / 2);
        v.push(json!({"model": "small_world", "p": [n, k], "beta": r.below(5)}));
    }
    for _ in 0..if thorough { 6000 } else { 600 } {
        let n = r.below(9);
        let und = r.chance(50);
        let g = rand_graph(&mut r, n, und);
        v.push(json!({"model": "any", "g": g}));
    }
    for x in v.iter_mut() {
        x["fam"] = x["model"].clone();
        if x["beta"].is_null() {
            x["beta"] = json!(0);
        }
        if x["p"].is_null() {
            x["p"] = json!([]);
        }
    }
    v
}
fn events19(c: &Value) -> Vec<Value> {
    let p = ids(&c["p"]);
    let mut out = vec![];
    let mut g = Graph::new(vec![]);
    out.push(ev("made", || {
        g = match c["model"].as_str().unwrap() {
            "mesh" => Graph::new_full_mesh(p[0]),
            "tiers" => Graph::new_tiered_full_mesh(&p),
            "scale_free" => Graph::new_random_scale_free(p[0], p[1], p[2]),
            "small_world" => Graph::new_random_small_world(p[0], p[1], us(&c["beta"]) as f64 / 4.),
            _ => dec_graph(&c["g"]),
        };
        json!({"g": enc_graph(&g)})
    }));
    out.push(ev("measured", || {
        json!({"n": g.number_of_nodes(), "outd": g.get_out_degrees(), "ind": g.get_in_degrees(),
               "connected": enc_set(&g.get_connected_nodes()), "undirected": g.is_undirected()})
    }));
    for _ in 0..2 {
        out.push(ev("shuffled", || json!({"g": enc_graph(&g.clone().shuffled())})));
    }
    out
}

// --- C20 ---

fn rand_lines(r: &mut Rng) -> Value {
    let top = *r.pick(&[2, 5, 9, 30, 30, 120]);
    let k = if r.chance(5) { r.range(20, 150) } else { r.below(14) };
    let lines: Vec<Value> = (0..k)
        .map(|_| {
            let (a, b) = (r.below(top), r.below(top));
            if a == b || r.chance(20) {
                json!({"k": "other", "a": a, "b": b, "peer": false})
            } else {
                json!({"k": "link", "a": a, "b": b, "peer": r.chance(50)})
            }
        })
        .collect();
    json!(lines)
}
fn inputs20(seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 20);
    let mut v = vec![];
    // all undirected graphs up to 4 nodes, all directed ones up to 3
    for n in 0..=4usize {
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
        for m in 0..1usize << pairs.len() {
            let mut g = vec![vec![]; n];
            for k in mask(m, pairs.len()) {
                let (a, b) = pairs[k];
                g[a].push(b);
                g[b].push(a);
            }
            v.push(json!({"fam": "all", "g": g}));
        }
    }
    for n in 0..=3usize {
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).filter(move |&b| a != b).map(move |b| (a, b))).collect();
        for m in 0..1usize << pairs.len() {
            let mut g = vec![vec![]; n];
            for k in mask(m, pairs.len()) {
                g[pairs[k].0].push(pairs[k].1);
            }
            v.push(json!({"fam": "all", "g": g}));
        }
    }
    for _ in 0..if thorough { 9000 } else { 900 } {
        let n = r.below(12);
        let und = r.chance(50);
        let g = rand_graph(&mut r, n, und);
        v.push(json!({"fam": "random", "g": g}));
    }
    for _ in 0..if thorough { 60 } else { 12 } {
        let n = r.range(12, 120);
        let und = r.chance(50);
        let mut g = rand_graph(&mut r, n, und);
        if !und {
            // sparse
            for l in g.iter_mut() {
                let k = r.below(4);
                l.truncate(k);
            }
        }
        v.push(json!({"fam": "big", "g": g}));
    }
    for k in 0..if thorough { 8 } else { 2 } {
        // written text beyond 64 KB
        let n = r.range(125, 150);
        let g: Vec<Vec<usize>> = (0..n).map(|a| (0..n).filter(|&b| b != a && (k % 2 == 0 || b > a)).collect()).collect();
        v.push(json!({"fam": "dense", "g": g}));
    }
    let last = v.len();
    for (k, x) in v.iter_mut().enumerate() {
        let mut l = rand_lines(&mut r);
        if k + 14 >= last || k % 100 == 3 {
            // long documents: comments in between, in many lines or in one
            let l = l.as_array_mut().unwrap();
            for _ in 0..r.range(1, 2) {
                let at = r.below(l.len() + 1);
                let size = *r.pick(&[5000usize, 9000, 40_000, 70_000, 140_000, 300_000, 1_000_000, 2_000_000]);
                l.insert(at, json!({"k": "fill", "a": size, "b": r.below(3), "peer": false}));
            }
        }
        x["lines"] = l;
        x["comment"] = json!(*r.pick(&["", "hello", "a|b|0", "1|2|0", "# x", "ü"]));
        x["ending"] = json!(r.below(4));
    }
    v
}
/// The finding listed in known_findings.txt.
fn inputs_k20() -> Vec<Value> {
    vec![json!({"fam": "known", "g": [[1], [2], [1]], "lines": [], "comment": "", "ending": 0, "only": "faithful"})]
}
/// Comments of about `size` bytes that do not compress well, in lines of `width`.
pub fn filler(size: usize, width: usize) -> String {
    let mut r = Rng::new(size as u64);
    let mut s = String::with_capacity(size + 8);
    s.push('#');
    let mut column = 1;
    while s.len() < size {
        if column >= width {
            s.push_str("\n#");
            column = 1;
        }
        s.push(if r.chance(2) { *r.pick(&['é', '日', '𝕏']) } else { std::char::from_u32(33 + r.below(90) as u32).unwrap() });
        column += 1;
    }
    s
}
fn render_lines(v: &Value, ending: usize) -> String {
    let mut s = String::new();
    for (k, l) in v.as_array().unwrap().iter().enumerate() {
        if k > 0 {
            s.push_str(if ending == 1 { "\r\n" } else { "\n" });
        }
        if l["k"] == "fill" {
            s.push_str(&filler(us(&l["a"]), if l["b"] == 0 { usize::MAX } else { 40 }));
        } else if l["k"] == "other" {
            s.push_str(*["", "# comment", "#1|2|0", "#", "# 4|5|-1|bgp"].get((us(&l["a"]) + 2 * us(&l["b"])) % 5).unwrap());
        } else {
            let third = *["", "|bgp", "|mlp", "|0|x"].get((k + ending) % 4).unwrap();
            let third = if ending == 1 && third.is_empty() { "|bgp" } else { third };
            s.push_str(&format!("{}|{}|{}{}", l["a"], l["b"], if l["peer"] == true { 0 } else { -1 }, third));
        }
    }
    if ending == 2 {
        s.push('\n');
    }
    s
}
fn events20(c: &Value) -> Vec<Value> {
    let g = dec_graph(&c["g"]);
    let undirected = g == Graph::new(links(&g)) && {
        let l = links(&g);
        (0..l.len()).all(|a| l[a].iter().all(|&b| l[b].contains(&a)))
    };
    let comment = c["comment"].as_str().unwrap();
    let opt = if comment.is_empty() { None } else { Some(comment) };
    let dir = scratch();
    let mut out = vec![];
    if c["only"] != "faithful" {
        let text = render_lines(&c["lines"], us(&c["ending"]));
        out.push(ev("read", || json!({"g": enc_graph(&Graph::from_as_rel_string(&text))})));
        out.push(ev("read", || {
            let p = format!("{}/plain.txt", dir);
            std::fs::write(&p, &text).unwrap();
            json!({"g": enc_graph(&Graph::from_as_rel_file(std::path::Path::new(&p)))})
        }));
        out.push(ev("read", || {
            let p = format!("{}/packed.bz2", dir);
            let f = std::fs::File::create(&p).unwrap();
            let mut e = bzip2::write::BzEncoder::new(f, bzip2::Compression::Default);
            e.write_all(text.as_bytes()).unwrap();
            e.finish().unwrap();
            json!({"g": enc_graph(&Graph::from_as_rel_file(std::path::Path::new(&p)))})
        }));
    }
    out.push(ev("back", || json!({"g": enc_graph(&Graph::from_as_rel_string(&Graph::to_as_rel_string(&g, opt).unwrap()))})));
    out.push(ev("back", || {
        let p = format!("{}/written.bz2", dir);
        Graph::to_as_rel_file(&g, std::path::Path::new(&p), opt).unwrap();
        json!({"g": enc_graph(&Graph::from_as_rel_file(std::path::Path::new(&p)))})
    }));
    out.push(ev("written", || {
        let s = Graph::to_as_rel_string(&g, opt).unwrap();
        let mut head = String::new();
        let mut l = vec![];
        for x in s.lines() {
            if x.starts_with("# ") {
                assert!(l.is_empty() && head.is_empty());
                head = x[2..].to_string();
            } else {
                let p: Vec<&str> = x.split('|').collect();
                assert!(p.len() == 3 && (p[2] == "0" || p[2] == "-1"));
                l.push(json!({"k": "link", "a": p[0].parse::<usize>().unwrap(), "b": p[1].parse::<usize>().unwrap(), "peer": p[2] == "0"}));
            }
        }
        json!({"lines": l, "comment": head})
    }));
    if undirected || c["only"] == "faithful" {
        out.push(ev("faithful", || json!({"g": enc_graph(&Graph::from_as_rel_string(&Graph::to_as_rel_string(&g, None).unwrap()))})));
    }
    out
}

// --- C30: random choices ---

fn inputs30(seed: u64, thorough: bool) -> Vec<Value> {
    let mut r = Rng::new(seed ^ 30);
    let mut v = vec![];
    let runs = if thorough { 20000 } else { 10000 };
    for _ in 0..if thorough { 400 } else { 60 } {
        let n = r.range(2, 6);
        let mut has = vec![];
        if r.chance(40) {
            has = (0..n).collect();
            r.shuffle(&mut has);
            has.truncate(r.range(1, n - 1));
            has.sort_unstable();
        }
        let x = r.below(n);
        if has.is_empty() {
            has = vec![x];
        }
        let w: Vec<usize> = match r.below(4) {
            0 => vec![],
            1 => (0..r.below(n + 1)).map(|_| r.range(1, 5)).collect(),
            2 => (0..n).map(|_| r.range(0, 9)).collect(),
            _ => (0..r.below(n + 3)).map(|_| r.range(0, 3)).collect(),
        };
        let live = (0..n).filter(|y| !has.contains(y) && w.get(*y).map(|w| *w > 0).unwrap_or(true)).count();
        if live == 0 {
            continue;
        }
        v.push(json!({"kind": "draw", "p": [n, r.range(1, live.min(3))], "x": x, "has": has, "w": w, "runs": runs}));
    }
    for n in 3..=if thorough { 6 } else { 5 } {
        for m0 in 2..=3 {
            for m in 1..=m0.min(if n > 5 { 1 } else { 3 }) {
                v.push(json!({"kind": "attach", "p": [n, m0, m], "runs": runs}));
            }
        }
    }
    for (n, t) in [(1, 1), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1)] {
        v.push(json!({"kind": "order", "p": [n, t], "grow": false, "runs": runs}));
    }
    for n in 2..=4 {
        v.push(json!({"kind": "order", "p": [n, 1], "grow": true, "runs": runs}));
    }
    for _ in 0..if thorough { 60 } else { 12 } {
        let n = r.range(1, 4);
        let und = r.chance(30);
        let g = rand_graph(&mut r, n, und);
        v.push(json!({"kind": "shuffle", "p": [n], "g": g, "runs": runs}));
    }
    for (k, step) in [(2, 3), (4, 1), (6, 3)] {
        for beta in 0..=4 {
            // as many distances in the near as in the far half
            let n = 80 + 4 * r.below(8) + step;
            v.push(json!({"kind": "rewire", "p": [n, k], "beta": beta, "runs": if thorough { 200 } else { 40 }}));
        }
    }
    for x in v.iter_mut() {
        x["fam"] = x["kind"].clone();
        for (k, d) in [("has", json!([])), ("w", json!([])), ("g", json!([])), ("beta", json!(0))] {
            if x[k].is_null() {
                x[k] = d;
            }
        }
    }
    v
}
struct OrderQsc {
    seen: RefCell<Vec<usize>>,
}
impl QuorumSetConfigurator for OrderQsc {
    fn configure(&self, x: NodeId, _: &mut Fbas) -> ChangeEffect {
        self.seen.borrow_mut().push(x);
        ChangeEffect::Change
    }
}
fn events30(c: &Value) -> Vec<Value> {
    let p = ids(&c["p"]);
    let runs = us(&c["runs"]);
    if c["kind"] == "rewire" {
        let (n, k) = (p[0], p[1]);
        return vec![ev("rewired", || {
            let (mut kept, mut near, mut far, mut both) = (0, 0, 0, 0);
            let mut degrees = vec![0; n];
            let middle = (k / 2 + (n - 1) / 2) / 2;
            for _ in 0..runs {
                let g = enc_graph(&Graph::new_random_small_world(n, k, us(&c["beta"]) as f64 / 4.));
                for (x, out) in g.as_array().unwrap().iter().enumerate() {
                    let out = ids(out);
                    degrees[x] += out.len();
                    // the first two links of the node are gone
                    both += !out.contains(&((x + 1) % n)) as usize & !out.contains(&((x + 2) % n)) as usize;
                    for y in out.into_iter().filter(|&y| x < y) {
                        let d = (y - x).min(n + x - y);
                        *(if d <= k / 2 { &mut kept } else if d <= middle { &mut near } else { &mut far }) += 1;
                    }
                }
            }
            json!({"graphs": runs, "kept": kept, "near": near, "far": far, "both": both, "degrees": degrees})
        })];
    }
    vec![ev("counted", || {
        let mut counts: std::collections::BTreeMap<String, (Value, usize)> = std::collections::BTreeMap::new();
        for _ in 0..runs {
            let o = match c["kind"].as_str().unwrap() {
                "draw" => {
                    let x = us(&c["x"]);
                    let has = ids(&c["has"]);
                    let mut f = Fbas::new_generic_unconfigured(p[0]);
                    if has != vec![x] {
                        f.swap_quorum_set(x, qs(1, has.clone(), vec![]));
                    }
                    let w = ids(&c["w"]);
                    let q = RandomQsc::new(has.len() + p[1], None, if w.is_empty() { None } else { Some(w) });
                    q.configure(x, &mut f);
                    let mut o: Vec<usize> =
                        f.get_quorum_set(x).unwrap().validators.into_iter().filter(|y| !has.contains(y)).collect();
                    o.sort_unstable();
                    json!(o)
                }
                "attach" => {
                    let g = enc_graph(&Graph::new_random_scale_free(p[0], p[1], p[2]));
                    let mut links: Vec<[usize; 2]> = vec![];
                    for (x, out) in g.as_array().unwrap().iter().enumerate() {
                        links.extend(ids(out).into_iter().filter(|&y| x < y).map(|y| [x, y]));
                    }
                    links.sort_unstable();
                    json!(links)
                }
                "order" => {
                    let grow = c["grow"] == true;
                    let qsc = Rc::new(OrderQsc { seen: RefCell::new(vec![]) });
                    let mut sim = Simulator::new(
                        Fbas::new_generic_unconfigured(if grow { p[0] - 1 } else { p[0] }),
                        Rc::clone(&qsc) as Rc<dyn QuorumSetConfigurator>,
                        Rc::new(DummyMonitor),
                    );
                    if grow {
                        sim.simulate_growth(1);
                    } else {
                        sim.simulate_global_reevaluation(p[1]);
                    }
                    let seen = qsc.seen.borrow();
                    // the first one of a growing FBAS is the new node's
                    let seen = &seen[grow as usize..];
                    json!(seen.chunks(p[0]).take(p[1]).collect::<Vec<_>>())
                }
                _ => {
                    let g = enc_graph(&dec_graph(&c["g"]).shuffled());
                    let o: Vec<Vec<usize>> = g
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|x| {
                            let mut x = ids(x);
                            x.sort_unstable();
                            x
                        })
                        .collect();
                    json!(o)
                }
            };
            counts.entry(o.to_string()).or_insert((o, 0)).1 += 1;
        }
        json!({"runs": runs, "counts": counts.into_values().map(|(o, k)| json!({"o": o, "k": k})).collect::<Vec<_>>()})
    })]
}

pub fn inputs(prop: &str, seed: u64, thorough: bool) -> Vec<Value> {
    match prop {
        "C17" => inputs17(seed, thorough),
        "C18" => inputs18(seed, thorough),
        "C19" => inputs19(seed, thorough),
        "C20" => inputs20(seed, thorough),
        "K20" => inputs_k20(),
        "C30" => inputs30(seed, thorough),
        _ => panic!("{}", prop),
    }
}
pub fn events(prop: &str, c: &Value) -> Vec<Value> {
    match prop {
        "C17" => events17(c),
        "C18" => events18(c),
        "C19" => events19(c),
        "C20" | "K20" => events20(c),
        "C30" => events30(c),
        _ => panic!("{}", prop),
    }
}
