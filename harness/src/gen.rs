//! Deterministic generators of FBAS cases (systematic families + seeded random).
use fbas_analyzer::{Fbas, QuorumSet};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub fn qs(t: usize, v: Vec<usize>, i: Vec<QuorumSet>) -> QuorumSet {
    QuorumSet { threshold: t, validators: v, inner_quorum_sets: i }
}

#[derive(Clone)]
pub struct Case {
    pub family: &'static str,
    pub qsets: Vec<QuorumSet>,
}
impl Case {
    pub fn fbas(&self) -> Fbas {
        let mut f = Fbas::new();
        for q in &self.qsets {
            f.add_generic_node(q.clone());
        }
        f
    }
    pub fn sorted(mut self) -> Self {
        for q in self.qsets.iter_mut() {
            sort_qset(q);
        }
        self
    }
}
pub fn sort_qset(q: &mut QuorumSet) {
    q.validators.sort_unstable();
    for i in q.inner_quorum_sets.iter_mut() {
        sort_qset(i);
    }
    q.inner_quorum_sets.sort_unstable();
}

/// A random quorum set over `pool`; `weird` allows thresholds 0 / too large and duplicates.
pub fn rand_qset(r: &mut Rng, pool: &[usize], depth: usize, weird: bool) -> QuorumSet {
    let mut vals: Vec<usize> = vec![];
    let k = r.range(if depth == 0 { 1 } else { 0 }, pool.len().min(5));
    let mut p = pool.to_vec();
    r.shuffle(&mut p);
    vals.extend(p.into_iter().take(k));
    if weird && r.chance(15) && !vals.is_empty() {
        let d = *r.pick(&vals);
        vals.push(d);
    }
    let mut inner = vec![];
    if depth > 0 && r.chance(55) {
        for _ in 0..r.range(1, 2) {
            inner.push(rand_qset(r, pool, depth - 1, weird));
        }
    }
    let m = vals.len() + inner.len();
    let t = if weird && r.chance(12) {
        match r.below(4) {
            0 => 0,
            1 => m + 1,
            2 => m + 2,
            _ => usize::MAX,
        }
    } else if m == 0 {
        1
    } else if r.chance(50) {
        // majority-ish
        (m / 2 + 1).min(m)
    } else {
        r.range(1, m)
    };
    qs(t, vals, inner)
}

/// A nested quorum set containing exactly the nodes of `pool` (each once, unless `dups`).
pub fn cover_qset(r: &mut Rng, pool: &[usize], depth: usize, dups: bool, weird: bool) -> QuorumSet {
    let mut p = pool.to_vec();
    r.shuffle(&mut p);
    let mut vals = vec![];
    let mut inner = vec![];
    if depth == 0 || pool.len() < 2 || r.chance(25) {
        vals = p;
    } else {
        let nv = r.below(p.len());
        vals.extend(p.drain(..nv));
        while !p.is_empty() {
            let k = r.range(1, p.len().min(4));
            let part: Vec<usize> = p.drain(..k).collect();
            inner.push(cover_qset(r, &part, depth - 1, dups, weird));
        }
    }
    if dups && r.chance(60) {
        let d = *r.pick(pool);
        if r.chance(50) || inner.is_empty() {
            vals.push(d);
        } else {
            let k = r.below(inner.len());
            inner[k].validators.push(d);
        }
    }
    let m = vals.len() + inner.len();
    let t = if weird && r.chance(15) {
        match r.below(4) {
            0 => 0,
            1 => m + 1,
            2 => 2 * m,
            _ => usize::MAX,
        }
    } else if r.chance(60) {
        (2 * m + 3) / 3
    } else {
        r.range(1, m)
    };
    qs(t.max(if weird { 0 } else { 1 }), vals, inner)
}

pub const FAMILIES: [&str; 16] = [
    "rand", "rand_weird", "sym_flat", "sym_nested", "sym_dups", "clusters", "near_sym", "hierarchy",
    "orgs", "sparse", "chain", "sym_weird", "hypergraph", "shared_pool", "deep", "meeting",
];

pub fn case(r: &mut Rng, family: &'static str, maxn: usize) -> Case {
    let maxn = maxn.max(2);
    let qsets = match family {
        "rand" | "rand_weird" => {
            let n = r.range(1, maxn);
            let pool: Vec<usize> = (0..n).collect();
            let weird = family == "rand_weird";
            let d = r.range(0, 2);
            let self_incl = r.chance(50);
            (0..n)
                .map(|i| {
                    let pool = pool.clone();
                    let mut q = rand_qset(r, &pool, d, weird);
                    if self_incl && !q.validators.contains(&i) {
                        q.validators.push(i);
                        if r.chance(50) {
                            q.threshold = q.threshold.saturating_add(1);
                        }
                    }
                    q
                })
                .collect()
        }
        "meeting" => {
            let (n, k) = (r.range(3, maxn.max(3)), r.range(4, 16));
            meeting(r, n, k)
        }
        "hypergraph" => {
            // a few sets of nodes, each of which is a quorum: every node accepts the sets it is in
            let n = r.range(2, maxn);
            let mut sets: Vec<Vec<usize>> = vec![];
            for _ in 0..r.range(2, 6) {
                let mut p: Vec<usize> = (0..n).collect();
                r.shuffle(&mut p);
                let k = r.range(1, n.min(4));
                p.truncate(k);
                if r.chance(70) {
                    p.sort_unstable();
                }
                sets.push(p);
            }
            if r.chance(40) {
                // a larger one that meets all the others
                let mut p: Vec<usize> = sets.iter().map(|s| *r.pick(s)).collect();
                p.push(r.below(n));
                p.sort_unstable();
                p.dedup();
                sets.push(p);
            }
            (0..n)
                .map(|x| {
                    let mut inner: Vec<QuorumSet> =
                        sets.iter().filter(|s| s.contains(&x)).map(|s| qs(s.len(), s.clone(), vec![])).collect();
                    if r.chance(10) {
                        let s = r.pick(&sets);
                        inner.push(qs(s.len(), s.clone(), vec![]));
                    }
                    match inner.len() {
                        0 => QuorumSet::new(),
                        1 if r.chance(70) => inner.remove(0),
                        _ => qs(1, vec![], inner),
                    }
                })
                .collect()
        }
        "deep" => {
            // few nodes at each of several levels of nesting
            let n = r.range(2, maxn);
            let same = r.chance(40);
            let mut v: Vec<QuorumSet> = vec![];
            for x in 0..n {
                if same && x > 0 && r.chance(80) {
                    v.push(v[0].clone());
                    continue;
                }
                let mut p: Vec<usize> = (0..n).collect();
                r.shuffle(&mut p);
                let mut q = qs(1, vec![p.pop().unwrap()], vec![]);
                for _ in 0..r.range(2, 5) {
                    let mut vals = vec![];
                    for _ in 0..r.range(0, 2) {
                        if let Some(a) = p.pop() {
                            vals.push(a);
                        }
                    }
                    let t = r.range(1, vals.len() + 1);
                    q = qs(t, vals, vec![q]);
                }
                v.push(q);
            }
            v
        }
        "shared_pool" => {
            // many nodes share few different quorum sets, whatever they contain
            let n = r.range(2, maxn);
            let pool: Vec<usize> = (0..n).collect();
            let kinds: Vec<QuorumSet> = (0..r.range(1, 3))
                .map(|k| if k == 0 { cover_qset(r, &pool, 1, false, false) } else { rand_qset(r, &pool, 1, false) })
                .collect();
            (0..n).map(|_| r.pick(&kinds).clone()).collect()
        }
        "sym_flat" => {
            let n = r.range(1, maxn);
            let t = r.range(1, n);
            vec![qs(t, (0..n).collect(), vec![]); n]
        }
        "sym_nested" | "sym_dups" | "sym_weird" => {
            let n = r.range(2, maxn);
            let pool: Vec<usize> = (0..n).collect();
            let d = r.range(1, 2);
            let q = cover_qset(r, &pool, d, family == "sym_dups", family == "sym_weird");
            vec![q; n]
        }
        "clusters" => {
            let mut n = 0;
            let mut v: Vec<QuorumSet> = vec![];
            let kcl = r.range(2, 3);
            for _ in 0..kcl {
                let k = r.range(1, (maxn / kcl).max(1) + 1);
                let pool: Vec<usize> = (n..n + k).collect();
                if r.chance(60) {
                    let dd = r.range(0, 1);
                    let q = cover_qset(r, &pool, dd, false, false);
                    v.extend(vec![q; k]);
                } else {
                    for i in 0..k {
                        let mut q = rand_qset(r, &pool, 0, false);
                        if !q.validators.contains(&(n + i)) {
                            q.validators.push(n + i);
                        }
                        v.push(q);
                    }
                }
                n += k;
            }
            // sometimes link clusters / add followers
            if r.chance(40) {
                let a = r.below(n);
                let b = r.below(n);
                if !v[a].validators.contains(&b) {
                    v[a].validators.push(b);
                    if r.chance(50) {
                        v[a].threshold += 1;
                    }
                }
            }
            v
        }
        "near_sym" => {
            let n = r.range(2, maxn);
            let pool: Vec<usize> = (0..n).collect();
            let d = r.range(0, 1);
            let q = cover_qset(r, &pool, d, false, false);
            let mut v = vec![q; n];
            for _ in 0..r.range(1, 2) {
                let k = r.below(n);
                match r.below(4) {
                    0 => v[k].threshold += 1,
                    1 => v[k].threshold = v[k].threshold.saturating_sub(1),
                    2 => v[k] = rand_qset(r, &pool, 1, false),
                    _ => {
                        if !v[k].validators.is_empty() {
                            let j = r.below(v[k].validators.len());
                            v[k].validators.remove(j);
                        }
                    }
                }
            }
            v
        }
        "hierarchy" => {
            let core = r.range(1, (maxn - 1).min(5));
            let n = r.range(core + 1, maxn.max(core + 1));
            let pool: Vec<usize> = (0..core).collect();
            let q = cover_qset(r, &pool, 1, false, false);
            let mut v = if r.chance(60) {
                vec![q; core]
            } else {
                (0..core)
                    .map(|i| {
                        let mut q = rand_qset(r, &pool, 0, false);
                        if !q.validators.contains(&i) {
                            q.validators.push(i);
                        }
                        q
                    })
                    .collect()
            };
            for i in core..n {
                let lower: Vec<usize> = (0..=i).collect();
                let mut q = rand_qset(r, &lower, 1, false);
                if r.chance(20) {
                    q.threshold += 1;
                }
                v.push(q);
            }
            if r.chance(25) {
                // back edge from core to periphery
                let a = r.below(core);
                let b = r.range(core, n - 1);
                v[a].validators.push(b);
            }
            v
        }
        "orgs" => {
            let norg = r.range(2, (maxn / 2).max(2).min(4));
            let mut inner = vec![];
            let mut n = 0;
            for _ in 0..norg {
                let k = r.range(1, (maxn / norg).max(1).min(3));
                inner.push(qs(k / 2 + 1, (n..n + k).collect(), vec![]));
                n += k;
            }
            let t = if r.chance(60) { (2 * norg + 3) / 3 } else { r.range(1, norg) };
            let q = qs(t, vec![], inner);
            let mut v = vec![q.clone(); n];
            if r.chance(50) {
                let k = r.below(n);
                let mut q2 = q;
                q2.inner_quorum_sets.remove(0);
                q2.threshold = q2.threshold.min(q2.inner_quorum_sets.len()).max(1);
                v[k] = q2;
            }
            v
        }
        "sparse" => {
            // few live nodes spread over a big id space (crossing 32- and 64-bit blocks)
            let f = *r.pick(&["rand", "sym_flat", "sym_nested", "clusters", "near_sym", "hierarchy"]);
            let inner = case(r, f, maxn.min(6));
            let k = inner.qsets.len();
            let big = *r.pick(&[33usize, 40, 65, 70]);
            let mut ids: Vec<usize> = (0..big).collect();
            r.shuffle(&mut ids);
            let mut ids: Vec<usize> = ids.into_iter().take(k).collect();
            if r.chance(70) {
                ids.sort_unstable();
            }
            let mut v: Vec<QuorumSet> = vec![QuorumSet::new(); big];
            for (i, q) in inner.qsets.into_iter().enumerate() {
                v[ids[i]] = remap(&q, &|x| if x < k { ids[x] } else { big + x });
            }
            for i in 0..big {
                if !ids.contains(&i) && r.chance(30) {
                    // unsatisfiable filler pointing at live nodes and at other fillers
                    let a = *r.pick(&ids);
                    let b = (i + 1) % big;
                    let q = if ids.contains(&b) { qs(3, vec![a, i], vec![]) } else { qs(2, vec![a, b], vec![]) };
                    v[i] = q;
                }
            }
            // break potential filler satisfiable cycles: a filler may be satisfiable; that is fine
            v
        }
        "chain" => {
            // long dependency chains: i trusts i+1
            let n = r.range(2, maxn);
            let mut v: Vec<QuorumSet> = vec![];
            for i in 0..n {
                let nxt = if i + 1 < n { i + 1 } else { r.below(n) };
                let mut q = qs(if r.chance(70) { 2 } else { 1 }, vec![i, nxt], vec![]);
                if i == nxt {
                    q = qs(1, vec![i], vec![]);
                }
                if r.chance(20) {
                    q.validators.push(r.below(n));
                }
                if i + 1 == n && r.chance(30) {
                    q.threshold = 5; // unsatisfiable sink
                }
                v.push(q);
            }
            v
        }
        _ => unreachable!(),
    };
    // now and then, the same structure with (or as) deeply nested quorum sets
    let mut qsets = qsets;
    if family == "deep" || (family != "sparse" && r.clone().chance(12)) {
        deepen(&mut r.clone(), &mut qsets);
    }
    Case { family, qsets }
}

/// Many minimal quorums, of which every two share some nodes, often only one or two.
fn meeting(r: &mut Rng, n: usize, k: usize) -> Vec<QuorumSet> {
    let mut sets: Vec<Vec<usize>> = vec![];
    for _ in 0..8 * k {
        if sets.len() == k {
            break;
        }
        let mut p: Vec<usize> = (0..n).collect();
        r.shuffle(&mut p);
        p.truncate(r.range(1.max(n / 3), (n / 2 + 1).min(n)));
        p.sort_unstable();
        let meets = |s: &Vec<usize>| s.iter().any(|x| p.contains(x));
        let within = |s: &Vec<usize>| s.iter().all(|x| p.contains(x)) || p.iter().all(|x| s.contains(x));
        if sets.iter().all(|s| meets(s) && !within(s)) {
            sets.push(p);
        }
    }
    (0..n)
        .map(|x| {
            let inner: Vec<QuorumSet> =
                sets.iter().filter(|s| s.contains(&x)).map(|s| qs(s.len(), s.clone(), vec![])).collect();
            if inner.is_empty() {
                QuorumSet::new()
            } else {
                qs(1, vec![], inner)
            }
        })
        .collect()
}

/// Nest quorum sets deeper: single validators or the whole quorum set move some levels down. Equal quorum sets stay
/// equal. What the quorum sets mean only changes where a new level gets a sibling.
fn deepen(r: &mut Rng, qsets: &mut [QuorumSet]) {
    let mut known: Vec<(QuorumSet, QuorumSet)> = vec![];
    for q in qsets.iter_mut() {
        if let Some((_, d)) = known.iter().find(|(o, _)| o == q) {
            *q = d.clone();
            continue;
        }
        let old = q.clone();
        for _ in 0..r.range(0, 2) {
            let levels = r.range(1, 4);
            if q.validators.is_empty() || r.chance(25) {
                for _ in 0..levels {
                    *q = qs(1, vec![], vec![q.clone()]);
                }
            } else {
                let k = r.below(q.validators.len());
                let v = q.validators.remove(k);
                let mut i = qs(1, vec![v], vec![]);
                for _ in 1..levels {
                    i = qs(1, vec![], vec![i]);
                    if r.chance(10) {
                        i.validators.push(r.below(known.len() + 1));
                    }
                }
                q.inner_quorum_sets.push(i);
            }
        }
        known.push((old, q.clone()));
    }
}

pub fn remap(q: &QuorumSet, f: &dyn Fn(usize) -> usize) -> QuorumSet {
    qs(
        q.threshold,
        q.validators.iter().map(|&x| f(x)).collect(),
        q.inner_quorum_sets.iter().map(|x| remap(x, f)).collect(),
    )
}

pub fn cases(seed: u64, count: usize, maxn: usize) -> Vec<Case> {
    let mut r = Rng::new(seed);
    (0..count).map(|i| case(&mut r, FAMILIES[i % FAMILIES.len()], maxn)).collect()
}

/// A reference used only to choose interesting inputs (never to judge), independent of the code under test.
pub fn ref_slice(q: &QuorumSet, s: &[bool]) -> bool {
    let a = q.validators.iter().filter(|&&x| x < s.len() && s[x]).count();
    let b = q.inner_quorum_sets.iter().filter(|i| ref_slice(i, s)).count();
    q.threshold > 0 && a + b >= q.threshold
}
pub fn ref_greatest(qsets: &[QuorumSet], mut s: Vec<bool>) -> Vec<bool> {
    loop {
        let t: Vec<bool> = (0..s.len()).map(|x| s[x] && ref_slice(&qsets[x], &s)).collect();
        if t == s {
            return s;
        }
        s = t;
    }
}
/// (satisfiable nodes, minimal quorums); None if too big to enumerate
pub fn ref_minimal_quorums(qsets: &[QuorumSet]) -> Option<(Vec<bool>, Vec<Vec<usize>>)> {
    let n = qsets.len();
    let sat = ref_greatest(qsets, vec![true; n]);
    let live: Vec<usize> = (0..n).filter(|&x| sat[x]).collect();
    if live.len() > 10 {
        return None;
    }
    let quorums: Vec<usize> = (1..1usize << live.len())
        .filter(|m| {
            let mut s = vec![false; n];
            live.iter().enumerate().for_each(|(k, &x)| s[x] = m >> k & 1 == 1);
            live.iter().enumerate().all(|(k, &x)| m >> k & 1 == 0 || ref_slice(&qsets[x], &s))
        })
        .collect();
    let mqs = quorums
        .iter()
        .filter(|&&m| !quorums.iter().any(|&o| o != m && o & m == o))
        .map(|&m| (0..live.len()).filter(|k| m >> k & 1 == 1).map(|k| live[k]).collect())
        .collect();
    Some((sat, mqs))
}
/// (satisfiable nodes, nodes in minimal quorums)
pub fn ref_top_tier(qsets: &[QuorumSet]) -> Option<(Vec<bool>, Vec<bool>)> {
    let (sat, mqs) = ref_minimal_quorums(qsets)?;
    let mut tt = vec![false; qsets.len()];
    mqs.iter().flatten().for_each(|&x| tt[x] = true);
    Some((sat, tt))
}
/// minimal quorums exist and some two of them are disjoint, but not all pairs are
pub fn ref_partly_disjoint(qsets: &[QuorumSet]) -> bool {
    match ref_minimal_quorums(qsets) {
        Some((_, m)) => {
            let disjoint = |a: &Vec<usize>, b: &Vec<usize>| !a.iter().any(|x| b.contains(x));
            let pairs = || (0..m.len()).flat_map(|i| (0..i).map(move |j| (i, j)));
            pairs().any(|(i, j)| disjoint(&m[i], &m[j])) && pairs().any(|(i, j)| !disjoint(&m[i], &m[j]))
        }
        None => false,
    }
}

// --- bigger systems, whose minimal quorums are few ---

/// minimal quorums by branch and bound, None if there are more than `limit` (or the search gets long)
pub fn ref_search(qsets: &[QuorumSet], limit: usize) -> Option<Vec<Vec<bool>>> {
    fn step(q: &[QuorumSet], sel: &mut Vec<bool>, from: Vec<bool>, out: &mut Vec<Vec<bool>>, limit: usize, fuel: &mut usize) -> bool {
        if *fuel == 0 || out.len() > limit {
            return false;
        }
        *fuel -= 1;
        let avail = ref_greatest(q, from);
        if (0..q.len()).any(|x| sel[x] && !avail[x]) || !avail.iter().any(|x| *x) {
            return true;
        }
        let inside = ref_greatest(q, sel.clone());
        if inside.iter().any(|x| *x) {
            let minimal = inside == *sel
                && (0..q.len()).filter(|&x| sel[x]).all(|x| {
                    let mut s = sel.clone();
                    s[x] = false;
                    !ref_greatest(q, s).iter().any(|y| *y)
                });
            if minimal {
                out.push(sel.clone());
            }
            return true;
        }
        let x = match (0..q.len()).find(|&x| avail[x] && !sel[x]) {
            Some(x) => x,
            None => return true,
        };
        sel[x] = true;
        let a = step(q, sel, avail.clone(), out, limit, fuel);
        sel[x] = false;
        let mut less = avail;
        less[x] = false;
        a && step(q, sel, less, out, limit, fuel)
    }
    let n = qsets.len();
    let mut out = vec![];
    let mut fuel = 3000;
    if step(qsets, &mut vec![false; n], vec![true; n], &mut out, limit, &mut fuel) && out.len() <= limit {
        Some(out)
    } else {
        None
    }
}
/// number of minimal transversals, None if there are more than `limit` on the way
pub fn ref_transversals(sets: &[Vec<bool>], limit: usize) -> Option<usize> {
    let mut t: Vec<Vec<bool>> = vec![vec![false; sets.get(0).map(|s| s.len()).unwrap_or(0)]];
    for m in sets {
        let hits = |x: &Vec<bool>| x.iter().zip(m).any(|(a, b)| *a && *b);
        let (keep, miss): (Vec<_>, Vec<_>) = t.into_iter().partition(hits);
        let mut ext = vec![];
        for x in miss {
            for k in (0..m.len()).filter(|&k| m[k]) {
                let mut e = x.clone();
                e[k] = true;
                if !keep.iter().any(|s: &Vec<bool>| s.iter().zip(&e).all(|(a, b)| !*a || *b)) {
                    ext.push(e);
                }
            }
        }
        t = keep;
        t.extend(ext);
        t.sort();
        t.dedup();
        if t.len() > limit {
            return None;
        }
    }
    Some(t.len())
}
pub const BIG_FAMILIES: [&str; 11] =
    ["big_orgs", "many_clusters", "deep", "big_hypergraph", "huge_ids", "big_flat", "ring", "long_chain", "followers", "two_tier", "big_meeting"];
pub fn big_candidate(r: &mut Rng, family: &'static str) -> Case {
    let and = |v: Vec<usize>| qs(v.len(), v, vec![]);
    let qsets: Vec<QuorumSet> = match family {
        "big_orgs" => {
            let k = r.range(3, 5);
            let mut inner = vec![];
            let mut n = 0;
            for _ in 0..k {
                let s = *r.pick(&[1usize, 2, 3, 3, 4]);
                inner.push(qs(r.range(s / 2 + 1, s), (n..n + s).collect(), vec![]));
                n += s;
            }
            let q = qs(r.range(k / 2 + 1, k), vec![], inner.clone());
            let mut v = vec![q.clone(); n];
            // members of an organization leave out some other one, insist on their own ...
            for x in 0..n {
                if r.chance(20) {
                    let mut p = q.clone();
                    match r.below(3) {
                        0 => {
                            let at = r.below(k);
                            p.inner_quorum_sets.remove(at);
                            p.threshold = p.threshold.min(k - 1);
                        }
                        1 => p = qs(2, vec![x], vec![p]),
                        _ => p.threshold = (p.threshold + 1).min(k),
                    }
                    v[x] = p;
                }
            }
            v
        }
        "many_clusters" => {
            let mut v: Vec<QuorumSet> = vec![];
            for _ in 0..r.range(3, 6) {
                let n = v.len();
                let k = r.range(1, 4);
                let pool: Vec<usize> = (n..n + k).collect();
                if r.chance(60) {
                    let q = cover_qset(r, &pool, 1, false, false);
                    v.extend(vec![q; k]);
                } else {
                    for x in pool.iter() {
                        let mut q = rand_qset(r, &pool, 0, false);
                        if !q.validators.contains(x) {
                            q.validators.push(*x);
                        }
                        v.push(q);
                    }
                }
            }
            v
        }
        "deep" => {
            let n = r.range(9, 14);
            let pool: Vec<usize> = (0..n).collect();
            let d = r.range(3, 6);
            let q = cover_qset(r, &pool, d, r.clone().chance(20), false);
            let mut v = vec![q; n];
            if r.chance(50) {
                for _ in 0..r.range(1, 3) {
                    let k = r.below(n);
                    v[k] = cover_qset(r, &pool, 3, false, false);
                }
            }
            v
        }
        "big_hypergraph" => {
            let n = r.range(9, 22);
            let mut sets: Vec<Vec<usize>> = vec![];
            for _ in 0..r.range(3, 9) {
                let mut p: Vec<usize> = (0..n).collect();
                r.shuffle(&mut p);
                let k = r.range(2, 8.min(n));
                p.truncate(k);
                sets.push(p);
            }
            if r.chance(50) {
                // all through one node or two
                let x = r.below(n);
                for s in sets.iter_mut() {
                    if !s.contains(&x) {
                        s.push(x);
                    }
                }
            }
            (0..n)
                .map(|x| {
                    let mut inner: Vec<QuorumSet> = sets.iter().filter(|s| s.contains(&x)).map(|s| and(s.clone())).collect();
                    match inner.len() {
                        0 => and(vec![x, (x + 1) % n]),
                        1 => inner.remove(0),
                        _ => qs(1, vec![], inner),
                    }
                })
                .collect()
        }
        "big_meeting" => {
            let (n, k) = (r.range(8, 12), r.range(8, 30));
            meeting(r, n, k)
        }
        "huge_ids" => {
            let f = *r.pick(&["rand", "sym_nested", "clusters", "near_sym", "hypergraph", "orgs"]);
            let inner = case(r, f, 7);
            let k = inner.qsets.len();
            let big = *r.pick(&[96usize, 127, 128, 129, 150]);
            let mut ids: Vec<usize> = (0..big).collect();
            r.shuffle(&mut ids);
            ids.truncate(k);
            if r.chance(40) {
                ids[0] = big - 1;
                ids.dedup();
            }
            ids.sort_unstable();
            ids.dedup();
            let k2 = ids.len();
            let mut v: Vec<QuorumSet> = vec![QuorumSet::new(); big];
            for (i, q) in inner.qsets.into_iter().enumerate().take(k2) {
                v[ids[i]] = remap(&q, &|x| ids[x.min(k2 - 1)]);
            }
            v
        }
        "big_flat" => {
            let n = r.range(9, 13);
            let t = n - r.range(0, 2).min(n - 1);
            let mut v = vec![qs(t, (0..n).collect(), vec![]); n];
            for _ in 0..r.below(3) {
                let k = r.below(n);
                match r.below(3) {
                    0 => v[k].threshold = n,
                    1 => v[k].threshold -= 1,
                    _ => {
                        let j = r.below(v[k].validators.len());
                        v[k].validators.remove(j);
                        v[k].threshold = v[k].threshold.min(n - 1);
                    }
                }
            }
            v
        }
        "ring" => {
            let n = r.range(8, 22);
            let w = r.range(1, 3);
            (0..n)
                .map(|x| {
                    let mut v = vec![x];
                    v.extend((1..=w).map(|k| (x + k * k) % n));
                    v.dedup();
                    let t = if r.chance(85) { v.len() } else { v.len() - 1 };
                    qs(t.max(1), v, vec![])
                })
                .collect()
        }
        "long_chain" => {
            // a core, and nodes that depend on it through each other
            let n = r.range(15, 45);
            let core = r.range(1, 4);
            let mut order: Vec<usize> = (0..n).collect();
            match r.below(3) {
                0 => {}
                1 => order.reverse(),
                _ => r.shuffle(&mut order),
            }
            let pool: Vec<usize> = order[..core].to_vec();
            let q = cover_qset(r, &pool, 1, false, false);
            let mut v = vec![QuorumSet::new(); n];
            for k in 0..n {
                v[order[k]] = if k < core {
                    if r.chance(10) { qs(core, pool.clone(), vec![]) } else { q.clone() }
                } else if r.chance(90) {
                    and(vec![order[k], order[k - 1]])
                } else {
                    qs(2, vec![order[k - 1], order[k - 2.min(k)], order[r.below(n)]], vec![])
                };
            }
            if r.chance(30) {
                let k = r.range(core, n - 1);
                v[order[k]].threshold = 9;
            }
            if r.chance(30) {
                // close the chain
                v[order[0]] = and(vec![order[0], order[n - 1]]);
            }
            v
        }
        "followers" => {
            let core = case(r, "near_sym", 6);
            let k = core.qsets.len();
            let n = r.range(k + 4, 26);
            let mut v = core.qsets;
            for x in k..n {
                let mut q = match r.below(3) {
                    0 => v[r.below(k)].clone(),
                    1 => rand_qset(r, &(0..x).collect::<Vec<_>>(), 1, false),
                    _ => and(vec![x, r.below(x)]),
                };
                if r.chance(30) {
                    q.validators.push(x);
                }
                v.push(q);
            }
            v
        }
        _ => {
            // two tiers of organizations, the second trusts the first and itself
            let mut v = vec![];
            let a = r.range(3, 4);
            let b = r.range(1, 2);
            let org = |k: usize| qs(2, (3 * k..3 * k + 3).collect(), vec![]);
            let top = qs((2 * a + 3) / 3, vec![], (0..a).map(org).collect());
            for k in 0..a + b {
                for _ in 0..3 {
                    let q = if k < a { top.clone() } else { qs(2, vec![], vec![top.clone(), org(k)]) };
                    v.push(q);
                }
            }
            if r.chance(60) {
                let x = r.below(3 * a);
                v[x] = qs(2, vec![x], vec![top]);
            }
            v
        }
    };
    Case { family, qsets }
}
/// systems with hundreds of minimal quorums, most of them over the same nodes
/// Systems whose long results are known in closed form (Counting.tla): organizations of equal size.
pub fn counted(r: &mut Rng, twisted: bool, most: f64, loose: usize) -> (Case, Vec<Vec<usize>>, usize, usize) {
    fn binom(n: usize, k: usize) -> f64 {
        (0..k).map(|x| (n - x) as f64 / (x + 1) as f64).product()
    }
    let (orgs, m, t, s) = loop {
        let m = *r.pick(&[1usize, 1, 1, 2, 3, 3, 4, 5]);
        let orgs = r.range(2, 20 / m + 1);
        let t = r.range(1, orgs);
        let s = r.range(1, m);
        let lists = |a: usize, b: usize| binom(orgs, a) * binom(m, b).powi(a as i32);
        let qi = 2 * t > orgs && 2 * s > m;
        let mq = lists(t, s);
        let mbs = lists(orgs - t + 1, m - s + 1);
        let mss = if qi { lists(2 * t - orgs, 2 * s - m) } else { 1.0 };
        let all = mq.max(mbs).max(mss);
        // (without intersection, minimal splitting sets are trivial)
        if all <= most && all >= most / 30.0 && (!twisted || orgs * m <= 16) && (qi || r.chance(loose)) {
            break (orgs, m, t, s);
        }
    };
    let n = orgs * m;
    let total = n + r.below(4);
    let mut p: Vec<usize> = (0..total).collect();
    if r.chance(70) {
        r.shuffle(&mut p);
    }
    let groups: Vec<Vec<usize>> = (0..orgs).map(|k| (0..m).map(|j| p[m * k + j]).collect()).collect();
    let base = if m == 1 {
        qs(t, groups.iter().map(|g| g[0]).collect(), vec![])
    } else {
        qs(t, vec![], groups.iter().map(|g| qs(s, g.clone(), vec![])).collect())
    };
    let mut v = vec![base.clone(); total];
    for k in n..total {
        if r.chance(50) {
            v[p[k]] = qs(1, vec![], vec![]);
        }
    }
    if twisted {
        let share = *r.pick(&[0, 20, 60]);
        for k in 0..n {
            if k == 0 || r.chance(share) {
                let mut q = base.clone();
                if r.chance(70) || k == 0 {
                    q.validators.push(p[k]);
                    q.threshold += 1;
                } else {
                    q = qs(1, vec![], vec![base.clone()]);
                }
                v[p[k]] = q;
            }
        }
    }
    (Case { family: "counted", qsets: v }, groups, t, s)
}
pub fn crowd(r: &mut Rng) -> Case {
    let and = |v: Vec<usize>| qs(v.len(), v, vec![]);
    let n = r.range(8, 10);
    let t = if r.chance(60) { n / 2 + 1 } else { r.range(n / 2, n - 2) };
    let base = qs(t, (0..n).collect(), vec![]);
    let mut v = vec![base.clone(); n];
    for _ in 0..r.range(1, 2) {
        // a ring of further nodes that hangs on one of the others
        let from = v.len();
        let k = r.range(1, 4);
        let mut way: Vec<usize> = (from..from + k).collect();
        for _ in 0..r.range(1, t) {
            way.push(r.below(from));
        }
        way.sort_unstable();
        way.dedup();
        let all = and(way.clone());
        for _ in 0..k {
            v.push(if r.chance(80) { all.clone() } else { qs(1, vec![], vec![all.clone(), base.clone()]) });
        }
        for &x in way.iter() {
            if x < from && r.chance(85) {
                v[x] = qs(1, vec![], vec![v[x].clone(), all.clone()]);
            }
        }
    }
    if r.chance(50) {
        let m = v.len();
        let mut p: Vec<usize> = (0..m).collect();
        r.shuffle(&mut p);
        let mut w = vec![QuorumSet::new(); m];
        for (x, q) in v.iter().enumerate() {
            w[p[x]] = remap(q, &|y| p[y]);
        }
        v = w;
    }
    Case { family: "crowd", qsets: v }
}
/// size of the largest strongly connected component of satisfiable nodes: analyses take time
/// exponential in that
pub fn ref_largest_component(qsets: &[QuorumSet]) -> usize {
    fn mentions(q: &QuorumSet, to: &mut Vec<bool>) {
        q.validators.iter().for_each(|&x| {
            if x < to.len() {
                to[x] = true
            }
        });
        q.inner_quorum_sets.iter().for_each(|i| mentions(i, to));
    }
    let n = qsets.len();
    let sat = ref_greatest(qsets, vec![true; n]);
    let reach: Vec<Vec<bool>> = (0..n)
        .map(|x| {
            let mut seen = vec![false; n];
            if !sat[x] {
                return seen;
            }
            let mut todo = vec![x];
            seen[x] = true;
            while let Some(y) = todo.pop() {
                let mut to = vec![false; n];
                mentions(&qsets[y], &mut to);
                for z in 0..n {
                    if to[z] && sat[z] && !seen[z] {
                        seen[z] = true;
                        todo.push(z);
                    }
                }
            }
            seen
        })
        .collect();
    (0..n).map(|x| (0..n).filter(|&y| reach[x][y] && reach[y][x]).count()).max().unwrap_or(0)
}
pub fn big_cases(r: &mut Rng, count: usize, max_mq: usize, max_mbs: usize) -> Vec<Case> {
    let mut v = vec![];
    let mut k = 0;
    while v.len() < count {
        let mut c = big_candidate(r, BIG_FAMILIES[k % BIG_FAMILIES.len()]);
        if r.chance(50) && c.qsets.len() < 64 {
            // ids in another order
            let n = c.qsets.len();
            let mut p: Vec<usize> = (0..n).collect();
            r.shuffle(&mut p);
            let mut v = vec![QuorumSet::new(); n];
            for (x, q) in c.qsets.iter().enumerate() {
                v[p[x]] = remap(q, &|y| p[y]);
            }
            c.qsets = v;
        }
        let ok = ref_largest_component(&c.qsets) <= 17 && match ref_search(&c.qsets, max_mq) {
            Some(m) => ref_transversals(&m, max_mbs).is_some(),
            None => false,
        };
        if ok {
            v.push(c);
            k += 1;
        } else if r.chance(10) {
            k += 1;
        }
    }
    v
}

/// sets of nodes to look at in systems with too many of them: random ones, quorums (also minimal ones), slices that
/// are just enough, and the same with a node less
pub fn probes(r: &mut Rng, qsets: &[QuorumSet], count: usize) -> Vec<Vec<usize>> {
    let n = qsets.len();
    let mut v: Vec<Vec<usize>> = vec![vec![], (0..n).collect()];
    let members = |s: &[bool]| -> Vec<usize> { (0..s.len()).filter(|&x| s[x]).collect() };
    while v.len() < count && n > 0 {
        let p = 20 + r.below(80);
        let s: Vec<bool> = (0..n).map(|_| r.chance(p)).collect();
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        let mut t = match r.below(3) {
            0 => s.clone(),
            1 => {
                let mut q = ref_greatest(qsets, vec![true; n]);
                if r.chance(60) {
                    for &x in order.iter() {
                        if q[x] {
                            let mut less = q.clone();
                            less[x] = false;
                            let less = ref_greatest(qsets, less);
                            if less.iter().any(|x| *x) {
                                q = less;
                            }
                        }
                    }
                } else {
                    q = ref_greatest(qsets, s.clone());
                }
                q
            }
            _ => {
                // just enough for some node
                let q = &qsets[r.below(n)];
                let mut t = vec![true; n];
                for &x in order.iter() {
                    t[x] = false;
                    t[x] = !ref_slice(q, &t);
                }
                t
            }
        };
        v.push(members(&t));
        let m = members(&t);
        if !m.is_empty() && r.chance(60) {
            t[*r.pick(&m)] = false;
            v.push(members(&t));
        }
    }
    v
}
/// quorum sets with many validators
pub fn wide_candidate(r: &mut Rng) -> Case {
    let n = *r.pick(&[20usize, 63, 64, 65, 100, 127, 129, 200, 260, 300]);
    let full = r.chance(25);
    let mut qsets: Vec<QuorumSet> = vec![];
    let mut base = QuorumSet::new();
    for x in 0..n {
        if x == 0 || r.chance(8) {
            let share = if full { 100 } else { r.range(10, 100) };
            let mut v: Vec<usize> = (0..n).filter(|_| r.chance(share)).collect();
            if r.chance(50) {
                r.shuffle(&mut v);
            }
            let mut inner = vec![];
            for _ in 0..if r.chance(60) { 0 } else { r.range(1, 12) } {
                let share = r.range(2, 40);
                let v: Vec<usize> = (0..n).filter(|_| r.chance(share)).collect();
                let i = if r.chance(30) { vec![rand_qset(r, &(0..n).collect::<Vec<_>>(), 2, false)] } else { vec![] };
                let k = v.len() + i.len();
                inner.push(qs(r.range(k.min(1), k), v, i));
            }
            let k = v.len() + inner.len();
            let t = if r.chance(5) { k + 1 } else if full && r.chance(60) { k - r.below(k.min(20)) } else { r.range(k.min(1), k) };
            base = qs(t, v, inner);
        }
        qsets.push(base.clone());
    }
    Case { family: "wide", qsets }
}

/// Networks of up to 200 nodes for questions with cheap answers: satisfiability, components, symmetric clusters.
pub fn sprawl(r: &mut Rng, most: usize) -> Case {
    let few = |r: &mut Rng, from: &[usize], k: usize| {
        let mut v = from.to_vec();
        r.shuffle(&mut v);
        v.truncate(k.max(1));
        if r.chance(50) {
            v.sort_unstable();
        }
        v
    };
    let n = (*r.pick(&[33usize, 63, 64, 65, 66, 96, 127, 128, 129, 130, 160, 200, 255, 257, 300])).min(most);
    let mut v: Vec<QuorumSet> = vec![];
    let kind = r.below(3);
    match kind {
        // everything hangs on what comes next
        0 => {
            let reach = r.range(1, 4);
            for x in 0..n {
                let next: Vec<usize> = (x + 1..(x + 1 + reach).min(n)).collect();
                if next.is_empty() {
                    v.push(if r.chance(50) { qs(2, vec![x], vec![]) } else { qs(1, vec![x], vec![]) });
                } else {
                    let t = if r.chance(70) { next.len() } else { r.range(1, next.len()) };
                    let mut q = qs(t, next.clone(), vec![]);
                    if r.chance(20) {
                        q.threshold += 1;
                        q.validators.push(x);
                    }
                    if r.chance(15) {
                        q = qs(1, vec![], vec![q]);
                    }
                    v.push(q);
                }
            }
            // closed into rings here and there
            for _ in 0..r.below(4) {
                let a = r.below(n);
                let b = r.range(a, n - 1);
                v[b].validators.push(a);
                if !r.chance(30) {
                    v[b].threshold += 1;
                }
            }
        }
        // communities
        1 => {
            let mut parts: Vec<Vec<usize>> = vec![];
            let mut x = 0;
            while x < n {
                let k = (*r.pick(&[1usize, 1, 2, 3, 5, 8, 20, 40, 70])).min(n - x);
                parts.push((x..x + k).collect());
                x += k;
            }
            for (k, p) in parts.iter().enumerate() {
                for (j, &x) in p.iter().enumerate() {
                    let w = r.range(1, 4);
                    let mut ws = few(r, p, w);
                    let next = p[(j + 1) % p.len()];
                    if !ws.contains(&next) && !r.chance(2) {
                        ws.push(next);
                    }
                    let mut inner = vec![];
                    if k + 1 < parts.len() && r.chance(12) {
                        let o = r.range(k + 1, parts.len() - 1);
                        let ws2 = few(r, &parts[o], 3);
                        if r.chance(50) {
                            inner.push(qs(r.range(1, ws2.len()), ws2, vec![]));
                        } else {
                            ws.extend(ws2);
                        }
                    }
                    let all = ws.len() + inner.len();
                    let t = if r.chance(4) { all + 1 } else { r.range(1, all) };
                    let _ = x;
                    v.push(qs(t, ws, inner));
                }
            }
        }
        // big symmetric clusters, exactly or almost
        _ => {
            let mut x = 0;
            while x < n {
                let k = (*r.pick(&[2usize, 5, 31, 33, 64, 65, 100, 130])).min(n - x);
                let p: Vec<usize> = (x..x + k).collect();
                let q = if r.chance(50) {
                    qs(r.range(1, k), p.clone(), vec![])
                } else {
                    let m = r.range(2, 9);
                    let inner: Vec<QuorumSet> = p.chunks(m).map(|o| qs(o.len() / 2 + 1, o.to_vec(), vec![])).collect();
                    qs(r.range(1, inner.len()), vec![], inner)
                };
                let oddity = r.below(6);
                let odd = r.below(k);
                for j in 0..k {
                    let mut y = q.clone();
                    if j == odd {
                        match oddity {
                            0 => y.threshold += 1,
                            1 => {
                                y.validators.pop();
                            }
                            2 => y.validators.push((x + k) % n),
                            _ => {}
                        }
                    }
                    v.push(y);
                }
                x += k;
                // followers
                for _ in 0..r.below(4) {
                    if x < n {
                        v.push(if r.chance(50) { q.clone() } else { qs(1, vec![r.below(n)], vec![]) });
                        x += 1;
                    }
                }
            }
        }
    }
    let mut c = Case { family: ["long_dependencies", "communities", "big_clusters"][kind], qsets: v };
    if r.chance(60) {
        let mut p: Vec<usize> = (0..n).collect();
        r.shuffle(&mut p);
        c = renamed(&c, &p);
    }
    c
}
fn renamed_qset(q: &QuorumSet, p: &[usize]) -> QuorumSet {
    qs(q.threshold, q.validators.iter().map(|&x| p[x]).collect(), q.inner_quorum_sets.iter().map(|i| renamed_qset(i, p)).collect())
}
/// node x becomes p[x]
pub fn renamed(c: &Case, p: &[usize]) -> Case {
    let mut v = c.qsets.clone();
    for (x, q) in c.qsets.iter().enumerate() {
        v[p[x]] = renamed_qset(q, p);
    }
    Case { family: c.family, qsets: v }
}
