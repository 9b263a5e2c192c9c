//! Graphs to compare.

use crate::ctx::{Graph, R};
use std::collections::{HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone)]
pub struct Case {
    pub g: Rc<Graph>,
    pub a: u64,
    pub b: u64,
    pub tag: &'static str,
    /// Identity of each node; none: each is one of its own.
    pub ids: Rc<Vec<u32>>,
}

pub fn case(g: Graph, a: u32, b: u32, tag: &'static str) -> Case {
    Case { g: Rc::new(g), a: u64::from(a), b: u64::from(b), tag, ids: Rc::default() }
}

pub fn reach(g: &Graph, roots: &[u32]) -> Vec<u32> {
    let mut seen = vec![false; g.n() + 1];
    let mut st: Vec<u32> = vec![];
    let mut out = vec![];
    for &r in roots { if !seen[r as usize] { seen[r as usize] = true; st.push(r); } }
    while let Some(x) = st.pop() {
        out.push(x);
        for &y in &g.adj[x as usize - 1] {
            if !seen[y as usize] { seen[y as usize] = true; st.push(y); }
        }
    }
    out
}

/// Keeps what the roots reach, renumbered by a random permutation.
pub fn trim(g: &Graph, a: u32, b: u32, r: &mut R) -> (Graph, u32, u32) {
    let mut keep = reach(g, &[a, b]);
    keep.sort_unstable();
    for i in (1..keep.len()).rev() { keep.swap(i, r.below(i + 1)); }
    let mut map = vec![0u32; g.n() + 1];
    for (i, &x) in keep.iter().enumerate() { map[x as usize] = i as u32 + 1; }
    let h = Graph {
        lab: keep.iter().map(|&x| g.lab(x)).collect(),
        adj: keep.iter().map(|&x| g.adj[x as usize - 1].iter().map(|&y| map[y as usize]).collect()).collect(),
    };
    (h, map[a as usize], map[b as usize])
}

pub fn acyclic(g: &Graph, roots: &[u32]) -> bool {
    // iterative colours
    let mut st = vec![0u8; g.n() + 1];
    for &r in roots {
        if st[r as usize] != 0 { continue; }
        let mut stack = vec![(r, 0usize)];
        st[r as usize] = 1;
        while let Some((x, i)) = stack.pop() {
            if i < g.deg(x) {
                stack.push((x, i + 1));
                let y = g.adj[x as usize - 1][i];
                match st[y as usize] {
                    0 => { st[y as usize] = 1; stack.push((y, 0)); },
                    1 => return false,
                    _ => (),
                }
            } else { st[x as usize] = 2; }
        }
    }
    true
}

/// Coarsest stable colouring; colours from 1, and a representative of each.
pub fn colour(g: &Graph) -> (Vec<u32>, Vec<u32>) {
    let n = g.n();
    let mut col: Vec<u32> = vec![0; n];
    let mut k = 0usize;
    loop {
        let mut m: HashMap<(u32, u32, Vec<u32>), u32> = HashMap::new();
        let mut nxt = vec![0; n];
        for x in 0..n {
            let key = (col[x], g.lab[x], g.adj[x].iter().map(|&y| col[y as usize - 1]).collect::<Vec<_>>());
            let l = m.len() as u32 + 1;
            nxt[x] = *m.entry(key).or_insert(l);
        }
        let kk = m.len();
        col = nxt;
        if kk == k { break; }
        k = kk;
    }
    let mut rep = vec![0u32; k];
    for x in 0..n { if rep[col[x] as usize - 1] == 0 { rep[col[x] as usize - 1] = x as u32 + 1; } }
    (col, rep)
}

/// A shortest path (of edge numbers from 1) that tells the nodes apart.
pub fn sep_path(g: &Graph, a: u32, b: u32) -> Option<Vec<u32>> {
    let mut seen: HashMap<(u32, u32), ((u32, u32), u32)> = HashMap::new();
    let mut q = VecDeque::new();
    q.push_back((a, b));
    seen.insert((a, b), ((0, 0), 0));
    while let Some((x, y)) = q.pop_front() {
        if x == y { continue; }
        if g.lab(x) != g.lab(y) || g.deg(x) != g.deg(y) {
            let mut p = vec![];
            let mut c = (x, y);
            loop {
                let (pr, i) = seen[&c];
                if i == 0 { break; }
                p.push(i);
                c = pr;
            }
            p.reverse();
            return Some(p);
        }
        for i in 0..g.deg(x) {
            let c = (g.adj[x as usize - 1][i], g.adj[y as usize - 1][i]);
            if !seen.contains_key(&c) { seen.insert(c, ((x, y), i as u32 + 1)); q.push_back(c); }
        }
    }
    None
}

/// How many pairs a breadth-first walk without memory visits, up to a maximum.
pub fn bfs_visits(g: &Graph, a: u32, b: u32, max: usize) -> usize {
    let mut q = VecDeque::new();
    q.push_back(Some((a, b)));
    let mut c = 0;
    while let Some(h) = q.pop_front() {
        let Some((x, y)) = h else { return c };
        c += 1;
        if c > max { return c; }
        if x == y { continue; }
        if g.lab(x) != g.lab(y) || ((g.deg(x) == 0) != (g.deg(y) == 0)) { return c; }
        for i in 0..g.deg(x).min(g.deg(y)) { q.push_back(Some((g.adj[x as usize - 1][i], g.adj[y as usize - 1][i]))); }
        if g.deg(x) != g.deg(y) { q.push_back(None); }
    }
    c
}
/// The same depth-first.
pub fn dfs_visits(g: &Graph, a: u32, b: u32, max: usize) -> usize {
    let mut st = vec![Some((a, b))];
    let mut c = 0;
    while let Some(h) = st.pop() {
        let Some((x, y)) = h else { return c };
        c += 1;
        if c > max { return c; }
        if x == y { continue; }
        if g.lab(x) != g.lab(y) || ((g.deg(x) == 0) != (g.deg(y) == 0)) { return c; }
        if g.deg(x) != g.deg(y) { st.push(None); }
        for i in (0..g.deg(x).min(g.deg(y))).rev() { st.push(Some((g.adj[x as usize - 1][i], g.adj[y as usize - 1][i]))); }
    }
    c
}

/* ---- exhaustive ------------------------------------------------------------------ */

fn seqs(n: u32, d: usize) -> Vec<Vec<u32>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..d {
        let mut nx = vec![];
        for s in &last { for y in 1..=n { let mut t: Vec<u32> = s.clone(); t.push(y); nx.push(t); } }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}

/// Every graph of exactly n nodes all reachable from roots 1 and b, up to d edges each, labels
/// 0..labels (the first node's is 0).
pub fn exhaustive(n: u32, d: usize, labels: u32, mut f: impl FnMut(Case)) {
    let ss = seqs(n, d);
    let k = ss.len();
    let total = (k as u64).pow(n);
    let nl = labels.pow(n - 1);
    for c in 0..total {
        let mut cc = c;
        let adj: Vec<Vec<u32>> = (0..n).map(|_| { let s = ss[(cc % k as u64) as usize].clone(); cc /= k as u64; s }).collect();
        for b in 1..=n {
            let g0 = Graph { lab: vec![0; n as usize], adj: adj.clone() };
            if reach(&g0, &[1, b]).len() != n as usize { continue; }
            for l in 0..nl {
                let mut ll = l;
                let mut lab = vec![0];
                for _ in 1..n { lab.push(ll % labels); ll /= labels; }
                f(case(Graph { lab, adj: adj.clone() }, 1, b, "all"));
            }
        }
    }
}
pub fn exhaustive_count(n: u32, d: usize, labels: u32) -> u64 {
    let mut c = 0;
    exhaustive(n, d, labels, |_| c += 1);
    c
}

/* ---- random ---------------------------------------------------------------------- */

pub fn random_graph(r: &mut R, n: usize, d: usize, labels: u32) -> Graph {
    Graph {
        lab: (0..n).map(|_| if r.chance(3, 4) { 0 } else { r.below(labels as usize) as u32 }).collect(),
        adj: (0..n).map(|_| (0..r.below(d + 1)).map(|_| r.range(1, n) as u32).collect()).collect(),
    }
}
pub fn random_dag(r: &mut R, n: usize, d: usize, labels: u32) -> Graph {
    Graph {
        lab: (0..n).map(|_| if r.chance(3, 4) { 0 } else { r.below(labels as usize) as u32 }).collect(),
        adj: (0..n).map(|x| {
            let m = n - 1 - x;
            if m == 0 { vec![] } else {
                let near = r.chance(1, 2);
                (0..r.below(d + 1)).map(|_| (x + 2 + r.below(if near { m.min(3) } else { m })) as u32).collect()
            }
        }).collect(),
    }
}

/// Replaces each node by copies; edges go to arbitrary copies, so that all copies of a node are
/// equivalent, however tangled.
pub fn cover(r: &mut R, g: &Graph, copies: usize) -> (Graph, Vec<Vec<u32>>) {
    let mut ids: Vec<Vec<u32>> = vec![];
    let mut base = vec![];
    let mut n = 0;
    for x in 0..g.n() {
        let k = r.range(1, copies);
        ids.push((0..k).map(|i| (n + i) as u32 + 1).collect());
        for _ in 0..k { base.push(x); }
        n += k;
    }
    let h = Graph {
        lab: base.iter().map(|&x| g.lab[x]).collect(),
        adj: base.iter().map(|&x| g.adj[x].iter().map(|&y| *r.pick(&ids[y as usize - 1])).collect()).collect(),
    };
    (h, ids)
}

/// One small change somewhere.
pub fn mutate(r: &mut R, g: &mut Graph, dag: bool) {
    let n = g.n();
    for _ in 0..20 {
        let x = r.below(n);
        match r.below(5) {
            0 => { g.lab[x] += 1; return; },
            1 => if !g.adj[x].is_empty() { g.adj[x].pop(); return; },
            2 => if !g.adj[x].is_empty() && !dag {
                let i = r.below(g.adj[x].len());
                g.adj[x][i] = r.range(1, n) as u32;
                return;
            },
            3 => if !dag { let y = r.range(1, n) as u32; g.adj[x].push(y); return; }
                 else if x + 1 < n { let y = r.range(x + 2, n) as u32; g.adj[x].push(y); return; },
            _ => if g.adj[x].len() >= 2 { let l = g.adj[x].len(); g.adj[x].swap(l - 1, l - 2); return; },
        }
    }
}

/// Two disjoint copies of a graph side by side.
pub fn twin(g: &Graph) -> Graph {
    let n = g.n() as u32;
    let mut h = g.clone();
    h.lab.extend(g.lab.iter().copied());
    h.adj.extend(g.adj.iter().map(|s| s.iter().map(|y| y + n).collect::<Vec<_>>()));
    h
}

/// An arbitrary pair of (possibly cyclic) graphs, of up to about `max` nodes; mostly equivalent or
/// nearly so.
pub fn random_case(r: &mut R, max: usize) -> Case {
    loop {
        let deg = *r.pick(&[1, 2, 2, 2, 3, 3, 4, 7]);
        let (g, a, b, tag) = match r.below(9) {
            8 if max >= 9 => merging(r, if max > 50 { max * 2 } else { max - 6 }),
            0 => {
                let n = r.range(1, max);
                let g = random_graph(r, n, deg, 2);
                let (a, b) = (r.range(1, n) as u32, r.range(1, n) as u32);
                (g, a, b, "random")
            },
            1 => {
                // all labels equal: often equivalent
                let n = r.range(1, max);
                let mut g = random_graph(r, n, deg, 1);
                for s in &mut g.adj { while s.len() < deg { s.push(r.range(1, n) as u32); } }
                let (a, b) = (r.range(1, n) as u32, r.range(1, n) as u32);
                (g, a, b, "regular")
            },
            2 => {
                // twins, one changed
                let n = r.range(1, (max / 2).max(1));
                let g0 = random_graph(r, n, deg, 2);
                let mut g = twin(&g0);
                if r.chance(1, 2) { mutate(r, &mut g, false); }
                (g, 1, n as u32 + 1, "twin")
            },
            3 => cycles(r, max),
            _ => {
                let copies = r.range(1, 4);
                let m = (max / copies).max(1);
                let n = r.range(1, m);
                let base = random_graph(r, n, deg, 2);
                let (mut g, ids) = cover(r, &base, copies);
                let x = r.below(n);
                let (a, b) = (*r.pick(&ids[x]), *r.pick(&ids[x]));
                if r.chance(1, 2) { mutate(r, &mut g, false); }
                (g, a, b, "cover")
            },
        };
        if a == b && !r.chance(1, 10) { continue; }
        let (h, a, b) = trim(&g, a, b, r);
        if h.n() < 3 && !r.chance(1, 10) { continue; }
        return case(h, a, b, tag);
    }
}

fn cycles(r: &mut R, max: usize) -> (Graph, u32, u32, &'static str) {
    // two cycles of different lengths, with tails; maybe one node differs
    let m = (max / 2).max(1);
    let (p, q) = (r.range(1, m), r.range(1, m));
    let w = r.range(1, 3);
    let mut g = Graph::default();
    for (len, off) in [(p, 0), (q, p)] {
        for i in 0..len {
            g.lab.push(0);
            let nx = (off + (i + 1) % len) as u32 + 1;
            let mut s = vec![];
            for j in 0..w { s.push(if j == w - 1 || r.chance(1, 2) { nx } else { (off + r.below(len)) as u32 + 1 }); }
            g.adj.push(s);
        }
    }
    if r.chance(1, 3) { let x = r.below(p + q); g.lab[x] = 1; }
    else if r.chance(1, 3) { let x = r.below(p + q); g.adj[x].push(1); }
    (g, 1, p as u32 + 1, "cycles")
}

/// Two roots whose edges lead to any pairs of branch nodes, in orders that merge classes in all
/// ways, with some pairs again; maybe a few nodes differ further down.
fn merging(r: &mut R, max: usize) -> (Graph, u32, u32, &'static str) {
    let m = r.range(2, max.max(3)) as u64;
    // the last so many meet the others only once these have been merged
    let late = if r.chance(1, 2) { r.range(0, 1 + m as usize / 6) as u64 } else { 0 };
    // 1, 2: roots; 3, 4: leaves; 5, 6: above those; 7 and on: the branch nodes
    let first = 7u32;
    let mut g = Graph { lab: vec![0; 6 + m as usize], adj: vec![vec![]; 6 + m as usize] };
    g.lab[3] = 1;
    g.adj[4] = vec![3];
    g.adj[5] = vec![4];
    let how = r.below(4);
    let odd = if r.chance(1, 2) { 0 } else { r.range(1, 3) };
    let bad: Vec<usize> = (0..odd).map(|_| if r.chance(1, 2) { m as usize - 1 - r.below(3.min(m as usize)) } else { r.below(m as usize) }).collect();
    for i in 0..m as usize {
        let x = 6 + i;
        g.adj[x] = match how {
            0 => vec![5],
            1 => vec![5, first + r.below(m as usize) as u32],
            2 => vec![first + ((i + 1) % m as usize) as u32, 5],
            _ => vec![first + i as u32, 5],
        };
        if bad.contains(&i) { for y in &mut g.adj[x] { if *y == 5 { *y = 6; } } }
    }
    let name = *r.pick(ORDERS);
    let mut again: Vec<(u64, u64)> = vec![];
    let every = r.range(1, 4);
    let mut history = order(r, name, m - late);
    for y in m - late + 1..=m {
        let x = 1 + r.below(y as usize - 1) as u64;
        history.push(if r.chance(1, 2) { (x, y) } else { (y, x) });
    }
    for (i, p) in history.into_iter().enumerate() {
        let mut put = |p: (u64, u64)| { g.adj[0].push(first + p.0 as u32 - 1); g.adj[1].push(first + p.1 as u32 - 1); };
        put(p);
        again.push(p);
        if i % every == 0 { let q = *r.pick(&again); put(if r.chance(1, 2) { q } else { (q.1, q.0) }); }
    }
    (g, 1, 2, "merging")
}

/// Orders in which n nodes get joined into one class.
pub fn order(r: &mut R, name: &str, n: u64) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = vec![];
    match name {
        // one after the other, the class first or second
        "left" => for i in 2..=n { v.push((1, i)); },
        "right" => for i in 2..=n { v.push((i, 1)); },
        "chain" => for i in 2..=n { v.push((i - 1, i)); },
        "rchain" => for i in 2..=n { v.push((i, i - 1)); },
        // pairs first, then joined along a line
        "pairs-left" | "pairs-right" | "pairs-chain" | "pairs-rchain" => {
            for i in (1..n).step_by(2) { v.push((i, i + 1)); }
            for i in (3..n).step_by(2) {
                v.push(match name { "pairs-left" => (1, i), "pairs-right" => (i, 1), "pairs-chain" => (i - 2, i), _ => (i, i - 2) });
            }
            if n % 2 == 1 && n > 1 { v.push((n - 1, n)); }
        },
        // equal sizes, always by the same ends: the deepest there can be
        "binomial" | "rbinomial" | "binomial-last" => {
            for i in (1..n).step_by(2) { v.push((i, i + 1)); }
            let mut w = 2;
            while w < n {
                let mut i = 1;
                while i + w <= n {
                    let (x, y) = if name == "binomial-last" { (i + w - 1, (i + 2 * w - 1).min(n)) } else { (i, i + w) };
                    v.push(if name == "rbinomial" { (y, x) } else { (x, y) });
                    i += 2 * w;
                }
                w *= 2;
            }
            if n % 2 == 1 && n > 1 { v.push((1, n)); }
        },
        // stars of pairs, each joined with all so far: of fixed, rising, doubling, random sizes
        "stars" | "stars-rising" | "stars-doubling" | "stars-random" | "stars-wide" | "rstars" | "rstars-rising" => {
            let fixed = 1 + r.below(6) as u64;
            let (mut next, mut top, mut round) = (1u64, 0u64, 0u64);
            while next + 1 <= n {
                let star = next;
                let size = match name {
                    "stars" | "rstars" => fixed,
                    "stars-rising" | "rstars-rising" => round / fixed,
                    "stars-doubling" => 1 << round.min(40),
                    "stars-wide" => 250 + r.below(12) as u64,
                    _ => r.below(2 + round as usize) as u64,
                };
                v.push((next, next + 1));
                next += 2;
                for _ in 0..size {
                    if next + 1 > n { break; }
                    v.push((next, next + 1));
                    v.push(if name.starts_with('r') { (next, star) } else { (star, next) });
                    next += 2;
                }
                if top != 0 { v.push(if name.starts_with('r') { (top, star) } else { (star, top) }); }
                top = star;
                round += 1;
            }
            if next == n && n > 1 { v.push((1, n)); }
        },
        // parts of any sizes, joined by any of their members
        "parts-random" | "parts-skewed" | "parts-ends" => {
            fn go(r: &mut R, name: &str, lo: u64, hi: u64, v: &mut Vec<(u64, u64)>, depth: u32) {
                let n = hi - lo + 1;
                if n < 2 { return; }
                let cut = match (name, r.below(4)) {
                    _ if depth > 200 => n / 2,
                    ("parts-skewed", 0) => 1,
                    ("parts-skewed", 1) => n - 1,
                    ("parts-skewed", 2) => ((n as f64).sqrt() as u64).max(1),
                    (_, 0) => n / 2,
                    _ => 1 + r.below(n as usize - 1) as u64,
                };
                let mid = lo + cut;
                go(r, name, lo, mid - 1, v, depth + 1);
                go(r, name, mid, hi, v, depth + 1);
                let (x, y) = if name == "parts-ends" { (lo, mid) } else { (lo + r.below(cut as usize) as u64, mid + r.below((n - cut) as usize) as u64) };
                v.push(if r.chance(1, 2) { (x, y) } else { (y, x) });
            }
            go(r, name, 1, n, &mut v, 0);
        },
        _ => {
            // a random tree, in random order and direction
            for i in 2..=n {
                let j = if name == "random-near" { (i - 1).max(1) - r.below(3.min(i as usize - 1)) as u64 } else { 1 + r.below(i as usize - 1) as u64 };
                v.push(if r.chance(1, 2) { (i, j) } else { (j, i) });
            }
            for i in (1..v.len()).rev() { v.swap(i, r.below(i + 1)); }
        },
    }
    v
}
pub const ORDERS: &[&str] = &["left", "right", "chain", "rchain", "pairs-left", "pairs-right", "pairs-chain", "pairs-rchain",
    "binomial", "rbinomial", "binomial-last",
    "stars", "stars-rising", "stars-doubling", "stars-random", "stars-wide", "rstars", "rstars-rising",
    "parts-random", "parts-skewed", "parts-ends", "random", "random-near"];

/// An arbitrary pair of acyclic graphs, of up to about `max` nodes, unfolding to at most `unfold`
/// pairs.
pub fn random_acyclic_case(r: &mut R, max: usize, unfold: usize) -> Case {
    loop {
        let deg = *r.pick(&[1, 2, 2, 3, 3, 4, 6]);
        let (g, a, b, tag) = match r.below(5) {
            0 => {
                let n = r.range(1, max);
                let g = random_dag(r, n, deg, 2);
                let (a, b) = (r.range(1, n.min(3)) as u32, r.range(1, n.min(3)) as u32);
                (g, a, b, "dag")
            },
            1 => {
                let n = r.range(1, (max / 2).max(1));
                let g0 = random_dag(r, n, deg, 2);
                let mut g = twin(&g0);
                if r.chance(2, 3) { mutate_dag_twin(r, &mut g, n); }
                (g, 1, n as u32 + 1, "dagtwin")
            },
            _ => {
                let copies = r.range(1, 4);
                let m = (max / copies).max(1);
                let n = r.range(1, m);
                let base = random_dag(r, n, deg, 2);
                let (mut g, ids) = cover(r, &base, copies);
                let (a, b) = (*r.pick(&ids[0]), *r.pick(&ids[0]));
                for _ in 0..r.below(3) { mutate(r, &mut g, true); }
                (g, a, b, "dagcover")
            },
        };
        if a == b && !r.chance(1, 10) { continue; }
        if !acyclic(&g, &[a, b]) { continue; }
        let (h, a, b) = trim(&g, a, b, r);
        if h.n() < 3 && !r.chance(1, 10) { continue; }
        if bfs_visits(&h, a, b, unfold) > unfold || dfs_visits(&h, a, b, unfold) > unfold { continue; }
        return case(h, a, b, tag);
    }
}
fn mutate_dag_twin(r: &mut R, g: &mut Graph, n: usize) {
    let x = r.below(2 * n);
    match r.below(4) {
        0 => g.lab[x] += 1,
        1 => { g.adj[x].pop(); },
        2 => { let hi = if x < n { n } else { 2 * n }; if x + 1 < hi { let y = r.range(x + 2, hi) as u32; g.adj[x].push(y); } },
        _ => if g.adj[x].len() >= 2 { let l = g.adj[x].len(); g.adj[x].swap(l - 1, l - 2); },
    }
}

/// Pairs with a difference, any shape, found within `unfold` pairs breadth-first.
pub fn random_different_case(r: &mut R, max: usize, unfold: usize) -> Case {
    loop {
        let mut c = random_case(r, max);
        let (a, b) = (c.a as u32, c.b as u32);
        if sep_path(&c.g, a, b).is_none() {
            let mut g = (*c.g).clone();
            mutate(r, &mut g, false);
            let (h, a, b) = trim(&g, a, b, r);
            c = case(h, a, b, c.tag);
        }
        let (a, b) = (c.a as u32, c.b as u32);
        if sep_path(&c.g, a, b).is_none() { continue; }
        if bfs_visits(&c.g, a, b, unfold) > unfold { continue; }
        return c;
    }
}

/// The same, but the order in which a node gives its edges depends on the position where it is met:
/// the graph that is walked has a node for each node and position, of the same identity.
pub fn positioned(r: &mut R, c: &Case) -> Case {
    let g = &*c.g;
    let n = g.n() as u32;
    let k = r.range(2, 4);
    let d = g.adj.iter().map(Vec::len).max().unwrap_or(0);
    let orders: Vec<Vec<Vec<usize>>> = (0..k).map(|p| (0..=d).map(|m| {
        let mut o: Vec<usize> = (0..m).collect();
        match r.below(4) {
            _ if p == 0 => {},
            0 => o.rotate_left(usize::from(m > 1)),
            1 => for i in (1..m).rev() { o.swap(i, r.below(i + 1)); },
            _ => o.reverse(),
        }
        o
    }).collect()).collect();
    // The position a child is met at: from that of its parent and the index.
    let even = r.chance(1, 3);
    let to: Vec<Vec<usize>> = (0..k).map(|p| (0..d).map(|_| if even { (p + 1) % k } else { r.below(k) }).collect()).collect();
    let t = Graph {
        lab: (0..k).flat_map(|_| g.lab.iter().copied()).collect(),
        adj: (0..k).flat_map(|p| {
            let (orders, to) = (&orders, &to);
            g.adj.iter().map(move |l| (0..l.len()).map(|i| l[orders[p][l.len()][i]] + n * to[p][i] as u32).collect())
        }).collect(),
    };
    let mut keep = reach(&t, &[c.a as u32, c.b as u32]);
    keep.sort_unstable();
    for i in (1..keep.len()).rev() { keep.swap(i, r.below(i + 1)); }
    let mut map = vec![0u32; t.n() + 1];
    for (i, &x) in keep.iter().enumerate() { map[x as usize] = i as u32 + 1; }
    let mut first = vec![0u32; n as usize];
    let ids: Vec<u32> = keep.iter().map(|&x| {
        let f = &mut first[((x - 1) % n) as usize];
        if *f == 0 { *f = map[x as usize]; }
        *f
    }).collect();
    let h = Graph {
        lab: keep.iter().map(|&x| t.lab(x)).collect(),
        adj: keep.iter().map(|&x| t.adj[x as usize - 1].iter().map(|&y| map[y as usize]).collect()).collect(),
    };
    Case { ids: Rc::new(ids), ..case(h, map[c.a as usize], map[c.b as usize], c.tag) }
}

pub fn distinct(cases: &[Case]) -> usize {
    cases.iter().map(|c| ((*c.g).clone(), c.a, c.b)).collect::<HashSet<_>>().len()
}
