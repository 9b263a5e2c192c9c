//! Families of graphs of any size, and endless ones, given by rules.
//!
//! Arguments: size=N (largest), only=families (comma separated), reps=K.

use super::*;
use crate::variants::*;
use std::cmp::Ordering;
use std::rc::Rc;

/* Every node is 2 * x + side, the sides being disjoint copies unless said otherwise. */

/// Levels 0..n; of the w edges of a level, the p-th goes on and the others end at leaves.
pub struct Chain { pub n: u64, pub w: u64, pub p: u64, pub differ: bool }
impl Rule for Chain {
    fn lab(&self, id: u64) -> u32 { u32::from(self.differ && id == 2 * ((self.n - 1) * (self.w + 1)) + 1) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s, i) = (id / 2, id % 2, i as u64);
        let (lv, j) = (x / (self.w + 1), x % (self.w + 1));
        if j != 0 || lv + 1 >= self.n || i >= self.w { return None; }
        Some(2 * (if i == self.p { (lv + 1) * (self.w + 1) } else { lv * (self.w + 1) + 1 + i }) + s)
    }
}
/// All w edges of a level go to the next level; the last level goes to the first when cyclic.
pub struct Degen { pub n: u64, pub w: u64, pub cyclic: bool, pub differ: bool }
impl Rule for Degen {
    fn lab(&self, id: u64) -> u32 { u32::from(self.differ && id == 2 * (self.n - 1) + 1) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s) = (id / 2, id % 2);
        if i as u64 >= self.w { return None; }
        if x + 1 < self.n { Some(2 * (x + 1) + s) } else if self.cyclic { Some(s) } else { None }
    }
}
/// A cycle of n and one of w nodes, each node with two edges to the next.
pub struct Cycles { pub n: u64, pub w: u64, pub differ: bool }
impl Rule for Cycles {
    fn lab(&self, id: u64) -> u32 { u32::from(self.differ && id == 2 * (self.w - 1) + 1) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s) = (id / 2, id % 2);
        let len = if s == 0 { self.n } else { self.w };
        if i < 2 { Some(2 * ((x + 1) % len) + s) } else { None }
    }
}
/// n by n nodes, each with edges down and to the right.
pub struct Grid { pub n: u64, pub differ: bool }
impl Rule for Grid {
    fn lab(&self, id: u64) -> u32 { u32::from(self.differ && id == 2 * (self.n * self.n - 1) + 1) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s) = (id / 2, id % 2);
        let (r, c) = (x / self.n, x % self.n);
        let mut v = vec![];
        if r + 1 < self.n { v.push(x + self.n); }
        if c + 1 < self.n { v.push(x + 1); }
        v.get(i).map(|y| 2 * y + s)
    }
}
/// A complete tree of n nodes, w edges each, numbered level by level from 0.
pub struct Tree { pub n: u64, pub w: u64, pub differ: bool }
impl Rule for Tree {
    fn lab(&self, id: u64) -> u32 { u32::from(self.differ && id == 2 * (self.n - 1) + 1) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s) = (id / 2, id % 2);
        if i as u64 >= self.w { return None; }
        let y = x * self.w + 1 + i as u64;
        if y < self.n { Some(2 * y + s) } else { None }
    }
}
/// The same with two differences, at nodes p and q.
pub struct Two { pub n: u64, pub w: u64, pub p: u64, pub q: u64, pub differ: bool }
impl Rule for Two {
    fn lab(&self, id: u64) -> u32 { u32::from(self.differ && (id == 2 * self.q + 1 || id == 2 * self.p + 1)) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> { Tree { n: self.n, w: self.w, differ: true }.edge(id, i) }
}
/// Two roots of n nodes of w leaves each, with differences at nodes p and q.
pub struct Fan { pub n: u64, pub w: u64, pub p: u64, pub q: u64, pub differ: bool }
impl Rule for Fan {
    fn lab(&self, id: u64) -> u32 { u32::from(self.differ && (id == 2 * self.q + 1 || id == 2 * self.p + 1)) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s, i) = (id / 2, id % 2, i as u64);
        if x == 0 { (i < self.n).then_some(2 * (i + 1) + s) }
        else if x <= self.n { (i < self.w).then_some(2 * (self.n + (x - 1) * self.w + i + 1) + s) }
        else { None }
    }
}
/// Two roots of n chains of 1 + w nodes each, the p-th (from 1) with q more.
pub struct Broom { pub n: u64, pub w: u64, pub p: u64, pub q: u64, pub differ: bool }
impl Rule for Broom {
    fn lab(&self, id: u64) -> u32 {
        let end = if self.q > 0 { self.n + self.n * self.w + self.q } else if self.w > 0 { self.n + self.p * self.w } else { self.p };
        u32::from(self.differ && id == 2 * end + 1)
    }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let Broom { n, w, p, q, .. } = *self;
        let (x, s, i) = (id / 2, id % 2, i as u64);
        let more = n + n * w;
        if x == 0 { return (i < n).then_some(2 * (i + 1) + s); }
        if i > 0 { return None; }
        let y = if x > more { (x < more + q).then_some(x + 1) } else {
            let (chain, at) = if x <= n { (x, 0) } else { ((x - n - 1) / w + 1, (x - n - 1) % w + 1) };
            if at < w { Some(n + (chain - 1) * w + at + 1) } else { (chain == p && q > 0).then_some(more + 1) }
        };
        y.map(|y| 2 * y + s)
    }
}
/// Two roots of n leaves each.
pub struct Wide { pub n: u64, pub differ: bool }
impl Rule for Wide {
    fn lab(&self, id: u64) -> u32 { u32::from(self.differ && id == 2 * self.n + 1) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        if id < 2 && (i as u64) < self.n { Some(2 * (i as u64 + 1) + id) } else { None }
    }
}
/// A chain of p nodes, then one of n leaves on the left and of w on the right.
pub struct Uneven { pub n: u64, pub w: u64, pub p: u64 }
impl Rule for Uneven {
    fn lab(&self, _: u64) -> u32 { 0 }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s, i) = (id / 2, id % 2, i as u64);
        let many = if x < self.p { 1 } else if x > self.p { 0 } else if s == 0 { self.n } else { self.w };
        (i < many).then_some(2 * (x + 1 + i) + s)
    }
}
/// A ring of n nodes against an endless chain of ever-new nodes: the w-th of the chain differs.
pub struct Unroll { pub n: u64, pub w: u64 }
impl Rule for Unroll {
    fn lab(&self, id: u64) -> u32 { u32::from(id == 2 * self.w + 1) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s) = (id / 2, id % 2);
        if i > 0 { return None; }
        Some(if s == 0 { 2 * ((x + 1) % self.n) } else { 2 * (x + 1) + 1 })
    }
}

#[derive(Clone, Copy)]
enum Go { V(Variant), L(LimVariant, u128) }

struct Job { fam: &'static str, n: u64, w: u64, p: u64, q: u64, differ: bool, go: Go, small: bool }

fn rule(j: &Job) -> Rc<dyn Rule> {
    let Job { n, w, p, q, differ, .. } = *j;
    match j.fam {
        "chain" => Rc::new(Chain { n, w, p, differ }),
        "degen" => Rc::new(Degen { n, w, cyclic: false, differ }),
        "ring" => Rc::new(Degen { n, w, cyclic: true, differ }),
        "cycles" => Rc::new(Cycles { n, w, differ }),
        "grid" => Rc::new(Grid { n, differ }),
        "tree" => Rc::new(Tree { n, w, differ }),
        "two" => Rc::new(Two { n, w, p, q, differ }),
        "fan" => Rc::new(Fan { n, w, p, q, differ }),
        "broom" => Rc::new(Broom { n, w, p, q, differ }),
        "unroll" => Rc::new(Unroll { n, w }),
        "uneven" => Rc::new(Uneven { n, w, p }),
        _ => Rc::new(Wide { n, differ }),
    }
}

fn go(j: &Job, rng: RngMode, level: u8, bomb: u64) -> Run {
    let (fam, n, w) = (j.fam, j.n.max(1), j.w);
    let per = match fam { "chain" => w, "degen" | "ring" => w * w, "fan" => w + 4, "broom" => w + 4 + j.q / n, "uneven" => w / n + j.p / n + 4, _ => 4 };
    let budget = 4000 * (per * n * if fam == "grid" { n } else { 1 } + w + 1000).min(1 << 40);
    let rng = std::sync::Mutex::new(Some(rng));
    let work = || {
        // Whatever a thread makes once is there before anything is measured.
        set_rule(Rc::new(Chain { n: 3, w: 2, p: 0, differ: false }));
        set_rng(RngMode::Max);
        let _ = match j.go {
            Go::V(v) => observe(budget, 0, || (v.run)(0, 1)),
            Go::L(v, l) => observe(budget, 0, || (v.run)(l, 0, 1)),
        };
        set_rule(rule(j));
        set_rng(rng.lock().unwrap().take().unwrap());
        BOMB.with(|b| b.set(bomb));
        match j.go {
            Go::V(v) => observe(budget, level, || (v.run)(0, 1)),
            Go::L(v, l) => observe(budget, level, || (v.run)(l, 0, 1)),
        }
    };
    let work = || { let r = work(); BOMB.with(|b| b.set(0)); r };
    if j.small {
        // On a stack that nothing growing with the graph can live on.
        std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, work).unwrap().join().unwrap())
    } else { work() }
}

fn uneven(r: &mut R) -> (u64, u64) {
    let n = match r.below(6) {
        0 => r.range(254, 257) as u64,
        1 => (1u64 << r.range(0, 17)) - 1,
        2 => ((1 << r.range(1, 17)) + r.below(4) as u64) - 2,
        3 => 256 * r.range(1, 10) as u64 - 1,
        4 => 65_535,
        _ => r.below(2000) as u64,
    };
    let off = [1, 1, 1, 2, 255, 256, 257, 65_535, 65_536, 1 + r.below(1000) as u64, 0][r.below(11)];
    if r.chance(1, 2) { (n, n + off) } else { (n + off, n) }
}

fn lazy(v: &Variant) -> bool { v.recur != "call" && (!v.pre || v.prerecur != "call") }

pub fn run(io: &Io) {
    let mut r = R::new(io.seed ^ 0xfa41);
    let size = io.num("size", 100_000) as u64;
    let only = io.arg("only").map(|s| s.split(',').map(str::to_string).collect::<Vec<_>>());
    let wanted = |f: &str| only.as_ref().is_none_or(|o| o.iter().any(|x| x == f));
    let (shard, shards) = (io.num("shard", 0), io.num("shards", 1));
    let mut cyc: Vec<Variant> = premade::<Rich>();
    cyc.extend(premade::<bool>());
    cyc.extend(premade::<Ordering>());
    cyc.extend(interleaved::<Rich>().into_iter().filter(|v| v.f < 100));
    cyc.extend(tabled::<Rich>().into_iter().filter(|v| !v.name.starts_with("list")));
    cyc.extend(byhand::<Rich>());
    if only.as_ref().is_none_or(|o| o.iter().any(|x| x == "prechecks")) { cyc.extend(long_prechecks::<Rich>()); }
    let mut simp: Vec<Variant> = simple::<Rich>();
    simp.extend(simple::<bool>());
    let lims = limited::<Rich>();
    let mut jobs: Vec<Job> = vec![];
    for rep in 0..io.num("reps", 1) {
        // lazy ones go anywhere; the call-stack only where it is shallow
        let mut deepv: Vec<Go> = vec![];
        for v in cyc.iter().chain(&simp).filter(|v| lazy(v)) { deepv.push(Go::V(*v)); }
        let mut anyv: Vec<Go> = deepv.clone();
        for v in cyc.iter().chain(&simp).filter(|v| !lazy(v)) { anyv.push(Go::V(*v)); }
        for (k, g) in anyv.iter().enumerate() {
            let Go::V(v) = *g else { continue };
            let lz = lazy(&v);
            let big = |r: &mut R, top: u64| if lz { r.range(top as usize / 2, top as usize) as u64 } else { r.range(300, 3000) as u64 };
            let fast = if v.f >= 100 { 1 } else { 4 };  // default limits do more work per node
            if wanted("chain") {
                let w = r.range(1, 3) as u64;
                let n = if lz && (k + rep) % 3 == 0 { r.range(66_000, 80_000.max(size as usize)) as u64 } else { big(&mut r, size) };
                jobs.push(Job { fam: "chain", n, w, p: [w - 1, 0, r.below(w as usize) as u64][(k + rep) % 3], q: 0, differ: r.chance(1, 3), go: *g, small: lz });
                if rep % 2 == k % 2 {
                    // wide ones in a row
                    let w = r.range(250, 3000) as u64;
                    jobs.push(Job { fam: "chain", n: r.range(2, (size / w).max(4) as usize) as u64, w, p: r.below(w as usize) as u64, q: 0, differ: r.chance(1, 3), go: *g, small: lz });
                }
                // about where the precheck ends
                let t = u64::from(v.p) + r.below(3) as u64;
                jobs.push(Job { fam: "chain", n: t.max(1), w: 1, p: 0, q: 0, differ: r.chance(1, 2), go: *g, small: lz });
            }
            if wanted("wide") {
                jobs.push(Job { fam: "wide", n: if r.chance(1, 3) { r.range(250, 70_000) } else { r.range(66_000, 140_000.max(size as usize)) } as u64, w: 0, p: 0, q: 0, differ: r.chance(1, 2), go: *g, small: lz });
            }
            if wanted("prechecks") && v.pre && v.p > 2000 {
                let t = u64::from(v.p) + r.below(4) as u64 - 1;
                jobs.push(Job { fam: "wide", n: t - 1, w: 0, p: 0, q: 0, differ: r.chance(1, 2), go: *g, small: lz });
                let n = r.range(100, 300) as u64;
                jobs.push(Job { fam: "fan", n: (t - 1) / n, w: n - 1, p: 1, q: 1, differ: r.chance(1, 2), go: *g, small: lz });
                jobs.push(Job { fam: "uneven", n: t, w: t - 2 + r.below(3) as u64, p: 0, q: 0, differ: true, go: *g, small: lz });
                let mut late = Job { fam: "chain", n: t / 3 + r.below(3) as u64, w: 3, p: r.below(3) as u64, q: 0, differ: r.chance(1, 2), go: *g, small: lz };
                if r.chance(1, 2) { late.n = t / 2; late.w = 2; late.p %= 2; }
                jobs.push(late);
            }
            if wanted("tree") {
                jobs.push(Job { fam: "tree", n: r.range(size as usize / 4, size as usize / 2) as u64, w: r.range(2, 9) as u64, p: 0, q: 0, differ: r.chance(1, 3), go: *g, small: lz });
                let t = u64::from(v.p) + r.below(3) as u64;
                jobs.push(Job { fam: "tree", n: t.max(1), w: r.range(1, 5) as u64, p: 0, q: 0, differ: r.chance(1, 2), go: *g, small: lz });
            }
            if wanted("two") {
                for _ in 0..2 {
                    let top = if r.chance(1, 3) { 300 } else { size as usize / 2 };
                    let n = r.range(2, top) as u64;
                    let w = r.range(2, 9) as u64;
                    let mut p = r.below(n as usize) as u64;
                    let mut q = n - 1;
                    // in the leftmost path, or with the last level
                    match r.below(3) {
                        0 => { p = 0; while p * w + 1 < n && r.chance(9, 10) { p = p * w + 1; } },
                        1 => p = (n - 1).saturating_sub(r.below(n as usize / 2 + 1) as u64),
                        _ => (),
                    }
                    if r.chance(1, 2) { q = r.below(n as usize) as u64; }
                    jobs.push(Job { fam: "two", n, w, p, q, differ: !r.chance(1, 8), go: *g, small: lz });
                }
            }
            if wanted("fan") {
                // more pending at once than 8, 12 and 16 bits count
                let n = match (k + rep) % 4 { 0 => r.range(1, 300), 1 => r.range(66_000, 72_000), _ => r.range(4_200, size as usize / 2) } as u64;
                let w = if n > 60_000 { 1 } else { r.range(1, 3) as u64 };
                // a leaf of one of the last
                let late = |r: &mut R| { let c = n - r.below((n / 16 + 1) as usize) as u64; n + c * w - r.below(w as usize) as u64 };
                let some = |r: &mut R| match r.below(7) {
                    5 | 6 => late(r),
                    0 => 1 + r.below(n as usize) as u64,
                    1 => n,
                    2 => n + n * w,
                    3 => n + 1 + r.below((n * w) as usize) as u64,
                    _ => n + 1 + r.below(w as usize * 3.min(n as usize)) as u64,
                };
                let p = some(&mut r);
                let q = if r.chance(1, 2) { p } else { some(&mut r) };
                jobs.push(Job { fam: "fan", n, w, p, q, differ: !r.chance(1, 8), go: *g, small: lz });
            }
            if wanted("broom") {
                // wide, and somewhere in it deep
                let n = match (k + rep) % 5 { 0 => r.range(1, 20), 1 => r.range(66_000, 72_000), 2 => r.range(250, 1100), _ => r.range(4_100, size as usize / 4) } as u64;
                let w = if n > 60_000 { 0 } else { r.below(4) as u64 };
                let p = if r.chance(1, 3) { n } else { 1 + r.below(n as usize) as u64 };
                let q = if r.chance(1, 4) { r.below(3) as u64 } else { big(&mut r, size) };
                jobs.push(Job { fam: "broom", n, w, p, q, differ: r.chance(1, 2), go: *g, small: lz });
            }
            if wanted("uneven") {
                // as many edges as 8, 12, 15 and 16 bits count, and one more or fewer
                for _ in 0..2 {
                    let (n, w) = uneven(&mut r);
                    let p = match r.below(4) { 0 => r.below(400) as u64, 1 => u64::from(v.p).saturating_sub(n.min(w)).min(3000), _ => 0 };
                    jobs.push(Job { fam: "uneven", n, w, p, q: 0, differ: n != w, go: *g, small: lz });
                }
            }
            if wanted("unroll") {
                let t = u64::from(v.p);
                let m = if lz { size / 10 } else { 2000 };
                jobs.push(Job { fam: "unroll", n: r.range(1, 50) as u64, w: [t, t + 1, t.saturating_sub(1), m, 0][r.below(5)], p: 0, q: 0, differ: true, go: *g, small: lz });
                jobs.push(Job { fam: "unroll", n: r.range(1, 50) as u64, w: m, p: 0, q: 0, differ: true, go: *g, small: lz });
            }
            if v.descend == "interleave" {
                if wanted("degen") { jobs.push(Job { fam: "degen", n: big(&mut r, size / 16 * fast), w: r.range(2, 4) as u64, p: 0, q: 0, differ: r.chance(1, 3), go: *g, small: lz }); }
                if wanted("ring") { jobs.push(Job { fam: "ring", n: big(&mut r, size / 16 * fast), w: r.range(1, 4) as u64, p: 0, q: 0, differ: r.chance(1, 3), go: *g, small: lz }); }
                if wanted("ring") && lz && k % 5 == rep % 5 {
                    // more of them recorded than 16 bits count
                    jobs.push(Job { fam: "ring", n: r.range(66_000, 90_000) as u64, w: r.range(1, 2) as u64, p: 0, q: 0, differ: r.chance(1, 3), go: *g, small: lz });
                }
                if wanted("cycles") {
                    let (a, b) = if lz { (r.range(2, size as usize / 40) as u64, r.range(2, size as usize / 40) as u64) } else { (r.range(2, 300) as u64, r.range(2, 300) as u64) };
                    jobs.push(Job { fam: "cycles", n: a, w: b, p: 0, q: 0, differ: r.chance(1, 3), go: *g, small: lz });
                }
                if wanted("grid") {
                    let top = ((size / 40 * fast) as f64).sqrt() as usize;
                    jobs.push(Job { fam: "grid", n: if lz { r.range(top / 2, top) } else { r.range(5, 20) } as u64, w: 0, p: 0, q: 0, differ: r.chance(1, 3), go: *g, small: lz });
                }
            }
        }
        if wanted("limited") {
            for v in &lims {
                let lz = v.recur != "call";
                for _ in 0..2 {
                    let mut n = if lz { r.range(size as usize / 2, size as usize) } else { r.range(100, 3000) } as u64;
                    if r.chance(1, 3) || v.max < u128::from(n) { n = n.min(if v.max == 255 { r.range(250, 260) as u64 } else if v.max == 65535 { r.range(65530, 65540) as u64 } else { n }); }
                    if !lz { n = n.min(3000); }
                    let l = [u128::from(n), u128::from(n) - 1, u128::from(n) + 1, v.max, v.max - 1][r.below(5)].min(v.max);
                    jobs.push(Job { fam: "chain", n, w: 1, p: 0, q: 0, differ: r.chance(1, 3), go: Go::L(*v, l), small: lz });
                }
                let (n, w) = uneven(&mut r);
                let total = u128::from(1 + n.min(w));
                let l = [total, total - 1, total + 1, v.max][r.below(4)].min(v.max);
                jobs.push(Job { fam: "uneven", n, w, p: 0, q: 0, differ: n != w, go: Go::L(*v, l), small: lz });
                let n = match v.max { 255 => r.range(250, 260) as u64, 65535 => r.range(65530, 65540) as u64, _ => r.range(66_000, 140_000.max(size as usize)) as u64 };
                let l = [u128::from(n), u128::from(n) + 1, u128::from(n) + 2][r.below(3)].min(v.max);
                jobs.push(Job { fam: "wide", n, w: 0, p: 0, q: 0, differ: r.chance(1, 3), go: Go::L(*v, l), small: lz });
            }
        }
    }
    let bombs = io.num("bombs", 0) > 0;
    let mut f = io.file("families.ndjson");
    let (mut cmps, mut largest) = (0u64, 0u64);
    let mut count = 0;
    for (i, j) in jobs.iter().enumerate() {
        if i % shards != shard { continue; }
        let (name, kind, recur, descend, pre, prerecur, p, ff, s, lim) = match j.go {
            Go::V(v) => (v.name, v.kind, v.recur, v.descend, v.pre, v.prerecur, v.p, v.f, v.s, 0),
            Go::L(v, l) => (v.name, v.kind, v.recur, "limited", false, v.recur, 0, 0, 1, l.min(2_000_000_000)),
        };
        io.crumb(&format!("{{\"family\":\"{}\",\"n\":{},\"w\":{},\"p\":{},\"q\":{},\"differ\":{},\"variant\":\"{name}\",\"limit\":{lim}}}", j.fam, j.n, j.w, j.p, j.q, j.differ));
        let rng = match i % 5 { 0 => RngMode::Zero, 1 => RngMode::Max, _ => RngMode::Rand(r.next()) };
        // panicking somewhere in the middle
        let bomb = if bombs && i % 3 == 0 { 1 + r.below([10, 500, 20_000][i / 3 % 3]) as u64 } else { 0 };
        let rr = go(j, rng, 0, bomb);
        cmps += rr.cmps;
        largest = largest.max(j.n);
        count += 1;
        writeln!(f, "{{\"fam\":\"{}\",\"n\":{},\"w\":{},\"p\":{},\"q\":{},\"differ\":{},\"name\":\"{name}\",\"kind\":\"{kind}\",\"recur\":\"{recur}\",\"descend\":\"{descend}\",\"pre\":{pre},\"prerecur\":\"{prerecur}\",\"P\":{p},\"F\":{ff},\"S\":{s},\"lim\":{lim},\"out\":{},\"cmps\":{},\"edges\":{},\"live\":{},\"leaked\":{},\"stk\":{},\"heap\":{},\"kept\":{}}}",
            j.fam, j.n, j.w, j.p, j.q, j.differ, rr.out.json(), rr.cmps.min(2_000_000_000), rr.edges.min(2_000_000_000), rr.maxlive, rr.leaked, rr.maxstk, rr.maxheap.min(2_000_000_000), rr.keptheap.clamp(-2_000_000_000, 2_000_000_000)).unwrap();
    }
    io.stats(&[("comparisons", count.to_string()), ("own_values_compared", cmps.to_string()), ("largest_n", format!("\"{largest}\""))]);
}

/* ---- endless ----------------------------------------------------------------------------- */

/// An endless tree of k edges each, numbered level by level from 0.  The d-th node of the right
/// side has another label (how = 0), an edge fewer (1), one more (2), or none (3).
struct EndlessTree { k: u64, d: u64, how: u8 }
impl Rule for EndlessTree {
    fn lab(&self, id: u64) -> u32 { u32::from(self.how == 0 && id == 2 * self.d + 1) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s, i) = (id / 2, id % 2, i as u64);
        let k = if id == 2 * self.d + 1 { match self.how { 1 => self.k - 1, 2 => self.k + 1, 3 => 0, _ => self.k } } else { self.k };
        if i >= k { return None; }
        // Ids stay unique for as deep as anyone may get.
        Some(x.checked_mul(self.k)?.checked_add(1 + i)?.checked_mul(2)? + s)
    }
}
/// Levels 0, 1, ... without end; each level has q leaves, an edge to the next level, and one to
/// an endless side chain.  The leaf j of level d of the right side differs.
struct EndlessComb { q: u64, d: u64, j: u64 }
const W: u64 = 16;
impl Rule for EndlessComb {
    fn lab(&self, id: u64) -> u32 { u32::from(id == 2 * (self.d * W + 1 + self.j) + 1) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s, i) = (id / 2, id % 2, i as u64);
        let (lv, j) = (x / W, x % W);
        if j >= 1 && j <= self.q { return None; }
        if j == 0 {
            if i < self.q { return Some(2 * (lv * W + 1 + i) + s); }
            if i == self.q { return Some(2 * ((lv + 1) * W) + s); }
            if i == self.q + 1 { return Some(2 * (lv * W + 15) + s); }
            return None;
        }
        // the endless side chain
        if i == 0 { Some(2 * ((lv + 1) * W + 15) + s) } else { None }
    }
}
/// A root of endlessly many nodes, each again so; the d-th differs.
struct EndlessWide { d: u64 }
impl Rule for EndlessWide {
    fn lab(&self, id: u64) -> u32 { u32::from(id == 2 * (self.d + 1) + 1) }
    fn edge(&self, id: u64, i: usize) -> Option<u64> {
        let (x, s) = (id / 2, id % 2);
        Some(2 * ((x << 24) + i as u64 + 1) + s)
    }
}

struct Case0 { fam: &'static str, k: u64, d: u64, j: u64, how: u8 }

pub fn endless(io: &Io) {
    let mut r = R::new(io.seed ^ 0xe4d);
    let size = io.num("size", 2000);
    let (shard, shards) = (io.num("shard", 0), io.num("shards", 1));
    let mut vs: Vec<Go> = vec![];
    for v in premade::<Rich>().into_iter().chain(simple::<Rich>()).chain(interleaved::<Rich>()).chain(tabled::<Rich>()).chain(byhand::<Rich>()) { vs.push(Go::V(v)); }
    for v in limited::<Rich>() { vs.push(Go::L(v, 0)); }
    let mut f = io.file("endless.ndjson");
    let (mut n, mut cmps) = (0, 0u64);
    for rep in 0..io.num("reps", 1) {
        for (i, g0) in vs.iter().enumerate() {
            if (i + rep * vs.len()) % shards != shard { continue; }
            let (recur, prerecur, pre, p) = match g0 {
                Go::V(v) => (v.recur, v.prerecur, v.pre, u64::from(v.p)),
                Go::L(v, _) => (v.recur, v.recur, false, 0),
            };
            let bf = recur == "queue";
            let prebf = pre && prerecur == "queue";
            // where phases end, near the start, anywhere
            let near = |r: &mut R, top: usize| match r.below(3) { 0 => r.below(12) as u64, 1 => (p + r.below(4) as u64).saturating_sub(2), _ => r.below(top) as u64 };
            let mut cases: Vec<Case0> = vec![];
            // A depth-first precheck of a breadth-first comparison gets P levels deep.
            let deep = pre && bf && !prebf;
            let k = if deep && p > 8 { 1 } else { r.range(1, 4) as u64 };
            let path = |r: &mut R| {
                let top = if k == 1 { 1500 } else { 20 };
                let mut x = 0u64;
                for _ in 0..near(r, top).min(if k == 1 { 1500 } else { 13 }) { x = x * k + 1; }
                x
            };
            if bf {
                let how = if k == 1 { [0, 2, 3][r.below(3)] } else { r.below(4) as u8 };
                let d = if deep && r.chance(1, 2) { path(&mut r) } else { near(&mut r, size) };
                cases.push(Case0 { fam: "tree", k, d: d.min(20_000), j: 0, how });
                if !deep { cases.push(Case0 { fam: "wide", k: 0, d: near(&mut r, size * 3), j: 0, how: 0 }); }
            } else {
                cases.push(Case0 { fam: "tree", k, d: path(&mut r), j: 0, how: [0, 3][r.below(2)] });
                cases.push(Case0 { fam: "wide", k: 0, d: 0, j: 0, how: 0 });
            }
            let q = r.range(1, 5) as u64;
            let j = r.below(q as usize) as u64;
            let d = if bf { near(&mut r, 40).min(45) } else { near(&mut r, size / 4).min(450) };
            cases.push(Case0 { fam: "comb", k: q, d, j, how: 0 });
            for Case0 { fam, k, d, j, how } in cases {
                let rl: Rc<dyn Rule> = match fam {
                    "tree" => Rc::new(EndlessTree { k, d, how }),
                    "comb" => Rc::new(EndlessComb { q: k, d, j }),
                    _ => Rc::new(EndlessWide { d }),
                };
                let mut g = *g0;
                if let Go::L(v, l) = &mut g {
                    *l = [90_000, u128::from(d) + r.below(4) as u128, r.below(30) as u128, v.max][r.below(4)].min(v.max).min(90_000);
                }
                let (name, lim, limited) = match g { Go::V(v) => (v.name, 0, false), Go::L(v, l) => (v.name, l, true) };
                let inter = matches!(g, Go::V(v) if v.descend == "interleave");
                io.crumb(&format!("{{\"endless\":\"{fam}\",\"k\":{k},\"d\":{d},\"j\":{j},\"how\":{how},\"variant\":\"{name}\",\"limit\":{lim}}}"));
                set_rule(rl);
                set_rng(RngMode::Rand(r.next()));
                // Ends those that would not.
                let b = 2_000_000;
                let rr = match g { Go::V(v) => observe(b, 2, || (v.run)(0, 1)), Go::L(v, l) => observe(b, 2, || (v.run)(l, 0, 1)) };
                cmps += rr.cmps;
                // The nodes compared, in runs of consecutive numbers, and the nodes asked for edges.
                let mut runs: Vec<(u64, u64)> = vec![];
                let (mut odd, mut asked) = (0, 0u64);
                let mut seen = std::collections::HashSet::new();
                for e in &rr.log {
                    match e {
                        Ev::Cmp { a, b, .. } => {
                            if a + 1 != *b || a % 2 != 0 { odd += 1; }
                            seen.insert(a / 2);
                            let x = a / 2;
                            match runs.last_mut() { Some((s, n)) if *s + *n == x => *n += 1, _ => runs.push((x, 1)) }
                        },
                        Ev::Edge { a, .. } => {
                            if !seen.contains(&(a / 2)) { odd += 1; }
                            asked = asked.max(a / 2);
                        },
                        _ => (),
                    }
                }
                let total = runs.len();
                runs.truncate(5000);
                let rs: Vec<String> = runs.iter().map(|(s, n)| format!("[{},{}]", (*s).min(2_000_000_000), n)).collect();
                writeln!(f, "{{\"fam\":\"{fam}\",\"k\":{k},\"d\":{},\"j\":{j},\"how\":{how},\"name\":\"{name}\",\"bf\":{bf},\"prebf\":{prebf},\"inter\":{inter},\"pre\":{pre},\"P\":{p},\"limited\":{limited},\"lim\":{lim},\"out\":{},\"nruns\":{total},\"runs\":[{}],\"odd\":{odd},\"asked\":{},\"leaked\":{}}}",
                    d.min(1_000_000_000), rr.out.json(), rs.join(","), asked.min(2_000_000_000), rr.leaked).unwrap();
                n += 1;
            }
        }
    }
    io.stats(&[("comparisons", n.to_string()), ("own_values_compared", cmps.to_string())]);
}
