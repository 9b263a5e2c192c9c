//! The slow-phase memory under our own sequences of pairs, with the table's inside visible.
//!
//! Arguments: exh=1 (all short sequences), rand=K, max=M (nodes), ops=N, big=N (nodes of big ones).

use super::*;
use crate::gen::{order, ORDERS};
use crate::variants::{ArcRc, EA, MCall, N};
use core::cell::{Cell, RefCell};
use core::marker::PhantomData;
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::generic::equiv::DescendMode;
use graph_safe_compare::generic::equiv_classes::{self, premade::rc::Rc as PremadeRc, Class, Table};
use std::collections::{BTreeMap, HashMap};

thread_local! {
    static DEREFS: Cell<u64> = const { Cell::new(0) };
    static INSERTED: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static PREM: RefCell<HashMap<u64, PremadeRc>> = RefCell::new(HashMap::new());
    static ARCS: RefCell<HashMap<u64, CountRc>> = RefCell::new(HashMap::new());
}

/// Counts how often a class is followed.
#[derive(Clone)]
pub struct CountRc(std::sync::Arc<Cell<Class<Self>>>);
impl core::ops::Deref for CountRc {
    type Target = Cell<Class<Self>>;
    fn deref(&self) -> &Self::Target { DEREFS.with(|d| d.set(d.get() + 1)); &self.0 }
}
impl equiv_classes::Rc for CountRc { fn new(v: Cell<Class<Self>>) -> Self { Self(std::sync::Arc::new(v)) } }

pub trait Peek: equiv_classes::Rc + 'static {
    const NAME: &'static str;
    fn note(k: u64, v: &Self);
    fn noted() -> HashMap<u64, Self>;
    fn forget();
}
impl Peek for PremadeRc {
    const NAME: &'static str = "premade";
    fn note(k: u64, v: &Self) { PREM.with(|m| { m.borrow_mut().insert(k, v.clone()); }) }
    fn noted() -> HashMap<u64, Self> { PREM.with(|m| m.borrow().clone()) }
    fn forget() { PREM.with(|m| m.borrow_mut().clear()) }
}
impl Peek for CountRc {
    const NAME: &'static str = "custom";
    fn note(k: u64, v: &Self) { ARCS.with(|m| { m.borrow_mut().insert(k, v.clone()); }) }
    fn noted() -> HashMap<u64, Self> { ARCS.with(|m| m.borrow().clone()) }
    fn forget() { ARCS.with(|m| m.borrow_mut().clear()) }
}

pub struct PeekTable<R>(HashMap<u64, R>);
impl<R: Peek> Default for PeekTable<R> { fn default() -> Self { Self(HashMap::new()) } }
impl<R: Peek> Table for PeekTable<R> {
    type Node = N<bool>;
    type Rc = R;
    fn get(&self, k: &Nid) -> Option<&R> { self.0.get(&k.0) }
    fn insert(&mut self, k: Nid, v: R) {
        INSERTED.with(|i| i.borrow_mut().push(k.0));
        R::note(k.0, &v);
        self.0.insert(k.0, v);
    }
}
pub struct CP<R>(PhantomData<R>);
impl<R: Peek> interleave::Params for CP<R> {
    const PRECHECK_LIMIT: u16 = 1;
    const FAST_LIMIT_MAX: u16 = 0;
    const SLOW_LIMIT: u16 = 65535;
    type Node = N<bool>;
    type RNG = Script;
    type Table = PeekTable<R>;
}

fn follow<R: Peek>(it: &R) -> (usize, usize) {
    let mut cur = it.clone();
    let mut n = 0;
    loop {
        let inner = cur.replace(Class::default());
        let next = match &inner { Class::Link { next, .. } => Some(next.clone()), _ => None };
        cur.set(inner);
        match next {
            Some(x) => { n += 1; cur = x; },
            None => { let p: &Cell<Class<R>> = &cur; return (p as *const _ as usize, n) },
        }
        if n > 3_000_000 { return (0, n) }
    }
}

/// (class number of each node, 0: unseen; chain length)
fn shape<R: Peek>(n: u64) -> Vec<(u32, usize)> {
    let m = R::noted();
    let mut num: HashMap<usize, u32> = HashMap::new();
    (1..=n).map(|x| match m.get(&x) {
        None => (0, 0),
        Some(c) => {
            let (p, len) = follow(c);
            (*num.entry(p).or_insert(x as u32), len)
        },
    }).collect()
}

struct M<R: Peek> { m: Interleave<CP<R>>, nodes: Vec<N<bool>> }
impl<R: Peek> M<R> {
    fn new(n: u64) -> Self {
        R::forget();
        Self { m: Interleave::default(), nodes: (0..=n).map(N::<bool>::root).collect() }
    }
    /// Whether to descend, i.e. not known yet.  Nothing if it panics.
    fn op(&mut self, a: u64, b: u64) -> Option<bool> {
        let (m, x, y) = (&mut self.m, &self.nodes[a as usize], &self.nodes[b as usize]);
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            match <Interleave<CP<R>> as DescendMode<EA<bool, CP<R>, MCall>>>::do_edges(m, x, y) { Ok(v) => v, Err(e) => match e {} }
        })).ok()
    }
}

fn small<R: Peek>(f: &mut impl Write, n: u64, ops: &[(u64, u64)]) {
    let mut m = M::<R>::new(n);
    let mut out = vec![];
    for &(a, b) in ops {
        INSERTED.with(|i| i.borrow_mut().clear());
        let Some(r) = m.op(a, b) else { let z = vec!["0"; n as usize].join(","); out.push(format!("[{a},{b},2,[],[{z}],[{z}]]")); break };
        let ins: Vec<String> = INSERTED.with(|i| i.borrow().iter().map(u64::to_string).collect());
        let sh = shape::<R>(n);
        let cl: Vec<String> = sh.iter().map(|x| x.0.to_string()).collect();
        let ch: Vec<String> = sh.iter().map(|x| x.1.to_string()).collect();
        out.push(format!("[{a},{b},{},[{}],[{}],[{}]]", u8::from(r), ins.join(","), cl.join(","), ch.join(",")));
    }
    writeln!(f, "{{\"rc\":\"{}\",\"n\":{n},\"ops\":[{}]}}", R::NAME, out.join(",")).unwrap();
}

fn big<R: Peek>(f: &mut impl Write, r: &mut R2, name: &str, n: u64) {
    let ops = order(r, name, n);
    let mut m = M::<R>::new(n);
    let (mut new, mut hits, mut nops) = (0u64, 0u64, 0u64);
    DEREFS.with(|d| d.set(0));
    let mut worst: BTreeMap<usize, usize> = BTreeMap::new();
    let mut derefs = 0;
    let total = ops.len();
    let mut panics = 0u64;
    let mut count = |r: Option<bool>, new: &mut u64, hits: &mut u64| match r { Some(true) => *new += 1, Some(false) => *hits += 1, None => panics += 1 };
    for (i, &(a, b)) in ops.iter().enumerate() {
        count(m.op(a, b), &mut new, &mut hits);
        nops += 1;
        // Known pairs now and then, so that the slow phase goes on.
        if i % 997 == 0 { count(m.op(b, a), &mut new, &mut hits); nops += 1; }
        if i + 1 == total / 3 || i + 1 == total {
            derefs += DEREFS.with(Cell::get);
            let mut members: HashMap<u32, (usize, usize)> = HashMap::new();
            for (c, len) in shape::<R>(n) {
                if c != 0 { let e = members.entry(c).or_insert((0, 0)); e.0 += 1; e.1 = e.1.max(len); }
            }
            for (c, len) in members.values() { let e = worst.entry(*c).or_insert(0); *e = (*e).max(*len); }
            DEREFS.with(|d| d.set(0));
        }
        if i & 0xfff == 0 { PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
    }
    let again = n.min(3000);
    for _ in 0..again {
        let (a, b) = (1 + r.below(n as usize) as u64, 1 + r.below(n as usize) as u64);
        if a != b { count(m.op(a, b), &mut new, &mut hits); nops += 1; }
    }
    derefs += DEREFS.with(Cell::get);
    let mut roots: std::collections::HashSet<u32> = Default::default();
    let mut seen = 0u64;
    for (c, len) in shape::<R>(n) { if c != 0 { seen += 1; roots.insert(c); let e = worst.entry(n as usize).or_insert(0); *e = (*e).max(len); } }
    let w: Vec<String> = worst.iter().map(|(c, l)| format!("[{c},{l}]")).collect();
    writeln!(f, "{{\"rc\":\"{}\",\"name\":\"{name}\",\"n\":{n},\"ops\":{nops},\"new\":{new},\"hits\":{hits},\"seen\":{seen},\"classes\":{},\"worst\":[{}],\"steps\":{derefs},\"panics\":{panics}}}",
        R::NAME, roots.len(), w.join(",")).unwrap();
}
use crate::ctx::R as R2;

pub fn run(io: &Io) {
    let mut r = R2::new(io.seed ^ 0xc1a55);
    set_graph(&std::rc::Rc::new(Graph::default()));
    let mut f = io.file("classes.ndjson");
    let shard = io.num("shard", 0);
    let shards = io.num("shards", 1).max(1);
    let (mut seqs, mut nops) = (0usize, 0usize);
    if io.num("exh", 0) > 0 {
        // Every sequence of k pairs among n nodes (this shard's part of them).
        for (n, k) in [(3u64, io.num("exhk", 4)), (4, io.num("exhk", 4) - 1)] {
            let pairs: Vec<(u64, u64)> = (1..=n).flat_map(|a| (1..=n).filter(move |b| *b != a).map(move |b| (a, b))).collect();
            let total = pairs.len().pow(k as u32);
            for c in 0..total {
                if c % shards != shard { continue; }
                let mut cc = c;
                let ops: Vec<(u64, u64)> = (0..k).map(|_| { let p = pairs[cc % pairs.len()]; cc /= pairs.len(); p }).collect();
                if c % 2 == 0 { small::<PremadeRc>(&mut f, n, &ops) } else { small::<CountRc>(&mut f, n, &ops) }
                seqs += 1;
                nops += k;
            }
        }
    }
    let max = io.num("max", 16);
    for i in 0..io.count(io.num("rand", 300)) {
        let n = r.range(2, max) as u64;
        let mut ops = vec![];
        if i % 3 == 0 { let name = *r.pick(ORDERS); ops = order(&mut r, name, n); }
        let k = io.num("ops", 24);
        while ops.len() < k {
            let a = 1 + r.below(n as usize) as u64;
            let b = 1 + r.below(n as usize) as u64;
            if a != b { ops.push((a, b)); }
        }
        io.crumb(&format!("{{\"n\":{n},\"ops\":\"{ops:?}\"}}"));
        if r.chance(1, 2) { small::<PremadeRc>(&mut f, n, &ops) } else { small::<CountRc>(&mut f, n, &ops) }
        seqs += 1;
        nops += ops.len();
    }
    let mut fb = io.file("bigclasses.ndjson");
    let top = io.num("big", 0) as u64;
    let mut bigs = 0;
    if top > 0 {
        for (k, name) in ORDERS.iter().enumerate() {
            if k % shards != shard { continue; }
            for n in [7u64, 33, 200, 255, 256, 257, 300, 1024, 5000, top] {
                if n > top { continue; }
                io.crumb(&format!("{{\"order\":\"{name}\",\"n\":{n}}}"));
                big::<CountRc>(&mut fb, &mut r, name, n);
                big::<PremadeRc>(&mut fb, &mut r, name, n);
                bigs += 2;
            }
        }
    }
    let _ = ArcRc::clone;
    io.stats(&[("sequences", seqs.to_string()), ("pairs", nops.to_string()), ("big", bigs.to_string())]);
}
