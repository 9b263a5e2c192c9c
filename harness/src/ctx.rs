//! The instrumented user side: graphs, nodes, results, and everything that can be observed
//! through the public traits of the library.

use graph_safe_compare::{Cmp, Node};
#[cfg(not(feature = "anticipate"))]
use graph_safe_compare::Step;
#[cfg(feature = "anticipate")]
use std::iter::Step;
use std::{
    cell::{Cell, RefCell},
    cmp::Ordering,
    marker::PhantomData,
    rc::Rc,
    sync::atomic::{AtomicU64, Ordering as AO},
};

/// A graph. Nodes are numbered from 1 (as in the specification).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Graph {
    pub lab: Vec<u32>,
    pub adj: Vec<Vec<u32>>,
}

impl Graph {
    pub fn n(&self) -> usize { self.lab.len() }
    pub fn deg(&self, x: u32) -> usize { self.adj[x as usize - 1].len() }
    pub fn lab(&self, x: u32) -> u32 { self.lab[x as usize - 1] }
    pub fn edge(&self, x: u32, i: usize) -> Option<u32> { self.adj[x as usize - 1].get(i).copied() }
    pub fn json(&self) -> String {
        let mut s = String::from("{\"lab\":[");
        for (i, l) in self.lab.iter().enumerate() {
            if i > 0 { s.push(','); }
            s.push_str(&l.to_string());
        }
        s.push_str("],\"adj\":[");
        for (i, l) in self.adj.iter().enumerate() {
            if i > 0 { s.push(','); }
            s.push('[');
            for (j, e) in l.iter().enumerate() {
                if j > 0 { s.push(','); }
                s.push_str(&e.to_string());
            }
            s.push(']');
        }
        s.push_str("]}");
        s
    }
}

/// Where the nodes come from: a stored graph, or rules (endless, huge).
#[derive(Clone)]
pub enum Source {
    Stored(Rc<Graph>),
    /// label of node, child of node at index
    Rule(Rc<dyn Rule>),
}
pub trait Rule {
    fn lab(&self, x: u64) -> u32;
    fn edge(&self, x: u64, i: usize) -> Option<u64>;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    /// Own values compared: ids, instances, live nodes, stack bytes, outcome equal.
    Cmp { a: u64, b: u64, ia: u32, ib: u32, live: i32, stk: u32, eq: bool },
    /// Edge asked: id, instance, index, resulting instance (0: none).
    Edge { a: u64, ia: u32, idx: u64, res: u32 },
    /// Number drawn, exclusive end asked for.
    Draw { r: u16, end: u32 },
    /// A table was created / given a key.
    Table,
    Insert { k: u64 },
    /// A root (or a clone of one) came to be.
    Root { a: u64, ia: u32, of: u32 },
    /// Free-form marks of custom modes.
    Mark { k: u8, x: u64, y: u64, z: u64 },
}

#[derive(Clone, Debug)]
pub enum RngMode {
    Zero,
    Max,
    Rand(u64),
    /// These, then cycling.
    List(Vec<u16>, usize),
}

pub struct Diverge;
pub struct Injected;

thread_local! {
    pub static SRC: RefCell<Source> = RefCell::new(Source::Stored(Rc::new(Graph::default())));
    /// Identities; none: every node of the source has one of its own.
    pub static IDS: RefCell<Rc<Vec<u32>>> = RefCell::new(Rc::default());
    pub static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    pub static RNG: RefCell<RngMode> = const { RefCell::new(RngMode::Zero) };
    /// 0: nothing; 1: Cmp, Draw, Table; 2: everything
    pub static LEVEL: Cell<u8> = const { Cell::new(0) };
    pub static LIVE: Cell<i32> = const { Cell::new(0) };
    pub static MAXLIVE: Cell<i32> = const { Cell::new(0) };
    pub static INST: Cell<u32> = const { Cell::new(0) };
    pub static CMPS: Cell<u64> = const { Cell::new(0) };
    pub static EDGES: Cell<u64> = const { Cell::new(0) };
    pub static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static BASE: Cell<usize> = const { Cell::new(0) };
    pub static MAXSTK: Cell<u32> = const { Cell::new(0) };
    pub static TABLES: Cell<u32> = const { Cell::new(0) };
    pub static DRAWS: Cell<u64> = const { Cell::new(0) };
    /// Panic in the callback with this number (counting cmp and edge calls), 0: never.
    pub static BOMB: Cell<u64> = const { Cell::new(0) };
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
    /// Called from within equiv_modulo_edges (nested comparisons).
    pub static NESTED: RefCell<Option<Box<dyn FnMut(u64, u64)>>> = const { RefCell::new(None) };
    pub static DEPTH: Cell<u32> = const { Cell::new(0) };
}

/// Counts the memory this thread has allocated and not freed.
pub struct Counting;
thread_local! {
    static HEAP: Cell<i64> = const { Cell::new(0) };
    static MAXHEAP: Cell<i64> = const { Cell::new(0) };
}
fn heap(by: i64) {
    HEAP.with(|h| {
        let v = h.get() + by;
        h.set(v);
        MAXHEAP.with(|m| if v > m.get() { m.set(v) });
    });
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { heap(l.size() as i64); unsafe { std::alloc::System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { heap(l.size() as i64); unsafe { std::alloc::System.alloc_zeroed(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { heap(-(l.size() as i64)); unsafe { std::alloc::System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        heap(n as i64 - l.size() as i64);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// For the watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

pub fn stack_mark() { BASE.with(|b| b.set(here())); }

#[inline]
fn stack_used() -> u32 {
    let b = BASE.with(Cell::get);
    let u = b.saturating_sub(here());
    let u = u.min(u32::MAX as usize) as u32;
    MAXSTK.with(|m| if u > m.get() { m.set(u) });
    u
}

fn tick_budget() {
    BUDGET.with(|b| {
        let v = b.get();
        if v == 0 {
            std::panic::panic_any(Diverge);
        }
        b.set(v - 1);
    });
    let c = CALLS.with(|c| { c.set(c.get() + 1); c.get() });
    if c == BOMB.with(Cell::get) {
        std::panic::panic_any(Injected);
    }
    if c & 0xfff == 0 {
        PROGRESS.fetch_add(1, AO::Relaxed);
    }
}

pub fn log(e: Ev) { LOG.with(|l| l.borrow_mut().push(e)); }
pub fn level() -> u8 { LEVEL.with(Cell::get) }

fn new_inst() -> u32 {
    LIVE.with(|l| {
        l.set(l.get() + 1);
        MAXLIVE.with(|m| if l.get() > m.get() { m.set(l.get()) });
    });
    INST.with(|i| { i.set(i.get().wrapping_add(1)); i.get() })
}

/// Results the library is asked to produce.
pub trait CmpK: Cmp + 'static {
    const KIND: &'static str;
    fn own(a: u64, la: u32, b: u64, lb: u32) -> Self;
    fn out(self) -> Out;
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Out {
    Eq,
    Ne,
    Lt,
    Gt,
    Loc(u64, u64),
    AmtLt,
    AmtGt,
    Limit,
    Div,
    Panic,
    Injected,
    Err(u32),
}
impl Out {
    pub fn json(&self) -> String {
        match self {
            Out::Eq => "[\"eq\"]".into(),
            Out::Ne => "[\"ne\"]".into(),
            Out::Lt => "[\"lt\"]".into(),
            Out::Gt => "[\"gt\"]".into(),
            Out::Loc(a, b) => format!("[\"loc\",{a},{b}]"),
            Out::AmtLt => "[\"amt\",\"lt\"]".into(),
            Out::AmtGt => "[\"amt\",\"gt\"]".into(),
            Out::Limit => "[\"limit\"]".into(),
            Out::Div => "[\"div\"]".into(),
            Out::Panic => "[\"panic\"]".into(),
            Out::Injected => "[\"injected\"]".into(),
            Out::Err(k) => format!("[\"err\",{k}]"),
        }
    }
    pub fn abnormal(&self) -> bool { matches!(self, Out::Div | Out::Panic) }
}

impl CmpK for bool {
    const KIND: &'static str = "bool";
    fn own(_: u64, la: u32, _: u64, lb: u32) -> Self { la == lb }
    fn out(self) -> Out { if self { Out::Eq } else { Out::Ne } }
}
impl CmpK for Ordering {
    const KIND: &'static str = "ord";
    fn own(_: u64, la: u32, _: u64, lb: u32) -> Self { la.cmp(&lb) }
    fn out(self) -> Out {
        match self { Ordering::Less => Out::Lt, Ordering::Equal => Out::Eq, Ordering::Greater => Out::Gt }
    }
}
/// Names the nodes that differ.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rich { Eq, Loc(u64, u64), Amt(Ordering) }
impl Cmp for Rich {
    fn new_equiv() -> Self { Rich::Eq }
    fn is_equiv(&self) -> bool { matches!(self, Rich::Eq | Rich::Amt(Ordering::Equal)) }
    fn from_ord(ord: Ordering) -> Self { if ord.is_eq() { Rich::Eq } else { Rich::Amt(ord) } }
}
impl CmpK for Rich {
    const KIND: &'static str = "rich";
    fn own(a: u64, la: u32, b: u64, lb: u32) -> Self { if la == lb { Rich::Eq } else { Rich::Loc(a, b) } }
    fn out(self) -> Out {
        match self {
            Rich::Eq | Rich::Amt(Ordering::Equal) => Out::Eq,
            Rich::Loc(a, b) => Out::Loc(a, b),
            Rich::Amt(Ordering::Less) => Out::AmtLt,
            Rich::Amt(Ordering::Greater) => Out::AmtGt,
        }
    }
}

/// Index types of nodes.
pub trait Ix: Step + Default + Ord + 'static { fn val(&self) -> u64; }
macro_rules! ix { ($($t:ty)*) => { $(impl Ix for $t { fn val(&self) -> u64 { *self as u64 } })* } }
ix! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }

/// An instance of a node. Every one made is counted, every one dropped too.
pub struct Nd<C, I = usize> {
    pub id: u64,
    pub inst: u32,
    p: PhantomData<(C, I)>,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Nid(pub u64);
/// Different ones may well have the same hash.
impl std::hash::Hash for Nid {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u64(self.0 >> 2) }
}

impl<C, I> Nd<C, I> {
    pub fn root(id: u64) -> Self {
        let n = Self { id, inst: new_inst(), p: PhantomData };
        if level() >= 2 { log(Ev::Root { a: id, ia: n.inst, of: 0 }); }
        n
    }
}
impl<C, I> Clone for Nd<C, I> {
    fn clone(&self) -> Self {
        let n = Self { id: self.id, inst: new_inst(), p: PhantomData };
        if level() >= 2 { log(Ev::Root { a: self.id, ia: n.inst, of: self.inst }); }
        n
    }
}
impl<C, I> Drop for Nd<C, I> {
    fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); }
}

impl<C: CmpK, I: Ix> Node for Nd<C, I> {
    type Cmp = C;
    type Id = Nid;
    type Index = I;

    fn id(&self) -> Nid {
        let (x, i) = (self.id, self.id.wrapping_sub(1) as usize);
        Nid(IDS.with(|m| m.borrow().get(i).map_or(x, |&y| u64::from(y))))
    }

    fn get_edge(&self, index: &I) -> Option<Self> {
        tick_budget();
        EDGES.with(|e| e.set(e.get() + 1));
        let idx = index.val();
        let r = SRC.with(|s| match &*s.borrow() {
            Source::Stored(g) => g.edge(self.id as u32, idx as usize).map(u64::from),
            Source::Rule(r) => r.edge(self.id, idx as usize),
        });
        let n = r.map(|id| Self { id, inst: new_inst(), p: PhantomData });
        if level() >= 2 {
            log(Ev::Edge { a: self.id, ia: self.inst, idx, res: n.as_ref().map_or(0, |n| n.inst) });
        }
        n
    }

    fn equiv_modulo_edges(&self, other: &Self) -> C {
        tick_budget();
        CMPS.with(|c| c.set(c.get() + 1));
        let stk = stack_used();
        if DEPTH.with(Cell::get) == 0 {
            let f = NESTED.with(|n| n.borrow_mut().take());
            if let Some(mut f) = f {
                DEPTH.with(|d| d.set(1));
                f(self.id, other.id);
                DEPTH.with(|d| d.set(0));
                NESTED.with(|n| *n.borrow_mut() = Some(f));
            }
        }
        let (la, lb) = SRC.with(|s| match &*s.borrow() {
            Source::Stored(g) => (g.lab(self.id as u32), g.lab(other.id as u32)),
            Source::Rule(r) => (r.lab(self.id), r.lab(other.id)),
        });
        if level() >= 1 {
            log(Ev::Cmp { a: self.id, b: other.id, ia: self.inst, ib: other.inst,
                          live: LIVE.with(Cell::get), stk, eq: la == lb });
        }
        C::own(self.id, la, other.id, lb)
    }
}

/// The random numbers given to the library.
#[derive(Default)]
pub struct Script;
impl graph_safe_compare::cycle_safe::modes::interleave::random::NumberGenerator for Script {
    fn rand_upto(&mut self, end: core::num::NonZeroU16) -> u16 {
        let e = end.get();
        let r = RNG.with(|m| match &mut *m.borrow_mut() {
            RngMode::Zero => 0,
            RngMode::Max => e - 1,
            RngMode::Rand(s) => (splitmix(s) % u64::from(e)) as u16,
            RngMode::List(v, i) => {
                let r = if v.is_empty() { 0 } else { v[*i % v.len()] };
                *i += 1;
                r % e
            },
        });
        DRAWS.with(|d| d.set(d.get() + 1));
        if level() >= 1 { log(Ev::Draw { r, end: u32::from(e) }); }
        r
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct R(pub u64);
impl R {
    pub fn new(seed: u64) -> Self { let mut r = R(seed ^ 0x5851_f42d_4c95_7f2d); r.next(); r }
    pub fn next(&mut self) -> u64 { splitmix(&mut self.0) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub fn set_graph(g: &Rc<Graph>) {
    SRC.with(|s| *s.borrow_mut() = Source::Stored(g.clone()));
    set_ids(&Rc::default());
}
pub fn set_ids(ids: &Rc<Vec<u32>>) { IDS.with(|m| *m.borrow_mut() = ids.clone()); }
pub fn set_rule(r: Rc<dyn Rule>) { SRC.with(|s| *s.borrow_mut() = Source::Rule(r)); }
pub fn set_rng(m: RngMode) { RNG.with(|r| *r.borrow_mut() = m); }

/// What one comparison did.
#[derive(Clone, Debug)]
pub struct Run {
    pub out: Out,
    pub cmps: u64,
    pub edges: u64,
    pub draws: u64,
    pub tables: u32,
    pub maxlive: i32,
    pub leaked: i32,
    pub maxstk: u32,
    /// Bytes, at most at once, and at the end.
    pub maxheap: i64,
    pub keptheap: i64,
    pub log: Vec<Ev>,
}

pub fn reset_counters(budget: u64, level: u8) {
    LOG.with(|l| l.borrow_mut().clear());
    LEVEL.with(|l| l.set(level));
    LIVE.with(|l| l.set(0));
    MAXLIVE.with(|l| l.set(0));
    INST.with(|l| l.set(0));
    CMPS.with(|l| l.set(0));
    EDGES.with(|l| l.set(0));
    DRAWS.with(|l| l.set(0));
    TABLES.with(|l| l.set(0));
    MAXSTK.with(|l| l.set(0));
    CALLS.with(|l| l.set(0));
    BUDGET.with(|b| b.set(budget));
}

/// Runs one comparison with everything observed.
pub fn observe(budget: u64, level: u8, f: impl FnOnce() -> Out) -> Run {
    reset_counters(budget, level);
    PROGRESS.fetch_add(1, AO::Relaxed);
    stack_mark();
    HEAP.with(|h| h.set(0));
    MAXHEAP.with(|h| h.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let out = match r {
        Ok(o) => o,
        Err(p) => {
            if p.is::<Diverge>() { Out::Div } else if p.is::<Injected>() { Out::Injected } else { Out::Panic }
        },
    };
    let (keptheap, maxheap) = (HEAP.with(Cell::get), MAXHEAP.with(Cell::get));
    LEVEL.with(|l| l.set(0));
    BUDGET.with(|b| b.set(u64::MAX));
    Run {
        out,
        cmps: CMPS.with(Cell::get),
        edges: EDGES.with(Cell::get),
        draws: DRAWS.with(Cell::get),
        tables: TABLES.with(Cell::get),
        maxlive: MAXLIVE.with(Cell::get),
        leaked: LIVE.with(Cell::get),
        maxstk: MAXSTK.with(Cell::get),
        maxheap,
        keptheap,
        log: LOG.with(|l| std::mem::take(&mut *l.borrow_mut())),
    }
}
