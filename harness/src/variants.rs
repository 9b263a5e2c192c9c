//! Every way of comparing that the library offers, as data.

use crate::ctx::*;
use core::cell::Cell as CCell;
use core::convert::Infallible;
use core::marker::PhantomData;
use graph_safe_compare::{
    basic::{
        self,
        modes::{limited::{LimitReached, Limited}, unlimited::Unlimited},
        recursion::callstack::CallStack,
    },
    cycle_safe::modes::interleave::{self, Interleave},
    generic::{
        equiv::{self, Equiv},
        equiv_classes::{self, Class, Table},
        precheck_interleave,
    },
};
#[cfg(feature = "fstd")]
use graph_safe_compare::{cycle_safe, generic::equiv_classes::premade::hash_map, robust};
#[cfg(feature = "falloc")]
use graph_safe_compare::{
    deep_safe::{self, recursion::queue::{self, RecurQueue}},
    wide_safe::{self, recursion::stack::{self, RecurStack}},
};

pub type N<C> = Nd<C, usize>;

/* ---- tables -------------------------------------------------------------------------- */

/// The premade table, with its use logged.
pub struct TapTable<C: CmpK>(BaseTable<C>, CCell<bool>);
#[cfg(feature = "fstd")]
type BaseTable<C> = hash_map::Table<HP<C>>;
#[cfg(all(feature = "falloc", not(feature = "fstd")))]
type BaseTable<C> = OrdTable<C, equiv_classes::premade::rc::Rc>;
#[cfg(not(feature = "falloc"))]
type BaseTable<C> = OrdTable<C>;
#[cfg(feature = "fstd")]
pub struct HP<C>(PhantomData<C>);
#[cfg(feature = "fstd")]
impl<C: CmpK> hash_map::Params for HP<C> { const INITIAL_CAPACITY: usize = 16; type Node = N<C>; }
impl<C: CmpK> Default for TapTable<C> { fn default() -> Self { Self(Default::default(), CCell::new(false)) } }
impl<C: CmpK> TapTable<C> {
    fn touch(&self) {
        if !self.1.replace(true) {
            TABLES.with(|t| t.set(t.get() + 1));
            if level() >= 1 { log(Ev::Table); }
        }
    }
}
impl<C: CmpK> Table for TapTable<C> {
    type Node = N<C>;
    type Rc = <BaseTable<C> as Table>::Rc;
    fn get(&self, k: &Nid) -> Option<&Self::Rc> { self.touch(); self.0.get(k) }
    fn insert(&mut self, k: Nid, v: Self::Rc) {
        self.touch();
        if level() >= 2 { log(Ev::Insert { k: k.0 }); }
        self.0.insert(k, v);
    }
}

/// The premade table with an initial capacity of zero.
#[cfg(feature = "fstd")]
pub struct HP0<C>(PhantomData<C>);
#[cfg(feature = "fstd")]
impl<C: CmpK> hash_map::Params for HP0<C> { const INITIAL_CAPACITY: usize = 0; type Node = N<C>; }

/// A wholly custom one: ordered map, atomic reference counting, and no surprises allowed.
#[derive(Clone)]
pub struct ArcRc(pub std::sync::Arc<CCell<Class<Self>>>);
impl core::ops::Deref for ArcRc { type Target = CCell<Class<Self>>; fn deref(&self) -> &Self::Target { &self.0 } }
impl equiv_classes::Rc for ArcRc { fn new(v: CCell<Class<Self>>) -> Self { Self(std::sync::Arc::new(v)) } }
pub struct OrdTable<C, R = ArcRc>(std::collections::BTreeMap<Nid, R>, PhantomData<C>);
impl<C, R> Default for OrdTable<C, R> { fn default() -> Self { Self(Default::default(), PhantomData) } }
impl<C: CmpK, R: equiv_classes::Rc> Table for OrdTable<C, R> {
    type Node = N<C>;
    type Rc = R;
    fn get(&self, k: &Nid) -> Option<&R> { self.0.get(k) }
    fn insert(&mut self, k: Nid, v: R) { self.0.insert(k, v); }
}
/// A linear list, the worst conforming table there is.
pub struct ListTable<C>(Vec<(Nid, ArcRc)>, PhantomData<C>);
impl<C> Default for ListTable<C> { fn default() -> Self { Self(Default::default(), PhantomData) } }
impl<C: CmpK> Table for ListTable<C> {
    type Node = N<C>;
    type Rc = ArcRc;
    fn get(&self, k: &Nid) -> Option<&ArcRc> { self.0.iter().rev().find(|e| e.0 == *k).map(|e| &e.1) }
    fn insert(&mut self, k: Nid, v: ArcRc) { self.0.retain(|e| e.0 != k); self.0.push((k, v)); }
}

/* ---- parameters ---------------------------------------------------------------------- */

pub trait TableOf<C: CmpK> { type T: Table<Node = N<C>>; }
pub struct TTap; impl<C: CmpK> TableOf<C> for TTap { type T = TapTable<C>; }
pub struct TOrd; impl<C: CmpK> TableOf<C> for TOrd { type T = OrdTable<C>; }
pub struct TList; impl<C: CmpK> TableOf<C> for TList { type T = ListTable<C>; }
pub struct TCap0; #[cfg(feature = "fstd")]
impl<C: CmpK> TableOf<C> for TCap0 { type T = hash_map::Table<HP0<C>>; }
#[cfg(not(feature = "fstd"))]
impl<C: CmpK> TableOf<C> for TCap0 { type T = TapTable<C>; }

/// Interleave parameters: table, precheck, fast and slow limits.
pub struct IP<C, T, const PRE: u16, const F: u16, const S: u16>(PhantomData<(C, T)>);
impl<C: CmpK, T: TableOf<C>, const PRE: u16, const F: u16, const S: u16> interleave::Params for IP<C, T, PRE, F, S> {
    const PRECHECK_LIMIT: u16 = PRE;
    const FAST_LIMIT_MAX: u16 = F;
    const SLOW_LIMIT: u16 = S;
    type Node = N<C>;
    type RNG = Script;
    type Table = T::T;
}
/// Only the precheck limit chosen; everything else derived.
pub struct DP<C, const PRE: u16>(PhantomData<C>);
impl<C: CmpK, const PRE: u16> interleave::Params for DP<C, PRE> {
    const PRECHECK_LIMIT: u16 = PRE;
    type Node = N<C>;
    type RNG = Script;
    type Table = TapTable<C>;
}
/// The documented defaults, nothing chosen.
pub struct Dflt<C>(PhantomData<C>);
impl<C: CmpK> interleave::Params for Dflt<C> {
    type Node = N<C>;
    type RNG = Script;
    type Table = TapTable<C>;
}
/// Recursion-structure parameters.
pub struct RP<C>(PhantomData<C>);
#[cfg(feature = "falloc")]
impl<C: CmpK> queue::Params for RP<C> { type Node = N<C>; }
#[cfg(feature = "falloc")]
impl<C: CmpK> stack::Params for RP<C> { type Node = N<C>; }
/// ... without any initial capacity.
pub struct RP0<C>(PhantomData<C>);
#[cfg(feature = "falloc")]
impl<C: CmpK> queue::Params for RP0<C> { const INITIAL_CAPACITY: usize = 0; type Node = N<C>; }
#[cfg(feature = "falloc")]
impl<C: CmpK> stack::Params for RP0<C> { const INITIAL_CAPACITY: usize = 0; type Node = N<C>; }

/// Recursion modes as markers.
pub struct MCall;
pub struct MStack;
pub struct MQueue;
pub struct MStack0;
pub struct MQueue0;
macro_rules! rmode {
    ($m:ident, $s:literal, $($t:tt)*) => {
        impl<C: CmpK> ModeOf<C> for $m { type R = $($t)*; const S: &'static str = $s; }
    };
}
pub trait ModeOf<C: CmpK> { type R; const S: &'static str; }
rmode!(MCall, "call", CallStack);
#[cfg(feature = "falloc")]
rmode!(MStack, "stack", RecurStack<RP<C>>);
#[cfg(feature = "falloc")]
rmode!(MQueue, "queue", RecurQueue<RP<C>>);
#[cfg(feature = "falloc")]
rmode!(MStack0, "stack", RecurStack<RP0<C>>);
#[cfg(feature = "falloc")]
rmode!(MQueue0, "queue", RecurQueue<RP0<C>>);

/// Arguments of a plain interleaving comparison.
pub struct EA<C, I, M>(PhantomData<(C, I, M)>);
macro_rules! ea {
    ($($m:ident => [$($t:tt)*];)*) => { $(
        impl<C: CmpK, I: interleave::Params<Node = N<C>>> equiv::Params for EA<C, I, $m> {
            type DescendMode = Interleave<I>;
            type Error = Infallible;
            type Node = N<C>;
            type RecurMode = $($t)*;
        }
    )* };
}
ea! { MCall => [CallStack]; }
#[cfg(feature = "falloc")]
ea! { MStack => [RecurStack<RP<C>>]; MQueue => [RecurQueue<RP<C>>];
      MStack0 => [RecurStack<RP0<C>>]; MQueue0 => [RecurQueue<RP0<C>>]; }

/// Arguments of a comparison with a precheck.
pub struct PA<C, I, M1, M2>(PhantomData<(C, I, M1, M2)>);
macro_rules! pa {
    ($($m:ident [$($t:tt)*], $n:ident [$($u:tt)*];)*) => { $(
        impl<C: CmpK, I: interleave::Params<Node = N<C>>> precheck_interleave::Params<N<C>> for PA<C, I, $m, $n> {
            type Error = Infallible;
            type InterleaveParams = I;
            type InterleaveRecurMode = $($u)*;
            type PrecheckRecurMode = $($t)*;
        }
    )* };
}
pa! { MCall [CallStack], MCall [CallStack]; }
#[cfg(feature = "falloc")]
pa! {
      MCall [CallStack], MStack [RecurStack<RP<C>>];
      MCall [CallStack], MQueue [RecurQueue<RP<C>>];
      MStack [RecurStack<RP<C>>], MStack [RecurStack<RP<C>>];
      MQueue [RecurQueue<RP<C>>], MQueue [RecurQueue<RP<C>>];
      MCall [CallStack], MQueue0 [RecurQueue<RP0<C>>];
      MStack0 [RecurStack<RP0<C>>], MStack0 [RecurStack<RP0<C>>]; }

/// Arguments of a plain unlimited / limited comparison through the generic interface.
pub struct UA<C, M>(PhantomData<(C, M)>);
pub struct LA<C, M, L>(PhantomData<(C, M, L)>);
macro_rules! ula {
    ($($m:ident => [$($t:tt)*];)*) => { $(
        impl<C: CmpK> equiv::Params for UA<C, $m> {
            type DescendMode = Unlimited;
            type Error = Infallible;
            type Node = N<C>;
            type RecurMode = $($t)*;
        }
    )* };
}
ula! { MCall => [CallStack]; }
#[cfg(feature = "falloc")]
ula! { MStack => [RecurStack<RP<C>>]; MQueue => [RecurQueue<RP<C>>];
      MStack0 => [RecurStack<RP0<C>>]; MQueue0 => [RecurQueue<RP0<C>>]; }

/* ---- variants ------------------------------------------------------------------------ */

pub fn inf<C: CmpK>(r: Result<C, Infallible>) -> Out {
    match r { Ok(c) => c.out(), Err(e) => match e {} }
}
pub fn lim<C: CmpK>(r: Result<C, LimitReached>) -> Out {
    match r { Ok(c) => c.out(), Err(LimitReached) => Out::Limit }
}

/// One way of comparing, with all its parameters as the specification names them.
#[derive(Clone, Copy)]
pub struct Variant {
    pub name: &'static str,
    pub kind: &'static str,
    pub recur: &'static str,
    pub descend: &'static str,
    pub pre: bool,
    pub prerecur: &'static str,
    pub p: u16,
    pub f: u16,
    pub s: u16,
    /// The default random numbers of the library, unknown to us.
    pub own_rng: bool,
    /// The table's creation can be observed.
    pub tap: bool,
    pub run: fn(u64, u64) -> Out,
}
impl Variant {
    pub fn job(&self, g: &Graph, a: u64, b: u64, ids: &[u32]) -> String {
        format!("{{\"g\":{},\"a\":{a},\"b\":{b},\"recur\":\"{}\",\"descend\":\"{}\",\"lim\":0,\"pre\":{},\"prerecur\":\"{}\",\"P\":{},\"F\":{},\"S\":{},\"ids\":{}}}",
            g.json(), self.recur, self.descend, if self.pre { "true" } else { "false" }, self.prerecur, self.p, self.f, self.s, crate::cmds::list(ids))
    }
    pub fn group(&self) -> &'static str {
        match (self.descend, self.recur, self.pre, self.prerecur) {
            ("interleave", "queue", false, _) | ("interleave", "queue", true, "queue") => "cycbf",
            ("interleave", "queue", true, _) => "cyc",
            ("interleave", _, _, _) => "cycdf",
            (_, "queue", _, _) => "bf",
            _ => "df",
        }
    }
}

fn run_ea<C: CmpK, E>(a: u64, b: u64) -> Out
where E: equiv::Params<Node = N<C>, Error = Infallible>, E::DescendMode: Default
{
    inf(Equiv::<E>::default().equiv(N::<C>::root(a), N::<C>::root(b)))
}
fn run_pa<C: CmpK, P>(a: u64, b: u64) -> Out
where P: precheck_interleave::Params<N<C>, Error = Infallible>
{
    inf(precheck_interleave::equiv::<N<C>, P>(N::<C>::root(a), N::<C>::root(b)))
}

macro_rules! cfg_variants {
    ($v:ident, $C:ty, $tap:expr, $name:literal, $I:ty, $P:expr, $F:expr, $S:expr) => {
        $v.push(Variant { name: concat!($name, "/call"), kind: <$C>::KIND, recur: "call", descend: "interleave", pre: false, prerecur: "call",
            p: $P, f: $F, s: $S, own_rng: false, tap: $tap, run: run_ea::<$C, EA<$C, $I, MCall>> });
        #[cfg(feature = "falloc")]
        $v.push(Variant { name: concat!($name, "/stack"), kind: <$C>::KIND, recur: "stack", descend: "interleave", pre: false, prerecur: "call",
            p: $P, f: $F, s: $S, own_rng: false, tap: $tap, run: run_ea::<$C, EA<$C, $I, MStack>> });
        #[cfg(feature = "falloc")]
        $v.push(Variant { name: concat!($name, "/queue"), kind: <$C>::KIND, recur: "queue", descend: "interleave", pre: false, prerecur: "call",
            p: $P, f: $F, s: $S, own_rng: false, tap: $tap, run: run_ea::<$C, EA<$C, $I, MQueue>> });
        $v.push(Variant { name: concat!($name, "/call>call"), kind: <$C>::KIND, recur: "call", descend: "interleave", pre: true, prerecur: "call",
            p: $P, f: $F, s: $S, own_rng: false, tap: $tap, run: run_pa::<$C, PA<$C, $I, MCall, MCall>> });
        #[cfg(feature = "falloc")]
        $v.push(Variant { name: concat!($name, "/call>stack"), kind: <$C>::KIND, recur: "stack", descend: "interleave", pre: true, prerecur: "call",
            p: $P, f: $F, s: $S, own_rng: false, tap: $tap, run: run_pa::<$C, PA<$C, $I, MCall, MStack>> });
        #[cfg(feature = "falloc")]
        $v.push(Variant { name: concat!($name, "/call>queue"), kind: <$C>::KIND, recur: "queue", descend: "interleave", pre: true, prerecur: "call",
            p: $P, f: $F, s: $S, own_rng: false, tap: $tap, run: run_pa::<$C, PA<$C, $I, MCall, MQueue>> });
        #[cfg(feature = "falloc")]
        $v.push(Variant { name: concat!($name, "/stack>stack"), kind: <$C>::KIND, recur: "stack", descend: "interleave", pre: true, prerecur: "stack",
            p: $P, f: $F, s: $S, own_rng: false, tap: $tap, run: run_pa::<$C, PA<$C, $I, MStack, MStack>> });
        #[cfg(feature = "falloc")]
        $v.push(Variant { name: concat!($name, "/queue>queue"), kind: <$C>::KIND, recur: "queue", descend: "interleave", pre: true, prerecur: "queue",
            p: $P, f: $F, s: $S, own_rng: false, tap: $tap, run: run_pa::<$C, PA<$C, $I, MQueue, MQueue>> });
    };
}

/// A few of [`interleaved`], for the other result types.
pub fn interleaved_few<C: CmpK>() -> Vec<Variant> {
    let mut v = Vec::new();
    cfg_variants!(v, C, true, "i2.1.1", IP<C, TTap, 2, 1, 1>, 2, 1, 1);
    cfg_variants!(v, C, true, "i5.3.2", IP<C, TTap, 5, 3, 2>, 5, 3, 2);
    v
}
/// Interleaving variants with many small and large limits, our own random numbers.
pub fn interleaved<C: CmpK>() -> Vec<Variant> {
    let mut v = Vec::new();
    cfg_variants!(v, C, true, "i1.1.1", IP<C, TTap, 1, 1, 1>, 1, 1, 1);
    cfg_variants!(v, C, true, "i2.1.1", IP<C, TTap, 2, 1, 1>, 2, 1, 1);
    cfg_variants!(v, C, true, "i3.2.1", IP<C, TTap, 3, 2, 1>, 3, 2, 1);
    cfg_variants!(v, C, true, "i4.1.2", IP<C, TTap, 4, 1, 2>, 4, 1, 2);
    cfg_variants!(v, C, true, "i5.3.2", IP<C, TTap, 5, 3, 2>, 5, 3, 2);
    cfg_variants!(v, C, true, "i8.5.3", IP<C, TTap, 8, 5, 3>, 8, 5, 3);
    cfg_variants!(v, C, true, "i20.7.4", IP<C, TTap, 20, 7, 4>, 20, 7, 4);
    cfg_variants!(v, C, true, "i400.2.20", IP<C, TTap, 400, 2, 20>, 400, 2, 20);
    cfg_variants!(v, C, true, "d0", DP<C, 0>, 0, 0, 1);
    cfg_variants!(v, C, true, "d7", DP<C, 7>, 7, 14, 1);
    cfg_variants!(v, C, true, "d25", DP<C, 25>, 25, 50, 2);
    cfg_variants!(v, C, true, "dflt", Dflt<C>, 400, 800, 40);
    v
}

/// Prechecks of many nodes.
pub fn long_prechecks<C: CmpK>() -> Vec<Variant> {
    let mut v = Vec::new();
    cfg_variants!(v, C, true, "p2049", IP<C, TTap, 2049, 1, 1>, 2049, 1, 1);
    cfg_variants!(v, C, true, "p9999", IP<C, TTap, 9999, 2, 3>, 9999, 2, 3);
    cfg_variants!(v, C, true, "p32768", IP<C, TTap, 32768, 3, 2>, 32768, 3, 2);
    cfg_variants!(v, C, true, "p65535", IP<C, TTap, 65535, 1, 1>, 65535, 1, 1);
    v.retain(|v| v.pre);
    v
}
/// Parameters at the ends of their types.
#[cfg(feature = "extremes")]
pub fn extremes<C: CmpK>() -> Vec<Variant> {
    let mut v = Vec::new();
    cfg_variants!(v, C, true, "x0.0.1", IP<C, TTap, 0, 0, 1>, 0, 0, 1);
    cfg_variants!(v, C, true, "x1.0.1", IP<C, TTap, 1, 0, 1>, 1, 0, 1);
    cfg_variants!(v, C, true, "x0.1.1", IP<C, TTap, 0, 1, 1>, 0, 1, 1);
    cfg_variants!(v, C, true, "x2.0.2", IP<C, TTap, 2, 0, 2>, 2, 0, 2);
    cfg_variants!(v, C, true, "x0.65534.1", IP<C, TTap, 0, 65534, 1>, 0, 65534, 1);
    cfg_variants!(v, C, true, "x3.65534.2", IP<C, TTap, 3, 65534, 2>, 3, 65534, 2);
    cfg_variants!(v, C, true, "x65535.3.65535", IP<C, TTap, 65535, 3, 65535>, 65535, 3, 65535);
    cfg_variants!(v, C, true, "x65535.65534.65535", IP<C, TTap, 65535, 65534, 65535>, 65535, 65534, 65535);
    cfg_variants!(v, C, true, "x1.0.65535", IP<C, TTap, 1, 0, 65535>, 1, 0, 65535);
    cfg_variants!(v, C, true, "x32767.d", DP<C, 32767>, 32767, 65534, 3276);
    v
}
#[cfg(not(feature = "extremes"))]
pub fn extremes<C: CmpK>() -> Vec<Variant> { Vec::new() }

/// Other tables and capacities.
pub fn tabled<C: CmpK>() -> Vec<Variant> {
    let mut v = Vec::new();
    cfg_variants!(v, C, false, "ord2.1.1", IP<C, TOrd, 2, 1, 1>, 2, 1, 1);
    cfg_variants!(v, C, false, "ord5.3.2", IP<C, TOrd, 5, 3, 2>, 5, 3, 2);
    cfg_variants!(v, C, false, "list3.2.1", IP<C, TList, 3, 2, 1>, 3, 2, 1);
    cfg_variants!(v, C, false, "cap0.3.1.1", IP<C, TCap0, 3, 1, 1>, 3, 1, 1);
    #[cfg(feature = "falloc")]
    {
    let x = |name, recur, pre, prerecur, run| Variant { name, kind: C::KIND, recur, descend: "interleave", pre, prerecur,
        p: 3, f: 1, s: 1, own_rng: false, tap: false, run };
    v.push(x("rcap0/stack", "stack", false, "call", run_ea::<C, EA<C, IP<C, TCap0, 3, 1, 1>, MStack0>>));
    v.push(x("rcap0/queue", "queue", false, "call", run_ea::<C, EA<C, IP<C, TCap0, 3, 1, 1>, MQueue0>>));
    v.push(x("rcap0/call>queue", "queue", true, "call", run_pa::<C, PA<C, IP<C, TCap0, 3, 1, 1>, MCall, MQueue0>>));
    v.push(x("rcap0/stack>stack", "stack", true, "stack", run_pa::<C, PA<C, IP<C, TCap0, 3, 1, 1>, MStack0, MStack0>>));
    }
    v
}

/// The premade cycle-safe functions.
#[cfg(not(feature = "fstd"))]
pub fn premade<C: CmpK>() -> Vec<Variant> { vec![] }
#[cfg(feature = "fstd")]
pub fn premade<C: CmpK>() -> Vec<Variant> {
    let x = |name, recur, pre, run| Variant { name, kind: C::KIND, recur, descend: "interleave", pre, prerecur: recur,
        p: 400, f: 800, s: 40, own_rng: true, tap: false, run };
    vec![
        x("cycle_safe::equiv", "call", false, |a, b| cycle_safe::equiv(N::<C>::root(a), N::<C>::root(b)).out()),
        x("cycle_safe::precheck_equiv", "call", true, |a, b| cycle_safe::precheck_equiv(N::<C>::root(a), N::<C>::root(b)).out()),
        x("robust::equiv", "queue", false, |a, b| robust::equiv(N::<C>::root(a), N::<C>::root(b)).out()),
        x("robust::precheck_equiv", "queue", true, |a, b| robust::precheck_equiv(N::<C>::root(a), N::<C>::root(b)).out()),
    ]
}

/// The simple ones.
pub fn simple<C: CmpK>() -> Vec<Variant> {
    let x = |name, recur, run| Variant { name, kind: C::KIND, recur, descend: "unlimited", pre: false, prerecur: recur,
        p: 0, f: 0, s: 1, own_rng: false, tap: false, run };
    vec![
        x("basic::equiv", "call", |a, b| basic::equiv(N::<C>::root(a), N::<C>::root(b)).out()),
        #[cfg(feature = "falloc")]
        x("wide_safe::equiv", "stack", |a, b| wide_safe::equiv(N::<C>::root(a), N::<C>::root(b)).out()),
        #[cfg(feature = "falloc")]
        x("deep_safe::equiv", "queue", |a, b| deep_safe::equiv(N::<C>::root(a), N::<C>::root(b)).out()),
        x("generic/call", "call", run_ea::<C, UA<C, MCall>>),
        #[cfg(feature = "falloc")]
        x("generic/stack0", "stack", run_ea::<C, UA<C, MStack0>>),
        #[cfg(feature = "falloc")]
        x("generic/queue0", "queue", run_ea::<C, UA<C, MQueue0>>),
    ]
}

/// Limited comparisons: every type of limit.
#[derive(Clone, Copy)]
pub struct LimVariant {
    pub name: &'static str,
    pub kind: &'static str,
    pub recur: &'static str,
    /// Greatest limit of the type (saturated).
    pub max: u128,
    pub run: fn(u128, u64, u64) -> Out,
}
pub fn limited<C: CmpK>() -> Vec<LimVariant> {
    let mut v = Vec::new();
    macro_rules! lv {
        ($($t:ident)*) => { $(
            v.push(LimVariant { name: concat!("basic/", stringify!($t)), kind: C::KIND, recur: "call", max: $t::MAX as u128,
                run: |l, a, b| lim(basic::limited_equiv(l as $t, N::<C>::root(a), N::<C>::root(b))) });
            #[cfg(feature = "falloc")]
            v.push(LimVariant { name: concat!("wide_safe/", stringify!($t)), kind: C::KIND, recur: "stack", max: $t::MAX as u128,
                run: |l, a, b| lim(wide_safe::limited_equiv(l as $t, N::<C>::root(a), N::<C>::root(b))) });
            #[cfg(feature = "falloc")]
            v.push(LimVariant { name: concat!("deep_safe/", stringify!($t)), kind: C::KIND, recur: "queue", max: $t::MAX as u128,
                run: |l, a, b| lim(deep_safe::limited_equiv(l as $t, N::<C>::root(a), N::<C>::root(b))) });
        )* };
    }
    lv! { u8 u16 u32 u64 u128 usize }
    v
}

/// A limited comparison through the generic interface that also tells what is left.
pub struct GLA<C, M, L>(PhantomData<(C, M, L)>);
macro_rules! gla {
    ($($m:ident => [$($t:tt)*];)*) => { $(
        impl<C: CmpK> equiv::Params for GLA<C, $m, u32> {
            type DescendMode = Limited<u32>;
            type Error = LimitReached;
            type Node = N<C>;
            type RecurMode = $($t)*;
        }
    )* };
}
gla! { MCall => [CallStack]; }
#[cfg(feature = "falloc")]
gla! { MStack => [RecurStack<RP<C>>]; MQueue => [RecurQueue<RP<C>>]; }

/* ---- conversions by hand --------------------------------------------------------------- */

/// A limited comparison, and when the limit is reached the conversion of what it used into an
/// interleaving one: what the library's precheck does, done by its users.
fn run_hand<C: CmpK, F, T, const P: u32>(a: u64, b: u64) -> Out
where
    F: equiv::Params<Node = N<C>, DescendMode = Limited<u32>, Error = LimitReached>,
    T: equiv::Params<Node = N<C>, Error = Infallible>,
    T::DescendMode: Default,
    F::RecurMode: Into<T::RecurMode>,
{
    let mut e = Equiv::<F>::new(Limited(P));
    let (x, y) = (N::<C>::root(a), N::<C>::root(b));
    match e.equiv(x.clone(), y.clone()) {
        Ok(c) => c.out(),
        Err(LimitReached) => {
            let mut e = if P % 2 == 0 { e.into::<T>() } else { Equiv::<T>::from(e) };
            inf(e.equiv(x, y))
        },
    }
}
std::thread_local! {
    /// What is compared before by those that reuse its recursion structure.
    pub static OTHER: CCell<(u64, u64, u32)> = const { CCell::new((1, 1, 0)) };
}
/// Reuses the structure of a limited comparison of others, however it ended.
fn run_recycled<C: CmpK, F, T>(a: u64, b: u64) -> Out
where
    F: equiv::Params<Node = N<C>, DescendMode = Limited<u32>, Error = LimitReached>,
    T: equiv::Params<Node = N<C>, Error = Infallible>,
    T::DescendMode: Default,
    F::RecurMode: Into<T::RecurMode>,
{
    let (x, y, l) = OTHER.with(CCell::get);
    let mut e = Equiv::<F>::new(Limited(l));
    let _whatever = e.equiv(N::<C>::root(x), N::<C>::root(y));
    inf(e.into::<T>().equiv(N::<C>::root(a), N::<C>::root(b)))
}
/// Reuses the structure of an interleaving comparison of others.
fn run_again<C: CmpK, T>(a: u64, b: u64) -> Out
where
    T: equiv::Params<Node = N<C>, Error = Infallible>,
    T::DescendMode: Default,
{
    let (x, y, _) = OTHER.with(CCell::get);
    let mut e = Equiv::<T>::default();
    let _whatever = inf(e.equiv(N::<C>::root(x), N::<C>::root(y)));
    let mut e: Equiv<T> = e.into();
    inf(e.equiv(N::<C>::root(a), N::<C>::root(b)))
}

pub fn byhand<C: CmpK>() -> Vec<Variant> {
    let mut v = Vec::new();
    macro_rules! hv {
        ($($name:literal $P:literal [$F:literal $S:literal] $M1:ident $m1:literal, $M2:ident $m2:literal;)*) => { $(
            v.push(Variant { name: $name, kind: C::KIND, recur: $m2, descend: "interleave", pre: true, prerecur: $m1, p: $P, f: $F, s: $S,
                own_rng: false, tap: true, run: run_hand::<C, GLA<C, $M1, u32>, EA<C, IP<C, TTap, 3, $F, $S>, $M2>, $P> });
        )* };
    }
    hv! {
        "hand1/call>call" 1 [1 1] MCall "call", MCall "call";
    }
    #[cfg(feature = "falloc")]
    hv! {
        "hand6/call>stack" 6 [2 1] MCall "call", MStack "stack";
        "hand3/call>queue" 3 [1 2] MCall "call", MQueue "queue";
        "hand4/stack>stack" 4 [1 1] MStack "stack", MStack "stack";
        "hand9/stack>stack" 9 [3 2] MStack "stack", MStack "stack";
        "hand5/queue>queue" 5 [1 1] MQueue "queue", MQueue "queue";
        "hand12/queue>queue" 12 [3 2] MQueue "queue", MQueue "queue";
        "hand0/queue>queue" 0 [1 1] MQueue "queue", MQueue "queue";
        "hand60/stack>stack" 60 [3 3] MStack "stack", MStack "stack";
    }
    v
}
/// For histories only: what came before does not show.
pub fn recycled<C: CmpK>() -> Vec<Variant> {
    let x = |name, recur, run| Variant { name, kind: C::KIND, recur, descend: "interleave", pre: false, prerecur: recur,
        p: 0, f: 2, s: 1, own_rng: false, tap: false, run };
    vec![
        x("recycled/call>call", "call", run_recycled::<C, GLA<C, MCall, u32>, EA<C, IP<C, TTap, 3, 2, 1>, MCall>>),
        #[cfg(feature = "falloc")]
        x("recycled/stack>stack", "stack", run_recycled::<C, GLA<C, MStack, u32>, EA<C, IP<C, TTap, 3, 2, 1>, MStack>>),
        #[cfg(feature = "falloc")]
        x("recycled/queue>queue", "queue", run_recycled::<C, GLA<C, MQueue, u32>, EA<C, IP<C, TTap, 3, 2, 1>, MQueue>>),
        x("again/call", "call", run_again::<C, EA<C, IP<C, TTap, 3, 2, 1>, MCall>>),
        #[cfg(feature = "falloc")]
        x("again/stack", "stack", run_again::<C, EA<C, IP<C, TTap, 3, 2, 1>, MStack>>),
        #[cfg(feature = "falloc")]
        x("again/queue", "queue", run_again::<C, EA<C, IP<C, TTap, 3, 2, 1>, MQueue>>),
    ]
}
