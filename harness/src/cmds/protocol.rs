//! Conversations with user-supplied descend and recursion modes of arbitrary behaviour.
//!
//! Arguments: rand=K, max=M.

use super::*;
use crate::gen::*;
use crate::variants::{N, RP};
use core::cell::Cell as CCell;
use core::convert::Infallible;
use core::marker::PhantomData;
use graph_safe_compare::{
    basic::recursion::callstack::CallStack,
    cycle_safe::modes::interleave,
    deep_safe::recursion::queue::RecurQueue,
    generic::{
        equiv::{self, CounterpartsResult, DescendMode, EdgesIter, Equiv, RecurMode},
        equiv_classes::{self, premade::hash_map},
        precheck_interleave::{self, InterleaveError, PrecheckError},
    },
    wide_safe::recursion::stack::RecurStack,
};
use std::cell::RefCell;

/// What the modes do.
#[derive(Clone, Default)]
struct Policy {
    r: u64,
    no: usize,
    err: usize,
    style: usize,
    prune: usize,
    odd: usize,
    cmp: usize,
    nodes: usize,
}
thread_local! {
    static POL: RefCell<Policy> = RefCell::new(Policy::default());
    static SAID: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static ITERS: CCell<usize> = const { CCell::new(0) };
    static ERRS: CCell<u32> = const { CCell::new(0) };
    static LEFT: CCell<u32> = const { CCell::new(0) };
}
/// One in a thousand times n.
fn dice(f: impl Fn(&Policy) -> usize) -> bool {
    POL.with(|p| { let mut p = p.borrow_mut(); let n = f(&p); splitmix(&mut p.r) % 1000 < n as u64 })
}
fn roll(n: usize) -> usize { POL.with(|p| (splitmix(&mut p.borrow_mut().r) % n as u64) as usize) }
fn style() -> usize { POL.with(|p| p.borrow().style) }
fn nodes() -> usize { POL.with(|p| p.borrow().nodes) }
fn say(s: String) {
    let i = SAID.with(|v| { v.borrow_mut().push(s); v.borrow().len() - 1 });
    log(Ev::Mark { k: 1, x: i as u64, y: 0, z: 0 });
}
fn serial() -> u32 { ERRS.with(|e| { e.set(e.get() + 1); e.get() }) }
fn spend() -> bool { LEFT.with(|l| { let v = l.get(); if v > 0 { l.set(v - 1) } v > 0 }) }

/* ---- errors --------------------------------------------------------------------------- */

pub struct DErr(u32);
#[derive(Clone, Copy, Debug)]
pub struct PErr { k: u32, kind: u32, conv: u32 }
pub enum RErr<E> { Own(u32), Passed(E) }
impl From<DErr> for PErr { fn from(e: DErr) -> Self { PErr { k: e.0, kind: 1, conv: 1 } } }
impl From<Infallible> for PErr { fn from(e: Infallible) -> Self { match e {} } }
impl From<RErr<PErr>> for PErr {
    fn from(e: RErr<PErr>) -> Self { match e { RErr::Own(k) => PErr { k, kind: 2, conv: 1 }, RErr::Passed(e) => e } }
}
impl From<RErr<PrecheckError<PErr>>> for PrecheckError<PErr> {
    fn from(e: RErr<PrecheckError<PErr>>) -> Self {
        match e { RErr::Own(k) => PrecheckError::RecurError(PErr { k, kind: 2, conv: 1 }), RErr::Passed(e) => e }
    }
}
impl From<RErr<InterleaveError<PErr>>> for InterleaveError<PErr> {
    fn from(e: RErr<InterleaveError<PErr>>) -> Self {
        match e { RErr::Own(k) => InterleaveError(PErr { k, kind: 2, conv: 1 }), RErr::Passed(e) => e }
    }
}
pub trait Shown { fn shown(&self) -> String; }
impl Shown for PErr { fn shown(&self) -> String { err_json(self.k, self.kind + 5 * (self.conv - 1)) } }
impl Shown for PrecheckError<PErr> {
    fn shown(&self) -> String { match self { PrecheckError::LimitReached => "[\"limit\"]".into(), PrecheckError::RecurError(e) => e.shown() } }
}
impl Shown for InterleaveError<PErr> { fn shown(&self) -> String { self.0.shown() } }
fn err_json(k: u32, kind: u32) -> String { format!("[\"err\",{}]", k * 10 + kind) }
fn res_json<E: Shown>(r: &Result<Rich, E>) -> String {
    match r { Ok(c) => c.out().json(), Err(e) => e.shown() }
}

/* ---- modes ---------------------------------------------------------------------------- */

pub struct Descend;
fn answer() -> (Result<bool, DErr>, String) {
    if dice(|p| p.err) {
        let k = serial();
        (Err(DErr(k)), err_json(k, 1))
    } else if dice(|p| p.no) { (Ok(false), "[\"no\"]".into()) } else { (Ok(true), "[\"yes\"]".into()) }
}
impl<P> DescendMode<P> for Descend
where P: equiv::Params<DescendMode = Self, Node = N<Rich>>, DErr: Into<P::Error>
{
    type Error = DErr;
    fn do_edges(&mut self, a: &N<Rich>, b: &N<Rich>) -> Result<bool, DErr> {
        let (r, s) = answer();
        say(format!("[\"E\",{},{},{s}]", a.id, b.id));
        r
    }
    fn do_traverse(&mut self) -> Result<bool, DErr> {
        let (r, s) = answer();
        say(format!("[\"T\",{s}]"));
        r
    }
}

/// A recursion mode that does as the policy says.
#[derive(Default)]
pub struct Moody { held: Vec<(usize, EdgesIter<N<Rich>>)>, ready: Vec<[N<Rich>; 2]> }

fn pull(n: usize, it: &mut EdgesIter<N<Rich>>) -> Option<CounterpartsResult<N<Rich>>> {
    let x = it.next();
    let s = match &x {
        Some(Ok([a, b])) => format!("[\"pair\",{},{}]", a.id, b.id),
        Some(Err(c)) => c.out().json(),
        None => "[\"end\"]".into(),
    };
    say(format!("[\"I\",{n},{s}]"));
    x
}
fn own_cmp() -> Rich {
    match roll(3) { 0 => Rich::Amt(core::cmp::Ordering::Less), 1 => Rich::Amt(core::cmp::Ordering::Greater), _ => Rich::Loc(900 + roll(99) as u64, 999) }
}
fn any_node() -> N<Rich> { Nd::root(roll(nodes()) as u64 + 1) }
fn odd(p: [N<Rich>; 2]) -> [N<Rich>; 2] {
    if !dice(|p| p.odd) { return p; }
    let [a, b] = p;
    match roll(4) { 0 => [b, a], 1 => [a.clone(), a], 2 => [any_node(), any_node()], _ => [a, any_node()] }
}

impl<P> RecurMode<P> for Moody
where
    P: equiv::Params<RecurMode = Self, Node = N<Rich>>,
    RErr<P::Error>: Into<P::Error>,
    P::Error: Shown,
{
    type Error = RErr<P::Error>;

    fn recur(it: &mut Equiv<P>, mut iter: EdgesIter<N<Rich>>) -> Result<Rich, RErr<P::Error>> {
        let n = ITERS.with(|i| { i.set(i.get() + 1); i.get() });
        say(format!("[\"R\",{n}]"));
        let r = (|| {
            if dice(|p| p.err) { return Err(RErr::Own(serial())); }
            if dice(|p| p.cmp) { return Ok(own_cmp()); }
            match style() {
                // at once, one after the other
                0 => loop {
                    if dice(|p| p.prune) { return Ok(Rich::Eq); }
                    match pull(n, &mut iter) {
                        None => return Ok(Rich::Eq),
                        Some(Err(c)) => return Ok(c),
                        Some(Ok(p)) => {
                            if !spend() { return Ok(Rich::Eq); }
                            let [a, b] = odd(p);
                            say(format!("[\"M\",{},{}]", a.id, b.id));
                            let r = it.equiv_main(a, b);
                            say(format!("[\"m\",{}]", res_json(&r)));
                            match r {
                                Ok(Rich::Eq) => (),
                                Ok(c) => return Ok(c),
                                Err(e) => return Err(RErr::Passed(e)),
                            }
                        },
                    }
                },
                // all pulled now, compared later
                1 | 2 => {
                    let mut ps = vec![];
                    loop {
                        match pull(n, &mut iter) {
                            None => break,
                            Some(Err(c)) => return Ok(c),
                            Some(Ok(p)) => if !dice(|p| p.prune) { ps.push(odd(p)) },
                        }
                    }
                    if style() == 2 { ps.reverse(); }
                    it.recur_mode.ready.extend(ps);
                    // past the end there is nothing more
                    if dice(|_| 300) { pull(n, &mut iter); }
                },
                // the iterator is kept for later; perhaps the first edge goes now
                _ => {
                    if dice(|_| 200) {
                        if let Some(x) = pull(n, &mut iter) {
                            match x {
                                Err(c) => return Ok(c),
                                Ok(p) => if spend() {
                                    let [a, b] = odd(p);
                                    say(format!("[\"M\",{},{}]", a.id, b.id));
                                    let r = it.equiv_main(a, b);
                                    say(format!("[\"m\",{}]", res_json(&r)));
                                    match r { Ok(Rich::Eq) => (), Ok(c) => return Ok(c), Err(e) => return Err(RErr::Passed(e)) }
                                },
                            }
                        }
                    }
                    it.recur_mode.held.push((n, iter));
                },
            }
            Ok(Rich::Eq)
        })();
        say(format!("[\"r\",{}]", match &r {
            Ok(c) => c.out().json(),
            Err(RErr::Own(k)) => err_json(*k, 2),
            Err(RErr::Passed(e)) => e.shown(),
        }));
        r
    }

    fn next(&mut self) -> Option<CounterpartsResult<N<Rich>>> {
        let r = (|| {
            if dice(|p| p.cmp) { return Some(Err(own_cmp())); }
            if !spend() { return None; }
            if dice(|p| p.odd / 4) { return Some(Ok([any_node(), any_node()])); }
            loop {
                if !self.ready.is_empty() {
                    let i = match style() { 1 => 0, 2 => self.ready.len() - 1, _ => roll(self.ready.len()) };
                    return Some(Ok(self.ready.remove(i)));
                }
                if self.held.is_empty() { return None; }
                let i = match style() { 3 => 0, 4 => self.held.len() - 1, _ => roll(self.held.len()) };
                let (n, it) = &mut self.held[i];
                match pull(*n, it) {
                    None => { self.held.remove(i); },
                    Some(Err(c)) => return Some(Err(c)),
                    Some(Ok(p)) => {
                        if dice(|p| p.prune) { continue; }
                        return Some(Ok(odd(p)));
                    },
                }
            }
        })();
        say(format!("[\"N\",{}]", match &r {
            None => "[\"none\"]".into(),
            Some(Ok([a, b])) => format!("[\"pair\",{},{}]", a.id, b.id),
            Some(Err(c)) => c.out().json(),
        }));
        r
    }

    fn reset(mut self) -> Self {
        say("[\"S\"]".into());
        self.held.clear();
        self.ready.clear();
        self
    }
}

/* ---- arguments ------------------------------------------------------------------------- */

struct Custom<M>(PhantomData<M>);
macro_rules! custom { ($($m:ty),*) => { $(
    impl equiv::Params for Custom<$m> { type DescendMode = Descend; type Error = PErr; type Node = N<Rich>; type RecurMode = $m; }
)* } }
custom!(Moody, CallStack, RecurStack<RP<Rich>>, RecurQueue<RP<Rich>>);

pub struct HP;
impl hash_map::Params for HP { const INITIAL_CAPACITY: usize = 4; type Node = N<Rich>; }
impl equiv_classes::Table for Never { type Node = N<Rich>; type Rc = <hash_map::Table<HP> as equiv_classes::Table>::Rc;
    fn get(&self, k: &Nid) -> Option<&Self::Rc> { self.0.get(k) }
    fn insert(&mut self, k: Nid, v: Self::Rc) { self.0.insert(k, v) } }
/// A plain table.
#[derive(Default)]
pub struct Never(hash_map::Table<HP>);
/// Interleaving that is slow for longer than these comparisons last.
struct Slow<const P: u16>;
impl<const P: u16> interleave::Params for Slow<P> {
    const PRECHECK_LIMIT: u16 = P;
    const FAST_LIMIT_MAX: u16 = 1;
    const SLOW_LIMIT: u16 = 30_000;
    type Node = N<Rich>;
    type RNG = Script;
    type Table = Never;
}
struct Pre<const P: u16>;
impl<const P: u16> precheck_interleave::Params<N<Rich>> for Pre<P> {
    type Error = PErr;
    type InterleaveParams = Slow<P>;
    type InterleaveRecurMode = Moody;
    type PrecheckRecurMode = Moody;
}

fn custom_run<M>(a: u64, b: u64) -> Result<Rich, PErr>
where Custom<M>: equiv::Params<DescendMode = Descend, Error = PErr, Node = N<Rich>>
{
    Equiv::<Custom<M>>::new(Descend).equiv(Nd::root(a), Nd::root(b))
}
fn pre_run<const P: u16>(a: u64, b: u64) -> Result<Rich, PErr> { precheck_interleave::equiv::<N<Rich>, Pre<P>>(Nd::root(a), Nd::root(b)) }

type Ways = (&'static str, &'static str, u16, fn(u64, u64) -> Result<Rich, PErr>);

pub fn run(io: &Io) {
    let mut r = R::new(io.seed ^ 0x9107);
    let ways: Vec<Ways> = vec![
        ("custom", "scripted", 0, custom_run::<Moody>),
        ("custom", "call", 0, custom_run::<CallStack>),
        ("custom", "stack", 0, custom_run::<RecurStack<RP<Rich>>>),
        ("custom", "queue", 0, custom_run::<RecurQueue<RP<Rich>>>),
        ("custom", "scripted", 0, custom_run::<Moody>),
        ("pre", "scripted", 1, pre_run::<1>),
        ("pre", "scripted", 4, pre_run::<4>),
        ("pre", "scripted", 9, pre_run::<9>),
    ];
    let mut f = io.file("protocol.ndjson");
    let want = io.count(io.num("rand", 1500));
    let max = io.num("max", 9);
    let (mut n, mut events, mut errs, mut tries) = (0usize, 0usize, 0usize, 0usize);
    while n < want && tries < 60 * want {
        tries += 1;
        let c = if r.chance(1, 2) { random_case(&mut r, max) } else { random_acyclic_case(&mut r, max, 60) };
        let (kind, mode, p, go) = ways[(n + tries) % ways.len()];
        let acy = acyclic(&c.g, &[c.a as u32, c.b as u32]);
        // The library's own recursion modes only end if the graphs or the descend mode do.
        let calm = r.chance(1, 3);
        let some = |r: &mut R, v: &[usize]| *r.pick(v);
        let pol = Policy {
            r: r.next(),
            no: if !acy && mode != "scripted" { 350 } else { some(&mut r, &[0, 30, 100, 300]) },
            err: if calm { 0 } else { some(&mut r, &[0, 10, 40, 120]) },
            style: r.below(6),
            prune: if calm { 0 } else { some(&mut r, &[0, 0, 50, 300]) },
            odd: if calm { 0 } else { some(&mut r, &[0, 0, 60, 300]) },
            cmp: if calm { 0 } else { some(&mut r, &[0, 0, 20, 80]) },
            nodes: c.g.n(),
        };
        io.crumb(&case_crumb(&c, &format!("protocol {kind} {mode} {p}")));
        set_case(&c);
        set_rng(RngMode::Zero);
        POL.with(|x| *x.borrow_mut() = pol);
        SAID.with(|s| s.borrow_mut().clear());
        ITERS.with(|i| i.set(0));
        ERRS.with(|i| i.set(0));
        LEFT.with(|i| i.set(r.range(3, 50) as u32));
        let mut res = String::new();
        let rr = observe(3000, 1, || { let x = go(c.a, c.b); res = res_json(&x); match x { Ok(c) => c.out(), Err(_) => Out::Ne } });
        if rr.out.abnormal() {
            // the library's own modes may not end on cycles
            if rr.out == Out::Div && mode != "scripted" && !acy { continue; }
            res = rr.out.json();
        }
        if res.starts_with("[\"err") { errs += 1; }
        let said = SAID.with(|s| s.borrow().clone());
        let ev: Vec<String> = rr.log.iter().filter_map(|e| match e {
            Ev::Cmp { a, b, .. } => Some(format!("[\"C\",{a},{b}]")),
            Ev::Mark { k: 1, x, .. } => Some(said[*x as usize].clone()),
            _ => None,
        }).take(1500).collect();
        if ev.len() < 6 && !rr.out.abnormal() && !r.chance(1, 8) { continue; }
        if ev.len() > 400 && !rr.out.abnormal() { continue; }
        events += ev.len();
        writeln!(f, "{{\"job\":{{\"g\":{},\"a\":{},\"b\":{},\"kind\":\"{kind}\",\"mode\":\"{mode}\",\"P\":{p}}},\"ev\":[{}],\"res\":{res}}}",
            c.g.json(), c.a, c.b, ev.join(",")).unwrap();
        n += 1;
    }
    io.stats(&[("conversations", n.to_string()), ("events", events.to_string()), ("ended_in_an_error", errs.to_string())]);
}
