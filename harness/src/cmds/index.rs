//! Index types: the end of each, and custom ones.
//!
//! Arguments: rand=K (small graphs), wide=1 (also the types that take long to exhaust).

use super::*;
use crate::gen::*;
use graph_safe_compare::basic;
#[cfg(feature = "falloc")]
use graph_safe_compare::{deep_safe, wide_safe};
#[cfg(feature = "fstd")]
use graph_safe_compare::{cycle_safe, robust};
#[cfg(not(feature = "anticipate"))]
use graph_safe_compare::Step;
#[cfg(feature = "anticipate")]
use std::iter::Step;
use std::rc::Rc;

macro_rules! custom {
    ($name:ident($t:ty), $zero:expr, |$x:ident| $inc:expr, |$y:ident| $val:expr) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct $name($t);
        impl Default for $name { fn default() -> Self { $name($zero) } }
        #[cfg(not(feature = "anticipate"))]
        impl Step for $name { fn increment(&self) -> Option<Self> { let $x = &self.0; let r: Option<$t> = $inc; r.map($name) } }
        #[cfg(feature = "anticipate")]
        impl Step for $name {
            fn steps_between(a: &Self, b: &Self) -> (usize, Option<usize>) {
                let (y, x) = (a.val(), b.val());
                if x >= y { ((x - y) as usize, Some((x - y) as usize)) } else { (0, None) }
            }
            fn forward_checked(from: Self, n: usize) -> Option<Self> {
                let mut at = from;
                for _ in 0..n { let $x = &at.0; let r: Option<$t> = $inc; at = $name(r?); }
                Some(at)
            }
            fn backward_checked(_: Self, _: usize) -> Option<Self> { unimplemented!() }
            fn forward_overflowing(from: Self, n: usize) -> (Self, bool) {
                // goes around, as the integers do
                let (mut at, mut over) = (from, false);
                for _ in 0..n {
                    let $x = &at.0;
                    let r: Option<$t> = $inc;
                    over |= r.is_none();
                    at = $name(r.unwrap_or($zero));
                }
                (at, over)
            }
            fn backward_overflowing(_: Self, _: usize) -> (Self, bool) { unimplemented!() }
        }
        impl Ix for $name { fn val(&self) -> u64 { let $y = &self.0; $val } }
    };
}
custom!(One(()), (), |_x| None, |_y| 0);
custom!(Two(bool), false, |x| if *x { None } else { Some(true) }, |y| u64::from(*y));
custom!(Three(u8), 0, |x| if *x < 2 { Some(x + 1) } else { None }, |y| u64::from(*y));
// counts down, so that it is ordered the other way around
custom!(Down(i16), 9, |x| if *x > 0 { Some(x - 1) } else { None }, |y| (9 - *y) as u64);
custom!(Letters(char), 'a', |x| if *x < 'e' { char::from_u32(*x as u32 + 1) } else { None }, |y| u64::from(*y as u32 - 'a' as u32));
custom!(Digits((u8, u8)), (0, 0), |x| if x.1 < 3 { Some((x.0, x.1 + 1)) } else if x.0 < 3 { Some((x.0 + 1, 0)) } else { None }, |y| u64::from(y.0) * 4 + u64::from(y.1));
custom!(Tally(String), String::new(), |x| if x.len() < 6 { Some(format!("{x}|")) } else { None }, |y| y.len() as u64);
custom!(From5(u64), 5, |x| if *x < 11 { Some(x + 1) } else { None }, |y| *y - 5);

pub struct Star { pub da: u64, pub db: u64, pub diff: u64, pub endless: bool }
impl Rule for Star {
    fn lab(&self, x: u64) -> u32 { u32::from(x == 11 + 2 * self.diff) }
    fn edge(&self, x: u64, i: usize) -> Option<u64> {
        let d = match x { 1 => self.da, 2 => self.db, _ => return None };
        if (i as u64) < d { Some(10 + 2 * i as u64 + (x - 1)) } else { None }
    }
}

type Fun<C, I> = (&'static str, fn(Nd<C, I>, Nd<C, I>) -> C);
fn funs<C: CmpK, I: Ix>() -> Vec<Fun<C, I>> {
    vec![
        ("basic", basic::equiv::<Nd<C, I>>),
        #[cfg(feature = "falloc")]
        ("wide_safe", wide_safe::equiv::<Nd<C, I>>),
        #[cfg(feature = "falloc")]
        ("deep_safe", deep_safe::equiv::<Nd<C, I>>),
        #[cfg(feature = "fstd")]
        ("cycle_safe", cycle_safe::equiv::<Nd<C, I>>),
        #[cfg(feature = "fstd")]
        ("robust", robust::equiv::<Nd<C, I>>),
        #[cfg(feature = "fstd")]
        ("cycle_safe_pre", cycle_safe::precheck_equiv::<Nd<C, I>>),
        #[cfg(feature = "fstd")]
        ("robust_pre", robust::precheck_equiv::<Nd<C, I>>),
    ]
}

fn small(n: u64) -> String { n.min(2_000_000_000).to_string() }

struct W { f: std::io::BufWriter<File>, stars: usize, graphs: usize, incs: usize }

fn stars<I: Ix>(io: &Io, w: &mut W, r: &mut R, ty: &str, cap: Option<u64>, few: bool) {
    // cap: None when it cannot be exhausted
    let c = cap.unwrap_or(70_000);
    let mut ds: Vec<(u64, u64, u64)> = vec![];
    let never = 1_999_999_999;
    if few {
        ds.extend([(c, c, never), (c + 3, c + 9, c - 1), (c + 1, c, never)]);
        let x = r.below(3);
        ds = vec![ds[x], (c + 5, c + 5, never)];
    } else {
        for da in [0, 1, c - 1, c, c + 1, c + 5, 1_000_000_000] {
            for db in [1, c - 1, c, c + 1, c + 7, 1_000_000_000] {
                ds.push((da, db, never));
            }
        }
        for j in [0, 1, c / 2, c.saturating_sub(2), c - 1, c, c + 1] { ds.push((c + 2, c + 2, j)); ds.push((c, c, j)); ds.push((c - 1, c, j)); }
    }
    for (da, db, diff) in ds {
        // what cannot end by the type has to end by the amount
        if cap.is_none() && da > c + 100 && db > c + 100 { continue; }
        for (name, fun) in funs::<Rich, I>() {
            if few && r.chance(1, 2) { continue; }
            let star = Star { da, db, diff, endless: da > c + 100 };
            let _ = star.endless;
            io.crumb(&format!("{{\"index\":\"{ty}\",\"fun\":\"{name}\",\"da\":{da},\"db\":{db},\"diff\":{diff}}}"));
            set_rule(Rc::new(star));
            let rr = observe(20 * c + 20_000, 1, || fun(Nd::root(1), Nd::root(2)).out());
            let mut runs: Vec<(u64, u64)> = vec![];
            let mut roots = 0;
            let mut odd = 0;
            for e in &rr.log {
                if let Ev::Cmp { a, b, .. } = e {
                    if (*a, *b) == (1, 2) { roots += 1; continue; }
                    if *a < 10 || a + 1 != *b || a % 2 != 0 { odd += 1; continue; }
                    let i = (a - 10) / 2;
                    match runs.last_mut() {
                        Some((s, n)) if *s + *n == i => *n += 1,
                        _ => runs.push((i, 1)),
                    }
                }
            }
            runs.truncate(20);
            let rs: Vec<String> = runs.iter().map(|(s, n)| format!("[{},{}]", small(*s), small(*n))).collect();
            writeln!(w.f, "{{\"what\":\"star\",\"type\":\"{ty}\",\"cap\":{},\"fun\":\"{name}\",\"da\":{da},\"db\":{db},\"diff\":{diff},\"roots\":{roots},\"odd\":{odd},\"runs\":[{}],\"res\":\"{}\"}}",
                cap.map_or(1_999_999_999, |c| c), rs.join(","),
                match rr.out { Out::Loc(..) => "loc", Out::Eq => "eq", Out::AmtLt => "lt", Out::AmtGt => "gt", Out::Div => "div", _ => "panic" }).unwrap();
            w.stars += 1;
        }
    }
}

fn graphs<I: Ix>(io: &Io, w: &mut W, r: &mut R, ty: &str, cap: u64, k: usize) {
    for i in 0..k {
        let c = if i % 2 == 0 { random_case(r, 10) } else { random_acyclic_case(r, 10, 200) };
        // widen some nodes, to get over the end of the type
        let mut g = (*c.g).clone();
        let n = g.n();
        for x in 0..n {
            if !g.adj[x].is_empty() && r.chance(1, 2) {
                let y = *r.pick(&g.adj[x]);
                let extra = r.below(cap.min(7) as usize + 2);
                for _ in 0..extra { g.adj[x].push(y); }
            }
        }
        let (a, b) = (c.a as u32, c.b as u32);
        let acy = acyclic(&g, &[a, b]);
        if acy && (bfs_visits(&g, a, b, 3000) > 3000 || dfs_visits(&g, a, b, 3000) > 3000) { continue; }
        let g = Rc::new(g);
        io.crumb(&case_crumb(&Case { g: g.clone(), a: c.a, b: c.b, tag: "index", ids: Default::default() }, ty));
        set_graph(&g);
        let mut o = vec![];
        for (name, fun) in funs::<Rich, I>() {
            if !acy && !name.starts_with("cycle_safe") && !name.starts_with("robust") { continue; }
            let rr = observe(3_000_000, 0, || fun(Nd::root(c.a), Nd::root(c.b)).out());
            o.push(format!("[\"{name}\",{}]", rr.out.json()));
        }
        writeln!(w.f, "{{\"what\":\"graph\",\"type\":\"{ty}\",\"cap\":{cap},\"g\":{},\"a\":{},\"b\":{},\"o\":[{}]}}", g.json(), c.a, c.b, o.join(",")).unwrap();
        w.graphs += 1;
    }
}

#[cfg(feature = "anticipate")]
fn increment<T: Step>(v: &T) -> Option<T> { Step::forward_checked(v.clone(), 1) }
#[cfg(not(feature = "anticipate"))]
fn increment<T: Step>(v: &T) -> Option<T> { v.increment() }

/// increment() of the provided types, as offsets from notable values.
fn increments(w: &mut W) {
    macro_rules! inc {
        ($($t:ident)*) => { $( {
            let near: &[(&str, $t)] = &[("min", $t::MIN), ("zero", 0), ("max", $t::MAX)];
            let mut vs: Vec<$t> = vec![];
            for (_, v) in near { for d in 0..4 { if let Some(x) = v.checked_add(d) { vs.push(x); } if let Some(x) = v.checked_sub(d) { vs.push(x); } } }
            for k in 1..$t::BITS - 1 { let p: $t = 1 << k; vs.push(p); vs.push(p - 1); vs.push(p.wrapping_neg()); }
            if $t::BITS <= 16 { let mut v = $t::MIN; loop { vs.push(v); if v == $t::MAX { break; } v += 1; } }
            vs.sort_unstable();
            vs.dedup();
            let mut ok_next = 0u64; // exactly one more
            let mut ended: Vec<i64> = vec![]; // distance from the maximum of those without a successor
            let mut wrong: Vec<String> = vec![];
            for v in &vs {
                match std::panic::catch_unwind(|| increment(v)) {
                    Ok(Some(x)) => if *v != $t::MAX && x == v.wrapping_add(1) { ok_next += 1 } else { wrong.push(format!("\"{v}->{x}\"")) },
                    Ok(None) => { let d = $t::MAX.abs_diff(*v) as u128; ended.push(if d > 1_000_000 { 1_000_000 } else { d as i64 }); },
                    Err(_) => wrong.push(format!("\"{v} panics\"")),
                }
            }
            wrong.truncate(5);
            let e: Vec<String> = ended.iter().map(|x| x.to_string()).collect();
            writeln!(w.f, "{{\"what\":\"inc\",\"type\":\"{}\",\"values\":{},\"next\":{ok_next},\"ended\":[{}],\"wrong\":[{}]}}",
                stringify!($t), vs.len(), e.join(","), wrong.join(",")).unwrap();
            w.incs += vs.len();
        } )* };
    }
    inc! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }
}

pub fn run(io: &Io) {
    let mut r = R::new(io.seed ^ 0x1d);
    let mut w = W { f: io.file("index.ndjson"), stars: 0, graphs: 0, incs: 0 };
    let shard = io.num("shard", 0);
    let shards = io.num("shards", 1).max(1);
    let k = io.count(io.num("rand", 12));
    let mut ix = 0;
    macro_rules! each {
        ($($t:ident, $name:literal, $cap:expr, $few:expr;)*) => { $( {
            ix += 1;
            let mine = ix % shards == shard % shards || shards == 1;
            if mine { stars::<$t>(io, &mut w, &mut r, $name, $cap, $few); }
            if let Some(cap) = $cap { if cap <= 300 { graphs::<$t>(io, &mut w, &mut r, $name, cap, k); } }
        } )* };
    }
    let long = io.num("wide", 0) == 0;
    each! {
        One, "One", Some(1), false;
        Two, "Two", Some(2), false;
        Three, "Three", Some(3), false;
        Down, "Down", Some(10), false;
        Letters, "Letters", Some(5), false;
        Digits, "Digits", Some(16), false;
        Tally, "Tally", Some(7), false;
        From5, "From5", Some(7), false;
        u8, "u8", Some(256), false;
        i8, "i8", Some(128), false;
        u16, "u16", Some(65536), long;
        i16, "i16", Some(32768), long;
        u32, "u32", None, true;
        i32, "i32", None, true;
        u64, "u64", None, true;
        i64, "i64", None, true;
        u128, "u128", None, true;
        i128, "i128", None, true;
        usize, "usize", None, true;
        isize, "isize", None, true;
    }
    if shard == 0 || shard == shards / 2 { increments(&mut w); }
    io.stats(&[("stars", w.stars.to_string()), ("graphs", w.graphs.to_string()), ("increments", w.incs.to_string())]);
}
