//! RefId over all kinds of references.
//!
//! Arguments: rand=K rounds.

use super::*;
use graph_safe_compare::utils::RefId;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

/// Address and metadata as found out without RefId; the metadata is a small number told by `meta`.
fn look<T: Deref>(x: &T, meta: fn(&T::Target) -> usize) -> (usize, usize) {
    let p: *const T::Target = &**x;
    (p.cast::<()>() as usize, meta(x))
}

fn tri(o: std::cmp::Ordering) -> i32 { o as i32 }

fn record<T: Deref>(f: &mut impl Write, kind: &str, refs: Vec<T>, meta: fn(&T::Target) -> usize, st: &mut (usize, usize)) {
    let whats: Vec<(usize, usize)> = refs.iter().map(|x| look(x, meta)).collect();
    let mut addrs: Vec<usize> = whats.iter().map(|w| w.0).collect();
    addrs.sort_unstable();
    addrs.dedup();
    let ids: Vec<RefId<T>> = refs.into_iter().map(RefId).collect();
    let hash = |x: &RefId<T>| { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() };
    let hs: Vec<u64> = ids.iter().map(hash).collect();
    let mut rank: BTreeMap<u64, usize> = BTreeMap::new();
    for h in &hs { let k = rank.len(); rank.entry(*h).or_insert(k); }
    let mut rows = vec![];
    for a in &ids {
        let row: Vec<String> = ids.iter().map(|b| {
            st.1 += 8;
            let v = [i32::from(a == b), i32::from(a != b), i32::from(a < b), i32::from(a <= b), i32::from(a > b), i32::from(a >= b),
                tri(a.cmp(b)), a.partial_cmp(b).map_or(9, tri)];
            format!("[{}]", v.map(|x| x.to_string()).join(","))
        }).collect();
        rows.push(format!("[{}]", row.join(",")));
    }
    // Moved about, they still are who they were.
    let n = ids.len();
    let mut hset = HashSet::new();
    let mut bset = BTreeSet::new();
    let hs2: Vec<usize> = ids.iter().map(|x| *rank.get(&hash(x)).unwrap_or(&999_999)).collect();
    let boxed: Vec<Box<RefId<T>>> = ids.into_iter().map(Box::new).collect();
    let shown: Vec<String> = whats.iter().map(|w| format!("[{},{}]", addrs.binary_search(&w.0).unwrap(), w.1)).collect();
    for x in &boxed { hset.insert(x); }
    for x in &boxed { bset.insert(x); }
    let sets = [hset.len(), bset.len()];
    writeln!(f, "{{\"kind\":\"{kind}\",\"refs\":[{}],\"ops\":[{}],\"hash\":[{}],\"sets\":[{},{}]}}",
        shown.join(","), rows.join(","), hs2.iter().map(usize::to_string).collect::<Vec<_>>().join(","), sets[0], sets[1]).unwrap();
    st.0 += n;
}

/// References that are copied, moved and cloned.
fn with_copies<T: Deref + Clone>(r: &mut R, v: Vec<T>) -> Vec<T> {
    let mut out = vec![];
    for x in v {
        for _ in 0..r.below(3) { out.push(x.clone()); }
        out.push(x);
    }
    for i in (1..out.len()).rev() { let j = r.below(i + 1); out.swap(i, j); }
    out.truncate(14);
    out
}

trait Tr { fn tag(&self) -> usize; fn set(&self, v: u32); }
#[repr(C)]
struct Inner(Cell<u32>);
#[repr(C)]
struct Outer(Inner, u32);
struct Zst;
impl Tr for Inner { fn tag(&self) -> usize { 0 } fn set(&self, v: u32) { self.0.set(v) } }
impl Tr for Outer { fn tag(&self) -> usize { 1 } fn set(&self, v: u32) { self.0.0.set(v) } }
impl Tr for Zst { fn tag(&self) -> usize { 2 } fn set(&self, _: u32) {} }
// One place each where the table of methods comes from.
#[inline(never)] fn dyn_inner(x: &Inner) -> &(dyn Tr + 'static) { x }
#[inline(never)] fn dyn_outer(x: &Outer) -> &(dyn Tr + 'static) { x }
#[inline(never)] fn dyn_zst(x: &Zst) -> &(dyn Tr + 'static) { x }
#[inline(never)] fn rc_inner(x: Rc<Inner>) -> Rc<dyn Tr> { x }
#[inline(never)] fn rc_outer(x: Rc<Outer>) -> Rc<dyn Tr> { x }
#[inline(never)] fn arc_inner(x: Arc<Inner>) -> Arc<dyn Tr> { x }
#[inline(never)] fn arc_outer(x: Arc<Outer>) -> Arc<dyn Tr> { x }

/// Never equal to anything, for the target's own operators must not matter.
#[derive(Clone)]
struct Odd(#[allow(dead_code)] u8);
impl PartialEq for Odd { fn eq(&self, _: &Odd) -> bool { false } }

pub fn run(io: &Io) {
    let mut r = R::new(io.seed ^ 0x1de7);
    let mut f = io.file("identity.ndjson");
    let mut st = (0, 0);
    let thin = |_: &u32| 0;
    for _ in 0..io.count(io.num("rand", 40)) {
        let n = r.range(1, 6);
        // Values alike, so that going by value would show.
        let vals: Vec<u32> = (0..n).map(|_| r.below(2) as u32).collect();
        let arr: [u32; 8] = std::array::from_fn(|_| r.below(2) as u32);
        record(&mut f, "&u32", with_copies(&mut r, vals.iter().collect::<Vec<&u32>>()), thin, &mut st);
        record(&mut f, "&u32 in one array", with_copies(&mut r, arr.iter().collect::<Vec<&u32>>()), thin, &mut st);
        record(&mut f, "Rc", with_copies(&mut r, vals.iter().map(|v| Rc::new(*v)).collect::<Vec<_>>()), thin, &mut st);
        record(&mut f, "Arc", with_copies(&mut r, vals.iter().map(|v| Arc::new(*v)).collect::<Vec<_>>()), thin, &mut st);
        record(&mut f, "Box", vals.iter().map(|v| Box::new(*v)).collect::<Vec<_>>(), thin, &mut st);
        record(&mut f, "Pin<&>", with_copies(&mut r, vals.iter().map(Pin::new).collect::<Vec<_>>()), thin, &mut st);
        let odds: Vec<Odd> = (0..n).map(|_| Odd(0)).collect();
        record(&mut f, "&Odd", with_copies(&mut r, odds.iter().collect::<Vec<_>>()), |_| 0, &mut st);
        let fl = [f64::NAN, f64::NAN, 0.0, -0.0];
        record(&mut f, "&f64", with_copies(&mut r, fl.iter().collect::<Vec<_>>()), |_| 0, &mut st);
        record(&mut f, "&Cell", with_copies(&mut r, [Cell::new(1), Cell::new(1)].iter().collect::<Vec<&Cell<i32>>>()), |_| 0, &mut st);
        // Same address, other lengths.
        let mut sl: Vec<&[u32]> = vec![];
        for _ in 0..6 { let i = r.below(8); let j = r.range(i, 8); sl.push(&arr[i..j]); if r.chance(1, 2) { let j = r.range(i, 8); sl.push(&arr[i..j]); } }
        record(&mut f, "&[u32]", with_copies(&mut r, sl), |s: &[u32]| s.len(), &mut st);
        let units = [(); 5];
        let mut us: Vec<&[()]> = vec![];
        for _ in 0..5 { us.push(&units[..r.below(6)]); }
        record(&mut f, "&[()]", us, |s: &[()]| s.len(), &mut st);
        let text = String::from("aaaaaaaa");
        let mut ts: Vec<&str> = vec![];
        for _ in 0..6 { let i = r.below(8); ts.push(&text[i..r.range(i, 8)]); ts.push(&text[i..]); }
        record(&mut f, "&str", with_copies(&mut r, ts), |s: &str| s.len(), &mut st);
        record(&mut f, "Rc<str>", with_copies(&mut r, (0..n).map(|_| Rc::<str>::from("same")).collect()), |s: &str| s.len(), &mut st);
        record(&mut f, "Rc<[u32]>", with_copies(&mut r, (0..n).map(|i| Rc::<[u32]>::from(&vals[..i])).collect()), |s: &[u32]| s.len(), &mut st);
        record(&mut f, "Arc<[u32]>", with_copies(&mut r, (0..n).map(|_| Arc::<[u32]>::from(vals.clone())).collect()), |s: &[u32]| s.len(), &mut st);
        record(&mut f, "Box<[u32]>", (0..n).map(|_| vals.clone().into_boxed_slice()).collect::<Vec<_>>(), |s: &[u32]| s.len(), &mut st);
        record(&mut f, "Vec", (0..n).map(|_| vals.clone()).collect::<Vec<_>>(), |s: &[u32]| s.len(), &mut st);
        record(&mut f, "String", (0..n).map(|_| text.clone()).collect::<Vec<_>>(), |s: &str| s.len(), &mut st);
        // Same address, other methods.
        let outs: Vec<Outer> = (0..n).map(|_| Outer(Inner(Cell::new(0)), 0)).collect();
        let z = [Zst, Zst];
        let mut ds: Vec<&(dyn Tr + 'static)> = vec![];
        for o in &outs { ds.push(dyn_outer(o)); ds.push(dyn_inner(&o.0)); }
        ds.push(dyn_zst(&z[0]));
        ds.push(dyn_zst(&z[1]));
        for d in &ds { d.set(7); }
        record(&mut f, "&dyn", with_copies(&mut r, ds), |d: &(dyn Tr + 'static)| d.tag(), &mut st);
        let mut rs: Vec<Rc<dyn Tr>> = vec![];
        let mut as_: Vec<Arc<dyn Tr>> = vec![];
        for _ in 0..n { rs.push(rc_outer(Rc::new(Outer(Inner(Cell::new(0)), 0)))); rs.push(rc_inner(Rc::new(Inner(Cell::new(0))))); }
        for _ in 0..n { as_.push(arc_outer(Arc::new(Outer(Inner(Cell::new(0)), 0)))); as_.push(arc_inner(Arc::new(Inner(Cell::new(0))))); }
        record(&mut f, "Rc<dyn>", with_copies(&mut r, rs), |d: &(dyn Tr + 'static)| d.tag(), &mut st);
        record(&mut f, "Arc<dyn>", with_copies(&mut r, as_), |d: &(dyn Tr + 'static)| d.tag(), &mut st);
    }
    io.stats(&[("references", st.0.to_string()), ("operators_applied", st.1.to_string())]);
}
