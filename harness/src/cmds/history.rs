//! Histories: graphs that change between comparisons, comparisons cut off by panics, nested in node
//! methods of others, and running in lockstep in several threads.
//!
//! Arguments: rand=K, max=M, len=L, threads=K.

use super::*;
use crate::gen::*;
use crate::variants::*;
use std::cmp::Ordering;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

fn variants() -> (Vec<Variant>, Vec<Variant>) {
    let mut cyc: Vec<Variant> = vec![];
    for _ in 0..3 {
        cyc.extend(premade::<Rich>());
        cyc.extend(premade::<Ordering>());
        cyc.extend(premade::<bool>());
    }
    cyc.extend(interleaved_few::<Rich>());
    cyc.extend(interleaved_few::<bool>());
    cyc.extend(tabled::<Rich>());
    cyc.extend(byhand::<Rich>());
    cyc.extend(recycled::<Rich>());
    cyc.extend(recycled::<Ordering>());
    cyc.extend(recycled::<Rich>());
    let mut simp = simple::<Rich>();
    simp.extend(simple::<bool>());
    (cyc, simp)
}

struct H { g: Graph, ev: Vec<String>, last: std::collections::HashMap<(u64, u64), bool>, flips: usize, cut: usize, nested: usize, cmps: usize }

impl H {
    fn new(g: Graph) -> Self {
        let mut h = H { g, ev: vec![], last: Default::default(), flips: 0, cut: 0, nested: 0, cmps: 0 };
        h.publish();
        h
    }
    fn publish(&mut self) {
        set_graph(&Rc::new(self.g.clone()));
        self.ev.push(format!("[\"g\",{}]", self.g.json()));
    }
    fn did(&mut self, v: &Variant, a: u64, b: u64, out: &Out, cut: bool) {
        self.ev.push(format!("[\"c\",\"{}\",\"{}\",\"{}\",{a},{b},{},{}]", v.name, v.group(), v.kind, out.json(), u8::from(cut)));
        self.cmps += 1;
        if *out == Out::Injected { self.cut += 1; } else {
            let eq = *out == Out::Eq;
            if self.last.insert((a, b), eq).is_some_and(|x| x != eq) { self.flips += 1; }
        }
    }
}

fn choose<'a>(r: &mut R, g: &Graph, a: u64, b: u64, cyc: &'a [Variant], simp: &'a [Variant]) -> &'a Variant {
    let (x, y) = (a as u32, b as u32);
    if r.chance(1, 4) && acyclic(g, &[x, y]) && bfs_visits(g, x, y, 800) <= 800 && dfs_visits(g, x, y, 800) <= 800 { r.pick(simp) } else { r.pick(cyc) }
}

fn guarded(f: impl FnOnce() -> Out) -> Out {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(p) => if p.is::<Diverge>() { Out::Div } else if p.is::<Injected>() { Out::Injected } else { Out::Panic },
    }
}

fn story(r: &mut R, max: usize, len: usize, cyc: &[Variant], simp: &[Variant]) -> H {
    let c = random_case(r, max);
    let mut h = H::new((*c.g).clone());
    let orig = h.g.clone();
    let mut pairs = vec![(c.a, c.b)];
    for _ in 0..2 { pairs.push((r.range(1, h.g.n()) as u64, r.range(1, h.g.n()) as u64)); }
    for step in 0..len {
        let (x, y) = *r.pick(&pairs);
        OTHER.with(|o| o.set((x, y, [0, 1, 3, 8, 50][r.below(5)])));
        match r.below(6) {
            0 => {
                // The graph changes, or changes back.
                if r.chance(1, 3) { h.g = orig.clone(); } else { let mut g = h.g.clone(); mutate(r, &mut g, false); h.g = g; }
                h.publish();
            },
            1 => {
                // A node method panics somewhere along the way.
                let (a, b) = *r.pick(&pairs);
                let v = choose(r, &h.g, a, b, cyc, simp);
                set_rng(rng_for(r, step, v.f));
                let at = r.range(1, 24) as u64;
                BOMB.with(|x| x.set(at));
                let rr = observe(2_000_000, 0, || (v.run)(a, b));
                BOMB.with(|x| x.set(0));
                h.did(v, a, b, &rr.out, true);
            },
            2 => {
                // Others run inside its node methods; some of those are cut off.
                let (a, b) = *r.pick(&pairs);
                let v = *choose(r, &h.g, a, b, cyc, simp);
                set_rng(rng_for(r, step, v.f));
                let mut plan: Vec<(Variant, u64, u64, bool)> = vec![];
                for _ in 0..6 {
                    let (x, y) = if r.chance(1, 2) { (a, b) } else { *r.pick(&pairs) };
                    plan.push((*choose(r, &h.g, x, y, cyc, simp), x, y, r.chance(1, 4)));
                }
                let seen: Rc<std::cell::RefCell<Vec<(Variant, u64, u64, bool, Out)>>> = Default::default();
                let s2 = seen.clone();
                let mut at = 0usize;
                let every = r.range(1, 3);
                NESTED.with(|n| *n.borrow_mut() = Some(Box::new(move |_, _| {
                    at += 1;
                    if at % every != 0 || at / every > 6 { return; }
                    let (v, x, y, bomb) = plan[at / every - 1];
                    if bomb { BOMB.with(|b| b.set(CALLS.with(std::cell::Cell::get) + 3)); }
                    let o = guarded(|| (v.run)(x, y));
                    BOMB.with(|b| b.set(0));
                    s2.borrow_mut().push((v, x, y, bomb, o));
                })));
                let rr = observe(4_000_000, 0, || (v.run)(a, b));
                NESTED.with(|n| *n.borrow_mut() = None);
                DEPTH.with(|d| d.set(0));
                BOMB.with(|x| x.set(0));
                for (v, x, y, bomb, o) in seen.borrow().iter() { h.did(v, *x, *y, o, *bomb); h.nested += 1; }
                h.did(&v, a, b, &rr.out, false);
            },
            _ => {
                let (a, b) = *r.pick(&pairs);
                let v = choose(r, &h.g, a, b, cyc, simp);
                set_rng(rng_for(r, step, v.f));
                let rr = observe(2_000_000, 0, || (v.run)(a, b));
                h.did(v, a, b, &rr.out, false);
            },
        }
    }
    h
}

/// Whose turn it is to make its next own-value comparison.
struct Turns { sched: Vec<u8>, at: usize, gone: Vec<bool> }
type Shared = Arc<(Mutex<Turns>, Condvar)>;
fn my_turn(s: &Shared, me: u8) {
    let (m, c) = &**s;
    let mut t = m.lock().unwrap();
    loop {
        while t.at < t.sched.len() && t.gone[t.sched[t.at] as usize] { t.at += 1; }
        if t.at >= t.sched.len() || t.sched[t.at] == me { break; }
        t = c.wait_timeout(t, std::time::Duration::from_secs(5)).unwrap().0;
    }
    if t.at < t.sched.len() { t.at += 1; }
    c.notify_all();
}

pub fn run(io: &Io) {
    let mut r = R::new(io.seed ^ 0x4157);
    let (cyc, simp) = variants();
    let mut f = io.file("history.ndjson");
    let (max, len) = (io.num("max", 10), io.num("len", 14));
    let (mut n, mut cmps, mut flips, mut cut, mut nested, mut par) = (0, 0, 0, 0, 0, 0);
    for _ in 0..io.count(io.num("rand", 300)) {
        io.crumb("history");
        let h = story(&mut r, max, len, &cyc, &simp);
        writeln!(f, "{{\"what\":\"story\",\"ev\":[{}]}}", h.ev.join(",")).unwrap();
        n += 1; cmps += h.cmps; flips += h.flips; cut += h.cut; nested += h.nested;
    }
    // Two or three threads, taking turns at random: their graphs have the same identities but are
    // not the same.
    for i in 0..io.count(io.num("threads", 60)) {
        io.crumb("history threads");
        let k = 2 + i % 2;
        let sched: Vec<u8> = (0..600).map(|_| r.below(k) as u8).collect();
        let s: Shared = Arc::new((Mutex::new(Turns { sched, at: 0, gone: vec![false; k] }), Condvar::new()));
        let hs: Vec<_> = (0..k).map(|me| {
            let (s, seed) = (s.clone(), r.next());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut r = R::new(seed);
                let (cyc, simp) = variants();
                let s2 = s.clone();
                // Bare runs: no nesting of others' comparisons here, the hook is for the turns.
                let c = random_case(&mut r, 10);
                let mut h = H::new((*c.g).clone());
                NESTED.with(|n| *n.borrow_mut() = Some(Box::new(move |_, _| my_turn(&s2, me as u8))));
                for step in 0..8 {
                    if r.chance(1, 4) { let mut g = h.g.clone(); mutate(&mut r, &mut g, false); h.g = g; h.publish(); }
                    let v = choose(&mut r, &h.g, c.a, c.b, &cyc, &simp);
                    set_rng(rng_for(&mut r, step, v.f));
                    let rr = observe(2_000_000, 0, || (v.run)(c.a, c.b));
                    h.did(v, c.a, c.b, &rr.out, false);
                }
                let (m, cv) = &*s;
                m.lock().unwrap().gone[me] = true;
                cv.notify_all();
                h
            }).unwrap()
        }).collect();
        for h in hs {
            let h = h.join().expect("thread");
            writeln!(f, "{{\"what\":\"thread\",\"ev\":[{}]}}", h.ev.join(",")).unwrap();
            par += 1; cmps += h.cmps; flips += h.flips;
        }
    }
    io.stats(&[("histories", n.to_string()), ("threads", par.to_string()), ("comparisons", cmps.to_string()),
        ("verdicts_that_changed", flips.to_string()), ("cut_off_by_panics", cut.to_string()), ("nested", nested.to_string())]);
}
