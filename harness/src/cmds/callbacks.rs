//! Every call of a node method.
//!
//! Arguments: rand=K, max=M, maxev=N; pos=1: with edges in orders that vary by position.

use super::*;
use crate::gen::*;
use crate::variants::*;
use std::cmp::Ordering;

pub fn run(io: &Io) {
    let mut r = R::new(io.seed ^ 0xca11);
    let mut vs: Vec<Variant> = interleaved::<Rich>();
    vs.extend(interleaved_few::<bool>());
    vs.extend(tabled::<Rich>());
    vs.extend(byhand::<Rich>());
    for _ in 0..3 {
        vs.extend(premade::<Rich>());
        vs.extend(premade::<Ordering>());
        vs.extend(simple::<Rich>());
        vs.extend(simple::<bool>());
    }
    let mut ls = limited::<Rich>();
    ls.extend(limited::<bool>());
    let mut f = io.file("callbacks.ndjson");
    let want = io.count(io.num("rand", 800));
    let (max, maxev) = (io.num("max", 9), io.num("maxev", 160));
    let pos = io.num("pos", 0) > 0;
    let (mut n, mut events, mut tries) = (0, 0, 0);
    while n < want && tries < 50 * want {
        tries += 1;
        let pick = r.below(8);
        let v = &vs[(n + tries) % vs.len()];
        let lv = r.pick(&ls);
        let simple = pick == 0 || v.descend == "unlimited";
        let c = if simple {
            if r.chance(1, 3) { random_different_case(&mut r, max, 60) } else { random_acyclic_case(&mut r, max, 60) }
        } else { random_case(&mut r, max) };
        if simple && pick != 0 && !acyclic(&c.g, &[c.a as u32, c.b as u32]) {
            let x = if v.recur == "queue" { bfs_visits(&c.g, c.a as u32, c.b as u32, 200) } else { dfs_visits(&c.g, c.a as u32, c.b as u32, 200) };
            if x > 200 { continue; }
        }
        let c = if pos { positioned(&mut r, &c) } else { c };
        io.crumb(&case_crumb(&c, if pick == 0 { lv.name } else { v.name }));
        set_case(&c);
        set_rng(rng_for(&mut r, n, if pick == 0 { 1 } else { v.f }));
        let d = c.g.adj.iter().map(Vec::len).max().unwrap_or(0);
        let rr = if pick == 0 {
            let l = r.range(0, 30) as u128;
            observe(100_000, 2, || (lv.run)(l, c.a, c.b))
        } else {
            observe(budget(c.g.n(), d, v.p, v.f, v.s), 2, || (v.run)(c.a, c.b))
        };
        if rr.log.len() > maxev && !rr.out.abnormal() { continue; }
        // Which node an instance is.
        let mut node: std::collections::HashMap<u32, u64> = Default::default();
        let evs: Vec<String> = rr.log.iter().take(600).filter_map(|e| Some(match e {
            Ev::Root { a, ia, of } => { node.insert(*ia, *a); format!("[\"r\",{a},{ia},{of}]") },
            Ev::Edge { a, ia, idx, res } => {
                let child = if *res == 0 { 0 } else { u64::from(c.g.edge(*a as u32, *idx as usize).unwrap_or(0)) };
                format!("[\"e\",{a},{ia},{idx},{res},{child}]")
            },
            Ev::Cmp { a, b, ia, ib, eq, .. } => format!("[\"c\",{a},{b},{ia},{ib},{eq}]"),
            _ => return None,
        })).collect();
        events += evs.len();
        writeln!(f, "{{\"name\":\"{}\",\"pre\":{},\"g\":{},\"a\":{},\"b\":{},\"res\":{},\"ev\":[{}]}}",
            if pick == 0 { lv.name } else { v.name }, pick != 0 && v.pre, c.g.json(), c.a, c.b, rr.out.json(), evs.join(",")).unwrap();
        n += 1;
    }
    io.stats(&[("comparisons", n.to_string()), ("calls", events.to_string())]);
}
