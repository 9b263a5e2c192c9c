//! Every node of a graph compared to every node.
//!
//! Arguments: rand=K, max=M.

use super::*;
use crate::gen::*;
use crate::variants::*;
use std::cmp::Ordering;
use std::rc::Rc;

pub fn run(io: &Io) {
    let mut r = R::new(io.seed ^ 0x1a35);
    let mut cyc: Vec<Variant> = premade::<Ordering>();
    cyc.extend(premade::<bool>());
    let mut few: Vec<Variant> = interleaved_few::<Ordering>();
    few.extend(interleaved_few::<bool>());
    few.extend(tabled::<Ordering>());
    few.extend(interleaved::<Ordering>());
    let mut simp: Vec<Variant> = simple::<Ordering>();
    simp.extend(simple::<bool>());
    let mut f = io.file("laws.ndjson");
    let max = io.num("max", 8);
    let (mut n, mut runs, mut eqs, mut acys) = (0, 0u64, 0u64, 0);
    let want = io.count(io.num("rand", 200));
    while n < want {
        let c = match n % 5 {
            0 => random_acyclic_case(&mut r, max, 200),
            1 | 2 => random_acyclic_case(&mut r, max + 2, 200),
            _ => random_case(&mut r, max),
        };
        let mut g = (*c.g).clone();
        // Labels of several values, edges that end early: more orderings to be had.
        if r.chance(1, 2) { for l in &mut g.lab { if r.chance(1, 6) { *l = r.below(3) as u32; } } }
        let nn = g.n();
        if nn > 14 { continue; }
        let all: Vec<u32> = (1..=nn as u32).collect();
        let acy = acyclic(&g, &all);
        if acy && all.iter().any(|&a| all.iter().any(|&b| bfs_visits(&g, a, b, 1500) > 1500)) { continue; }
        let g = Rc::new(g);
        set_graph(&g);
        io.crumb(&case_crumb(&Case { g: g.clone(), a: 1, b: 1, tag: "laws", ids: Default::default() }, "laws"));
        let mut vs: Vec<&Variant> = cyc.iter().collect();
        for _ in 0..6 { vs.push(r.pick(&few)); }
        if acy { vs.extend(simp.iter()); acys += 1; }
        let d = g.adj.iter().map(Vec::len).max().unwrap_or(0);
        let mut ms = vec![];
        for v in vs {
            let mut rows = vec![];
            for a in 1..=nn as u64 {
                let mut row = vec![];
                for b in 1..=nn as u64 {
                    set_rng(rng_for(&mut r, runs as usize, v.f));
                    let rr = observe(budget(nn, d, v.p, v.f, v.s) + 4_000_000 * u64::from(v.descend == "unlimited"), 0, || (v.run)(a, b));
                    runs += 1;
                    row.push(match rr.out { Out::Eq => { eqs += 1; "0" }, Out::Lt => "-1", Out::Gt => "1", Out::Ne => "2", _ => "9" });
                }
                rows.push(format!("[{}]", row.join(",")));
            }
            ms.push(format!("[\"{}\",\"{}\",\"{}\",[{}]]", v.name, v.group(), v.kind, rows.join(",")));
        }
        writeln!(f, "{{\"g\":{},\"acy\":{acy},\"m\":[{}]}}", g.json(), ms.join(",")).unwrap();
        n += 1;
    }
    io.stats(&[("graphs", n.to_string()), ("acyclic", acys.to_string()), ("comparisons", runs.to_string()), ("equivalent", eqs.to_string())]);
}
