//! Answers and amounts of work of every variant, over many graphs.
//!
//! Arguments: set=cyc|acyc|diff|lim|pos (which variants and graphs), exh=N (exhaustive up to N nodes),
//! rand=K (random cases), max=M (nodes of the small ones), big=K, bigmax=M.

use super::*;
use crate::gen::*;
use crate::variants::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;

fn all<T>(f: impl Fn(usize) -> Vec<T>) -> Vec<T> {
    (0..3).flat_map(f).collect()
}
fn by_kind<T>(k: usize, b: fn() -> Vec<T>, o: fn() -> Vec<T>, r: fn() -> Vec<T>) -> Vec<T> {
    match k { 0 => b(), 1 => o(), _ => r() }
}

pub fn run(io: &Io) {
    let set = io.arg("set").unwrap_or("cyc").to_string();
    let mut r = R::new(io.seed);
    let inter = all(|k| by_kind(k, interleaved_few::<bool>, interleaved_few::<Ordering>, interleaved::<Rich>));
    let tabs = tabled::<Rich>();
    let exts = extremes::<Rich>();
    let prem = all(|k| by_kind(k, premade::<bool>, premade::<Ordering>, premade::<Rich>));
    let simp = all(|k| by_kind(k, simple::<bool>, simple::<Ordering>, simple::<Rich>));
    let lims = all(|k| by_kind(k, limited::<bool>, limited::<Ordering>, limited::<Rich>));

    let mut cases: Vec<Case> = vec![];
    // Exhaustive part, thinned evenly to `exhmax` cases.
    let exh = io.num("exh", 2) as u32;
    let exhmax = io.count(io.num("exhmax", 1500));
    let mut exhausted = 0u32;
    for n in 1..=exh {
        let d = if n <= 2 { 2 } else { io.num("exhdeg", 2) };
        let total = exhaustive_count(n, d, 2);
        let keep_all = total as usize <= exhmax;
        if keep_all { exhausted = n; }
        let mut i = 0u64;
        let step = (total as f64 / exhmax as f64).max(1.0);
        let mut next = r.below(step as usize + 1) as f64;
        exhaustive(n, d, 2, |c| {
            if keep_all || i as f64 >= next {
                next += step;
                cases.push(c);
            }
            i += 1;
        });
    }
    if set == "acyc" || set == "lim" { cases.retain(|c| set == "lim" || acyclic(&c.g, &[c.a as u32, c.b as u32])); }
    let max = io.num("max", 10);
    for i in 0..io.count(io.num("rand", 2000)) {
        cases.push(match set.as_str() {
            "pos" => match i % 3 {
                0 => random_case(&mut r, max),
                1 => random_different_case(&mut r, max, 400),
                _ => random_acyclic_case(&mut r, max, 400),
            },
            "cyc" => random_case(&mut r, max),
            "diff" => random_different_case(&mut r, max, 400),
            "acyc" => random_acyclic_case(&mut r, max, 400),
            _ => if i % 8 == 0 { random_case(&mut r, max) } else { random_acyclic_case(&mut r, max, 300) },
        });
    }
    for i in 0..io.count(io.num("big", 0)) {
        let bm = io.num("bigmax", 80);
        cases.push(match set.as_str() {
            "cyc" => random_case(&mut r, bm),
            "pos" if i % 2 == 0 => random_case(&mut r, bm),
            "diff" => random_different_case(&mut r, bm, 2000),
            _ => random_acyclic_case(&mut r, bm, 2000),
        });
    }

    if set == "pos" { cases = cases.iter().map(|c| positioned(&mut r, c)).collect(); }

    let mut f = io.file("outcomes.ndjson");
    let (mut runs, mut eqs, mut nes) = (0u64, 0u64, 0u64);
    let mut by_tag: BTreeMap<&str, usize> = BTreeMap::new();
    for c in &cases {
        *by_tag.entry(c.tag).or_default() += 1;
        io.crumb(&case_crumb(c, "outcomes"));
        set_case(&c);
        let g = &*c.g;
        let d = g.adj.iter().map(Vec::len).max().unwrap_or(0);
        let (ra, rb) = (c.a as u32, c.b as u32);
        let mut o: BTreeMap<(String, &str, Out), String> = BTreeMap::new();
        let mut w: BTreeMap<(bool, u16, u16, u16), (u64, String)> = BTreeMap::new();
        let mut l: Vec<String> = vec![];
        let acy = acyclic(g, &[ra, rb]);
        if matches!(set.as_str(), "cyc" | "diff" | "acyc" | "pos") {
            // All of the small-limit ones, and some of the others in turn.
            let mut vs: Vec<&Variant> = inter.iter().collect();
            vs.extend(prem.iter());
            for _ in 0..24 { vs.push(r.pick(&tabs)); if !exts.is_empty() { let x = r.pick(&exts); if x.p < 5000 || r.chance(1, 30) { vs.push(x); } } }
            for (i, v) in vs.into_iter().enumerate() {
                set_rng(rng_for(&mut r, i, v.f));
                let rr = observe(budget(g.n(), d, v.p, v.f, v.s), 0, || (v.run)(c.a, c.b));
                runs += 1;
                if rr.out == Out::Eq { eqs += 1 } else { nes += 1 }
                o.entry((v.group().into(), v.kind, rr.out.clone())).or_insert_with(|| v.name.into());
                let e = w.entry((v.pre, v.p, v.f, v.s)).or_insert((0, v.name.into()));
                if rr.cmps > e.0 { *e = (rr.cmps, v.name.into()); }
            }
        }
        if acy || (set == "diff") {
            let bmax = if acy { usize::MAX } else { 3000 };
            for v in &simp {
                if !acy && v.recur == "queue" && bfs_visits(g, ra, rb, bmax) > bmax { continue; }
                if !acy && v.recur != "queue" && dfs_visits(g, ra, rb, bmax) > bmax { continue; }
                let rr = observe(2_000_000, 0, || (v.run)(c.a, c.b));
                runs += 1;
                if rr.out == Out::Eq { eqs += 1 } else { nes += 1 }
                o.entry((v.group().into(), v.kind, rr.out.clone())).or_insert_with(|| v.name.into());
            }
        }
        if set == "lim" || set == "acyc" || (set == "pos" && acy) {
            let cap = 1500;
            let need = |recur: &str| if recur == "queue" { bfs_visits(g, ra, rb, cap) } else { dfs_visits(g, ra, rb, cap) };
            let nb = need("queue");
            let nd = need("call");
            for v in &lims {
                let need = if v.recur == "queue" { nb } else { nd };
                let mut ls: Vec<u128> = vec![need as u128, need.saturating_sub(1) as u128, need as u128 + 1];
                if set == "lim" {
                    ls.extend([0, 1, 2]);
                    for _ in 0..2 { ls.push(r.below(need + 2) as u128); }
                }
                ls.push(v.max);
                ls.push(v.max - 1);
                ls.push(v.max / 2 + 1);
                ls.sort_unstable();
                ls.dedup();
                ls.retain(|x| *x <= v.max);
                if r.chance(3, 4) && ls.len() > 4 { let k = r.below(ls.len()); ls = vec![ls[k], ls[(k + 1) % ls.len()], v.max.min(need as u128), v.max.min(need.saturating_sub(1) as u128)]; ls.dedup(); }
                for x in ls {
                    if need >= cap && x > 2000 { continue; }
                    let rr = observe(200_000, 0, || (v.run)(x, c.a, c.b));
                    runs += 1;
                    if rr.out == Out::Eq { eqs += 1 } else { nes += 1 }
                    // Limits beyond what can matter are all alike to the specification.
                    let shown = x.min(100_000);
                    l.push(format!("[\"{}\",{shown},\"{}\",{},{},\"{}\"]", v.recur, v.kind, rr.out.json(), rr.cmps, v.name));
                }
            }
            l.sort();
            l.dedup_by(|a, b| a.rsplit_once(",\"").map(|x| x.0) == b.rsplit_once(",\"").map(|x| x.0));
        }
        let (mut col, mut rep, mut path) = (vec![], vec![], vec![]);
        if g.n() > 12 {
            let (cc, rr) = colour(g);
            if cc[ra as usize - 1] == cc[rb as usize - 1] { col = cc; rep = rr; }
            else { path = sep_path(g, ra, rb).unwrap_or_default(); }
        }
        let os: Vec<String> = o.iter().map(|((gr, k, out), nm)| format!("[\"{gr}\",\"{k}\",{},\"{nm}\"]", out.json())).collect();
        let ws: Vec<String> = w.iter().map(|((pre, p, f, s), (m, nm))| format!("[{},{p},{f},{s},{m},\"{nm}\"]", u8::from(*pre))).collect();
        writeln!(f, "{{\"tag\":\"{}\",\"g\":{},\"a\":{},\"b\":{},\"ids\":{},\"cert\":{},\"col\":{},\"rep\":{},\"path\":{},\"o\":[{}],\"w\":[{}],\"l\":[{}]}}",
            c.tag, g.json(), c.a, c.b, list(&c.ids), if g.n() > 12 { "true" } else { "false" }, list(&col), list(&rep), list(&path),
            os.join(","), ws.join(","), l.join(",")).unwrap();
    }
    let tags: Vec<String> = by_tag.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    io.stats(&[("cases", cases.len().to_string()), ("distinct_cases", distinct(&cases).to_string()), ("runs", runs.to_string()),
        ("equivalent", eqs.to_string()), ("not_equivalent", nes.to_string()), ("exhaustive_up_to_nodes", format!("\"{exhausted}\"")),
        ("by_kind", format!("{{{}}}", tags.join(",")))]);
}
