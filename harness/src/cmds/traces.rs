//! Step-by-step recordings of comparisons, for validation against the comparison machine.
//!
//! Arguments: sel=kinds of variants (comma separated), rand=K, max=M; pos=1: with edges in orders that vary by position; exh=N, exhmax=K: every behaviour
//! (every sequence of random numbers) over every graph of up to N nodes, thinned to about K of them.

use super::*;
use crate::gen::*;
use crate::variants::*;
use std::cmp::Ordering;

pub fn ev_json(e: &Ev) -> Option<String> {
    Some(match e {
        Ev::Cmp { a, b, live, stk, .. } => format!("[\"c\",{a},{b},{live},{stk}]"),
        Ev::Draw { r, end } => format!("[\"d\",{r},{end}]"),
        Ev::Table => "[\"t\"]".into(),
        _ => return None,
    })
}

pub struct Sel { pub inter: bool, pub prem: bool, pub simp: bool, pub tab: bool, pub ext: bool, pub pre_only: bool }

pub fn select(io: &Io) -> Vec<Variant> {
    let sel = io.arg("sel").unwrap_or("inter,prem,simp,tab,ext").to_string();
    let has = |s: &str| sel.split(',').any(|x| x == s);
    let mut v: Vec<Variant> = vec![];
    if has("inter") { v.extend(interleaved::<Rich>()); v.extend(interleaved_few::<bool>()); v.extend(interleaved_few::<Ordering>()); }
    if has("hand") { v.extend(byhand::<Rich>()); v.extend(byhand::<bool>()); v.extend(byhand::<Ordering>()); }
    if has("tab") { v.extend(tabled::<Rich>()); }
    if has("ext") { v.extend(extremes::<Rich>()); }
    if has("simp") { v.extend(simple::<Rich>()); v.extend(simple::<bool>()); v.extend(simple::<Ordering>()); }
    if has("prem") { v.extend(premade::<Rich>()); v.extend(premade::<bool>()); v.extend(premade::<Ordering>()); }
    if has("pre") { v.retain(|x| x.pre); }
    if has("lazy") { v.retain(|x| x.recur != "call"); }
    v
}

/// What the default generator gives when asked as documented.
#[cfg(not(any(feature = "wyrng", feature = "oorandom", all(feature = "fastrand", feature = "fstd"))))]
pub fn default_draws(_n: usize, _end: u16) -> Vec<u16> { vec![] }
#[cfg(any(feature = "wyrng", feature = "oorandom", all(feature = "fastrand", feature = "fstd")))]
pub fn default_draws(n: usize, end: u16) -> Vec<u16> {
    use graph_safe_compare::cycle_safe::modes::interleave::random::{default, NumberGenerator};
    let mut g = default::RandomNumberGenerator::default();
    (0..n).map(|_| g.rand_upto(core::num::NonZeroU16::new(end).unwrap())).collect()
}

pub fn write_trace(f: &mut impl Write, v: &Variant, c: &Case, rr: &Run, rnd: &[u16]) {
    let ev: Vec<String> = rr.log.iter().filter_map(ev_json).collect();
    let job = v.job(&c.g, c.a, c.b, &c.ids);
    let rnd: Vec<String> = rnd.iter().map(u16::to_string).collect();
    writeln!(f, "{{\"name\":\"{}\",\"kind\":\"{}\",\"own\":{},\"rnd\":[{}],\"job\":{job},\"ev\":[{}],\"res\":{}}}",
        v.name, v.kind, v.own_rng, rnd.join(","), ev.join(","), rr.out.json()).unwrap();
}

pub fn run(io: &Io) {
    let mut r = R::new(io.seed ^ 0x7ace);
    let vs = select(io);
    let max = io.num("max", 9);
    let maxev = io.num("maxev", 120);
    let mut f = io.file("traces.ndjson");
    let (mut n, mut events, mut draws, mut tries) = (0usize, 0usize, 0usize, 0usize);
    let mut per: std::collections::BTreeMap<&str, usize> = Default::default();
    let want = io.count(io.num("rand", 2000));
    let big = io.count(io.num("big", 0));
    let pos = io.num("pos", 0) > 0;
    let mut k = 0usize;
    // Generators need not start alike each time.
    let deterministic_default = cfg!(any(feature = "wyrng", feature = "oorandom")) && default_draws(40, 801) == default_draws(40, 801);
    while n < want + big && tries < 40 * (want + big) {
        tries += 1;
        let isbig = n >= want;
        let m = if isbig { io.num("bigmax", 300) } else { max };
        let me = if isbig { 2500 } else { maxev };
        let v = &vs[k % vs.len()];
        if isbig && !(v.own_rng || v.name.starts_with("dflt") || v.name.starts_with("i400") || v.name.starts_with("i20")) { k += 1; continue; }
        let simple = v.descend == "unlimited";
        let c = if simple {
            if r.chance(1, 3) { random_different_case(&mut r, m, 80) } else { random_acyclic_case(&mut r, m, if isbig { 1500 } else { 80 }) }
        } else if isbig { random_case(&mut r, m.max(60)) } else { random_case(&mut r, m) };
        let c = if pos { positioned(&mut r, &c) } else { c };
        let d = c.g.adj.iter().map(Vec::len).max().unwrap_or(0);
        if simple && !acyclic(&c.g, &[c.a as u32, c.b as u32]) {
            let x = if v.recur == "queue" { bfs_visits(&c.g, c.a as u32, c.b as u32, 300) } else { dfs_visits(&c.g, c.a as u32, c.b as u32, 300) };
            if x > 300 { continue; }
        }
        io.crumb(&case_crumb(&c, v.name));
        set_case(&c);
        set_rng(rng_for(&mut r, n / 3, v.f));
        let rr = observe(budget(c.g.n(), d, v.p, v.f, v.s), 1, || (v.run)(c.a, c.b));
        if rr.log.len() > me && !rr.out.abnormal() { continue; }
        k += 1;
        let mut rr = rr;
        rr.log.truncate(4000);
        let rnd = if v.own_rng && deterministic_default { default_draws(40, v.f + 1) } else { vec![] };
        if v.own_rng && !deterministic_default && rr.cmps > 40 { continue; }
        events += rr.log.len();
        draws += rr.draws as usize;
        *per.entry(v.name).or_default() += 1;
        write_trace(&mut f, v, &c, &rr, &rnd);
        n += 1;
    }
    let exh = io.num("exh", 0) as u32;
    let (mut whole, mut pairs, mut distinct_pairs) = (true, 0usize, 0usize);
    if exh > 0 {
        let (shard, shards) = (io.num("shard", 0), io.num("shards", 1));
        let vx: Vec<&Variant> = vs.iter().filter(|v| !v.own_rng && v.f <= 5).collect();
        let mut cases: Vec<Case> = vec![];
        for m in 1..=exh { exhaustive(m, 2, 2, |c| cases.push(c)); }
        let most = io.count(io.num("exhmax", 2000));
        let total = cases.len() * vx.len();
        let step = (total / shards / most).max(1);
        whole = step == 1;
        let mut ix = r.below(step) * shards + shard;
        while ix < total {
            let (c, v) = (&cases[ix / vx.len()], vx[ix % vx.len()]);
            let moved;
            let c = if pos { moved = positioned(&mut r, c); &moved } else { c };
            ix += step * shards;
            let acy = acyclic(&c.g, &[c.a as u32, c.b as u32]);
            if v.descend == "unlimited" && !acy { continue; }
            io.crumb(&case_crumb(c, v.name));
            set_case(&c);
            pairs += 1;
            // the next sequence of numbers, until the last
            let mut script: Vec<u16> = vec![];
            for _ in 0..60 {
                let mut l = script.clone();
                l.resize(l.len() + 64, 0);
                set_rng(RngMode::List(l, 0));
                let rr = observe(budget(c.g.n(), 2, v.p, v.f, v.s), 1, || (v.run)(c.a, c.b));
                if rr.log.len() > maxev && !rr.out.abnormal() { break; }
                distinct_pairs += 1;
                events += rr.log.len();
                draws += rr.draws as usize;
                write_trace(&mut f, v, c, &rr, &[]);
                n += 1;
                let drawn: Vec<(u16, u32)> = rr.log.iter().filter_map(|e| match e { Ev::Draw { r, end } => Some((*r, *end)), _ => None }).collect();
                let Some(i) = drawn.iter().rposition(|(x, end)| u32::from(*x) + 1 < *end) else { break };
                script = drawn[..=i].iter().map(|d| d.0).collect();
                script[i] += 1;
            }
        }
    }
    io.stats(&[("exhaustive", format!("{{\"graphs_and_variants\":{pairs},\"behaviours\":{distinct_pairs},\"up_to_nodes\":\"{exh}\",\"thinned\":\"{}\"}}", !whole)),
        ("traces", n.to_string()), ("events", events.to_string()), ("draws", draws.to_string()),
        ("variants", per.len().to_string())]);
}
