//! The provided random-number generators.
//!
//! Arguments: per=N draws per end, covers=K ends to cover.

use super::*;
use core::num::NonZeroU16;
use graph_safe_compare::cycle_safe::modes::interleave::random::{self, NumberGenerator};

fn draw<G: NumberGenerator>(g: &mut G, end: u16) -> Option<u16> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.rand_upto(NonZeroU16::new(end).unwrap()))).ok()
}

fn all<G: NumberGenerator>(io: &Io, f: &mut impl Write, name: &str, r: &mut R) -> (u64, usize) {
    let mut n = 0u64;
    let (shard, shards) = (io.num("shard", 0), io.num("shards", 1));
    // Every end.
    let per = io.num("per", 40);
    let mut g = G::default();
    for (ci, lo) in (1..=65535u32).step_by(512).enumerate() {
        if ci % shards != shard { continue; }
        let (mut mins, mut maxs, mut panicked) = (vec![], vec![], false);
        for end in lo..(lo + 512).min(65536) {
            let (mut mn, mut mx) = (u16::MAX, 0);
            for _ in 0..per {
                match draw(&mut g, end as u16) { Some(x) => { mn = mn.min(x); mx = mx.max(x); }, None => panicked = true }
                n += 1;
            }
            mins.push(u32::from(mn));
            maxs.push(u32::from(mx));
        }
        writeln!(f, "{{\"what\":\"range\",\"gen\":\"{name}\",\"lo\":{lo},\"min\":{},\"max\":{},\"panicked\":{panicked}}}", super::list(&mins), super::list(&maxs)).unwrap();
    }
    // Ends in any order from one generator, long sequences.
    let (mut outside, mut panicked) = (0, false);
    let total = io.num("mixed", 3_000_000) / shards;
    for _ in 0..total {
        let end = match r.below(4) { 0 => 1 + r.below(65535), 1 => 65535 - r.below(8), 2 => 801, _ => 1 + r.below(64) } as u16;
        match draw(&mut g, end) { Some(x) => if x >= end { outside += 1 }, None => panicked = true }
        n += 1;
    }
    writeln!(f, "{{\"what\":\"mixed\",\"gen\":\"{name}\",\"outside\":{outside},\"panicked\":{panicked}}}").unwrap();
    // Ends whose numbers must all come up.
    let mut ends: Vec<u32> = vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 51, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 801, 1000, 1023, 1024, 1025,
        4095, 4096, 4097, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 40000, 65533, 65534, 65535];
    for _ in 0..io.num("covers", 60) { ends.push(match r.below(3) { 0 => r.range(1, 2000), 1 => r.range(1, 20000), _ => r.range(1, 65535) } as u32); }
    let mut covers = 0;
    for (i, end) in ends.into_iter().enumerate() {
        if i % shards != shard { continue; }
        let mut g = G::default();
        let mut hit = vec![false; 65536];
        let draws = 32 * u64::from(end);
        let (mut seen, mut panicked) = (0u32, false);
        for _ in 0..draws {
            match draw(&mut g, end as u16) { Some(x) => if !hit[x as usize] { hit[x as usize] = true; seen += 1; }, None => { panicked = true; break; } }
        }
        n += draws;
        covers += 1;
        writeln!(f, "{{\"what\":\"cover\",\"gen\":\"{name}\",\"end\":{end},\"draws\":{draws},\"seen\":{seen},\"panicked\":{panicked}}}").unwrap();
    }
    (n, covers)
}

pub fn run(io: &Io) {
    // all shards alike, so that they divide the work
    let mut r = R::new(0x519);
    let mut f = io.file("rng.ndjson");
    let mut st: Vec<(&str, String)> = vec![];
    #[cfg(feature = "wyrng")]
    { let (n, c) = all::<random::wyrng::RandomNumberGenerator>(io, &mut f, "wyrng", &mut r); st.push(("wyrng", format!("{{\"draws\":{n},\"ends_covered\":{c}}}"))); }
    #[cfg(feature = "oorandom")]
    { let (n, c) = all::<random::oorandom::RandomNumberGenerator>(io, &mut f, "oorandom", &mut r); st.push(("oorandom", format!("{{\"draws\":{n},\"ends_covered\":{c}}}"))); }
    #[cfg(all(feature = "fastrand", feature = "fstd"))]
    { let (n, c) = all::<random::fastrand::RandomNumberGenerator>(io, &mut f, "fastrand", &mut r); st.push(("fastrand", format!("{{\"draws\":{n},\"ends_covered\":{c}}}"))); }
    let (n, c) = all::<random::default::RandomNumberGenerator>(io, &mut f, "default", &mut r);
    st.push(("default", format!("{{\"draws\":{n},\"ends_covered\":{c}}}")));
    io.stats(&st);
}
