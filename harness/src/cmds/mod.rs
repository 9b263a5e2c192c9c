//! Sub-commands.

mod callbacks;
#[cfg(feature = "fstd")]
mod classes;
mod families;
mod history;
mod identity;
mod index;
mod laws;
mod outcomes;
#[cfg(feature = "fstd")]
mod protocol;
#[cfg(any(feature = "wyrng", feature = "oorandom", all(feature = "fastrand", feature = "fstd")))]
mod rng;
mod traces;

use crate::ctx::*;
use crate::gen::Case;
use std::fs::File;
use std::io::{BufWriter, Write};

pub struct Io {
    pub dir: String,
    pub seed: u64,
    pub scale: f64,
    pub args: Vec<String>,
}
impl Io {
    pub fn file(&self, name: &str) -> BufWriter<File> {
        BufWriter::new(File::create(format!("{}/{name}", self.dir)).expect("create output"))
    }
    /// What is being run now, should the process not survive it.
    pub fn crumb(&self, s: &str) {
        let _ = std::fs::write(format!("{}/crumb", self.dir), s);
    }
    pub fn count(&self, n: usize) -> usize { ((n as f64 * self.scale) as usize).max(1) }
    pub fn arg(&self, name: &str) -> Option<&str> {
        let p = format!("{name}=");
        self.args.iter().find_map(|a| a.strip_prefix(p.as_str()))
    }
    pub fn num(&self, name: &str, d: usize) -> usize { self.arg(name).and_then(|s| s.parse().ok()).unwrap_or(d) }
    pub fn stats(&self, pairs: &[(&str, String)]) {
        let mut f = self.file("stats.json");
        let body: Vec<String> = pairs.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
        writeln!(f, "{{{}}}", body.join(",")).unwrap();
    }
}

pub fn case_crumb(c: &Case, what: &str) -> String {
    format!("{{\"what\":\"{what}\",\"tag\":\"{}\",\"a\":{},\"b\":{},\"ids\":{},\"g\":{}}}", c.tag, c.a, c.b, list(&c.ids), c.g.json())
}

pub fn set_case(c: &Case) {
    set_graph(&c.g);
    set_ids(&c.ids);
}

/// Callbacks allowed before a comparison counts as not ending.
pub fn budget(n: usize, d: usize, p: u16, f: u16, s: u16) -> u64 {
    let m = n.saturating_sub(1) as u64;
    let vb = 1 + d as u64 * (m + (u64::from(f) + 1) * (m / u64::from(s.max(1)))) + u64::from(p);
    12 * vb * (1 + d as u64) + 5000
}

pub fn list(v: &[u32]) -> String {
    format!("[{}]", v.iter().map(u32::to_string).collect::<Vec<_>>().join(","))
}

pub fn run(cmd: &str, dir: &str, seed: u64, scale: f64, args: &[String]) -> i32 {
    std::fs::create_dir_all(dir).expect("output directory");
    let io = Io { dir: dir.into(), seed, scale, args: args.to_vec() };
    match cmd {
        "callbacks" => callbacks::run(&io),
        "families" => families::run(&io),
        "endless" => families::endless(&io),
        #[cfg(feature = "fstd")]
        "classes" => classes::run(&io),
        "history" => history::run(&io),
        "identity" => identity::run(&io),
        "laws" => laws::run(&io),
        #[cfg(any(feature = "wyrng", feature = "oorandom", all(feature = "fastrand", feature = "fstd")))]
        "rng" => rng::run(&io),
        "index" => index::run(&io),
        #[cfg(feature = "fstd")]
        "protocol" => protocol::run(&io),
        "outcomes" => outcomes::run(&io),
        "traces" => traces::run(&io),
        _ => { eprintln!("unknown command {cmd}"); return 2; },
    }
    io.crumb("");
    0
}

/// Random numbers for a comparison; long fast runs only now and then.
pub fn rng_for(r: &mut R, i: usize, f: u16) -> RngMode {
    if f > 500 && !r.chance(1, if f > 5000 { 200 } else { 12 }) {
        return RngMode::List((0..7).map(|_| r.below(9) as u16).collect(), 0);
    }
    rng_mode(r, i)
}

pub fn rng_mode(r: &mut R, i: usize) -> RngMode {
    match i % 4 {
        0 => RngMode::Rand(r.next()),
        1 => RngMode::Zero,
        2 => RngMode::Max,
        _ => RngMode::Rand(r.next()),
    }
}
