//! nchk <property> --seed S --tier quick|thorough; each property is a cargo feature of its own
#![allow(dead_code, unused_imports, unused_macros, unused_variables)]
mod codecs;
mod misc;
mod model;
mod parsers;
mod ranged;
mod util;
#[macro_use]
extern crate tedium;
use codecs::Cfg;
use util::*;

/// C07: decode every type from hostile bytes; only undefined behaviour counts.
pub fn run(prop: &str, cfg: &Cfg) {
    match prop {
        #[cfg(feature = "c01")] "C01" => { codecs::run_rt(cfg); codecs::big_values("C01") }
        #[cfg(feature = "c02")] "C02" => { codecs::layout_bytes(); codecs::run_layout(cfg); codecs::big_values("C02") }
        #[cfg(feature = "c03")] "C03" => { codecs::run_lens(cfg); codecs::lens_fixed(); codecs::big_values("C03") }
        #[cfg(feature = "c04")] "C04" => { codecs::run_total(cfg); codecs::total_inputs(); parsers::total(cfg) }
        #[cfg(feature = "c05")] "C05" => parsers::spec(cfg),
        #[cfg(feature = "c06")] "C06" => { codecs::run_agree(cfg); parsers::agree(cfg); parsers::memo_log(cfg) }
        #[cfg(feature = "c07")] "C07" => { parsers::accessors(cfg); parsers::safe_ops(cfg); codecs::run_hostile(cfg) }
        #[cfg(feature = "c08")] "C08" => ranged::ints(cfg),
        #[cfg(feature = "c09")] "C09" => ranged::floats(cfg),
        #[cfg(feature = "c10")] "C10" => misc::seqs(cfg),
        #[cfg(feature = "c11")] "C11" => { codecs::run_confined(cfg); codecs::over_long() }
        #[cfg(feature = "c12")] "C12" => misc::hex(cfg),
        #[cfg(feature = "c13")] "C13" => misc::zarith(cfg),
        #[cfg(feature = "c14")] "C14" => { codecs::run_dest(cfg); codecs::dest_ops(); codecs::big_values("C14") }
        #[cfg(feature = "c15")] "C15" => misc::splitvec(cfg),
        #[cfg(feature = "c16")] "C16" => misc::tags(cfg),
        #[cfg(feature = "c17")] "C17" => { parsers::left(cfg); parsers::leftover_state(cfg) }
        #[cfg(feature = "c18")] "C18" => parsers::skips(cfg),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(2) }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let iters: usize = opt("--iters").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 2000 } else { 200 });
    install_hook();
    let p = prop.clone();
    // deep values recurse: run on a big stack
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { run(&p, &Cfg { seed, iters, thorough }) }).unwrap();
    if h.join().is_err() { harness_panic() }
    let g = STATS.lock().unwrap(); let evals = EVALS.load(std::sync::atomic::Ordering::Relaxed);
    let (d, s) = match &*g { Some(s) => (s.distinct.len(), s.samples.clone()), None => (0, vec![]) };
    println!("OK {{\"evaluations\":{},\"distinct\":{},\"samples\":[{}]}}", evals, d, s.iter().map(|x| format!("\"{}\"", x.replace('"', "'"))).collect::<Vec<_>>().join(","));
}
