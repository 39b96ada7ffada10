mod audit;
mod core;
mod elem;
#[cfg(feature = "seq")]
mod seq;
#[cfg(feature = "ptr")]
mod boxes;
#[cfg(feature = "ptr")]
mod ptrs;
#[cfg(feature = "misc")]
mod cmp;
#[cfg(feature = "misc")]
mod conv;
#[cfg(feature = "misc")]
mod scopes;
#[cfg(feature = "str")]
mod strs;
#[cfg(feature = "thr")]
mod threads;

use crate::core::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;

pub struct Spec {
    id: &'static str,
    mask: u32,
    fault: FaultMode,
    gen: fn(&mut Rng) -> Case,
    run: fn(&Case),
    rule: &'static str,
    /// If not zero, histories are cut to between this many operations and three times as many.
    keep: usize,
}

impl Spec {
    fn case(&self, r: &mut Rng) -> Case {
        let mut c = (self.gen)(r);
        if self.keep > 0 {
            c.ops.truncate(self.keep + r.below(self.keep as u64 * 2) as usize);
        }
        c
    }
}

/// All elements must be gone now.
pub fn finish_elems() {
    let g = g();
    if g.leaked_ok {
        return;
    }
    let n = g.live();
    if n > 0 {
        let id = g.state.iter().position(|&s| s == 1).unwrap();
        fail!(K::Leak, "{} element(s) never dropped, first #{}", n, id);
    }
    if g.zst_live > 0 {
        fail!(K::Leak, "{} zero-sized element(s) never dropped", g.zst_live);
    }
}

mod specs;
use specs::specs;

fn run_case(s: &Spec, c: &Case) {
    g().reset(s.mask, s.fault);
    audit::a().reset();
    audit::reset_env();
    if let Err(m) = catch(|| (s.run)(c)) {
        eprintln!("harness error: {}", m);
        std::process::exit(5);
    }
    let sound = !g().failed();
    if g().leaked_ok {
        audit::a().leak_ok = true;
    }
    if sound {
        audit::a().finish();
    } else {
        audit::a().leak_ok = true;
        audit::a().finish();
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let spec_of = |id: &str| specs().into_iter().find(|s| s.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(3)
    });
    match args[1].as_str() {
        "worker" => {
            let s = spec_of(&args[2]);
            let seed: u64 = args[3].parse().unwrap();
            let start: u64 = args[4].parse().unwrap();
            let count: u64 = args[5].parse().unwrap();
            let stride: u64 = args[6].parse().unwrap();
            // Under Miri, isolated for the sake of repeatability, progress goes to standard output.
            let prog = (args[7] != "-").then(|| std::fs::OpenOptions::new().write(true).create(true).open(&args[7]).unwrap());
            let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut nontriv: HashSet<u64> = HashSet::new();
            let mut evals = 0u64;
            let mut nt_total = 0u64;
            let mut ops = 0u64;
            let mut i = start;
            let mut done = 0;
            while done < count {
                match &prog {
                    Some(p) => p.write_all_at(&i.to_le_bytes(), 0).unwrap(),
                    None => println!("@{}", i),
                }
                let c = s.case(&mut Rng::new(mix(seed, i)));
                run_case(&s, &c);
                evals += 1;
                ops += c.ops.len() as u64;
                for (k, v) in &g().labels {
                    if *v > 0 {
                        *labels.entry(k).or_insert(0) += if k.starts_with("ops_") { *v } else { 1 };
                    }
                }
                if g().nontrivial {
                    nt_total += 1;
                    nontriv.insert(g().hash);
                }
                if g().failed() {
                    println!("VIOL {} {}", i, g().violations[0].1);
                    break;
                }
                i += stride;
                done += 1;
            }
            let mut o = std::io::stdout().lock();
            write!(o, "STATS {{\"evals\":{},\"ops\":{},\"nontrivial\":{},\"distinct\":{},\"rule\":{},\"labels\":{{", evals, ops, nt_total, nontriv.len(), json_str(s.rule)).unwrap();
            for (n, (k, v)) in labels.iter().enumerate() {
                write!(o, "{}{}:{}", if n > 0 { "," } else { "" }, json_str(k), v).unwrap();
            }
            writeln!(o, "}}}}").unwrap();
            // the hashes themselves, so that the supervisor can count distinct cases over all workers
            if prog.is_none() {
                for h in &nontriv {
                    writeln!(o, "#{:x}", h).unwrap();
                }
            }
            if let Some(p) = args.get(8) {
                let mut b = Vec::with_capacity(nontriv.len() * 8);
                for h in &nontriv {
                    b.extend_from_slice(&h.to_le_bytes());
                }
                std::fs::write(p, b).unwrap();
            }
        }
        "gen" => {
            let s = spec_of(&args[2]);
            let seed: u64 = args[3].parse().unwrap();
            let i: u64 = args[4].parse().unwrap();
            print!("{}", s.case(&mut Rng::new(mix(seed, i))).to_text());
        }
        "exec" => {
            let s = spec_of(&args[2]);
            let quiet = args.get(4).map_or(false, |a| a == "-q");
            let text = match args[3].strip_prefix("text:") {
                Some(t) => t.replace(';', "\n"),
                None => std::fs::read_to_string(&args[3]).unwrap(),
            };
            let c = Case::parse(&text).unwrap();
            // how often, for cases whose outcome depends on the schedule
            let times: u64 = args.get(5).map_or(1, |n| n.parse().unwrap());
            g().tracing = true;
            if !quiet {
                // unbuffered trace, useful if the case crashes
                std::env::set_var("PBT_TRACE", "1");
            }
            for _ in 0..times {
                run_case(&s, &c);
                if g().failed() {
                    break;
                }
            }
            if !quiet {
                for l in &g().trace {
                    println!("  {}", l);
                }
                println!("nontrivial={} ignored={}", g().nontrivial, g().ignored);
            }
            if g().failed() {
                for (_, m) in &g().violations {
                    println!("VIOLATED {}", m);
                }
                std::process::exit(1);
            }
            println!("OK");
        }
        "merge" => {
            let mut all: Vec<u64> = vec![];
            for f in &args[2..] {
                let b = std::fs::read(f).unwrap();
                all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            all.sort_unstable();
            all.dedup();
            println!("{}", all.len());
        }
        "rule" => println!("{}", spec_of(&args[2]).rule),
        _ => std::process::exit(3),
    }
}
