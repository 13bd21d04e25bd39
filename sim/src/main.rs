mod alloc;
mod core;
mod refpb;
mod runner;
mod gen;
mod net;
mod p_build;
mod p_codec;
mod p_e2e;
mod p_hostile;
mod p_import;
mod p_diag;
mod p_memory;
mod p_read;
mod p_truth;

use crate::runner::*;
use std::time::Duration;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

static PROPS: &[Prop] = &[p_import::U01, p_import::U02, p_import::U03, p_import::U04, p_import::U05, p_read::U06, p_read::U07, p_hostile::U08, p_hostile::U09, p_read::U10, p_read::U11, p_hostile::U12, p_read::U13, p_read::U14, p_hostile::U15, p_read::U16, p_build::U17, p_build::U18, p_build::U19, p_build::U20, p_build::U21, p_e2e::U22, p_hostile::U23, p_memory::U24, p_diag::U25, p_codec::U26];

fn opts(tier: &str, seed: u64) -> Opts {
    let thorough = tier == "thorough";
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16));
    let cap = std::env::var("SIM_CAP_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 780 } else { 120 });
    Opts {
        seed,
        thorough,
        runs: std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()),
        workers,
        cap: Duration::from_secs(cap),
        quiet: false,
    }
}

fn usage() -> i32 {
    eprintln!("usage: sim check ID | replay FILE | list | hash ID SEED RUNS WORKERS | trace ID SEED RUN");
    2
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| PROPS.iter().find(|p| p.id == id);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    core::install_hook();
    let code = match a.iter().map(|x| x.as_str()).collect::<Vec<_>>()[..] {
        ["list"] => {
            for p in PROPS {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        // supervisor: the actual work happens in a child so that even a process crash is reported
        ["check", id] => match find(id) {
            None => usage(),
            Some(p) => {
                let inf = std::env::temp_dir().join(format!("unixfs-sim-inflight-{}", std::process::id()));
                let st = std::process::Command::new(std::env::current_exe().unwrap()).arg("check-worker").arg(id).arg(&inf).status().expect("spawn worker");
                use std::os::unix::process::ExitStatusExt;
                let c = if st.signal().is_some() { report_crash(p, &opts(&tier, seed), &inf) } else { st.code().unwrap_or(2) };
                let _ = std::fs::remove_file(&inf);
                let _ = std::fs::remove_file(marker(&inf));
                c
            }
        },
        ["check-worker", id, inf] => match find(id) {
            None => usage(),
            Some(p) => cmd_check(p, &opts(&tier, seed), std::path::Path::new(inf)),
        },
        ["exec", id, ..] => match find(id) {
            None => usage(),
            Some(p) => cmd_exec(p, &a[2..]),
        },
        ["history", id, ..] => match find(id) {
            None => usage(),
            Some(p) => cmd_history(p, &a[2..]),
        },
        ["replay", f] => cmd_replay(PROPS, f),
        ["hash", id, s, n, w] => match find(id) {
            None => usage(),
            Some(p) => {
                let mut o = opts(&tier, s.parse().unwrap());
                o.runs = Some(n.parse().unwrap());
                o.workers = w.parse().unwrap();
                match batch(p, &o, None) {
                    Ok(b) => {
                        println!("{} seed={} {:?} {}", id, s, b.signature(), b.fault_table());
                        0
                    }
                    Err(c) => c,
                }
            }
        },
        ["trace", id, s, i] => match find(id) {
            None => usage(),
            Some(p) => {
                let o = exec(p, core::Tape::from_seed(run_seed(id, s.parse().unwrap(), i.parse().unwrap())), true, tier == "thorough", None);
                for l in &o.trace {
                    println!("{}", l);
                }
                println!("{} | viol={:?} harness={:?} draws={} faults={:?} counts={:?}", o.summary, o.viol, o.harness, o.rec.len(), o.faults, o.counts);
                0
            }
        },
        _ => usage(),
    };
    // worker threads stuck in the code under test must not keep the process alive
    std::process::exit(code);
}
