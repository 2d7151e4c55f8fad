//! Deterministic simulation of the mysql_cdc client against model servers.
mod app;
mod common;
mod conv;
mod files;
mod interpose;
mod replica;
mod run;
mod scen;

use interpose::*;
use run::*;
use simcore::choice::Choices;
use simcore::world::*;
use std::fmt::Write as _;
use std::time::Instant;

#[global_allocator]
static ALLOC: Tracker = Tracker;

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        ACTIVE.with(|a| a.set(false));
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into());
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit_once("src/").map_or(l.file(), |x| x.1), l.line())).unwrap_or_default();
        let t = format!("{} at {}", m, l);
        if !SIM_THREAD.with(|s| s.get()) {
            eprintln!("{}", t);
        }
        PANIC_MSG.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = t
            }
        });
    }));
}

/// (runs, wall seconds) of the quick and thorough tiers.
fn effort(prop: &str, thorough: bool) -> (u64, u64) {
    let q: u64 = match prop {
        "C28" => 12000,
        "C30" => 40000,
        "C03" | "C04" | "C05" | "C12" => 28000,
        "C11" | "C21" | "C22" => 40000,
        "C02" | "C07" | "C10" | "C17" | "C18" => 80000,
        _ => 50000,
    };
    if thorough {
        (q * 50, 600)
    } else {
        (q, 90)
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_map<'a>(m: impl Iterator<Item = (&'a String, &'a u64)>) -> String {
    format!("{{{}}}", m.map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "))
}

fn check(prop: &str) -> i32 {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let (runs, secs) = effort(prop, thorough);
    let runs = env_u64("DST_RUNS", runs);
    let jobs = env_u64("DST_JOBS", std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(2, 16));
    let t0 = Instant::now();
    let mut t = Tally::default();
    let found = match campaign(prop, seed, runs, secs * 1000, jobs, &mut t) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("harness error: {}", e);
            return 2;
        }
    };
    let search_s = t0.elapsed().as_secs_f64();
    // the same seeds again, elsewhere: one seed must be one execution
    let mut again = Tally::default();
    let mut recheck = (0u64, 0u64);
    if found.is_none() {
        let n = 64.min(runs);
        if campaign(prop, seed, n, 20_000, 3, &mut again).is_ok() {
            for (i, h) in &again.by_idx {
                if let Some(x) = t.by_idx.get(i) {
                    recheck.0 += 1;
                    if x != h {
                        recheck.1 += 1;
                        eprintln!("warning: run {} is not repeatable", i);
                    }
                }
            }
        }
    }
    let mut viol: Option<(String, String, String)> = None;
    if let Some(f) = &found {
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-s{}-r{}.txt", dir, prop, seed, f.idx);
        match settle(prop, seed, f, &path, env_u64("DST_MIN", if thorough { 120 } else { 25 })) {
            Ok(d) => viol = Some((path, f.class.clone(), d)),
            Err(e) => {
                eprintln!("harness error: {}", e);
                return 2;
            }
        }
    }
    // evidence
    let mut samples = vec![];
    for i in 0..2u64 {
        if found.is_none() || i < found.as_ref().unwrap().idx {
            let Ok(r) = run_isolated(prop, Choices::from_seed(prop_seed(prop, seed, i)), true) else { continue };
            let n = r.trace.len();
            let mut l: Vec<String> = r.trace.into_iter().take(40).map(|s| s.chars().take(300).collect()).collect();
            if n > l.len() {
                l.push(format!("... {} more steps", n - l.len()));
            }
            samples.push(format!("{{\"run\": {}, \"hash\": \"{:x}\", \"trace\": [{}]}}", i, r.hash, l.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
        }
    }
    if samples.is_empty() {
        samples.push(json_str(&format!("run {} violates the property", found.as_ref().map_or(0, |f| f.idx))));
    }
    let stub = if ["C16", "C17", "C18"].contains(&prop) { "operating system file interface (reads split, interrupted or failing over an in-memory file)" } else { "operating system sockets, name resolution, clock, randomness and file reads; network; MySQL/MariaDB server model" };
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"distinct_executions\": {}, \"runs_with_faults\": {}, \"runs_planned\": {}, \"seeds_per_hour\": {},\n  \"simulated_seconds\": {:.3}, \"simulator_steps\": {}, \"library_calls\": {}, \"choices_drawn\": {}, \"connections\": {},\n  \"faults_injected\": {},\n  \"situations_reached\": {},\n  \"runs_given_up\": {}, \"determinism_rechecks\": {}, \"determinism_mismatches\": {},\n  \"real_components\": \"mysql_cdc library (all of it, unmodified), Rust standard library networking and file code, OpenSSL\",\n  \"stubbed_components\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"the model servers follow the documented MySQL/MariaDB protocol and binlog format\", \"TLS, compression, packets of 16 MiB and more are outside the domain\"],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        json_str(prop),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        t.runs,
        t.nontrivial.len(),
        json_str("one evaluation is one simulated execution drawn from (VERIF_SEED, property, run number); it is non-trivial when the simulator injected at least one fault or perturbation (split, interrupted, delayed, cut, damaged, failing I/O; crash; kill) and distinct by the hash of its scheduler trace (event kinds, connections, sizes, outcomes and simulated times)"),
        t.hashes.len(),
        t.faulty,
        runs,
        (t.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
        t.sim_ns as f64 / 1e9,
        t.steps,
        t.calls,
        t.draws,
        t.conns,
        json_map(t.faults.iter()),
        json_map(t.probes.iter()),
        t.given_up,
        recheck.0,
        recheck.1,
        json_str(stub),
        samples.join(",\n   "),
        t0.elapsed().as_secs_f64(),
        viol.is_some() as u32
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, prop), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    for k in t.known.keys() {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    match viol {
        None => {
            println!("{}: held on {} runs ({} distinct, {} with faults), {:.0} simulated seconds, {:.1} s", prop, t.runs, t.hashes.len(), t.faulty, t.sim_ns as f64 / 1e9, t0.elapsed().as_secs_f64());
            0
        }
        Some((path, class, detail)) => {
            println!("{} run {} [{}]: {}", prop, found.unwrap().idx, class, detail.chars().take(2000).collect::<String>());
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
    }
}

fn main() {
    hook();
    tune_heap();
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("worker") => {
            let known = load_known(&format!("{}/known-findings.txt", root));
            worker(&a[2], num(3), num(4), num(5), num(6), num(7), &known);
            0
        }
        Some("minimise") => {
            minimise(&a[2], num(3)).map_or_else(
                |e| {
                    eprintln!("{}", e);
                    2
                },
                |_| 0,
            )
        }
        Some("replay") => match replay(&a[2]) {
            Ok(true) => {
                let r = read_replay(&a[2]).unwrap();
                println!("reproduced: {} [{}]", r.prop, r.class);
                println!("VIOLATION property={} replay={}", r.prop, a[2]);
                1
            }
            Ok(false) => {
                println!("not reproduced");
                0
            }
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        },
        // one run with its trace: dst one <property> <seed> <run>
        Some("one") => {
            match run_isolated(&a[2], Choices::from_seed(prop_seed(&a[2], num(3), num(4))), true) {
                Ok(r) => {
                    for l in &r.trace {
                        println!("{}", l);
                    }
                    println!("{:?} {} hash {:x}", r.class, r.detail, r.hash);
                    r.class.is_some() as i32
                }
                Err(d) => {
                    println!("{}", d.text());
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: dst check|replay|one ...");
            2
        }
    };
    std::process::exit(code)
}
