mod args;
mod check;
mod cli;
mod doc;
mod exec;
mod model;
mod plan;
mod run;
mod shrink;

use simcore::Chooser;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("GSIM_REEXEC").is_err() {
        use std::os::unix::process::CommandExt;
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.args(&a[1..]).args(vec!["-"; args::DUMMIES]).env("GSIM_REEXEC", "1");
        let e = c.exec();
        panic!("{e}");
    }
    let a: Vec<String> = a[..a.len() - args::DUMMIES].to_vec();
    run::install_panic_hook();
    warm_up();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let n: Vec<u64> = a[3..8].iter().map(|s| s.parse().unwrap()).collect();
            return check::worker(&a[2], n[0], n[1], n[2], n[3], n[4]);
        }
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(check::check(&a[2], &a[3], seed))
        }
        Some("shrink") => std::process::exit(check::shrink(&a[2], a[3].parse().unwrap())),
        Some("replay") => std::process::exit(check::replay(&a[2])),
        _ => {}
    }
    let (id, from, n) = (&a[1], a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    let t0 = std::time::Instant::now();
    let mut bad = 0;
    for seed in from..from + n {
        let p = plan::generate(id, seed);
        let r = exec::execute(&p, exec::Picks::Search(seed), n == 1 || std::env::var("TRACE").is_ok());
        let (digest, o) = (r.digest(), r.first);
        if n == 1 || std::env::var("TRACE").is_ok() {
            println!("=== seed {seed} digest {:016x} schedule {:016x} steps {}", digest, o.schedule, o.steps);
            for l in &o.trace {
                println!("{l}");
            }
        }
        if std::env::var("DIGESTS").is_ok() {
            println!("digest {seed} {:016x} {:016x} {}", digest, o.schedule, o.choices.len());
        }
        if let Some(v) = o.violation {
            bad += 1;
            println!("seed {seed}: {}: {}", v.kind, v.detail);
            if bad > 8 {
                break;
            }
        }
    }
    println!("{} runs, {bad} bad, {:?}", n, t0.elapsed());
}

/// Some libraries look at the system once per process (the number of processors, for example):
/// that happens here, so that a run does not depend on whether it is the first one.
fn warm_up() {
    for (id, seed) in [("C01", 1), ("C14", 2), ("C11", 3), ("C11", 4)] {
        let p = plan::generate(id, seed);
        if p.cli_run.is_some() {
            cli::run_cli(&p, Chooser::search(seed), false);
        } else {
            run::run_ls(&p, Chooser::search(seed), None, false);
        }
    }
}
