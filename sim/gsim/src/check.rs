//! The check of one property: seeded search by several worker processes, confirmation and
//! minimisation of what they find, evidence.
use crate::exec::{execute, isolated, Picks};
use crate::plan::{self, Plan};
use crate::run::Violation;
use crate::shrink::Shrinker;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
enum StoredPicks {
    Search(u64),
    Replay { first: Vec<u32>, second: Vec<u32> },
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    seed: u64,
    violation: Violation,
    /// of the events of the execution
    digest: String,
    note: String,
    plan: Plan,
    picks: StoredPicks,
    trace: Vec<String>,
}

fn store(p: &Picks) -> StoredPicks {
    match p {
        Picks::Search(s) => StoredPicks::Search(*s),
        Picks::Replay(a, b) => StoredPicks::Replay { first: a.clone(), second: b.clone() },
    }
}
fn load(p: &StoredPicks) -> Picks {
    match p {
        StoredPicks::Search(s) => Picks::Search(*s),
        StoredPicks::Replay { first, second } => Picks::Replay(first.clone(), second.clone()),
    }
}

/// Whether a violation of this kind falsifies the property. All invariants are monitored in every
/// run, but what a file's diagnostics say, for example, is not the subject of C13.
fn concerns(id: &str, kind: &str) -> bool {
    match id {
        "C01" | "C13" => !crate::run::CONTENT.contains(&kind),
        _ => true,
    }
}

#[derive(Serialize, Deserialize, Default)]
struct Stats {
    runs: u64,
    executions: u64,
    steps: u64,
    sim_us: u64,
    nontrivial: u64,
    again: u64,
    again_differs: u64,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    faulty_runs: u64,
    digests: Vec<u64>,
    schedules: Vec<u64>,
}

#[derive(Serialize, Deserialize)]
enum Line {
    Begin(u64),
    Found { seed: u64, kind: String, detail: String },
    Done(Box<Stats>),
}

fn say(l: &Line) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(&serde_json::to_vec(l).unwrap());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

fn seed_of(base: u64, k: u64) -> u64 {
    (base << 32).wrapping_add(k)
}

struct Known {
    property: String,
    kind: String,
    contains: String,
    text: String,
}

fn known() -> Vec<Known> {
    let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let (property, rest) = l.split_once(" kind=")?;
            let (kind, rest) = rest.split_once(" contains=\"")?;
            let (contains, text) = rest.split_once('"')?;
            Some(Known { property: property.into(), kind: kind.into(), contains: contains.into(), text: text.trim().into() })
        })
        .collect()
}

fn root() -> std::path::PathBuf {
    std::env::var("GSIM_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

/// A worker executes every `stride`-th case.
pub fn worker(id: &str, base: u64, first: u64, stride: u64, limit: u64, seconds: u64) {
    crate::exec::silence();
    let start = Instant::now();
    let known = known();
    let mut s = Stats::default();
    let mut digests = HashSet::new();
    let mut schedules = HashSet::new();
    let mut k = first;
    while k < limit && start.elapsed().as_secs() < seconds {
        let seed = seed_of(base, k);
        say(&Line::Begin(seed));
        let p = plan::generate(id, seed);
        let r = execute(&p, Picks::Search(seed), false);
        s.runs += 1;
        for o in std::iter::once(&r.first).chain(&r.second) {
            s.executions += 1;
            s.steps += o.steps;
            s.sim_us += o.sim_us;
            for (k, v) in &o.fired {
                *s.fired.entry(k.clone()).or_default() += v;
            }
            for (k, v) in &o.probes {
                *s.probes.entry(k.clone()).or_default() += v;
            }
            schedules.insert(o.schedule);
        }
        s.faulty_runs += !r.first.fired.is_empty() as u64;
        let checked = r.first.probes.get("barrier").copied().unwrap_or(0) > 0
            || r.first.probes.contains_key("cli-runs")
            || r.first.probes.get("messages-sent").copied().unwrap_or(0) > 4;
        if checked && digests.insert(r.digest()) {
            s.nontrivial += 1;
        }
        if let Some(v) = r.violation() {
            let listed = known.iter().any(|f| f.property == id && f.kind == v.kind && v.detail.contains(&f.contains));
            if !concerns(id, &v.kind) {
                *s.probes.entry(format!("other-property:{}", v.kind)).or_default() += 1;
            } else if listed {
                *s.probes.entry("known-finding".into()).or_default() += 1;
            } else {
                say(&Line::Found { seed, kind: v.kind.clone(), detail: v.detail.clone() });
                break;
            }
        } else if k % 400 < stride {
            // the same decisions once more must give the same execution
            let again = execute(&p, r.picks(), false);
            s.again += 1;
            s.again_differs += (again.digest() != r.digest()) as u64;
        }
        k += stride;
    }
    s.digests = digests.into_iter().collect();
    s.schedules = schedules.into_iter().collect();
    say(&Line::Done(Box::new(s)));
}

enum Event {
    Line(usize, Line),
    End(usize),
}

pub fn check(id: &str, tier: &str, base: u64) -> i32 {
    let t0 = Instant::now();
    let (limit, seconds) = budget(id, tier);
    let workers: usize = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel();
    let mut children = vec![];
    for w in 0..workers {
        let mut c = Command::new(&exe)
            .args(["worker", id])
            .args([base, w as u64, workers as u64, limit, seconds].iter().map(|n| n.to_string()))
            .env_remove("GSIM_REEXEC")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .expect("cannot start a worker");
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                match serde_json::from_str(&l) {
                    Ok(l) => drop(tx.send(Event::Line(w, l))),
                    Err(_) => break,
                }
            }
            let _ = tx.send(Event::End(w));
        });
        children.push(c);
    }
    drop(tx);
    let mut current: Vec<Option<u64>> = vec![None; workers];
    let mut last: Vec<Instant> = vec![Instant::now(); workers];
    let mut alive: Vec<bool> = vec![true; workers];
    let mut finished: Vec<bool> = vec![false; workers];
    let mut found: Vec<(u64, String, String)> = vec![];
    let mut stats = Stats::default();
    let mut digests = HashSet::new();
    let mut schedules = HashSet::new();
    let mut broken: Vec<(u64, &str)> = vec![];
    let mut stop_at: Option<Instant> = None;
    while alive.iter().any(|a| *a) {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Event::Line(w, l)) => {
                last[w] = Instant::now();
                match l {
                    Line::Begin(s) => current[w] = Some(s),
                    Line::Found { seed, kind, detail } => found.push((seed, kind, detail)),
                    Line::Done(s) => {
                        finished[w] = true;
                        stats.runs += s.runs;
                        stats.executions += s.executions;
                        stats.steps += s.steps;
                        stats.sim_us += s.sim_us;
                        stats.again += s.again;
                        stats.again_differs += s.again_differs;
                        stats.faulty_runs += s.faulty_runs;
                        for (k, v) in s.fired {
                            *stats.fired.entry(k).or_default() += v;
                        }
                        for (k, v) in s.probes {
                            *stats.probes.entry(k).or_default() += v;
                        }
                        digests.extend(s.digests);
                        schedules.extend(s.schedules);
                    }
                }
            }
            Ok(Event::End(w)) => {
                alive[w] = false;
                let _ = children[w].wait();
                if !finished[w] && stop_at.is_none() {
                    match current[w] {
                        Some(s) => broken.push((s, "abort")),
                        None => {
                            eprintln!("a worker could not start");
                            return 2;
                        }
                    }
                }
            }
            Err(_) => {}
        }
        for w in 0..workers {
            if alive[w] && !finished[w] && last[w].elapsed().as_secs() > 40 && stop_at.is_none() {
                if let Some(s) = current[w] {
                    broken.push((s, "hang"));
                    finished[w] = true;
                    let _ = children[w].kill();
                }
            }
        }
        if stop_at.is_none() && (!found.is_empty() || !broken.is_empty()) {
            // let the others come to the same point
            stop_at = Some(Instant::now() + Duration::from_millis(300));
        }
        if stop_at.is_some_and(|t| Instant::now() > t) {
            for c in &mut children {
                let _ = c.kill();
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    let mut violations = 0;
    let mut report: Option<(String, Violation)> = None;
    let mut unconfirmed = vec![];
    found.sort();
    let mut cands: Vec<u64> = found.iter().map(|f| f.0).collect();
    cands.extend(broken.iter().map(|b| b.0));
    for seed in cands {
        let p = plan::generate(id, seed);
        let r = isolated(&p, Picks::Search(seed), false, 60);
        let Some(v) = r.violation().cloned() else {
            unconfirmed.push(seed);
            continue;
        };
        if !concerns(id, &v.kind) {
            continue;
        }
        violations += 1;
        let secs = if tier == "quick" { 40 } else { 120 };
        report = Some(minimise(id, seed, p, r, secs));
        break;
    }
    // evidence
    let hours = search_s / 3600.0;
    let mut samples: Vec<Value> = vec![];
    for k in [0u64, 1] {
        let seed = seed_of(base, k);
        let p = plan::generate(id, seed);
        let r = isolated(&p, Picks::Search(seed), true, 60);
        let t: Vec<String> = r.first.trace.iter().take(60).map(|l| l.chars().take(300).collect()).collect();
        samples.push(json!({"seed": seed, "decisions": r.first.choices.len(), "trace": t}));
    }
    let ls_runs = stats.runs - stats.probes.get("cli-runs").copied().unwrap_or(0);
    let evidence = json!({
        "property": id,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.runs,
            "distinct_nontrivial": digests.len(),
            "rule": "One case is one plan (disk, documents, client script, faults) generated from one seed, executed under \
                     decisions drawn from the same seed. It is non-trivial if the client got past initialisation and sent more than 4 \
                     messages, or everything came to rest and was compared with the model, or the command line tool ran; \
                     distinct means a different digest of everything that crossed the seams (messages, file system calls and \
                     their results, decisions).",
            "samples": samples,
            "executions": stats.executions,
            "language_server_cases": ls_runs,
            "command_line_cases": stats.probes.get("cli-runs").copied().unwrap_or(0),
            "first_seed": seed_of(base, 0),
            "runs_per_hour": (stats.executions as f64 / hours) as u64,
            "seeds_per_hour": (stats.runs as f64 / hours) as u64,
            "simulated_seconds": stats.sim_us as f64 / 1e6,
            "scheduler_steps": stats.steps,
            "distinct_interleavings": schedules.len(),
            "interleaving_measure": "digest of the sequence of scheduler decisions (poll, spurious poll, deliver n bytes, drain n \
                                     bytes, client step, task) of one execution",
            "runs_with_faults": stats.faulty_runs,
            "faults_injected": stats.fired,
            "probes": stats.probes,
            "executed_twice": stats.again,
            "executed_twice_and_different": stats.again_differs,
            "workers": workers,
            "components": {
                "real": ["ginko library", "ginko_ls (all modules including main)", "ginko command line tool (main)",
                         "tower-lsp, tower, futures, serde_json, clap, dunce, url", "std::fs above libc", "hash tables of std"],
                "simulated": ["tokio runtime, tasks and standard streams", "libc file system calls and getrandom",
                              "the client", "tracing-subscriber is real, its global state is per execution"]
            }
        },
        "assumptions": [
            "the handlers of the language server run on one thread: tower-lsp polls them cooperatively, as it does in production",
            "the reference model of device-tree semantics in sim/gsim/src/model.rs states the property correctly"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap())
        .expect("cannot write the evidence");
    println!(
        "{id}: {} cases ({} distinct), {} executions, {:.0} simulated seconds, {} interleavings, {:.1} s",
        stats.runs,
        digests.len(),
        stats.executions,
        stats.sim_us as f64 / 1e6,
        schedules.len(),
        t0.elapsed().as_secs_f64()
    );
    for f in known() {
        if f.property == id {
            println!("KNOWN-FINDING: property={id} {}", f.text);
        }
    }
    if let Some((path, v)) = report {
        println!("{}: {}", v.kind, v.detail);
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    if !unconfirmed.is_empty() {
        eprintln!("cases {unconfirmed:?} failed in a worker, but not when they were repeated");
        return 2;
    }
    if stats.runs < 200 {
        eprintln!("only {} cases within the time limit", stats.runs);
        return 2;
    }
    0
}

/// Minimises a failing case and writes the replay file.
fn minimise(id: &str, seed: u64, p: Plan, r: crate::exec::Res, secs: u64) -> (String, Violation) {
    let v = r.violation().cloned().expect("no violation");
    let picks = if r.first.choices.is_empty() { Picks::Search(seed) } else { r.picks() };
    let mut sh = Shrinker::new(p, picks, r, Instant::now() + Duration::from_secs(secs));
    sh.run();
    let res = isolated(&sh.plan, sh.picks.clone(), true, 60);
    let fin = res.violation().cloned().unwrap_or(v);
    let again = isolated(&sh.plan, sh.picks.clone(), false, 60);
    let same = again.digest() == res.digest() && again.violation().map(|v| &v.kind) == Some(&fin.kind);
    let file = ReplayFile {
        property: id.into(),
        seed,
        violation: fin.clone(),
        digest: format!("{:016x}", res.digest()),
        note: format!(
            "minimised with {} executions; executed again: {}",
            sh.tried,
            if same { "identical" } else { "not identical" }
        ),
        plan: sh.plan,
        picks: store(&sh.picks),
        trace: res.first.trace,
    };
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{seed}.json"));
    std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("cannot write the replay file");
(path.display().to_string(), fin)
}

/// For development: minimises the case of one seed.
pub fn shrink(id: &str, seed: u64) -> i32 {
    let p = plan::generate(id, seed);
    let r = isolated(&p, Picks::Search(seed), false, 60);
    if r.violation().is_none() {
        println!("no violation");
        return 0;
    }
    let (path, v) = minimise(id, seed, p, r, 60);
    println!("{path}\n{}: {}", v.kind, v.detail);
    1
}

fn budget(id: &str, tier: &str) -> (u64, u64) {
    let _ = id;
    if let (Ok(n), Ok(s)) = (std::env::var("GSIM_CASES"), std::env::var("GSIM_SECONDS")) {
        return (n.parse().unwrap(), s.parse().unwrap());
    }
    if tier == "thorough" {
        (4_000_000, 600)
    } else {
        (60_000, 120)
    }
}

/// Executes a stored case again. Exit status 1: the violation occurred again.
pub fn replay(path: &str) -> i32 {
    let f: ReplayFile = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| {
        let mut de = serde_json::Deserializer::from_str(&s);
        de.disable_recursion_limit();
        ReplayFile::deserialize(&mut de).map_err(|e| e.to_string())
    }) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let r = isolated(&f.plan, load(&f.picks), true, 60);
    for l in &r.first.trace {
        println!("{l}");
    }
    let same = format!("{:016x}", r.digest()) == f.digest;
    println!("digest {:016x}: {} the recorded execution", r.digest(), if same { "identical to" } else { "differs from" });
    match r.violation() {
        Some(v) => {
            println!("{}: {}", v.kind, v.detail);
            println!("VIOLATION property={} replay={path}", f.property);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
