//! Executes the command line tool in a forked child, under the simulated disk, and compares its
//! verdict with the reference model.
use crate::model::*;
use crate::plan::*;
use crate::run::{build_disk, call_of, disk_op, problem, Ended, Outcome, Problems, Violation, CWD};
use serde::{Deserialize, Serialize};
use simcore::world::{Masked, Pending};
use simcore::{Chooser, World};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicI32, Ordering};

#[derive(Serialize, Deserialize, Default)]
struct Child {
    exit: i32,
    panic: Option<String>,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    fired: BTreeMap<String, u64>,
    forbidden: Vec<String>,
    choices: Vec<u32>,
    digest: u64,
    calls: u64,
}

static STATUS: AtomicI32 = AtomicI32::new(0);

fn entry() {
    let c = cli_sut::__sim_main();
    STATUS.store(if c == std::process::ExitCode::SUCCESS { 0 } else { 1 }, Ordering::SeqCst);
}

pub struct Shown1 {
    pub file: String,
    pub s: Shown,
    sev: &'static str,
    message: String,
}

/// `error --> file:line:column`, source lines start with a number or a bar.
fn parse_output(out: &str) -> Result<Vec<Shown1>, String> {
    let mut v = vec![];
    let lines: Vec<&str> = out.split('\n').collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let sev = ["error --> ", "warning --> ", "hint --> "].into_iter().find(|p| l.starts_with(p));
        if let Some(p) = sev {
            let rest = &l[p.len()..];
            let mut it = rest.rsplitn(3, ':');
            let (c, ln, file) = (it.next(), it.next(), it.next());
            if let (Some(Ok(c)), Some(Ok(ln)), Some(file)) = (c.map(|c| c.parse::<u32>()), ln.map(|c| c.parse::<u32>()), file) {
                // position, empty, source, marker with the message
                let msg = lines.get(i + 3).map(|m| m.trim_start_matches([' ', '|', '\t', '^'])).unwrap_or("");
                if msg.trim().is_empty() {
                    return Err(format!("a problem is shown without a message: {l:?}"));
                }
                if ln == 0 || c == 0 {
                    return Err(format!("line and column must start at 1: {l:?}"));
                }
                v.push(Shown1 {
                    file: file.to_string(),
                    s: Shown { error: p.starts_with("error"), line: ln - 1, col: c - 1 },
                    sev: p.split(' ').next().unwrap(),
                    message: msg.to_string(),
                });
                i += 4;
                continue;
            }
        }
        i += 1;
    }
    Ok(v)
}

pub fn run_cli(plan: &Plan, chooser: Chooser, trace: bool) -> Outcome {
    let run = plan.cli_run.as_ref().expect("no command line run");
    let compared = plan.agree.is_some();
    let mut world = Box::new(World::new(chooser, plan.entropy));
    world.cwd = CWD.as_bytes().to_vec();
    let mut m = Model { cli: run.include.clone(), ..Default::default() };
    build_disk(plan, &mut world, &mut m);
    for o in &plan.ops {
        if let Op::Disk(d) = o {
            disk_op(&mut world, &mut m, d);
        }
    }
    if run.fd_limit {
        world.open_fails = Some(libc::EMFILE);
    }
    let before = world.vfs.clone();
    world.masked = Masked { eintr: plan.eintr, short: plan.short };
    world.out_masked = Masked { eintr: run.out_eintr, short: run.out_short };
    world.out_fault = run.out_fault;
    if let Some((after, call, errno, remove)) = &run.transient {
        let p = match remove {
            Some(p) => Pending::Remove(p.clone()),
            None => Pending::Fail(*errno),
        };
        world.pending.push((*after, call_of(*call), p));
    }
    let mut args: Vec<String> = vec!["ginko".into()];
    // the file may come first
    let first = plan.entropy >> 40 & 3 == 1;
    if first && run.bad_args == 0 {
        args.push(run.file.clone());
    }
    for (i, dir) in run.include.iter().enumerate() {
        crate::args::include(&mut args, dir, plan.entropy >> (3 * i % 40));
    }
    match run.bad_args {
        0 if first => {}
        0 => args.push(run.file.clone()),
        1 => {}
        2 => {
            args.push(run.file.clone());
            args.push("--no-such-option".into())
        }
        _ => {
            args.push(run.file.clone());
            args.push("another.dts".into())
        }
    }

    let mut out = Outcome::default();
    let child = match fork_run(plan, &mut world, &args) {
        Ok(c) => c,
        Err(e) => {
            out.violation = Some(Violation { kind: "crash".into(), detail: e });
            return out;
        }
    };
    out.choices = child.choices.clone();
    out.fired = child.fired.clone();
    out.digest = child.digest;
    out.steps = child.calls;
    out.sim_us = 1000 * child.calls;
    out.schedule = child.digest;
    out.probes.insert("cli-runs".into(), 1);
    let stdout = String::from_utf8_lossy(&child.stdout).into_owned();
    if trace {
        crate::run::dump_disk(plan, &mut out.trace);
        for o in &plan.ops {
            if let Op::Disk(d) = o {
                out.trace.push(format!("disk: {d:?}"));
            }
        }
        out.trace.push(format!("$ {}", args.join(" ")));
        for (k, v) in &child.fired {
            out.trace.push(format!("fault: {k} x{v}"));
        }
        out.trace.push(format!("exit status {}", child.exit));
        out.trace.push(format!("stdout: {stdout}"));
        out.trace.push(format!("stderr: {}", String::from_utf8_lossy(&child.stderr)));
        if let Some(p) = &child.panic {
            out.trace.push(format!("panic: {p}"));
        }
    }
    if compared {
        let ended = child.forbidden.first().map(|f| ("forbidden", format!("the program tried: {f}")));
        let ended = ended.or(child.panic.as_ref().map(|p| ("crash", format!("the command line tool panicked: {p}"))));
        match (ended, parse_output(&stdout)) {
            (Some((kind, detail)), _) => out.violation = Some(Violation { kind: kind.into(), detail }),
            (None, Err(detail)) => out.violation = Some(Violation { kind: "disagreement".into(), detail }),
            (None, Ok(shown)) => {
                let mut p = Problems { include: run.include.clone(), success: child.exit == 0, ..Default::default() };
                for s in shown {
                    p.files.entry(s.file).or_default().push(problem(s.sev, s.s.line, s.s.col, &s.message));
                }
                p.files.values_mut().for_each(|v| v.sort());
                out.problems = Some(p);
            }
        }
        return out;
    }
    if let Err((kind, detail)) = check(plan, run, &before, &mut m, &child, &stdout, &mut out) {
        out.violation = Some(Violation { kind: kind.into(), detail });
    }
    out
}

fn check(
    plan: &Plan,
    run: &CliRun,
    vfs: &simcore::vfs::Vfs,
    m: &mut Model,
    c: &Child,
    stdout: &str,
    out: &mut Outcome,
) -> Result<(), (&'static str, String)> {
    let _ = plan;
    let ok = stdout.contains("No issues found");
    let write_failed = c.fired.keys().any(|k| k.starts_with("write:E") && k != "write:EINTR");
    let text = || -> String {
        let mut s = stdout.to_string();
        if s.len() > 600 {
            let mut n = 600;
            while !s.is_char_boundary(n) {
                n -= 1
            }
            s.truncate(n);
        }
        format!("exit status {}, output {s:?}", c.exit)
    };
    if let Some(f) = c.forbidden.first() {
        return Err(("forbidden", format!("the program tried: {f}")));
    }
    if let Some(p) = &c.panic {
        if !write_failed {
            return Err(("crash", format!("the command line tool panicked: {p}")));
        }
    }
    if write_failed {
        if c.exit == 0 {
            return Err(("verdict", format!("the output could not be written, but the tool reports success: {}", text())));
        }
        out.probes.insert("cli:write-failed".into(), 1);
        return Ok(());
    }
    if run.bad_args != 0 {
        if c.exit == 0 || ok {
            return Err(("verdict", format!("unusable arguments are accepted: {}", text())));
        }
        return Ok(());
    }
    let disk = Disk { vfs, cwd: CWD, open_fails: run.fd_limit };
    let key = disk.canon(&run.file);
    let content = key.as_ref().and_then(|k| disk.read(k));
    if run.transient.is_some() {
        m.start_transient();
    }
    let (Some(key), Some(content)) = (key, content) else {
        if c.exit == 0 || ok {
            return Err(("verdict", format!("the file cannot be read, but the tool reports success: {}", text())));
        }
        out.probes.insert("cli:unreadable".into(), 1);
        return Ok(());
    };
    let shown = parse_output(stdout).map_err(|e| ("verdict", e))?;
    if (c.exit == 0) != ok {
        return Err(("verdict", format!("exit status and message contradict each other: {}", text())));
    }
    if ok && !shown.is_empty() {
        return Err(("verdict", format!("success is claimed although problems are shown: {}", text())));
    }
    m.configure(&disk, vec![]);
    m.set_text(&disk, &key, &content);
    let st = m.evaluate(&disk);
    if run.transient.is_some() && c.fired.keys().any(|k| !k.contains("EINTR") && !k.contains("short")) {
        // one call failed at an unknown point: either the file could not be read, or it has a problem
        out.probes.insert("cli:transient".into(), 1);
        return Ok(());
    }
    let mut must = false;
    let mut may = false;
    for (k, f) in &st.files {
        let d: Vec<&Shown1> = shown.iter().filter(|s| s.file == *k).collect();
        if !f.sure && d.is_empty() {
            may = true;
            continue;
        }
        let (a, b) = f.pred.nonempty();
        must |= a && f.sure;
        may |= b;
        let d: Vec<Shown> = d.iter().map(|s| Shown { error: s.s.error, line: s.s.line, col: s.s.col }).collect();
        if let Err(e) = f.pred.check_shown(&d) {
            return Err(("verdict", format!("{k}: {e}; {}", text())));
        }
    }
    for s in &shown {
        if !st.files.contains_key(&s.file) && !st.unknown_ok {
            return Err(("verdict", format!("a problem is shown for {}, which is not included: {}", s.file, text())));
        }
    }
    for g in &st.cycles {
        out.probes.insert("cycle-at-rest".into(), 1);
        if !shown.iter().any(|s| g.contains(&s.file)) {
            return Err(("cycle", format!("include cycle {g:?} is not reported: {}", text())));
        }
        must = true;
    }
    if must && c.exit == 0 {
        return Err(("verdict", format!("there are problems, but the tool reports success: {}", text())));
    }
    if !may && !must && c.exit != 0 {
        return Err(("verdict", format!("there are no problems, but the tool reports failure: {}", text())));
    }
    if c.exit != 0 && shown.is_empty() {
        return Err(("verdict", format!("failure without showing any problem: {}", text())));
    }
    *out.probes.entry(if c.exit == 0 { "cli:clean" } else { "cli:problems" }.into()).or_default() += 1;
    Ok(())
}

fn fork_run(plan: &Plan, world: &mut World, args: &[String]) -> Result<Child, String> {
    let mut fds = [0; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err("pipe".into());
        }
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid < 0 {
            return Err("fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            // stack overflows and aborts must not leave messages on the harness's channel
            crate::args::set(args);
            let (e, panic) = match crate::run::spawn_process(plan, world, None, entry) {
                // the parent of a process sees eight bits of the status
                Ended::Exited(c) => (c & 0xff, None),
                Ended::Returned => (STATUS.load(Ordering::SeqCst) & 0xff, None),
                Ended::Panicked(p) => (101, Some(p)),
                Ended::Killed => (137, None),
                Ended::Stuck => (101, Some("it sleeps or repeats system calls forever".into())),
            };
            let c = Child {
                exit: e,
                panic,
                stdout: std::mem::take(&mut world.raw_stdout),
                stderr: std::mem::take(&mut world.stderr),
                fired: world.fired.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
                forbidden: world.forbidden.clone(),
                choices: std::mem::take(&mut world.chooser.log),
                digest: world.digest,
                calls: world.calls,
            };
            let b = serde_json::to_vec(&c).unwrap_or_default();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&b);
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut b = vec![];
        let mut timed_out = false;
        // wait for data with a limit
        let start = std::time::Instant::now();
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, 1000);
            if r > 0 {
                let mut chunk = [0u8; 65536];
                match f.read(&mut chunk) {
                    Ok(0) => break,
                    Ok(n) => b.extend_from_slice(&chunk[..n]),
                    Err(_) => break,
                }
            } else if start.elapsed().as_secs() > 25 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if timed_out {
            return Err("the command line tool does not terminate".into());
        }
        if libc::WIFSIGNALED(st) {
            return Err(format!("the command line tool was killed by signal {}", libc::WTERMSIG(st)));
        }
        serde_json::from_slice(&b).map_err(|e| format!("the command line tool vanished: {e}"))
    }
}
