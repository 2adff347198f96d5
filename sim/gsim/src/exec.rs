//! One case: a plan together with the scheduling decisions of its one or two executions.
use crate::cli;
use crate::plan::{CliRun, Plan};
use crate::run::{self, Outcome, Problems, Twin, Violation};
use serde::{Deserialize, Serialize};
use simcore::Chooser;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

/// How the decisions of a case are made.
#[derive(Clone, Debug)]
pub enum Picks {
    Search(u64),
    Replay(Vec<u32>, Vec<u32>),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Res {
    pub first: Outcome,
    pub second: Option<Outcome>,
}

impl Res {
    pub fn violation(&self) -> Option<&Violation> {
        self.first.violation.as_ref()
    }
    pub fn digest(&self) -> u64 {
        let d = self.second.as_ref().map(|s| s.digest).unwrap_or(0);
        self.first.digest ^ d.rotate_left(17)
    }
    pub fn picks(&self) -> Picks {
        Picks::Replay(
            self.first.choices.clone(),
            self.second.as_ref().map(|s| s.choices.clone()).unwrap_or_default(),
        )
    }
}

pub fn execute(plan: &Plan, picks: Picks, trace: bool) -> Res {
    let second = plan.twin.map(|t| t.0).or(plan.agree.as_ref().map(|a| a.seed));
    let (a, b) = match picks {
        Picks::Search(s) => (Chooser::search(s), second.map(Chooser::search)),
        Picks::Replay(a, b) => (Chooser::replay(a), second.map(|_| Chooser::replay(b))),
    };
    if plan.cli_run.is_some() {
        return Res { first: cli::run_cli(plan, a, trace), second: None };
    }
    let first = run::run_ls(plan, a, None, trace);
    let mut res = Res { first, second: None };
    if let Some(a) = &plan.agree {
        if let (Some(p), Some(b), None) = (res.first.problems.clone(), b, &res.first.violation) {
            let run = CliRun { file: a.spelling.clone(), include: p.include.clone(), ..Default::default() };
            let cli_plan = Plan { cli_run: Some(run), entropy: a.entropy, ..plan.clone() };
            let second = cli::run_cli(&cli_plan, b, trace);
            res.first.violation = second.violation.clone().or_else(|| disagreement(&p, &second.problems.clone().unwrap_or_default()));
            if trace {
                res.first.trace.push("=== the command line tool".into());
                res.first.trace.extend(second.trace.iter().cloned());
                if let Some(v) = &res.first.violation {
                    res.first.trace.push(format!("VIOLATION {}: {}", v.kind, v.detail));
                }
            }
            res.second = Some(second);
        }
        return res;
    }
    if let (Some((_, entropy, kill)), Some(b), None) = (plan.twin, b, &res.first.violation) {
        let second = run::run_ls(plan, b, Some(Twin { entropy, kill }), trace);
        res.first.violation = match &second.violation {
            Some(v) => Some(v.clone()),
            None => compare(&res.first, &second, kill.is_some()),
        };
        if trace {
            res.first.trace.push("=== second execution of the same session".into());
            res.first.trace.extend(second.trace.iter().cloned());
            if let Some(v) = &res.first.violation {
                res.first.trace.push(format!("VIOLATION {}: {}", v.kind, v.detail));
            }
        }
        res.second = Some(second);
    }
    res
}

/// Both programs have read the same files.
fn disagreement(server: &Problems, tool: &Problems) -> Option<Violation> {
    let bad = |detail: String| Some(Violation { kind: "disagreement".into(), detail });
    let none = vec![];
    for k in server.files.keys().chain(tool.files.keys()) {
        let (a, b) = (server.files.get(k).unwrap_or(&none), tool.files.get(k).unwrap_or(&none));
        if a != b {
            return bad(format!("in {k} the server finds {a:?}, and the command line tool {b:?}"));
        }
    }
    if tool.success != server.success {
        return bad(format!("both programs show {:?}, but success of the command line tool is {}", tool.files, tool.success));
    }
    None
}

/// The two executions differ only in what the outcome must not depend on.
fn compare(a: &Outcome, b: &Outcome, killed: bool) -> Option<Violation> {
    let fresh = killed || a.fired.contains_key("process:killed");
    for (k, (x, firm)) in &a.finals {
        if let Some((y, firm2)) = b.finals.get(k) {
            if x != y && (!fresh || *firm && *firm2) {
                return Some(Violation {
                    kind: "different-diagnostics".into(),
                    detail: format!("two executions of the same session leave different diagnostics of {k}: {x:?} and {y:?}"),
                });
            }
        } else if !fresh && !x.is_empty() {
            return Some(Violation {
                kind: "different-diagnostics".into(),
                detail: format!("only one of two executions of the same session leaves diagnostics of {k}: {x:?}"),
            });
        }
    }
    for (k, (x, firm, pos)) in &a.answers {
        if let Some((y, firm2, pos2)) = b.answers.get(k) {
            // (in a session that was interrupted, the client may have asked something else)
            if pos == pos2 && x != y && (!fresh || *firm && *firm2) {
                return Some(Violation {
                    kind: "different-answers".into(),
                    detail: format!("query {k} is answered differently in two executions of the same session: {x} and {y}"),
                });
            }
        }
    }
    None
}

/// Executes a case in a process of its own: crashes and endless loops become violations.
pub fn isolated(plan: &Plan, picks: Picks, trace: bool, limit_s: u64) -> Res {
    let bad = |kind: &str, detail: String| Res {
        first: Outcome { violation: Some(Violation { kind: kind.into(), detail }), ..Default::default() },
        second: None,
    };
    let mut fds = [0; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::setpgid(0, 0);
            silence();
            let r = execute(plan, picks, trace);
            let b = serde_json::to_vec(&r).unwrap_or_default();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&b);
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut b = vec![];
        let start = std::time::Instant::now();
        let mut timed_out = false;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut p, 1, 200) > 0 {
                let mut chunk = [0u8; 65536];
                match f.read(&mut chunk) {
                    Ok(n) if n > 0 => b.extend_from_slice(&chunk[..n]),
                    _ => break,
                }
            } else if start.elapsed().as_secs() >= limit_s {
                timed_out = true;
                libc::kill(-pid, libc::SIGKILL);
                libc::kill(pid, libc::SIGKILL);
                break;
            }
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if timed_out {
            return bad("hang", "the program neither ends nor waits for anything".into());
        }
        if libc::WIFSIGNALED(st) {
            return bad("abort", format!("the program was killed by signal {}", libc::WTERMSIG(st)));
        }
        match serde_json::from_slice(&b) {
            Ok(r) => r,
            Err(_) => bad("abort", format!("the program ended the process (status {})", libc::WEXITSTATUS(st))),
        }
    }
}

/// Messages of the run-time system (stack overflow, abort) do not belong to the results.
pub fn silence() {
    unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if n >= 0 {
            libc::dup2(n, 2);
            libc::close(n);
        }
    }
}
