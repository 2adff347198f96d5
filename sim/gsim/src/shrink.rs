//! Makes the plan and the list of decisions of a failing case smaller, as long as the same kind of
//! violation remains.
use crate::doc::*;
use crate::exec::{isolated, Picks, Res};
use crate::plan::*;
use std::time::Instant;

pub struct Shrinker {
    pub plan: Plan,
    pub picks: Picks,
    pub res: Res,
    pub tried: u64,
    kind: String,
    deadline: Instant,
}

impl Shrinker {
    pub fn new(plan: Plan, picks: Picks, res: Res, deadline: Instant) -> Shrinker {
        let kind = res.violation().expect("nothing to shrink").kind.clone();
        Shrinker { plan, picks, res, tried: 0, kind, deadline }
    }
    fn over(&self) -> bool {
        Instant::now() > self.deadline
    }
    fn one(&mut self, plan: &Plan, picks: Picks) -> bool {
        if self.over() {
            return false;
        }
        self.tried += 1;
        let limit = if self.kind == "hang" { 5 } else { 20 };
        let r = isolated(plan, picks.clone(), false, limit);
        if r.violation().is_some_and(|v| v.kind == self.kind) {
            // decisions that were made, if they are known
            self.picks = if r.first.choices.is_empty() { picks } else { r.picks() };
            self.plan = plan.clone();
            self.res = r;
            return true;
        }
        false
    }
    fn attempt(&mut self, plan: Plan) -> bool {
        if plan == self.plan {
            return false;
        }
        let mut v = vec![Picks::Replay(vec![], vec![]), self.picks.clone()];
        if matches!(self.picks, Picks::Replay(..)) {
            v.extend((1..4).map(Picks::Search));
        }
        v.into_iter().any(|p| self.one(&plan, p))
    }

    /// Removes as many elements of a list as possible.
    fn list(&mut self, len: impl Fn(&Plan) -> usize, remove: impl Fn(&mut Plan, usize, usize)) -> bool {
        let mut any = false;
        let mut size = len(&self.plan).next_power_of_two();
        while size >= 1 {
            let mut at = len(&self.plan);
            while at > 0 && !self.over() {
                let from = at.saturating_sub(size);
                let mut p = self.plan.clone();
                remove(&mut p, from, at);
                any |= self.attempt(p);
                at = from;
            }
            size /= 2;
        }
        any
    }

    fn knobs(&mut self) -> bool {
        let fs: &[fn(&mut Plan)] = &[
            |p| p.twin = None,
            |p| {
                if let Some(t) = &mut p.twin {
                    t.2 = None
                }
            },
            |p| {
                p.eintr = 0;
                p.short = 0;
                p.short_write = 0
            },
            |p| {
                if let Some(a) = &mut p.agree {
                    a.spelling = a.file.clone()
                }
            },
            |p| {
                if let Some(a) = &mut p.agree {
                    (a.seed, a.entropy) = (0, 0)
                }
            },
            |p| p.eintr = 0,
            |p| p.short = 0,
            |p| p.short_write = 0,
            |p| p.cap = 65536,
            |p| p.pre.clear(),
            |p| p.post = 0,
            |p| p.end = End::Eof,
            |p| p.entropy = 0,
            |p| p.init = None,
            |p| p.bad_init = None,
            |p| p.chain = 0,
            |p| p.chain /= 8,
            |p| p.chain /= 2,
            |p| p.chain = p.chain.saturating_sub(1),
            |p| p.chain_loop = false,
            |p| p.chain_skip = 0,
            |p| p.cli.clear(),
            |p| {
                if let Some(c) = &mut p.cli_run {
                    c.transient = None
                }
            },
            |p| {
                if let Some(c) = &mut p.cli_run {
                    c.out_fault = None
                }
            },
            |p| {
                if let Some(c) = &mut p.cli_run {
                    c.out_eintr = 0;
                    c.out_short = 0
                }
            },
            |p| {
                if let Some(c) = &mut p.cli_run {
                    c.fd_limit = false
                }
            },
            |p| {
                if let Some(c) = &mut p.cli_run {
                    c.include.clear()
                }
            },
        ];
        let mut any = false;
        for f in fs {
            let mut p = self.plan.clone();
            f(&mut p);
            any |= self.attempt(p);
        }
        any
    }

    fn documents(&mut self) -> bool {
        let mut any = false;
        let n = docs(&mut self.plan.clone()).len();
        for i in 0..n {
            if self.over() {
                break;
            }
            any |= self.document(i);
        }
        any
    }
    fn doc_attempt(&mut self, i: usize, f: impl FnOnce(&mut Doc)) -> bool {
        let mut p = self.plan.clone();
        if let Some(d) = docs(&mut p).into_iter().nth(i) {
            f(d)
        }
        self.attempt(p)
    }
    fn document(&mut self, i: usize) -> bool {
        let d = match docs(&mut self.plan.clone()).into_iter().nth(i) {
            Some(d) => d.clone(),
            None => return false,
        };
        if d.bytes.is_some() {
            return false;
        }
        let mut any = false;
        if let Some(raw) = d.raw {
            // arbitrary text
            let mut size = raw.chars().count().next_power_of_two();
            let mut cur: Vec<char> = raw.chars().collect();
            while size >= 1 && !self.over() {
                let mut at = cur.len();
                while at > 0 {
                    let from = at.saturating_sub(size);
                    let mut c = cur.clone();
                    c.drain(from..at);
                    let t: String = c.iter().collect();
                    if self.doc_attempt(i, |d| d.raw = Some(t)) {
                        cur = c;
                        any = true;
                    }
                    at = from;
                }
                size /= 2;
            }
            return any;
        }
        if d.cut.is_some() {
            any |= self.doc_attempt(i, |d| d.cut = None);
            if !any {
                return false;
            }
        }
        any |= self.doc_attempt(i, |d| d.tops.clear());
        any |= self.doc_attempt(i, |d| d.style = Style::default());
        any |= self.doc_attempt(i, |d| d.style.comments = 0);
        let mut k = d.tops.len();
        while k > 0 && !self.over() {
            k -= 1;
            any |= self.doc_attempt(i, |d| {
                if k < d.tops.len() {
                    d.tops.remove(k);
                }
            });
        }
        // items of nodes, unless a missing semicolon depends on what follows
        let mut broken = false;
        let mut now = docs(&mut self.plan.clone()).into_iter().nth(i).unwrap().clone();
        let mut sizes = vec![];
        Gen::payloads(&mut now.tops, &mut |p| {
            broken |= p.nosemi || p.items.iter().any(|i| matches!(i, Item::Prop { nosemi: true, .. }));
            sizes.push(p.items.len());
        });
        if broken {
            return any;
        }
        for (pi, n) in sizes.iter().enumerate().rev() {
            for k in (0..*n).rev() {
                if self.over() {
                    return any;
                }
                let mut change = |f: &dyn Fn(&mut Payload)| {
                    self.doc_attempt(i, |d| {
                        let mut at = 0;
                        Gen::payloads(&mut d.tops, &mut |p| {
                            if at == pi {
                                f(p)
                            }
                            at += 1;
                        })
                    })
                };
                let gone = change(&|p| {
                    if k < p.items.len() {
                        p.items.remove(k);
                    }
                });
                any |= gone;
                if !gone {
                    any |= change(&|p| {
                        if let Some(Item::Prop { vals, .. }) = p.items.get_mut(k) {
                            vals.clear()
                        }
                    });
                }
            }
        }
        any
    }

    fn decisions(&mut self) -> bool {
        let Picks::Replay(mut a, mut b) = self.picks.clone() else { return false };
        let mut any = false;
        let plan = self.plan.clone();
        if self.one(&plan, Picks::Replay(vec![], vec![])) {
            // the list of decisions made consists of zeros
            self.picks = Picks::Replay(vec![], vec![]);
            return !a.is_empty() || !b.is_empty();
        }
        for which in 0..2 {
            let mut size = (if which == 0 { a.len() } else { b.len() }).next_power_of_two();
            while size >= 1 && !self.over() {
                let mut at = if which == 0 { a.len() } else { b.len() };
                while at > 0 && !self.over() {
                    let from = at.saturating_sub(size);
                    let (mut x, mut y) = (a.clone(), b.clone());
                    let l = if which == 0 { &mut x } else { &mut y };
                    if l[from..at].iter().any(|v| *v != 0) {
                        l[from..at].fill(0);
                        if self.one(&plan, Picks::Replay(x.clone(), y.clone())) {
                            (a, b) = (x, y);
                            any = true;
                        }
                    }
                    at = from;
                }
                size /= 2;
            }
        }
        for l in [&mut a, &mut b] {
            while l.last() == Some(&0) {
                l.pop();
            }
        }
        if self.one(&plan, Picks::Replay(a.clone(), b.clone())) {
            self.picks = Picks::Replay(a, b);
        }
        any
    }

    pub fn run(&mut self) {
        loop {
            let mut any = self.list(|p| p.ops.len(), |p, a, b| drop(p.ops.drain(a..b)));
            any |= self.knobs();
            any |= self.list(|p| p.disk.len(), |p, a, b| drop(p.disk.drain(a..b)));
            any |= self.documents();
            if !any || self.over() {
                break;
            }
        }
        self.decisions();
    }
}

fn docs(p: &mut Plan) -> Vec<&mut Doc> {
    let mut v = vec![];
    for (_, e) in &mut p.disk {
        if let Entry::File(d) = e {
            v.push(d)
        }
    }
    for o in &mut p.ops {
        match o {
            Op::Open { doc, .. } => v.push(doc),
            Op::Change { docs, .. } => v.extend(docs.iter_mut()),
            Op::Disk(DiskOp::Put(_, Entry::File(d))) => v.push(d),
            _ => {}
        }
    }
    v
}
