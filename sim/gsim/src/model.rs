//! Reference model of the service: what the files of a session mean, and what a client may be told
//! about them. It knows nothing about how the server computes it.
use crate::doc::*;
use serde_json::Value;
use simcore::vfs::Vfs;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub struct Disk<'a> {
    pub vfs: &'a Vfs,
    pub cwd: &'a str,
    pub open_fails: bool,
}

impl Disk<'_> {
    pub fn canon(&self, path: &str) -> Option<String> {
        self.vfs
            .resolve(path.as_bytes(), self.cwd.as_bytes(), true)
            .ok()
            .map(|(_, p)| String::from_utf8_lossy(&p).into_owned())
    }
    pub fn read(&self, path: &str) -> Option<String> {
        if self.open_fails {
            return None;
        }
        let b = self.vfs.read(path.as_bytes(), self.cwd.as_bytes()).ok()?;
        String::from_utf8(b).ok()
    }
}

pub fn parent(p: &str) -> &str {
    match p.rfind('/') {
        Some(0) => "/",
        Some(i) => &p[..i],
        None => "",
    }
}

pub fn join(dir: &str, name: &str) -> String {
    if name.starts_with('/') {
        name.to_string()
    } else if dir.ends_with('/') || dir.is_empty() {
        format!("{dir}{name}")
    } else {
        format!("{dir}/{name}")
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ft {
    Dts,
    Dtsi,
    Dtso,
    Unknown,
}

pub fn file_type(key: &str) -> Ft {
    let name = key.rsplit('/').next().unwrap_or("");
    match name.rfind('.') {
        Some(i) if i > 0 => match &name[i + 1..] {
            "dts" => Ft::Dts,
            "dtsi" => Ft::Dtsi,
            "dtso" | "overlay" => Ft::Dtso,
            _ => Ft::Unknown,
        },
        _ => Ft::Unknown,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unresolved,
    Unreadable(String),
    Target(String),
}

#[derive(Clone)]
pub struct Loaded {
    pub info: Rc<Info>,
    pub open: bool,
    pub outs: Vec<Out>,
    pub tainted: bool,
    /// whether the server certainly has this file
    pub certain: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Def {
    pub certain: bool,
    pub targets: BTreeSet<(String, Span, String)>,
    /// full path of the node (labels only), if known
    pub path: Option<Vec<String>>,
    pub ambiguous: bool,
    pub property: bool,
}

/// A node below one that is referenced by a label which is not known yet.
#[derive(Clone, Debug, PartialEq)]
pub struct Pend {
    pub base: String,
    pub path: Vec<String>,
    pub label: Option<String>,
    pub target: (String, Span, String),
}

#[derive(Clone, Debug, Default)]
pub struct Env {
    pub pending: Vec<Pend>,
    pub labels: BTreeMap<String, Def>,
    pub paths: BTreeMap<Vec<String>, Def>,
    /// anything may be defined in addition
    pub wild: bool,
    pub maybe_names: BTreeSet<String>,
    pub deleted: BTreeSet<String>,
    pub header: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Know {
    Yes,
    Maybe,
    No,
}

impl Env {
    fn merge(&mut self, o: &Env, certain: bool) {
        // what the included file adds to nodes of this one
        let mut placed = vec![];
        let mut fixed: BTreeMap<String, Option<Vec<String>>> = BTreeMap::new();
        for p in &o.pending {
            let base = Ref::Label(p.base.clone());
            match (self.know(&base, true), self.labels.get(&p.base)) {
                (Know::Yes, Some(Def { path: Some(b), ambiguous: false, .. })) => {
                    let mut full = b.clone();
                    full.extend(p.path.iter().cloned());
                    if let Some(l) = &p.label {
                        let e = fixed.entry(l.clone()).or_insert_with(|| Some(full.clone()));
                        if e.as_ref() != Some(&full) {
                            *e = None;
                        }
                    }
                    placed.push((full, p.target.clone()));
                }
                (Know::No, _) => {
                    if !self.pending.contains(p) {
                        self.pending.push(p.clone())
                    }
                }
                _ => self.maybe_names.extend(p.path.iter().cloned()),
            }
        }
        let mut o = o.clone();
        for (l, path) in fixed {
            if let Some(d) = o.labels.get_mut(&l) {
                match path {
                    Some(p) if d.path.is_none() && !d.ambiguous => d.path = Some(p),
                    _ => d.ambiguous = true,
                }
            }
        }
        for (full, target) in placed {
            let d = o.paths.entry(full).or_default();
            d.certain = true;
            d.targets.insert(target);
        }
        let o = &o;
        for (k, d) in &o.labels {
            let e = self.labels.entry(k.clone()).or_insert_with(|| Def { path: d.path.clone(), ..Def::default() });
            if e.path != d.path {
                e.ambiguous = true;
            }
            e.certain |= d.certain && certain;
            e.ambiguous |= d.ambiguous;
            e.property |= d.property;
            e.targets.extend(d.targets.iter().cloned());
        }
        for (k, d) in &o.paths {
            let e = self.paths.entry(k.clone()).or_default();
            e.certain |= d.certain && certain;
            e.targets.extend(d.targets.iter().cloned());
        }
        self.wild |= o.wild;
        self.maybe_names.extend(o.maybe_names.iter().cloned());
        self.deleted.extend(o.deleted.iter().cloned());
        self.header |= o.header;
    }

    pub fn know(&self, r: &Ref, now: bool) -> Know {
        match r {
            Ref::Label(l) => {
                let Some(d) = self.labels.get(l) else {
                    return if self.wild { Know::Maybe } else { Know::No };
                };
                if !d.certain || (now && d.property) || self.deleted.contains(l) {
                    return Know::Maybe;
                }
                match &d.path {
                    Some(p) if !d.ambiguous && p.iter().any(|c| self.deleted.contains(c)) => Know::Maybe,
                    None if !self.deleted.is_empty() => Know::Maybe,
                    _ if d.ambiguous && !self.deleted.is_empty() => Know::Maybe,
                    _ => Know::Yes,
                }
            }
            Ref::Path(p) => {
                if p.iter().any(|c| self.deleted.contains(c)) {
                    return Know::Maybe;
                }
                match self.paths.get(p) {
                    Some(d) if d.certain => Know::Yes,
                    Some(_) => Know::Maybe,
                    None if self.wild => Know::Maybe,
                    None => match p.last() {
                        Some(n) if self.maybe_names.contains(n) => Know::Maybe,
                        Some(n) if self.pending.iter().any(|p| p.path.last() == Some(n)) => Know::Maybe,
                        _ => Know::No,
                    },
                }
            }
        }
    }
    /// Whether the target may be another one than the known ones.
    pub fn maybe_elsewhere(&self, r: &Ref) -> bool {
        self.wild || matches!(r, Ref::Path(p) if p.last().is_some_and(|n| self.maybe_names.contains(n)))
    }

    pub fn targets(&self, r: &Ref) -> Option<&Def> {
        match r {
            Ref::Label(l) => self.labels.get(l),
            Ref::Path(p) => self.paths.get(p),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Place {
    At(Span),
    /// starts within
    In(Span),
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub code: &'static str,
    pub place: Place,
    pub must: bool,
    pub max: usize,
}

#[derive(Clone, Debug)]
pub enum Pred {
    Any,
    /// exactly one error
    Hard,
    /// at least one error
    Torn,
    List(Vec<Exp>),
}

#[derive(Clone)]
pub struct FileState {
    pub info: Rc<Info>,
    pub pred: Rc<Pred>,
    pub env: Rc<Env>,
    pub open: bool,
    /// whether the server must know this file
    pub sure: bool,
    /// per include directive: acceptable targets, and whether "no target" is acceptable
    pub incs: Rc<Vec<(Vec<String>, bool)>>,
}

#[derive(Clone, Default)]
pub struct State {
    pub files: BTreeMap<String, FileState>,
    /// files of include cycles: at least one of each group reports it
    pub cycles: Vec<Vec<String>>,
    /// files that are not listed may be known to the server, too
    pub unknown_ok: bool,
    /// files that were analyzed while it was not certain what they include
    pub unsure: Vec<String>,
}

impl State {
    /// What is reported for this file depends on nothing but the open documents and the disk.
    pub fn firm(&self, key: &str) -> bool {
        self.unsure.is_empty() && self.files.get(key).is_some_and(|f| f.sure)
    }
}

#[derive(Clone, Debug)]
pub struct Diag {
    pub code: String,
    pub sev: u64,
    pub span: Span,
    pub message: String,
}

fn pos_of(v: &Value) -> Option<Pos> {
    Some(Pos { line: v.get("line")?.as_u64()? as u32, col: v.get("character")?.as_u64()? as u32 })
}
pub fn span_of(v: &Value) -> Option<Span> {
    let s = Span { s: pos_of(v.get("start")?)?, e: pos_of(v.get("end")?)? };
    Some(s)
}

pub fn parse_diags(v: &Value) -> Result<Vec<Diag>, String> {
    let mut out = vec![];
    for d in v.as_array().ok_or("diagnostics is not a list")? {
        let code = match d.get("code") {
            Some(Value::String(s)) => s.clone(),
            Some(Value::Number(n)) => n.to_string(),
            _ => String::new(),
        };
        out.push(Diag {
            code,
            sev: d.get("severity").and_then(|s| s.as_u64()).unwrap_or(1),
            span: d.get("range").and_then(span_of).ok_or("diagnostic without a range")?,
            message: d.get("message").and_then(|m| m.as_str()).ok_or("diagnostic without a message")?.to_string(),
        });
    }
    Ok(out)
}

pub fn in_text(info: &Info, span: Span, slack: u32) -> bool {
    let ok = |p: Pos, slack: u32| (p.line as usize) < info.line_len.len() && p.col <= info.line_len[p.line as usize] + slack;
    span.s <= span.e && ok(span.s, slack) && ok(span.e, slack)
}

pub fn code_is(code: &str, want: &str) -> bool {
    let norm = |s: &str| s.replace('_', "").to_ascii_lowercase();
    norm(code) == norm(want)
}

fn sev_num(code: &str) -> u64 {
    match severity(code) {
        Sev::Error => 1,
        Sev::Warning => 2,
    }
}

/// Positions only (the command line tool shows the start, and no code).
pub struct Shown {
    pub error: bool,
    pub line: u32,
    pub col: u32,
}

impl Pred {
    pub fn check(&self, info: &Info, text_known: bool, diags: &[Diag]) -> Result<(), String> {
        if text_known {
            for d in diags {
                let slack = if matches!(self, Pred::List(_)) && !code_is(&d.code, "expected") { 0 } else { 2 };
                if !in_text(info, d.span, slack) {
                    return Err(format!("range outside of the text: {d:?}"));
                }
            }
        }
        for d in diags {
            if d.message.trim().is_empty() {
                return Err(format!("diagnostic without a text: {d:?}"));
            }
        }
        match self {
            Pred::Any => Ok(()),
            Pred::Hard => {
                if diags.len() != 1 || diags[0].sev != 1 {
                    return Err(format!("expected exactly one syntax error, got {diags:?}"));
                }
                Ok(())
            }
            Pred::Torn => {
                if !diags.iter().any(|d| d.sev == 1) {
                    return Err(format!("expected at least one error for a torn text, got {diags:?}"));
                }
                Ok(())
            }
            Pred::List(exps) => {
                let mut used = vec![0; exps.len()];
                for d in diags {
                    let hit = (0..exps.len()).find(|i| {
                        let e = &exps[*i];
                        used[*i] < e.max
                            && code_is(&d.code, e.code)
                            && match e.place {
                                Place::At(s) => s == d.span,
                                Place::In(s) => s.s <= d.span.s && d.span.s <= s.e,
                            }
                    });
                    let Some(i) = hit else {
                        return Err(format!("unexpected diagnostic {d:?}; expected {}", show(exps)));
                    };
                    used[i] += 1;
                    if d.sev != sev_num(exps[i].code) {
                        return Err(format!("wrong severity: {d:?}"));
                    }
                }
                for (e, u) in exps.iter().zip(used) {
                    if e.must && u == 0 {
                        return Err(format!("missing diagnostic {}; got {diags:?}", show(std::slice::from_ref(e))));
                    }
                }
                Ok(())
            }
        }
    }

    /// The same for what the command line tool prints.
    pub fn check_shown(&self, diags: &[Shown]) -> Result<(), String> {
        match self {
            Pred::Any => Ok(()),
            Pred::Hard => {
                if diags.len() == 1 && diags[0].error {
                    Ok(())
                } else {
                    Err(format!("expected exactly one syntax error, {} problems shown", diags.len()))
                }
            }
            Pred::Torn => {
                if diags.iter().any(|d| d.error) {
                    Ok(())
                } else {
                    Err("no error shown for a torn file".into())
                }
            }
            Pred::List(exps) => {
                let mut used = vec![0; exps.len()];
                for d in diags {
                    let p = Pos { line: d.line, col: d.col };
                    let hit = (0..exps.len()).find(|i| {
                        let e = &exps[*i];
                        used[*i] < e.max
                            && (sev_num(e.code) == 1) == d.error
                            && match e.place {
                                Place::At(s) => s.s == p,
                                Place::In(s) => s.s <= p && p <= s.e,
                            }
                    });
                    match hit {
                        Some(i) => used[i] += 1,
                        None => {
                            return Err(format!(
                                "unexpected problem shown at {}:{}; expected {}",
                                d.line + 1,
                                d.col + 1,
                                show(exps)
                            ))
                        }
                    }
                }
                // several problems may start at one position: count instead of matching one by one
                for (e, u) in exps.iter().zip(&used) {
                    if e.must && *u == 0 {
                        let start = |e: &Exp| match e.place {
                            Place::At(s) | Place::In(s) => s.s,
                        };
                        let others: usize = exps
                            .iter()
                            .zip(&used)
                            .filter(|(o, _)| start(o) == start(e))
                            .map(|(_, u)| *u)
                            .sum();
                        let needed = exps.iter().filter(|o| start(o) == start(e) && o.must).count();
                        if others < needed {
                            return Err(format!("problem not shown: {}", show(std::slice::from_ref(e))));
                        }
                    }
                }
                Ok(())
            }
        }
    }

    /// (certainly has errors, possibly has errors)
    pub fn errors(&self) -> (bool, bool) {
        match self {
            Pred::Any => (false, true),
            Pred::Hard | Pred::Torn => (true, true),
            Pred::List(e) => (
                e.iter().any(|e| e.must && severity(e.code) == Sev::Error),
                e.iter().any(|e| severity(e.code) == Sev::Error),
            ),
        }
    }
    /// (certainly has diagnostics, possibly has diagnostics)
    pub fn nonempty(&self) -> (bool, bool) {
        match self {
            Pred::Any => (false, true),
            Pred::Hard | Pred::Torn => (true, true),
            Pred::List(e) => (e.iter().any(|e| e.must), !e.is_empty()),
        }
    }
}

pub fn show(exps: &[Exp]) -> String {
    let v: Vec<String> = exps
        .iter()
        .map(|e| {
            let (k, s) = match e.place {
                Place::At(s) => ("at", s),
                Place::In(s) => ("in", s),
            };
            format!(
                "{}{} {k} {}:{}-{}:{}",
                if e.must { "" } else { "(optional) " },
                e.code,
                s.s.line,
                s.s.col,
                s.e.line,
                s.e.col
            )
        })
        .collect();
    format!("[{}]", v.join(", "))
}

#[derive(Clone, Default)]
pub struct Model {
    pub loaded: BTreeMap<String, Loaded>,
    pub cli: Vec<String>,
    pub cfg: Vec<String>,
    /// canonicalized when configured
    pub inc: Vec<String>,
    pub registry: HashMap<String, Rc<Info>>,
    pub transient: bool,
    pub ever_transient: bool,
    pub ever_fuzzy: bool,
    /// a text was analyzed of which it is not known what it includes
    pub ever_unknown: bool,
}

impl Model {
    pub fn register(&mut self, text: String, info: Info) {
        match self.registry.get(&text) {
            Some(i) if rank(i.status) >= rank(info.status) => {}
            _ => {
                self.registry.insert(text, Rc::new(info));
            }
        }
    }
    fn info_of(&self, text: &str) -> Rc<Info> {
        match self.registry.get(text) {
            Some(i) => i.clone(),
            None => {
                let d = Doc { raw: Some(text.to_string()), ..Default::default() };
                Rc::new(d.info())
            }
        }
    }

    pub fn configure(&mut self, disk: &Disk, cfg: Vec<String>) {
        self.cfg = cfg;
        self.inc = self
            .cli
            .iter()
            .chain(&self.cfg)
            .map(|p| disk.canon(p).unwrap_or_else(|| p.clone()))
            .collect();
        let keys: Vec<String> = self.loaded.keys().cloned().collect();
        for k in keys {
            let l = self.loaded[&k].clone();
            self.parse(disk, k, l.info, l.open, l.certain);
        }
    }

    fn candidates(&self, key: &str, name: &str) -> Vec<String> {
        let mut v = vec![join(parent(key), name)];
        v.extend(self.inc.iter().map(|d| join(d, name)));
        v.push(name.to_string());
        v
    }
    pub fn resolve(&self, disk: &Disk, key: &str, name: &str) -> Option<String> {
        self.candidates(key, name).iter().find_map(|c| disk.canon(c))
    }

    pub fn key_of(&self, disk: &Disk, path: &str) -> String {
        if let Some(c) = disk.canon(path) {
            return c;
        }
        let name = path.rsplit('/').next().unwrap_or("");
        match disk.canon(parent(path)) {
            Some(p) if !name.is_empty() => join(&p, name),
            _ => path.to_string(),
        }
    }

    /// Reads a file and what it includes, unless that is known already. (Not recursive: chains of
    /// includes can be long.)
    fn parse(&mut self, disk: &Disk, key: String, info: Rc<Info>, open: bool, certain: bool) {
        self.insert(&key, info, open, certain);
        let mut todo = vec![key];
        while let Some(key) = todo.pop() {
            let l = &self.loaded[&key];
            let (info, certain, mut tainted) = (l.info.clone(), l.certain, l.tainted);
            let mut outs = vec![];
            for (_, name) in includes(&info) {
                let out = match self.resolve(disk, &key, &name) {
                    None => Out::Unresolved,
                    Some(t) => {
                        let firm = certain && !tainted && info.status == Status::Parsed;
                        if let Some(l) = self.loaded.get_mut(&t) {
                            if firm && !l.certain {
                                if disk.read(&t).as_deref() == Some(&l.info.text) {
                                    l.certain = true;
                                } else {
                                    // whether it is loaded now depends on whether it already was
                                    tainted = true;
                                }
                            }
                            Out::Target(t)
                        } else {
                            match disk.read(&t) {
                                Some(text) => {
                                    let i = self.info_of(&text);
                                    self.insert(&t, i, false, firm);
                                    todo.push(t.clone());
                                    Out::Target(t)
                                }
                                None => Out::Unreadable(t),
                            }
                        }
                    }
                };
                outs.push(out);
            }
            let l = self.loaded.get_mut(&key).unwrap();
            l.outs = outs;
            l.tainted |= tainted;
        }
    }

    fn insert(&mut self, key: &str, info: Rc<Info>, open: bool, certain: bool) {
        let tainted = self.transient && !includes(&info).is_empty();
        if info.status == Status::Fuzzy || info.status == Status::Torn {
            self.ever_fuzzy = true;
            self.ever_unknown |= info.status == Status::Fuzzy;
        }
        self.loaded.insert(key.to_string(), Loaded { info, open, outs: vec![], tainted, certain });
    }

    /// Open or change.
    pub fn set_text(&mut self, disk: &Disk, path: &str, text: &str) {
        let key = self.key_of(disk, path);
        let info = self.info_of(text);
        self.parse(disk, key, info, true, true);
    }

    pub fn close(&mut self, disk: &Disk, path: &str) {
        let key = self.key_of(disk, path);
        self.loaded.remove(&key);
        let includers: Vec<String> = self
            .loaded
            .iter()
            .filter(|(k, l)| {
                includes(&l.info).iter().any(|(_, n)| self.resolve(disk, k, n).as_deref() == Some(&key))
            })
            .map(|(k, _)| k.clone())
            .collect();
        for k in includers {
            let l = self.loaded[&k].clone();
            self.parse(disk, k, l.info, l.open, l.certain);
        }
        // drop what nothing needs any more
        let mut needed = BTreeSet::new();
        let mut todo: Vec<String> = self.loaded.iter().filter(|(_, l)| l.open).map(|(k, _)| k.clone()).collect();
        while let Some(k) = todo.pop() {
            if !needed.insert(k.clone()) {
                continue;
            }
            let l = &self.loaded[&k];
            for ((_, name), out) in includes(&l.info).iter().zip(&l.outs) {
                if let Out::Target(t) = out {
                    if self.loaded.contains_key(t) {
                        todo.push(t.clone());
                    }
                }
                if let Some(t) = self.resolve(disk, &k, name) {
                    if self.loaded.contains_key(&t) {
                        todo.push(t);
                    }
                }
            }
        }
        self.loaded.retain(|k, _| needed.contains(k));
        // what is only kept by files of which too little is known
        let mut firm = BTreeSet::new();
        let mut todo: Vec<String> = self.loaded.iter().filter(|(_, l)| l.open).map(|(k, _)| k.clone()).collect();
        while let Some(k) = todo.pop() {
            let Some(l) = self.loaded.get(&k) else { continue };
            if !firm.insert(k.clone()) || l.info.status != Status::Parsed || l.tainted {
                continue;
            }
            for (_, name) in includes(&l.info) {
                todo.extend(self.resolve(disk, &k, &name));
            }
        }
        for (k, l) in &mut self.loaded {
            l.certain &= firm.contains(k);
        }
    }

    /// Faults at unknown times start: nothing is known about files that involve the disk until
    /// they are sent again.
    pub fn start_transient(&mut self) {
        self.transient = true;
        self.ever_transient = true;
        for l in self.loaded.values_mut() {
            if !includes(&l.info).is_empty() {
                l.tainted = true;
            }
        }
    }
    /// What is reported for these files remains until they are sent again.
    pub fn stick(&mut self, st: &State) {
        for k in &st.unsure {
            if let Some(l) = self.loaded.get_mut(k) {
                l.tainted = true;
            }
        }
    }
    pub fn end_transient(&mut self) {
        self.transient = false;
    }
    pub fn is_tainted(&self) -> bool {
        self.transient || self.loaded.values().any(|l| l.tainted)
    }

    pub fn evaluate(&self, disk: &Disk) -> State {
        if self.loaded.len() < 500 {
            return Eval::run(self, disk);
        }
        // The evaluation is recursive, but must not depend on the stack of the simulated process.
        // (Nothing is shared between threads: this one waits.)
        struct Alone<T>(T);
        unsafe impl<T> Send for Alone<T> {}
        impl<T> Alone<T> {
            fn get(self) -> T {
                self.0
            }
        }
        let args = Alone((self, disk));
        std::thread::scope(|s| {
            let work = move || {
                let (m, disk) = args.get();
                Alone(Eval::run(m, disk))
            };
            let t = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, work);
            t.expect("cannot start a thread").join().expect("the model failed").get()
        })
    }
}

/// How much is known about a text
fn rank(s: Status) -> u8 {
    match s {
        Status::Parsed | Status::Hard => 2,
        Status::Torn => 1,
        Status::Fuzzy => 0,
    }
}

pub fn includes(info: &Info) -> Vec<(Span, String)> {
    info.events
        .iter()
        .filter_map(|e| match e {
            Ev::Include { span, name } => Some((*span, name.clone())),
            _ => None,
        })
        .collect()
}

#[derive(Clone)]
enum EdgeNow {
    Target(String),
    Broken,
    /// the disk changed, or the target is open but not on disk
    Unsure(Vec<String>),
}

struct Eval<'a> {
    m: &'a Model,
    edges: BTreeMap<String, Vec<EdgeNow>>,
    /// files on a cycle, with the number of the cycle
    cyc: BTreeMap<String, usize>,
    done: BTreeMap<String, (Rc<Pred>, Rc<Env>)>,
    busy: BTreeSet<String>,
    /// files that do not reach a cycle, each one after those that it includes
    leaves_first: Vec<String>,
    any: BTreeSet<String>,
}

impl<'a> Eval<'a> {
    fn run(m: &'a Model, disk: &Disk) -> State {
        let mut ev = Eval {
            m,
            edges: BTreeMap::new(),
            cyc: BTreeMap::new(),
            done: BTreeMap::new(),
            busy: BTreeSet::new(),
            leaves_first: vec![],
            any: BTreeSet::new(),
        };
        let tainted = m.is_tainted();
        for (k, l) in &m.loaded {
            let mut es = vec![];
            for ((_, name), out) in includes(&l.info).iter().zip(&l.outs) {
                let now = m.resolve(disk, k, name);
                let has = |t: &String| m.loaded.contains_key(t);
                // if it is not known to be loaded already, that must still be possible
                let present = |t: &String| {
                    let l = &m.loaded[t];
                    l.open || l.certain || disk.read(t).is_some()
                };
                let e = match (out, &now) {
                    (Out::Target(a), Some(b)) if a == b && has(a) && !l.tainted && present(a) => EdgeNow::Target(a.clone()),
                    (Out::Unresolved, None) if !l.tainted => {
                        // documents that are open but do not exist on disk
                        let cands: Vec<String> = m
                            .candidates(k, name)
                            .iter()
                            .map(|c| m.key_of(disk, &if c.starts_with('/') { c.clone() } else { join(disk.cwd, c) }))
                            .filter(|c| has(c))
                            .collect();
                        if cands.is_empty() {
                            EdgeNow::Broken
                        } else {
                            EdgeNow::Unsure(cands)
                        }
                    }
                    (Out::Unreadable(a), Some(b)) if a == b && !has(a) && disk.read(a).is_none() && !l.tainted => {
                        if m.ever_unknown {
                            // it may have been loaded before it became unreadable
                            ev.any.insert(k.clone());
                            EdgeNow::Unsure(vec![])
                        } else {
                            EdgeNow::Broken
                        }
                    }
                    _ => {
                        ev.any.insert(k.clone());
                        let mut v = vec![];
                        if let Out::Target(a) | Out::Unreadable(a) = out {
                            v.push(a.clone());
                        }
                        v.extend(now.clone());
                        v.retain(has);
                        EdgeNow::Unsure(v)
                    }
                };
                es.push(e);
            }
            ev.edges.insert(k.clone(), es);
            if l.tainted || (tainted && !l.open) {
                ev.any.insert(k.clone());
            }
            if !l.open && disk.read(k).map(|t| t != l.info.text).unwrap_or(true) {
                // the cached text is not that on disk
                ev.any.insert(k.clone());
            }
        }
        ev.find_cycles();
        let mut st = State {
            unknown_ok: m.ever_transient || m.ever_fuzzy,
            ..Default::default()
        };
        for (k, es) in &ev.edges {
            if es.iter().any(|e| matches!(e, EdgeNow::Unsure(_))) {
                st.unsure.push(k.clone())
            }
        }
        let sure = ev.reach(true);
        for k in std::mem::take(&mut ev.leaves_first) {
            ev.eval(&k);
        }
        for (k, l) in &m.loaded {
            let (pred, env) = ev.eval(k);
            let mut incs = vec![];
            for ((_, name), e) in includes(&l.info).iter().zip(&ev.edges[k]) {
                incs.push(match e {
                    EdgeNow::Target(t) => (vec![t.clone()], false),
                    EdgeNow::Broken => (m.resolve(disk, k, name).into_iter().collect(), true),
                    EdgeNow::Unsure(ts) => {
                        let mut ts = ts.clone();
                        ts.extend(m.resolve(disk, k, name));
                        if m.transient {
                            // a file that comes first may just have vanished
                            let all = m.candidates(k, name);
                            ts.extend(all.iter().map(|c| {
                                m.key_of(disk, &if c.starts_with('/') { c.clone() } else { join(disk.cwd, c) })
                            }));
                        }
                        (ts, true)
                    }
                });
            }
            st.files.insert(
                k.clone(),
                FileState {
                    info: l.info.clone(),
                    pred,
                    env,
                    open: l.open,
                    sure: sure.contains(k),
                    incs: Rc::new(incs),
                },
            );
        }
        // groups of files that certainly form a cycle
        let groups: BTreeSet<usize> = ev.cyc.values().copied().collect();
        for g in groups {
            let files: Vec<String> = ev.cyc.iter().filter(|(_, x)| **x == g).map(|(k, _)| k.clone()).collect();
            let certain = files.iter().all(|f| {
                sure.contains(f)
                    && !ev.any.contains(f)
                    && m.loaded[f].info.status == Status::Parsed
                    && ev.edges[f].iter().all(|e| !matches!(e, EdgeNow::Unsure(_)))
            });
            if certain {
                st.cycles.push(files);
            }
        }
        st
    }

    fn reach(&self, certain: bool) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<String> = self.m.loaded.iter().filter(|(_, l)| l.open).map(|(k, _)| k.clone()).collect();
        while let Some(k) = todo.pop() {
            if !seen.insert(k.clone()) {
                continue;
            }
            let parsed = self.m.loaded[&k].info.status == Status::Parsed && !self.any.contains(&k);
            for e in &self.edges[&k] {
                match e {
                    EdgeNow::Target(t) if parsed || !certain => todo.push(t.clone()),
                    EdgeNow::Unsure(ts) if !certain => todo.extend(ts.iter().cloned()),
                    _ => {}
                }
            }
        }
        seen
    }

    fn targets(&self, k: &str) -> Vec<String> {
        if self.m.loaded[k].info.status == Status::Fuzzy {
            // it is not known what this file includes
            return self.edges.keys().cloned().collect();
        }
        self.edges[k]
            .iter()
            .flat_map(|e| match e {
                EdgeNow::Target(t) => vec![t.clone()],
                EdgeNow::Unsure(ts) => ts.clone(),
                EdgeNow::Broken => vec![],
            })
            .collect()
    }

    fn find_cycles(&mut self) {
        // What is left once all files are removed that only include removed ones (or none)
        let mut left: BTreeMap<String, usize> = BTreeMap::new();
        let mut from: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for k in self.edges.keys() {
            let ts = self.targets(k);
            left.insert(k.clone(), ts.len());
            for t in ts {
                from.entry(t).or_default().push(k.clone());
            }
        }
        let mut gone: Vec<String> = left.iter().filter(|(_, n)| **n == 0).map(|(k, _)| k.clone()).collect();
        let mut i = 0;
        while i < gone.len() {
            for k in from.get(&gone[i]).cloned().unwrap_or_default() {
                let n = left.get_mut(&k).unwrap();
                *n -= 1;
                if *n == 0 {
                    gone.push(k);
                }
            }
            left.remove(&gone[i]);
            i += 1;
        }
        self.leaves_first = gone;
        let keys: Vec<String> = left.into_keys().collect();
        let mut reach: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for k in &keys {
            let mut seen = BTreeSet::new();
            let mut todo = self.targets(k);
            while let Some(t) = todo.pop() {
                if seen.insert(t.clone()) {
                    todo.extend(self.targets(&t));
                }
            }
            reach.insert(k.clone(), seen);
        }
        let mut n = 0;
        for k in &keys {
            if self.cyc.contains_key(k) || !reach[k].contains(k) {
                continue;
            }
            for o in &keys {
                if reach[k].contains(o) && reach[o].contains(k) {
                    self.cyc.insert(o.clone(), n);
                }
            }
            n += 1;
        }
    }

    fn eval(&mut self, k: &str) -> (Rc<Pred>, Rc<Env>) {
        if let Some(r) = self.done.get(k) {
            return r.clone();
        }
        if !self.busy.insert(k.to_string()) {
            let env = Env { wild: true, ..Default::default() };
            return (Rc::new(Pred::Any), Rc::new(env));
        }
        let r = self.eval_new(k);
        let r = (Rc::new(r.0), Rc::new(r.1));
        self.busy.remove(k);
        self.done.insert(k.to_string(), r.clone());
        r
    }

    fn eval_new(&mut self, k: &str) -> (Pred, Env) {
        let l = &self.m.loaded[k];
        let info = l.info.clone();
        let ft = file_type(k);
        let mut env = Env::default();
        match info.status {
            Status::Hard => return (if self.any.contains(k) { Pred::Any } else { Pred::Hard }, env),
            Status::Fuzzy => {
                env.wild = true;
                return (Pred::Any, env);
            }
            Status::Torn => {
                env.wild = true;
                return (if self.any.contains(k) { Pred::Any } else { Pred::Torn }, env);
            }
            Status::Parsed => {}
        }
        let mut exps: Vec<Exp> = vec![];
        let mut add = |code: &'static str, place: Place, must: bool, max: usize| {
            if let Some(e) = exps.iter_mut().find(|e| e.code == code && e.place == place) {
                e.must |= must;
                e.max += max;
            } else {
                exps.push(Exp { code, place, must, max });
            }
        };
        for d in &info.diags {
            match d {
                PDiag::Exact(c, s) => add(c, Place::At(*s), true, 1),
                PDiag::Within(c, s) => add(c, Place::In(*s), true, 1),
            }
        }
        let later_plugin = info.events.iter().any(|e| matches!(e, Ev::Plugin));
        let mut plugin = ft == Ft::Dtso;
        let mut header = false;
        let mut non_include = false;
        let mut deletion = false;
        let mut values = vec![];
        let mut n_inc = 0;
        for e in &info.events {
            match e {
                Ev::Header(s) => {
                    if header {
                        add("duplicate_directive", Place::At(*s), true, 1);
                    } else if non_include {
                        add("misplaced_dts_header", Place::At(*s), true, 1);
                    } else if deletion {
                        add("misplaced_dts_header", Place::At(*s), false, 1);
                    }
                    header = true;
                }
                Ev::Plugin => plugin = true,
                Ev::NonInclude => non_include = true,
                Ev::Include { span, .. } => {
                    let edge = self.edges[k][n_inc].clone();
                    n_inc += 1;
                    let at = Place::At(*span);
                    match edge {
                        EdgeNow::Broken => add("io_error", at, true, 2),
                        EdgeNow::Unsure(ts) => {
                            add("io_error", at.clone(), false, 2);
                            add("errors_in_include", at.clone(), false, 1);
                            if ts.iter().any(|t| self.cyc.contains_key(t)) {
                                add("cyclic_dependency_error", at, false, 1);
                            }
                            env.wild = true;
                        }
                        EdgeNow::Target(t) => {
                            if self.cyc.contains_key(&t) {
                                add("cyclic_dependency_error", at.clone(), false, 1);
                                add("errors_in_include", at, false, 1);
                                env.wild = true;
                                // still evaluate it
                                let _ = self.eval(&t);
                            } else {
                                let (p, te) = self.eval(&t);
                                let (c, m) = p.errors();
                                if m {
                                    add("errors_in_include", at, c, 1);
                                }
                                env.merge(&te, true);
                            }
                        }
                    }
                }
                Ev::NowRef { r, span, extends } => {
                    if !extends {
                        deletion = true;
                    }
                    if ft == Ft::Dts && !plugin {
                        match env.know(r, true) {
                            Know::Yes => {}
                            Know::Maybe => add("unresolved_reference", Place::At(*span), false, 1),
                            Know::No => add("unresolved_reference", Place::At(*span), !later_plugin, 1),
                        }
                    }
                    if !extends {
                        match r {
                            Ref::Label(l) => {
                                env.deleted.insert(l.clone());
                                if let Some(d) = env.labels.get(l) {
                                    if let Some(n) = d.path.as_ref().and_then(|p| p.last()) {
                                        env.deleted.insert(n.clone());
                                    }
                                }
                            }
                            Ref::Path(p) => {
                                if let Some(n) = p.last() {
                                    env.deleted.insert(n.clone());
                                }
                            }
                        }
                    }
                }
                Ev::Node { base, path, label, name, span } => {
                    let full = match base {
                        Base::Root => Some(path.clone()),
                        Base::Ref(r @ Ref::Path(p)) if env.know(r, true) == Know::Yes => {
                            let mut f = p.clone();
                            f.extend(path.iter().cloned());
                            Some(f)
                        }
                        Base::Ref(r @ Ref::Label(l)) if env.know(r, true) == Know::Yes => {
                            let d = &env.labels[l];
                            match &d.path {
                                Some(p) if !d.ambiguous => {
                                    let mut f = p.clone();
                                    f.extend(path.iter().cloned());
                                    Some(f)
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    };
                    let target = (k.to_string(), *span, name.clone());
                    if let Some(l) = label {
                        let d = env.labels.entry(l.clone()).or_insert_with(|| Def { path: full.clone(), ..Def::default() });
                        if d.path != full {
                            d.ambiguous = true;
                        }
                        d.certain = true;
                        d.targets.insert(target.clone());
                    }
                    match full {
                        Some(f) => {
                            let d = env.paths.entry(f).or_default();
                            d.certain = true;
                            d.targets.insert(target);
                        }
                        None => match base {
                            Base::Ref(r @ Ref::Label(l)) if env.know(r, true) == Know::No => {
                                let p = Pend { base: l.clone(), path: path.clone(), label: label.clone(), target };
                                if !env.pending.contains(&p) {
                                    env.pending.push(p)
                                }
                            }
                            _ => env.maybe_names.extend(path.iter().cloned()),
                        },
                    }
                }
                Ev::PropLabel(l) => {
                    let d = env.labels.entry(l.clone()).or_default();
                    d.certain = true;
                    d.property = true;
                    d.ambiguous = true;
                }
                Ev::DelName(n) => {
                    env.deleted.insert(n.clone());
                }
                Ev::ValueRef { r, span } => values.push((r.clone(), *span)),
                Ev::Warn(c, s) => add(c, Place::At(*s), true, 1),
            }
        }
        if ft == Ft::Dts && !plugin {
            for (r, s) in values {
                match env.know(&r, false) {
                    Know::Yes => {}
                    Know::Maybe => add("unresolved_reference", Place::At(s), false, 1),
                    Know::No => add("unresolved_reference", Place::At(s), true, 1),
                }
            }
        }
        if ft == Ft::Dts && !header {
            add("non_dts_v1", Place::At(Span::default()), !env.header && !env.wild, 1);
        }
        env.header |= header;
        if self.any.contains(k) {
            env.wild = true;
            return (Pred::Any, env);
        }
        (Pred::List(exps), env)
    }
}
