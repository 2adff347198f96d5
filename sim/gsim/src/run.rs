//! Executes the language server under the simulated scheduler, client and disk, and checks what it
//! does against the reference model while it runs.
use crate::doc::*;
use crate::model::*;
use crate::plan::*;
use serde_json::{json, Value};
use simcore::choice::mix;
use simcore::world::{Call, Masked, Pending};
use simcore::vfs::Cond;
use simcore::{Chooser, Rng, World};
use simtokio::{Driver, Step};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub const CWD: &str = "/w/cwd";

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub choices: Vec<u32>,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub sim_us: u64,
    pub digest: u64,
    pub schedule: u64,
    /// final diagnostics of each file of the project
    pub finals: BTreeMap<String, (Vec<String>, bool)>,
    /// answers to queries that were answered in one definite state
    pub answers: BTreeMap<u64, (String, bool, Pos)>,
    /// what is shown in the end, and the include directories, if this can be compared with what
    /// the other program shows
    #[serde(default)]
    pub problems: Option<Problems>,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Problems {
    pub include: Vec<String>,
    pub files: BTreeMap<String, Vec<String>>,
    pub success: bool,
}

/// What both programs show of a problem; positions start at 0.
pub fn problem(sev: &str, line: u32, col: u32, message: &str) -> String {
    let m = message.split('\n').next().unwrap_or("").trim_matches([' ', '|', '\t', '^', '\r']);
    format!("{sev} at {}:{}: {m}", line + 1, col + 1)
}

/// What the messages of the programs say. (Only crashes and the like matter where the two programs
/// are compared with each other: there are texts for which nothing else is known.)
pub const CONTENT: &[&str] =
    &["diagnostics", "final-diagnostics", "regression", "answer", "cycle", "verdict", "capabilities"];

thread_local! {
    pub static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Panics of simulated programs are recorded, not printed.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if World::current().is_some() {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} ({loc})")));
        } else {
            old(info)
        }
    }));
}

enum Act {
    Pre(Junk),
    Init,
    WaitInit,
    Initialized,
    Reopen(String),
    Reask(u64, Query, String, Pos),
    Op(usize),
    Agree,
    CloseDoc(String),
    OpenText(String, String),
    Final,
    Shutdown,
    Post(u8),
    Exit,
    Torn,
    Close,
}

#[derive(Clone, Debug)]
enum Want {
    Init,
    Query { q: Query, path: String, pos: Pos, seq: u64 },
    Error,
    Empty,
    Null,
}

struct Req {
    want: Want,
    state: usize,
    cancelled: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Mood {
    Calm,
    Burst,
    Slow,
    Trickle,
    Chaos,
}

pub fn build_disk(plan: &Plan, w: &mut World, m: &mut Model) {
    // Nobody needs many files at a time, unless they are included by each other
    w.max_fds = if plan.chain == 0 { 16 } else { 1024 };
    for (p, e) in &plan.disk {
        put(w, m, p, e);
    }
    if plan.chain > 0 {
        w.vfs.mkdir("/w/deep");
    }
    for i in 0..plan.chain {
        put(w, m, &format!("/w/deep/c{i}.dtsi"), &Entry::File(chain_file(plan, i)));
    }
}

fn put(w: &mut World, m: &mut Model, p: &str, e: &Entry) {
    match e {
        Entry::Dir => w.vfs.mkdir(p),
        Entry::Link(t) => w.vfs.symlink(p, t),
        Entry::File(d) => {
            let info = d.info();
            m.register(info.text.clone(), info);
            w.vfs.write(p, &d.bytes());
        }
    }
}

pub fn dump_disk(plan: &Plan, log: &mut Vec<String>) {
    if plan.chain > 0 {
        let end = if plan.chain_loop { "the last one includes the first one" } else { "the last one defines 'deepest'" };
        log.push(format!("disk: files /w/deep/c<i>.dtsi for i < {}: each one includes the next one{}, {end}", plan.chain, match plan.chain_skip {
            0 => String::new(),
            n => format!(" and the one {} further", n + 1),
        }));
    }
    for (p, e) in &plan.disk {
        log.push(match e {
            Entry::Dir => format!("disk: directory {p}"),
            Entry::Link(t) => format!("disk: link {p} -> {t}"),
            Entry::File(d) => format!("disk: file {p}: {:?}", String::from_utf8_lossy(&d.bytes())),
        });
    }
}

pub fn call_of(c: CallS) -> Option<Call> {
    match c {
        CallS::Any => None,
        CallS::Realpath => Some(Call::Realpath),
        CallS::Open => Some(Call::Open),
        CallS::Read => Some(Call::Read),
    }
}

pub fn disk_op(w: &mut World, m: &mut Model, op: &DiskOp) {
    match op {
        DiskOp::Put(p, e) => put(w, m, p, e),
        DiskOp::Remove(p) => w.vfs.remove(p),
        DiskOp::Break(p, b) => {
            let c = match b {
                Bad::Denied => Cond::Deny(libc::EACCES),
                Bad::ReadError(o) => Cond::ReadErr(*o, libc::EIO),
            };
            w.vfs.set_cond(p, Some(c))
        }
        DiskOp::Repair(p) => w.vfs.set_cond(p, None),
        DiskOp::FdLimit(b) => w.open_fails = if *b { Some(libc::EMFILE) } else { None },
    }
}

pub struct Session<'p> {
    plan: &'p Plan,
    world: *mut World,
    model: Model,
    docs: BTreeMap<String, String>,
    cfg: Option<Vec<String>>,
    version: i64,
    /// versions of the documents, if the client counts them separately
    versions: BTreeMap<String, i64>,
    todo: VecDeque<Act>,
    states: Vec<Rc<State>>,
    outbox: VecDeque<u8>,
    inbox: Vec<u8>,
    pend: BTreeMap<i64, Req>,
    lo: BTreeMap<String, usize>,
    shown: BTreeMap<String, Vec<Diag>>,
    next_id: i64,
    init_done: bool,
    close_pending: bool,
    want_shows: usize,
    shows: usize,
    null_ok: usize,
    mood: Mood,
    mood_left: u32,
    kill_in: Option<u32>,
    idle_polls: u32,
    close_polls: u32,
    io_mark: (usize, usize),
    steps: u64,
    incarnation: u64,
    messages: u64,
    query_seq: u64,
    /// Questions that have been asked
    asked: Vec<(Query, String, Pos)>,
    /// Questions that have been asked since the last change, by their numbers
    trail: Vec<(u64, Query, String, Pos)>,
    /// Kill the process when everything is done, and do not start a third one
    final_kill: bool,
    snap: Option<simcore::vfs::Vfs>,
    violation: Option<Violation>,
    log: Option<Vec<String>>,
    answers: BTreeMap<u64, (String, bool, Pos)>,
    finals: BTreeMap<String, (Vec<String>, bool)>,
    problems: Option<Problems>,
    /// everything sent was answered and checked before the input ended
    settled: bool,
    /// garbage was sent: the server may give up
    torn: bool,
}

pub fn text_uri(path: &str, variant: u64) -> String {
    let mut s = String::from(if variant % 10 == 7 { "file://localhost" } else { "file://" });
    for b in path.bytes() {
        let plain = b.is_ascii_alphanumeric() || matches!(b, b'/' | b'.' | b'-' | b'_' | b'~');
        if plain && !(variant % 10 == 8 && b == b'.') && !(variant % 10 == 9 && (b == b'o' || b == b'-')) {
            s.push(b as char)
        } else if variant % 2 == 0 {
            s.push_str(&format!("%{b:02X}"))
        } else {
            s.push_str(&format!("%{b:02x}"))
        }
    }
    s
}

fn uri_path(uri: &str) -> Option<String> {
    let rest = uri.strip_prefix("file://")?;
    let b = rest.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
            out.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    let s = String::from_utf8(out).ok()?;
    s.starts_with('/').then_some(s)
}

/// A client only uses what the server announces: full text synchronisation and the three queries.
fn check_capabilities(c: &Value) -> Result<(), String> {
    for q in ["hoverProvider", "definitionProvider", "documentSymbolProvider"] {
        if !(c[q] == Value::Bool(true) || c[q].is_object()) {
            return Err(format!("{q} is not announced"));
        }
    }
    let sync = &c["textDocumentSync"];
    let full = sync.as_u64() == Some(1) || (sync["openClose"] == Value::Bool(true) && sync["change"].as_u64() == Some(1));
    if !full {
        return Err(format!("the announced synchronisation is not that of full texts: {sync}"));
    }
    match c.get("positionEncoding") {
        None | Some(Value::Null) => Ok(()),
        Some(e) if e == "utf-16" => Ok(()),
        Some(e) => Err(format!("positions are announced as {e}, which the client does not support")),
    }
}

/// Settings of which none can be used by the server
fn bad_config(kind: u8) -> Value {
    let other = ["/w/inc1", "/w/inc2", "/w/main/sub"];
    match kind % 10 {
        0 => Value::Null,
        1 => json!({"includes": "/w/inc1"}),
        2 => json!({"includes": [1, 2]}),
        3 => json!({"includes": null}),
        4 => json!([1]),
        5 => json!(17),
        6 => json!({"includes": [other[0], null]}),
        7 => json!("includes"),
        8 => json!({"includes": {"0": other[1]}}),
        _ => json!({"includes": [[other[2]]]}),
    }
}

fn escape_non_ascii(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii() {
            o.push(c)
        } else {
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04x}"))
            }
        }
    }
    o
}

pub fn diag_key(d: &Diag) -> String {
    format!(
        "{}:{}-{}:{} {} {} {}",
        d.span.s.line, d.span.s.col, d.span.e.line, d.span.e.col, d.code, d.sev, d.message
    )
}

fn clip(s: &str) -> String {
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        format!("{}...", &s[..n])
    } else {
        s.to_string()
    }
}

impl<'p> Session<'p> {
    fn w(&self) -> &'static mut World {
        // one thread at a time uses the world
        unsafe { &mut *self.world }
    }
    fn disk(&self) -> Disk<'static> {
        let w = self.w();
        Disk { vfs: &w.vfs, cwd: CWD, open_fails: w.open_fails.is_some() }
    }
    fn fail(&mut self, kind: &str, detail: String) {
        if self.plan.agree.is_some() && CONTENT.contains(&kind) {
            return self.note(|| format!("(not judged here) {kind}: {}", clip(&detail)));
        }
        if self.violation.is_none() {
            if let Some(l) = &mut self.log {
                l.push(format!("VIOLATION {kind}: {}", clip(&detail)));
            }
            self.violation = Some(Violation { kind: kind.into(), detail: clip(&detail) });
        }
    }
    fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(s())
        }
    }
    fn push_state(&mut self) {
        self.trail.clear();
        let s = self.model.evaluate(&self.disk());
        self.model.stick(&s);
        self.states.push(Rc::new(s));
    }
    /// The disk changed: the server does not notice.
    fn push_disk_state(&mut self) {
        let s = self.model.evaluate(&self.disk());
        self.states.push(Rc::new(s));
    }
    fn cur(&self) -> Rc<State> {
        self.states.last().unwrap().clone()
    }
    fn uri(&self, path: &str) -> String {
        let r = mix(self.plan.entropy ^ self.messages.wrapping_mul(77));
        text_uri(path, if r % 3 == 0 { r >> 8 } else { 0 })
    }

    // ---------------------------------------------------------------- sending

    fn send_raw(&mut self, body: String) {
        self.messages += 1;
        let r = mix(self.plan.entropy ^ self.messages.wrapping_mul(0x1234_5677));
        let body = if r % 4 == 0 { escape_non_ascii(&body) } else { body };
        let mut h = format!("Content-Length: {}\r\n", body.len());
        match (r >> 8) % 8 {
            0 => h.push_str("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"),
            1 => h.insert_str(0, "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"),
            _ => {}
        }
        let now = self.states.len() - 1;
        self.note(|| format!("client -> server [state {now}]: {body}"));
        self.w().note(b'>', body.as_bytes());
        self.outbox.extend(h.as_bytes());
        self.outbox.extend(b"\r\n");
        self.outbox.extend(body.as_bytes());
    }
    fn notify(&mut self, method: &str, params: Value) {
        self.send_raw(json!({"jsonrpc": "2.0", "method": method, "params": params}).to_string())
    }
    fn request(&mut self, method: &str, params: Option<Value>, want: Want) {
        self.next_id += 1;
        let id = self.next_id;
        self.pend.insert(id, Req { want, state: self.states.len() - 1, cancelled: false });
        let mut v = json!({"jsonrpc": "2.0", "id": self.wire_id(id), "method": method});
        if let Some(p) = params {
            v["params"] = p;
        }
        self.send_raw(v.to_string())
    }

    /// Habits of the client that must not make a difference
    fn habit(&self, what: u64, n: u64) -> u64 {
        mix(self.plan.entropy ^ mix(what)) % n
    }
    /// Requests are numbered or named.
    fn wire_id(&self, id: i64) -> Value {
        match self.habit(1, 8) {
            0 => json!(format!("{id}")),
            1 => json!(format!("query-{id}")),
            2 => json!(-id),
            3 => json!(id + 0x7fff_fff0),
            4 => json!(id - 1),
            _ => json!(id),
        }
    }
    fn id_of(&self, wire: &Value) -> Option<i64> {
        self.pend.keys().find(|id| self.wire_id(**id) == *wire).copied()
    }
    /// Versions increase while a document is open, nothing else is known about them.
    fn next_version(&mut self, path: &str, open: bool) -> i64 {
        let (h, step) = (self.habit(2, 4), 1 + self.habit(3, 3) as i64);
        if h == 0 {
            self.version += 1;
            return self.version;
        }
        let start = [1, 0, 1, 77][self.habit(4, 4) as usize];
        let v = match self.versions.get(path) {
            Some(v) if !open => v + step,
            _ => start,
        };
        self.versions.insert(path.to_string(), v);
        v
    }
    fn settings(&self, includes: &[String]) -> Value {
        match self.habit(5, 6) {
            0 => json!({"maxNumberOfProblems": 100, "includes": includes, "trace": {"server": "off"}}),
            _ => json!({"includes": includes}),
        }
    }
    fn initialize_params(&self) -> Value {
        let full = json!({
            "workspace": {"applyEdit": true, "configuration": true, "workspaceFolders": true,
                "didChangeConfiguration": {"dynamicRegistration": true}, "symbol": {"dynamicRegistration": true}},
            "textDocument": {
                "hover": {"dynamicRegistration": true, "contentFormat": ["markdown", "plaintext"]},
                "synchronization": {"didSave": true, "willSave": true},
                "definition": {"dynamicRegistration": true},
                "documentSymbol": {"hierarchicalDocumentSymbolSupport": true},
                "publishDiagnostics": {"relatedInformation": true, "versionSupport": true, "tagSupport": {"valueSet": [1, 2]}}},
            "window": {"workDoneProgress": true, "showMessage": {"messageActionItem": {"additionalPropertiesSupport": true}}},
            "general": {"positionEncodings": ["utf-16"]},
        });
        match self.habit(6, 5) {
            0 => json!({"capabilities": {}}),
            // Where the workspace is has no influence
            1 | 4 => {
                let root = ["/w/main", "/w/inc1", "/w/inc2", "/w/inc1", "/w"][self.habit(9, 5) as usize];
                let uri = format!("file://{root}");
                json!({"processId": 4711, "rootUri": uri, "rootPath": root, "capabilities": full,
                    "clientInfo": {"name": "editor", "version": "1.2"}, "locale": "de", "trace": "verbose",
                    "workspaceFolders": [{"uri": uri, "name": "main"}]})
            }
            2 => json!({"processId": 1, "rootUri": "file:///nowhere", "capabilities": full, "workspaceFolders": null}),
            _ => json!({"processId": null, "rootUri": null, "capabilities": {"textDocument": {"hover": {}}}}),
        }
    }

    fn register(&mut self, d: &Doc) -> String {
        let info = d.info();
        let t = info.text.clone();
        self.model.register(t.clone(), info);
        t
    }

    fn open_doc(&mut self, path: &str, text: &str) {
        let disk = self.disk();
        self.model.set_text(&disk, path, text);
        self.push_state();
        let v = self.next_version(path, true);
        self.docs.insert(path.to_string(), text.to_string());
        let u = self.uri(path);
        // Nothing depends on the language: it is the name that matters
        let language = ["dts", "dts", "devicetree", "dtsi", "plaintext", "c", "", "dtso"][self.habit(7, 8) as usize];
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": u, "languageId": language, "version": v, "text": text}}),
        );
    }
    fn change_doc(&mut self, path: &str, texts: &[String]) {
        let disk = self.disk();
        if let Some(t) = texts.last() {
            self.model.set_text(&disk, path, t);
            self.docs.insert(path.to_string(), t.clone());
        }
        self.push_state();
        let v = self.next_version(path, false);
        let u = self.uri(path);
        let c: Vec<Value> = texts.iter().map(|t| json!({"text": t})).collect();
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": u, "version": v}, "contentChanges": c}));
    }

    /// Some position in the newest text of a document.
    fn position(&self, q: Query, path: &str, pick: u32, off: u32) -> Pos {
        let text = match self.docs.get(path) {
            Some(t) => Some(t.clone()),
            None => self.disk().read(path),
        };
        let info = text.and_then(|t| self.model.registry.get(&t).cloned());
        let Some(info) = info else { return Pos { line: pick % 5, col: off % 20 } };
        // Labels do not have a definition
        let mut spans: Vec<Span> = info
            .constructs
            .iter()
            .filter(|c| q != Query::Definition || !matches!(c.1, Construct::Label(_)))
            .map(|c| c.0)
            .collect();
        if spans.is_empty() || pick % 8 == 0 {
            spans = info.constructs.iter().map(|c| c.0).collect();
        }
        if q != Query::Symbols && pick % 2 == 0 {
            // References with a target
            let key = self.model.key_of(&self.disk(), path);
            if let Some(f) = self.states.last().and_then(|s| s.files.get(&key)) {
                let resolved: Vec<Span> = info
                    .constructs
                    .iter()
                    .filter(|c| matches!(&c.1, Construct::Ref(r) if f.env.know(r, false) == Know::Yes))
                    .map(|c| c.0)
                    .collect();
                if !resolved.is_empty() {
                    spans = resolved
                }
            }
        }
        let n = spans.len() as u32;
        if pick % 97 == 96 {
            // (the largest number that the protocol allows)
            let max = i32::MAX as u32;
            return Pos { line: if off % 3 == 0 { 0 } else { max }, col: if off % 3 == 1 { off % 20 } else { max } };
        }
        if n > 0 && pick < 880 {
            let s = spans[(pick % n) as usize];
            let len = if s.s.line == s.e.line { s.e.col - s.s.col } else { 4 };
            return match off % 11 {
                0 => s.s,
                1 => s.e,
                2 if s.e.col > 0 => Pos { line: s.e.line, col: s.e.col - 1 },
                3 if s.s.col > 0 => Pos { line: s.s.line, col: s.s.col - 1 },
                4 => Pos { line: s.e.line, col: s.e.col + 1 },
                _ => Pos { line: s.s.line, col: s.s.col + off % len.max(1) },
            };
        }
        let line = pick % (info.line_len.len() as u32 + 1);
        let len = info.line_len.get(line as usize).copied().unwrap_or(0);
        Pos { line, col: off % (len + 3) }
    }

    fn query(&mut self, q: Query, path: &str, pos: Pos, want: Want) {
        let u = self.uri(path);
        let td = json!({"uri": u});
        let p = json!({"line": pos.line, "character": pos.col});
        match q {
            Query::Hover => self.request("textDocument/hover", Some(json!({"textDocument": td, "position": p})), want),
            Query::Definition => {
                self.request("textDocument/definition", Some(json!({"textDocument": td, "position": p})), want)
            }
            Query::Symbols => self.request("textDocument/documentSymbol", Some(json!({"textDocument": td})), want),
        }
    }

    fn ask(&mut self, q: Query, path: String, pos: Pos) {
        let seq = self.query_seq;
        self.query_seq += 1;
        if !self.asked.iter().any(|(a, b, c)| *a == q && *b == path && *c == pos) {
            self.asked.push((q, path.clone(), pos));
        }
        self.trail.push((seq, q, path.clone(), pos));
        self.query(q, &path, pos, Want::Query { q, path: path.clone(), pos, seq })
    }

    /// Messages that must not have an effect. `live`: after initialization, before shutdown.
    fn junk(&mut self, j: &Junk, live: bool) {
        let answer = |w: Want| if live { w } else { Want::Error };
        match j {
            Junk::BadUri { kind, uri } => {
                let td = json!({"uri": uri});
                let p = json!({"line": kind / 7, "character": kind / 7 * 3});
                if live && kind % 7 < 3 {
                    self.want_shows += 1;
                }
                match kind % 7 {
                    0 => self.notify(
                        "textDocument/didOpen",
                        json!({"textDocument": {"uri": uri, "languageId": "dts", "version": 1, "text": "/dts-v1/; junk"}}),
                    ),
                    1 => self.notify(
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": uri, "version": 2}, "contentChanges": [{"text": "/ {"}]}),
                    ),
                    2 => self.notify("textDocument/didClose", json!({"textDocument": td})),
                    3 => self.request(
                        "textDocument/hover",
                        Some(json!({"textDocument": td, "position": p})),
                        answer(Want::Empty),
                    ),
                    4 => self.request(
                        "textDocument/definition",
                        Some(json!({"textDocument": td, "position": p})),
                        answer(Want::Empty),
                    ),
                    5 => self.request("textDocument/documentSymbol", Some(json!({"textDocument": td})), answer(Want::Empty)),
                    _ => self.notify("textDocument/didSave", json!({"textDocument": td})),
                }
            }
            Junk::BadParams { kind } => match kind % 8 {
                0 => self.request("textDocument/hover", Some(json!({})), Want::Error),
                1 => self.request("textDocument/definition", Some(json!({"textDocument": 5})), Want::Error),
                2 => self.request("textDocument/documentSymbol", None, Want::Error),
                3 => self.notify("textDocument/didChange", json!({"textDocument": {}})),
                4 => self.notify("textDocument/didOpen", json!({"textDocument": {"uri": 7}})),
                5 => self.notify("textDocument/didClose", json!([])),
                6 => self.request(
                    "textDocument/hover",
                    Some(json!({"textDocument": {"uri": "not a uri"}, "position": {"line": -1, "character": 0}})),
                    Want::Error,
                ),
                _ => self.notify(
                    "textDocument/didOpen",
                    json!({"textDocument": {"uri": "::", "languageId": "dts", "version": 1, "text": "x"}}),
                ),
            },
            Junk::BadConfig { kind } => {
                self.notify("workspace/didChangeConfiguration", json!({"settings": bad_config(*kind)}))
            }
            Junk::UnknownRequest => self.request("textDocument/doesNotExist", Some(json!({"a": [1]})), Want::Error),
            Junk::UnknownNotification(k) => {
                let m = ["$/somethingNew", "textDocument/doesNotExist", "workspace/didChangeWatchedFiles"][*k as usize % 3];
                let p = if *k % 3 == 2 { json!({"changes": []}) } else { json!({"x": 1}) };
                self.notify(m, p)
            }
            Junk::EmptyChange { path } => {
                let u = self.uri(path);
                let v = self.next_version(path, false);
                self.notify(
                    "textDocument/didChange",
                    json!({"textDocument": {"uri": u, "version": v}, "contentChanges": []}),
                )
            }
            Junk::CloseUnopened { path } => {
                if live {
                    if self.docs.contains_key(path) {
                        return;
                    }
                    let disk = self.disk();
                    self.model.close(&disk, path);
                    self.push_state();
                }
                let u = self.uri(path);
                self.notify("textDocument/didClose", json!({"textDocument": {"uri": u}}))
            }
            Junk::CancelUnknown => self.notify("$/cancelRequest", json!({"id": 987654})),
            Junk::SecondInitialize => {
                if live {
                    self.request("initialize", Some(json!({
                        "capabilities": {}, "processId": null, "rootUri": null,
                        "initializationOptions": {"includes": ["/w/inc2", "/w/main"]},
                    })), Want::Error)
                }
            }
            Junk::StrayResponse => {
                self.send_raw(json!({"jsonrpc": "2.0", "id": 4242, "result": null}).to_string())
            }
        }
    }

    // ------------------------------------------------------------- the script

    /// Whether the next step of the client has to wait until everything has come to rest.
    fn needs_rest(&self) -> bool {
        match self.todo.front() {
            Some(Act::Op(i)) => matches!(self.plan.ops[*i], Op::Barrier | Op::Disk(_) | Op::Heal | Op::Transient { .. }),
            Some(Act::Final) | Some(Act::Torn) | Some(Act::Shutdown) | Some(Act::Post(_)) | Some(Act::Exit) => true,
            _ => false,
        }
    }
    fn op_enabled(&self, at_rest: bool) -> bool {
        match self.todo.front() {
            None => false,
            Some(Act::WaitInit) => self.init_done,
            _ if self.needs_rest() => at_rest,
            _ => true,
        }
    }

    fn act(&mut self) {
        let Some(a) = self.todo.pop_front() else { return };
        match a {
            Act::Pre(j) => self.junk(&j, false),
            Act::Init => {
                let disk = self.disk();
                let c = self.cfg.clone();
                self.model.configure(&disk, c.clone().unwrap_or_default());
                self.push_state();
                let mut p = self.initialize_params();
                if let Some(c) = c {
                    p["initializationOptions"] = self.settings(&c);
                } else if let Some(k) = self.plan.bad_init {
                    p["initializationOptions"] = bad_config(k);
                }
                self.request("initialize", Some(p), Want::Init)
            }
            Act::WaitInit => {}
            Act::Initialized => self.notify("initialized", json!({})),
            Act::Reopen(p) => {
                let t = self.docs[&p].clone();
                self.open_doc(&p, &t)
            }
            Act::Reask(seq, q, path, pos) => {
                self.query(q, &path, pos, Want::Query { q, path: path.clone(), pos, seq })
            }
            Act::Agree => {
                let Some(a) = self.plan.agree.clone() else { return };
                let Some(t) = self.disk().read(&a.file) else { return };
                let mut r = Rng::new(a.seed);
                let mut docs: Vec<String> = self.docs.keys().cloned().collect();
                let mut acts = vec![];
                if a.reopen {
                    while !docs.is_empty() {
                        let k = r.below(docs.len());
                        acts.push(Act::CloseDoc(docs.remove(k)));
                    }
                    acts.push(Act::OpenText(a.file.clone(), t));
                } else {
                    acts.push(Act::OpenText(a.file.clone(), t));
                    docs.retain(|d| *d != a.file);
                    if docs.is_empty() {
                        // closing another one drops what is not included any more
                        let other = "/w/main/other.dts".to_string();
                        acts.push(Act::OpenText(other.clone(), "/dts-v1/;\n".into()));
                        docs.push(other);
                    }
                    while !docs.is_empty() {
                        let k = r.below(docs.len());
                        acts.push(Act::CloseDoc(docs.remove(k)));
                    }
                }
                for a in acts.into_iter().rev() {
                    self.todo.push_front(a)
                }
            }
            Act::CloseDoc(path) => self.op(Op::Close { path }),
            Act::OpenText(p, t) if self.docs.contains_key(&p) => self.change_doc(&p, &[t]),
            Act::OpenText(p, t) => self.open_doc(&p, &t),
            Act::Final if self.final_kill => {
                // what is left must be what a new process would make of the open documents
                self.check_rest(false);
                self.final_kill = false;
                self.kill_in = Some(0);
                self.todo.push_front(Act::Final);
                for (seq, q, path, pos) in std::mem::take(&mut self.trail).into_iter().rev() {
                    self.todo.push_front(Act::Reask(seq, q, path, pos));
                }
            }
            Act::Final => {
                self.check_rest(true);
                self.settled = true;
            }
            Act::Shutdown => self.request("shutdown", None, Want::Null),
            Act::Post(k) => {
                let p = self.plan.files[0].clone();
                match k % 3 {
                    0 => self.query(Query::Hover, &p, Pos::default(), Want::Error),
                    1 => self.query(Query::Symbols, &p, Pos::default(), Want::Error),
                    _ => self.junk(&Junk::UnknownRequest, false),
                }
            }
            Act::Exit => self.notify("exit", Value::Null),
            Act::Torn => {
                self.null_ok += 1;
                self.torn = true;
                let s = [
                    "Content-Len",
                    "Content-Length: 40\r\n\r\n{\"jsonrpc\":",
                    "Content-Length: 5\r\n",
                    "Content-Length: 14\r\n\r\n{\"hello\": 1}  ",
                    "Content-Length: 10\r\n\r\n{ not json",
                    "Content-Length: 4\r\n\r\n[17]",
                ];
                let k = self.plan.entropy as usize % s.len();
                self.outbox.extend(s[k].as_bytes());
            }
            Act::Close => self.close_pending = true,
            Act::Op(i) => {
                let op = self.plan.ops[i].clone();
                self.op(op)
            }
        }
    }

    fn op(&mut self, op: Op) {
        match op {
            Op::Open { path, doc } => {
                let t = self.register(&doc);
                if self.docs.contains_key(&path) {
                    self.change_doc(&path, &[t])
                } else {
                    self.open_doc(&path, &t)
                }
            }
            Op::Change { path, docs } => {
                let ts: Vec<String> = docs.iter().map(|d| self.register(d)).collect();
                if !self.docs.contains_key(&path) {
                    if let Some(t) = ts.last() {
                        self.open_doc(&path, t)
                    }
                } else {
                    self.change_doc(&path, &ts)
                }
            }
            Op::Close { path } => {
                if self.docs.remove(&path).is_some() {
                    let disk = self.disk();
                    self.model.close(&disk, &path);
                    self.push_state();
                    let u = self.uri(&path);
                    self.notify("textDocument/didClose", json!({"textDocument": {"uri": u}}))
                }
            }
            Op::Save { path } => {
                let u = self.uri(&path);
                let mut p = json!({"textDocument": {"uri": u}});
                if let (0, Some(t)) = (self.habit(8, 3), self.docs.get(&path)) {
                    p["text"] = json!(t)
                }
                self.notify("textDocument/didSave", p)
            }
            Op::Ask { q, path, pick, off } => {
                let pos = self.position(q, &path, pick, off);
                self.ask(q, path, pos)
            }
            Op::Again { back } => {
                let n = self.asked.len();
                if n > 0 {
                    let (q, path, pos) = self.asked[n - 1 - (back as usize).min(n - 1)].clone();
                    self.ask(q, path, pos)
                }
            }
            Op::Config { includes } => {
                self.cfg = Some(includes.clone());
                let disk = self.disk();
                self.model.configure(&disk, includes.clone());
                self.push_state();
                let settings = self.settings(&includes);
                self.notify("workspace/didChangeConfiguration", json!({"settings": settings}))
            }
            Op::Disk(d) => {
                self.check_rest(false);
                let w = self.w();
                self.note(|| format!("disk: {}", clip(&format!("{d:?}"))));
                w.note(b'D', format!("{d:?}").as_bytes());
                disk_op(w, &mut self.model, &d);
                self.push_disk_state();
            }
            Op::Transient { after, call, errno, remove } => {
                self.check_rest(false);
                let w = self.w();
                if self.snap.is_none() {
                    self.snap = Some(w.vfs.clone());
                }
                let p = match remove {
                    Some(p) => Pending::Remove(p),
                    None => Pending::Fail(errno),
                };
                self.note(|| format!("fault armed: after {after} calls ({call:?}): {p:?}"));
                w.pending.push((after, call_of(call), p));
                self.model.start_transient();
                self.push_disk_state();
            }
            Op::Heal => {
                self.check_rest(false);
                let w = self.w();
                w.pending.clear();
                if let Some(v) = self.snap.take() {
                    w.vfs = v;
                }
                self.note(|| "faults stop, disk restored".into());
                self.model.end_transient();
                self.push_disk_state();
                for f in self.plan.files.clone() {
                    match self.docs.get(&f).cloned() {
                        Some(t) => self.change_doc(&f, &[t]),
                        None => {
                            let t = self.disk().read(&f).unwrap_or_default();
                            self.open_doc(&f, &t)
                        }
                    }
                }
            }
            Op::Cancel => {
                let id = self.pend.iter().rev().find(|(_, r)| matches!(r.want, Want::Query { .. })).map(|(i, _)| *i);
                if let Some(id) = id {
                    self.pend.get_mut(&id).unwrap().cancelled = true;
                    let id = self.wire_id(id);
                    self.notify("$/cancelRequest", json!({"id": id}))
                }
            }
            Op::Junk(j) => self.junk(&j, true),
            Op::Barrier => self.check_rest(false),
            Op::Kill { after } => self.kill_in = Some(after),
        }
    }

    // ---------------------------------------------------------------- receiving

    fn receive(&mut self, n: usize) {
        let w = self.w();
        let n = n.min(w.stdout.buf.len());
        let data: Vec<u8> = w.stdout.buf.drain(..n).collect();
        w.stdout.wake();
        self.inbox.extend(data);
        loop {
            let Some(h) = self.inbox.windows(4).position(|x| x == b"\r\n\r\n") else {
                if self.inbox.len() > 300 {
                    let s = String::from_utf8_lossy(&self.inbox).into_owned();
                    self.fail("protocol", format!("no message header on the channel: {s:?}"));
                } else {
                    self.check_header_start();
                }
                return;
            };
            let head = String::from_utf8_lossy(&self.inbox[..h]).into_owned();
            let mut len = None;
            for line in head.split("\r\n") {
                match line.split_once(':') {
                    Some((k, v)) if k.eq_ignore_ascii_case("content-length") && len.is_none() => {
                        len = v.trim().parse::<usize>().ok();
                        if len.is_none() {
                            return self.fail("protocol", format!("bad header {line:?}"));
                        }
                    }
                    Some((k, _)) if k.eq_ignore_ascii_case("content-type") => {}
                    _ => return self.fail("protocol", format!("bad header {line:?}")),
                }
            }
            let Some(len) = len else {
                return self.fail("protocol", format!("no length in header {head:?}"));
            };
            if self.inbox.len() < h + 4 + len {
                return;
            }
            let body: Vec<u8> = self.inbox[h + 4..h + 4 + len].to_vec();
            self.inbox.drain(..h + 4 + len);
            let Ok(body) = String::from_utf8(body) else {
                return self.fail("protocol", "message is not valid UTF-8".into());
            };
            self.w().note(b'<', body.as_bytes());
            self.note(|| format!("server -> client: {body}"));
            let mut de = serde_json::Deserializer::from_str(&body);
            de.disable_recursion_limit();
            let v: Value = match serde::Deserialize::deserialize(&mut de).and_then(|v| de.end().map(|_| v)) {
                Ok(v) => v,
                Err(e) => return self.fail("protocol", format!("message is not valid JSON ({e}): {body:?}")),
            };
            self.message(v);
            if self.violation.is_some() {
                return;
            }
        }
    }

    fn check_header_start(&mut self) {
        let k = self.inbox.len().min(8);
        let s = String::from_utf8_lossy(&self.inbox[..k]).to_ascii_lowercase();
        if k > 0 && !"content-".starts_with(s.as_str()) {
            let s = String::from_utf8_lossy(&self.inbox).into_owned();
            self.fail("protocol", format!("bytes outside of a message: {s:?}"));
        }
    }

    fn message(&mut self, v: Value) {
        let Some(o) = v.as_object() else {
            return self.fail("protocol", format!("not a message: {v}"));
        };
        if o.get("jsonrpc") != Some(&json!("2.0")) {
            return self.fail("protocol", format!("not a JSON-RPC 2.0 message: {v}"));
        }
        if let Some(m) = o.get("method") {
            if o.contains_key("id") {
                return self.fail("protocol", format!("unexpected request from the server: {v}"));
            }
            let p = o.get("params").cloned().unwrap_or(Value::Null);
            match m.as_str().unwrap_or("") {
                "textDocument/publishDiagnostics" => self.publish(p),
                "window/showMessage" | "window/logMessage" => {
                    self.shows += 1;
                    if p.get("message").and_then(|m| m.as_str()).is_none_or(|m| m.is_empty())
                        || p.get("type").and_then(|t| t.as_u64()).is_none_or(|t| !(1..=5).contains(&t))
                    {
                        self.fail("protocol", format!("malformed message notification: {v}"));
                    }
                }
                _ => self.fail("protocol", format!("unknown notification: {v}")),
            }
            return;
        }
        let (res, err) = (o.get("result"), o.get("error"));
        if res.is_some() == err.is_some() {
            return self.fail("protocol", format!("a reply must have either a result or an error: {v}"));
        }
        if let Some(e) = err {
            if e.get("code").and_then(|c| c.as_i64()).is_none() || e.get("message").and_then(|m| m.as_str()).is_none() {
                return self.fail("protocol", format!("malformed error: {v}"));
            }
        }
        let id = match o.get("id") {
            Some(Value::Null) if err.is_some() && self.null_ok > 0 => {
                self.null_ok -= 1;
                return;
            }
            id => {
                let Some(id) = self.id_of(id.unwrap_or(&Value::Null)) else {
                    return self.fail("protocol", format!("second reply, or reply to an unknown request: {v}"));
                };
                id
            }
        };
        let req = self.pend.remove(&id).unwrap();
        match (&req.want, res) {
            (Want::Error, None) => {}
            (Want::Error, Some(r)) => {
                self.fail("rejection", format!("request {id} should have been refused, but was answered: {r}"))
            }
            (Want::Empty, None) => {}
            (Want::Empty, Some(r)) => {
                if !(r.is_null() || r.as_array().is_some_and(|a| a.is_empty())) {
                    self.fail("rejection", format!("request {id} for an unusable document was answered: {r}"))
                }
            }
            (Want::Null, Some(r)) if r.is_null() => {}
            (Want::Null, _) => self.fail("protocol", format!("unexpected reply: {v}")),
            (Want::Init, Some(r)) if r.get("capabilities").is_some_and(|c| c.is_object()) => {
                if let Err(e) = check_capabilities(&r["capabilities"]) {
                    self.fail("capabilities", e)
                }
                self.init_done = true
            }
            (Want::Init, _) => self.fail("protocol", format!("unexpected reply to initialize: {v}")),
            (Want::Query { .. }, None) => {
                let code = err.unwrap()["code"].as_i64().unwrap();
                if !(req.cancelled && (code == -32800 || code == -32802)) {
                    self.fail("answer", format!("query {id} was refused: {v}"))
                }
            }
            (Want::Query { q, path, pos, seq }, Some(r)) => {
                let key = self.model.key_of(&self.disk(), path);
                let definite = self.states.last().is_some_and(|s| s.firm(&key));
                let target = location(r).ok().map(|l| l.0);
                self.w().probe(match (q, definite) {
                    (_, false) => "answer:undecided",
                    (Query::Symbols, _) => "answer:outline",
                    _ if r.is_null() => "answer:nothing",
                    (Query::Hover, _) => "answer:hover",
                    _ if target.as_deref() == Some(&*key) => "answer:definition-here",
                    _ => "answer:definition-elsewhere",
                });
                let mut last = String::new();
                let mut ok = false;
                // the newest first: that is what is usually right
                for j in (req.state..self.states.len()).rev() {
                    match check_answer(&self.states[j], &key, *q, *pos, r) {
                        Ok(()) => {
                            ok = true;
                            break;
                        }
                        Err(e) => {
                            if last.is_empty() {
                                last = e
                            }
                        }
                    }
                }
                if req.state + 1 == self.states.len() {
                    let firm = self.states[req.state].firm(&key);
                    self.answers.insert(*seq, (r.to_string(), firm, *pos));
                }
                if !ok {
                    let d = format!(
                        "{q:?} at {}:{} of {path} (states {}..={}): {last}; answer: {r}",
                        pos.line,
                        pos.col,
                        req.state,
                        self.states.len() - 1
                    );
                    self.fail("answer", d)
                }
            }
        }
    }

    fn publish(&mut self, p: Value) {
        let uri = p.get("uri").and_then(|u| u.as_str()).unwrap_or("").to_string();
        let Some(key) = uri_path(&uri) else {
            return self.fail("protocol", format!("diagnostics for an unusable address {uri:?}"));
        };
        let diags = match parse_diags(p.get("diagnostics").unwrap_or(&Value::Null)) {
            Ok(d) => d,
            Err(e) => return self.fail("protocol", format!("malformed diagnostics: {e}: {p}")),
        };
        let lo = self.lo.get(&key).copied().unwrap_or(0);
        let mut last = String::new();
        for j in lo..self.states.len() {
            match self.explains(j, &key, &diags) {
                Ok(()) => {
                    self.lo.insert(key.clone(), j);
                    self.shown.insert(key, diags);
                    return;
                }
                Err(e) => {
                    if !e.starts_with("range outside") || last.is_empty() {
                        last = e
                    }
                }
            }
        }
        if self.log.is_some() {
            for j in 0..self.states.len() {
                let t = match self.states[j].files.get(&key) {
                    Some(f) => format!("model state {j}: {key}: {:?} sure={} open={} includes={:?} pred={}", f.info.status, f.sure, f.open, f.incs,
                        match &*f.pred { Pred::List(e) => show(e), p => format!("{p:?}") }),
                    None => format!("model state {j}: {key} is not part of the project"),
                };
                self.note(|| t);
            }
        }
        if self.plan.agree.is_some() {
            self.shown.insert(key.clone(), diags.clone());
        }
        // was it that of an older state?
        let old = (0..lo).rev().find(|j| self.explains(*j, &key, &diags).is_ok());
        let n = self.states.len() - 1;
        match old {
            Some(j) => self.fail(
                "regression",
                format!("diagnostics of {key} belong to state {j}, after those of state {lo} had been sent: {last}"),
            ),
            None => self.fail("diagnostics", format!("diagnostics of {key} match no state {lo}..={n}: {last}")),
        }
    }

    fn explains(&self, j: usize, key: &str, diags: &[Diag]) -> Result<(), String> {
        let s = &self.states[j];
        match s.files.get(key) {
            Some(f) => {
                if !f.sure && diags.is_empty() {
                    return Ok(());
                }
                let known = f.open || !matches!(*f.pred, Pred::Any);
                f.pred.check(&f.info, known, diags)
            }
            None if s.unknown_ok || diags.is_empty() => Ok(()),
            None => Err(format!("file is not part of the project, but has {diags:?}")),
        }
    }

    // ----------------------------------------------------------------- checks

    fn check_rest(&mut self, last: bool) {
        if self.violation.is_some() {
            return;
        }
        if let Some((id, r)) = self.pend.iter().next() {
            let d = format!("request {id} ({:?}) is never answered", r.want);
            return self.fail("no-reply", d);
        }
        if !self.inbox.is_empty() {
            let s = String::from_utf8_lossy(&self.inbox).into_owned();
            return self.fail("protocol", format!("incomplete message on the channel: {s:?}"));
        }
        let w = self.w();
        if !w.stdin.buf.is_empty() {
            return self.fail("deadlock", format!("the server stopped reading, {} bytes left", w.stdin.buf.len()));
        }
        w.probe("barrier");
        if self.shows < self.want_shows {
            return self.fail(
                "rejection",
                format!("{} notifications for unusable documents, but only {} messages", self.want_shows, self.shows),
            );
        }
        if last {
            self.collect_problems();
        }
        let cur = self.cur();
        let n = self.states.len() - 1;
        for k in cur.files.keys() {
            let d = self.shown.get(k).cloned().unwrap_or_default();
            if let Err(e) = self.explains(n, k, &d) {
                return self.fail("final-diagnostics", format!("the client is left with wrong diagnostics of {k}: {e}"));
            }
        }
        for (k, d) in &self.shown {
            if !cur.files.contains_key(k) && !d.is_empty() && !cur.unknown_ok {
                let s = format!("the client is left with diagnostics of {k}, which is not part of the project: {d:?}");
                return self.fail("final-diagnostics", s);
            }
        }
        for g in &cur.cycles {
            self.w().probe("cycle-at-rest");
            let hit = g.iter().any(|f| {
                self.shown.get(f).is_some_and(|d| d.iter().any(|d| code_is(&d.code, "cyclic_dependency_error")))
            });
            if !hit {
                return self.fail("cycle", format!("include cycle {g:?} is not reported"));
            }
        }
        if last {
            for (k, d) in &self.shown {
                let mut v: Vec<String> = d.iter().map(diag_key).collect();
                v.sort();
                self.finals.insert(k.clone(), (v, cur.firm(k)));
            }
            // no report and an empty report are the same
            for k in cur.files.keys() {
                self.finals.entry(k.clone()).or_insert_with(|| (vec![], cur.firm(k)));
            }
        }
        for f in cur.files.values() {
            self.w().probe(match (&*f.pred, f.open) {
                (Pred::Any, _) => "file:any",
                (Pred::Hard, _) => "file:hard",
                (Pred::Torn, _) => "file:torn",
                (Pred::List(l), _) if l.is_empty() => "file:clean",
                _ => "file:diagnostics",
            });
        }
    }

    /// If the one open document is as on disk, the command line tool must find the same.
    fn collect_problems(&mut self) {
        let Some(a) = &self.plan.agree else { return };
        let text = self.disk().read(&a.file);
        if self.docs.len() != 1 || text.is_none() || self.docs.get(&a.file) != text.as_ref() {
            return self.w().probe("agree:not-comparable");
        }
        let mut p = Problems { include: self.plan.cli.clone(), success: true, ..Default::default() };
        p.include.extend(self.cfg.clone().unwrap_or_default());
        for (k, d) in &self.shown {
            if d.iter().any(|d| code_is(&d.code, "cyclic_dependency_error")) && !a.reopen {
                // where a cycle is reported depends on where it was entered
                return self.w().probe("agree:cycle");
            }
            let mut v: Vec<String> = d
                .iter()
                .map(|d| {
                    let sev = ["", "error", "warning", "information", "hint"].get(d.sev as usize).unwrap_or(&"");
                    problem(sev, d.span.s.line, d.span.s.col, &d.message)
                })
                .collect();
            if !v.is_empty() {
                v.sort();
                p.success = false;
                p.files.insert(k.clone(), v);
            }
        }
        self.w().probe(if p.success { "agree:clean" } else { "agree:problems" });
        if p.files.keys().any(|k| *k != a.file) {
            self.w().probe("agree:problems-in-included-files");
        }
        if p.files.keys().any(|k| self.cur().files.get(k).is_some_and(|f| matches!(&*f.pred, Pred::Any))) {
            self.w().probe("agree:unknown-text");
        }
        self.problems = Some(p);
    }

    fn start_incarnation(&mut self) {
        self.incarnation += 1;
        let first = self.incarnation == 1;
        let w = self.w();
        w.stdin = Default::default();
        w.stdout = Default::default();
        w.stdin.cap = usize::MAX;
        w.stdout.cap = self.plan.cap;
        w.fds.clear();
        w.raw_stdout.clear();
        self.outbox.clear();
        self.inbox.clear();
        self.pend.clear();
        self.lo.clear();
        self.shown.clear();
        self.init_done = false;
        self.close_pending = false;
        self.want_shows = 0;
        self.shows = 0;
        self.null_ok = 0;
        self.kill_in = None;
        self.settled = false;
        self.torn = false;
        self.idle_polls = 0;
        let mut m = Model {
            cli: self.plan.cli.clone(),
            transient: self.model.transient,
            ever_transient: self.model.ever_transient,
            ..Default::default()
        };
        m.registry = std::mem::take(&mut self.model.registry);
        self.model = m;
        self.states = vec![Rc::new(self.model.evaluate(&self.disk()))];
        let mut todo = VecDeque::new();
        if first {
            todo.extend(self.plan.pre.iter().cloned().map(Act::Pre));
        }
        todo.push_back(Act::Init);
        todo.push_back(Act::WaitInit);
        todo.push_back(Act::Initialized);
        if first {
            todo.extend((0..self.plan.ops.len()).map(Act::Op));
            if self.plan.agree.is_some() {
                todo.push_back(Act::Agree)
            }
            match self.plan.end {
                End::Eof => todo.extend([Act::Final, Act::Close]),
                End::Shutdown => {
                    todo.extend([Act::Final, Act::Shutdown]);
                    todo.extend((0..self.plan.post).map(Act::Post));
                    todo.extend([Act::Exit, Act::Close]);
                }
                End::TornEof => todo.extend([Act::Final, Act::Torn, Act::Close]),
                End::BusyEof => todo.push_back(Act::Close),
            }
        } else {
            let mut r = Rng::new(mix(self.plan.entropy ^ self.incarnation) ^ w.entropy.next());
            let mut open: Vec<String> = self.docs.keys().cloned().collect();
            while !open.is_empty() {
                let k = r.below(open.len());
                todo.push_back(Act::Reopen(open.remove(k)));
            }
            let rest: Vec<Act> = self
                .todo
                .drain(..)
                .filter(|a| !matches!(a, Act::Pre(_) | Act::Init | Act::WaitInit | Act::Initialized | Act::Reopen(_)))
                .collect();
            let shut = rest.iter().any(|a| matches!(a, Act::Shutdown));
            let rest: Vec<Act> =
                rest.into_iter().filter(|a| shut || !matches!(a, Act::Post(_) | Act::Exit)).collect();
            let closes = rest.iter().any(|a| matches!(a, Act::Close));
            todo.extend(rest);
            if !closes {
                todo.push_back(Act::Close);
            }
        }
        self.todo = todo;
        let n = self.incarnation;
        self.note(|| format!("process start {n}"));
    }

    fn deliver(&mut self, n: usize) {
        let w = self.w();
        let n = n.min(self.outbox.len());
        w.stdin.buf.extend(self.outbox.drain(..n));
        w.stdin.wake();
    }
    fn try_close(&mut self) {
        let w = self.w();
        if self.close_pending && self.outbox.is_empty() && !w.stdin.closed {
            w.stdin.closed = true;
            self.close_polls = 0;
            w.stdin.wake();
            self.note(|| "client closes its end".into());
        }
    }
}

const MAX_STEPS: u64 = 600_000;

impl Driver for Session<'_> {
    fn step(&mut self, woken: bool, tasks: &[usize]) -> Step {
        self.steps += 1;
        let w = self.w();
        w.busy = (0, 0);
        w.now += 20 + mix(self.steps) % 4000;
        if self.violation.is_some() {
            return Step::Kill;
        }
        if let Some(f) = w.forbidden.first().cloned() {
            self.fail("forbidden", format!("the program tried: {f}"));
            return Step::Kill;
        }
        if !w.raw_stdout.is_empty() {
            let s = String::from_utf8_lossy(&w.raw_stdout).into_owned();
            self.fail("protocol", format!("bytes outside of the protocol on standard output: {s:?}"));
            return Step::Kill;
        }
        if self.steps > MAX_STEPS {
            self.fail("livelock", "the session does not come to rest".into());
            return Step::Kill;
        }
        if let Some(k) = &mut self.kill_in {
            if *k == 0 {
                self.kill_in = None;
                self.note(|| "process killed".into());
                return Step::Kill;
            }
            *k -= 1;
        }
        self.try_close();
        let out = w.stdout.buf.len();
        let sendable = self.outbox.len();
        // read again: closing may have woken the server
        let closing = w.stdin.closed;
        let busy = woken || out > 0 || sendable > 0 || !tasks.is_empty();
        let op = self.op_enabled(!busy);
        if !busy && !op {
            if closing && !self.idle_after_close() {
                return Step::Again;
            }
            self.rest_failure(closing);
            return Step::Kill;
        }
        if self.mood_left == 0 {
            let m = w.chooser.choose(5);
            self.mood = [Mood::Calm, Mood::Burst, Mood::Slow, Mood::Trickle, Mood::Chaos][m];
            self.mood_left = 30;
        }
        self.mood_left -= 1;
        let t: [u32; 8] = match self.mood {
            Mood::Calm => [40, 30, 30, 8, 2, 2, 1, 20],
            Mood::Burst => [4, 4, 6, 40, 2, 6, 1, 6],
            Mood::Slow => [30, 1, 20, 20, 3, 8, 2, 10],
            Mood::Trickle => [25, 4, 2, 8, 10, 20, 3, 10],
            Mood::Chaos => [10, 10, 10, 10, 10, 10, 5, 10],
        };
        let mut acts: Vec<(u8, usize)> = vec![];
        let mut weights: Vec<u32> = vec![];
        let mut add = |cond: bool, a: u8, x: usize, wt: u32| {
            if cond {
                acts.push((a, x));
                weights.push(wt);
            }
        };
        add(woken, 0, 0, t[0]);
        add(out > 0, 1, 0, t[1]);
        add(sendable > 0, 2, 0, t[2]);
        add(op, 3, 0, t[3]);
        for i in tasks {
            add(true, 7, *i, t[7]);
        }
        add(out > 1, 4, 0, t[4]);
        add(sendable > 1, 5, 0, t[5]);
        add(busy && !woken, 6, 0, t[6]);
        let (a, x) = acts[w.chooser.weighted(&weights)];
        w.sched(a);
        if self.log.is_some() && std::env::var("STEPS").is_ok() {
            let t = format!("step {}: action {a} woken {woken} out {out} sendable {sendable} tasks {tasks:?} calls {} entropy {:x}", self.steps, w.calls, w.entropy.clone().next());
            self.note(|| t);
        }
        let size = |w: &mut World, n: usize| -> usize {
            match w.chooser.choose(3) {
                0 => 1 + w.chooser.choose(n.min(40)),
                1 => 1 + w.chooser.choose(n),
                _ => 1 + w.chooser.choose(n.min(4)),
            }
        };
        match a {
            0 | 6 => {
                // guards against a server that keeps itself busy without ever getting anywhere
                let mark = (w.out_written, w.stdin.buf.len());
                if mark == self.io_mark && out == 0 {
                    self.idle_polls += 1;
                    if self.idle_polls > 5000 {
                        self.fail("livelock", "the server spins without reading or writing".into());
                        return Step::Kill;
                    }
                } else {
                    self.idle_polls = 0;
                    self.io_mark = mark;
                }
                if a == 6 {
                    w.probe("spurious-poll");
                }
                Step::PollMain
            }
            1 => {
                self.receive(out);
                Step::Again
            }
            2 => {
                self.deliver(sendable);
                Step::Again
            }
            3 => {
                self.act();
                Step::Again
            }
            4 => {
                let n = size(w, out);
                w.probe("partial-drain");
                self.receive(n);
                Step::Again
            }
            5 => {
                let n = size(w, sendable);
                w.probe("partial-delivery");
                self.deliver(n);
                Step::Again
            }
            _ => Step::PollTask(x),
        }
    }
}

impl Session<'_> {
    /// The wake-up caused by closing the input is only seen in the next step.
    fn idle_after_close(&mut self) -> bool {
        self.close_polls += 1;
        self.close_polls > 5
    }

    fn rest_failure(&mut self, closing: bool) {
        if closing {
            self.fail("no-termination", "the input ended, but the server does not terminate".into());
        } else {
            // the script cannot go on although everything is at rest
            self.check_rest(false);
            self.fail("deadlock", "nothing happens any more".into());
        }
    }
}

struct SendPtr<T>(*mut T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

pub enum Ended {
    Returned,
    Killed,
    Panicked(String),
    Exited(i32),
    Stuck,
}

thread_local! {
    static EXIT_TX: RefCell<Option<std::sync::mpsc::Sender<Ended>>> = const { RefCell::new(None) };
}

/// The simulated process called `exit`: report it, and never return.
fn park_on_exit(code: i32) -> ! {
    World::leave();
    EXIT_TX.with(|t| {
        if let Some(t) = t.borrow_mut().take() {
            let _ = t.send(if code == simcore::STUCK { Ended::Stuck } else { Ended::Exited(code) });
        }
    });
    loop {
        std::thread::park()
    }
}

/// The stack of the main thread of a process. Instead of making chains of includes as long as it
/// takes to exhaust it, which takes long, the stack is scaled down when there is a long one.
fn stack_size(plan: &Plan) -> usize {
    if plan.chain >= 1000 {
        1 << 20
    } else {
        8 << 20
    }
}

/// Runs one process on its own thread (with its own hash-table seeds).
pub fn spawn_process(plan: &Plan, world: *mut World, driver: Option<*mut Session<'static>>, f: fn()) -> Ended {
    let (tx, rx) = std::sync::mpsc::channel();
    let wp = SendPtr(world);
    let dp = driver.map(SendPtr);
    let h = std::thread::Builder::new()
        .stack_size(stack_size(plan))
        .spawn(move || {
            let wp = wp;
            let dp = dp;
            EXIT_TX.with(|t| *t.borrow_mut() = Some(tx.clone()));
            simcore::interpose::ON_EXIT.with(|e| e.set(Some(park_on_exit)));
            let dd: Option<*mut dyn Driver> = dp.as_ref().map(|d| d.get() as *mut dyn Driver);
            simtokio::sim::set_driver(dd);
            unsafe { (*wp.get()).enter() };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                f();
                use std::io::Write;
                let _ = std::io::stdout().flush();
            }));
            simtokio::sim::set_driver(None);
            simtracing::uninstall();
            World::leave();
            let e = match r {
                Ok(()) => Ended::Returned,
                Err(p) if p.is::<simtokio::Killed>() => Ended::Killed,
                Err(_) => Ended::Panicked(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
            };
            let _ = tx.send(e);
        })
        .expect("cannot start a thread");
    match rx.recv() {
        Ok(e @ (Ended::Exited(_) | Ended::Stuck)) => e, // the thread stays parked
        Ok(e) => {
            let _ = h.join();
            e
        }
        Err(_) => Ended::Panicked("the process vanished".into()),
    }
}

/// Value of `Twin::kill`: when all messages have been sent and handled
pub const AT_THE_END: u32 = u32::MAX;

/// Variation of a plan for the second execution of a twin run.
#[derive(Clone, Copy, Default)]
pub struct Twin {
    pub entropy: u64,
    pub kill: Option<u32>,
}

pub fn run_ls(plan: &Plan, chooser: Chooser, twin: Option<Twin>, trace: bool) -> Outcome {
    let entropy = twin.map(|t| t.entropy).unwrap_or(plan.entropy);
    let mut world = Box::new(World::new(chooser, entropy));
    world.cwd = CWD.as_bytes().to_vec();
    world.masked = Masked { eintr: plan.eintr, short: plan.short };
    world.out_masked.short = plan.short_write;
    let mut model = Model { cli: plan.cli.clone(), ..Default::default() };
    build_disk(plan, &mut world, &mut model);
    let mut s = Session {
        plan,
        world: &mut *world,
        model,
        docs: BTreeMap::new(),
        cfg: plan.init.clone(),
        version: 0,
        versions: BTreeMap::new(),
        todo: VecDeque::new(),
        states: vec![],
        outbox: VecDeque::new(),
        inbox: vec![],
        pend: BTreeMap::new(),
        lo: BTreeMap::new(),
        shown: BTreeMap::new(),
        next_id: 0,
        init_done: false,
        close_pending: false,
        want_shows: 0,
        shows: 0,
        null_ok: 0,
        mood: Mood::Calm,
        mood_left: 0,
        kill_in: None,
        idle_polls: 0,
        close_polls: 0,
        io_mark: (0, 0),
        steps: 0,
        incarnation: 0,
        messages: 0,
        query_seq: 0,
        asked: vec![],
        trail: vec![],
        final_kill: false,
        snap: None,
        violation: None,
        log: trace.then(Vec::new),
        answers: BTreeMap::new(),
        finals: BTreeMap::new(),
        problems: None,
        settled: false,
        torn: false,
    };
    let mut args: Vec<String> = vec!["ginko_ls".into()];
    for (i, dir) in plan.cli.iter().enumerate() {
        crate::args::include(&mut args, dir, 1 + (plan.entropy >> (3 * i % 40)));
    }
    if let Some(l) = &mut s.log {
        dump_disk(plan, l);
        l.push(format!("$ {}", args.join(" ")));
    }
    crate::args::set(&args);
    let mut forced_kill = twin.and_then(|t| t.kill);
    loop {
        s.start_incarnation();
        match forced_kill.take() {
            Some(AT_THE_END) => s.final_kill = true,
            k => s.kill_in = k.or(s.kill_in),
        }
        let wp: *mut World = s.world;
        let sp = &mut s as *mut Session as *mut Session<'static>;
        let end = spawn_process(plan, wp, Some(sp), ls_sut::__sim_main);
        let w = s.w();
        if s.violation.is_some() {
            break;
        }
        match end {
            Ended::Killed => continue,
            Ended::Stuck => {
                s.fail("hang", "the server sleeps or repeats system calls forever".into());
                break;
            }
            Ended::Panicked(m) => {
                s.fail("crash", format!("the server panicked: {m}"));
                break;
            }
            Ended::Exited(c) => {
                if !w.stdin.closed && !s.torn {
                    s.fail("early-exit", format!("the server exited with status {c} before its input ended"));
                    break;
                }
            }
            Ended::Returned => {
                if !w.stdin.closed && !s.torn {
                    s.fail("early-exit", "the server ended before its input did".into());
                    break;
                }
            }
        }
        // the rest of the output
        let n = w.stdout.buf.len();
        s.receive(n);
        if s.violation.is_none() && !s.inbox.is_empty() {
            let t = String::from_utf8_lossy(&s.inbox).into_owned();
            s.fail("protocol", format!("the output ends within a message: {t:?}"));
        }
        if !w.raw_stdout.is_empty() {
            let t = String::from_utf8_lossy(&w.raw_stdout).into_owned();
            s.fail("protocol", format!("bytes outside of the protocol on standard output: {t:?}"));
        }
        if let Some(f) = w.forbidden.first().cloned() {
            s.fail("forbidden", format!("the program tried: {f}"));
        }
        if s.settled && s.violation.is_none() {
            if let Some((id, r)) = s.pend.iter().next() {
                let d = format!("request {id} ({:?}) is never answered", r.want);
                s.fail("no-reply", d);
            }
        }
        break;
    }
    let w = s.w();
    if let Some(l) = &mut s.log {
        for x in String::from_utf8_lossy(&w.stderr).lines() {
            l.push(format!("stderr: {x}"))
        }
    }
    w.probes.insert("incarnations", s.incarnation);
    w.probes.insert("messages-sent", s.messages);
    Outcome {
        violation: s.violation.take(),
        choices: std::mem::take(&mut w.chooser.log),
        fired: w.fired.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        probes: w.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        steps: s.steps,
        sim_us: w.now,
        digest: w.digest,
        schedule: w.schedule,
        finals: std::mem::take(&mut s.finals),
        answers: std::mem::take(&mut s.answers),
        problems: s.problems.take(),
        trace: s.log.take().unwrap_or_default(),
    }
}

// ------------------------------------------------------------------------- answers

pub fn check_answer(st: &State, key: &str, q: Query, pos: Pos, v: &Value) -> Result<(), String> {
    let Some(f) = st.files.get(key) else {
        if st.unknown_ok || v.is_null() {
            return Ok(());
        }
        return Err("the document is not part of the project".into());
    };
    if !f.sure || (!f.open && matches!(*f.pred, Pred::Any)) {
        return Ok(());
    }
    match f.info.status {
        Status::Fuzzy => return Ok(()),
        Status::Hard => {
            if v.is_null() || v.as_array().is_some_and(|a| a.is_empty()) {
                return Ok(());
            }
            return Err("the document cannot be parsed".into());
        }
        Status::Torn => {
            if q == Query::Symbols {
                return symbols_in_text(&f.info, v);
            }
            return Ok(());
        }
        Status::Parsed => {}
    }
    match q {
        Query::Symbols => {
            if !f.info.symbols_exact {
                return symbols_in_text(&f.info, v);
            }
            let want = Value::Array(f.info.symbols.iter().map(sym_json).collect());
            let got = normalize_symbols(v);
            if got == want {
                Ok(())
            } else {
                Err(format!("outline should be {want}"))
            }
        }
        Query::Hover | Query::Definition => {
            let inside: Vec<usize> =
                (0..f.info.constructs.len()).filter(|i| f.info.constructs[*i].0.contains(pos)).collect();
            let mut err = String::new();
            for i in &inside {
                match check_construct(st, f, *i, q, v) {
                    Ok(()) => return Ok(()),
                    Err(e) => err = e,
                }
            }
            if !inside.is_empty() {
                Err(err)
            } else if v.is_null() {
                Ok(())
            } else {
                Err("there is nothing under the cursor".into())
            }
        }
    }
}

fn check_construct(st: &State, f: &FileState, i: usize, q: Query, v: &Value) -> Result<(), String> {
    let c = &f.info.constructs[i].1;
    let hover_text = || -> Option<String> {
        let c = v.get("contents")?;
        c.as_str().or_else(|| c.get("value").and_then(|v| v.as_str())).map(|s| s.to_string())
    };
    match (q, c) {
        (Query::Hover, Construct::Label(s)) | (Query::Hover, Construct::Include(s)) => {
            if hover_text().as_deref() == Some(s) {
                Ok(())
            } else {
                Err(format!("hover should show {s:?}"))
            }
        }
        (_, Construct::Label(_)) => {
            if v.is_null() {
                Ok(())
            } else {
                Err("a label has no definition elsewhere".into())
            }
        }
        (Query::Hover, Construct::Ref(r)) => {
            let know = f.env.know(r, false);
            if v.is_null() {
                return if know == Know::Yes { Err(format!("{} should be resolved", r.text())) } else { Ok(()) };
            }
            if know == Know::No {
                return Err(format!("{} should not be resolved", r.text()));
            }
            if f.env.maybe_elsewhere(r) {
                return Ok(());
            }
            let t = hover_text();
            match f.env.targets(r) {
                Some(d) => {
                    if d.targets.iter().any(|(_, _, n)| Some(format!("Node {n}")) == t) {
                        Ok(())
                    } else {
                        let n: Vec<&String> = d.targets.iter().map(|t| &t.2).collect();
                        Err(format!("{} should name one of the nodes {n:?}", r.text()))
                    }
                }
                None => Ok(()),
            }
        }
        (_, Construct::Ref(r)) => {
            let know = f.env.know(r, false);
            if v.is_null() {
                return if know == Know::Yes { Err(format!("{} should be resolved", r.text())) } else { Ok(()) };
            }
            if know == Know::No {
                return Err(format!("{} should not be resolved", r.text()));
            }
            let (path, span) = location(v)?;
            if let Some(t) = st.files.get(&path) {
                let known = t.open || !matches!(*t.pred, Pred::Any);
                if t.sure && known && !in_text(&t.info, span, 1) {
                    return Err("the target lies outside of its file".into());
                }
            }
            if f.env.maybe_elsewhere(r) {
                return Ok(());
            }
            match f.env.targets(r) {
                Some(d) => {
                    if d.targets.iter().any(|(p, s, _)| *p == path && *s == span) {
                        Ok(())
                    } else {
                        Err(format!("{} should lead to one of {:?}", r.text(), d.targets))
                    }
                }
                None => Ok(()),
            }
        }
        (_, Construct::Include(_)) => {
            let start = f.info.constructs[i].0.s;
            let k = f
                .info
                .constructs
                .iter()
                .filter(|(s, c)| matches!(c, Construct::Include(_)) && s.s < start)
                .count();
            let Some((targets, none_ok)) = f.incs.get(k) else { return Ok(()) };
            if v.is_null() {
                return if *none_ok { Ok(()) } else { Err(format!("the include should lead to {targets:?}")) };
            }
            let (path, span) = location(v)?;
            if targets.contains(&path) && span == Span::default() {
                Ok(())
            } else {
                Err(format!("the include should lead to the start of {targets:?}"))
            }
        }
    }
}

fn location(v: &Value) -> Result<(String, Span), String> {
    let v = match v.as_array() {
        Some(a) if a.len() == 1 => &a[0],
        Some(_) => return Err("expected one location".into()),
        None => v,
    };
    let p = v.get("uri").and_then(|u| u.as_str()).and_then(uri_path).ok_or("location without a usable address")?;
    let s = v.get("range").and_then(span_of).ok_or("location without a range")?;
    Ok((p, s))
}

fn range_json(s: Span) -> Value {
    json!({"start": {"line": s.s.line, "character": s.s.col}, "end": {"line": s.e.line, "character": s.e.col}})
}

fn sym_json(s: &Sym) -> Value {
    let mut v = json!({"name": s.name, "kind": s.kind, "deprecated": s.deprecated, "range": range_json(s.range),
        "selectionRange": range_json(s.sel)});
    v["children"] = Value::Array(s.children.iter().flatten().map(sym_json).collect());
    v
}

fn normalize_symbols(v: &Value) -> Value {
    let Some(a) = v.as_array() else { return v.clone() };
    Value::Array(
        a.iter()
            .map(|s| {
                let dep = s.get("tags").and_then(|t| t.as_array()).is_some_and(|t| t.contains(&json!(1)))
                    || s.get("deprecated") == Some(&json!(true));
                let mut o = json!({"name": s["name"], "kind": s["kind"], "deprecated": dep, "range": s["range"],
                    "selectionRange": s["selectionRange"]});
                o["children"] = match s.get("children") {
                    Some(c @ Value::Array(_)) => normalize_symbols(c),
                    _ => json!([]),
                };
                o
            })
            .collect(),
    )
}

fn symbols_in_text(info: &Info, v: &Value) -> Result<(), String> {
    let Some(a) = v.as_array() else { return Ok(()) };
    for s in a {
        let r = s.get("range").and_then(span_of).ok_or("symbol without a range")?;
        let sel = s.get("selectionRange").and_then(span_of).ok_or("symbol without a selection range")?;
        for x in [r, sel] {
            if !in_text(info, x, 1) {
                return Err(format!("symbol outside of the text: {s}"));
            }
        }
        if !(r.s <= sel.s && sel.e <= r.e) {
            return Err(format!("selection range outside of the range: {s}"));
        }
        if let Some(c) = s.get("children") {
            symbols_in_text(info, c)?;
        }
    }
    Ok(())
}
