//! Plans: what a simulated client does, on which disk, with which faults. A plan is generated from
//! one seed; together with the list of scheduling choices it determines a run completely.
use crate::doc::*;
use serde::{Deserialize, Serialize};
use simcore::Rng;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Entry {
    File(Doc),
    Dir,
    Link(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    /// no permission
    Denied,
    /// reading fails from this offset
    ReadError(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DiskOp {
    Put(String, Entry),
    Remove(String),
    Break(String, Bad),
    Repair(String),
    FdLimit(bool),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum CallS {
    Any,
    Realpath,
    Open,
    Read,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Query {
    Hover,
    Definition,
    Symbols,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Junk {
    /// notification or request with a document address that is not a local file
    BadUri { kind: u8, uri: String },
    /// known method with unusable parameters
    BadParams { kind: u8 },
    /// settings that are not usable ones for this server
    BadConfig { kind: u8 },
    UnknownRequest,
    UnknownNotification(u8),
    EmptyChange { path: String },
    CloseUnopened { path: String },
    CancelUnknown,
    SecondInitialize,
    /// reply to a request the server never made
    StrayResponse,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Open { path: String, doc: Doc },
    Change { path: String, docs: Vec<Doc> },
    Close { path: String },
    Save { path: String },
    Ask { q: Query, path: String, pick: u32, off: u32 },
    /// the same question as before (counted backwards)
    Again { back: u32 },
    Config { includes: Vec<String> },
    Disk(DiskOp),
    /// one call fails, or a file vanishes right before it, while later messages are processed
    Transient { after: u32, call: CallS, errno: i32, remove: Option<String> },
    /// faults stop, everything is sent again
    Heal,
    Cancel,
    Junk(Junk),
    Barrier,
    /// the process dies after this many more steps and is started again
    Kill { after: u32 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Eof,
    Shutdown,
    /// the input ends in the middle of a message
    TornEof,
    /// the input ends while messages are in flight
    BusyEof,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub profile: String,
    /// the files that a client edits
    pub files: Vec<String>,
    pub cli: Vec<String>,
    pub init: Option<Vec<String>>,
    /// unusable initialization options, if there are no others
    #[serde(default)]
    pub bad_init: Option<u8>,
    pub pre: Vec<Junk>,
    pub disk: Vec<(String, Entry)>,
    pub ops: Vec<Op>,
    pub end: End,
    /// junk after shutdown
    pub post: u8,
    pub cap: usize,
    pub eintr: u32,
    pub short: u32,
    pub short_write: u32,
    pub entropy: u64,
    /// a chain of so many generated files `/w/deep/c<i>.dtsi`
    #[serde(default)]
    pub chain: u32,
    /// the last file of the chain includes the first one
    #[serde(default)]
    pub chain_loop: bool,
    /// every file of the chain also includes the one that is so many files further
    #[serde(default)]
    pub chain_skip: u32,
    /// second execution for comparison: (choice seed, entropy, kill after so many steps)
    #[serde(default)]
    pub twin: Option<(u64, u64, Option<u32>)>,
    #[serde(default)]
    pub cli_run: Option<CliRun>,
    /// in the end the server's view of one file is compared with what the command line tool says
    #[serde(default)]
    pub agree: Option<Agree>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Agree {
    /// of the choices and the entropy of the command line tool
    pub seed: u64,
    pub entropy: u64,
    /// one of the files that may be on disk, in its unique and in some other spelling
    pub file: String,
    pub spelling: String,
    /// all documents are closed before it is opened
    pub reopen: bool,
}

/// One invocation of the command line tool.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct CliRun {
    pub file: String,
    pub include: Vec<String>,
    pub fd_limit: bool,
    pub transient: Option<(u32, CallS, i32, Option<String>)>,
    /// (bytes, errno)
    pub out_fault: Option<(usize, i32)>,
    pub out_eintr: u32,
    pub out_short: u32,
    /// unusable command line
    pub bad_args: u8,
}

pub const DIRS: &[&str] = &["/w/main", "/w/main/sub", "/w/inc1", "/w/inc2", "/w/cwd", "/w/\u{e4} b", "/w/none"];

const POOL: &[&str] = &[
    "/w/main/board.dts",
    "/w/main/soc.dtsi",
    "/w/main/sub/common.dtsi",
    "/w/inc1/soc.dtsi",
    "/w/inc2/common.dtsi",
    "/w/main/other.dts",
    "/w/cwd/extra.dtsi",
    "/w/main/over.dtso",
    "/w/\u{e4} b/\u{fc}ber.dtsi",
    "/w/inc1/extra.dtsi",
    "/w/main/sub/soc.dtsi",
    "/w/none/soc.dtsi",
    "/w/main/pins.dtsi",
    "/w/inc2/pins.h",
    "/w/main/a%20b#1.dtsi",
    "/w/main/v1.2.overlay",
];

/// What a profile emphasizes; all numbers are weights or percentages.
#[derive(Clone, Debug)]
pub struct Prof {
    pub files: (usize, usize),
    pub ops: (usize, usize),
    pub change: u32,
    pub open: u32,
    pub close: u32,
    pub ask: u32,
    pub config: u32,
    pub disk: u32,
    pub transient: u32,
    pub barrier: u32,
    pub cancel: u32,
    pub junk: u32,
    pub save: u32,
    pub kill: u32,
    pub cycles: u32,
    pub torn: u32,
    pub fuzzy: u32,
    pub unicode: u32,
    pub errors: u32,
    pub refs: u32,
    pub broken: u32,
    pub multi_dir: u32,
    pub unsaved: u32,
    pub masked: u32,
    pub slow: u32,
    pub twin: bool,
    pub cli: u32,
    pub deep: u32,
    /// per mille
    pub chain: u32,
    /// per mille: documents with very many diagnostics
    pub many: u32,
    /// texts with very long lines or very many of them are so many times as frequent
    pub scale: usize,
}

pub fn profile(id: &str) -> Prof {
    let base = Prof {

        files: (2, 5),
        ops: (4, 18),
        change: 40,
        open: 14,
        close: 6,
        ask: 25,
        config: 2,
        disk: 2,
        transient: 0,
        barrier: 6,
        cancel: 1,
        junk: 0,
        save: 1,
        kill: 0,
        cycles: 5,
        torn: 5,
        fuzzy: 0,
        unicode: 30,
        errors: 25,
        refs: 50,
        broken: 10,
        multi_dir: 35,
        unsaved: 5,
        masked: 15,
        slow: 30,
        twin: false,
        cli: 0,
        deep: 0,
        chain: 10,
        many: 8,
        scale: 1,
    };
    match id {
        "C01" => Prof {

            fuzzy: 35,
            torn: 15,
            disk: 8,
            transient: 4,
            close: 10,
            cancel: 6,
            junk: 5,
            kill: 3,
            cycles: 15,
            broken: 20,
            unsaved: 15,
            config: 5,
            ops: (5, 26),
            slow: 50,
            deep: 6,
            ..base
        },
        "C02" => Prof {
change: 60, ask: 8, close: 8, slow: 65, errors: 45, refs: 60, broken: 12, ops: (5, 24), barrier: 8, ..base
        },
        "C03" => Prof { ask: 60, change: 50, slow: 60, barrier: 3, errors: 8, torn: 3, refs: 70, broken: 4, ops: (6, 26), cancel: 3, ..base },
        "C04" => Prof { twin: true, cycles: 35, fuzzy: 10, refs: 60, ask: 25, disk: 0, slow: 60, barrier: 5, ops: (4, 18), close: 8, config: 4, ..base },
        "C05" => Prof { chain: 40, files: (3, 8), refs: 90, change: 50, ask: 25, errors: 15, cycles: 2, torn: 3, broken: 6, close: 5, barrier: 10, ops: (4, 20), cli: 12, ..base },
        "C06" => Prof { chain: 40, files: (2, 7), cycles: 60, change: 60, ask: 10, errors: 6, torn: 2, barrier: 14, broken: 4, refs: 40, cli: 12, ops: (4, 20), ..base },
        "C07" => Prof { files: (2, 6), disk: 30, transient: 8, broken: 45, change: 40, masked: 40, ask: 12, barrier: 6, close: 6, cli: 12, unsaved: 8, ops: (5, 22), ..base },
        "C08" => Prof { close: 30, open: 28, change: 35, disk: 18, ask: 18, files: (2, 5), multi_dir: 50, barrier: 10, ops: (5, 24), errors: 30, unsaved: 8, ..base },
        "C09" => Prof { files: (4, 9), multi_dir: 100, config: 25, broken: 15, ask: 30, change: 30, refs: 60, errors: 12, barrier: 12, cli: 15, ops: (4, 18), disk: 9, ..base },
        "C10" => Prof { scale: 5, unicode: 75, ask: 60, change: 40, refs: 70, errors: 40, torn: 4, barrier: 8, ..base },
        "C11" => Prof { cli: 100, chain: 40, many: 40, files: (1, 6), errors: 35, broken: 20, cycles: 10, torn: 12, fuzzy: 8, masked: 50, multi_dir: 50, deep: 2, ..base },
        "C12" => Prof { torn: 70, files: (1, 4), change: 50, ask: 6, errors: 6, close: 8, disk: 12, cli: 25, barrier: 14, unicode: 45, broken: 3, ..base },
        "C13" => Prof { slow: 90, ask: 35, junk: 8, cancel: 6, masked: 30, fuzzy: 8, unicode: 60, ops: (5, 26), broken: 20, transient: 2, ..base },
        "C20" => Prof { files: (2, 6), cycles: 25, fuzzy: 25, torn: 15, errors: 45, refs: 50, broken: 20, multi_dir: 50, config: 8, close: 8, disk: 8, ask: 6, unsaved: 10, barrier: 4, many: 20, chain: 20, ops: (3, 16), deep: 2, ..base },
        "C14" => Prof { junk: 45, multi_dir: 45, config: 4, ask: 25, cancel: 8, barrier: 8, ops: (5, 24), ..base },
        _ => base,
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Prof,
    pub files: Vec<String>,
    pub incs: Vec<String>,
    /// file index -> files it prefers to include (acyclic)
    links: Vec<(String, String)>,
    broken_names: Vec<String>,
    cyc: bool,
    /// the file that is being written
    cur: usize,
}

const NODES: &[&str] = &["soc", "soc", "bus", "bus", "cpu@0", "cpu@0", "uart@1f", "uart@1f", "mem", "mem", "cpu", "cpu@00", "Soc", "deep"];
const PROPS: &[&str] = &["reg", "status", "model", "x,clock-names", "#address-cells", "phandle", "interrupts", "ranges"];
const STRS: &[&str] = &["okay", "ns16550", "a\\b", "say \"hi\"", "", "x y", "// no comment", "/* none */"];
const USTRS: &[&str] = &["\u{fc}ber", "\u{65e5}\u{672c}", "\u{1F600}", "a\u{301}", "\u{10348}x"];
const NUMBERS: &[&str] = &["0", "7", "00", "0x0", "017", "08", "0x", "0xg", "18446744073709551615", "18446744073709551616", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "9x", "12"];
const EXPRS: &[&str] = &["1 + (2 << 3)", "1 + (2 << 3)", "~0", "((1))", "A | B", "FOO(1, 2)", "(1) * (2)", "1 < 2", "a ? b : c", "1 >= 2", "!x && y"];
const JUNK: &[&str] = &[";", ")", "foo", "}", "42", "\"str\"", "\u{fc}", "$", "<1>", "l0:", "=", "/bogus/"];

fn idx_labels(i: usize) -> Vec<String> {
    // names that are easily confused are rare
    let common = (0..3).map(|k| format!("l{i}_{k}"));
    let mut v: Vec<String> = common.clone().chain(common.clone()).chain(common).collect();
    v.extend([format!("L{i}_0"), format!("l{i}_01"), format!("l{i}")]);
    v
}

impl Gen {
    pub fn style(&mut self) -> Style {
        let r = &mut self.r;
        Style {
            seed: r.next() >> 12,
            crlf: r.pct(15),
            tabs: r.pct(30),
            comments: if r.pct(40) { *r.pick(&[5u8, 15, 35]) } else { 0 },
            unicode: r.pct(self.p.unicode),
            lead: if r.pct(40) { r.below(5) as u8 } else { 0 },
            far: match r.below(1000 / self.p.scale) {
                0..=5 => *r.pick(&[125, 253, 254, 300]),
                6 => *r.pick(&[65_530u32, 70_000]),
                _ => 0,
            },
            pad: match r.below(1000 / self.p.scale) {
                0..=5 => *r.pick(&[70, 120, 250, 300]),
                6 | 7 => *r.pick(&[32_770u32, 70_000]),
                _ => 0,
            },
            no_final_newline: r.pct(20),
            compact: r.pct(25),
        }
    }

    fn label_ref(&mut self) -> String {
        // sometimes one that nobody defines
        let n = self.files.len();
        let later = n - 1 - self.cur.min(n - 1);
        let i = match self.r.below(100) {
            0..=7 => 99,
            8..=32 => self.cur,
            33..=77 if later > 0 => self.cur + 1 + self.r.below(later),
            _ => self.r.below(n),
        };
        let ls = idx_labels(i);
        self.r.pick(&ls).clone()
    }
    fn reference(&mut self) -> Ref {
        if self.r.pct(65) {
            Ref::Label(self.label_ref())
        } else {
            let d = self.r.below(100);
            if d == 99 {
                let n = self.r.range(2, 24);
                return Ref::Path(vec!["deep".to_string(); n]);
            }
            let n = if d < 10 {
                0
            } else if d < 60 {
                1
            } else if d < 90 {
                2
            } else {
                3
            };
            Ref::Path((0..n).map(|_| self.r.pick(NODES).to_string()).collect())
        }
    }

    fn val(&mut self) -> Val {
        let refs = self.p.refs;
        if self.r.pct(refs / 2) {
            return if self.r.pct(30) {
                Val::Ref(self.reference())
            } else {
                let mut cells = vec![];
                for _ in 0..1 + self.r.below(3) {
                    cells.push(if self.r.pct(60) { CellS::Ref(self.reference()) } else { CellS::Num("1".into()) });
                }
                Val::Cells { bits: None, cells }
            };
        }
        match self.r.below(10) {
            0..=3 => {
                let s = if self.r.pct(self.p.unicode) { *self.r.pick(USTRS) } else { *self.r.pick(STRS) };
                Val::Str(s.to_string())
            }
            4..=7 => {
                let mut cells = vec![];
                for _ in 0..self.r.below(4) {
                    cells.push(match self.r.below(13) {
                        12 if !matches!(cells.last(), Some(CellS::Label(_))) => CellS::Label((*self.r.pick(&["c0", "cell_1", "C"])).to_string()),
                        0 => CellS::Expr((*self.r.pick(EXPRS)).to_string()),
                        1 => CellS::Num("0x1F".into()),
                        2 => CellS::Num("017".into()),
                        3 => CellS::Num("4294967295".into()),
                        _ => CellS::Num(format!("{}", self.r.below(100))),
                    });
                }
                Val::Cells { bits: if self.r.pct(8) { Some(*self.r.pick(&[8, 16, 32, 64])) } else { None }, cells }
            }
            8 => Val::Bytes(vec!["00".into(), "ffAB".into()]),
            _ => Val::Cells { bits: None, cells: vec![] },
        }
    }

    fn prop(&mut self) -> Item {
        let n = self.r.below(3);
        Item::Prop {
            label: None,
            name: self.r.pick(PROPS).to_string(),
            vals: (0..n).map(|_| self.val()).collect(),
            omit: false,
            nosemi: false,
        }
    }

    fn node(&mut self, idx: usize, depth: usize) -> Item {
        let full = *self.r.pick(NODES);
        let (name, unit) = match full.split_once('@') {
            Some((n, u)) => (n.to_string(), Some(u.to_string())),
            None => (full.to_string(), None),
        };
        let label = if self.r.pct(60) { Some(self.r.pick(&idx_labels(idx)).clone()) } else { None };
        let p = self.payload(idx, depth + 1);
        Item::Node { label, name, unit, omit: self.r.pct(3), p }
    }

    /// Nodes in nodes in nodes
    fn tower(&mut self, idx: usize, n: usize) -> Item {
        let mut p = self.payload(idx, 3);
        let mut it = None;
        for _ in 0..n {
            let label = if self.r.pct(20) { Some(self.r.pick(&idx_labels(idx)).clone()) } else { None };
            it = Some(Item::Node { label, name: "deep".into(), unit: None, omit: false, p });
            p = Payload { items: it.iter().cloned().collect(), nosemi: false };
        }
        it.unwrap()
    }

    fn payload(&mut self, idx: usize, depth: usize) -> Payload {
        let mut items = vec![];
        for _ in 0..self.r.below(if depth == 0 { 3 } else { 3 }) {
            items.push(self.prop());
        }
        if depth < 3 {
            for _ in 0..self.r.below(if depth == 0 { 4 } else { 2 }) {
                let n = self.node(idx, depth);
                items.push(n);
            }
        }
        if depth == 0 && self.r.pct(2) {
            let n = *self.r.pick(&[4usize, 6, 8, 9, 12, 16, 17, 24]);
            items.push(self.tower(idx, n));
        }
        if self.r.pct(3) {
            items.push(Item::DelProp("status".into()));
        }
        if self.r.pct(2) {
            items.push(Item::DelNode(self.r.pick(NODES).to_string()));
        }
        Payload { items, nosemi: false }
    }

    /// Some spelling under which `from` may include `to`.
    pub fn spell(&mut self, from: &str, to: &str) -> String {
        let fd = crate::model::parent(from).to_string();
        let td = crate::model::parent(to).to_string();
        let base = to.rsplit('/').next().unwrap().to_string();
        let rel = relative(&fd, &td, &base);
        let links: Vec<String> = self.links.iter().filter(|(_, t)| t == to).map(|(l, _)| l.clone()).collect();
        if !links.is_empty() && self.r.pct(40) {
            let l = self.r.pick(&links).clone();
            return relative(&fd, crate::model::parent(&l), l.rsplit('/').next().unwrap());
        }
        match self.r.below(20) {
            0..=9 if fd == td => base,
            0..=9 if td == "/w/cwd" || self.incs.contains(&td) => base,
            10 => to.to_string(),
            11 => format!("./{rel}"),
            12 => {
                let last = fd.rsplit('/').next().unwrap();
                format!("../{last}/{rel}")
            }
            13 => rel.replacen("../", "..//", 1),
            14 if td.starts_with("/w/main/sub") && self.incs.contains(&"/w/main".to_string()) => format!("sub/{base}"),
            _ => rel,
        }
    }

    fn include(&mut self, idx: usize) -> Option<Top> {
        let n = self.files.len();
        if self.r.pct(self.p.broken / 2) {
            let name = self.r.pick(&self.broken_names).clone();
            return Some(Top::Include { name, semi: false });
        }
        let cyc = self.cyc && self.r.pct(45);
        let j = if cyc {
            self.r.below(n)
        } else {
            if idx + 1 >= n {
                return None;
            }
            idx + 1 + self.r.below(n - idx - 1)
        };
        let from = self.files[idx].clone();
        let to = self.files[j].clone();
        let name = self.spell(&from, &to);
        Some(Top::Include { name, semi: false })
    }

    pub fn doc(&mut self, idx: usize) -> Doc {
        self.cur = idx;
        let path = self.files[idx].clone();
        let ft = crate::model::file_type(&path);
        let mut tops = vec![];
        use crate::model::Ft;
        let header = match ft {
            Ft::Dts | Ft::Dtso => !self.r.pct(6),
            _ => self.r.pct(4),
        };
        if header {
            tops.push(Top::Header);
        }
        if (ft == Ft::Dtso && self.r.pct(80)) || (ft == Ft::Dts && self.r.pct(6)) {
            tops.push(Top::Plugin);
        }
        let n = match ft {
            _ if self.r.below(500) == 0 => *self.r.pick(&[5, 8, 12, 17, 20]),
            Ft::Dts => self.r.range(0, 3),
            _ => self.r.below(3),
        };
        for _ in 0..n {
            if let Some(i) = self.include(idx) {
                tops.push(i);
            }
        }
        if self.r.pct(6) {
            tops.push(Top::CInclude("dt-bindings/gpio.h".into()));
        }
        if self.r.pct(6) {
            let (a, b) = *self.r.pick(&[("0x1000", "4096"), ("0", "0x0"), ("0xFFFFFFFFFFFFFFFF", "017"), ("8", "18446744073709551615")]);
            tops.push(Top::Memreserve(a.into(), b.into()));
        }
        if self.r.pct(85) {
            let p = self.payload(idx, 0);
            tops.push(Top::Root(p));
        }
        for _ in 0..self.r.below(3) {
            if self.r.pct(self.p.refs) {
                let r = self.reference();
                let p = self.payload(idx, 1);
                tops.push(Top::RefNode { r, p });
            }
        }
        if self.r.pct(7) {
            let r = self.reference();
            tops.push(if self.r.pct(50) { Top::DelNode(r) } else { Top::Omit(r) });
        }
        if self.r.pct(8) {
            if let Some(i) = self.include(idx) {
                tops.push(i);
            }
        }
        let style = self.style();
        let mut d = Doc { tops, style, ..Default::default() };
        if self.r.pct(self.p.errors) {
            self.break_doc(&mut d, idx);
        }
        if (self.r.below(1000) as u32) < self.p.many {
            d = if self.r.pct(30) { self.high(idx) } else { self.many() };
        } else if self.r.pct(self.p.deep) {
            d = self.deep();
        } else if self.r.pct(self.p.fuzzy) {
            d = self.fuzzy(&d);
        } else if self.r.pct(self.p.torn) {
            self.tear(&mut d);
        }
        d
    }

    /// A document with a great number of problems, around the limits at which counters overflow,
    /// buffers fill up and lists get cut off
    fn many(&mut self) -> Doc {
        let k = if self.p.cli == 100 {
            *self.r.pick(&[10usize, 20, 21, 32, 50, 64, 99, 100, 101, 127, 128, 129, 200, 255, 256, 256, 256, 257, 500, 512, 512, 768, 1000, 1024])
        } else {
            *self.r.pick(&[10usize, 20, 21, 32, 50, 64, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 1001])
        };
        let unresolved = |i: usize| Ref::Label(format!("gone{i}"));
        let items = match self.r.below(5) {
            // all of them in one line
            0 => vec![Item::Prop {
                label: None,
                name: "all".into(),
                vals: vec![Val::Cells { bits: None, cells: (0..k).map(|i| CellS::Ref(unresolved(i))).collect() }],
                omit: false,
                nosemi: false,
            }],
            // one in every property
            1 | 2 => (0..k)
                .map(|i| Item::Prop { label: None, name: format!("p{i}"), vals: vec![Val::Ref(unresolved(i))], omit: false, nosemi: false })
                .collect(),
            // no problem here, but the labels that are missing elsewhere
            3 => (0..k)
                .map(|i| Item::Node {
                    label: Some(format!("gone{i}")),
                    name: format!("n{i}"),
                    unit: None,
                    omit: false,
                    p: Payload::default(),
                })
                .collect(),
            // syntax errors
            _ => (0..k)
                .map(|i| Item::Prop { label: None, name: format!("p{i}"), vals: vec![], omit: false, nosemi: true })
                .collect(),
        };
        let style = self.style();
        Doc { tops: vec![Top::Header, Top::Root(Payload { items, nosemi: false })], style, ..Default::default() }
    }

    /// Many nodes within each other, with something to look for at every level
    fn high(&mut self, idx: usize) -> Doc {
        let n = *self.r.pick(&[10usize, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 80, 100, 101, 110]);
        let label = |i: usize| Some(if i % 7 == 0 { format!("l{idx}_{}", i / 7 % 3) } else { format!("t{i}") });
        let every = self.r.pct(50);
        let mut p = Payload::default();
        for i in (0..n).rev() {
            let mut items = vec![];
            if every || p.items.is_empty() {
                let to = if self.r.pct(50) { format!("t{}", self.r.below(n)) } else { "gone".into() };
                items.push(Item::Prop { label: None, name: format!("p{i}"), vals: vec![Val::Ref(Ref::Label(to))], omit: false, nosemi: false });
            }
            items.push(Item::Node { label: label(i), name: format!("n{i}"), unit: None, omit: false, p });
            p = Payload { items, nosemi: false };
        }
        let mut tops = vec![Top::Header];
        if self.r.pct(50) {
            tops.extend(self.include(idx));
        }
        tops.push(Top::Root(p));
        let style = self.style();
        Doc { tops, style, ..Default::default() }
    }

    fn deep(&mut self) -> Doc {
        let n = *self.r.pick(&[60usize, 127, 128, 129, 600, 5000]);
        let (o, c) = *self.r.pick(&[("a{", "};"), ("b: x{", "};"), ("a{", ""), ("y=<", ">;"), ("(", ")"), ("/", ""), ("a{", "}")]);
        Doc {
            raw: Some(format!("/dts-v1/;\n/ {{{}{}}};", o.repeat(n), c.repeat(n))),
            ..Default::default()
        }
    }

    pub fn tear(&mut self, d: &mut Doc) {
        let n = d.full_len();
        if n == 0 {
            return;
        }
        let cut = if self.r.pct(35) {
            let ends = d.top_ends();
            if ends.is_empty() {
                self.r.below(n)
            } else {
                let e = *self.r.pick(&ends) as i64;
                // often right in front of the last character of an item
                let by = if self.r.pct(40) { -1 } else { self.r.range(0, 6) as i64 - 3 };
                (e + by).clamp(0, n as i64 - 1) as usize
            }
        } else {
            self.r.below(n)
        };
        d.cut = Some(cut);
    }

    /// Arbitrary damage: nothing is known about such a text, except that the service survives.
    fn fuzzy(&mut self, d: &Doc) -> Doc {
        let mut t: Vec<char> = d.text().chars().collect();
        const BITS: &[&str] = &[
            "/", "*", "/*", "*/", "//", "\"", "&", "&{", "}", "{", "<", ">", ";", "=", "@", ":", "\\", "\u{0}", "\u{fc}",
            "\u{1F600}", "/include/", "/dts-v1/;", "/bits/", "/delete-node/", "0x", "099", "(", ")", "[", "]", ",", "\r", "\n",
            "#include", "/include/ \"\"", "/include/ \"/\"", "&{/}", "&{}", "a:b:c", "/omit-if-no-ref/", "\u{feff}", "\t", "[0g]",
            "/memreserve/ 99999999999999999999 1;", "@@", "a@", "&{/a@}", "/include/ \"\u{0}\"", "&a{b{};};",
        ];
        for _ in 0..1 + self.r.below(5) {
            let n = t.len();
            let at = self.r.below(n + 1);
            match self.r.below(4) {
                0 => {
                    let end = (at + self.r.below(12)).min(n);
                    t.drain(at..end);
                }
                1 => {
                    let s: Vec<char> = self.r.pick(BITS).chars().collect();
                    t.splice(at..at, s);
                }
                2 if n > 1 => {
                    let a = self.r.below(n);
                    let b = (a + self.r.below(30)).min(n);
                    let s: Vec<char> = t[a..b].to_vec();
                    t.splice(at..at, s);
                }
                _ => {
                    let s: Vec<char> = self.r.pick(BITS).chars().collect();
                    let end = (at + s.len()).min(n);
                    t.splice(at..end, s);
                }
            }
        }
        match self.r.below(60) {
            0..=2 => t.insert(0, '\u{feff}'),
            3 => t.push('\u{1a}'),
            4 => t.push('\u{0}'),
            5 => drop(t.pop()),
            _ => {}
        }
        Doc { raw: Some(t.into_iter().collect()), ..Default::default() }
    }

    pub fn payloads(tops: &mut [Top], f: &mut dyn FnMut(&mut Payload)) {
        fn walk(p: &mut Payload, f: &mut dyn FnMut(&mut Payload)) {
            f(p);
            for it in &mut p.items {
                if let Item::Node { p, .. } = it {
                    walk(p, f);
                }
            }
        }
        for t in tops {
            match t {
                Top::Root(p) | Top::RefNode { p, .. } => walk(p, f),
                _ => {}
            }
        }
    }

    fn with_payload(&mut self, d: &mut Doc, f: impl FnOnce(&mut Gen, &mut Payload)) -> bool {
        let mut n = 0;
        Self::payloads(&mut d.tops, &mut |_| n += 1);
        if n == 0 {
            return false;
        }
        let k = self.r.below(n);
        let mut i = 0;
        let mut taken = None;
        Self::payloads(&mut d.tops, &mut |p| {
            if i == k {
                taken = Some(std::mem::take(p));
            }
            i += 1;
        });
        let mut p = taken.unwrap();
        f(self, &mut p);
        let mut i = 0;
        let mut back = Some(p);
        // the replaced payload is empty while it is away: its descendants are not counted again
        Self::payloads(&mut d.tops, &mut |q| {
            if i == k {
                if let Some(p) = back.take() {
                    *q = p;
                    // do not count the restored descendants
                }
            }
            i += 1;
        });
        true
    }

    /// A name near the limits of what is allowed.
    fn odd_name(&mut self) -> String {
        match self.r.below(8) {
            0 => "n".repeat(31),
            1 => "n".repeat(32),
            2 => "n".repeat(33),
            _ => (*self.r.pick(&["b?s", "b#s", "#bus", "n?", "a", "z9", "x_y", "__symbols__"])).to_string(),
        }
    }

    /// Something unusual (right or wrong) within a node.
    fn oddity(&mut self, idx: usize) -> Item {
        let prop = |name: String, vals: Vec<Val>| Item::Prop { label: None, name, vals, omit: false, nosemi: false };
        match self.r.below(10) {
            0 | 1 => {
                let name = if self.r.pct(50) { self.odd_name() } else { "uart".into() };
                let unit = self.r.pick(&["1?0", "#", "", "?1", "1#", "1f", "a,b", "1.0"]).to_string();
                let unit = match self.r.below(10) {
                    0 => "1".repeat(31),
                    1 => "1".repeat(32),
                    2 | 3 => return Item::Node { label: None, name, unit: None, omit: false, p: Payload::default() },
                    _ => unit,
                };
                Item::Node { label: None, name, unit: Some(unit), omit: false, p: Payload::default() }
            }
            2 => prop(self.odd_name(), vec![]),
            3 => Item::DelProp(self.odd_name()),
            4 => {
                let n = self.odd_name();
                Item::DelNode(if self.r.pct(50) { format!("{n}@{}", self.r.pick(&["0", "1?0", ""])) } else { n })
            }
            5 | 6 => {
                let mut path: Vec<String> = vec![];
                for _ in 0..1 + self.r.below(3) {
                    path.push(match self.r.below(3) {
                        0 => self.r.pick(NODES).to_string(),
                        1 => self.odd_name(),
                        _ => self
                            .r
                            .pick(&["uart@1?0", "a b", "s\u{f6}c", "\u{1F600}x", "x\ny", "bus@", "@1", "1x", "a\"b", "bus;", "b//us", " soc", "\u{65e5}@\u{672c}"])
                            .replace("//", "?"),
                    });
                }
                let r = Ref::Path(path);
                prop(
                    "odd-ref".into(),
                    vec![if self.r.pct(50) { Val::Ref(r) } else { Val::Cells { bits: None, cells: vec![CellS::Ref(r)] } }],
                )
            }
            7 => {
                // a long label and a reference to it
                let label = format!("l{idx}{}", "x".repeat(29 + self.r.below(3)));
                let r = Ref::Label(label.clone());
                let vals = vec![Val::Ref(r)];
                let inner = prop("odd-ref".into(), vals);
                let label = if self.r.pct(80) { Some(label) } else { None };
                Item::Node {
                    label,
                    name: "odd".into(),
                    unit: None,
                    omit: false,
                    p: Payload { items: vec![inner], nosemi: false },
                }
            }
            8 => {
                let s = self.r.pick(&["a\\", "\\", "\"", "\\\"", "\"\\", "a\\\\", "\\n", "x\"y\"z"]).to_string();
                prop("odd-str".into(), vec![Val::Str(s), Val::Str("/*".into())])
            }
            _ => {
                let mut bs: Vec<String> = vec![];
                for _ in 0..self.r.below(4) {
                    bs.push(self.r.pick(&["00", "a0", "0a", "ffff", "Ab", "1", "0x00", "12345678"]).to_string());
                }
                prop("odd-bytes".into(), vec![Val::Bytes(bs)])
            }
        }
    }

    pub fn break_doc(&mut self, d: &mut Doc, idx: usize) {
        match self.r.below(18) {
            14..=16 => {
                let it = self.oddity(idx);
                self.with_payload(d, |_, p| p.items.insert(0, it));
            }
            17 => {
                let ns = [0, 1].map(|_| (*self.r.pick(NUMBERS)).to_string());
                let [a, b] = ns;
                let k = self.r.below(d.tops.len() + 1);
                d.tops.insert(k, Top::Memreserve(a, b));
            }
            0 => {
                self.with_payload(d, |_, p| p.nosemi = true);
            }
            1 => {
                self.with_payload(d, |_, p| {
                    p.items.insert(
                        0,
                        Item::Prop {
                            label: None,
                            name: "broken".into(),
                            vals: vec![Val::Str("x".into())],
                            omit: false,
                            nosemi: true,
                        },
                    );
                    // what follows must start with a letter
                    if let Some(Item::Prop { name, .. }) = p.items.get_mut(1) {
                        if name.starts_with('#') {
                            *name = "next".into();
                        }
                    }
                });
            }
            2 => {
                let mut hit = false;
                for t in &mut d.tops {
                    if let Top::Include { semi, .. } = t {
                        *semi = true;
                        hit = true;
                        break;
                    }
                }
                if !hit {
                    d.tops.push(Top::Junk(self.r.pick(JUNK).to_string()));
                }
            }
            3 | 4 => {
                let k = self.r.below(d.tops.len() + 1);
                let j = self.r.pick(JUNK).to_string();
                d.tops.insert(k, Top::Junk(j));
            }
            5 => {
                self.with_payload(d, |g, p| {
                    let name = (*g.r.pick(&["0899", "4294967296", "0xFFFFFFFFF", "9x"])).to_string();
                    p.items.insert(
                        0,
                        Item::Prop {
                            label: None,
                            name: "num".into(),
                            vals: vec![Val::Cells { bits: None, cells: vec![CellS::Num(name)] }],
                            omit: false,
                            nosemi: false,
                        },
                    )
                });
            }
            6 => {
                self.with_payload(d, |_, p| {
                    p.items.push(Item::Node {
                        label: None,
                        name: "last".into(),
                        unit: None,
                        omit: false,
                        p: Payload::default(),
                    });
                    p.items.push(Item::Prop { label: None, name: "late".into(), vals: vec![], omit: false, nosemi: false });
                });
            }
            7 => {
                self.with_payload(d, |_, p| {
                    p.items.insert(
                        0,
                        Item::Prop {
                            label: None,
                            name: "compatible".into(),
                            vals: vec![
                                Val::Str("a".into()),
                                Val::Cells { bits: None, cells: vec![CellS::Num("1".into())] },
                            ],
                            omit: false,
                            nosemi: false,
                        },
                    )
                });
            }
            8 => {
                self.with_payload(d, |_, p| {
                    p.items.insert(
                        0,
                        Item::Prop {
                            label: Some("bad?label".into()),
                            name: "y".into(),
                            vals: vec![],
                            omit: false,
                            nosemi: false,
                        },
                    )
                });
            }
            9 => {
                self.with_payload(d, |_, p| {
                    p.items.insert(
                        0,
                        Item::Prop {
                            label: None,
                            name: "a-property-name-that-is-much-too-long".into(),
                            vals: vec![],
                            omit: false,
                            nosemi: false,
                        },
                    )
                });
            }
            10 => {
                self.with_payload(d, |g, p| {
                    let b = g.r.pick(&["abc", "0g", "0"]).to_string();
                    p.items.insert(
                        0,
                        Item::Prop {
                            label: None,
                            name: "bytes".into(),
                            vals: vec![Val::Bytes(vec!["00".into(), b])],
                            omit: false,
                            nosemi: false,
                        },
                    )
                });
            }
            11 => {
                self.with_payload(d, |_, p| {
                    p.items.insert(
                        0,
                        Item::Prop { label: None, name: "opt".into(), vals: vec![], omit: true, nosemi: false },
                    )
                });
            }
            12 => {
                let k = self.r.below(d.tops.len() + 1);
                d.tops.insert(k, Top::Header);
            }
            _ => {
                let r = Ref::Label(format!("nowhere{idx}"));
                d.tops.push(Top::RefNode { r, p: Payload::default() });
            }
        }
        Self::fix_missing(d);
    }

    /// A file extends a node of the file that includes it, which then refers to the new node by its
    /// path.
    fn graft(&mut self, docs: &mut [Doc]) {
        let n = docs.len();
        if n < 2 {
            return;
        }
        let i = self.r.below(n - 1);
        let j = i + 1 + self.r.below(n - i - 1);
        if [i, j].iter().any(|k| docs[*k].raw.is_some() || docs[*k].cut.is_some() || docs[*k].tops.len() > 40) {
            return;
        }
        fn walk(p: &Payload, path: &mut Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
            for it in &p.items {
                if let Item::Node { label, name, unit, p, .. } = it {
                    path.push(match unit {
                        Some(u) => format!("{name}@{u}"),
                        None => name.clone(),
                    });
                    if let Some(l) = label {
                        out.push((l.clone(), path.clone()));
                    }
                    walk(p, path, out);
                    path.pop();
                }
            }
        }
        let mut labeled = vec![];
        for t in &docs[i].tops {
            if let Top::Root(p) = t {
                walk(p, &mut vec![], &mut labeled);
            }
        }
        if labeled.is_empty() {
            return;
        }
        let (label, mut path) = self.r.pick(&labeled).clone();
        let full = self.r.pick(NODES).to_string();
        let (name, unit) = match full.split_once('@') {
            Some((n, u)) => (n.to_string(), Some(u.to_string())),
            None => (full.clone(), None),
        };
        path.push(full);
        let own = if self.r.pct(50) { Some(self.r.pick(&idx_labels(j)).clone()) } else { None };
        let own_label = own.clone();
        let node = Item::Node { label: own, name, unit, omit: false, p: Payload::default() };
        docs[j].tops.push(Top::RefNode { r: Ref::Label(label), p: Payload { items: vec![node], nosemi: false } });
        // ... and extends that one, too
        let mut behind = None;
        if let Some(own) = own_label {
            if self.r.pct(50) {
                let label = if self.r.pct(50) { Some(self.r.pick(&idx_labels(j)).clone()) } else { None };
                let node = Item::Node { label, name: "bus".into(), unit: None, omit: false, p: Payload::default() };
                path.push("bus".into());
                let t = Top::RefNode { r: Ref::Label(own), p: Payload { items: vec![node], nosemi: false } };
                if self.r.pct(70) {
                    docs[j].tops.push(t)
                } else {
                    behind = Some(t)
                }
            }
        }
        // mostly included directly
        let mut via = i;
        if j > i + 1 && self.r.pct(30) {
            let k = i + 1 + self.r.below(j - i - 1);
            if docs[k].raw.is_none() && docs[k].cut.is_none() && docs[k].tops.len() <= 40 {
                let (from, to) = (self.files[k].clone(), self.files[j].clone());
                let name = self.spell(&from, &to);
                docs[k].tops.push(Top::Include { name, semi: false });
                Self::fix_missing(&mut docs[k]);
                via = k;
            }
        }
        let (from, to) = (self.files[i].clone(), self.files[if via == i { j } else { via }].clone());
        let name = self.spell(&from, &to);
        let value = Item::Prop {
            label: None,
            name: "grafted".into(),
            vals: vec![Val::Ref(Ref::Path(path.clone()))],
            omit: false,
            nosemi: false,
        };
        let value = Payload { items: vec![value], nosemi: false };
        docs[i].tops.push(Top::Include { name, semi: false });
        docs[i].tops.extend(behind);
        docs[i].tops.push(match self.r.below(3) {
            0 => Top::Root(value),
            1 => Top::RefNode { r: Ref::Path(path), p: value },
            _ => Top::RefNode { r: Ref::Path(path), p: Payload::default() },
        });
        Self::fix_missing(&mut docs[i]);
        Self::fix_missing(&mut docs[j]);
    }

    /// The error recovery after a missing semicolon is only clean in front of some items.
    fn fix_missing(d: &mut Doc) {
        let mut missing = false;
        Self::payloads(&mut d.tops, &mut |p| {
            // a property without semicolon must be followed by a name that starts like a word
            for k in 0..p.items.len() {
                let odd = match p.items.get(k + 1) {
                    None => false,
                    Some(
                        Item::Prop { name, .. } | Item::Node { name, .. } | Item::DelNode(name) | Item::DelProp(name),
                    ) => !name.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_'),
                };
                if let Item::Prop { nosemi, .. } = &mut p.items[k] {
                    *nosemi &= !odd;
                }
            }
            missing |= p.nosemi || p.items.iter().any(|i| matches!(i, Item::Prop { nosemi: true, .. }))
        });
        // C style includes are only recognized where a new item can start
        if missing {
            d.tops.retain(|t| !matches!(t, Top::CInclude(_)));
        }
    }

    /// A plausible edit of a document.
    pub fn edit(&mut self, d: &Doc, idx: usize) -> Doc {
        self.cur = idx;
        if d.raw.is_some() || d.bytes.is_some() || d.tops.is_empty() || self.r.pct(12) {
            return self.doc(idx);
        }
        let mut d = d.clone();
        if d.cut.is_some() && self.r.pct(70) {
            d.cut = None;
        }
        for _ in 0..1 + self.r.below(2) {
            let kind = if self.cyc && self.r.pct(35) { self.r.below(4) } else { self.r.below(16) };
            match kind {
                0 | 1 => {
                    if let Some(i) = self.include(idx) {
                        let k = d.tops.iter().position(|t| !matches!(t, Top::Header | Top::Plugin)).unwrap_or(d.tops.len());
                        let k = if self.r.pct(80) { k } else { self.r.below(d.tops.len() + 1) };
                        d.tops.insert(k, i);
                    }
                }
                2 | 3 => {
                    let v: Vec<usize> =
                        (0..d.tops.len()).filter(|i| matches!(d.tops[*i], Top::Include { .. })).collect();
                    if !v.is_empty() {
                        let k = *self.r.pick(&v);
                        d.tops.remove(k);
                    }
                }
                4 => {
                    let n = self.r.below(4) as u8;
                    d.style.lead = (d.style.lead + 1 + n) % 8;
                }
                5 => d.style = self.style(),
                6 | 7 => {
                    let n = self.node(idx, 1);
                    self.with_payload(&mut d, |_, p| p.items.push(n));
                }
                8 => {
                    // remove an item
                    self.with_payload(&mut d, |g, p| {
                        if !p.items.is_empty() {
                            let k = g.r.below(p.items.len());
                            p.items.remove(k);
                            if let Some(Item::Prop { nosemi, .. }) = if k > 0 { p.items.get_mut(k - 1) } else { None } {
                                *nosemi = false;
                            }
                        }
                    });
                }
                9 => {
                    // rename a label
                    let ls = idx_labels(idx);
                    self.with_payload(&mut d, |g, p| {
                        for it in &mut p.items {
                            if let Item::Node { label, .. } = it {
                                *label = if g.r.pct(50) { Some(g.r.pick(&ls).clone()) } else { None };
                                break;
                            }
                        }
                    });
                }
                10 => {
                    let r = self.reference();
                    let p = self.payload(idx, 2);
                    d.tops.push(Top::RefNode { r, p });
                }
                11 => {
                    if d.tops.is_empty() {
                        break;
                    }
                    let k = self.r.below(d.tops.len());
                    d.tops.remove(k);
                }
                12 => {
                    if self.r.pct(self.p.errors * 2) {
                        self.break_doc(&mut d, idx)
                    }
                }
                13 => {
                    // repair
                    d.tops.retain(|t| !matches!(t, Top::Junk(_)));
                    Self::payloads(&mut d.tops, &mut |p| {
                        p.nosemi = false;
                        for i in &mut p.items {
                            if let Item::Prop { nosemi, .. } = i {
                                *nosemi = false;
                            }
                        }
                    });
                    for t in &mut d.tops {
                        if let Top::Include { semi, .. } = t {
                            *semi = false;
                        }
                    }
                }
                14 => {
                    let p = self.prop();
                    self.with_payload(&mut d, |_, q| {
                        if !matches!(q.items.first(), Some(Item::Prop { nosemi: true, .. })) {
                            q.items.insert(0, p)
                        }
                    });
                }
                _ => {
                    let v = self.val();
                    self.with_payload(&mut d, |_, q| {
                        if let Some(Item::Prop { vals, .. }) = q.items.first_mut() {
                            vals.push(v);
                        }
                    });
                }
            }
        }
        Self::fix_missing(&mut d);
        if d.cut.is_none() {
            if self.r.pct(self.p.torn) {
                self.tear(&mut d);
            } else if self.r.pct(self.p.fuzzy) {
                return self.fuzzy(&d);
            }
        }
        d
    }
}

pub fn relative(from: &str, to: &str, base: &str) -> String {
    let a: Vec<&str> = from.split('/').filter(|s| !s.is_empty()).collect();
    let b: Vec<&str> = to.split('/').filter(|s| !s.is_empty()).collect();
    let mut k = 0;
    while k < a.len() && k < b.len() && a[k] == b[k] {
        k += 1;
    }
    let mut s = String::new();
    for _ in k..a.len() {
        s.push_str("../");
    }
    for c in &b[k..] {
        s.push_str(c);
        s.push('/');
    }
    s.push_str(base);
    s
}

const ERRNOS: &[i32] = &[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENOENT, libc::ENFILE, libc::ENOMEM, libc::ESTALE];

pub fn generate(id: &str, seed: u64) -> Plan {
    let mut p = profile(id);
    let mut r = Rng::new(seed);
    // swarm: switch some features off per run
    if r.pct(40) {
        p.torn = 0;
    }
    if r.pct(40) {
        p.errors /= 4;
    }
    if r.pct(30) {
        p.broken = 0;
    }
    if r.pct(50) {
        p.kill = 0;
    }
    if id != "C07" && r.pct(60) {
        p.transient = 0;
    }
    if p.fuzzy > 0 && r.pct(50) {
        p.fuzzy = 0;
    }
    if r.pct(50) {
        p.deep = 0;
    }
    let agree_reopen = id == "C20" && r.pct(60);
    if id == "C20" && !agree_reopen {
        // (files that are included are not read again)
        p.disk = 0;
    }
    let cyc = r.pct(p.cycles);
    let cli = r.pct(p.cli);

    // universe of files: the first one is a source file
    let n = r.range(p.files.0, p.files.1);
    let mut pool: Vec<String> = POOL.iter().map(|s| s.to_string()).collect();
    let mut files = vec![pool.remove(0)];
    let multi = r.pct(p.multi_dir);
    if !multi {
        pool.retain(|f| f.starts_with("/w/main/"));
    }
    while files.len() < n && !pool.is_empty() {
        let k = if r.pct(60) { 0 } else { r.below(pool.len()) };
        files.push(pool.remove(k));
    }
    // configured include directories
    let mut dirs: Vec<String> = DIRS.iter().map(|s| s.to_string()).collect();
    dirs.push("../inc1".into());
    dirs.push("/w/lnk".into());
    let late = files.iter().any(|f| f.starts_with("/w/none/"));
    let pick_dirs = |r: &mut Rng, max: usize| -> Vec<String> {
        let n = if max > 0 && r.pct(4) { r.range(3, 9) } else { r.below(max + 1) };
        (0..n)
            .map(|_| {
                if late && r.pct(40) {
                    r.pick(&["/w/none", "../none"]).to_string()
                } else if r.pct(70) {
                    r.pick(&["/w/inc1", "/w/inc2"]).to_string()
                } else {
                    r.pick(&dirs).clone()
                }
            })
            .collect()
    };
    let cli_dirs = if multi { pick_dirs(&mut r, 2) } else { vec![] };
    let init = if multi || r.pct(20) { Some(pick_dirs(&mut r, 2)) } else { None };
    let mut incs = cli_dirs.clone();
    incs.extend(init.clone().unwrap_or_default());

    let mut g = Gen {
        r,
        p: p.clone(),
        files: files.clone(),
        incs,
        links: vec![],
        broken_names: vec![
            "missing.dtsi".into(),
            "../none/x.dtsi".into(),
            "sub".into(),
            ".".into(),
            "loop.dtsi".into(),
            "dangling.dtsi".into(),
            "binary.dtsi".into(),
            "denied.dtsi".into(),
            "eio.dtsi".into(),
            "board.dts/x.dtsi".into(),
            "f\u{fc}nf.dtsi".into(),
        ],
        cyc,
        cur: 0,
    };
    let mut disk: Vec<(String, Entry)> = vec![];
    for d in DIRS.iter().filter(|d| **d != "/w/none") {
        disk.push((d.to_string(), Entry::Dir));
    }
    disk.push(("/w/lnk".into(), Entry::Link("inc2".into())));
    if g.r.pct(35) {
        let t = g.r.pick(&files).clone();
        let ext = t.rsplit('.').next().unwrap().to_string();
        // it is the file that counts, not the name of the link
        let ext = if g.r.pct(20) { g.r.pick(&["dts", "dtsi", "h", "dtso"]).to_string() } else { ext };
        let dir = g.r.pick(&["/w/main", "/w/inc1", "/w/cwd"]).to_string();
        let l = format!("{dir}/alias.{ext}");
        let target = relative(&dir, crate::model::parent(&t), t.rsplit('/').next().unwrap());
        disk.push((l.clone(), Entry::Link(target)));
        g.links.push((l, t));
    }
    let mut docs: Vec<Doc> = (0..files.len()).map(|i| g.doc(i)).collect();
    if g.r.pct(if g.p.refs > 40 { 12 } else { 4 }) {
        g.graft(&mut docs);
    }
    let has_fuzzy = |d: &Doc| d.raw.is_some();
    let mut any_fuzzy = docs.iter().any(has_fuzzy);
    for (i, f) in files.iter().enumerate() {
        // this directory is created later, if at all
        let late = f.starts_with("/w/none/") && g.r.pct(85);
        if !late && !g.r.pct(p.unsaved) || (cli && i == 0) {
            // on disk, documents may be cut at any byte
            let mut d = docs[i].clone();
            if d.raw.is_none() && g.r.pct(p.torn / 2) {
                g.tear(&mut d);
            }
            disk.push((f.clone(), Entry::File(d)));
        }
    }
    if p.broken > 0 {
        disk.push(("/w/main/loop.dtsi".into(), Entry::Link("loop.dtsi".into())));
        disk.push(("/w/main/dangling.dtsi".into(), Entry::Link("gone/nothing.dtsi".into())));
        disk.push((
            "/w/main/binary.dtsi".into(),
            Entry::File(Doc { bytes: Some(vec![0x2f, 0x20, 0xff, 0xfe, 0x00, 0xc3, 0x28]), ..Default::default() }),
        ));
        let plain = Doc { tops: vec![Top::Root(Payload::default())], ..Default::default() };
        disk.push(("/w/main/denied.dtsi".into(), Entry::File(plain.clone())));
        disk.push(("/w/main/eio.dtsi".into(), Entry::File(plain)));
    }

    let masked = g.r.pct(p.masked);
    let slow = g.r.pct(p.slow);
    let cap = if slow { *g.r.pick(&[16usize, 64, 256, 1024, 4096]) } else { 65536 };
    let (cli_e, cli_s) = (if masked { 60 } else { 0 }, if masked { 120 } else { 0 });

    let mut ops: Vec<Op> = vec![];
    if p.broken > 0 {
        ops.push(Op::Disk(DiskOp::Break("/w/main/denied.dtsi".into(), Bad::Denied)));
        let off = g.r.below(6);
        ops.push(Op::Disk(DiskOp::Break("/w/main/eio.dtsi".into(), Bad::ReadError(off))));
    }
    let mut open: Vec<usize> = vec![];
    let mut on_disk: Vec<bool> = files.iter().map(|f| disk.iter().any(|(p, _)| p == f)).collect();
    let mut broken: Vec<String> = vec![];
    let mut fd_limited = false;
    let mut transient = false;
    let mut cfg_now = init.clone();

    let n_ops = if g.r.below(1000) < 3 { g.r.range(150, 400) } else { g.r.range(p.ops.0, p.ops.1) };
    if !cli {
        // open the source file, mostly
        if g.r.pct(90) {
            ops.push(Op::Open { path: files[0].clone(), doc: docs[0].clone() });
            open.push(0);
        }
        while ops.len() < n_ops {
            let w = [
                if open.is_empty() { 0 } else { p.change },
                if open.len() < files.len() { p.open } else { 0 },
                if open.is_empty() { 0 } else { p.close },
                p.ask,
                p.config,
                if any_fuzzy { p.disk / 4 } else { p.disk },
                if transient { 0 } else { p.transient },
                p.barrier,
                p.cancel,
                p.junk,
                p.save,
                p.kill,
                if transient { 12 } else { 0 },
            ];
            let total: u32 = w.iter().sum();
            let mut x = g.r.below(total as usize) as u32;
            let mut k = 0;
            while x >= w[k] {
                x -= w[k];
                k += 1;
            }
            match k {
                0 => {
                    let i = *g.r.pick(&open);
                    let mut ds = vec![];
                    if g.r.pct(10) {
                        ds.push(g.doc(i));
                    }
                    let same = g.r.pct(8);
                    let d = if same { docs[i].clone() } else { g.edit(&docs[i], i) };
                    any_fuzzy |= has_fuzzy(&d);
                    docs[i] = d.clone();
                    ds.push(d);
                    ops.push(Op::Change { path: files[i].clone(), docs: ds });
                    if g.r.pct(p.ask / 2) {
                        // is the answer still the same?
                        (0..1 + g.r.below(3)).for_each(|back| ops.push(Op::Again { back: back as u32 }))
                    }
                }
                1 => {
                    let v: Vec<usize> = (0..files.len()).filter(|i| !open.contains(i)).collect();
                    let i = *g.r.pick(&v);
                    if g.r.pct(35) {
                        docs[i] = g.edit(&docs[i].clone(), i);
                    }
                    any_fuzzy |= has_fuzzy(&docs[i]);
                    ops.push(Op::Open { path: files[i].clone(), doc: docs[i].clone() });
                    open.push(i);
                }
                2 => {
                    let k = g.r.below(open.len());
                    let i = open.remove(k);
                    if !transient && !any_fuzzy && g.r.pct(30) && p.disk > 0 {
                        // saved before it is closed
                        ops.push(Op::Disk(DiskOp::Put(files[i].clone(), Entry::File(docs[i].clone()))));
                        on_disk[i] = true;
                    }
                    ops.push(Op::Close { path: files[i].clone() });
                }
                3 => {
                    let i = if open.is_empty() || g.r.pct(6) { g.r.below(files.len()) } else { *g.r.pick(&open) };
                    let q = *g.r.pick(&[Query::Hover, Query::Hover, Query::Definition, Query::Definition, Query::Symbols]);
                    let (pick, off) = (g.r.below(1000) as u32, g.r.below(1000) as u32);
                    if g.r.pct(30) {
                        ops.push(Op::Again { back: pick % 5 })
                    } else {
                        ops.push(Op::Ask { q, path: files[i].clone(), pick, off })
                    }
                }
                4 => {
                    let c = pick_dirs(&mut g.r, 3);
                    cfg_now = Some(c.clone());
                    g.incs = cli_dirs.clone();
                    g.incs.extend(c.clone());
                    ops.push(Op::Config { includes: c });
                }
                5 => {
                    if transient {
                        continue;
                    }
                    let mut i = g.r.below(files.len());
                    let mut what = g.r.below(10);
                    if let Some(l) = (0..files.len()).find(|i| files[*i].starts_with("/w/none/") && !on_disk[*i]) {
                        if g.r.pct(50) {
                            // a directory that did not exist when it was configured
                            (i, what) = (l, 0);
                        }
                    }
                    match what {
                        0..=2 => {
                            if open.contains(&i) || !on_disk[i] {
                                // another content underneath an open document, or a new file
                                let d = if open.contains(&i) { g.doc(i) } else { docs[i].clone() };
                                if has_fuzzy(&d) {
                                    continue;
                                }
                                ops.push(Op::Disk(DiskOp::Put(files[i].clone(), Entry::File(d))));
                                on_disk[i] = true;
                            }
                        }
                        3 | 4 => {
                            if on_disk[i] {
                                ops.push(Op::Disk(DiskOp::Remove(files[i].clone())));
                                on_disk[i] = false;
                            }
                        }
                        5 | 6 => {
                            let b = if g.r.pct(50) { Bad::Denied } else { Bad::ReadError(g.r.below(40)) };
                            ops.push(Op::Disk(DiskOp::Break(files[i].clone(), b)));
                            broken.push(files[i].clone());
                        }
                        7 | 8 => {
                            if let Some(f) = broken.pop() {
                                ops.push(Op::Disk(DiskOp::Repair(f)));
                            }
                        }
                        _ => {
                            fd_limited = !fd_limited;
                            ops.push(Op::Disk(DiskOp::FdLimit(fd_limited)));
                        }
                    }
                }
                6 => {
                    let n = 1 + g.r.below(2);
                    for _ in 0..n {
                        let after = g.r.below(14) as u32;
                        let call = *g.r.pick(&[CallS::Any, CallS::Realpath, CallS::Open, CallS::Read]);
                        let errno = *g.r.pick(ERRNOS);
                        let remove = if g.r.pct(25) { Some(g.r.pick(&files).clone()) } else { None };
                        ops.push(Op::Transient { after, call, errno, remove });
                    }
                    transient = true;
                    // something that makes the server use the disk
                    if !open.is_empty() {
                        let i = *g.r.pick(&open);
                        ops.push(Op::Change { path: files[i].clone(), docs: vec![docs[i].clone()] });
                    }
                }
                7 => ops.push(Op::Barrier),
                8 => ops.push(Op::Cancel),
                9 => {
                    let j = gen_junk(&mut g, &files, &open);
                    ops.push(Op::Junk(j))
                }
                10 => ops.push(Op::Save { path: files[*g.r.pick(&if open.is_empty() { vec![0] } else { open.clone() })].clone() }),
                11 => {
                    let after = g.r.below(40) as u32;
                    ops.push(Op::Kill { after })
                }
                _ => {
                    transient = false;
                    ops.push(Op::Heal);
                    open = (0..files.len()).collect();
                }
            }
        }
        if transient {
            ops.push(Op::Heal);
            open = (0..files.len()).collect();
        }
        let _ = cfg_now;
        if g.r.pct(50) {
            // final questions
            ops.push(Op::Barrier);
            for _ in 0..3 {
                if open.is_empty() {
                    break;
                }
                let i = *g.r.pick(&open);
                let q = *g.r.pick(&[Query::Hover, Query::Definition, Query::Symbols]);
                let (pick, off) = (g.r.below(1000) as u32, g.r.below(1000) as u32);
                ops.push(Op::Ask { q, path: files[i].clone(), pick, off });
            }
            for back in 3..3 + g.r.below(4) {
                ops.push(Op::Again { back: back as u32 })
            }
        }
    }
    let pre = if p.junk > 0 && g.r.pct(30) {
        (0..1 + g.r.below(2)).map(|_| gen_junk(&mut g, &files, &[])).collect()
    } else {
        vec![]
    };
    let end = match g.r.below(10) {
        _ if p.twin || id == "C20" => End::Eof,
        0..=3 => End::Eof,
        4..=6 => End::Shutdown,
        7 => End::TornEof,
        _ => End::BusyEof,
    };
    let twin = if p.twin && !cli {
        let kill = match g.r.below(100) {
            0..=34 => None,
            35..=59 => Some(g.r.below(300) as u32),
            _ => Some(crate::run::AT_THE_END),
        };
        Some((g.r.next() >> 8, g.r.next() >> 8, kill))
    } else {
        None
    };
    let cli_run = if cli {
        let file = match g.r.below(20) {
            0 => "/w/main/missing.dts".to_string(),
            1 => "/w/main".to_string(),
            2 => "../main/board.dts".to_string(),
            3 => {
                let i = g.r.below(files.len());
                files[i].clone()
            }
            _ => files[0].clone(),
        };
        let fault = g.r.pct(20);
        Some(CliRun {
            file,
            include: cli_dirs.clone(),
            fd_limit: p.broken > 0 && g.r.pct(3),
            transient: if p.masked > 30 && g.r.pct(15) {
                let after = g.r.below(10) as u32;
                let call = *g.r.pick(&[CallS::Any, CallS::Realpath, CallS::Open, CallS::Read]);
                let remove = if g.r.pct(25) { Some(g.r.pick(&files).clone()) } else { None };
                Some((after, call, *g.r.pick(ERRNOS), remove))
            } else {
                None
            },
            out_fault: if id == "C11" && fault {
                let at = if g.r.pct(50) { 0 } else { g.r.below(300) };
                Some((at, *g.r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO])))
            } else {
                None
            },
            out_eintr: cli_e,
            out_short: cli_s,
            bad_args: if g.r.pct(3) { 1 + g.r.below(3) as u8 } else { 0 },
        })
    } else {
        None
    };
    let mut plan = Plan {
        profile: id.to_string(),
        files: files.clone(),
        cli: cli_dirs,
        bad_init: if p.junk > 0 && init.is_none() && g.r.pct(40) { Some(g.r.below(BAD_CONFIGS) as u8) } else { None },
        init,
        pre,
        disk,
        ops,
        end,
        post: if p.junk > 0 && g.r.pct(40) { 1 + g.r.below(3) as u8 } else { 0 },
        cap,
        eintr: if masked { 60 } else { 0 },
        short: if masked { 150 } else { 0 },
        short_write: if g.r.pct(30) { 200 } else { 0 },
        entropy: g.r.next() >> 8,
        twin,
        cli_run,
        agree: None,
        chain: 0,
        chain_loop: false,
        chain_skip: 0,
    };
    if g.r.below(1000) < p.chain as usize {
        add_chain(&mut g, &mut plan);
    }
    if id == "C20" {
        let on_disk: Vec<String> = plan.files.iter().filter(|f| plan.disk.iter().any(|(p, _)| p == *f)).cloned().collect();
        let file = if on_disk.is_empty() || g.r.pct(30) { g.r.pick(&plan.files).clone() } else { g.r.pick(&on_disk).clone() };
        let spelling = match g.r.below(6) {
            0 => relative(crate::run::CWD, crate::model::parent(&file), file.rsplit('/').next().unwrap()),
            1 => file.replace("/w/", "/w/main/../"),
            2 | 3 => g.links.iter().find(|l| l.1 == file).map(|l| l.0.clone()).unwrap_or(file.clone()),
            _ => file.clone(),
        };
        plan.agree = Some(Agree { seed: g.r.next() >> 8, entropy: g.r.next() >> 8, file, spelling, reopen: agree_reopen });
    }
    plan
}

/// Includes a long chain of further files.
fn add_chain(g: &mut Gen, plan: &mut Plan) {
    let long = matches!(plan.profile.as_str(), "C01" | "C11") && g.r.pct(12);
    plan.chain_loop = !long && g.r.pct(g.p.cycles);
    plan.chain = match long {
        true => 4000,
        false if g.r.pct(5) => *g.r.pick(&[100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300]),
        false => g.r.range(6, 70) as u32,
    };
    plan.chain_skip = if !long && g.r.pct(40) { g.r.range(1, 3) as u32 } else { 0 };
    if long {
        plan.ops.truncate(6);
        plan.cap = 65536;
        plan.short_write = 0;
        plan.eintr = 0;
        plan.short = 0;
    }
    let entry = if g.r.pct(70) { 0 } else { g.r.below(6) };
    let (refer, all) = (g.r.pct(60), g.r.pct(60));
    let first = plan.files[0].clone();
    let add = |g: &mut Gen, d: &mut Doc| {
        if d.raw.is_some() || d.bytes.is_some() || (!all && g.r.pct(30)) {
            return;
        }
        let at = d.tops.iter().position(|t| !matches!(t, Top::Header | Top::Plugin)).unwrap_or(d.tops.len());
        d.tops.insert(at, Top::Include { name: format!("../deep/c{entry}.dtsi"), semi: false });
        if refer {
            d.tops.push(Top::RefNode { r: Ref::Label("deepest".into()), p: Payload::default() });
        }
        if let Some(c) = d.cut {
            let n = d.full_len();
            d.cut = Some((c + g.r.below(30)).min(n - 1));
        }
    };
    for (p, e) in &mut plan.disk {
        if let (true, Entry::File(d)) = (*p == first, e) {
            add(g, d)
        }
    }
    let mut at = vec![];
    for (i, o) in plan.ops.iter_mut().enumerate() {
        match o {
            Op::Open { path, doc } if *path == first => {
                add(g, doc);
                at.push(i + 1)
            }
            Op::Change { path, docs } if *path == first => docs.iter_mut().for_each(|d| add(g, d)),
            _ => {}
        }
    }
    // A link of the chain is edited
    if plan.cli_run.is_none() && g.r.pct(60) {
        let path = format!("/w/deep/c{}.dtsi", plan.chain as usize / 2 + g.r.below(3));
        let i = at.first().copied().unwrap_or(0);
        let mut doc = chain_file(plan, plan.chain / 2);
        if g.r.pct(60) {
            doc.tops[0] = Top::Root(Payload::default());
        }
        plan.ops.insert(i, Op::Open { path: path.clone(), doc });
        if g.r.pct(60) {
            let j = i + 1 + g.r.below(plan.ops.len() - i);
            plan.ops.insert(j, Op::Close { path });
        }
    }
}

/// A file of the chain.
pub fn chain_file(plan: &Plan, i: u32) -> Doc {
    let next = if i + 1 < plan.chain {
        Top::Include { name: format!("c{}.dtsi", i + 1), semi: false }
    } else if plan.chain_loop {
        Top::Include { name: "c0.dtsi".into(), semi: false }
    } else {
        let n = Item::Node { label: Some("deepest".into()), name: "bottom".into(), unit: None, omit: false, p: Payload::default() };
        Top::Root(Payload { items: vec![n], nosemi: false })
    };
    let mut tops = vec![next];
    if plan.chain_skip > 0 && i + 1 + plan.chain_skip < plan.chain {
        tops.push(Top::Include { name: format!("c{}.dtsi", i + 1 + plan.chain_skip), semi: false });
    }
    Doc { tops, ..Default::default() }
}

/// How many kinds of unusable settings there are
pub const BAD_CONFIGS: usize = 10;

fn gen_junk(g: &mut Gen, files: &[String], open: &[usize]) -> Junk {
    match g.r.below(16) {
        0..=3 => Junk::BadUri {
            kind: g.r.below(70) as u8,
            uri: {
                // Mostly something that looks like one of the documents
                let path = super::run::text_uri(g.r.pick(files), 0)["file://".len()..].to_string();
                match g.r.below(12) {
                    0 => "untitled:Untitled-1".into(),
                    1 => "http://example.com/a.dts".into(),
                    2 => "data:text/plain,hi".into(),
                    3 => "file://host/w/main/board.dts".into(),
                    4 | 5 => format!("git:{path}?x"),
                    6 | 7 => format!("untitled:{path}"),
                    8 => format!("vscode-vfs://github{path}"),
                    9 => format!("file://host{path}"),
                    10 => format!("https://example.com{path}#L1"),
                    _ => format!("inmemory://model{path}"),
                }
            },
        },
        4 | 5 => Junk::BadParams { kind: g.r.below(8) as u8 },
        13..=15 => Junk::BadConfig { kind: g.r.below(BAD_CONFIGS) as u8 },
        6 => Junk::UnknownRequest,
        7 => Junk::UnknownNotification(g.r.below(3) as u8),
        8 if !open.is_empty() => Junk::EmptyChange { path: files[*g.r.pick(open)].clone() },
        9 => {
            let v: Vec<usize> = (0..files.len()).filter(|i| !open.contains(i)).collect();
            if v.is_empty() {
                Junk::CancelUnknown
            } else {
                Junk::CloseUnopened { path: files[*g.r.pick(&v)].clone() }
            }
        }
        10 => Junk::CancelUnknown,
        11 => Junk::SecondInitialize,
        12 => Junk::StrayResponse,
        _ => Junk::CancelUnknown,
    }
}
