//! Documents: a small syntax tree, its rendering to text, and everything the reference model needs
//! to know about the rendered text (positions in UTF-16 columns, events in analysis order).
use serde::{Deserialize, Serialize};
use simcore::Rng;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ref {
    Label(String),
    Path(Vec<String>),
}

impl Ref {
    pub fn text(&self) -> String {
        match self {
            Ref::Label(l) => format!("&{l}"),
            Ref::Path(p) if p.is_empty() => "&{/}".into(),
            Ref::Path(p) => format!("&{{/{}}}", p.join("/")),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum CellS {
    Num(String),
    Ref(Ref),
    Expr(String),
    /// a label in front of the next cell
    Label(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Val {
    Str(String),
    Cells { bits: Option<u8>, cells: Vec<CellS> },
    Ref(Ref),
    Bytes(Vec<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, Default)]
pub struct Payload {
    pub items: Vec<Item>,
    #[serde(default)]
    pub nosemi: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Item {
    Prop { label: Option<String>, name: String, vals: Vec<Val>, omit: bool, nosemi: bool },
    Node { label: Option<String>, name: String, unit: Option<String>, omit: bool, p: Payload },
    DelNode(String),
    DelProp(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Top {
    Header,
    Plugin,
    Memreserve(String, String),
    Include { name: String, semi: bool },
    CInclude(String),
    Root(Payload),
    RefNode { r: Ref, p: Payload },
    DelNode(Ref),
    Omit(Ref),
    /// Text that cannot be parsed at all at this place
    Junk(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, Default)]
pub struct Style {
    pub seed: u64,
    pub crlf: bool,
    pub tabs: bool,
    /// percentage of gaps that get a comment
    pub comments: u8,
    pub unicode: bool,
    /// empty lines and comments in front of everything: shifts all positions
    pub lead: u8,
    /// so many more empty lines in front of everything
    #[serde(default)]
    pub far: u32,
    /// a comment of so many characters in front of the first item, in the same line
    #[serde(default)]
    pub pad: u32,
    pub no_final_newline: bool,
    pub compact: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, Default)]
pub struct Doc {
    pub tops: Vec<Top>,
    #[serde(default)]
    pub style: Style,
    /// the text is cut off after this many bytes
    #[serde(default)]
    pub cut: Option<usize>,
    /// arbitrary text instead of a syntax tree
    #[serde(default)]
    pub raw: Option<String>,
    /// arbitrary bytes instead of a text (disk only)
    #[serde(default)]
    pub bytes: Option<Vec<u8>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default, serde::Serialize, serde::Deserialize)]
pub struct Pos {
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Span {
    pub s: Pos,
    pub e: Pos,
}

impl Span {
    pub fn contains(&self, p: Pos) -> bool {
        self.s <= p && p < self.e
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sev {
    Error,
    Warning,
}

pub fn severity(code: &str) -> Sev {
    match code {
        "name_too_long" | "non_string_in_compatible" | "duplicate_directive" => Sev::Warning,
        _ => Sev::Error,
    }
}

/// A diagnostic the parser must report.
#[derive(Clone, Debug, PartialEq)]
pub enum PDiag {
    Exact(&'static str, Span),
    /// Start of the diagnostic lies within the span
    Within(&'static str, Span),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Base {
    Root,
    Ref(Ref),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Header(Span),
    Plugin,
    NonInclude,
    Include { span: Span, name: String },
    /// reference that must be resolvable at this point (node extension, top-level deletion)
    NowRef { r: Ref, span: Span, extends: bool },
    Node { base: Base, path: Vec<String>, label: Option<String>, name: String, span: Span },
    PropLabel(String),
    /// a child node was deleted by name
    DelName(String),
    ValueRef { r: Ref, span: Span },
    Warn(&'static str, Span),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Construct {
    Label(String),
    Ref(Ref),
    Include(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sym {
    pub name: String,
    pub kind: u32,
    pub deprecated: bool,
    pub range: Span,
    pub sel: Span,
    pub children: Option<Vec<Sym>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    Parsed,
    /// cannot be parsed: one syntax error, nothing else is known about the file
    Hard,
    /// cut off: at least one error, the part in front of the cut may or may not count
    Torn,
    /// nothing is known
    Fuzzy,
}

#[derive(Clone, Debug)]
pub struct Info {
    pub text: String,
    pub status: Status,
    pub line_len: Vec<u32>,
    pub diags: Vec<PDiag>,
    pub events: Vec<Ev>,
    pub constructs: Vec<(Span, Construct)>,
    pub symbols: Vec<Sym>,
    /// symbols of documents with missing semicolons are not specified exactly
    pub symbols_exact: bool,
    /// byte offsets of the end of each top-level item
    pub top_ends: Vec<usize>,
}

/// The position behind a text.
pub fn behind(at: Pos, text: &str) -> Pos {
    text.chars().fold(at, |p, c| match c {
        '\n' => Pos { line: p.line + 1, col: 0 },
        _ => Pos { line: p.line, col: p.col + c.len_utf16() as u32 },
    })
}

fn is_number<T, E>(n: &str, parse: fn(&str, u32) -> Result<T, E>) -> bool {
    if n.len() == 1 {
        parse(n, 10).is_ok()
    } else if let Some(h) = n.strip_prefix("0x") {
        parse(h, 16).is_ok()
    } else if let Some(o) = n.strip_prefix('0') {
        parse(o, 8).is_ok()
    } else {
        parse(n, 10).is_ok()
    }
}

struct R<'a> {
    out: String,
    line: u32,
    col: u32,
    rng: Rng,
    style: &'a Style,
    depth: usize,
    glue: bool,
    fresh: bool,
    info: Info,
    last_end: Pos,
    pending_within: Vec<(&'static str, Pos)>,
    after_include: bool,
    /// the semicolon of the previous item is missing
    unfinished: bool,
    block_comments: Vec<(usize, usize)>,
}

const WORDS: &[&str] = &["note", "clock", "TODO", "a*b", "bus /x/", "see above", "\"quoted\"", "x; y {", "&ref"];
const UWORDS: &[&str] = &["größe", "日本語", "😀 ok", "café", "→", "𝔘nicode", "Ω"];

impl R<'_> {
    fn pos(&self) -> Pos {
        Pos { line: self.line, col: self.col }
    }
    fn raw(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += c.len_utf16() as u32;
            }
        }
        self.out.push_str(s);
    }
    fn nl(&mut self) {
        let s = if self.style.crlf { "\r\n" } else { "\n" };
        self.raw(s);
    }
    fn indent(&mut self) {
        let unit = if self.style.tabs { "\t" } else { "  " };
        let s = unit.repeat(self.depth);
        self.raw(&s);
    }
    fn comment_text(&mut self) -> String {
        if self.style.unicode && self.rng.pct(60) {
            self.rng.pick(UWORDS).to_string()
        } else {
            self.rng.pick(WORDS).to_string()
        }
    }
    fn comment(&mut self) {
        let t = self.comment_text();
        match self.rng.below(4) {
            0 => {
                self.raw(" // ");
                self.raw(&t);
                self.nl();
            }
            1 => {
                self.raw("/*");
                let s = self.out.len() - 2;
                self.raw(&t);
                self.nl();
                self.raw("**/");
                self.block_comments.push((s, self.out.len()));
            }
            2 => {
                let s = self.out.len();
                self.raw("/**/");
                self.block_comments.push((s, self.out.len()));
            }
            _ => {
                self.raw(" ");
                let s = self.out.len();
                self.raw("/* ");
                self.raw(&t);
                self.raw(" */");
                self.block_comments.push((s, self.out.len()));
            }
        }
    }
    /// Gap between two tokens. `need`: at least one separator.
    fn gap(&mut self, need: bool) {
        if self.fresh {
            self.fresh = false;
            return;
        }
        let before = self.out.len();
        if self.style.comments > 0 && self.rng.pct(self.style.comments as u32) {
            if need {
                self.raw(" ");
            }
            self.comment();
            if self.rng.pct(50) {
                self.raw(" ");
            }
            return;
        }
        let r = self.rng.below(20);
        if self.style.compact && !need {
        } else if r == 0 {
            self.nl();
            self.indent();
        } else if r == 1 && self.style.tabs {
            self.raw("\t");
        } else if need || r < 15 {
            self.raw(" ");
        }
        if need && self.out.len() == before {
            self.raw(" ");
        }
    }
    fn tok_sep(&mut self, s: &str, need: bool) -> Span {
        if !self.glue {
            self.gap(need);
        }
        self.glue = false;
        let st = self.pos();
        for (code, from) in std::mem::take(&mut self.pending_within) {
            self.info.diags.push(PDiag::Within(code, Span { s: from, e: st }));
        }
        self.raw(s);
        self.last_end = self.pos();
        Span { s: st, e: self.pos() }
    }
    fn tok(&mut self, s: &str) -> Span {
        self.tok_sep(s, false)
    }
    fn word(&mut self, s: &str) -> Span {
        self.tok_sep(s, true)
    }
    fn newline(&mut self) {
        self.nl();
        if self.style.comments > 0 && self.rng.pct(self.style.comments as u32) {
            self.indent();
            self.comment();
            self.nl();
        }
        self.indent();
        self.fresh = true;
    }
    fn exact(&mut self, code: &'static str, span: Span) {
        self.info.diags.push(PDiag::Exact(code, span));
    }
    fn semi(&mut self, missing: bool) -> Option<Span> {
        if missing {
            self.info.symbols_exact = false;
            self.pending_within.push(("expected", self.last_end));
            // the next token must be recognizable as a new one
            self.raw(" ");
            None
        } else {
            Some(self.tok(";"))
        }
    }
    /// `at`: where the name starts
    fn check_ident(&mut self, span: Span, at: Pos, s: &str, legal: fn(char) -> bool, start: fn(char) -> bool) {
        if let Some((i, c)) = s.char_indices().find(|(_, c)| !legal(*c)) {
            let p = behind(at, &s[..i]);
            self.exact("illegal_char", Span { s: p, e: behind(p, &s[i..i + c.len_utf8()]) });
        } else if s.len() > 31 {
            self.exact("name_too_long", span);
        } else if s.is_empty() {
            self.exact("expected_name", span);
        } else if !s.starts_with(start) {
            self.exact("illegal_start", span);
        }
    }
    fn check_label(&mut self, span: Span, s: &str) {
        self.check_ident(span, span.s, s, |c| c.is_ascii_alphanumeric() || c == '_', |c| c.is_ascii_alphabetic() || c == '_');
    }
    /// The name of a node, with its unit address.
    fn check_node_name(&mut self, span: Span, at: Pos, s: &str) {
        if s == "__symbols__" {
            return;
        }
        let (name, unit) = match s.split_once('@') {
            Some((n, u)) => (n, Some(u)),
            None => (s, None),
        };
        let legal = |c: char| c.is_ascii_alphanumeric() || matches!(c, ',' | '.' | '_' | '+' | '-');
        self.check_ident(span, at, name, legal, |c| c.is_ascii_alphabetic());
        if let Some(unit) = unit {
            self.check_ident(span, behind(at, &s[..name.len() + 1]), unit, legal, |_| true);
        }
    }
    fn check_prop_name(&mut self, span: Span, s: &str) {
        self.check_ident(
            span,
            span.s,
            s,
            |c| c.is_ascii_alphanumeric() || matches!(c, ',' | '.' | '_' | '+' | '-' | '?' | '#'),
            |_| true,
        );
    }
    fn reference(&mut self, r: &Ref, need: bool) -> Span {
        let span = self.tok_sep(&r.text(), need);
        match r {
            Ref::Label(l) => self.check_label(span, l),
            Ref::Path(p) => {
                // behind "&{/"
                let mut at = Pos { line: span.s.line, col: span.s.col + 3 };
                for c in p {
                    self.check_node_name(span, at, c);
                    at = behind(at, &format!("{c}/"));
                }
            }
        }
        self.info.constructs.push((span, Construct::Ref(r.clone())));
        span
    }
    fn number(&mut self, n: &str, need: bool) -> Span {
        let span = self.tok_sep(n, need);
        let ok = is_number(n, u32::from_str_radix);
        if !ok {
            self.exact("int_error", span);
        }
        span
    }
    fn val(&mut self, v: &Val) -> Span {
        match v {
            Val::Str(s) => {
                let t = format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
                self.tok(&t)
            }
            Val::Ref(r) => {
                let span = self.reference(r, false);
                self.info.events.push(Ev::ValueRef { r: r.clone(), span });
                span
            }
            Val::Cells { bits, cells } => {
                if let Some(b) = bits {
                    self.tok("/bits/");
                    self.word(&b.to_string());
                }
                let a = self.tok("<");
                for (i, c) in cells.iter().enumerate() {
                    let need = i > 0;
                    match c {
                        CellS::Num(n) => {
                            self.number(n, need);
                        }
                        CellS::Label(l) => {
                            self.tok_sep(&format!("{l}:"), need);
                        }
                        CellS::Ref(r) => {
                            let span = self.reference(r, need);
                            self.info.events.push(Ev::ValueRef { r: r.clone(), span });
                        }
                        CellS::Expr(e) => {
                            self.tok_sep(&format!("({e})"), need);
                        }
                    }
                }
                let b = self.tok(">");
                Span { s: a.s, e: b.e }
            }
            Val::Bytes(bs) => {
                let a = self.tok("[");
                for (i, b) in bs.iter().enumerate() {
                    let span = self.tok_sep(b, i > 0);
                    if b.len() % 2 != 0 {
                        self.exact("odd_number_of_bytestring_elements", span);
                    } else if !b.bytes().all(|c| c.is_ascii_hexdigit()) {
                        self.exact("int_error", span);
                    }
                }
                let b = self.tok("]");
                Span { s: a.s, e: b.e }
            }
        }
    }
    fn payload(&mut self, p: &Payload, base: &Base, path: &[String]) -> (Vec<Sym>, Pos) {
        self.tok("{");
        self.depth += 1;
        let mut syms = vec![];
        let mut node_seen = false;
        for (k, it) in p.items.iter().enumerate() {
            // a label after a value belongs to the value
            let label_follows = matches!(
                p.items.get(k + 1),
                Some(Item::Prop { label: Some(_), omit: false, .. } | Item::Node { label: Some(_), omit: false, .. })
            );
            self.newline();
            match it {
                Item::DelNode(n) | Item::DelProp(n) => {
                    let is_node = matches!(it, Item::DelNode(_));
                    let a = self.tok(if is_node { "/delete-node/" } else { "/delete-property/" });
                    let b = self.word(n);
                    if is_node {
                        self.info.events.push(Ev::DelName(n.clone()));
                        self.check_node_name(b, b.s, n);
                    } else {
                        self.check_prop_name(b, n);
                    }
                    self.semi(false);
                    syms.push(Sym {
                        name: n.clone(),
                        kind: if is_node { 2 } else { 7 },
                        deprecated: true,
                        range: Span { s: a.s, e: b.e },
                        sel: b,
                        children: None,
                    });
                }
                Item::Prop { label, name, vals, omit, nosemi } => {
                    let mut start = None;
                    let omit_span = if *omit { Some(self.tok("/omit-if-no-ref/")) } else { None };
                    if let Some(l) = label {
                        let s = self.tok(&format!("{l}:"));
                        start = Some(s.s);
                        self.check_label(s, l);
                        self.info.constructs.push((s, Construct::Label(l.clone())));
                    }
                    if let Some(l) = label {
                        self.info.events.push(Ev::PropLabel(l.clone()));
                    }
                    let n = self.tok(name);
                    let start = start.unwrap_or(n.s);
                    self.check_prop_name(n, name);
                    let mut eq_end = n.e;
                    let mut vspans = vec![];
                    for (i, v) in vals.iter().enumerate() {
                        let t = self.tok(if i == 0 { "=" } else { "," });
                        if i == 0 {
                            eq_end = t.e;
                        }
                        vspans.push(self.val(v));
                    }
                    let end = self.semi(*nosemi && !vals.is_empty() && !label_follows).map(|s| s.e).unwrap_or(eq_end);
                    let range = Span { s: start, e: end };
                    if let Some(o) = omit_span {
                        self.exact("incorrect_directive", o);
                    }
                    if node_seen {
                        self.exact("property_after_node", range);
                    }
                    if name == "compatible" {
                        for (v, s) in vals.iter().zip(vspans) {
                            if !matches!(v, Val::Str(_)) {
                                self.info.events.push(Ev::Warn("non_string_in_compatible", s));
                            }
                        }
                    }
                    syms.push(Sym { name: name.clone(), kind: 7, deprecated: false, range, sel: n, children: None });
                }
                Item::Node { label, name, unit, omit, p } => {
                    node_seen = true;
                    if *omit {
                        self.tok("/omit-if-no-ref/");
                    }
                    let mut start = None;
                    if let Some(l) = label {
                        let s = self.tok(&format!("{l}:"));
                        start = Some(s.s);
                        self.check_label(s, l);
                        self.info.constructs.push((s, Construct::Label(l.clone())));
                    }
                    let full = match unit {
                        Some(u) => format!("{name}@{u}"),
                        None => name.clone(),
                    };
                    let n = self.tok(&full);
                    self.check_node_name(n, n.s, &full);
                    let mut cp = path.to_vec();
                    cp.push(full);
                    self.info.events.push(Ev::Node {
                        base: base.clone(),
                        path: cp.clone(),
                        label: label.clone(),
                        name: name.clone(),
                        span: n,
                    });
                    let (children, end) = self.payload(p, base, &cp);
                    syms.push(Sym {
                        name: name.clone(),
                        kind: 2,
                        deprecated: false,
                        range: Span { s: start.unwrap_or(n.s), e: end },
                        sel: n,
                        children: Some(children),
                    });
                }
            }
        }
        self.depth -= 1;
        self.newline();
        let close = self.tok("}");
        let end = self.semi(p.nosemi).map(|s| s.e).unwrap_or(close.e);
        (syms, end)
    }

    fn top(&mut self, t: &Top) {
        match t {
            Top::Header => {
                let s = self.tok("/dts-v1/");
                self.info.events.push(Ev::Header(s));
                self.semi(false);
            }
            Top::Plugin => {
                self.tok("/plugin/");
                self.semi(false);
                self.info.events.push(Ev::NonInclude);
                self.info.events.push(Ev::Plugin);
            }
            Top::Memreserve(a, b) => {
                self.tok("/memreserve/");
                for n in [a, b] {
                    let span = self.word(n);
                    if !is_number(n, u64::from_str_radix) {
                        self.exact("int_error", span);
                    }
                }
                self.semi(false);
                self.info.events.push(Ev::NonInclude);
            }
            Top::Include { name, semi } => {
                let a = self.tok("/include/");
                let t = format!("\"{}\"", name.replace('\\', "\\\\").replace('"', "\\\""));
                let b = self.tok(&t);
                let span = Span { s: a.s, e: b.e };
                self.info.constructs.push((span, Construct::Include(name.clone())));
                self.info.events.push(Ev::Include { span, name: name.clone() });
                if *semi {
                    let s = self.tok(";");
                    self.exact("parser_error", s);
                }
                self.info.symbols.push(Sym {
                    name: format!("include {name}"),
                    kind: 1,
                    deprecated: false,
                    range: span,
                    sel: b,
                    children: None,
                });
            }
            Top::CInclude(n) => {
                self.tok("#include");
                self.tok(&format!("\"{n}\""));
            }
            Top::Root(p) => {
                let s = self.tok("/");
                self.glue = false;
                self.raw(" ");
                self.info.events.push(Ev::Node {
                    base: Base::Root,
                    path: vec![],
                    label: None,
                    name: "/".into(),
                    span: s,
                });
                let (c, end) = self.payload(p, &Base::Root, &[]);
                self.info.events.push(Ev::NonInclude);
                self.info.symbols.push(Sym {
                    name: "/".into(),
                    kind: 2,
                    deprecated: false,
                    range: Span { s: s.s, e: end },
                    sel: s,
                    children: Some(c),
                });
            }
            Top::RefNode { r, p } => {
                let s = self.reference(r, false);
                self.info.events.push(Ev::NowRef { r: r.clone(), span: s, extends: true });
                let (c, end) = self.payload(p, &Base::Ref(r.clone()), &[]);
                self.info.events.push(Ev::NonInclude);
                self.info.symbols.push(Sym {
                    name: r.text(),
                    kind: 2,
                    deprecated: false,
                    range: Span { s: s.s, e: end },
                    sel: s,
                    children: Some(c),
                });
            }
            Top::DelNode(r) | Top::Omit(r) => {
                let del = matches!(t, Top::DelNode(_));
                let a = self.tok(if del { "/delete-node/" } else { "/omit-if-no-ref/" });
                let b = self.reference(r, false);
                if del {
                    self.info.events.push(Ev::NowRef { r: r.clone(), span: b, extends: false });
                } else {
                    self.info.events.push(Ev::NonInclude);
                }
                self.semi(false);
                self.info.symbols.push(Sym {
                    name: r.text(),
                    kind: if del { 2 } else { 8 },
                    deprecated: del,
                    range: Span { s: a.s, e: b.e },
                    sel: b,
                    children: None,
                });
            }
            Top::Junk(s) => {
                self.raw(" ");
                self.fresh = true;
                self.tok(s);
                self.raw(" ");
                // a semicolon after an include is only one mistake more
                let lenient = (s.starts_with(';') && self.after_include) || self.unfinished;
                self.info.status = if lenient { Status::Fuzzy } else { Status::Hard };
            }
        }
        self.after_include = matches!(t, Top::Include { .. });
        self.unfinished = match t {
            Top::Root(p) | Top::RefNode { p, .. } => p.nosemi,
            _ => false,
        };
    }
}

pub fn line_lens(text: &str) -> Vec<u32> {
    text.split('\n')
        .map(|l| l.strip_suffix('\r').unwrap_or(l).encode_utf16().count() as u32)
        .collect()
}

fn render_tops(tops: &[Top], style: &Style, finish: bool) -> (Info, Vec<(usize, usize)>) {
    let mut r = R {
        out: String::new(),
        line: 0,
        col: 0,
        rng: Rng::new(style.seed),
        style,
        depth: 0,
        glue: false,
        fresh: true,
        info: Info {
            text: String::new(),
            status: Status::Parsed,
            line_len: vec![],
            diags: vec![],
            events: vec![],
            constructs: vec![],
            symbols: vec![],
            symbols_exact: true,
            top_ends: vec![],
        },
        last_end: Pos::default(),
        pending_within: vec![],
        after_include: false,
        unfinished: false,
        block_comments: vec![],
    };
    for _ in 0..style.far {
        r.nl();
    }
    for i in 0..style.lead {
        match i % 3 {
            0 => r.nl(),
            1 => {
                r.raw("// ");
                let t = r.comment_text();
                r.raw(&t);
                r.nl();
            }
            _ => {
                let s = r.out.len();
                r.raw("/* ");
                let t = r.comment_text();
                r.raw(&t);
                r.raw(" */ ");
                r.block_comments.push((s, r.out.len() - 1));
            }
        }
    }
    if style.pad > 0 {
        let s = r.out.len();
        r.raw("/* ");
        let c = if style.unicode { "\u{1F600}\u{fc}" } else { "--" };
        r.raw(&c.repeat(style.pad as usize / 2));
        r.raw(" */ ");
        r.block_comments.push((s, r.out.len() - 1));
        r.fresh = true;
    }
    for (i, t) in tops.iter().enumerate() {
        if i > 0 {
            if style.compact && r.rng.pct(50) {
                r.raw(" ");
                r.fresh = true;
            } else {
                r.newline();
            }
        }
        r.top(t);
        let n = r.out.len();
        r.info.top_ends.push(n);
    }
    if finish {
        if !style.no_final_newline {
            r.nl();
        }
        let end = r.pos();
        for (code, from) in std::mem::take(&mut r.pending_within) {
            r.info.diags.push(PDiag::Within(code, Span { s: from, e: end }));
        }
    }
    r.info.text = std::mem::take(&mut r.out);
    let bc = r.block_comments;
    (r.info, bc)
}

fn unknown(text: String, status: Status) -> Info {
    Info {
        line_len: line_lens(&text),
        text,
        status,
        diags: vec![],
        events: vec![],
        constructs: vec![],
        symbols: vec![],
        symbols_exact: false,
        top_ends: vec![],
    }
}

impl Doc {
    /// The bytes of the document, as stored on disk.
    pub fn bytes(&self) -> Vec<u8> {
        if let Some(b) = &self.bytes {
            return b.clone();
        }
        if self.raw.is_none() {
            if let Some(cut) = self.cut {
                let (full, _) = render_tops(&self.tops, &self.style, true);
                let b = full.text.into_bytes();
                let n = cut.min(b.len());
                return b[..n].to_vec();
            }
        }
        self.info().text.into_bytes()
    }

    /// The text that an editor would send.
    pub fn text(&self) -> String {
        self.info().text
    }

    pub fn full_len(&self) -> usize {
        render_tops(&self.tops, &self.style, true).0.text.len()
    }

    /// (start, end) of every token-bearing top-level item and comment: used to place cuts
    pub fn top_ends(&self) -> Vec<usize> {
        render_tops(&self.tops, &self.style, true).0.top_ends
    }

    pub fn info(&self) -> Info {
        if let Some(raw) = &self.raw {
            return unknown(raw.clone(), Status::Fuzzy);
        }
        if let Some(b) = &self.bytes {
            return unknown(String::from_utf8_lossy(b).into_owned(), Status::Fuzzy);
        }
        let (mut full, _) = render_tops(&self.tops, &self.style, true);
        full.line_len = line_lens(&full.text);
        if full.status == Status::Hard {
            full.diags.clear();
            full.events.clear();
            full.constructs.clear();
            full.symbols.clear();
        }
        let Some(cut) = self.cut else { return full };
        // whole characters only: editors send text
        let mut cut = cut.min(full.text.len());
        while !full.text.is_char_boundary(cut) {
            cut -= 1;
        }
        let text = full.text[..cut].to_string();
        if cut == full.text.len() {
            return full;
        }
        if self.tops.iter().any(|t| matches!(t, Top::Junk(_))) {
            return unknown(text, Status::Fuzzy);
        }
        // the cut is harmless if it lies between two top-level items (and not within a comment)
        let done = full.top_ends.iter().filter(|e| **e <= cut).count();
        let prev_end = if done == 0 { 0 } else { full.top_ends[done - 1] };
        if let Some(Top::Include { semi: true, .. }) = self.tops.get(done) {
            // complete without its (superfluous) semicolon
            return unknown(text, Status::Fuzzy);
        }
        let tail = &text[prev_end..];
        let blank = blank_tail(tail);
        if blank {
            let (mut info, _) = render_tops(&self.tops[..done], &self.style, false);
            if info.diags.iter().any(|d| matches!(d, PDiag::Within(..))) || !info.symbols_exact {
                // missing semicolons: the position of the report depends on what follows
                let mut t = unknown(text, Status::Torn);
                t.events = info.events;
                return t;
            }
            info.line_len = line_lens(&text);
            info.text = text;
            return info;
        }
        let mut t = unknown(text, Status::Torn);
        // what the intact items define may or may not count
        t.events = render_tops(&self.tops[..done], &self.style, false).0.events;
        t
    }
}

/// True if the text consists of white space and complete comments only (line comments need not be
/// complete).
pub fn blank_tail(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_whitespace() {
            i += 1;
        } else if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if b[i..].starts_with(b"/*") {
            match s[i + 2..].find("*/") {
                Some(j) => i += 2 + j + 2,
                None => return false,
            }
        } else {
            return false;
        }
    }
    true
}
