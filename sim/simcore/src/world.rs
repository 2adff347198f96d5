use crate::choice::{Chooser, Rng};
use crate::vfs::{Ino, Vfs};
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::task::Waker;

thread_local! {
    /// The world the current thread lives in; null for ordinary threads.
    pub static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
}

/// Descriptors of simulated files start here.
pub const FIRST_FD: i32 = 1_000_000;
/// Seconds on the clocks when a simulation starts.
pub const EPOCH: i64 = 1_700_000_000;

#[derive(Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub closed: bool,
    pub cap: usize,
    pub waker: Option<Waker>,
}

impl Pipe {
    pub fn wake(&mut self) {
        if let Some(w) = self.waker.take() {
            w.wake()
        }
    }
}

pub struct OpenFile {
    pub ino: Ino,
    pub pos: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pending {
    /// The call fails with this error number
    Fail(i32),
    /// This path disappears just before the call
    Remove(String),
}

/// Rates of faults that must be masked (permille per call)
#[derive(Clone, Debug, Default)]
pub struct Masked {
    pub eintr: u32,
    pub short: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Call {
    Realpath,
    Open,
    Read,
    Stat,
}

pub struct World {
    pub chooser: Chooser,
    pub vfs: Vfs,
    pub cwd: Vec<u8>,
    pub fds: BTreeMap<i32, OpenFile>,
    next_fd: i32,
    /// addresses of the directories that are being listed
    pub dirs: std::collections::BTreeSet<usize>,
    pub entropy: Rng,
    /// virtual microseconds
    pub now: u64,
    pub stdin: Pipe,
    pub stdout: Pipe,
    /// bytes written to file descriptor 1 past the simulated channel
    pub raw_stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub masked: Masked,
    /// (eligible calls to let pass, what happens then)
    pub pending: Vec<(u32, Option<Call>, Pending)>,
    /// every open fails (process limit)
    pub open_fails: Option<i32>,
    /// How many files may be open at the same time
    pub max_fds: usize,
    /// number of injected faults by kind
    pub fired: BTreeMap<&'static str, u64>,
    /// attempts of the program to change the disk, or to leave the simulation
    pub forbidden: Vec<String>,
    pub calls: u64,
    /// calls and sleeping time (in microseconds) since the program last did something else
    pub busy: (u64, u64),
    pub trace: Option<Vec<String>>,
    /// hash over all events, in order
    pub digest: u64,
    /// hash over the kinds of scheduling events, in order
    pub schedule: u64,
    /// stdout faults, used for the command line tool only: (bytes accepted before it applies, errno)
    pub out_fault: Option<(usize, i32)>,
    pub out_masked: Masked,
    pub out_written: usize,
    pub probes: BTreeMap<&'static str, u64>,
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::ENOENT => "ENOENT",
        libc::EACCES => "EACCES",
        libc::EIO => "EIO",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::ENOMEM => "ENOMEM",
        libc::ELOOP => "ELOOP",
        libc::EISDIR => "EISDIR",
        libc::ENOTDIR => "ENOTDIR",
        libc::ESTALE => "ESTALE",
        libc::EPIPE => "EPIPE",
        libc::ENOSPC => "ENOSPC",
        libc::EBADF => "EBADF",
        _ => "errno",
    }
}

impl World {
    pub fn new(chooser: Chooser, entropy: u64) -> World {
        World {
            chooser,
            vfs: Vfs::default(),
            cwd: b"/w/cwd".to_vec(),
            fds: BTreeMap::new(),
            next_fd: FIRST_FD,
            dirs: Default::default(),
            entropy: Rng::new(entropy),
            now: 0,
            stdin: Pipe { cap: usize::MAX, ..Default::default() },
            stdout: Pipe { cap: usize::MAX, ..Default::default() },
            raw_stdout: vec![],
            stderr: vec![],
            masked: Masked::default(),
            pending: vec![],
            open_fails: None,
            max_fds: 1024,
            fired: BTreeMap::new(),
            forbidden: vec![],
            calls: 0,
            busy: (0, 0),
            trace: None,
            digest: 0,
            schedule: 0,
            out_fault: None,
            out_masked: Masked::default(),
            out_written: 0,
            probes: BTreeMap::new(),
        }
    }

    /// Access to the world of this thread.
    ///
    /// # Safety
    /// All users run on one thread and none keeps the reference across a call into another.
    pub fn current<'a>() -> Option<&'a mut World> {
        let p = WORLD.with(|w| w.get());
        if p.is_null() {
            None
        } else {
            Some(unsafe { &mut *p })
        }
    }

    pub fn enter(&mut self) {
        WORLD.with(|w| w.set(self))
    }
    pub fn leave() {
        WORLD.with(|w| w.set(std::ptr::null_mut()))
    }

    pub fn fire(&mut self, kind: &'static str) {
        *self.fired.entry(kind).or_default() += 1;
        self.note(b'f', kind.as_bytes());
    }
    pub fn probe(&mut self, kind: &'static str) {
        *self.probes.entry(kind).or_default() += 1;
    }

    /// Folds an event into the digest of the run (and the trace, if one is kept).
    pub fn note(&mut self, kind: u8, data: &[u8]) {
        let mut h = self.digest ^ kind as u64;
        for b in data {
            h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        self.digest = crate::choice::mix(h);
        if let Some(t) = &mut self.trace {
            t.push(format!("{} {}", kind as char, String::from_utf8_lossy(data)));
        }
    }
    pub fn sched(&mut self, kind: u8) {
        self.schedule = crate::choice::mix(self.schedule ^ kind as u64);
    }

    /// A program that does nothing but sleep or repeat system calls is stuck.
    pub fn check_busy(&self) {
        if self.busy.0 > 20_000_000 || self.busy.1 > 120_000_000 {
            if let Some(f) = crate::interpose::ON_EXIT.with(|f| f.get()) {
                f(crate::STUCK)
            }
        }
    }

    /// Counts an eligible call and returns the injected error, if one is due.
    pub fn fault(&mut self, call: Call) -> Option<i32> {
        self.calls += 1;
        self.busy.0 += 1;
        self.check_busy();
        let mut result = None;
        let mut i = 0;
        while i < self.pending.len() {
            let (left, filter, _) = &mut self.pending[i];
            if filter.is_some() && *filter != Some(call) {
                i += 1;
                continue;
            }
            if *left > 0 {
                *left -= 1;
                i += 1;
                continue;
            }
            match self.pending.remove(i).2 {
                Pending::Fail(e) => {
                    self.fire(match (call, e) {
                        (Call::Realpath, libc::EACCES) => "realpath:EACCES",
                        (Call::Realpath, libc::ENOENT) => "realpath:ENOENT",
                        (Call::Realpath, libc::EIO) => "realpath:EIO",
                        (Call::Realpath, _) => "realpath:other",
                        (Call::Open, libc::EMFILE) => "open:EMFILE",
                        (Call::Open, libc::ENFILE) => "open:ENFILE",
                        (Call::Open, libc::EACCES) => "open:EACCES",
                        (Call::Open, libc::ENOENT) => "open:ENOENT",
                        (Call::Open, libc::EIO) => "open:EIO",
                        (Call::Open, _) => "open:other",
                        (Call::Read, libc::EIO) => "read:EIO",
                        (Call::Read, libc::ESTALE) => "read:ESTALE",
                        (Call::Read, libc::EISDIR) => "read:EISDIR",
                        (Call::Read, _) => "read:other",
                        (Call::Stat, _) => "stat:error",
                    });
                    result = Some(e);
                }
                Pending::Remove(p) => {
                    self.fire("toctou:removed");
                    self.vfs.remove(&p);
                }
            }
        }
        result
    }

    pub fn open(&mut self, path: &[u8], follow: bool) -> Result<i32, i32> {
        if self.chooser.flip(self.masked.eintr) {
            self.fire("open:EINTR");
            return Err(libc::EINTR);
        }
        if let Some(e) = self.fault(Call::Open) {
            return Err(e);
        }
        if let Some(e) = self.open_fails {
            self.fire(if e == libc::EMFILE { "open:EMFILE" } else { "open:ENOMEM" });
            return Err(e);
        }
        if self.fds.len() >= self.max_fds {
            return Err(libc::EMFILE);
        }
        let cwd = self.cwd.clone();
        let (ino, _) = self.vfs.resolve(path, &cwd, follow)?;
        if let Some(crate::vfs::Cond::Deny(e)) = self.vfs.inodes[ino].cond {
            self.fire("open:denied");
            return Err(e);
        }
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, OpenFile { ino, pos: 0 });
        Ok(fd)
    }

    /// (A copy of a descriptor has a position of its own here, which nothing depends on.)
    pub fn dup(&mut self, fd: i32) -> Result<i32, i32> {
        let Some(f) = self.fds.get(&fd) else { return Err(libc::EBADF) };
        let copy = OpenFile { ino: f.ino, pos: f.pos };
        if self.fds.len() >= self.max_fds {
            return Err(libc::EMFILE);
        }
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, copy);
        Ok(fd)
    }

    pub fn read(&mut self, fd: i32, out: &mut [u8], at: Option<usize>) -> Result<usize, i32> {
        use crate::vfs::{Cond, Kind};
        let Some(f) = self.fds.get(&fd) else { return Err(libc::EBADF) };
        let (ino, pos) = (f.ino, at.unwrap_or(f.pos));
        if self.chooser.flip(self.masked.eintr) {
            self.fire("read:EINTR");
            return Err(libc::EINTR);
        }
        if let Some(e) = self.fault(Call::Read) {
            return Err(e);
        }
        let (len, cond) = match &self.vfs.inodes[ino].kind {
            Kind::File(d) => (d.len(), self.vfs.inodes[ino].cond.clone()),
            Kind::Dir(_) => {
                self.fire("read:EISDIR");
                return Err(libc::EISDIR);
            }
            Kind::Link(_) => return Err(libc::ELOOP),
        };
        let mut n = len.saturating_sub(pos).min(out.len());
        if let Some(Cond::ReadErr(off, e)) = cond {
            let off = off.min(len);
            if pos >= off {
                self.fire("read:EIO-at-offset");
                return Err(e);
            }
            n = n.min(off - pos);
        }
        if n > 1 && self.chooser.flip(self.masked.short) {
            let full = n;
            // 0 = full is not reachable here; a short read returns at least one byte
            n = match self.chooser.choose(3) {
                0 => 1,
                1 => 1 + self.chooser.choose(full.min(64) - 1),
                _ => 1 + self.chooser.choose(full - 1),
            };
            if n < full {
                self.fire("read:short");
            }
        }
        if let Kind::File(d) = &self.vfs.inodes[ino].kind {
            out[..n].copy_from_slice(&d[pos..pos + n]);
        }
        if at.is_none() {
            self.fds.get_mut(&fd).unwrap().pos += n;
        }
        Ok(n)
    }
}
