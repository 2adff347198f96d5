//! In-memory disk.
use std::collections::BTreeMap;

pub type Ino = usize;

#[derive(Clone, Debug)]
pub enum Kind {
    Dir(BTreeMap<Vec<u8>, Ino>),
    File(Vec<u8>),
    Link(Vec<u8>),
}

/// Persistent condition of an inode: stays until it is removed.
#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    /// open fails (for a directory: walking through it fails)
    Deny(i32),
    /// reading fails once this offset is reached
    ReadErr(usize, i32),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub cond: Option<Cond>,
}

#[derive(Clone, Debug)]
pub struct Vfs {
    pub inodes: Vec<Inode>,
}

pub const ROOT: Ino = 0;

impl Default for Vfs {
    fn default() -> Self {
        Vfs { inodes: vec![Inode { kind: Kind::Dir(BTreeMap::new()), cond: None }] }
    }
}

fn comps(path: &[u8]) -> Vec<Vec<u8>> {
    path.split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect()
}

impl Vfs {
    pub fn alloc(&mut self, kind: Kind) -> Ino {
        self.inodes.push(Inode { kind, cond: None });
        self.inodes.len() - 1
    }

    /// Resolves an absolute path, following links (the last one only if `follow`).
    /// Returns the inode and the canonical path.
    pub fn resolve(&self, path: &[u8], cwd: &[u8], follow: bool) -> Result<(Ino, Vec<u8>), i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() >= 4096 || path.split(|b| *b == b'/').any(|c| c.len() > 255) {
            return Err(libc::ENAMETOOLONG);
        }
        let mut todo: Vec<Vec<u8>> = vec![];
        let must_dir = path.ends_with(b"/") || path.ends_with(b"/.");
        if !path.starts_with(b"/") {
            todo.extend(comps(cwd));
        }
        todo.extend(comps(path));
        todo.reverse();
        let mut stack: Vec<(Ino, Vec<u8>)> = vec![];
        let mut links = 0;
        while let Some(c) = todo.pop() {
            let cur = stack.last().map(|s| s.0).unwrap_or(ROOT);
            let Kind::Dir(entries) = &self.inodes[cur].kind else {
                return Err(libc::ENOTDIR);
            };
            if let Some(Cond::Deny(e)) = &self.inodes[cur].cond {
                return Err(*e);
            }
            if c == b"." {
                continue;
            }
            if c == b".." {
                stack.pop();
                continue;
            }
            let Some(&ino) = entries.get(&c) else {
                return Err(libc::ENOENT);
            };
            if let Kind::Link(target) = &self.inodes[ino].kind {
                if !todo.is_empty() || follow {
                    links += 1;
                    if links > 40 {
                        return Err(libc::ELOOP);
                    }
                    if target.starts_with(b"/") {
                        stack.clear();
                    }
                    let mut t = comps(target);
                    t.reverse();
                    todo.extend(t);
                    continue;
                }
            }
            stack.push((ino, c));
        }
        let ino = stack.last().map(|s| s.0).unwrap_or(ROOT);
        if must_dir && !matches!(self.inodes[ino].kind, Kind::Dir(_)) {
            return Err(libc::ENOTDIR);
        }
        let mut canon = vec![];
        for (_, c) in &stack {
            canon.push(b'/');
            canon.extend(c);
        }
        if canon.is_empty() {
            canon.push(b'/');
        }
        Ok((ino, canon))
    }

    fn parent(&mut self, path: &str, create: bool) -> Option<(Ino, Vec<u8>)> {
        let mut cs = comps(path.as_bytes());
        let name = cs.pop()?;
        let mut cur = ROOT;
        for c in cs {
            let next = match &self.inodes[cur].kind {
                Kind::Dir(e) => e.get(&c).copied(),
                _ => return None,
            };
            cur = match next {
                Some(n) => n,
                None if create => {
                    let n = self.alloc(Kind::Dir(BTreeMap::new()));
                    if let Kind::Dir(e) = &mut self.inodes[cur].kind {
                        e.insert(c, n);
                    }
                    n
                }
                None => return None,
            };
        }
        Some((cur, name))
    }

    fn put(&mut self, path: &str, kind: Kind) {
        if let Some((dir, name)) = self.parent(path, true) {
            let ino = self.alloc(kind);
            if let Kind::Dir(e) = &mut self.inodes[dir].kind {
                e.insert(name, ino);
            }
        }
    }
    pub fn mkdir(&mut self, path: &str) {
        if self.lookup(path).is_none() {
            self.put(path, Kind::Dir(BTreeMap::new()));
        }
    }
    /// Atomically replaces the file (new inode).
    pub fn write(&mut self, path: &str, data: &[u8]) {
        self.put(path, Kind::File(data.to_vec()));
    }
    pub fn symlink(&mut self, path: &str, target: &str) {
        self.put(path, Kind::Link(target.as_bytes().to_vec()));
    }
    pub fn remove(&mut self, path: &str) {
        if let Some((dir, name)) = self.parent(path, false) {
            if let Kind::Dir(e) = &mut self.inodes[dir].kind {
                e.remove(&name);
            }
        }
    }
    /// Looks up a path without following links or conditions.
    pub fn lookup(&self, path: &str) -> Option<Ino> {
        let mut cur = ROOT;
        for c in comps(path.as_bytes()) {
            match &self.inodes[cur].kind {
                Kind::Dir(e) => cur = *e.get(&c)?,
                _ => return None,
            }
        }
        Some(cur)
    }
    pub fn set_cond(&mut self, path: &str, cond: Option<Cond>) {
        if let Some(i) = self.lookup(path) {
            self.inodes[i].cond = cond;
        }
    }
    /// What a reader would get: the content, or the error number.
    pub fn read(&self, path: &[u8], cwd: &[u8]) -> Result<Vec<u8>, i32> {
        let (ino, _) = self.resolve(path, cwd, true)?;
        let inode = &self.inodes[ino];
        if let Some(Cond::Deny(e)) = &inode.cond {
            return Err(*e);
        }
        match &inode.kind {
            Kind::File(d) => match &inode.cond {
                Some(Cond::ReadErr(_, e)) => Err(*e),
                _ => Ok(d.clone()),
            },
            _ => Err(libc::EISDIR),
        }
    }
}
