//! In-memory file system with volatile and durable state, faults and crashes.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Fsync,
    Rename,
    Unlink,
    Mkdir,
    Stat,
    Readdir,
    Close,
    Truncate,
    Seek,
    Other,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FsFaultKind {
    /// the call fails with this errno and has no effect
    Err(i32),
    /// a read or write transfers only part (n/256) of what was asked
    Short(u8),
    /// partial effect (n/256 of a write), then ENOSPC now and for the next k writes
    NoSpace(u8, u32),
    /// the process is killed in this call; n/256 of the effect has happened
    Kill(u8),
    /// power is lost in this call; what survives is drawn from the seed
    Power(u8, u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FsFault {
    pub at: u64,
    pub kind: FsFaultKind,
}

/// What survives a crash or the end of a process.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Image {
    pub dirs: Vec<String>,
    pub files: BTreeMap<String, Vec<u8>>,
}

#[derive(Clone)]
pub struct Inode {
    pub dir: bool,
    pub data: Vec<u8>,
    pub synced: Vec<u8>,
    pub dirty: bool,
}

#[derive(Clone)]
enum Meta {
    Link(String, usize),
    Unlink(String),
    Rename(String, String),
}

pub struct OpenFile {
    pub ino: usize,
    pub pos: u64,
    pub flags: i32,
    pub path: String,
}

pub struct Fs {
    pub inodes: Vec<Inode>,
    pub ns: BTreeMap<String, usize>,
    durable_ns: BTreeMap<String, usize>,
    journal: Vec<Meta>,
    pub fds: BTreeMap<i32, OpenFile>,
    next_fd: i32,
    pub nospace: u32,
}

pub const FD_BASE: i32 = 1 << 20;

fn apply(ns: &mut BTreeMap<String, usize>, m: &Meta) {
    match m {
        Meta::Link(p, i) => {
            ns.insert(p.clone(), *i);
        }
        Meta::Unlink(p) => {
            ns.remove(p);
        }
        Meta::Rename(a, b) => {
            if let Some(i) = ns.remove(a) {
                let pre = format!("{a}/");
                let sub: Vec<(String, usize)> = ns
                    .range(pre.clone()..)
                    .take_while(|(k, _)| k.starts_with(&pre))
                    .map(|(k, v)| (k.clone(), *v))
                    .collect();
                for (k, v) in sub {
                    ns.remove(&k);
                    ns.insert(format!("{b}/{}", &k[pre.len()..]), v);
                }
                ns.insert(b.clone(), i);
            }
        }
    }
}

pub fn normalize(p: &str) -> String {
    let full = if p.starts_with('/') {
        p.to_string()
    } else {
        format!("/sim/{p}")
    };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

pub fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}

impl Fs {
    pub fn new(img: &Image) -> Fs {
        let mut f = Fs {
            inodes: vec![],
            ns: BTreeMap::new(),
            durable_ns: BTreeMap::new(),
            journal: vec![],
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            nospace: 0,
        };
        for d in ["/", "/sim", "/tmp"] {
            f.add(d, true, vec![]);
        }
        for d in &img.dirs {
            if !f.ns.contains_key(d) {
                f.add(d, true, vec![]);
            }
        }
        for (p, b) in &img.files {
            f.add(p, false, b.clone());
        }
        f.durable_ns = f.ns.clone();
        f
    }
    fn add(&mut self, p: &str, dir: bool, data: Vec<u8>) {
        self.inodes.push(Inode {
            dir,
            synced: data.clone(),
            data,
            dirty: false,
        });
        self.ns.insert(p.to_string(), self.inodes.len() - 1);
    }
    fn meta(&mut self, m: Meta) {
        apply(&mut self.ns, &m);
        self.journal.push(m);
    }
    fn image_of(
        &self,
        ns: &BTreeMap<String, usize>,
        mut content: impl FnMut(usize) -> Vec<u8>,
    ) -> Image {
        let mut img = Image::default();
        for (p, &i) in ns {
            if self.inodes[i].dir {
                img.dirs.push(p.clone());
            } else {
                img.files.insert(p.clone(), content(i));
            }
        }
        img
    }
    /// The page cache survives (process exit or kill).
    pub fn image(&self) -> Image {
        self.image_of(&self.ns, |i| self.inodes[i].data.clone())
    }
    /// Power loss: an ordered prefix of metadata operations survives beyond the last
    /// sync; unsynced data may be old, new, cut, or partly zero.
    pub fn power_image(&self, seed: u64) -> Image {
        let mut r = Rng::new(seed);
        let mut ns = self.durable_ns.clone();
        let n = self.journal.len();
        let k = match r.below(3) {
            0 => 0,
            1 => n,
            _ => r.below(n + 1),
        };
        for m in &self.journal[..k] {
            apply(&mut ns, m);
        }
        self.image_of(&ns, |i| {
            let node = &self.inodes[i];
            if !node.dirty {
                return node.data.clone();
            }
            match r.below(5) {
                0 => node.synced.clone(),
                1 => node.data.clone(),
                2 => {
                    let l = r.below(node.data.len() + 1);
                    node.data[..l].to_vec()
                }
                3 => {
                    // sized as new, but only some of the blocks reached the disk
                    let mut d = node.data.clone();
                    for c in d.chunks_mut(64) {
                        if r.chance(0.5) {
                            c.fill(0);
                        }
                    }
                    d
                }
                _ => vec![],
            }
        })
    }
    /// Everything up to now is durable (journal commit), and this file's data.
    pub fn sync(&mut self, ino: usize) {
        for m in self.journal.drain(..) {
            apply(&mut self.durable_ns, &m);
        }
        let n = &mut self.inodes[ino];
        if !n.dir {
            n.synced = n.data.clone();
            n.dirty = false;
        }
    }
    pub fn lookup(&self, p: &str) -> Result<usize, i32> {
        // every ancestor has to be a directory
        let par = parent(p);
        if par != "/" || p != "/" {
            match self.ns.get(&par) {
                Some(&i) if self.inodes[i].dir => {}
                Some(_) => return Err(libc::ENOTDIR),
                None => return Err(libc::ENOENT),
            }
        }
        self.ns.get(p).copied().ok_or(libc::ENOENT)
    }
    pub fn open(&mut self, p: &str, flags: i32) -> Result<i32, i32> {
        let acc = flags & libc::O_ACCMODE;
        let ino = match self.lookup(p) {
            Ok(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if self.inodes[i].dir && acc != libc::O_RDONLY {
                    return Err(libc::EISDIR);
                }
                if !self.inodes[i].dir && flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                    let n = &mut self.inodes[i];
                    if !n.data.is_empty() {
                        n.data.clear();
                        n.dirty = true;
                    }
                }
                i
            }
            Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
                let par = parent(p);
                match self.ns.get(&par) {
                    Some(&i) if self.inodes[i].dir => {}
                    Some(_) => return Err(libc::ENOTDIR),
                    None => return Err(libc::ENOENT),
                }
                if p.rsplit('/').next().is_some_and(|n| n.len() > 255) {
                    return Err(libc::ENAMETOOLONG);
                }
                self.inodes.push(Inode {
                    dir: false,
                    data: vec![],
                    synced: vec![],
                    dirty: false,
                });
                let i = self.inodes.len() - 1;
                self.meta(Meta::Link(p.into(), i));
                i
            }
            Err(e) => return Err(e),
        };
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(
            fd,
            OpenFile {
                ino,
                pos: 0,
                flags,
                path: p.into(),
            },
        );
        Ok(fd)
    }
    pub fn dup(&mut self, fd: i32) -> Result<i32, i32> {
        let f = self.fds.get(&fd).ok_or(libc::EBADF)?;
        let n = OpenFile {
            ino: f.ino,
            pos: f.pos,
            flags: f.flags,
            path: f.path.clone(),
        };
        let nfd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(nfd, n);
        Ok(nfd)
    }
    pub fn write(&mut self, fd: i32, b: &[u8], at: Option<u64>) -> Result<usize, i32> {
        let f = self.fds.get_mut(&fd).ok_or(libc::EBADF)?;
        if f.flags & libc::O_ACCMODE == libc::O_RDONLY {
            return Err(libc::EBADF);
        }
        let n = &mut self.inodes[f.ino];
        let pos = match at {
            Some(p) => p as usize,
            None if f.flags & libc::O_APPEND != 0 => n.data.len(),
            None => f.pos as usize,
        };
        if n.data.len() < pos + b.len() {
            n.data.resize(pos + b.len(), 0);
        }
        n.data[pos..pos + b.len()].copy_from_slice(b);
        if !b.is_empty() {
            n.dirty = true;
        }
        if at.is_none() {
            f.pos = (pos + b.len()) as u64;
        }
        Ok(b.len())
    }
    pub fn read(&mut self, fd: i32, out: &mut [u8], at: Option<u64>) -> Result<usize, i32> {
        let f = self.fds.get_mut(&fd).ok_or(libc::EBADF)?;
        let n = &self.inodes[f.ino];
        if n.dir {
            return Err(libc::EISDIR);
        }
        if f.flags & libc::O_ACCMODE == libc::O_WRONLY {
            return Err(libc::EBADF);
        }
        let pos = at.unwrap_or(f.pos) as usize;
        let k = out.len().min(n.data.len().saturating_sub(pos));
        if k > 0 {
            out[..k].copy_from_slice(&n.data[pos..pos + k]);
        }
        if at.is_none() {
            f.pos += k as u64;
        }
        Ok(k)
    }
    pub fn truncate(&mut self, ino: usize, len: usize) {
        let n = &mut self.inodes[ino];
        n.data.resize(len, 0);
        n.dirty = true;
    }
    pub fn rename(&mut self, a: &str, b: &str) -> Result<(), i32> {
        let i = self.lookup(a)?;
        match self.lookup(b) {
            Ok(j) => {
                if self.inodes[j].dir != self.inodes[i].dir {
                    return Err(if self.inodes[j].dir {
                        libc::EISDIR
                    } else {
                        libc::ENOTDIR
                    });
                }
                if self.inodes[j].dir && !self.list(b).is_empty() {
                    return Err(libc::ENOTEMPTY);
                }
            }
            Err(libc::ENOENT) if self.ns.contains_key(&parent(b)) => {}
            Err(e) => return Err(e),
        }
        if a != b {
            self.meta(Meta::Rename(a.into(), b.into()));
        }
        Ok(())
    }
    pub fn unlink(&mut self, p: &str, dir: bool) -> Result<(), i32> {
        let i = self.lookup(p)?;
        if dir {
            if !self.inodes[i].dir {
                return Err(libc::ENOTDIR);
            }
            if !self.list(p).is_empty() {
                return Err(libc::ENOTEMPTY);
            }
        } else if self.inodes[i].dir {
            return Err(libc::EISDIR);
        }
        self.meta(Meta::Unlink(p.into()));
        Ok(())
    }
    pub fn link(&mut self, a: &str, b: &str) -> Result<(), i32> {
        let i = self.lookup(a)?;
        if self.lookup(b).is_ok() {
            return Err(libc::EEXIST);
        }
        if !self.ns.contains_key(&parent(b)) {
            return Err(libc::ENOENT);
        }
        self.meta(Meta::Link(b.into(), i));
        Ok(())
    }
    pub fn mkdir(&mut self, p: &str) -> Result<(), i32> {
        match self.lookup(p) {
            Ok(_) => Err(libc::EEXIST),
            Err(libc::ENOENT) => {
                match self.ns.get(&parent(p)) {
                    Some(&i) if self.inodes[i].dir => {}
                    Some(_) => return Err(libc::ENOTDIR),
                    None => return Err(libc::ENOENT),
                }
                self.inodes.push(Inode {
                    dir: true,
                    data: vec![],
                    synced: vec![],
                    dirty: false,
                });
                let i = self.inodes.len() - 1;
                self.meta(Meta::Link(p.into(), i));
                Ok(())
            }
            Err(e) => Err(e),
        }
    }
    pub fn list(&self, p: &str) -> Vec<(String, usize)> {
        let pre = if p == "/" {
            "/".to_string()
        } else {
            format!("{p}/")
        };
        self.ns
            .range(pre.clone()..)
            .take_while(|(k, _)| k.starts_with(&pre))
            .filter(|(k, _)| k.len() > pre.len() && !k[pre.len()..].contains('/'))
            .map(|(k, v)| (k[pre.len()..].to_string(), *v))
            .collect()
    }
}
