//! Minimal, independent dag-pb writer and in-memory block store for the demonstrations.
#![allow(dead_code)]
use libipld::multihash::{Code, MultihashDigest};
use libipld::Cid;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use unixfs_v1::walk::{ContinuedWalk, Walker};

pub const RAW: u64 = 0;
pub const DIR: u64 = 1;
pub const FILE: u64 = 2;
pub const META: u64 = 3;
pub const LINK: u64 = 4;
pub const HAMT: u64 = 5;

fn vint(o: &mut Vec<u8>, mut v: u64) {
    while v > 127 {
        o.push(v as u8 | 128);
        v >>= 7;
    }
    o.push(v as u8);
}
pub fn num(o: &mut Vec<u8>, f: u64, v: u64) {
    vint(o, f << 3);
    vint(o, v);
}
pub fn bytes(o: &mut Vec<u8>, f: u64, v: &[u8]) {
    vint(o, f << 3 | 2);
    vint(o, v.len() as u64);
    o.extend_from_slice(v);
}
#[derive(Default, Clone)]
pub struct Data {
    pub typ: u64,
    pub data: Option<Vec<u8>>,
    pub filesize: Option<u64>,
    pub blocksizes: Vec<u64>,
    pub hash_type: Option<u64>,
    pub fanout: Option<u64>,
    pub mode: Option<u64>,
    /// seconds, nanoseconds
    pub mtime: Option<(i64, Option<u32>)>,
}
impl Data {
    pub fn enc(&self) -> Vec<u8> {
        let mut o = vec![];
        num(&mut o, 1, self.typ);
        if let Some(d) = &self.data {
            bytes(&mut o, 2, d);
        }
        if let Some(v) = self.filesize {
            num(&mut o, 3, v);
        }
        for b in &self.blocksizes {
            num(&mut o, 4, *b);
        }
        if let Some(v) = self.hash_type {
            num(&mut o, 5, v);
        }
        if let Some(v) = self.fanout {
            num(&mut o, 6, v);
        }
        if let Some(v) = self.mode {
            num(&mut o, 7, v);
        }
        if let Some((s, n)) = self.mtime {
            let mut t = vec![];
            num(&mut t, 1, s as u64);
            if let Some(n) = n {
                vint(&mut t, 2 << 3 | 5);
                t.extend_from_slice(&n.to_le_bytes());
            }
            bytes(&mut o, 8, &t);
        }
        o
    }
}
pub fn node(links: &[(Cid, &str, u64)], data: &Data) -> Vec<u8> {
    let mut o = vec![];
    for (c, n, t) in links {
        let mut l = vec![];
        bytes(&mut l, 1, &c.to_bytes());
        bytes(&mut l, 2, n.as_bytes());
        num(&mut l, 3, *t);
        bytes(&mut o, 2, &l);
    }
    bytes(&mut o, 1, &data.enc());
    o
}
pub fn cid(b: &[u8]) -> Cid {
    Cid::new_v1(0x70, Code::Sha2_256.digest(b))
}
#[derive(Default)]
pub struct Store(pub HashMap<Cid, Vec<u8>>);
impl Store {
    pub fn put(&mut self, b: Vec<u8>) -> Cid {
        let c = cid(&b);
        self.0.insert(c, b);
        c
    }
    pub fn get(&self, c: &Cid) -> &[u8] {
        self.0.get(c).unwrap_or_else(|| panic!("block {} was never stored", c))
    }
    pub fn leaf(&mut self, d: &[u8]) -> Cid {
        self.put(node(&[], &Data { typ: FILE, data: Some(d.to_vec()), filesize: Some(d.len() as u64), ..Default::default() }))
    }
    pub fn file(&mut self, kids: &[(Cid, u64)]) -> Cid {
        let l: Vec<_> = kids.iter().map(|(c, _)| (*c, "", 0)).collect();
        let s: Vec<u64> = kids.iter().map(|k| k.1).collect();
        self.put(node(&l, &Data { typ: FILE, filesize: Some(s.iter().sum()), blocksizes: s, ..Default::default() }))
    }
    pub fn dir(&mut self, e: &[(&str, Cid)]) -> Cid {
        let l: Vec<_> = e.iter().map(|(n, c)| (*c, *n, 1)).collect();
        self.put(node(&l, &Data { typ: DIR, ..Default::default() }))
    }
    pub fn bucket(&mut self, e: &[(&str, Cid)]) -> Cid {
        let l: Vec<_> = e.iter().map(|(n, c)| (*c, *n, 1)).collect();
        self.put(node(&l, &Data { typ: HAMT, hash_type: Some(34), fanout: Some(256), data: Some(vec![255]), ..Default::default() }))
    }
}
/// Everything a walk reports, one line per step.
pub fn walk(s: &Store, root: Cid, name: &str) -> Result<Vec<String>, String> {
    let mut w = Walker::new(root, name.into());
    let mut cache = None;
    let mut out = vec![];
    while w.should_continue() {
        let c = *w.pending_links().0;
        match w.next(s.get(&c), &mut cache).map_err(|e| format!("{:?}", e))? {
            ContinuedWalk::File(seg, c, p, m, size) => {
                out.push(format!("file {} {} {:?} {:?} {} {} {} {:?}", p.display(), c, m.mode(), m.mtime(), size, seg.is_first(), seg.is_last(), seg.as_ref()))
            }
            ContinuedWalk::Directory(c, p, m) => out.push(format!("dir {} {} {:?} {:?}", p.display(), c, m.mode(), m.mtime())),
            ContinuedWalk::RootDirectory(c, p, m) => out.push(format!("dir {} {} {:?} {:?}", p.display(), c, m.mode(), m.mtime())),
            ContinuedWalk::Bucket(c, p) => out.push(format!("bucket {} {}", p.display(), c)),
            ContinuedWalk::Symlink(t, c, p, m) => out.push(format!("symlink {} {} {:?} {:?} {:?}", p.display(), c, m.mode(), m.mtime(), String::from_utf8_lossy(t))),
        }
    }
    Ok(out)
}
/// `Err` when it panics.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
