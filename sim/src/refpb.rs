//! Independent dag-pb/UnixFS codec (written from the specs, shares nothing with the crate under
//! test) and Cid construction.
use libipld::Cid;
use multihash::{Code, MultihashDigest};
use std::convert::TryFrom;

pub const T_RAW: u64 = 0;
pub const T_DIR: u64 = 1;
pub const T_FILE: u64 = 2;
pub const T_META: u64 = 3;
pub const T_SYMLINK: u64 = 4;
pub const T_HAMT: u64 = 5;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct RLink {
    pub hash: Option<Vec<u8>>,
    pub name: Option<Vec<u8>>,
    pub tsize: Option<u64>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct RMeta {
    pub mode: Option<u32>,
    pub mtime: Option<(i64, Option<u32>)>,
}
impl RMeta {
    /// what a reader is expected to report
    pub fn seen(&self) -> (Option<u32>, Option<(i64, u32)>) {
        (self.mode, self.mtime.map(|(s, n)| (s, n.unwrap_or(0))))
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct RData {
    pub typ: u64,
    pub data: Option<Vec<u8>>,
    pub filesize: Option<u64>,
    pub blocksizes: Vec<u64>,
    pub hash_type: Option<u64>,
    pub fanout: Option<u64>,
    pub meta: RMeta,
    /// how to encode: 0 for the usual, otherwise the fields in another order and among fields which
    /// nobody knows
    pub layout: u64,
}

pub fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn field_bytes(out: &mut Vec<u8>, tag: u8, b: &[u8]) {
    out.push(tag);
    varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
fn field_var(out: &mut Vec<u8>, tag: u8, v: u64) {
    out.push(tag);
    varint(out, v);
}

pub fn enc_link(l: &RLink) -> Vec<u8> {
    let mut o = Vec::new();
    if let Some(h) = &l.hash {
        field_bytes(&mut o, 0x0a, h);
    }
    if let Some(n) = &l.name {
        field_bytes(&mut o, 0x12, n);
    }
    if let Some(t) = l.tsize {
        field_var(&mut o, 0x18, t);
    }
    o
}

pub fn enc_node(links: &[RLink], data: Option<&[u8]>) -> Vec<u8> {
    let mut o = Vec::new();
    for l in links {
        field_bytes(&mut o, 0x12, &enc_link(l));
    }
    if let Some(d) = data {
        field_bytes(&mut o, 0x0a, d);
    }
    o
}

pub fn enc_data(d: &RData) -> Vec<u8> {
    let mut f: Vec<Vec<u8>> = vec![];
    let mut var = |f: &mut Vec<Vec<u8>>, tag: u8, v: u64| {
        let mut o = Vec::new();
        field_var(&mut o, tag, v);
        f.push(o)
    };
    var(&mut f, 0x08, d.typ);
    if let Some(x) = &d.data {
        let mut o = Vec::new();
        field_bytes(&mut o, 0x12, x);
        f.push(o);
    }
    if let Some(x) = d.filesize {
        var(&mut f, 0x18, x);
    }
    if !d.blocksizes.is_empty() {
        let mut o = Vec::new();
        for x in &d.blocksizes {
            field_var(&mut o, 0x20, *x);
        }
        f.push(o);
    }
    if let Some(x) = d.hash_type {
        var(&mut f, 0x28, x);
    }
    if let Some(x) = d.fanout {
        var(&mut f, 0x30, x);
    }
    if let Some(x) = d.meta.mode {
        var(&mut f, 0x38, x as u64);
    }
    if let Some((s, n)) = d.meta.mtime {
        let mut m = vec![];
        var(&mut m, 0x08, s as u64);
        if let Some(n) = n {
            let mut o = vec![0x15];
            o.extend_from_slice(&n.to_le_bytes());
            m.push(o);
        }
        lay_out(&mut m, d.layout >> 7, 3);
        let mut o = Vec::new();
        field_bytes(&mut o, 0x42, &m.concat());
        f.push(o);
    }
    lay_out(&mut f, d.layout, 9);
    f.concat()
}

/// Changes the order of the fields and puts fields among them which are not known to anybody, with
/// numbers from `first`.
fn lay_out(f: &mut Vec<Vec<u8>>, layout: u64, first: u64) {
    let mut x = layout;
    let mut draw = |n: u64| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) % n
    };
    if layout == 0 {
        return;
    }
    if draw(2) == 0 {
        for i in (1..f.len()).rev() {
            f.swap(i, draw(i as u64 + 1) as usize);
        }
    }
    for _ in 0..draw(4) {
        let number = match draw(4) {
            0 => 15 + draw(3),
            1 => 2045 + draw(6),
            2 => (1 << 29) - 1 - draw(3),
            _ => first + draw(3),
        };
        let mut o = Vec::new();
        match draw(4) {
            0 => {
                varint(&mut o, number << 3);
                let v = [0, 1, 127, 128, 300, 1 << 32, u64::MAX][draw(7) as usize];
                varint(&mut o, v);
            }
            1 => {
                varint(&mut o, number << 3 | 1);
                (0..8).for_each(|_| o.push(draw(256) as u8));
            }
            2 => {
                varint(&mut o, number << 3 | 2);
                let n = [0, 1, 2, 5, 127, 128, 300][draw(7) as usize];
                varint(&mut o, n);
                (0..n).for_each(|_| o.push(draw(256) as u8));
            }
            _ => {
                varint(&mut o, number << 3 | 5);
                (0..4).for_each(|_| o.push(draw(256) as u8));
            }
        }
        let at = draw(f.len() as u64 + 1) as usize;
        f.insert(at, o);
    }
}

pub fn enc(links: &[RLink], d: &RData) -> Vec<u8> {
    enc_node(links, Some(&enc_data(d)))
}

// ---------------------------------------------------------------------------------- decoding

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn var(&mut self) -> Option<u64> {
        let mut v: u64 = 0;
        for i in 0..10 {
            let b = *self.0.first()?;
            self.0 = &self.0[1..];
            if i == 9 && b > 1 {
                return None;
            }
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b & 0x80 == 0 {
                return Some(v);
            }
        }
        None
    }
    fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if n > self.0.len() as u64 {
            return None;
        }
        let (a, b) = self.0.split_at(n as usize);
        self.0 = b;
        Some(a)
    }
    /// (field, wire type, varint value or empty, bytes)
    fn field(&mut self) -> Option<(u64, u8, u64, &'a [u8])> {
        let tag = self.var()?;
        if tag > u32::MAX as u64 || tag >> 3 == 0 {
            return None;
        }
        let wt = (tag & 7) as u8;
        match wt {
            0 => Some((tag >> 3, 0, self.var()?, &[])),
            1 => self.take(8).map(|b| (tag >> 3, 1, 0, b)),
            2 => {
                let n = self.var()?;
                self.take(n).map(|b| (tag >> 3, 2, 0, b))
            }
            5 => self.take(4).map(|b| (tag >> 3, 5, 0, b)),
            _ => None,
        }
    }
}

/// Strict decoding: `None` for anything which is not a well-formed protobuf message of the right
/// shape (the code under test may be more lenient on those).
pub fn dec_link(b: &[u8]) -> Option<RLink> {
    let mut r = Rd(b);
    let mut l = RLink::default();
    while !r.0.is_empty() {
        match r.field()? {
            (1, 2, _, x) => l.hash = Some(x.to_vec()),
            (2, 2, _, x) => {
                std::str::from_utf8(x).ok()?;
                l.name = Some(x.to_vec())
            }
            (3, 0, v, _) => l.tsize = Some(v),
            _ => {}
        }
    }
    Some(l)
}
pub fn dec_node(b: &[u8]) -> Option<(Vec<RLink>, Option<Vec<u8>>)> {
    let mut r = Rd(b);
    let mut links = Vec::new();
    let mut data = None;
    while !r.0.is_empty() {
        match r.field()? {
            (2, 2, _, x) => links.push(dec_link(x)?),
            (1, 2, _, x) => data = Some(x.to_vec()),
            _ => {}
        }
    }
    Some((links, data))
}
pub fn dec_data(b: &[u8]) -> Option<RData> {
    let mut r = Rd(b);
    let mut d = RData::default();
    let mut mt: Option<(i64, Option<u32>)> = None;
    while !r.0.is_empty() {
        match r.field()? {
            // enums are 32 bits, parsers drop the others
            (1, 0, v, _) => d.typ = v as u32 as u64,
            (2, 2, _, x) => d.data = Some(x.to_vec()),
            (3, 0, v, _) => d.filesize = Some(v),
            (4, 0, v, _) => d.blocksizes.push(v),
            (5, 0, v, _) => d.hash_type = Some(v),
            (6, 0, v, _) => d.fanout = Some(v),
            (7, 0, v, _) => d.meta.mode = Some(v as u32),
            (8, 2, _, x) => {
                let mut m = Rd(x);
                let mut s = 0i64;
                let mut n = None;
                while !m.0.is_empty() {
                    match m.field()? {
                        (1, 0, v, _) => s = v as i64,
                        (2, 5, _, x) => n = Some(u32::from_le_bytes([x[0], x[1], x[2], x[3]])),
                        _ => {}
                    }
                }
                mt = Some((s, n));
            }
            _ => {}
        }
    }
    d.meta.mtime = mt;
    Some(d)
}

// ---------------------------------------------------------------------------------- cids

/// dag-pb / sha2-256
pub fn cid_v1(block: &[u8]) -> Cid {
    let mut b = vec![0x01, 0x70];
    b.extend_from_slice(&Code::Sha2_256.digest(block).to_bytes());
    Cid::try_from(&b[..]).expect("valid cid")
}
pub fn cid_v0(block: &[u8]) -> Cid {
    let b = Code::Sha2_256.digest(block).to_bytes();
    Cid::try_from(&b[..]).expect("valid cid")
}
/// some other codec, for opaque targets
pub fn cid_codec(codec: u64, block: &[u8]) -> Cid {
    let mut b = vec![0x01];
    varint(&mut b, codec);
    b.extend_from_slice(&Code::Sha2_256.digest(block).to_bytes());
    Cid::try_from(&b[..]).expect("valid cid")
}
pub fn cid_sha512(block: &[u8]) -> Cid {
    let mut b = vec![0x01, 0x70];
    b.extend_from_slice(&Code::Sha2_512.digest(block).to_bytes());
    Cid::try_from(&b[..]).expect("valid cid")
}
/// A hash function whose code takes several varint bytes; the digest itself is nobody's concern here.
pub fn cid_code(codec: u64, code: u64, block: &[u8]) -> Cid {
    fn varint(mut n: u64, b: &mut Vec<u8>) {
        while n >= 0x80 {
            b.push(n as u8 | 0x80);
            n >>= 7;
        }
        b.push(n as u8);
    }
    let h = Code::Sha2_256.digest(block);
    let mut b = vec![0x01];
    varint(codec, &mut b);
    varint(code, &mut b);
    b.push(h.digest().len() as u8);
    b.extend_from_slice(h.digest());
    Cid::try_from(&b[..]).expect("valid cid")
}
/// dag-pb / identity: the block itself
pub fn cid_inline(block: &[u8]) -> Cid {
    let mut b = vec![0x01, 0x70, 0x00, block.len() as u8];
    b.extend_from_slice(block);
    Cid::try_from(&b[..]).expect("valid cid")
}
/// identity multihash with a tiny payload
pub fn cid_identity(payload: &[u8]) -> Cid {
    let mut b = vec![0x01, 0x55, 0x00, payload.len() as u8];
    b.extend_from_slice(payload);
    Cid::try_from(&b[..]).expect("valid cid")
}

pub fn short(c: &Cid) -> String {
    let s = c.to_string();
    s[s.len().saturating_sub(8)..].to_string()
}
