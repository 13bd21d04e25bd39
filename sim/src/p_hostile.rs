//! World "hostile": some peers lie. Traversals are handed forged, stale, misdelivered or broken
//! blocks at seeded steps, next to healthy traversals with which they share caches.
//! U08, U09, U12, U15.
use crate::core::*;
use crate::gen::*;
use crate::net::Session;
use crate::p_read::*;
use crate::p_truth::*;
use crate::refpb::*;
use crate::runner::Prop;
use crate::{ensure, ev};
use libipld::Cid;
use std::convert::TryFrom;
use std::ops::Range;
use std::rc::Rc;
use unixfs_v1::dir::{resolve, MaybeResolved, ShardedLookup};
use unixfs_v1::file::visit::{FileVisit, IdleFileVisit};
use unixfs_v1::walk::{ContinuedWalk, Walker};

// ---------------------------------------------------------------------------------- the liar

pub fn bad_cid(run: &mut Run) -> Vec<u8> {
    match run.below(9) {
        0 => vec![],
        1 => vec![0x12],
        2 => {
            let mut v = vec![0x12, 0x20];
            v.extend_from_slice(&[7; 31]);
            v
        }
        3 => vec![0x01, 0x70],
        4 => vec![0x01, 0x70, 0x12, 0x20, 1, 2, 3],
        5 => vec![0x02, 0x70, 0x12, 0x01, 0xff],
        6 => vec![0xff; 12],
        7 => vec![0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01, 0x12, 0x00],
        _ => {
            let n = run.urange(1, 40);
            content_bytes(run.below(1 << 20) + 1, n)
        }
    }
}

pub fn hostile_name(run: &mut Run) -> Vec<u8> {
    match run.below(4) {
        0 => run.pick(&["", ".", "..", "/", "a/b", "/etc/passwd", "../../x", "a/", "./a", "//", "a//b"]).as_bytes().to_vec(),
        1 => run.pick(&["F", "FF", "00", "é", "0é", "00.", "00..", "00/", "00a/b", "00/abs", "000", "日", "\u{10348}", "a\u{301}b", "zz", "zzx", "0", "A0../x", "00./a"]).as_bytes().to_vec(),
        2 => run.pick(&["\0", "00\0", "a\nb", "00\u{202e}x", "C:\\x", "00C:", "~", "-rf", "00 ", " "]).as_bytes().to_vec(),
        _ => {
            let used = Default::default();
            format!("{}{}", run.pick(&["", "00", "FF", "1"]), gen_name(run, &used)).into_bytes()
        }
    }
}

fn odd_u64(run: &mut Run, near: u64) -> u64 {
    match run.below(7) {
        0 => 0,
        1 => near.wrapping_add(1),
        2 => near.wrapping_sub(1),
        3 => run.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64, i64::MAX as u64]),
        4 => near / 2,
        5 => near.saturating_mul(2),
        _ => run.below(1000),
    }
}

/// A decodable variation of `base` (or something fresh when it cannot be decoded).
pub fn forge(run: &mut Run, base: &[u8], store: &Blocks) -> Vec<u8> {
    let s = run.t.begin();
    let (mut links, data) = dec_node(base).unwrap_or_default();
    let mut d = match data.as_deref().and_then(dec_data) {
        Some(d) => d,
        None => RData { typ: run.below(6), ..Default::default() },
    };
    let n = run.urange(1, 3);
    for _ in 0..n {
        let m = run.t.begin();
        match run.below(20) {
            0 => {
                run.fault("forged_type");
                d.typ = run.pick(&[T_RAW, T_DIR, T_FILE, T_META, T_SYMLINK, T_HAMT, 6, 77]);
                if d.typ == T_HAMT && run.flip() {
                    d.fanout = Some(256);
                    d.hash_type = Some(34);
                    d.filesize = None;
                    d.blocksizes.clear();
                }
            }
            1 => {
                run.fault("forged_filesize");
                let near = d.filesize.unwrap_or(d.data.as_ref().map_or(0, |x| x.len() as u64));
                d.filesize = if run.chance(1, 5) { None } else { Some(odd_u64(run, near)) };
            }
            2 | 3 => {
                run.fault("forged_blocksize");
                if d.blocksizes.is_empty() {
                    d.blocksizes.push(odd_u64(run, 5));
                } else {
                    let i = run.idx(d.blocksizes.len());
                    let near = d.blocksizes[i];
                    d.blocksizes[i] = odd_u64(run, near);
                }
            }
            4 => {
                // the total stays the same
                run.fault("forged_blocksize_shift");
                if d.blocksizes.len() > 1 {
                    let i = run.idx(d.blocksizes.len());
                    let j = run.idx(d.blocksizes.len());
                    let k = run.range(1, 5).min(d.blocksizes[i]);
                    d.blocksizes[i] -= k;
                    d.blocksizes[j] = d.blocksizes[j].wrapping_add(k);
                }
            }
            5 => {
                run.fault("forged_consistent_resize");
                // block sizes and file size agree with each other but not with the parent
                if d.blocksizes.is_empty() {
                    let n = odd_u64(run, d.data.as_ref().map_or(0, |x| x.len() as u64)).min(2000) as usize;
                    d.data = Some(content_bytes(run.below(1 << 20) + 1, n));
                    d.filesize = Some(n as u64);
                } else {
                    let i = run.idx(d.blocksizes.len());
                    let near = d.blocksizes[i];
                    d.blocksizes[i] = odd_u64(run, near).min(1 << 50);
                    d.filesize = Some(d.blocksizes.iter().fold(0u64, |a, b| a.wrapping_add(*b)));
                }
            }
            6 => {
                run.fault("forged_links_dropped");
                if !links.is_empty() {
                    let i = run.idx(links.len());
                    links.remove(i);
                    if run.flip() && i < d.blocksizes.len() {
                        d.blocksizes.remove(i);
                    }
                }
            }
            7 => {
                run.fault("forged_links_added");
                let l = if links.is_empty() || run.chance(1, 3) {
                    let c: Vec<&Cid> = store.0.keys().collect();
                    RLink { hash: Some(c[run.idx(c.len())].to_bytes()), name: Some(hostile_name(run)), tsize: Some(3) }
                } else {
                    run.pick(&links)
                };
                let at = run.idx(links.len() + 1);
                links.insert(at, l);
                if run.flip() {
                    let b = odd_u64(run, 4).min(1 << 50);
                    d.blocksizes.insert(at.min(d.blocksizes.len()), b);
                    if run.flip() {
                        d.filesize = Some(d.blocksizes.iter().fold(0u64, |a, b| a.wrapping_add(*b)));
                    }
                }
            }
            8 => {
                run.fault("forged_links_reordered");
                if links.len() > 1 {
                    let i = run.idx(links.len());
                    let j = run.idx(links.len());
                    links.swap(i, j);
                }
            }
            9 | 10 => {
                run.fault("forged_invalid_cid");
                if !links.is_empty() {
                    let i = run.idx(links.len());
                    links[i].hash = if run.chance(1, 6) { None } else { Some(bad_cid(run)) };
                }
            }
            11 | 12 => {
                run.fault("forged_name");
                if !links.is_empty() {
                    let i = run.idx(links.len());
                    links[i].name = if run.chance(1, 6) { None } else { Some(hostile_name(run)) };
                }
            }
            13 => {
                run.fault("forged_metadata");
                d.meta = gen_meta(run, 1, 1);
            }
            14 => {
                run.fault("forged_hamt_parameters");
                d.fanout = run.pick(&[None, Some(256), Some(16), Some(1024), Some(0), Some(u64::MAX)]);
                d.hash_type = run.pick(&[Some(34), None, Some(18), Some(0)]);
            }
            15 | 16 => {
                run.fault("forged_data");
                let old = d.data.as_ref().map_or(0, |x| x.len());
                let n = match run.below(5) {
                    0 => 0,
                    1 => old + 1,
                    2 => old.saturating_sub(1),
                    3 => run.urange(0, 50),
                    _ => old,
                };
                d.data = if n == 0 && run.flip() { None } else { Some(content_bytes(run.below(1 << 20) + 1, n)) };
            }
            17 => {
                run.fault("forged_leaf");
                links.clear();
                d.blocksizes.clear();
                d.typ = run.pick(&[T_FILE, T_RAW]);
                let total = d.filesize.unwrap_or(0).min(3000) as usize;
                let n = if run.flip() { total } else { run.urange(0, 60) };
                d.data = Some(content_bytes(run.below(1 << 20) + 1, n));
                if run.flip() {
                    d.filesize = Some(n as u64);
                }
            }
            18 => {
                // links to itself or to anything else
                run.fault("forged_target");
                if !links.is_empty() {
                    let c: Vec<&Cid> = store.0.keys().collect();
                    let i = run.idx(links.len());
                    links[i].hash = Some(c[run.idx(c.len())].to_bytes());
                }
            }
            _ => {
                run.fault("forged_tsize");
                if !links.is_empty() {
                    let i = run.idx(links.len());
                    links[i].tsize = Some(odd_u64(run, 10));
                }
            }
        }
        run.t.end(m);
    }
    let dat = enc_data(&d);
    let r = match run.below(6) {
        0 => {
            let mut o = enc_node(&[], Some(&dat));
            o.extend_from_slice(&enc_node(&links, None));
            o
        }
        _ => enc_node(&links, Some(&dat)),
    };
    run.t.end(s);
    r
}

/// Plays with the encoding itself; the outcome may or may not be decodable.
pub fn rewire(run: &mut Run, base: &[u8]) -> Vec<u8> {
    let s = run.t.begin();
    run.fault("rewired_encoding");
    let (links, data) = dec_node(base).unwrap_or_default();
    let mut o = vec![];
    let junk = |run: &mut Run, o: &mut Vec<u8>| match run.below(13) {
        // unknown fields of all wire types
        0 => {
            o.extend_from_slice(&[0x78, 0x05]);
        }
        1 => {
            o.push(0x79);
            o.extend_from_slice(&[1; 8]);
        }
        2 => {
            let n = run.urange(0, 20);
            o.push(0x7a);
            varint(o, n as u64);
            o.extend_from_slice(&content_bytes(3, n));
        }
        3 => {
            o.push(0x7d);
            o.extend_from_slice(&[1; 4]);
        }
        // lengths which overrun
        4 => {
            let t = run.pick(&[0x7au8, 0x0a, 0x12, 0x1a, 0x42, 0x22]);
            o.push(t);
            let l = run.pick(&[1u64 << 31, u32::MAX as u64, u64::MAX, 1 << 63, (1 << 32) + 1, 100_000, u64::MAX - 6, u64::MAX - 20, (1 << 63) + 5]);
            varint(o, l);
        }
        // groups and reserved wire types
        5 => o.push(run.pick(&[0x0bu8, 0x0c, 0x0e, 0x0f, 0x7b, 0x7c])),
        // overlong varints
        6 => {
            o.push(0x18);
            let n = run.urange(1, 11);
            o.extend(std::iter::repeat(0x80).take(n));
            o.push(run.pick(&[0u8, 1, 0x7f]));
        }
        7 => {
            o.extend_from_slice(&[0x92, 0x80, 0x80, 0x80, 0x00, 0x00]);
        }
        // tag of field zero
        8 => o.extend_from_slice(&[0x00, 0x01]),
        // right field, other wire type
        9 => o.extend_from_slice(&[0x08, 0x07]),
        10 => {
            o.push(0x15);
            o.extend_from_slice(&[9; 4]);
        }
        // another Data field
        11 => {
            let n = run.urange(0, 12);
            let x = match run.below(3) {
                0 => content_bytes(run.below(1000) + 1, n),
                1 => vec![],
                _ => enc_data(&RData { typ: run.below(6), data: Some(content_bytes(5, n)), filesize: Some(n as u64), ..Default::default() }),
            };
            o.push(0x0a);
            varint(o, x.len() as u64);
            o.extend_from_slice(&x);
        }
        // a link which is no valid message, or has no valid name
        _ => {
            let x: Vec<u8> = run.pick(&[vec![0x0a, 0x05, 1], vec![0x12, 0x02, 0xff, 0xfe], vec![0x12, 0x01, 0xc3], vec![0xff], vec![], vec![0x18, 0xff, 0xff]]);
            o.push(0x12);
            varint(o, x.len() as u64);
            o.extend_from_slice(&x);
        }
    };
    let many = run.urange(1, 2);
    for k in 0..3 {
        if run.below(3) < many as u64 {
            junk(run, &mut o);
        }
        match k {
            0 => o.extend_from_slice(&enc_node(&links, None)),
            1 => {
                if let Some(d) = &data {
                    let mut d = d.clone();
                    if run.chance(1, 3) {
                        // inside of the UnixFS message
                        let mut j = vec![];
                        junk(run, &mut j);
                        if run.flip() {
                            j.extend_from_slice(&d);
                            d = j;
                        } else {
                            d.extend_from_slice(&j);
                        }
                    }
                    o.extend_from_slice(&enc_node(&[], Some(&d)));
                }
            }
            _ => {}
        }
    }
    run.t.end(s);
    o
}

/// A block made from nothing.
pub fn fresh(run: &mut Run, store: &Blocks) -> Vec<u8> {
    let s = run.t.begin();
    run.fault("made_up_block");
    let typ = run.pick(&[T_DIR, T_HAMT, T_FILE, T_RAW, T_SYMLINK, T_META]);
    let n = run.skewed(20);
    let c: Vec<Cid> = store.0.keys().cloned().collect();
    let mut links = vec![];
    for _ in 0..n {
        let hash = if run.chance(1, 24) { bad_cid(run) } else { c[run.idx(c.len())].to_bytes() };
        let name = match run.below(10) {
            0 => hostile_name(run),
            1..=3 if typ == T_HAMT => format!("{:02X}", run.below(256)).into_bytes(),
            _ => {
                let u = Default::default();
                format!("{}{}", if typ == T_HAMT { "0A" } else { "" }, gen_name(run, &u)).into_bytes()
            }
        };
        links.push(RLink { hash: Some(hash), name: Some(name), tsize: Some(1) });
    }
    let mut d = RData { typ, ..Default::default() };
    match typ {
        T_HAMT => {
            d.fanout = Some(256);
            d.hash_type = Some(34);
            d.data = Some(vec![1]);
        }
        T_FILE | T_RAW => {
            if links.is_empty() {
                let n = run.urange(0, 30);
                d.data = Some(content_bytes(9, n));
                d.filesize = Some(n as u64);
            } else {
                d.blocksizes = links.iter().map(|_| run.below(30)).collect();
                d.filesize = Some(d.blocksizes.iter().sum());
            }
        }
        T_SYMLINK => d.data = Some(b"x".to_vec()),
        _ => {}
    }
    if run.chance(1, 6) {
        d.meta = gen_meta(run, 1, 1);
    }
    run.t.end(s);
    enc(&links, &d)
}

/// Kinds of lies: only decodable blocks, or anything at all.
pub fn lie(run: &mut Run, right: Option<&Bytes>, store: &Blocks, any: bool) -> Vec<u8> {
    let s = run.t.begin();
    let other = {
        let all: Vec<&Bytes> = store.0.values().collect();
        all[run.idx(all.len())].clone()
    };
    let base: Bytes = match right {
        Some(b) if !run.chance(1, 6) => b.clone(),
        _ => other.clone(),
    };
    let r = match run.below(if any { 12 } else { 6 }) {
        0 => {
            run.fault("misdelivered_block");
            (*other).clone()
        }
        1..=4 => forge(run, &base, store),
        5 => fresh(run, store),
        6 | 7 => rewire(run, &base),
        8 => {
            let b = forge(run, &base, store);
            rewire(run, &b)
        }
        9 => {
            run.fault("bit_flipped");
            let mut v = (*base).clone();
            for _ in 0..run.urange(1, 3) {
                if !v.is_empty() {
                    let i = run.idx(v.len());
                    v[i] ^= 1 << run.below(8);
                }
            }
            v
        }
        10 => {
            run.fault("truncated");
            let mut v = (*base).clone();
            let n = run.idx(v.len() + 1);
            v.truncate(n);
            v
        }
        _ => {
            run.fault("garbage");
            let n = run.skewed(200);
            content_bytes(run.below(1 << 30) + 1, n)
        }
    };
    run.t.end(s);
    r
}

// ---------------------------------------------------------------------------------- oracle bits

fn link_cid(l: &RLink) -> Option<Cid> {
    l.hash.as_deref().and_then(|h| Cid::try_from(h).ok())
}

enum Fk {
    Leaf(Vec<u8>, u64),
    Inner(Vec<(Option<Cid>, u64)>, u64),
}

/// What an accepted file block can only mean; an error is why it must not be accepted.
fn classify(links: &[RLink], d: &RData, assigned: Option<u64>) -> Result<Fk, &'static str> {
    if ![T_FILE, T_RAW].contains(&d.typ) {
        return Err("block is not of a file");
    }
    if assigned.is_some() && (d.meta.mode.is_some() || d.meta.mtime.is_some()) {
        return Err("non-root block has metadata");
    }
    if links.len() != d.blocksizes.len() {
        return Err("links and block sizes do not match");
    }
    if links.is_empty() {
        let data = d.data.clone().unwrap_or_default();
        let n = data.len() as u64;
        if assigned.map_or(false, |a| a != n) {
            return Err("leaf covers more or less than declared");
        }
        if assigned.is_none() && d.filesize.map_or(false, |f| f != n) {
            return Err("file declares another size than its content has");
        }
        Ok(Fk::Leaf(data, n))
    } else {
        let sum = match d.blocksizes.iter().try_fold(0u64, |a, b| a.checked_add(*b)) {
            Some(s) => s,
            None => return Err("block sizes overflow"),
        };
        if d.filesize.map_or(false, |f| f != sum) {
            return Err("declared size is not the sum of the block sizes");
        }
        if assigned.map_or(false, |a| a != sum) {
            return Err("subtree covers more or less than declared");
        }
        Ok(Fk::Inner(links.iter().zip(&d.blocksizes).map(|(l, s)| (link_cid(l), *s)).collect(), sum))
    }
}

/// `None`: not decided by the strict decoder.
fn decode(block: &[u8]) -> Option<(Vec<RLink>, Option<RData>)> {
    let (links, data) = dec_node(block)?;
    match data {
        Some(d) if !d.is_empty() => {
            let mut d = dec_data(&d)?;
            d.typ = d.typ as u32 as u64;
            Some((links, Some(d)))
        }
        _ => Some((links, None)),
    }
}

fn inside(part: &[u8], whole: &[u8]) -> bool {
    if part.is_empty() {
        return true;
    }
    let (a, b) = (part.as_ptr() as usize, whole.as_ptr() as usize);
    a >= b && a + part.len() <= b + whole.len()
}

/// Memory taken by a single call stays proportional to what the traversal was given.
fn memory(given: usize, what: &str) -> Res {
    let p = crate::alloc::last_peak();
    let max = (1 << 20) + 200 * given as i64;
    ensure!(p <= max, "memory", "{} took {} bytes after {} bytes of blocks", what, p, given);
    Ok(())
}

pub trait Hostile {
    fn want(&mut self, run: &mut Run) -> Res<Option<Cid>>;
    fn feed(&mut self, run: &mut Run, block: &[u8]) -> Res;
}

// ---------------------------------------------------------------------------------- visits

type Piece = (Option<Cid>, u64, u64);

struct HVisit {
    root: Cid,
    range: Option<Range<u64>>,
    visit: Option<FileVisit>,
    started: bool,
    done: bool,
    /// possible remaining pieces, next one last
    hyps: Vec<Vec<Piece>>,
    pol: CachePol,
    model: bool,
    truth: bool,
    given: usize,
    total: u64,
    got: u64,
}

impl HVisit {
    fn new(root: Cid, range: Option<Range<u64>>, pol: CachePol, model: bool) -> Self {
        HVisit { root, range, visit: None, started: false, done: false, hyps: vec![], pol, model, truth: false, given: 0, total: 0, got: 0 }
    }
    fn skippable(&self, p: &Piece) -> bool {
        match &self.range {
            None => false,
            Some(r) => !(p.1.max(r.start) < p.2.min(r.end)),
        }
    }
    /// a piece which does not even touch the range is never needed
    fn possible(&self, p: &Piece) -> bool {
        self.range.as_ref().map_or(true, |r| p.1.max(r.start) <= p.2.min(r.end))
    }
    fn part(&self, data: &[u8], start: u64) -> Vec<u8> {
        match &self.range {
            None => data.to_vec(),
            Some(r) => {
                let end = start + data.len() as u64;
                let (lo, hi) = (r.start.max(start), r.end.min(end));
                if lo < hi {
                    data[(lo - start) as usize..(hi - start) as usize].to_vec()
                } else {
                    vec![]
                }
            }
        }
    }
    fn desc(&self) -> String {
        format!("visit of {} range {:?} total {} after {} bytes", short(&self.root), self.range, self.total, self.got)
    }
    fn accepted(&mut self, run: &mut Run, block: &[u8], bytes: &[u8], size: Option<u64>) -> Res {
        ensure!(inside(bytes, block), "bytes-from-elsewhere", "bytes returned are not part of the supplied block, {}", self.desc());
        if !self.model {
            return Ok(());
        }
        let (links, d) = match decode(block) {
            Some((l, Some(d))) => (l, d),
            Some((_, None)) => return viol("accepts-no-unixfs", format!("block without UnixFS data was accepted, {}", self.desc())),
            None => {
                run.count("probe_undecided_block");
                self.done = true;
                return Ok(());
            }
        };
        let assigned = if let Some(s) = size {
            self.started = true;
            match classify(&links, &d, None) {
                Ok(Fk::Leaf(_, t)) | Ok(Fk::Inner(_, t)) => {
                    self.total = t;
                    ensure!(s == t, "declared-size", "file size reported is {} but the root declares {}", s, t);
                }
                Err(why) => return viol("accepts-inconsistent-root", format!("root accepted although {}, {}", why, self.desc())),
            }
            self.hyps = vec![vec![(Some(self.root), 0, self.total)]];
            None
        } else {
            Some(())
        };
        let mut out = vec![];
        let mut why_not = String::new();
        for h in &self.hyps {
            let mut h = h.clone();
            let (_, s, e) = h.pop().expect("matched by want");
            match classify(&links, &d, assigned.map(|_| e - s)) {
                Err(why) => why_not = format!("block for {}..{} accepted although {}", s, e, why),
                Ok(Fk::Leaf(data, _)) => {
                    let want = self.part(&data, s);
                    if want == bytes {
                        out.push(h);
                    } else {
                        why_not = format!("{} bytes returned instead of {} for the piece {}..{}", bytes.len(), want.len(), s, e);
                    }
                }
                Ok(Fk::Inner(kids, _)) => {
                    if bytes.is_empty() {
                        let mut at = s;
                        let mut add = vec![];
                        for (c, n) in kids {
                            add.push((c, at, at + n));
                            at += n;
                        }
                        add.reverse();
                        h.extend(add);
                        out.push(h);
                    } else {
                        why_not = format!("{} bytes returned for a block with links", bytes.len());
                    }
                }
            }
        }
        ensure!(!out.is_empty(), "misplaced-bytes", "{}, {}", why_not, self.desc());
        self.hyps = out;
        self.got += bytes.len() as u64;
        Ok(())
    }
    fn finished(&mut self, run: &mut Run) -> Res {
        let was = self.done;
        self.done = true;
        if !self.model || was {
            return Ok(());
        }
        run.count("probe_hostile_read_completed");
        ensure!(self.hyps.iter().any(|h| h.iter().all(|p| self.skippable(p))), "incomplete-read", "ended without error but pieces are missing, {}", self.desc());
        let want = match &self.range {
            None => self.total,
            Some(r) => r.end.min(self.total).saturating_sub(r.start.min(self.total)),
        };
        ensure!(self.got == want, "incomplete-read", "ended without error after {} of {} bytes, {}", self.got, want, self.desc());
        Ok(())
    }
}

impl Hostile for HVisit {
    fn want(&mut self, _run: &mut Run) -> Res<Option<Cid>> {
        if self.done {
            return Ok(None);
        }
        let v = match &self.visit {
            None => return Ok(Some(self.root)),
            Some(v) => v,
        };
        let (p, sz) = lib(|| (*v.pending_links().0, v.file_size()));
        if self.model {
            ensure!(sz == self.total, "declared-size", "file size reported is {}, {}", sz, self.desc());
            let mut out = vec![];
            for h in &self.hyps {
                let mut h = h.clone();
                while let Some(x) = h.last() {
                    if x.0 == Some(p) && self.possible(x) {
                        out.push(h.clone());
                    }
                    if !self.skippable(x) {
                        break;
                    }
                    h.pop();
                }
            }
            ensure!(!out.is_empty(), "skips-block", "wants {} but the next piece is {:?}, {}", short(&p), self.hyps.first().and_then(|h| h.last()), self.desc());
            out.truncate(16);
            self.hyps = out;
        }
        Ok(Some(p))
    }
    fn feed(&mut self, run: &mut Run, block: &[u8]) -> Res {
        self.given += block.len();
        match self.visit.take() {
            None => {
                let mut idle = IdleFileVisit::default();
                if let Some(r) = self.range.clone() {
                    idle = idle.with_target_range(r);
                }
                let r = lib(|| idle.start(block).map_err(of_visit));
                memory(self.given, "starting a visit")?;
                match r {
                    Ok((b, sz, _, v)) => {
                        run.count("probe_hostile_block_accepted");
                        self.accepted(run, block, b, Some(sz))?;
                        self.visit = v;
                        if self.visit.is_none() {
                            self.finished(run)?;
                        }
                    }
                    Err(e) => {
                        ev!(run, "visit refused {}", e);
                        run.count("probe_hostile_block_refused");
                        if self.truth {
                            truth(run, &e, block, As::Root, &self.desc())?;
                        }
                        self.done = true;
                    }
                }
            }
            Some(v) => {
                let r = self.pol.file(run, |c| lib(|| v.continue_walk(block, c).map_err(of_visit)));
                memory(self.given, "continuing a visit")?;
                match r {
                    Ok((b, v)) => {
                        run.count("probe_hostile_block_accepted");
                        self.accepted(run, block, b, None)?;
                        self.visit = v;
                        if self.visit.is_none() {
                            self.finished(run)?;
                        }
                    }
                    Err(e) => {
                        ev!(run, "visit failed {}", e);
                        run.count("probe_hostile_block_refused");
                        if self.truth {
                            let assigned = self.hyps.iter().filter_map(|h| h.last().map(|p| p.2 - p.1)).collect();
                            truth(run, &e, block, As::File(assigned), &self.desc())?;
                        }
                        self.done = true;
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------- walks

#[derive(Clone, Debug)]
enum PK {
    Entry(String),
    Bucket(String),
    Seg(u64),
    /// cannot be reported under any path
    Unusable,
}
#[derive(Clone, Debug)]
struct Pend {
    cid: Option<Cid>,
    kind: PK,
}
impl Pend {
    fn skippable(&self) -> bool {
        match self.kind {
            PK::Unusable => true,
            PK::Seg(_) => false,
            _ => self.cid.is_none(),
        }
    }
}

#[derive(Clone)]
struct CurFile {
    path: String,
    cid: Cid,
    meta: RMeta,
    total: u64,
}

struct HWalk {
    root: Cid,
    root_name: String,
    walker: Option<Walker>,
    hyps: Vec<Vec<Pend>>,
    cur: Option<CurFile>,
    done: bool,
    pol: CachePol,
    given: usize,
    /// U08: file blocks have to be consistent; else U12: reports have to be faithful
    files: bool,
    truth: bool,
    steps: u32,
}

/// what has to be reported for a block
struct Exp {
    kind: &'static [&'static str],
    path: String,
    cid: Cid,
    meta: Option<RMeta>,
    file: Option<(Vec<u8>, u64, bool, bool)>,
    link: Option<Vec<u8>>,
}

impl HWalk {
    fn new(root: Cid, root_name: &str, pol: CachePol, files: bool) -> Self {
        let hyps = vec![vec![Pend { cid: Some(root), kind: PK::Entry(root_name.to_string()) }]];
        HWalk { root, root_name: root_name.into(), walker: None, hyps, cur: None, done: false, pol, given: 0, files, truth: false, steps: 0 }
    }
    fn desc(&self) -> String {
        format!("walk of {} as {:?} at step {}", short(&self.root), self.root_name, self.steps)
    }
    fn dirs(links: &[RLink], path: &str, sharded: bool) -> Vec<Pend> {
        links
            .iter()
            .map(|l| {
                let name = String::from_utf8(l.name.clone().unwrap_or_default()).expect("checked by the decoder");
                let kind = if sharded {
                    match name.get(2..) {
                        None => PK::Unusable,
                        Some("") => PK::Bucket(path.to_string()),
                        Some(n) if valid_name(n) => PK::Entry(join(path, n)),
                        Some(_) => PK::Unusable,
                    }
                } else if valid_name(&name) {
                    PK::Entry(join(path, &name))
                } else {
                    PK::Unusable
                };
                Pend { cid: link_cid(l), kind }
            })
            .collect()
    }
    /// what accepting the block in state `h` means; Err: must not be accepted
    fn meaning(&self, h: &[Pend], links: &[RLink], d: &RData) -> Result<(Exp, Vec<Pend>, Option<CurFile>), String> {
        let top = h.last().expect("matched by want");
        let cid = top.cid.expect("matched by want");
        let below = &h[..h.len() - 1];
        let segs = |below: &[Pend]| matches!(below.last(), Some(Pend { kind: PK::Seg(_), .. }));
        let dir_ok = d.filesize.is_none() && d.blocksizes.is_empty() && d.hash_type.is_none() && d.fanout.is_none() && d.data.as_ref().map_or(true, |x| x.is_empty());
        let hamt_ok = d.filesize.is_none() && d.blocksizes.is_empty() && d.hash_type == Some(34) && d.fanout == Some(256);
        match &top.kind {
            PK::Unusable => Err("the link has no usable name".into()),
            PK::Seg(n) => {
                let cur = self.cur.clone().expect("in a file");
                let (bytes, add) = match classify(links, d, Some(*n))? {
                    Fk::Leaf(b, _) => (b, vec![]),
                    Fk::Inner(k, _) => (vec![], k),
                };
                let mut add: Vec<Pend> = add.into_iter().map(|(c, n)| Pend { cid: c, kind: PK::Seg(n) }).collect();
                let last = add.is_empty() && !segs(below);
                add.reverse();
                let e = Exp { kind: &["File"], path: cur.path.clone(), cid: cur.cid, meta: Some(cur.meta.clone()), file: Some((bytes, cur.total, false, last)), link: None };
                Ok((e, add, Some(cur)))
            }
            PK::Bucket(path) => {
                if d.typ != T_HAMT {
                    return Err("a bucket link leads to something else".into());
                }
                if !hamt_ok {
                    return Err("unsupported shard properties".into());
                }
                let mut add = Self::dirs(links, path, true);
                add.reverse();
                Ok((Exp { kind: &["Bucket"], path: path.clone(), cid, meta: None, file: None, link: None }, add, None))
            }
            PK::Entry(path) => {
                let e = Exp { kind: &["Directory", "RootDirectory"], path: path.clone(), cid, meta: Some(d.meta.clone()), file: None, link: None };
                match d.typ {
                    T_DIR | T_HAMT => {
                        if d.typ == T_DIR && !dir_ok || d.typ == T_HAMT && !hamt_ok {
                            return Err("unsupported directory properties".into());
                        }
                        let mut add = Self::dirs(links, path, d.typ == T_HAMT);
                        add.reverse();
                        Ok((e, add, None))
                    }
                    T_META => Err("unsupported type".into()),
                    T_SYMLINK => Ok((Exp { kind: &["Symlink"], link: Some(d.data.clone().unwrap_or_default()), ..e }, vec![], None)),
                    _ => {
                        let (bytes, kids, total) = match classify(links, d, None)? {
                            Fk::Leaf(b, t) => (b, vec![], t),
                            Fk::Inner(k, t) => (vec![], k, t),
                        };
                        let last = kids.is_empty();
                        let mut add: Vec<Pend> = kids.into_iter().map(|(c, n)| Pend { cid: c, kind: PK::Seg(n) }).collect();
                        add.reverse();
                        let cur = CurFile { path: path.clone(), cid, meta: d.meta.clone(), total };
                        Ok((Exp { kind: &["File"], file: Some((bytes, total, true, last)), ..e }, add, Some(cur)))
                    }
                }
            }
        }
    }
    /// None: as expected
    fn differs(&self, cw: &ContinuedWalk<'_>, e: &Exp) -> Option<String> {
        let kind = match cw {
            ContinuedWalk::Bucket(..) => "Bucket",
            ContinuedWalk::Directory(..) => "Directory",
            ContinuedWalk::RootDirectory(..) => "RootDirectory",
            ContinuedWalk::File(..) => "File",
            ContinuedWalk::Symlink(..) => "Symlink",
        };
        let (cid, path, meta) = match cw {
            ContinuedWalk::Bucket(c, p) => (c, p, None),
            ContinuedWalk::Directory(c, p, m) | ContinuedWalk::RootDirectory(c, p, m) => (c, p, Some(m)),
            ContinuedWalk::File(_, c, p, m, _) => (c, p, Some(m)),
            ContinuedWalk::Symlink(_, c, p, m) => (c, p, Some(m)),
        };
        let bytes_differ = match (cw, &e.file) {
            (ContinuedWalk::File(s, _, _, _, t), Some((b, total, first, last))) => {
                if s.as_bytes() != &b[..] {
                    Some(format!("segment of {} bytes instead of {}", s.as_bytes().len(), b.len()))
                } else if *t != *total {
                    Some(format!("total size {} instead of {}", t, total))
                } else if (s.is_first(), s.is_last()) != (*first, *last) {
                    Some(format!("first={} last={} instead of {} {}", s.is_first(), s.is_last(), first, last))
                } else {
                    None
                }
            }
            _ => None,
        };
        if !e.kind.contains(&kind) {
            return Some(format!("{} reported instead of {}", kind, e.kind[0]));
        }
        if bytes_differ.is_some() || self.files {
            return bytes_differ;
        }
        if !crate::p_read::same_path(path, &e.path) {
            return Some(format!("path {:?} instead of {:?}", path, e.path));
        }
        if **cid != e.cid {
            return Some(format!("{} reported for {}", short(cid), short(&e.cid)));
        }
        if let (Some(m), Some(w)) = (meta, &e.meta) {
            if meta_of(m) != w.seen() {
                return Some(format!("{:?} instead of {:?}", m, w));
            }
        }
        if let (ContinuedWalk::Symlink(t, ..), Some(w)) = (cw, &e.link) {
            if **t != w[..] {
                return Some(format!("symlink target {:?} instead of {:?}", t, w));
            }
        }
        None
    }
}

impl Hostile for HWalk {
    fn want(&mut self, _run: &mut Run) -> Res<Option<Cid>> {
        if self.done {
            return Ok(None);
        }
        let (root, name) = (self.root, self.root_name.clone());
        let w = self.walker.get_or_insert_with(|| lib(|| Walker::new(root, name)));
        let more = lib(|| w.should_continue());
        if !more {
            self.done = true;
            ensure!(self.hyps.iter().any(|h| h.iter().all(|p| p.skippable())), "walk-ended-early", "ended without error but {:?} is missing, {}", self.hyps.first().and_then(|h| h.last()), self.desc());
            return Ok(None);
        }
        let p = lib(|| *w.pending_links().0);
        let mut out = vec![];
        for h in &self.hyps {
            let mut h = h.clone();
            while let Some(x) = h.last() {
                if x.cid == Some(p) {
                    out.push(h.clone());
                }
                if !x.skippable() {
                    break;
                }
                h.pop();
            }
        }
        ensure!(!out.is_empty(), "walk-request", "wants {} but next is {:?}, {}", short(&p), self.hyps.first().and_then(|h| h.last()), self.desc());
        out.truncate(16);
        self.hyps = out;
        Ok(Some(p))
    }
    fn feed(&mut self, run: &mut Run, block: &[u8]) -> Res {
        self.given += block.len();
        self.steps += 1;
        let mut w = self.walker.take().expect("started");
        let dec = decode(block);
        // (hypotheses kept, current file, whether the walk goes on being checked)
        type After = Option<(Vec<Vec<Pend>>, Option<CurFile>)>;
        let r: Result<Res<After>, Told> = self.pol.file(run, |c| match lib(|| w.next(block, c).map_err(of_walk)) {
            Err(e) => Err(e),
            Ok(cw) => Ok((|| {
                if let ContinuedWalk::File(s, ..) = &cw {
                    ensure!(inside(s.as_bytes(), block), "bytes-from-elsewhere", "segment is not part of the supplied block, {}", self.desc());
                }
                let (links, d) = match &dec {
                    Some((l, Some(d))) => (l, d),
                    Some((_, None)) => return viol("accepts-no-unixfs", format!("block without UnixFS data was accepted, {}", self.desc())),
                    None => return Ok(None),
                };
                let mut out = vec![];
                let mut why = String::new();
                let mut cur = None;
                let in_file = matches!(self.hyps[0].last(), Some(Pend { kind: PK::Seg(_), .. }));
                let is_file = in_file || [T_FILE, T_RAW].contains(&d.typ);
                for h in &self.hyps {
                    match self.meaning(h, links, d) {
                        Err(e) => why = format!("{:?}: accepted ({}) although {}", h.last().unwrap().kind, show(&cw), e),
                        Ok((e, add, c)) => match self.differs(&cw, &e) {
                            Some(x) => why = x,
                            None => {
                                let mut h = h.clone();
                                h.pop();
                                h.extend(add);
                                out.push(h);
                                cur = c;
                            }
                        },
                    }
                }
                // the consistency of files is one property's business, that of all else the other's
                if self.files && !is_file {
                    return Ok(None);
                }
                let foreign = is_file && !self.files && (d.hash_type.is_some() || d.fanout.is_some());
                ensure!(!foreign, "unsupported-accepted", "block of a file with the properties of a sharded directory was accepted, {}", self.desc());
                if out.is_empty() && !self.files && is_file && classify(links, d, if in_file { self.hyps[0].last().and_then(|p| if let PK::Seg(n) = p.kind { Some(n) } else { None }) } else { None }).is_err() {
                    return Ok(None);
                }
                ensure!(!out.is_empty(), if self.files { "misplaced-bytes" } else { "unfaithful-report" }, "{}, {}", why, self.desc());
                Ok(Some((out, cur)))
            })()),
        });
        memory(self.given, "a step of a walk")?;
        match r {
            Err(e) => {
                ev!(run, "walk failed {}", e);
                run.count("probe_hostile_block_refused");
                if self.truth {
                    let assigned: Vec<u64> = self.hyps.iter().filter_map(|h| if let Some(Pend { kind: PK::Seg(n), .. }) = h.last() { Some(*n) } else { None }).collect();
                    let at = match self.hyps[0].last() {
                        Some(Pend { kind: PK::Seg(_), .. }) => As::File(assigned),
                        Some(Pend { kind: PK::Bucket(_), .. }) => As::Bucket,
                        _ => As::Entry,
                    };
                    truth(run, &e, block, at, &self.desc())?;
                }
                // whoever loops for as long as a walk can be continued is to get out of the loop
                ensure!(!w.should_continue(), "failed-walk-continues", "a walk which failed with {} still claims to be able to continue, {}", e, self.desc());
                self.done = true;
            }
            Ok(x) => match x? {
                None => {
                    run.count("probe_undecided_block");
                    self.done = true;
                }
                Some((h, c)) => {
                    run.count("probe_hostile_block_accepted");
                    self.hyps = h;
                    self.cur = c;
                    self.walker = Some(w);
                }
            },
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------- lookups

struct HLookup {
    lookup: Option<ShardedLookup<'static>>,
    needle: Box<str>,
    root: Cid,
    known: Vec<Option<Cid>>,
    done: bool,
    pol: CachePol,
    truth: bool,
    given: usize,
}

impl HLookup {
    fn new(root: Cid, needle: &str, pol: CachePol) -> Self {
        HLookup { lookup: None, needle: needle.into(), root, known: vec![], done: false, pol, truth: false, given: 0 }
    }
    fn desc(&self) -> String {
        format!("looking for {:?} from {}", self.needle, short(&self.root))
    }
}

impl Hostile for HLookup {
    fn want(&mut self, _run: &mut Run) -> Res<Option<Cid>> {
        if self.done {
            return Ok(None);
        }
        match &self.lookup {
            None => Ok(Some(self.root)),
            Some(l) => {
                let p = lib(|| *l.pending_links().0);
                ensure!(self.known.contains(&Some(p)), "lookup-request", "wants {} which is no unsearched bucket, {}", short(&p), self.desc());
                Ok(Some(p))
            }
        }
    }
    fn feed(&mut self, run: &mut Run, block: &[u8]) -> Res {
        self.given += block.len();
        let first = self.lookup.is_none();
        let r = match self.lookup.take() {
            None => {
                let needle: &'static str = unsafe { &*(&*self.needle as *const str) };
                self.pol.dir(run, |c| lib(|| resolve(block, needle, c).map_err(of_resolve)))
            }
            Some(l) => {
                let p = lib(|| *l.pending_links().0);
                let i = self.known.iter().position(|k| *k == Some(p)).expect("checked by want");
                self.known.remove(i);
                self.pol.dir(run, |c| lib(|| l.continue_walk(block, c).map_err(of_lookup)))
            }
        };
        memory(self.given, "a step of a lookup")?;
        let r = match r {
            Err(e) => {
                ev!(run, "lookup failed {}", e);
                run.count("probe_hostile_block_refused");
                if self.truth {
                    truth(run, &e, block, if first { As::Resolve(&self.needle) } else { As::ShardOf(&self.needle) }, &self.desc())?;
                }
                self.done = true;
                return Ok(());
            }
            Ok(r) => r,
        };
        run.count("probe_hostile_block_accepted");
        // what may the answer be?
        let (links, data) = match dec_node(block) {
            Some(x) => x,
            None => {
                run.count("probe_undecided_block");
                self.done = true;
                return Ok(());
            }
        };
        let d = match data.as_deref() {
            None | Some([]) => None,
            Some(d) => match dec_data(d) {
                Some(mut d) => {
                    d.typ = d.typ as u32 as u64;
                    Some(d)
                }
                None => {
                    run.count("probe_undecided_block");
                    if let MaybeResolved::Found(c) = r {
                        ensure!(links.iter().any(|l| link_cid(l) == Some(c)), "resolves-elsewhere", "found {} which is linked from nowhere, {}", short(&c), self.desc());
                    }
                    self.done = true;
                    return Ok(());
                }
            },
        };
        let sharded = match &d {
            Some(d) if d.typ == T_HAMT => {
                let ok = d.filesize.is_none() && d.blocksizes.is_empty() && d.hash_type == Some(34) && d.fanout == Some(256);
                ensure!(ok, "unsupported-accepted", "bucket with unsupported properties accepted, {}", self.desc());
                true
            }
            Some(d) if d.typ == T_DIR && first => {
                let ok = d.filesize.is_none() && d.blocksizes.is_empty() && d.hash_type.is_none() && d.fanout.is_none() && d.data.as_ref().map_or(true, |x| x.is_empty());
                ensure!(ok, "unsupported-accepted", "directory with unsupported properties accepted, {}", self.desc());
                false
            }
            None if first => false,
            // no more of UnixFS than any other data
            Some(d) if first && d.typ > T_HAMT => false,
            d => return viol("unsupported-accepted", format!("resolved through a block of type {:?}, {}", d.as_ref().map(|d| d.typ), self.desc())),
        };
        let mut matching = vec![];
        for l in &links {
            let name = String::from_utf8(l.name.clone().unwrap_or_default()).expect("checked by the decoder");
            if sharded {
                if name.len() == 2 {
                    self.known.push(link_cid(l));
                } else if name.len() > 2 && name.get(2..) == Some(&*self.needle) {
                    matching.push(link_cid(l));
                }
            } else if name == *self.needle {
                matching.push(link_cid(l));
            }
        }
        match r {
            MaybeResolved::Found(c) => {
                ensure!(matching == [Some(c)], "resolves-elsewhere", "found {} but {} links match, {}", short(&c), matching.len(), self.desc());
                self.done = true;
            }
            MaybeResolved::NotFound => {
                ensure!(matching.is_empty() && self.known.is_empty(), "not-found-but-possible", "not found but {} links match and {} buckets were not searched, {}", matching.len(), self.known.len(), self.desc());
                self.done = true;
            }
            MaybeResolved::NeedToLoadMore(l) => {
                ensure!(matching.is_empty(), "match-ignored", "goes on but {} links match, {}", matching.len(), self.desc());
                self.lookup = Some(if run.flip() { lib(|| l.with_owned_needle()) } else { l });
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------- extraction

fn extract(run: &mut Run, block: &[u8]) -> Res {
    use unixfs_v1::dagpb::{node_data, wrap_node_data};
    let want = dec_node(block);
    let a = lib(|| node_data(block).map_err(|e| format!("{} {:?}", e, e)));
    memory(block.len(), "node_data")?;
    let desc = || format!("block of {} bytes: {}", block.len(), hex(&block[..block.len().min(60)]));
    if let Ok(Some(d)) = &a {
        ensure!(inside(d, block), "bytes-from-elsewhere", "extracted data is not part of the {}", desc());
    }
    match (&want, &a) {
        (Some((_, w)), Ok(got)) => ensure!(w.as_deref() == *got, "extracted-data", "extracted {:?} but the last Data field is {:?}, {}", got.map(hex), w.as_deref().map(hex), desc()),
        (Some((_, w)), Err(e)) => return viol("extraction-refused", format!("{} although the block decodes with Data {:?}, {}", e, w.as_deref().map(hex), desc())),
        (None, Ok(_)) => run.count("probe_undecided_block"),
        (None, Err(_)) => run.count("probe_hostile_block_refused"),
    }
    if matches!(&want, Some((_, Some(d))) if d.is_empty()) {
        run.count("probe_empty_data_field");
    }
    // the same through the wrapper, for several kinds of ownership
    let plain = a.as_ref().map(|d| d.unwrap_or_default().to_vec()).map_err(|e| e.clone());
    fn through<T: AsRef<[u8]>>(x: T, block: &[u8], plain: &Result<Vec<u8>, String>, probe: &str) -> Res {
        let r = lib(|| unixfs_v1::dagpb::wrap_node_data(x).map_err(|e| format!("{} {:?}", e, e)));
        match (r, plain) {
            (Ok(n), Ok(p)) => {
                ensure!(lib(|| n.node_data()) == &p[..], "wrapper-disagrees", "wrapped ({}) data has {} bytes instead of {}", probe, n.node_data().len(), p.len());
                ensure!(lib(|| n == p[..].to_vec()), "wrapper-disagrees", "wrapped ({}) block does not equal its data", probe);
                if !p.is_empty() {
                    ensure!(!lib(|| n == p[1..].to_vec()), "wrapper-disagrees", "wrapped ({}) block equals other data", probe);
                }
                let _ = lib(|| format!("{:?}", n));
                ensure!(n.get_ref().as_ref() == block, "wrapper-changes-block", "wrapped ({}) block is another", probe);
                let x = n.into_inner();
                ensure!(x.as_ref() == block, "wrapper-changes-block", "unwrapped ({}) block is another", probe);
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok(_), Err(e)) => viol("wrapper-disagrees", format!("wrapping ({}) works but borrowing fails: {}", probe, e)),
            (Err(e), Ok(_)) => viol("wrapper-disagrees", format!("borrowing works but wrapping ({}) fails: {}", probe, e)),
        }
    }
    through(block, block, &plain, "slice")?;
    through(block.to_vec(), block, &plain, "vec")?;
    through(block.to_vec().into_boxed_slice(), block, &plain, "box")?;
    if block.len() <= 32 {
        // lives inside of the wrapper, moves along with it
        struct Inline([u8; 32], usize);
        impl AsRef<[u8]> for Inline {
            fn as_ref(&self) -> &[u8] {
                &self.0[..self.1]
            }
        }
        let mut x = Inline([0; 32], block.len());
        x.0[..block.len()].copy_from_slice(block);
        run.count("probe_inline_block");
        through(x, block, &plain, "inline")?;
    }
    let _ = wrap_node_data::<&[u8]>;
    Ok(())
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

// ---------------------------------------------------------------------------------- scheduler

enum HS<'a> {
    Good(Box<dyn Session + 'a>),
    Bad(Box<dyn Hostile + 'a>, u32),
    Extract(u32),
}

fn drive(run: &mut Run, store: &Blocks, sessions: Vec<HS<'_>>, any: bool, p_lie: u64) -> Res {
    let mut cancels = 6;
    let mut wire = Wire::default();
    let mut live: Vec<(usize, HS<'_>)> = sessions.into_iter().enumerate().collect();
    while !live.is_empty() {
        let k = run.idx(live.len());
        let (i, s) = &mut live[k];
        let i = *i;
        run.sig(i as u64);
        run.now += 10;
        let over = match s {
            HS::Good(s) => match s.want(run)? {
                None => true,
                Some(w) => {
                    let b = match store.get(&w[0]) {
                        Some(b) => b.clone(),
                        None => return viol("unneeded-block", format!("healthy traversal {} wants {} which is no block of its tree", i, short(&w[0]))),
                    };
                    if cancels > 0 && run.chance(1, 60) {
                        run.fault("cancelled");
                        cancels -= 1;
                        s.restart(run)?;
                    } else {
                        ev!(run, "healthy {} gets {}", i, short(&w[0]));
                        wire.lend(&b, |b| s.feed(run, &w[0], b))?;
                    }
                    false
                }
            },
            HS::Bad(s, steps) => match s.want(run)? {
                None => true,
                Some(c) => {
                    let right = store.get(&c);
                    let b: Vec<u8> = match right {
                        Some(b) if !run.chance(p_lie, 8) => (**b).clone(),
                        _ => lie(run, right, store, any),
                    };
                    ev!(run, "deceived {} wants {} gets {} bytes #{}", i, short(&c), b.len(), bytes_sig(&b));
                    wire.lend(&b, |b| s.feed(run, b))?;
                    *steps += 1;
                    *steps >= 80
                }
            },
            HS::Extract(n) => {
                let all: Vec<&Bytes> = store.0.values().collect();
                let right = all[run.idx(all.len())].clone();
                let b = if run.chance(1, 4) { (*right).clone() } else { lie(run, Some(&right), store, any) };
                ev!(run, "extract from {} bytes #{}", b.len(), bytes_sig(&b));
                extract(run, &b)?;
                *n -= 1;
                *n == 0
            }
        };
        if over {
            live.swap_remove(k);
        }
    }
    Ok(())
}

fn hostile_files(run: &mut Run, model: bool, any: bool) -> Res {
    let mut store = Blocks::default();
    let nf = run.urange(1, 3);
    let mut files: Vec<Rc<FileDag>> = vec![];
    for _ in 0..nf {
        let huge = run.chance(1, 8);
        let f = gen_file(run, 16, huge);
        f.store(&mut store);
        ev!(run, "file {} style={} size={}", short(&f.root().cid), f.style, f.size());
        files.push(Rc::new(f));
    }
    if run.chance(1, 2) {
        gen_tree(run, &mut store, 3, false);
    }
    let pool = Pool::new(2);
    let p_lie = run.pick(&[1u64, 2, 2, 4, 7]);
    let mut sessions = vec![];
    for _ in 0..run.urange(1, 4) {
        let f = run.pick(&files);
        let pol = CachePol::gen(run, &pool);
        let range = if f.huge || run.flip() { Some(gen_range(run, &f)) } else { None };
        let s: Box<dyn Hostile> = if range.is_none() && model && run.chance(1, 3) {
            Box::new(HWalk::new(f.root().cid, "f", pol, true))
        } else {
            Box::new(HVisit::new(f.root().cid, range, pol, model))
        };
        sessions.push(HS::Bad(s, 0));
    }
    let good = if model { run.urange(0, 1) } else { run.urange(1, 3) };
    for _ in 0..good {
        let f = run.pick(&files);
        let pol = CachePol::gen(run, &pool);
        let s: Box<dyn Session> = if f.huge || run.flip() {
            let r = gen_range(run, &f);
            Box::new(RangeSession::new(f, r, pol, REPORT))
        } else {
            Box::new(VisitSession::new(f, pol, REPORT))
        };
        sessions.push(HS::Good(s));
    }
    run.summary = format!("{} traversals over {} files", sessions.len(), nf);
    drive(run, &store, sessions, any, p_lie)
}

fn u08(run: &mut Run) -> Res {
    hostile_files(run, true, false)
}
fn u09(run: &mut Run) -> Res {
    hostile_files(run, false, true)
}

fn hostile_tree(run: &mut Run) -> Result<(Blocks, Rc<TNode>, Vec<Rc<TNode>>), Violation> {
    let mut store = Blocks::default();
    let budget = run.pick(&[3usize, 8, 16]);
    let tree = gen_tree(run, &mut store, budget, false);
    let (mut f, mut dirs) = (vec![], vec![]);
    collect(&tree, &mut f, &mut dirs, 40);
    ev!(run, "tree {} with {} occurrences", short(&tree.cid), tree.nocc);
    Ok((store, tree, dirs))
}

fn u12(run: &mut Run) -> Res {
    let (mut store, tree, _) = hostile_tree(run)?;
    let other = gen_tree(run, &mut store, 4, false);
    let pool = Pool::new(2);
    let p_lie = run.pick(&[1u64, 1, 2, 4, 7]);
    let mut sessions = vec![];
    for _ in 0..run.urange(1, 3) {
        let name = gen_any_root(run);
        let pol = CachePol::gen(run, &pool);
        sessions.push(HS::Bad(Box::new(HWalk::new(tree.cid, &name, pol, false)), 0));
    }
    for _ in 0..run.urange(0, 2) {
        let name = gen_any_root(run);
        let pol = CachePol::gen(run, &pool);
        let t = if run.flip() { tree.clone() } else { other.clone() };
        sessions.push(HS::Good(Box::new(WalkSession::new(t, &name, pol, REPORT))));
    }
    run.summary = format!("{} walks", sessions.len());
    drive(run, &store, sessions, true, p_lie)
}

fn u15(run: &mut Run) -> Res {
    let (mut store, tree, dirs) = hostile_tree(run)?;
    let d = Rc::new(gen_dir(run, &mut store, true));
    let mut all: Vec<Rc<DirRef>> = dirs.into_iter().map(|d| Rc::new(DirRef::Tree(d))).collect();
    all.push(d);
    let pool = Pool::new(2);
    let p_lie = run.pick(&[1u64, 2, 4, 7]);
    let mut sessions = vec![];
    for _ in 0..run.urange(1, 4) {
        let d = run.pick(&all);
        let pol = CachePol::gen(run, &pool);
        let needle = gen_needle(run, &d.names());
        let root = if run.chance(1, 8) { tree.cid } else { d.cid() };
        sessions.push(HS::Bad(Box::new(HLookup::new(root, &needle, pol)), 0));
    }
    for _ in 0..run.urange(0, 2) {
        let d = run.pick(&all);
        let pol = CachePol::gen(run, &pool);
        let needle = gen_needle(run, &d.names());
        let a = d.answers(&needle);
        // targets of looked up entries are not part of the store, buckets are
        sessions.push(HS::Good(Box::new(LookupSession::new(run, d, &needle, a, pol, REPORT))));
    }
    if run.chance(3, 4) {
        let n = run.urange(1, 6) as u32;
        sessions.push(HS::Extract(n));
    }
    run.summary = format!("{} lookups and extractions", sessions.len());
    drive(run, &store, sessions, true, p_lie)
}

fn u23(run: &mut Run) -> Res {
    let (mut store, tree, dirs) = hostile_tree(run)?;
    let d = Rc::new(gen_dir(run, &mut store, true));
    let mut all: Vec<Rc<DirRef>> = dirs.into_iter().map(|d| Rc::new(DirRef::Tree(d))).collect();
    all.push(d);
    let f = {
        let f = gen_file(run, 12, false);
        f.store(&mut store);
        Rc::new(f)
    };
    let pool = Pool::new(2);
    let p_lie = run.pick(&[1u64, 2, 4, 7]);
    let any = run.chance(1, 4);
    let mut sessions = vec![];
    for _ in 0..run.urange(2, 5) {
        let pol = CachePol::gen(run, &pool);
        let s: Box<dyn Hostile> = match run.below(4) {
            0 => {
                let range = if run.flip() { Some(gen_range(run, &f)) } else { None };
                let mut v = HVisit::new(f.root().cid, range, pol, true);
                v.truth = true;
                Box::new(v)
            }
            1 | 2 => {
                let name = gen_any_root(run);
                let mut w = HWalk::new(if run.chance(1, 4) { f.root().cid } else { tree.cid }, &name, pol, false);
                w.truth = true;
                Box::new(w)
            }
            _ => {
                let d = run.pick(&all);
                let needle = gen_needle(run, &d.names());
                let root = if run.chance(1, 8) { tree.cid } else { d.cid() };
                let mut l = HLookup::new(root, &needle, pol);
                l.truth = true;
                Box::new(l)
            }
        };
        sessions.push(HS::Bad(s, 0));
    }
    run.summary = format!("{} deceived traversals", sessions.len());
    drive(run, &store, sessions, any, p_lie)
}

const STUB: &[&str] = &["peers which lie about blocks (forged fields, hostile links, damaged encodings, misdelivery)", "cooperative scheduler of deceived and healthy traversals sharing caches", "tree generator with its own encoder"];

pub const U08: Prop = Prop {
    id: "U08",
    run: u08,
    quick: 375_000,
    thorough: 6_250_000,
    rule: "Every run makes 1-3 files and 1-4 whole or range visits and walks which are given forged, stale or misdelivered but decodable blocks at seeded steps, interleaved with healthy ones; an independent decoder and offset model judges every accepted block.",
    min_weight: 2,
    real: &["unixfs_v1::file::visit", "unixfs_v1::file::reader", "unixfs_v1::walk", "unixfs_v1::pb"],
    stub: STUB,
    assumptions: &["supplied blocks are decodable dag-pb with UnixFS data"],
};
pub const U09: Prop = Prop {
    id: "U09",
    run: u09,
    quick: 360_000,
    thorough: 6_000_000,
    rule: "Every run makes 1-3 files and 1-4 visits which are given arbitrary bytes at seeded steps, interleaved with 1-3 healthy visits sharing caches with them; panics, hangs, memory per call and every result of the healthy ones are checked.",
    min_weight: 2,
    real: &["unixfs_v1::file::visit", "unixfs_v1::file::reader", "unixfs_v1::pb"],
    stub: STUB,
    assumptions: &["memory bound checked: 1 MiB plus 200 times the bytes supplied"],
};
pub const U12: Prop = Prop {
    id: "U12",
    run: u12,
    quick: 375_000,
    thorough: 6_250_000,
    rule: "Every run makes a tree and 1-3 walks of it which are given arbitrary bytes at seeded steps, interleaved with healthy walks sharing caches; every report of a deceived walk is compared with the blocks it was actually given.",
    min_weight: 2,
    real: &["unixfs_v1::walk", "unixfs_v1::file::visit", "unixfs_v1::dir (support checks)", "unixfs_v1::pb"],
    stub: STUB,
    assumptions: &["a deceived walk is abandoned after 80 steps", "memory bound checked: 1 MiB plus 200 times the bytes supplied"],
};
pub const U15: Prop = Prop {
    id: "U15",
    run: u15,
    quick: 420_000,
    thorough: 7_000_000,
    rule: "Every run makes a tree and a directory, 1-4 lookups given arbitrary bytes at seeded steps, healthy lookups sharing caches with them, and data extractions from arbitrary bytes; answers are compared with an independent decoder of the bytes supplied.",
    min_weight: 2,
    real: &["unixfs_v1::dir::resolve", "unixfs_v1::dir::ShardedLookup", "unixfs_v1::dagpb", "unixfs_v1::pb"],
    stub: STUB,
    assumptions: &["a deceived lookup is abandoned after 80 steps", "memory bound checked: 1 MiB plus 200 times the bytes supplied"],
};
pub const U23: Prop = Prop {
    id: "U23",
    run: u23,
    quick: 300_000,
    thorough: 6_000_000,
    rule: "Every run makes a tree, a file and a directory and 2-5 visits, walks and lookups which are given forged, stale or misdelivered blocks at seeded steps, sharing caches; what every error says is compared with the block refused, as an independent decoder sees it.",
    min_weight: 2,
    real: &["unixfs_v1::walk", "unixfs_v1::file::visit", "unixfs_v1::file::reader", "unixfs_v1::dir", "unixfs_v1::dir::ShardedLookup", "the crate's error types", "unixfs_v1::pb"],
    stub: STUB,
    assumptions: &["errors about blocks whose encoding is not the canonical one of what they contain are not judged"],
};
