//! World "codec": nodes written with the public types to a disk which fails, and read back. U26.
use crate::core::*;
use crate::gen::{gen_meta, gen_text};
use crate::refpb::*;
use crate::runner::Prop;
use crate::{ensure, ev};
use quick_protobuf::{BytesWriter, MessageWrite, Writer};
use std::borrow::Cow;
use std::convert::TryFrom;
use std::io;
use unixfs_v1::{FlatUnixFs, PBLink, PBNode, UnixFs, UnixFsType};

const TYPES: [(UnixFsType, &str); 6] = [
    (UnixFsType::Raw, "Raw"),
    (UnixFsType::Directory, "Directory"),
    (UnixFsType::File, "File"),
    (UnixFsType::Metadata, "Metadata"),
    (UnixFsType::Symlink, "Symlink"),
    (UnixFsType::HAMTShard, "HAMTShard"),
];

// ------------------------------------------------------------------------------------ disk

#[derive(Clone, Debug, PartialEq)]
enum Fate {
    Works,
    /// the k-th byte and those after it do not fit
    Full(usize),
    /// fails at the k-th byte
    Broken(usize),
    /// takes nothing any more from the k-th byte on
    Zero(usize),
    /// fails once at the k-th byte and works again after that
    Once(usize),
}
/// A file being written. Takes fewer bytes than offered and is interrupted now and then.
struct File {
    bytes: Vec<u8>,
    fate: Fate,
    p: u64,
    rng: Rng,
    short: u64,
    interrupted: u64,
    hit: bool,
    after: usize,
}
impl io::Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        if self.p > 0 && self.rng.next() % 64 < self.p {
            self.interrupted += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if self.p > 0 && n > 1 && self.rng.next() % 4 < 3 {
            n = 1 + (self.rng.next() >> 8) as usize % n;
            self.short += (n < b.len()) as u64;
        }
        let (at, e) = match self.fate {
            Fate::Works => (usize::MAX, None),
            Fate::Full(k) => (k, Some("no space left on the disk")),
            Fate::Broken(k) => (k, Some("the disk is broken")),
            Fate::Zero(k) => (k, None),
            Fate::Once(_) if self.hit => (usize::MAX, None),
            Fate::Once(k) => (k, Some("the disk was gone for a moment")),
        };
        n = n.min(at.saturating_sub(self.bytes.len()));
        if n == 0 {
            self.hit = true;
            return match e {
                Some(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
                None => Ok(0),
            };
        }
        self.bytes.extend_from_slice(&b[..n]);
        self.after += if self.hit { n } else { 0 };
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ nodes

enum What {
    Flat(Vec<RLink>, RData),
    Node(Vec<RLink>, Option<Vec<u8>>),
    Link(RLink),
    Data(RData),
}
impl What {
    fn encoding(&self) -> Vec<u8> {
        match self {
            What::Flat(l, d) => enc(l, d),
            What::Node(l, d) => enc_node(l, d.as_deref()),
            What::Link(l) => enc_link(l),
            What::Data(d) => enc_data(d),
        }
    }
}

fn number(run: &mut Run) -> u64 {
    match run.below(6) {
        0 => run.below(300),
        1 => 1 << run.below(64),
        2 => (1u64 << run.below(64)) - 1,
        3 => run.below(1 << 40),
        4 => u64::MAX - run.below(2),
        _ => run.below(1 << 32),
    }
}
fn length(run: &mut Run) -> usize {
    if run.chance(1, 200) {
        run.count("probe_long_field");
        return run.pick(&[16_383usize, 16_384, 16_385, 70_000]);
    }
    match run.below(8) {
        0 => run.pick(&[126usize, 127, 128, 129, 255, 256, 300]),
        1 => run.urange(0, 2),
        _ => run.urange(0, 48),
    }
}
fn field(run: &mut Run) -> Option<Vec<u8>> {
    if run.chance(1, 6) {
        return None;
    }
    let n = length(run);
    Some(content_bytes(run.below(1 << 30) + 1, n))
}
fn some(run: &mut Run, num: u64, den: u64) -> Option<u64> {
    if run.chance(num, den) {
        Some(number(run))
    } else {
        None
    }
}
fn gen_link(run: &mut Run) -> RLink {
    let s = run.t.begin();
    let name = match run.below(4) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![b'n'; length(run)]),
        _ => Some(gen_text(run, true).into_bytes()),
    };
    let l = RLink { hash: field(run), name, tsize: some(run, 3, 4) };
    run.t.end(s);
    l
}
fn gen_data(run: &mut Run) -> RData {
    let n = match run.below(4) {
        0 => run.skewed(200),
        _ => run.urange(0, 4),
    };
    RData {
        typ: run.below(6),
        data: field(run),
        filesize: some(run, 1, 2),
        blocksizes: (0..n).map(|_| number(run)).collect(),
        hash_type: some(run, 1, 4),
        fanout: some(run, 1, 4),
        meta: gen_meta(run, 1, 2),
        layout: 0,
    }
}
fn gen_links(run: &mut Run) -> Vec<RLink> {
    let n = if run.chance(1, 60) { run.urange(60, 300) } else { run.skewed(12) };
    (0..n).map(|_| gen_link(run)).collect()
}
fn gen_what(run: &mut Run) -> What {
    match run.below(8) {
        0 => What::Link(gen_link(run)),
        1 => What::Data(gen_data(run)),
        2 | 3 => What::Node(gen_links(run), field(run)),
        _ => What::Flat(gen_links(run), gen_data(run)),
    }
}

// ------------------------------------------------------------- to and from the library's types

fn cow(b: &[u8], owned: bool) -> Cow<'_, [u8]> {
    if owned {
        Cow::Owned(b.to_vec())
    } else {
        Cow::Borrowed(b)
    }
}
fn lib_link(l: &RLink, owned: bool) -> PBLink<'_> {
    PBLink {
        Hash: l.hash.as_deref().map(|h| cow(h, owned)),
        Name: l.name.as_deref().map(|n| {
            let n = std::str::from_utf8(n).expect("generated as text");
            if owned {
                Cow::Owned(n.to_string())
            } else {
                Cow::Borrowed(n)
            }
        }),
        Tsize: l.tsize,
    }
}
fn lib_data<'a>(d: &'a RData, owned: bool, donor: &'a [u8]) -> Res<UnixFs<'a>> {
    // the type of times has no public name, but they can be taken from where they were read
    let mtime = match FlatUnixFs::try_parse(donor) {
        Ok(f) => f.data.mtime,
        Err(e) => return viol("refused", format!("a block of nothing but metadata was refused: {}", e)),
    };
    Ok(UnixFs {
        Type: UnixFsType::from(d.typ as i32),
        Data: d.data.as_deref().map(|x| cow(x, owned)),
        filesize: d.filesize,
        blocksizes: d.blocksizes.clone(),
        hashType: d.hash_type,
        fanout: d.fanout,
        mode: d.meta.mode,
        mtime,
    })
}
fn of_link(l: &PBLink) -> RLink {
    RLink { hash: l.Hash.as_deref().map(|x| x.to_vec()), name: l.Name.as_deref().map(|x| x.as_bytes().to_vec()), tsize: l.Tsize }
}
fn of_links(l: &[PBLink]) -> Vec<RLink> {
    l.iter().map(of_link).collect()
}
fn of_data(d: &UnixFs) -> RData {
    RData {
        typ: i32::from(d.Type) as u64,
        data: d.Data.as_deref().map(|x| x.to_vec()),
        filesize: d.filesize,
        blocksizes: d.blocksizes.clone(),
        hash_type: d.hashType,
        fanout: d.fanout,
        meta: RMeta { mode: d.mode, mtime: d.mtime.as_ref().map(|t| (t.Seconds, t.FractionalNanoseconds)) },
        layout: 0,
    }
}
fn plain(d: &RData) -> RData {
    RData { layout: 0, ..d.clone() }
}
fn brief<T: std::fmt::Debug>(x: T) -> String {
    let s = format!("{:?}", x);
    s.chars().take(500).collect()
}

// ------------------------------------------------------------------------------------ writing

/// Writes `m` in one of the ways there are. What is on the disk then, if everything is.
fn write<M: MessageWrite>(run: &mut Run, m: &M, want: &[u8], what: &str, calm: bool) -> Res<(bool, Vec<u8>)> {
    let size = lib(|| m.get_size());
    ensure!(size == want.len(), "size-untrue", "{}: {} bytes announced, the encoding has {}", what, size, want.len());
    let way = run.below(4);
    if way == 0 {
        // memory, of too little, enough or more than that
        let n = match run.below(3) {
            0 if !calm && !want.is_empty() => run.idx(want.len()),
            1 => want.len() + run.urange(1, 40),
            _ => want.len(),
        };
        let mut buf = vec![0xa5u8; n];
        let r = lib(|| m.write_message(&mut Writer::new(BytesWriter::new(&mut buf[..])))).map_err(|e| e.to_string());
        if n < want.len() {
            run.fault("buffer_too_small");
            ensure!(r.is_err(), "error-lost", "{}: a buffer of {} bytes took an encoding of {}", what, n, want.len());
            let same = buf.iter().zip(want).take_while(|(a, b)| a == b).count();
            ensure!(buf[same..].iter().all(|b| *b == 0xa5), "wrong-bytes", "{}: something else than a prefix was written to a buffer too small: {:?} instead of {:?}", what, buf, want);
            return Ok((false, buf[..same].to_vec()));
        }
        ensure!(r.is_ok(), "refused", "{}: writing to memory failed: {:?}", what, r);
        ensure!(&buf[..want.len()] == want, "wrong-bytes", "{}: written {} instead of {}", what, brief(&buf), brief(want));
        ensure!(buf[want.len()..].iter().all(|b| *b == 0xa5), "wrong-bytes", "{}: more than {} bytes written", what, want.len());
        return Ok((true, want.to_vec()));
    }
    let fate = if calm || want.is_empty() {
        Fate::Works
    } else {
        match run.below(7) {
            6 => Fate::Once(run.idx(want.len())),
            0 => Fate::Full(run.idx(want.len())),
            1 => Fate::Broken(run.idx(want.len())),
            2 => Fate::Zero(run.idx(want.len())),
            _ => Fate::Works,
        }
    };
    let p = if run.flip() { run.range(1, 16) } else { 0 };
    let mut f = File { bytes: vec![], fate: fate.clone(), p, rng: Rng::new(run.below(1 << 40)), short: 0, interrupted: 0, hit: false, after: 0 };
    let r = lib(|| m.write_message(&mut Writer::new(&mut f))).map_err(|e| e.to_string());
    for _ in 0..f.short {
        run.fault("short_write");
    }
    for _ in 0..f.interrupted {
        run.fault("write_interrupted");
    }
    ensure!(want.starts_with(&f.bytes), "wrong-bytes", "{}: written {} instead of {}", what, brief(&f.bytes), brief(want));
    match fate {
        Fate::Works => {
            ensure!(r.is_ok(), "refused", "{}: writing failed on a disk which works: {:?}", what, r);
            ensure!(f.bytes.len() == want.len(), "wrong-bytes", "{}: {} bytes written of {}", what, f.bytes.len(), want.len());
            return Ok((true, f.bytes));
        }
        Fate::Full(_) => run.fault("disk_full"),
        Fate::Broken(_) => run.fault("disk_error"),
        Fate::Zero(_) => run.fault("nothing_taken"),
        Fate::Once(_) => run.fault("disk_error_once"),
    }
    ensure!(f.hit && r.is_err(), "error-lost", "{}: {:?} at {:?} of {} bytes, and {:?} was reported", what, fate, f.bytes.len(), want.len(), r);
    ensure!(f.after == 0, "wrong-bytes", "{}: {} more bytes were written after {:?}", what, f.after, fate);
    let text = r.unwrap_err();
    let said = match fate {
        Fate::Full(_) => text.contains("no space left on the disk"),
        Fate::Broken(_) => text.contains("the disk is broken"),
        Fate::Once(_) => text.contains("the disk was gone for a moment"),
        _ => true,
    };
    ensure!(said, "error-untrue", "{}: {:?} became {}", what, fate, text);
    Ok((false, f.bytes))
}

fn store(run: &mut Run, w: &What, want: &[u8], calm: bool) -> Res<(bool, Vec<u8>)> {
    let owned = run.flip();
    let donor = match w {
        What::Flat(_, d) | What::Data(d) => enc(&[], &RData { typ: T_DIR, meta: d.meta.clone(), ..Default::default() }),
        _ => vec![],
    };
    match w {
        What::Link(l) => {
            let m = lib_link(l, owned);
            write(run, &m, want, "a link", calm)
        }
        What::Data(d) => {
            let m = lib(|| lib_data(d, owned, &donor))?;
            write(run, &m, want, "UnixFS data", calm)
        }
        What::Node(l, d) => {
            let m = PBNode { Links: l.iter().map(|l| lib_link(l, owned)).collect(), Data: d.as_deref().map(|d| cow(d, owned)) };
            let r = write(run, &m, want, "a dag-pb node", calm)?;
            // what is within can be asked for without writing
            let inner = lib(|| UnixFs::try_from(&m).map(|u| of_data(&u)).map_err(|e| e.to_string()));
            meaning(inner, dec_data(d.as_deref().unwrap_or_default()), "the data of a node", false)?;
            Ok(r)
        }
        What::Flat(l, d) => {
            let m = FlatUnixFs { links: l.iter().map(|l| lib_link(l, owned)).collect(), data: lib(|| lib_data(d, owned, &donor))? };
            write(run, &m, want, "a UnixFS node", calm)
        }
    }
}

// ------------------------------------------------------------------------------------ reading

/// `strict`: it is well-formed, and may not be refused.
fn meaning<T: PartialEq + std::fmt::Debug>(got: Result<T, String>, means: Option<T>, what: &str, strict: bool) -> Res {
    match (got, means) {
        (Ok(g), Some(m)) => ensure!(g == m, "misread", "{} was read as {} but means {}", what, brief(g), brief(m)),
        (Err(e), Some(_)) if strict => return viol("refused", format!("{} was refused: {}", what, e)),
        // more lenient or stricter about what is damaged
        _ => {}
    }
    Ok(())
}

fn read(run: &mut Run, b: &[u8], whole: bool) -> Res {
    run.weight += 1;
    let node = lib(|| PBNode::try_from(b).map(|n| (of_links(&n.Links), n.Data.as_deref().map(|d| d.to_vec()))).map_err(|e| format!("{} {:?}", e, e)));
    let means = dec_node(b);
    meaning(node, means.clone(), "a dag-pb node", whole)?;
    let inner = lib(|| UnixFs::try_from(Some(b)).map(|u| of_data(&u)).map_err(|e| format!("{} {:?}", e, e)));
    meaning(inner, dec_data(b).filter(|d| d.typ < 6), "UnixFS data", false)?;
    let unixfs = means.and_then(|(l, d)| d.filter(|d| !d.is_empty()).and_then(|d| dec_data(&d)).map(|d| (l, plain(&d))));
    let defined = unixfs.as_ref().map_or(false, |(_, d)| d.typ < 6);
    let flat = lib(|| {
        FlatUnixFs::try_parse(b)
            .map(|f| {
                let mut again = vec![];
                let r = f.write_message(&mut Writer::new(&mut again)).map_err(|e| e.to_string());
                (of_links(&f.links), of_data(&f.data), f.get_size(), r.map(|_| again), format!("{:?}", f).len())
            })
            .map_err(|e| {
                let source = std::error::Error::source(&e).map(|e| e.to_string());
                format!("{} {:?} {:?}", e, e, source)
            })
    });
    if let Ok((l, d, size, again, _)) = &flat {
        // whatever was read is written again, in the one canonical form
        let want = enc(l, d);
        ensure!(*size == want.len(), "size-untrue", "a node read announces {} bytes, its encoding has {}", size, want.len());
        ensure!(again.as_deref() == Ok(&want[..]), "wrong-bytes", "a node read was written as {} instead of {}", brief(again), brief(want));
        if unixfs.is_some() {
            ensure!(defined, "misread", "a node of an undefined type was read: {}", brief(d));
        }
    }
    meaning(flat.map(|(l, d, ..)| (l, d)), unixfs, "a UnixFS node", whole && defined)
}

fn read_back(run: &mut Run, w: &What, b: &[u8]) -> Res {
    match w {
        What::Flat(..) | What::Node(..) => read(run, b, true),
        What::Link(l) => {
            // links are read as parts of nodes
            run.weight += 1;
            let mut n = vec![0x12];
            varint(&mut n, b.len() as u64);
            n.extend_from_slice(b);
            let got = lib(|| PBNode::try_from(&n[..]).map(|n| of_links(&n.Links)).map_err(|e| e.to_string()));
            meaning(got, Some(vec![l.clone()]), "a link", true)
        }
        What::Data(d) => {
            run.weight += 1;
            let got = lib(|| UnixFs::try_from(Some(b)).map(|u| of_data(&u)).map_err(|e| e.to_string()));
            meaning(got, Some(plain(d)), "UnixFS data", true)
        }
    }
}

// ------------------------------------------------------------------------------------ world

fn u26(run: &mut Run) -> Res {
    for (i, (t, name)) in TYPES.iter().enumerate() {
        let (n, back, named) = lib(|| (i32::from(*t), UnixFsType::from(i as i32), UnixFsType::from(*name)));
        ensure!(n == i as i32 && back == *t && named == *t, "type-confused", "type {} is {} and {:?}, {} is {:?}", name, n, back, name, named);
    }
    let n = run.urange(1, 4);
    let nodes: Vec<What> = (0..n).map(|_| gen_what(run)).collect();
    let wants: Vec<Vec<u8>> = nodes.iter().map(|w| w.encoding()).collect();
    // what was told to be written, what may be anything
    let mut files: Vec<Option<Vec<u8>>> = vec![None; n];
    let mut torn: Vec<Vec<u8>> = vec![];
    let mut tries = vec![0; n];
    run.now = 0;
    while files.iter().any(|f| f.is_none()) {
        run.now += 10;
        let k = run.idx(n);
        run.sig(k as u64);
        if let Some(f) = &files[k] {
            let f = f.clone();
            read_back(run, &nodes[k], &f)?;
            // a crash before this one was durable
            if tries[k] < 6 && run.chance(1, 8) {
                run.fault("crash_lost_unsynced_bytes");
                torn.push(f[..run.idx(f.len() + 1)].to_vec());
                files[k] = None;
                tries[k] = 6;
                ev!(run, "crash: file {} torn to {} bytes", k, torn.last().map_or(0, |t| t.len()));
            }
            if files.iter().all(|f| f.is_some()) {
                break;
            }
        }
        let k = files.iter().position(|f| f.is_none()).expect("one is missing");
        tries[k] += 1;
        let (done, bytes) = store(run, &nodes[k], &wants[k], tries[k] > 4)?;
        ev!(run, "file {} try {}: {} of {} bytes, {}", k, tries[k], bytes.len(), wants[k].len(), if done { "done" } else { "failed" });
        run.weight += 1;
        if done {
            files[k] = Some(bytes);
        } else {
            torn.push(bytes);
        }
    }
    for (k, f) in files.iter().enumerate() {
        let f = f.as_deref().expect("written");
        ensure!(f == &wants[k][..], "wrong-bytes", "file {} is not what was written", k);
        read_back(run, &nodes[k], f)?;
    }
    for t in &torn {
        run.count("probe_torn_file_read");
        read(run, t, false)?;
    }
    // other encodings of the same
    for w in &nodes {
        if let (What::Flat(l, d), true) = (w, run.chance(1, 3)) {
            run.count("probe_other_field_layout");
            let d = RData { layout: run.below(1 << 40) + 1, ..d.clone() };
            let mut b = enc(l, &d);
            read(run, &b, true)?;
            if run.flip() && !b.is_empty() {
                run.fault("bit_flipped");
                let i = run.idx(b.len());
                b[i] ^= 1 << run.below(8);
                read(run, &b, false)?;
            }
        }
    }
    // damage
    for want in &wants {
        if want.is_empty() || !run.flip() {
            continue;
        }
        let mut b = want.clone();
        for _ in 0..run.urange(1, 3) {
            match run.below(4) {
                0 => {
                    run.fault("truncated");
                    b.truncate(run.idx(b.len() + 1));
                }
                1 => {
                    run.fault("bytes_of_another_file");
                    let other = &wants[run.idx(n)];
                    let at = run.idx(other.len() + 1);
                    b.extend_from_slice(&other[at..]);
                }
                _ if !b.is_empty() => {
                    run.fault("bit_flipped");
                    let near = if run.flip() { 40 } else { usize::MAX };
                    let i = run.idx(b.len().min(near));
                    b[i] ^= 1 << run.below(8);
                }
                _ => {}
            }
            read(run, &b, false)?;
        }
    }
    run.summary = format!("{} nodes", n);
    Ok(())
}
pub const U26: Prop = Prop {
    id: "U26",
    run: u26,
    quick: 300_000,
    thorough: 6_000_000,
    rule: "Every run writes 1-4 nodes of the public types to a disk which takes few bytes at a time, interrupts, fills up, breaks (for good or for a moment) or loses what was not synced, or to buffers of any length, until all are written, and reads back whatever is left on it, torn, damaged or in other field orders.",
    min_weight: 1,
    real: &["unixfs_v1::FlatUnixFs", "unixfs_v1::PBNode", "unixfs_v1::PBLink", "unixfs_v1::UnixFs", "unixfs_v1::UnixFsType"],
    stub: &["disk", "scheduler"],
    assumptions: &[],
};
