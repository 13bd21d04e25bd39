//! World "import": any number of file imports share one process; each reads its content from a
//! faulty reader and stores the emitted blocks on a faulty disk. U01-U05.
use crate::core::*;
use crate::refpb::*;
use crate::runner::Prop;
use crate::{ensure, ev};
use libipld::Cid;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use unixfs_v1::file::adder::{BalancedCollector, Chunker, Collector, FileAdder};

pub type Block = (Cid, Vec<u8>);

pub const DEF_CHUNK: usize = 256 * 1024;
pub const DEF_BF: usize = 174;

#[derive(Clone)]
pub struct Job {
    pub content: Vec<u8>,
    pub chunk: usize,
    pub bf: usize,
    pub cfg: u8,
    /// the importer is given a clone of this
    pub proto: Option<Collector>,
}

pub fn gen_content(run: &mut Run, len: usize, period: usize) -> Vec<u8> {
    match run.below(6) {
        0..=3 => {
            let key = run.below(1 << 40) + 1;
            content_bytes(key, len)
        }
        // equal blocks all over
        4 => vec![run.below(3) as u8; len],
        _ => {
            let key = run.below(1 << 20) + 1;
            let unit = content_bytes(key, period.max(1));
            unit.iter().cycle().take(len).copied().collect()
        }
    }
}

/// Parameters around everything that switches behaviour: chunk boundaries and full link blocks of
/// every level.
pub fn gen_job(run: &mut Run, max_chunks: usize, allow_default: bool) -> Job {
    let s = run.t.begin();
    let cfg = if allow_default && run.chance(1, 12) { run.range(2, 5) as u8 } else { run.below(2) as u8 };
    if cfg < 2 && run.chance(1, 150) {
        return gen_tall_job(run, s, cfg);
    }
    if cfg < 2 && run.chance(1, 400) {
        return gen_broad_job(run, s, cfg);
    }
    let (chunk, bf) = match cfg {
        0 | 1 => {
            let chunk = match run.below(6) {
                5 => {
                    if run.chance(1, 60) {
                        return gen_vast_job(run, s, cfg);
                    }
                    run.urange(1, 9)
                }
                0 => run.urange(1, 4),
                1 => run.urange(1, 9),
                2 => run.urange(1, 64),
                3 => run.pick(&[1usize, 2, 7, 8, 9, 16, 127, 128, 129, 255, 256, 257]),
                _ => run.urange(1, 3000),
            };
            let bf = match run.below(9) {
                8 => {
                    if run.chance(1, 3) {
                        run.count("probe_huge_branching_factor");
                        run.pick(&[301usize, 1000, 1025, 4096, 65_537, 1 << 20, 1 << 40, isize::MAX as usize, usize::MAX])
                    } else {
                        run.urange(2, 300)
                    }
                }
                0..=3 => run.urange(2, 4),
                4 | 5 => run.urange(2, 9),
                6 => run.urange(2, 40),
                _ => run.urange(2, 300),
            };
            (chunk, bf)
        }
        2 => (run.urange(1, 40), DEF_BF),
        3 => (DEF_CHUNK, run.urange(2, 4)),
        _ => (DEF_CHUNK, DEF_BF),
    };
    let maxc = if chunk >= DEF_CHUNK { 6 } else { max_chunks };
    // number of whole chunks: near a product of full levels half of the time
    let n = if run.flip() {
        run.skewed(maxc)
    } else {
        let mut n = 1usize;
        let levels = run.urange(0, 5);
        for _ in 0..levels {
            if n.saturating_mul(bf) <= maxc {
                n *= bf;
            }
        }
        if n * 2 <= maxc && run.flip() {
            n *= run.urange(1, (maxc / n).min(bf));
        }
        match run.below(4) {
            0 => n,
            1 => n + 1,
            2 => n.saturating_sub(1),
            _ => n + run.urange(0, 3),
        }
    };
    let len = match run.below(5) {
        0 | 1 => n * chunk,
        2 => (n * chunk).saturating_sub(1),
        3 => n * chunk + 1,
        _ => n * chunk + run.idx(chunk),
    };
    let content = gen_content(run, len, chunk);
    run.t.end(s);
    Job { content, chunk, bf, cfg, proto: None }
}

/// As many levels of link blocks as thousands of leaves can have.
fn gen_tall_job(run: &mut Run, s: usize, cfg: u8) -> Job {
    run.count("probe_tall_import");
    let bf = run.pick(&[2usize, 2, 3, 4, 5]);
    let most = run.pick(&[1_100usize, 2_200, 4_400, 9_000]);
    let mut n = 1;
    while n * bf <= most {
        n *= bf;
    }
    let n = match run.below(5) {
        0 => n,
        1 => n + 1,
        2 => n - 1,
        3 => n + run.idx(most - n + 1),
        _ => n / bf + run.idx(n),
    };
    let chunk = run.urange(1, 3);
    let len = n * chunk - run.idx(chunk);
    let content = gen_content(run, len, chunk);
    run.t.end(s);
    Job { content, chunk, bf, cfg, proto: None }
}

/// Link blocks of far more links than usual.
fn gen_broad_job(run: &mut Run, s: usize, cfg: u8) -> Job {
    run.count("probe_thousands_of_links_in_a_block");
    let bf = if run.vast && run.chance(1, 20) {
        run.count("probe_more_than_65536");
        run.pick(&[65_536usize, 65_600, 70_000])
    } else {
        run.pick(&[400usize, 700, 1_024, 2_047, 2_500, 4_096])
    };
    let n = match run.below(5) {
        0 => bf,
        1 => bf + 1,
        2 => bf - 1,
        3 => bf + bf / 2,
        _ => 2 * bf + run.below(3) as usize,
    };
    let chunk = run.urange(1, 2);
    let len = n * chunk - run.idx(chunk);
    let content = gen_content(run, len, chunk);
    run.t.end(s);
    Job { content, chunk, bf, cfg, proto: None }
}

/// Chunks larger than the default ones, up to ones which can never fill.
fn gen_vast_job(run: &mut Run, s: usize, cfg: u8) -> Job {
    run.count("probe_vast_chunks");
    let bf = run.pick(&[2usize, 3, 174, 1 << 40, usize::MAX]);
    let (chunk, len) = if run.flip() {
        (run.pick(&[1usize << 47, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX - 1, usize::MAX]), run.skewed(3000))
    } else {
        let chunk = run.pick(&[262_144usize - 14, 262_145, 262_158, 262_159, 300_000, 524_289, 1_000_000, 1 << 20]);
        let n = run.urange(0, 3);
        (chunk, n * chunk + if run.flip() { 0 } else { run.skewed(3000) })
    };
    let content = gen_content(run, len, chunk.min(3000));
    run.t.end(s);
    Job { content, chunk, bf, cfg, proto: None }
}

impl Job {
    pub fn desc(&self) -> String {
        format!("len={} chunk={} bf={} cfg={}", self.content.len(), self.chunk, self.bf, self.cfg)
    }
    pub fn adder(&self) -> FileAdder {
        if let Some(p) = &self.proto {
            return lib(|| FileAdder::builder().with_chunker(Chunker::Size(self.chunk)).with_collector(p.clone()).build());
        }
        lib(|| match self.cfg {
            0 => FileAdder::builder()
                .with_chunker(Chunker::Size(self.chunk))
                .with_collector(BalancedCollector::with_branching_factor(self.bf))
                .build(),
            1 => FileAdder::builder()
                .with_collector(Collector::Balanced(BalancedCollector::with_branching_factor(self.bf)))
                .with_chunker(Chunker::Size(self.chunk))
                .build(),
            2 => FileAdder::builder().with_chunker(Chunker::Size(self.chunk)).build(),
            3 => FileAdder::builder().with_collector(BalancedCollector::with_branching_factor(self.bf)).build(),
            4 => FileAdder::default(),
            _ => FileAdder::builder().build(),
        })
    }
}

pub fn push(a: &mut FileAdder, b: &[u8]) -> (Vec<Block>, usize) {
    lib(|| {
        let (i, n) = a.push(b);
        (i.collect(), n)
    })
}
pub fn finish(a: FileAdder) -> Vec<Block> {
    lib(|| a.finish().collect())
}

/// The same import on its own, fed with everything there is.
pub fn baseline(job: &Job, content: &[u8]) -> Res<Vec<Block>> {
    let mut j = job.clone();
    // one way of configuring the same parameters
    j.cfg = 0;
    j.proto = None;
    let mut a = j.adder();
    let mut out = Vec::new();
    let mut at = 0;
    while at < content.len() {
        let (b, n) = push(&mut a, &content[at..]);
        out.extend(b);
        ensure!(n > 0 && n <= content.len() - at, "push-no-progress", "push of {} bytes consumed {} ({})", content.len() - at, n, job.desc());
        at += n;
    }
    out.extend(finish(a));
    Ok(out)
}

// ------------------------------------------------------------------------- reference layout

pub struct Laid {
    pub blocks: Vec<Block>,
    pub root: Cid,
    pub tsize: u64,
}

/// The balanced layout, straight from its definition.
pub fn ref_layout(content: &[u8], chunk: usize, bf: usize) -> Laid {
    let mut blocks = Vec::new();
    // (cid, file size, cumulative encoded size)
    let mut level: Vec<Part> = Vec::new();
    let mut leaf = |c: &[u8], level: &mut Vec<Part>| {
        let b = enc(
            &[],
            &RData { typ: T_FILE, data: if c.is_empty() { None } else { Some(c.to_vec()) }, filesize: Some(c.len() as u64), ..Default::default() },
        );
        let cid = cid_v1(&b);
        level.push((cid, c.len() as u64, b.len() as u64));
        blocks.push((cid, b));
    };
    if content.is_empty() {
        leaf(&[], &mut level);
    }
    for c in content.chunks(chunk) {
        leaf(c, &mut level);
    }
    let (root, tsize) = ref_levels(level, bf, &mut blocks);
    Laid { blocks, root, tsize }
}

/// (cid, file size, cumulative encoded size)
type Part = (Cid, u64, u64);

fn ref_levels(mut level: Vec<Part>, bf: usize, blocks: &mut Vec<Block>) -> (Cid, u64) {
    while level.len() > 1 {
        let mut up = Vec::new();
        for g in level.chunks(bf) {
            let links: Vec<RLink> = g.iter().map(|(c, _, t)| RLink { hash: Some(c.to_bytes()), name: Some(vec![]), tsize: Some(*t) }).collect();
            let fs = g.iter().map(|x| x.1).sum();
            let b = enc(&links, &RData { typ: T_FILE, filesize: Some(fs), blocksizes: g.iter().map(|x| x.1).collect(), ..Default::default() });
            let cid = cid_v1(&b);
            up.push((cid, fs, b.len() as u64 + g.iter().map(|x| x.2).sum::<u64>()));
            blocks.push((cid, b));
        }
        level = up;
    }
    (level[0].0, level[0].2)
}

/// A file of more than 4 GiB, of equal leaves, so that nothing of it has to be kept: its sizes and
/// its layout.
fn giant(run: &mut Run, sizes: bool) -> Res {
    run.count("probe_file_over_4gib");
    let chunk = run.pick(&[64usize << 20, 48 << 20, 100_000_000, 16 << 20]);
    let bf = run.pick(&[2usize, 3, 9, 174]);
    let fill = run.below(3) as u8;
    let full = (1usize << 32) / chunk + run.urange(1, 3);
    let rest = run.pick(&[0usize, 1, 4097]);
    let piece = run.pick(&[chunk, chunk / 3 + 1, 2 * chunk]);
    ev!(run, "import of {} leaves of {} bytes and {} more, pieces of {}, branching factor {}", full, chunk, rest, piece, bf);
    let leaf = |n: usize| {
        let b = enc(&[], &RData { typ: T_FILE, data: Some(vec![fill; n]), filesize: Some(n as u64), ..Default::default() });
        (cid_v1(&b), b)
    };
    let big = leaf(chunk);
    let mut level: Vec<Part> = vec![(big.0, chunk as u64, big.1.len() as u64); full];
    let mut want: Vec<Block> = vec![];
    let small = leaf(rest);
    if rest > 0 {
        level.push((small.0, rest as u64, small.1.len() as u64));
    }
    let (root, _) = ref_levels(level, bf, &mut want);
    let want: BTreeMap<Cid, Vec<u8>> = want.into_iter().collect();
    let input = vec![fill; piece.max(chunk)];
    let mut a = lib(|| FileAdder::builder().with_chunker(Chunker::Size(chunk)).with_collector(BalancedCollector::with_branching_factor(bf)).build());
    let (mut left, total) = (full * chunk + rest, full * chunk + rest);
    let (mut leaves, mut last) = (0, None);
    let mut check = |blocks: Vec<Block>| -> Res {
        crate::runner::beat();
        for (c, b) in blocks {
            last = Some(c);
            if c == big.0 || (rest > 0 && c == small.0) {
                leaves += 1;
                ensure!(b == if c == big.0 { &big.1[..] } else { &small.1[..] }, "wrong-cid", "Cid of a leaf does not belong to its bytes");
                continue;
            }
            if let Some(w) = want.get(&c) {
                ensure!(b == *w, "wrong-cid", "Cid of a link block does not belong to its bytes");
                continue;
            }
            if sizes {
                let (links, d) = decode(&b[..b.len().min(1 << 20)])?;
                return viol("filesize-untruthful", format!("link block of {} links declaring {:?} bytes ({:?}) is none of those with the right sizes, file of {} bytes", links.len(), d.filesize, d.blocksizes, total));
            }
            return viol("not-canonical-blocks", format!("block {} of {} bytes is not part of the layout of {} bytes", c, b.len(), total));
        }
        Ok(())
    };
    let mut stuck = 0;
    while left > 0 {
        let (b, n) = push(&mut a, &input[..piece.min(left)]);
        stuck = if n == 0 { stuck + 1 } else { 0 };
        ensure!(n <= left && stuck < 3, "push-no-progress", "push of {} bytes consumed {}", piece.min(left), n);
        left -= n;
        check(b)?;
    }
    check(finish(a))?;
    ensure!(leaves == full + (rest > 0) as usize, "not-canonical-blocks", "{} leaves of {}", leaves, full + (rest > 0) as usize);
    ensure!(last == Some(root), "wrong-root", "root {:?} instead of {}", last, root);
    run.weight += 3;
    run.summary = format!("a file of {} bytes", total);
    Ok(())
}

/// out of this many runs one is an import of more than 4 GiB
const GIANT: u64 = 20_000;

pub fn link_cid(l: &RLink) -> Res<Cid> {
    match Cid::try_from(l.hash.as_deref().unwrap_or_default()) {
        Ok(c) => Ok(c),
        Err(e) => viol("emitted-bad-cid", format!("an emitted block links to an invalid Cid: {}", e)),
    }
}

pub fn decode(b: &[u8]) -> Res<(Vec<RLink>, RData)> {
    match dec_node(b).and_then(|(l, d)| d.and_then(|d| dec_data(&d)).map(|d| (l, d))) {
        Some(x) => Ok(x),
        None => viol("emitted-unparseable", format!("an emitted block is not a well-formed dag-pb UnixFS node ({} bytes)", b.len())),
    }
}

pub type Store = BTreeMap<Vec<u8>, Vec<u8>>;

pub fn reassemble(store: &Store, root: &Cid, out: &mut Vec<u8>, seen: &mut BTreeSet<Vec<u8>>) -> Res {
    let mut stack = vec![*root];
    while let Some(c) = stack.pop() {
        let b = match store.get(&c.to_bytes()) {
            Some(b) => b,
            None => return viol("missing-block", format!("block {} is reachable but was never emitted", short(&c))),
        };
        seen.insert(c.to_bytes());
        let (links, data) = decode(b)?;
        out.extend_from_slice(data.data.as_deref().unwrap_or_default());
        for l in links.iter().rev() {
            stack.push(link_cid(l)?);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------- faulty reader

/// A byte source with short reads, interrupted and would-block errors and stalls.
pub struct Source<'a> {
    content: &'a [u8],
    at: usize,
    policy: u8,
    unit: usize,
    /// out of 64
    eintr: u64,
    empty: u64,
    dies_at: Option<usize>,
}

pub enum Got {
    Bytes(usize),
    Retry,
    Eof,
    Dead,
}

impl<'a> Source<'a> {
    pub fn new(run: &mut Run, content: &'a [u8], chunk: usize, faults: bool) -> Self {
        let s = run.t.begin();
        let chunk = chunk.min(content.len() + 1);
        let policy = run.below(7) as u8;
        let policy = if content.len() > 4000 && policy == 1 { 4 } else { policy };
        let unit = match policy {
            2 => chunk,
            3 => run.urange(1, chunk * 2),
            4 => run.urange(1, (chunk * 8).min(content.len().max(1))).max(content.len() / 300),
            _ => run.urange(1, content.len().max(1)),
        };
        let eintr = if faults && run.flip() { run.range(1, 24) } else { 0 };
        let empty = if faults && run.flip() { run.range(1, 24) } else { 0 };
        let dies_at = if faults && run.chance(1, 6) { Some(run.urange(0, content.len())) } else { None };
        run.t.end(s);
        Source { content, at: 0, policy, unit, eintr, empty, dies_at }
    }
    /// the reader itself does not die, only the process around it may
    pub fn live_on(&mut self) {
        self.dies_at = None;
    }
    pub fn read(&mut self, run: &mut Run) -> Got {
        run.now += 1 + (self.unit as u64 / 64);
        if self.eintr > 0 && run.chance(self.eintr, 64) {
            run.now += 50;
            run.fault("read_interrupted");
            return Got::Retry;
        }
        let limit = self.dies_at.unwrap_or(self.content.len());
        if self.at >= limit {
            if self.dies_at.is_some() {
                run.fault("reader_died");
                return Got::Dead;
            }
            return Got::Eof;
        }
        if self.empty > 0 && run.chance(self.empty, 64) {
            run.fault("empty_read");
            return Got::Bytes(0);
        }
        let left = limit - self.at;
        let n = match self.policy {
            0 => left,
            1 => 1,
            2 | 5 => self.unit,
            3 | 4 => run.urange(1, self.unit),
            _ => match run.below(4) {
                0 => 1,
                1 => self.unit,
                2 => run.urange(1, self.unit),
                _ => left,
            },
        }
        .min(left);
        if n < left {
            run.count("short_reads");
        }
        self.at += n;
        Got::Bytes(n)
    }
}

/// One import being driven step by step.
pub struct Task<'a> {
    pub job: &'a Job,
    pub src: Source<'a>,
    pub adder: Option<FileAdder>,
    /// read but not consumed
    pub pend_from: usize,
    pub pend_to: usize,
    pub blocks: Vec<Block>,
    pub leaf_bytes: usize,
    pub done: bool,
    pub cancelled: bool,
    split: u64,
    /// everything is pushed from this one buffer, overwritten each time
    buf: Option<Vec<u8>>,
}

impl<'a> Task<'a> {
    pub fn new(run: &mut Run, job: &'a Job, faults: bool) -> Self {
        let src = Source::new(run, &job.content, job.chunk, faults);
        let split = if run.flip() { run.range(1, 8) } else { 0 };
        let buf = if run.flip() { Some(Vec::with_capacity(job.content.len())) } else { None };
        // created ahead, or only when the import starts
        let adder = if run.flip() { Some(job.adder()) } else { None };
        Task { job, src, adder, pend_from: 0, pend_to: 0, blocks: vec![], leaf_bytes: 0, done: false, cancelled: false, split, buf }
    }
    pub fn consumed(&self) -> usize {
        self.pend_from
    }
    /// read (maybe) and push (maybe) once; returns the new blocks
    pub fn step(&mut self, run: &mut Run, strict: bool) -> Res<Vec<Block>> {
        let s = run.t.begin();
        if self.adder.is_none() {
            self.adder = Some(self.job.adder());
        }
        if self.pend_from == self.pend_to || run.chance(1, 3) {
            match self.src.read(run) {
                Got::Bytes(n) => self.pend_to += n,
                Got::Retry => {
                    run.t.end(s);
                    return Ok(vec![]);
                }
                Got::Eof | Got::Dead if self.pend_from == self.pend_to => {
                    let out = finish(self.adder.take().expect("once"));
                    self.done = true;
                    ev!(run, "finish after {} bytes: {} blocks", self.consumed(), out.len());
                    self.blocks.extend(out.iter().cloned());
                    run.t.end(s);
                    return Ok(out);
                }
                _ => {}
            }
        }
        let have = self.pend_to - self.pend_from;
        // push all of what is there or a part of it, and keep the rest for later
        let n = if self.split > 0 && have > 1 && run.chance(self.split, 16) { run.urange(0, have) } else { have };
        let input = &self.job.content[self.pend_from..self.pend_from + n];
        let input = match &mut self.buf {
            Some(b) => {
                b.clear();
                b.extend_from_slice(input);
                &b[..]
            }
            None => input,
        };
        let hint = lib(|| self.adder.as_ref().expect("live").size_hint());
        let whole = n >= hint && self.pend_from == self.leaf_bytes;
        let (blocks, used) = push(self.adder.as_mut().expect("live"), input);
        // what was consumed is gone
        if let Some(b) = &mut self.buf {
            b.fill(0xee);
        }
        if n == 0 {
            run.count("empty_pushes");
        }
        if used < n {
            run.count("partial_pushes");
        }
        ensure!(used <= n, "push-consumed-too-much", "push of {} bytes claims to have consumed {} ({})", n, used, self.job.desc());
        ensure!(n == 0 || used > 0, "push-no-progress", "push of {} bytes consumed none at offset {} ({})", n, self.pend_from, self.job.desc());
        self.pend_from += used;
        if strict {
            // readers are given buffers of this size
            ensure!(hint > 0, "empty-size-hint", "the size hint is zero ({})", self.job.desc());
            if whole {
                run.count("probe_hinted_push");
                ensure!(!blocks.is_empty(), "hinted-push-buffered", "a push of {} bytes completed no leaf though {} were said to be enough and none were buffered ({})", n, hint, self.job.desc());
            }
            ensure!(blocks.len() <= 2, "push-too-many-blocks", "one push returned {} blocks ({})", blocks.len(), self.job.desc());
            for (cid, b) in &blocks {
                let (links, data) = decode(b)?;
                if links.is_empty() {
                    let d = data.data.unwrap_or_default();
                    let want = self.job.content.get(self.leaf_bytes..self.leaf_bytes + d.len());
                    ensure!(
                        want == Some(&d[..]) && self.leaf_bytes + d.len() <= self.pend_from,
                        "leaf-not-consumed-bytes",
                        "leaf {} of {} bytes does not contain the consumed bytes at offset {} ({} consumed; {})",
                        short(cid),
                        d.len(),
                        self.leaf_bytes,
                        self.pend_from,
                        self.job.desc()
                    );
                    self.leaf_bytes += d.len();
                }
            }
            ensure!(
                self.pend_from - self.leaf_bytes < self.job.chunk,
                "remainder-too-large",
                "{} bytes consumed but only {} emitted in leaves, remainder not below the chunk size ({})",
                self.pend_from,
                self.leaf_bytes,
                self.job.desc()
            );
        }
        if !blocks.is_empty() || used != n {
            ev!(run, "push {} -> used {} blocks {:?}", n, used, blocks.iter().map(|b| short(&b.0)).collect::<Vec<_>>());
        } else {
            ev!(run, "push {} -> used {}", n, used);
        }
        self.blocks.extend(blocks.iter().cloned());
        run.t.end(s);
        Ok(blocks)
    }
}

fn same_blocks(a: &[Block], b: &[Block]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.0 != y.0 || x.1 != y.1 {
            return Some(format!("block #{} is {} ({} bytes) instead of {} ({} bytes)", i, short(&x.0), x.1.len(), short(&y.0), y.1.len()));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{} blocks instead of {}", a.len(), b.len()));
    }
    None
}

/// Runs all jobs interleaved; `each` sees every batch of new blocks.
fn drive<'a>(run: &mut Run, tasks: &mut Vec<Task<'a>>, cancels: bool, strict: bool) -> Res {
    let mut live: Vec<usize> = (0..tasks.len()).collect();
    let burst = run.range(0, 6);
    let often = if run.flip() { 400 } else { 30 };
    while !live.is_empty() {
        let k = run.idx(live.len());
        let t = live[k];
        run.sig(t as u64);
        for _ in 0..=burst {
            if cancels && run.chance(1, often) {
                tasks[t].adder = None;
                tasks[t].cancelled = true;
                tasks[t].done = true;
                run.fault("import_cancelled");
            } else {
                tasks[t].step(run, strict)?;
            }
            if tasks[t].done {
                live.remove(k);
                break;
            }
        }
    }
    Ok(())
}

fn n_jobs(run: &mut Run) -> usize {
    match run.below(4) {
        0 => 1,
        1 | 2 => run.urange(1, 3),
        _ => run.urange(2, 5),
    }
}

fn maxc(run: &Run) -> usize {
    if run.thorough {
        900
    } else {
        260
    }
}

fn probes(run: &mut Run, job: &Job) {
    let n = job.content.len();
    let chunks = n / job.chunk + (n % job.chunk != 0) as usize;
    if n == 0 {
        run.count("probe_empty_file");
    } else if n == job.chunk {
        run.count("probe_exactly_one_chunk");
    } else if n % job.chunk == 0 {
        run.count("probe_exact_multiple");
    }
    let mut d = 0;
    let mut c = chunks;
    while c > 1 {
        c = c / job.bf + (c % job.bf != 0) as usize;
        d += 1;
    }
    run.count(match d {
        0 => "probe_depth_0",
        1 => "probe_depth_1",
        2 => "probe_depth_2",
        3 => "probe_depth_3",
        _ => "probe_depth_4_or_more",
    });
    if job.cfg >= 2 {
        run.count("probe_default_parameters");
    }
    if n >= 1 {
        run.weight += 1;
    }
}

// ------------------------------------------------------------------------------------- U01

fn u01(run: &mut Run) -> Res {
    run.vast = true;
    let n = n_jobs(run);
    let mc = maxc(run);
    let mut jobs: Vec<Job> = (0..n).map(|_| gen_job(run, mc, true)).collect();
    // twins: the same content with the same parameters, fragmented and configured differently
    if run.flip() {
        let mut j = jobs[0].clone();
        if j.cfg < 2 {
            j.cfg ^= 1;
        }
        jobs.push(j);
        if run.chance(1, 3) {
            // all importers of this branching factor are configured with clones of one collector
            run.count("cloned_collectors");
            let bf = jobs[0].bf;
            let proto: Collector = lib(|| BalancedCollector::with_branching_factor(bf)).into();
            for j in jobs.iter_mut().filter(|j| j.bf == bf) {
                j.proto = Some(proto.clone());
            }
        }
        run.count("twin_imports");
    }
    // every importer in its own process state first: alone, unfragmented
    let mut expect = Vec::new();
    for j in &jobs {
        expect.push(baseline(j, &j.content)?);
    }
    let mut tasks = Vec::new();
    for j in &jobs {
        ev!(run, "import {}", j.desc());
        probes(run, j);
        tasks.push(Task::new(run, j, true));
    }
    let cancels = run.chance(1, 3);
    drive(run, &mut tasks, cancels, false)?;
    for (i, t) in tasks.iter().enumerate() {
        if t.cancelled {
            // what was emitted until then must still be a prefix
            let got = &t.blocks;
            if t.src.dies_at.is_none() {
                if let Some(d) = same_blocks(got, &expect[i][..got.len().min(expect[i].len())]) {
                    return viol("fragmentation-changes-blocks", format!("cancelled import {}: {} ({})", i, d, t.job.desc()));
                }
            }
            continue;
        }
        let want = if t.consumed() == t.job.content.len() { std::mem::take(&mut expect[i]) } else { baseline(t.job, &t.job.content[..t.consumed()])? };
        if let Some(d) = same_blocks(&t.blocks, &want) {
            return viol("fragmentation-changes-blocks", format!("import {} of {} bytes: {} ({})", i, t.consumed(), d, t.job.desc()));
        }
    }
    run.weight += tasks.len() as u64;
    run.summary = format!("{} interleaved imports: {}", tasks.len(), jobs.iter().map(|j| j.desc()).collect::<Vec<_>>().join("; "));
    Ok(())
}

pub const U01: Prop = Prop {
    id: "U01",
    run: u01,
    quick: 120_000,
    thorough: 2_000_000,
    rule: "Every run interleaves 1-6 imports whose readers return seeded fragments and faults, and compares every emitted block in order with an unfragmented import of the same bytes.",
    min_weight: 3,
    real: &["unixfs_v1::file::adder (FileAdder, builder, chunker, balanced collector)"],
    stub: &["byte sources (short reads, EINTR, empty reads, death)", "cooperative scheduler of the imports"],
    assumptions: &["sha2 and quick-protobuf are part of the system under test as linked", "chunk size at least 1 and branching factor at least 2"],
};

// ------------------------------------------------------------------------------------- U02

fn check_layout(run: &mut Run, job: &Job, content: &[u8], blocks: &[Block]) -> Res<Cid> {
    let want = ref_layout(content, job.chunk, job.bf);
    for (cid, b) in blocks {
        ensure!(*cid == cid_v1(b), "wrong-cid", "emitted Cid {} is not the CIDv1 dag-pb sha2-256 of its bytes ({})", cid, job.desc());
    }
    let root = match blocks.last() {
        Some(b) => b.0,
        None => return viol("no-blocks", format!("nothing was emitted ({})", job.desc())),
    };
    ensure!(root == want.root, "wrong-root", "root {} instead of {} for {} bytes ({})", root, want.root, content.len(), job.desc());
    let key = |v: &[Block]| {
        let mut m: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
        for (_, b) in v {
            *m.entry(b.clone()).or_insert(0) += 1;
        }
        m
    };
    let (a, b) = (key(blocks), key(&want.blocks));
    ensure!(a == b, "not-canonical-blocks", "emitted blocks are not those of the balanced layout: {} vs {} blocks ({} distinct vs {}) ({})", blocks.len(), want.blocks.len(), a.len(), b.len(), job.desc());
    run.count_n("blocks_checked", blocks.len() as u64);
    Ok(root)
}

/// Branching factors with which levels never collapse into a root are refused, or work all the same.
fn hopeless(run: &mut Run) -> Res {
    let bf = run.idx(2);
    run.count("probe_hopeless_branching_factor");
    let c = std::panic::catch_unwind(|| lib(|| BalancedCollector::with_branching_factor(bf)));
    let c = match c {
        Err(_) => {
            take_panic();
            return Ok(());
        }
        Ok(c) => c,
    };
    ev!(run, "branching factor {} was not refused", bf);
    let content = content_bytes(7, 10);
    let mut a = lib(|| FileAdder::builder().with_chunker(Chunker::Size(4)).with_collector(c).build());
    let (mut blocks, mut at) = (vec![], 0);
    while at < content.len() {
        let (b, n) = push(&mut a, &content[at..]);
        ensure!(n > 0, "push-no-progress", "push consumed nothing with a branching factor of {}", bf);
        blocks.extend(b);
        at += n;
    }
    blocks.extend(finish(a));
    let store: Store = blocks.iter().map(|(c, b)| (c.to_bytes(), b.clone())).collect();
    let mut out = vec![];
    reassemble(&store, &blocks.last().expect("root").0, &mut out, &mut BTreeSet::new())?;
    ensure!(out == content, "layout-no-root", "an accepted branching factor of {} does not lead to a root", bf);
    Ok(())
}

fn u02(run: &mut Run) -> Res {
    run.vast = true;
    if run.chance(1, GIANT) {
        return giant(run, false);
    }
    let n = n_jobs(run);
    let mc = if run.thorough && run.chance(1, 200) { 31_000 } else { maxc(run) };
    let jobs: Vec<Job> = (0..n).map(|_| gen_job(run, mc, true)).collect();
    let mut tasks = Vec::new();
    for j in &jobs {
        ev!(run, "import {}", j.desc());
        probes(run, j);
        tasks.push(Task::new(run, j, true));
    }
    if run.chance(1, 40) {
        hopeless(run)?;
    }
    drive(run, &mut tasks, false, false)?;
    for t in &tasks {
        check_layout(run, t.job, &t.job.content[..t.consumed()], &t.blocks)?;
    }
    run.weight += tasks.len() as u64;
    run.summary = jobs.iter().map(|j| j.desc()).collect::<Vec<_>>().join("; ");
    Ok(())
}

pub const U02: Prop = Prop {
    id: "U02",
    run: u02,
    quick: 120_000,
    thorough: 2_000_000,
    rule: "Every run interleaves 1-5 imports from faulty readers and compares the emitted blocks and root with an independent implementation of the balanced layout over the bytes consumed.",
    min_weight: 3,
    real: &["unixfs_v1::file::adder"],
    stub: &["byte sources", "cooperative scheduler", "reference layout and codec (oracle)"],
    assumptions: &["the reference layout encodes links as hash, empty name, size; data as type, data, filesize, blocksizes (go-ipfs 0.6 form)"],
};

// ------------------------------------------------------------------------------------- U03

fn u03(run: &mut Run) -> Res {
    run.vast = true;
    let n = n_jobs(run);
    let mc = maxc(run);
    let jobs: Vec<Job> = (0..n).map(|_| gen_job(run, mc, true)).collect();
    let mut tasks = Vec::new();
    for j in &jobs {
        ev!(run, "import {}", j.desc());
        probes(run, j);
        tasks.push(Task::new(run, j, true));
    }
    let cancels = run.chance(1, 4);
    drive(run, &mut tasks, cancels, true)?;
    for t in &tasks {
        if t.cancelled {
            continue;
        }
        let mut store = Store::new();
        for (c, b) in &t.blocks {
            store.insert(c.to_bytes(), b.clone());
        }
        let root = match t.blocks.last() {
            Some(b) => b.0,
            None => return viol("no-blocks", format!("finishing produced no block at all ({})", t.job.desc())),
        };
        let mut out = Vec::new();
        reassemble(&store, &root, &mut out, &mut BTreeSet::new())?;
        ensure!(
            out == t.job.content[..t.consumed()],
            "finished-file-differs",
            "the finished file has {} bytes, {} were consumed{} ({})",
            out.len(),
            t.consumed(),
            if out.len() == t.consumed() { ", contents differ" } else { "" },
            t.job.desc()
        );
    }
    run.weight += tasks.len() as u64;
    run.summary = jobs.iter().map(|j| j.desc()).collect::<Vec<_>>().join("; ");
    Ok(())
}

pub const U03: Prop = Prop {
    id: "U03",
    run: u03,
    quick: 120_000,
    thorough: 2_000_000,
    rule: "Every push of every interleaved import is checked for progress and byte accounting; readers stall, are interrupted, return nothing or die at seeded offsets, and the finished file is reassembled by an independent decoder.",
    min_weight: 3,
    real: &["unixfs_v1::file::adder"],
    stub: &["byte sources", "cooperative scheduler", "reference decoder (oracle)"],
    assumptions: &["chunk size at least 1"],
};

// ------------------------------------------------------------------------------------- disk

/// An append log of blocks: writes become durable in order, a crash keeps a prefix and may tear
/// the record being written, which recovery detects by its hash.
#[derive(Default)]
pub struct Disk {
    pub durable: Store,
    queue: Vec<(Vec<u8>, Vec<u8>)>,
    pub full_after: Option<usize>,
    pub written: usize,
}

impl Disk {
    pub fn has(&self, c: &Cid) -> bool {
        let k = c.to_bytes();
        self.durable.contains_key(&k) || self.queue.iter().any(|q| q.0 == k)
    }
    pub fn get(&self, c: &Cid) -> Option<Vec<u8>> {
        let k = c.to_bytes();
        self.durable.get(&k).cloned().or_else(|| self.queue.iter().find(|q| q.0 == k).map(|q| q.1.clone()))
    }
    /// false: transient write error or disk full, nothing stored
    pub fn put(&mut self, run: &mut Run, c: &Cid, b: &[u8], err: u64) -> bool {
        run.now += 20;
        if err > 0 && run.chance(err, 256) {
            run.fault("disk_write_error");
            return false;
        }
        if let Some(f) = self.full_after {
            if self.written >= f {
                run.fault("disk_full");
                // space is freed later
                self.full_after = None;
                return false;
            }
        }
        self.written += 1;
        self.queue.push((c.to_bytes(), b.to_vec()));
        if run.chance(1, 8) {
            self.sync();
        }
        true
    }
    pub fn sync(&mut self) {
        for (k, v) in self.queue.drain(..) {
            self.durable.insert(k, v);
        }
    }
    pub fn crash(&mut self, run: &mut Run) {
        run.fault("crash");
        let keep = if self.queue.is_empty() { 0 } else { run.urange(0, self.queue.len()) };
        let rest = self.queue.split_off(keep);
        self.sync();
        if let Some((k, v)) = rest.first() {
            if run.flip() && !v.is_empty() {
                run.fault("torn_write");
                let cut = run.idx(v.len());
                let torn = &v[..cut];
                // recovery: the record is dropped unless the hash matches
                let cid = Cid::try_from(&k[..]).expect("own key");
                if cid_v1(torn) == cid {
                    self.durable.insert(k.clone(), torn.to_vec());
                }
            }
        }
    }
    /// Every stored block has its whole subtree stored.
    pub fn check_closed(&self) -> Res {
        for (k, b) in &self.durable {
            let (links, _) = decode(b)?;
            for l in &links {
                let c = link_cid(l)?;
                ensure!(
                    self.durable.contains_key(&c.to_bytes()),
                    "dangling-parent",
                    "after the crash {} is stored but its child {} is not",
                    short(&Cid::try_from(&k[..]).expect("own key")),
                    short(&c)
                );
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------- U04

fn u04(run: &mut Run) -> Res {
    let n = n_jobs(run);
    let mc = maxc(run);
    let jobs: Vec<Job> = (0..n).map(|_| gen_job(run, mc, run_allow_default(n))).collect();
    let err = if run.flip() { run.range(1, 12) } else { 0 };
    let mut disk = Disk::default();
    if run.chance(1, 5) {
        disk.full_after = Some(run.urange(0, 40));
    }
    let mut roots: Vec<Option<Cid>> = vec![None; jobs.len()];
    for j in &jobs {
        ev!(run, "import {}", j.desc());
        probes(run, j);
    }
    let mut crashes = run.urange(0, 4);
    let total: usize = jobs.iter().map(|j| j.content.len() / j.chunk + 2).sum();
    // process lifetimes
    'life: for life in 0..40 {
        let crash_at = if crashes > 0 {
            crashes -= 1;
            Some(run.urange(1, total * 2))
        } else {
            None
        };
        let mut steps = 0;
        let todo: Vec<usize> = (0..jobs.len()).filter(|i| roots[*i].is_none()).collect();
        if todo.is_empty() {
            break;
        }
        ev!(run, "process start #{} with {} stored blocks", life, disk.durable.len());
        let mut tasks: Vec<(usize, Task<'_>, usize)> = Vec::new();
        for i in todo {
            let mut t = Task::new(run, &jobs[i], true);
            t.src.dies_at = None;
            tasks.push((i, t, 0));
        }
        while !tasks.is_empty() {
            steps += 1;
            if Some(steps) == crash_at {
                ev!(run, "crash after {} steps", steps);
                disk.crash(run);
                disk.check_closed()?;
                continue 'life;
            }
            let k = run.idx(tasks.len());
            run.sig(k as u64);
            let (i, t, stored) = &mut tasks[k];
            // blocks are stored strictly in emission order; a failed write is retried before
            // anything else is read
            if *stored < t.blocks.len() {
                let (c, b) = t.blocks[*stored].clone();
                if disk.put(run, &c, &b, err) {
                    *stored += 1;
                } else {
                    ev!(run, "write of {} failed", short(&c));
                }
                continue;
            }
            if t.done {
                disk.sync();
                let i = *i;
                let (_, t, _) = tasks.remove(k);
                roots[i] = Some(check_emission(&t)?);
                ev!(run, "import {} done, root {}", i, short(&roots[i].unwrap()));
                continue;
            }
            t.step(run, false)?;
        }
    }
    disk.sync();
    disk.check_closed()?;
    for (i, j) in jobs.iter().enumerate() {
        let root = match roots[i] {
            Some(r) => r,
            None => return viol("import-not-completed", format!("import {} never completed although faults stopped", i)),
        };
        let want = baseline(j, &j.content)?;
        let want = want.last().map(|b| b.0);
        ensure!(Some(root) == want, "reimport-root-differs", "re-importing after crashes gave {} instead of {:?} ({})", root, want, j.desc());
        let mut out = Vec::new();
        reassemble(&disk.durable, &root, &mut out, &mut BTreeSet::new())?;
        ensure!(out == j.content, "recovered-content-differs", "content after recovery differs ({})", j.desc());
    }
    run.weight += jobs.len() as u64;
    run.summary = format!("{} imports, {} stored blocks", jobs.len(), disk.durable.len());
    Ok(())
}

fn run_allow_default(n: usize) -> bool {
    n <= 2
}

/// Root once and last, reaching everything; children before parents.
fn check_emission(t: &Task<'_>) -> Res<Cid> {
    let root = match t.blocks.last() {
        Some(b) => b.0,
        None => return viol("no-blocks", "nothing was emitted".into()),
    };
    let mut known: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut store = Store::new();
    for (i, (c, b)) in t.blocks.iter().enumerate() {
        ensure!(*c != root || i + 1 == t.blocks.len(), "root-not-last", "root {} was emitted as #{} of {} ({})", short(c), i, t.blocks.len(), t.job.desc());
        for l in &decode(b)?.0 {
            let child = link_cid(l)?;
            ensure!(known.contains(&child.to_bytes()), "parent-before-child", "{} was emitted before its child {} ({})", short(c), short(&child), t.job.desc());
        }
        known.insert(c.to_bytes());
        store.insert(c.to_bytes(), b.clone());
    }
    let mut seen = BTreeSet::new();
    reassemble(&store, &root, &mut Vec::new(), &mut seen)?;
    ensure!(seen == known, "unreachable-block", "{} of {} emitted blocks are not reachable from the root ({})", known.difference(&seen).count(), known.len(), t.job.desc());
    Ok(root)
}

pub const U04: Prop = Prop {
    id: "U04",
    run: u04,
    quick: 120_000,
    thorough: 2_000_000,
    rule: "Process lifetimes with imports writing their blocks in emission order to an append-log disk; crashes at seeded steps keep a seeded prefix (last record possibly torn), after which the closure of the surviving blocks is checked and everything is re-imported.",
    min_weight: 3,
    real: &["unixfs_v1::file::adder"],
    stub: &["disk (ordered log, write errors, full disk, torn record, crash)", "byte sources", "cooperative scheduler"],
    assumptions: &["storage keeps write order within one import (the property's premise) and detects torn records by hash"],
};

// ------------------------------------------------------------------------------------- U05

/// Checks every size recorded in the blocks of an imported file; returns (file size, tree size).
pub fn check_sizes(store: &Store, root: &Cid, memo: &mut BTreeMap<Vec<u8>, (u64, u64)>) -> Res<(u64, u64)> {
    if let Some(x) = memo.get(&root.to_bytes()) {
        return Ok(*x);
    }
    let b = match store.get(&root.to_bytes()) {
        Some(b) => b,
        None => return viol("missing-block", format!("block {} is linked but missing", short(root))),
    };
    let (links, data) = decode(b)?;
    let mut bytes = data.data.as_ref().map_or(0, |d| d.len() as u64);
    let mut tree = b.len() as u64;
    ensure!(data.blocksizes.len() == links.len(), "blocksizes-mismatch", "{} has {} links and {} block sizes", short(root), links.len(), data.blocksizes.len());
    for (l, bs) in links.iter().zip(&data.blocksizes) {
        let c = link_cid(l)?;
        let (f, t) = check_sizes(store, &c, memo)?;
        ensure!(*bs == f, "blocksize-untruthful", "{} declares {} bytes for child {} which has {}", short(root), bs, short(&c), f);
        ensure!(l.tsize == Some(t), "tsize-untruthful", "{} declares cumulative size {:?} for child {} which has {}", short(root), l.tsize, short(&c), t);
        bytes += f;
        tree += t;
    }
    ensure!(data.filesize == Some(bytes), "filesize-untruthful", "{} declares file size {:?} but has {} bytes below it", short(root), data.filesize, bytes);
    memo.insert(root.to_bytes(), (bytes, tree));
    Ok((bytes, tree))
}

fn u05(run: &mut Run) -> Res {
    run.vast = true;
    use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
    use unixfs_v1::file::visit::IdleFileVisit;
    use unixfs_v1::walk::{ContinuedWalk, Walker};
    if run.chance(1, GIANT) {
        return giant(run, true);
    }
    let n = n_jobs(run);
    let mc = maxc(run) / 2;
    let jobs: Vec<Job> = (0..n).map(|_| gen_job(run, mc, true)).collect();
    let mut tasks = Vec::new();
    for j in &jobs {
        ev!(run, "import {}", j.desc());
        probes(run, j);
        tasks.push(Task::new(run, j, true));
    }
    drive(run, &mut tasks, false, false)?;
    let mut store = Store::new();
    let mut files = Vec::new();
    for t in &tasks {
        for (c, b) in &t.blocks {
            store.insert(c.to_bytes(), b.clone());
        }
        let root = match t.blocks.last() {
            Some(b) => b.0,
            None => return viol("no-blocks", "nothing was emitted".into()),
        };
        let (fs, ts) = check_sizes(&store, &root, &mut BTreeMap::new())?;
        ensure!(fs == t.consumed() as u64, "filesize-untruthful", "root declares {} bytes, {} were imported ({})", fs, t.consumed(), t.job.desc());
        files.push((root, fs, ts));
    }

    // a directory tree over the files, and over entries too large to be real
    let mut opts = TreeOptions::default();
    let wrap = run.flip();
    if wrap {
        opts.wrap_with_directory();
    }
    let mut tb = lib(|| BufferingTreeBuilder::new(opts));
    let dirs = ["d", "d/e", "d/e/f", "d/g", "d/h/i"];
    let mut want: BTreeMap<String, Vec<(String, Cid, u64)>> = BTreeMap::new();
    let top = if wrap { "" } else { "d" };
    let mut count = 0u64;
    for (i, (root, _, ts)) in files.iter().enumerate() {
        let d = run.pick(&dirs);
        let p = format!("{}/f{}", d, i);
        lib(|| tb.put_link(&p, *root, *ts)).map_err(|e| Violation { class: "builder-rejected".into(), msg: format!("{:?}", e) })?;
        want.entry(d.to_string()).or_default().push((format!("f{}", i), *root, *ts));
        count += 1;
    }
    let extra = run.skewed(14);
    for i in 0..extra {
        let d = run.pick(&dirs);
        let size = match run.below(5) {
            0 => run.below(1 << 12),
            1 => u32::MAX as u64 - 1 + run.below(4),
            2 => (1u64 << 32) + run.below(1 << 20),
            3 => run.below(1 << 40),
            _ => run.below(1 << 58),
        };
        if size > u32::MAX as u64 {
            run.count("probe_entry_over_32_bit");
        }
        let c = cid_v1(&i.to_le_bytes());
        let p = format!("{}/x{}", d, i);
        lib(|| tb.put_link(&p, c, size)).map_err(|e| Violation { class: "builder-rejected".into(), msg: format!("{:?}", e) })?;
        want.entry(d.to_string()).or_default().push((format!("x{}", i), c, size));
        count += 1;
    }
    if run.chance(1, 3) {
        let p = run.pick(&["d/empty", "d/e/empty", "d/h/empty"]);
        lib(|| tb.set_metadata(p, Default::default())).map_err(|e| Violation { class: "builder-rejected".into(), msg: format!("{:?}", e) })?;
        want.entry(p.to_string()).or_default();
        count += 1;
    }
    // all ancestors exist
    let mut all: BTreeSet<String> = BTreeSet::new();
    for d in want.keys() {
        let mut p = d.as_str();
        loop {
            all.insert(p.to_string());
            match p.rfind('/') {
                Some(i) => p = &p[..i],
                None => break,
            }
        }
    }
    if wrap {
        all.insert(String::new());
    }
    let mut nodes: BTreeMap<String, (Cid, u64, u64)> = BTreeMap::new();
    if count > 0 {
        let mut it = lib(|| tb.build());
        let borrowed = run.flip();
        loop {
            let item = if borrowed {
                lib(|| it.next_borrowed().map(|r| r.map(|n| n.into_owned())))
            } else {
                lib(|| it.next())
            };
            let node = match item {
                None => break,
                Some(Ok(n)) => n,
                Some(Err(e)) => return viol("build-failed", format!("{:?}", e)),
            };
            let (links, _) = decode(&node.block)?;
            let mut sum = node.block.len() as u64;
            let mut names: BTreeSet<String> = BTreeSet::new();
            for l in &links {
                let name = String::from_utf8_lossy(l.name.as_deref().unwrap_or_default()).to_string();
                let full = if node.path.is_empty() { name.clone() } else { format!("{}/{}", node.path, name) };
                let real = match nodes.get(&full) {
                    Some((_, t, _)) => *t,
                    None => match want.get(&node.path).and_then(|v| v.iter().find(|e| e.0 == name)) {
                        Some(e) => e.2,
                        None => return viol("unknown-entry", format!("directory {:?} has an entry {:?} which was not added", node.path, name)),
                    },
                };
                ensure!(l.tsize == Some(real), "dir-entry-size-untruthful", "entry {:?} of {:?} declares {:?}, the entry has {}", name, node.path, l.tsize, real);
                sum += real;
                names.insert(name);
            }
            let entries = want.get(&node.path).map_or(0, |v| v.len()) + all.iter().filter(|d| is_child(d, &node.path)).count();
            ensure!(names.len() == entries && links.len() == entries, "dir-entries-missing", "directory {:?} has {} links for {} entries", node.path, links.len(), entries);
            ensure!(node.total_size == sum, "dir-size-untruthful", "directory {:?} reports {} instead of {}", node.path, node.total_size, sum);
            ev!(run, "node {:?} {} total {}", node.path, short(&node.cid), node.total_size);
            store.insert(node.cid.to_bytes(), node.block.to_vec());
            nodes.insert(node.path.clone(), (node.cid, node.total_size, node.block.len() as u64));
        }
        ensure!(nodes.keys().cloned().collect::<BTreeSet<_>>() == all, "dirs-missing", "emitted directories {:?} instead of {:?}", nodes.keys(), all);
    }
    let _ = top;

    // readers report the size on every block
    for (i, (root, fs, _)) in files.iter().enumerate() {
        let by_walk = run.flip();
        if by_walk {
            let mut w = lib(|| Walker::new(*root, "x".into()));
            let mut cache = None;
            while lib(|| w.should_continue()) {
                let c = *lib(|| w.pending_links()).0;
                let b = &store[&c.to_bytes()];
                match lib(|| w.next(b, &mut cache)) {
                    Ok(ContinuedWalk::File(_, _, _, _, sz)) => {
                        ensure!(sz == *fs, "reader-size-differs", "walk reports file size {} instead of {} at block {} ({})", sz, fs, short(&c), jobs[i].desc())
                    }
                    x => return viol("read-failed", format!("{:?}", x)),
                }
                run.count("reader_blocks");
            }
        } else {
            let range = if run.flip() && *fs > 0 {
                let a = run.below(*fs);
                Some(a..run.range(a, *fs))
            } else {
                None
            };
            let mut v = IdleFileVisit::default();
            if let Some(r) = range.clone() {
                v = v.with_target_range(r);
            }
            let mut cache = None;
            let b = &store[&root.to_bytes()];
            let mut next = match lib(|| v.start(b)) {
                Ok((_, sz, _, n)) => {
                    ensure!(sz == *fs, "reader-size-differs", "visit reports file size {} instead of {} at its start ({})", sz, fs, jobs[i].desc());
                    n
                }
                Err(e) => return viol("read-failed", format!("{:?}", e)),
            };
            while let Some(v) = next {
                let sz = lib(|| v.file_size());
                ensure!(sz == *fs, "reader-size-differs", "visit reports file size {} instead of {} during the visit ({})", sz, fs, jobs[i].desc());
                let c = *lib(|| v.pending_links()).0;
                let b = &store[&c.to_bytes()];
                next = match lib(|| v.continue_walk(b, &mut cache)) {
                    Ok((_, n)) => n,
                    Err(e) => return viol("read-failed", format!("{:?}", e)),
                };
                run.count("reader_blocks");
            }
        }
    }
    run.weight += 1 + tasks.len() as u64;
    run.summary = format!("{} files, {} directories", files.len(), nodes.len());
    Ok(())
}

fn is_child(d: &str, parent: &str) -> bool {
    if d.is_empty() {
        return false;
    }
    match d.rfind('/') {
        Some(i) => &d[..i] == parent,
        None => parent.is_empty(),
    }
}

pub const U05: Prop = Prop {
    id: "U05",
    run: u05,
    quick: 120_000,
    thorough: 2_000_000,
    rule: "Imports from faulty readers are interleaved, their blocks and a directory tree built over them (and over entries with synthetic sizes beyond 32 bits) are re-measured bottom-up by an independent decoder, and visits and walks must report the same total size on every block.",
    min_weight: 3,
    real: &["unixfs_v1::file::adder", "unixfs_v1::dir::builder", "unixfs_v1::file::visit", "unixfs_v1::walk"],
    stub: &["byte sources", "cooperative scheduler", "reference decoder (oracle)"],
    assumptions: &["the sum of entry sizes fits in 64 bits"],
};
