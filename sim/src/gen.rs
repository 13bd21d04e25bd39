//! Well-formed UnixFS trees made by an independent encoder, with everything an oracle needs to
//! know about them.
use crate::core::*;
use crate::refpb::*;
use libipld::Cid;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type Bytes = Rc<Vec<u8>>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CidKind {
    V1,
    V0,
    S512,
    B2,
    /// the block itself in place of a hash, where it fits
    Id,
    /// each block another of these
    Mixed,
}

pub fn mk_cid(k: CidKind, b: &[u8]) -> Cid {
    match k {
        CidKind::V1 => cid_v1(b),
        CidKind::V0 => cid_v0(b),
        CidKind::S512 => cid_sha512(b),
        CidKind::B2 => cid_code(0x70, 0xb220, b),
        CidKind::Id if b.len() <= 64 => cid_inline(b),
        CidKind::Id => cid_v1(b),
        CidKind::Mixed => {
            let n = b.iter().fold(b.len(), |a, x| a.wrapping_mul(31).wrapping_add(*x as usize));
            mk_cid([CidKind::V1, CidKind::V0, CidKind::Id, CidKind::S512, CidKind::B2][(n >> 3) % 5], b)
        }
    }
}
pub fn gen_cidkind(run: &mut Run) -> CidKind {
    match run.below(12) {
        0..=4 => CidKind::V1,
        5 | 6 => CidKind::V0,
        7 => CidKind::B2,
        8 => CidKind::S512,
        9 => {
            run.count("probe_blocks_within_cids");
            CidKind::Id
        }
        _ => {
            run.count("probe_cids_of_several_kinds");
            CidKind::Mixed
        }
    }
}

#[derive(Default, Clone)]
pub struct Blocks(pub BTreeMap<Cid, Bytes>);
impl Blocks {
    pub fn add(&mut self, c: Cid, b: &Bytes) {
        self.0.insert(c, b.clone());
    }
    pub fn get(&self, c: &Cid) -> Option<&Bytes> {
        self.0.get(c)
    }
}

pub fn gen_meta(run: &mut Run, num: u64, den: u64) -> RMeta {
    if !run.chance(num, den) {
        return RMeta::default();
    }
    let mode = match run.below(4) {
        0 => None,
        1 => Some(0),
        2 => Some(run.below(0o200000) as u32),
        _ => Some(run.pick(&[0o644u32, 0o755, 0o100644, 0o40755, u32::MAX, 1 << 31])),
    };
    let mtime = match run.below(6) {
        0 => None,
        1 => Some((run.below(1 << 31) as i64, None)),
        2 => Some((-(run.below(1 << 40) as i64), Some(run.below(1_000_000_000) as u32))),
        3 => Some((run.pick(&[0i64, 1, -1, i64::MIN, i64::MAX, 1 << 33]), Some(run.pick(&[0u32, 1, 999_999_999, 1_000_000_000, u32::MAX])))),
        _ => Some((run.below(1 << 33) as i64, Some(run.below(1_000_000_000) as u32))),
    };
    RMeta { mode, mtime }
}

// ---------------------------------------------------------------------------------- files

pub struct FB {
    pub cid: Cid,
    pub block: Bytes,
    pub size: u64,
    pub tsize: u64,
    pub data: Bytes,
    pub kids: Vec<usize>,
}

pub struct FileDag {
    pub b: Vec<FB>,
    pub root: usize,
    pub meta: RMeta,
    pub style: &'static str,
    pub huge: bool,
}

/// One occurrence of a block in depth-first order.
#[derive(Clone, Debug)]
pub struct Occ {
    pub blk: usize,
    pub parent: Option<usize>,
    pub start: u64,
    pub end: u64,
}

pub struct FileGen {
    pub b: Vec<FB>,
    leaves: Vec<usize>,
    pub cidk: CidKind,
    names: u64,
    tsizes: bool,
    empty_data: bool,
    p_raw: u64,
    p_nosize: u64,
    p_empty: u64,
    p_repeat: u64,
    data_first: bool,
    leaf_max: usize,
    large: bool,
    key: u64,
    layout: u64,
}

/// Now and then another, as legal, encoding of the UnixFS fields.
fn gen_layout(run: &mut Run) -> u64 {
    if !run.chance(1, 10) {
        return 0;
    }
    run.count("probe_other_field_layout");
    run.below(1 << 40) + 1
}
fn nth_layout(layout: u64, n: usize) -> u64 {
    if layout == 0 {
        0
    } else {
        layout.wrapping_add((n as u64).wrapping_mul(0x9e3779b97f4a7c15)) | 1
    }
}

impl FileGen {
    pub fn new(run: &mut Run) -> Self {
        let cidk = gen_cidkind(run);
        FileGen {
            b: vec![],
            leaves: vec![],
            cidk,
            names: if run.chance(1, 3) { run.range(1, 3) } else { 0 },
            tsizes: !run.chance(1, 4),
            empty_data: run.chance(1, 8),
            p_raw: run.pick(&[0u64, 0, 4, 8]),
            p_nosize: run.pick(&[0u64, 0, 3, 8]),
            p_empty: run.pick(&[0u64, 0, 1, 2]),
            p_repeat: run.pick(&[0u64, 0, 1, 3]),
            data_first: run.chance(1, 8),
            large: false,
            leaf_max: run.pick(&[1usize, 4, 16, 16, 64, 300, 3000]),
            key: run.below(1 << 40) + 1,
            layout: gen_layout(run),
        }
    }
    fn add(&mut self, links: &[RLink], d: &RData, data: Bytes, size: u64, kids: Vec<usize>) -> usize {
        let mut d = d.clone();
        d.layout = nth_layout(self.layout, self.b.len());
        let dat = enc_data(&d);
        let block = if self.data_first {
            let mut o = enc_node(&[], Some(&dat));
            o.extend_from_slice(&enc_node(links, None));
            o
        } else {
            enc_node(links, Some(&dat))
        };
        let cid = mk_cid(self.cidk, &block);
        let tsize = kids.iter().map(|k| self.b[*k].tsize).fold(block.len() as u64, |a, b| a.saturating_add(b));
        self.b.push(FB { cid, block: Rc::new(block), size, tsize: tsize.min(1 << 62), data, kids });
        self.b.len() - 1
    }
    pub fn leaf_of(&mut self, run: &mut Run, data: Vec<u8>, meta: RMeta) -> usize {
        let raw = run.chance(self.p_raw, 8);
        let nosize = run.chance(self.p_nosize, 8);
        let n = data.len() as u64;
        let field = if data.is_empty() && !run.chance(1, 3) { None } else { Some(data.clone()) };
        let d = RData { typ: if raw { T_RAW } else { T_FILE }, data: field, filesize: if nosize { None } else { Some(n) }, meta, ..Default::default() };
        if raw {
            run.count("probe_raw_leaf");
        }
        if nosize {
            run.count("probe_leaf_without_filesize");
        }
        self.add(&[], &d, Rc::new(data), n, vec![])
    }
    pub fn leaf(&mut self, run: &mut Run) -> usize {
        let s = run.t.begin();
        let r = if !self.leaves.is_empty() && run.chance(self.p_repeat, 8) {
            run.count("probe_repeated_leaf");
            let l = self.leaves.clone();
            run.pick(&l)
        } else {
            let data = if run.chance(self.p_empty, 8) {
                run.count("probe_empty_leaf");
                vec![]
            } else {
                let mut n = run.urange(1, self.leaf_max);
                if self.leaf_max == 3000 && !self.large && run.chance(1, 12) {
                    // lengths of three bytes in the encoding
                    self.large = true;
                    run.count("probe_large_leaf");
                    n = match run.below(4) {
                        0 if run.chance(1, 12) => {
                            run.count("probe_leaf_of_millions_of_bytes");
                            run.pick(&[1_048_570usize, 1_048_577, 2_097_130, 2_097_153, 4_194_305])
                        }
                        0 => run.urange(16_300, 16_500),
                        1 => run.urange(65_400, 65_700),
                        2 => run.urange(262_000, 262_300),
                        _ => run.urange(3_000, 300_000),
                    };
                }
                self.key += 1;
                content_bytes(self.key, n)
            };
            let l = self.leaf_of(run, data, RMeta::default());
            self.leaves.push(l);
            l
        };
        run.t.end(s);
        r
    }
    pub fn links(&self, kids: &[usize]) -> Vec<RLink> {
        kids.iter()
            .map(|k| RLink {
                hash: Some(self.b[*k].cid.to_bytes()),
                name: match self.names {
                    0 => Some(vec![]),
                    // readers have no use for them in files
                    3 => Some(format!("{:02X}{}", k % 256, ["", "a", "/", ".", "é", "\0"][k % 6]).into_bytes()),
                    _ => None,
                },
                tsize: if self.tsizes { Some(self.b[*k].tsize) } else { None },
            })
            .collect()
    }
    pub fn inner(&mut self, kids: Vec<usize>, meta: RMeta) -> usize {
        let sizes: Vec<u64> = kids.iter().map(|k| self.b[*k].size).collect();
        let size = sizes.iter().sum();
        let data = if self.empty_data { Some(vec![]) } else { None };
        let d = RData { typ: T_FILE, data, filesize: Some(size), blocksizes: sizes, meta, ..Default::default() };
        let links = self.links(&kids);
        self.add(&links, &d, Rc::new(vec![]), size, kids)
    }
    fn uneven(&mut self, run: &mut Run, budget: &mut usize, depth: usize) -> usize {
        let s = run.t.begin();
        let r = if depth == 0 || *budget == 0 || run.chance(1, 2) {
            self.leaf(run)
        } else {
            let n = run.urange(1, 4);
            let mut kids = vec![];
            for _ in 0..n {
                *budget = budget.saturating_sub(1);
                kids.push(self.uneven(run, budget, depth - 1));
            }
            self.inner(kids, RMeta::default())
        };
        run.t.end(s);
        r
    }
}

/// `max` bounds the number of block occurrences roughly.
pub fn gen_file(run: &mut Run, max: usize, huge: bool) -> FileDag {
    let s = run.t.begin();
    let mut g = FileGen::new(run);
    let meta = gen_meta(run, 1, 3);
    let mut style = run.below(8);
    if max >= 16 && run.chance(1, 40) {
        style = 9;
    }
    if huge {
        style = 8;
    }
    let mut is_huge = false;
    let (root, name) = match style {
        0 => {
            let n = run.skewed(600);
            let data = content_bytes(g.key, n);
            (g.leaf_of(run, data, meta.clone()), "single")
        }
        1 | 2 => {
            let bf = run.urange(2, 5);
            let n = run.urange(2, (max / 2).max(2));
            let mut level: Vec<usize> = (0..n).map(|_| g.leaf(run)).collect();
            while level.len() > bf {
                level = level.chunks(bf).map(|c| c.to_vec()).collect::<Vec<_>>().into_iter().map(|c| g.inner(c, RMeta::default())).collect();
            }
            (g.inner(level, meta.clone()), "balanced")
        }
        3 => {
            // trickle: some leaves directly, then subtrees of growing depth
            let direct = run.urange(1, 4);
            let mut kids: Vec<usize> = (0..direct).map(|_| g.leaf(run)).collect();
            let mut budget = max;
            for d in 1..=run.urange(1, 4) {
                for _ in 0..run.urange(1, 2) {
                    if budget == 0 {
                        break;
                    }
                    let mut sub: Vec<usize> = (0..direct).map(|_| g.leaf(run)).collect();
                    budget = budget.saturating_sub(direct + 1);
                    for _ in 1..d {
                        let inner = g.inner(sub.clone(), RMeta::default());
                        let mut next: Vec<usize> = (0..direct).map(|_| g.leaf(run)).collect();
                        budget = budget.saturating_sub(direct + 1);
                        next.push(inner);
                        sub = next;
                    }
                    kids.push(g.inner(sub, RMeta::default()));
                }
            }
            (g.inner(kids, meta.clone()), "trickle")
        }
        4 | 5 => {
            let n = run.urange(1, 5);
            let mut budget = max;
            let kids: Vec<usize> = (0..n).map(|_| g.uneven(run, &mut budget, 4)).collect();
            (g.inner(kids, meta.clone()), "uneven")
        }
        6 => {
            let mut x = g.leaf(run);
            let n = if run.chance(1, 16) { run.urange(20, 80) } else { run.urange(0, 5) };
            if n >= 20 {
                run.count("probe_deep_file");
            }
            for _ in 0..n {
                x = g.inner(vec![x], RMeta::default());
            }
            let mut kids = vec![x];
            if run.flip() {
                kids.push(g.leaf(run));
            }
            (g.inner(kids, meta.clone()), "chain")
        }
        7 => {
            if max >= 10 && run.chance(1, 20) {
                // hundreds of links at once, and (rarely) hundreds more at each of a few levels, so
                // that very much is pending
                run.count("probe_very_wide_file");
                let levels = if run.chance(1, 4) { run.urange(2, 4) } else { 1 };
                let extreme = run.chance(1, 10);
                if extreme {
                    run.count("probe_file_of_thousands_of_links");
                    g.leaf_max = g.leaf_max.min(16);
                }
                let mut sub = None;
                for _ in 0..levels {
                    let n = if extreme { run.urange(1000, 5000) / levels } else { run.urange(100, if levels > 1 { 250 } else { 400 }) };
                    let mut kids: Vec<usize> = (0..n).map(|_| g.leaf(run)).collect();
                    if let Some(x) = sub {
                        kids[run.idx(n).min(3)] = x;
                    }
                    sub = Some(g.inner(kids, if levels == 1 { meta.clone() } else { RMeta::default() }));
                }
                let root = sub.expect("at least one level");
                let root = if levels > 1 { g.inner(vec![root], meta.clone()) } else { root };
                (root, "wide")
            } else {
                let n = run.urange(1, max.min(60).max(1));
                let kids: Vec<usize> = (0..n).map(|_| g.leaf(run)).collect();
                (g.inner(kids, meta.clone()), "wide")
            }
        }
        9 => {
            // as wide as importers make them
            run.count("probe_wide_link_blocks");
            g.leaf_max = g.leaf_max.min(16);
            let mut kids = vec![];
            for _ in 0..run.urange(1, 3) {
                let n = run.urange(40, 200);
                let sub: Vec<usize> = (0..n).map(|_| g.leaf(run)).collect();
                kids.push(g.inner(sub, RMeta::default()));
                if run.chance(1, 4) {
                    kids.push(g.leaf(run));
                }
            }
            (g.inner(kids, meta.clone()), "wide-levels")
        }
        _ => {
            is_huge = true;
            // exponential growth through sharing: every block is real
            if g.leaf_max < 8 {
                g.leaf_max = 64;
            }
            let mut x = g.leaf(run);
            while g.b[x].size == 0 {
                let d = content_bytes(g.key, 9);
                x = g.leaf_of(run, d, RMeta::default());
            }
            let target = run.range(30, 58);
            let fan = run.urange(2, 16);
            while g.b[x].size < 1 << target {
                let mut kids = vec![x; fan];
                if run.chance(1, 3) {
                    let p = run.idx(fan + 1);
                    let l = g.leaf(run);
                    kids.insert(p, l);
                }
                if run.chance(1, 4) {
                    let n = run.urange(1, 3);
                    let sub: Vec<usize> = (0..n).map(|_| g.leaf(run)).collect();
                    let p = run.idx(kids.len() + 1);
                    let i = g.inner(sub, RMeta::default());
                    kids.insert(p, i);
                }
                x = g.inner(kids, RMeta::default());
            }
            (g.inner(vec![x], meta.clone()), "huge")
        }
    };
    run.t.end(s);
    FileDag { b: g.b, root, meta, style: name, huge: is_huge }
}

impl FileDag {
    pub fn root(&self) -> &FB {
        &self.b[self.root]
    }
    pub fn size(&self) -> u64 {
        self.root().size
    }
    pub fn store(&self, s: &mut Blocks) {
        for b in &self.b {
            s.add(b.cid, &b.block);
        }
    }
    /// All occurrences in depth-first order, root first (small trees only).
    pub fn occs(&self) -> Vec<Occ> {
        let mut out = vec![];
        self.occs_in(self.root, None, 0, &mut out);
        out
    }
    fn occs_in(&self, blk: usize, parent: Option<usize>, start: u64, out: &mut Vec<Occ>) {
        let me = out.len();
        out.push(Occ { blk, parent, start, end: start + self.b[blk].size });
        let mut at = start;
        for k in &self.b[blk].kids {
            self.occs_in(*k, Some(me), at, out);
            at += self.b[*k].size;
        }
    }
    pub fn content(&self) -> Vec<u8> {
        let mut v = vec![];
        self.read(self.root, 0, 0, self.size(), &mut v);
        v
    }
    pub fn slice(&self, from: u64, to: u64) -> Vec<u8> {
        let mut v = vec![];
        if from < to {
            self.read(self.root, 0, from, to.min(self.size()), &mut v);
        }
        v
    }
    fn read(&self, blk: usize, start: u64, from: u64, to: u64, out: &mut Vec<u8>) {
        let b = &self.b[blk];
        let (lo, hi) = (from.max(start), to.min(start + b.size));
        if lo >= hi {
            return;
        }
        if b.kids.is_empty() {
            out.extend_from_slice(&b.data[(lo - start) as usize..(hi - start) as usize]);
        } else {
            let mut at = start;
            for k in &b.kids {
                self.read(*k, at, from, to, out);
                at += self.b[*k].size;
            }
        }
    }
    /// Occurrences below the root which touch the range, in depth-first order, with whether they
    /// overlap it strictly.
    pub fn touching(&self, from: u64, to: u64) -> Vec<(Cid, bool)> {
        let mut out = vec![];
        self.touch_in(self.root, 0, from, to, true, &mut out);
        out
    }
    fn touch_in(&self, blk: usize, start: u64, from: u64, to: u64, root: bool, out: &mut Vec<(Cid, bool)>) {
        let b = &self.b[blk];
        let end = start + b.size;
        if !root {
            if start > to || end < from {
                return;
            }
            out.push((b.cid, start < to && end > from));
        }
        let mut at = start;
        for k in &b.kids {
            self.touch_in(*k, at, from, to, false, out);
            at += self.b[*k].size;
        }
    }
    pub fn by_cid(&self, c: &Cid) -> Option<&FB> {
        self.b.iter().find(|b| b.cid == *c)
    }
}

// ---------------------------------------------------------------------------------- trees

pub enum Item {
    Entry { prefix: String, name: String, to: Rc<TNode> },
    Sub { prefix: String, to: Rc<Bucket> },
}
pub struct Bucket {
    pub cid: Cid,
    pub block: Bytes,
    pub items: Vec<Item>,
    pub tsize: u64,
    /// made into a block which readers have to refuse
    pub bad: bool,
}
pub enum TKind {
    File(Rc<FileDag>),
    Dir(Vec<(String, Rc<TNode>)>),
    Hamt(Rc<Bucket>),
    Symlink(Vec<u8>),
}
pub struct TNode {
    pub cid: Cid,
    pub block: Bytes,
    pub tsize: u64,
    pub meta: RMeta,
    pub kind: TKind,
    /// occurrences in a complete walk
    pub nocc: usize,
}

impl TNode {
    pub fn is_dir(&self) -> bool {
        matches!(self.kind, TKind::Dir(_) | TKind::Hamt(_))
    }
    /// (name, target) of every entry, in walk order
    pub fn entries(&self) -> Vec<(String, Rc<TNode>)> {
        fn bucket(b: &Bucket, out: &mut Vec<(String, Rc<TNode>)>) {
            for i in &b.items {
                match i {
                    Item::Entry { name, to, .. } => out.push((name.clone(), to.clone())),
                    Item::Sub { to, .. } => bucket(to, out),
                }
            }
        }
        match &self.kind {
            TKind::Dir(v) => v.clone(),
            TKind::Hamt(b) => {
                let mut out = vec![];
                bucket(b, &mut out);
                out
            }
            _ => vec![],
        }
    }
}

pub fn valid_name(n: &str) -> bool {
    !n.is_empty() && n != "." && !n.contains('/')
}

/// Text put together from pieces which are likely to be given a meaning by somebody.
pub fn gen_text(run: &mut Run, slashes: bool) -> String {
    let mut s = String::new();
    let n = run.urange(1, 6);
    for _ in 0..n {
        let p = match run.below(8) {
            0 if slashes => run.pick(&["/", "/", "//", "/../", "./", "/."]),
            0..=2 => run.pick(&["..", ".", " ", "\0", "\n", "\r\n", "\t", "\\", "-", "_", "#", "?", "%2F", "%00", "%", "*", "&", "=", ":", "~", "'", "\"", "+", ",", ";", "@"]),
            3 => run.pick(&["é", "e\u{301}", "日", "\u{feff}", "\u{10348}", "ß", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{fffd}", "\u{10ffff}", "\u{200d}", "ﬁ"]),
            4 => run.pick(&["0", "00", "FF", "0A", "7", "42", "1F"]),
            5 => run.pick(&["A", "B", "Z", "AB", "README", "ipfs", "http:", "Qm", "bafy", "index.html", ".tar.gz"]),
            _ => run.pick(&["a", "b", "c", "ab", "abc", "x", "y", "z"]),
        };
        s.push_str(p);
    }
    s
}

/// A symlink's target.
pub fn gen_target(run: &mut Run) -> String {
    let s = run.t.begin();
    let t = match run.below(8) {
        0 => String::new(),
        1 => run.pick(&["../a", "/", "/日本/é", "a/", ".", "..", "a", "a/../b", "/abs/olute"]).into(),
        2 => {
            let n = run.skewed(300);
            (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
        }
        3 => {
            let n = run.pick(&[117usize, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 16370, 16374, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384]);
            "t".repeat(n)
        }
        _ => gen_text(run, true),
    };
    run.t.end(s);
    t
}

pub fn gen_name(run: &mut Run, used: &BTreeSet<String>) -> String {
    let s = run.t.begin();
    let mut n = match run.below(12) {
        10 | 11 => gen_text(run, false),
        0..=2 => run.pick(&["a", "b", "c", "d", "e", "f", "A", "B"]).to_string(),
        3 => run.pick(&["00", "FF", "0A", "00a", "A0", "0", "000", "0000", "1F00", "aa", "aaa", "FFa", "00FF"]).to_string(),
        4 => run.pick(&["é", "e\u{301}", "日本語", "ß", "€uro", "\u{10348}x", "ñ0", "aé", "0é", "é0", "ａ", "\u{200b}", "\u{feff}a", "İ", "K"]).to_string(),
        5 => run.pick(&["..", "...", ".a", "a.", ". ", " ", "a b", "a\\b", "a:b", "\u{0}", "\n", "a\tb", "*", "~", "..a", "-", "\u{7f}", "%2F", "?"]).to_string(),
        6 if !used.is_empty() => {
            // neighbours of existing names
            let v: Vec<&String> = used.iter().collect();
            let base = v[run.idx(v.len())].replace('/', "");
            match run.below(5) {
                0 => format!("{}x", base),
                1 => format!("x{}", base),
                2 => base.chars().skip(1).collect(),
                3 => format!("00{}", base),
                _ => {
                    let mut c = base.clone();
                    c.pop();
                    c
                }
            }
        }
        7 => {
            let mut n = run.pick(&[63usize, 127, 128, 255, 300]);
            if run.chance(1, 60) {
                run.count("probe_name_of_thousands_of_bytes");
                n = run.pick(&[1024usize, 4095, 4096, 6000, 16_384]);
            }
            "n".repeat(n)
        }
        8 => format!("f{}", run.below(100)),
        _ => {
            let n = run.urange(1, 6);
            (0..n).map(|_| run.pick(&['a', 'b', '0', 'F', 'é', '.', '_', '日'])).collect()
        }
    };
    while !valid_name(&n) || used.contains(&n) {
        n.push(run.pick(&['0', '1', 'x', 'y', 'é', '7']));
    }
    run.t.end(s);
    n
}

pub struct TreeGen<'b> {
    pub blocks: &'b mut Blocks,
    pub made: Vec<Rc<TNode>>,
    pub budget: usize,
    pub p_hamt: u64,
    pub dups: bool,
    /// one bucket is to have a name twice
    pub twin: Option<Rc<TNode>>,
    /// one block is to be unsupported
    pub spoil: bool,
    /// the entry of this name is to link to no Cid
    pub dead: Option<String>,
    pub p_meta: u64,
    pub file_max: usize,
    pub cidk: CidKind,
    layout: u64,
    laid: usize,
}

const OCC_MAX: usize = 900;

impl<'b> TreeGen<'b> {
    pub fn new(run: &mut Run, blocks: &'b mut Blocks, budget: usize) -> Self {
        let p_hamt = run.pick(&[0u64, 3, 3, 6, 8]);
        let p_meta = run.pick(&[0u64, 2, 6]);
        let file_max = run.pick(&[4usize, 10, 24]);
        let cidk = gen_cidkind(run);
        TreeGen { blocks, made: vec![], budget, p_hamt, dups: false, twin: None, spoil: false, dead: None, p_meta, file_max, cidk, layout: gen_layout(run), laid: 0 }
    }
    fn seal(&mut self, block: Vec<u8>) -> (Cid, Bytes) {
        let cid = mk_cid(self.cidk, &block);
        let b = Rc::new(block);
        self.blocks.add(cid, &b);
        (cid, b)
    }
    fn next_layout(&mut self) -> u64 {
        self.laid += 1;
        nth_layout(self.layout, self.laid)
    }
    pub fn symlink(&mut self, run: &mut Run) -> Rc<TNode> {
        let target = match run.below(6) {
            0 => run.pick(&[&[0xff, 0xfe, 0x00][..], b"\0", b"\x80", b"a\xff", b"\xc3", b"\xed\xa0\x80", b"a\0"]).to_vec(),
            1 => {
                let l = run.pick(&[1usize, 2, 40, 127, 128, 300]);
                content_bytes(run.below(1 << 20) + 1, l)
            }
            _ => gen_target(run).into_bytes(),
        };
        let meta = gen_meta(run, self.p_meta, 8);
        let field = if target.is_empty() && run.flip() { None } else { Some(target.clone()) };
        let filesize = if run.chance(1, 4) { Some(target.len() as u64) } else { None };
        let layout = self.next_layout();
        let b = enc(&[], &RData { typ: T_SYMLINK, data: field, filesize, meta: meta.clone(), layout, ..Default::default() });
        let (cid, block) = self.seal(b);
        Rc::new(TNode { cid, tsize: block.len() as u64, block, meta, kind: TKind::Symlink(target), nocc: 1 })
    }
    pub fn file(&mut self, run: &mut Run) -> Rc<TNode> {
        let f = gen_file(run, self.file_max, false);
        f.store(self.blocks);
        let nocc = f.occs().len();
        Rc::new(TNode { cid: f.root().cid, block: f.root().block.clone(), tsize: f.root().tsize, meta: f.meta.clone(), nocc, kind: TKind::File(Rc::new(f)) })
    }
    pub fn node(&mut self, run: &mut Run, depth: usize) -> Rc<TNode> {
        let s = run.t.begin();
        self.budget = self.budget.saturating_sub(1);
        let k = if depth == 0 || self.budget == 0 { run.below(4) } else { run.below(9) };
        let n = match k {
            0 | 1 => self.file(run),
            2 => self.symlink(run),
            3 if !self.made.is_empty() => {
                run.count("probe_shared_subtree");
                let i = run.idx(self.made.len());
                self.made[i].clone()
            }
            3 => self.file(run),
            _ => self.dir(run, depth),
        };
        self.made.push(n.clone());
        run.t.end(s);
        n
    }
    pub fn dir(&mut self, run: &mut Run, depth: usize) -> Rc<TNode> {
        let n = if self.budget == 0 || run.chance(1, 8) { 0 } else { run.skewed(10) };
        let mut used = BTreeSet::new();
        let mut entries: Vec<(String, Rc<TNode>)> = vec![];
        let mut nocc = 1;
        for _ in 0..n {
            let s = run.t.begin();
            if self.budget == 0 {
                run.t.end(s);
                break;
            }
            let to = self.node(run, depth.saturating_sub(1));
            if nocc + to.nocc > OCC_MAX {
                run.t.end(s);
                break;
            }
            nocc += to.nocc;
            let name = if self.dups && !used.is_empty() && run.chance(1, 8) {
                let v: Vec<String> = used.iter().cloned().collect();
                run.count("probe_duplicate_name");
                run.pick(&v)
            } else {
                gen_name(run, &used)
            };
            used.insert(name.clone());
            entries.push((name, to));
            run.t.end(s);
        }
        let hamt = run.chance(self.p_hamt, 8);
        if run.flip() {
            entries.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
        }
        if hamt {
            self.hamt(run, entries)
        } else {
            self.plain(run, entries)
        }
    }
    /// more entries than fit below any small limit
    pub fn wide(&mut self, run: &mut Run) -> Rc<TNode> {
        run.count("probe_wide_dir");
        self.file_max = 2;
        let mut pool = vec![self.symlink(run), self.file(run), self.plain(run, vec![])];
        for _ in 0..run.urange(0, 5) {
            pool.push(if run.flip() { self.symlink(run) } else { self.file(run) });
        }
        let mut n = run.urange(40, 280);
        if run.chance(1, 12) {
            run.count("probe_directory_of_thousands_of_links");
            n = run.urange(1000, 4500);
        }
        let mut used = BTreeSet::new();
        let mut entries = vec![];
        for i in 0..n {
            let name = if run.chance(1, 4) { gen_name(run, &used) } else { format!("e{}", i) };
            if used.insert(name.clone()) {
                entries.push((name, run.pick(&pool)));
            }
        }
        if run.chance(self.p_hamt, 8) {
            self.hamt(run, entries)
        } else {
            self.plain(run, entries)
        }
    }
    /// a long chain of directories
    pub fn deep(&mut self, run: &mut Run) -> Rc<TNode> {
        run.count("probe_deep_tree");
        self.file_max = 2;
        let side = self.symlink(run);
        let mut x = self.file(run);
        let same = run.flip();
        let mut n = run.urange(12, 70);
        if run.chance(1, 8) {
            run.count("probe_hundreds_of_levels");
            n = run.urange(70, 600);
        }
        let each = if run.chance(1, 4) { run.pick(&[20usize, 100, 255]) } else { 1 };
        if n * each > 4096 {
            run.count("probe_path_of_thousands_of_bytes");
        }
        for _ in 0..n {
            let name = if same { "d".repeat(each) } else { gen_name(run, &BTreeSet::new()) };
            let mut entries = vec![];
            match run.below(6) {
                0 => entries.push((format!("{}0", name), side.clone())),
                1 => entries.insert(0, ("0".to_string(), side.clone())),
                _ => {}
            }
            if !entries.iter().any(|e| e.0 == name) {
                entries.push((name, x));
                if run.chance(1, 6) {
                    entries.reverse();
                }
                x = if run.chance(self.p_hamt, 16) { self.hamt(run, entries) } else { self.plain(run, entries) };
            }
        }
        x
    }
    pub fn plain(&mut self, run: &mut Run, entries: Vec<(String, Rc<TNode>)>) -> Rc<TNode> {
        if entries.is_empty() {
            run.count("probe_empty_dir");
        }
        let meta = gen_meta(run, self.p_meta, 8);
        let with_tsize = !run.chance(1, 8);
        let links: Vec<RLink> = entries
            .iter()
            .map(|(n, t)| RLink { hash: self.hash(n, t), name: Some(n.as_bytes().to_vec()), tsize: if with_tsize { Some(t.tsize) } else { None } })
            .collect();
        let data = if run.chance(1, 8) { Some(vec![]) } else { None };
        let mut d = RData { typ: T_DIR, data, meta: meta.clone(), layout: self.next_layout(), ..Default::default() };
        if self.spoil {
            self.spoil_data(run, &mut d);
        }
        let b = enc(&links, &d);
        let (cid, block) = self.seal(b);
        let tsize = block.len() as u64 + entries.iter().map(|e| e.1.tsize).sum::<u64>();
        let nocc = 1 + entries.iter().map(|e| e.1.nocc).sum::<usize>();
        Rc::new(TNode { cid, block, tsize, meta, kind: TKind::Dir(entries), nocc })
    }
    fn hash(&self, name: &str, to: &TNode) -> Option<Vec<u8>> {
        if self.dead.as_deref() != Some(name) {
            return Some(to.cid.to_bytes());
        }
        match name.len() % 4 {
            0 => None,
            1 => Some(vec![]),
            2 => Some({ let c = to.cid.to_bytes(); c[..c.len() * 3 / 5].to_vec() }),
            _ => Some(vec![0xff; 40]),
        }
    }
    /// Makes a directory or bucket one which is not supported.
    fn spoil_data(&mut self, run: &mut Run, d: &mut RData) {
        run.count("probe_unsupported_directory");
        match (run.below(8), d.typ) {
            (0, _) => d.filesize = Some(run.pick(&[0u64, 1, 99])),
            (1, _) => d.blocksizes = vec![run.pick(&[0u64, 7])],
            (2, T_HAMT) => d.hash_type = run.pick(&[None, Some(0u64), Some(0x12), Some(35)]),
            (2, _) => d.hash_type = Some(0x22),
            (3, T_HAMT) => d.fanout = run.pick(&[None, Some(0u64), Some(16), Some(255), Some(257), Some(512)]),
            (3, _) => d.fanout = Some(256),
            (4, T_DIR) => d.data = Some(vec![run.pick(&[0u8, 1])]),
            (4, _) => d.typ = T_DIR,
            (5, _) => d.typ = run.pick(&[T_FILE, T_RAW]),
            (6, _) => d.typ = T_META,
            _ => d.typ = T_SYMLINK,
        }
    }
    fn bucket(&mut self, run: &mut Run, mut entries: Vec<(String, Rc<TNode>)>, depth: usize, meta: RMeta, nbuckets: &mut usize) -> Rc<Bucket> {
        *nbuckets += 1;
        let mut subs = vec![];
        if depth > 0 {
            let mut n = run.pick(&[0usize, 0, 1, 1, 2, 3]);
            // a search may have to hold very many pending buckets
            let mut below = depth;
            let mut even = None;
            if entries.len() > 240 {
                // more than fit in one
                n = run.urange(entries.len() / 150 + 1, 250);
                even = Some(entries.len() / n + 1);
                below = 1;
            } else if *nbuckets == 1 && entries.len() < 40 && run.chance(1, 25) {
                n = run.urange(30, 180);
                below = 1;
                if run.chance(1, 8) {
                    n = run.urange(120, 200);
                    below = 2;
                }
                if run.chance(1, 6) {
                    // all there can be
                    run.count("probe_full_bucket_of_buckets");
                    n = 256;
                    even = Some(entries.len() / n + 1);
                }
                run.count("probe_very_many_sub_buckets");
            }
            let depth = below;
            for _ in 0..n {
                // an empty sub-bucket is legal, too
                let take = if entries.is_empty() { 0 } else { even.map_or_else(|| run.urange(0, entries.len()), |e| e.min(entries.len())) };
                let rest = entries.split_off(entries.len() - take);
                subs.push(self.bucket(run, rest, depth - 1, RMeta::default(), nbuckets));
            }
        }
        if !entries.is_empty() && self.twin.is_some() && run.flip() {
            let t = self.twin.take().expect("checked");
            let e = entries[run.idx(entries.len())].clone();
            run.count("probe_duplicate_name_in_bucket");
            for _ in 0..run.urange(1, 2) {
                entries.push((e.0.clone(), if run.flip() { e.1.clone() } else { t.clone() }));
            }
        }
        let mut free: Vec<u8> = (0..=255).collect();
        let mut items: Vec<Item> = vec![];
        for s in subs {
            let p = free.remove(run.idx(free.len().min(8)));
            items.push(Item::Sub { prefix: format!("{:02X}", p), to: s });
        }
        for (name, to) in entries {
            let p = free.remove(run.idx(free.len().min(40)));
            items.push(Item::Entry { prefix: format!("{:02X}", p), name, to });
        }
        if run.flip() {
            items.sort_by_key(|i| match i {
                Item::Entry { prefix, .. } | Item::Sub { prefix, .. } => prefix.clone(),
            });
        } else if items.len() > 1 {
            // any order is legal for a reader
            let r = run.idx(items.len());
            items.rotate_left(r);
        }
        let sized = |tsize: u64| if items.len() % 8 == 3 { None } else { Some(tsize) };
        let links: Vec<RLink> = items
            .iter()
            .map(|i| match i {
                Item::Entry { prefix, name, to } => RLink { hash: self.hash(name, to), name: Some(format!("{}{}", prefix, name).into_bytes()), tsize: sized(to.tsize) },
                Item::Sub { prefix, to } => RLink { hash: Some(to.cid.to_bytes()), name: Some(prefix.clone().into_bytes()), tsize: sized(to.tsize) },
            })
            .collect();
        let bits = content_bytes(links.len() as u64 + 77, run.urange(0, 32));
        let data = if bits.is_empty() && run.flip() { None } else { Some(bits) };
        let mut d = RData { typ: T_HAMT, data, hash_type: Some(0x22), fanout: Some(256), meta, layout: self.next_layout(), ..Default::default() };
        let bad = self.spoil && run.flip();
        if bad {
            self.spoil = false;
            self.spoil_data(run, &mut d);
        }
        let b = enc(&links, &d);
        let (cid, block) = self.seal(b);
        let tsize = block.len() as u64
            + items
                .iter()
                .map(|i| match i {
                    Item::Entry { to, .. } => to.tsize,
                    Item::Sub { to, .. } => to.tsize,
                })
                .sum::<u64>();
        Rc::new(Bucket { cid, block, items, tsize, bad })
    }
    /// everything in a single bucket
    pub fn bucket_flat(&mut self, run: &mut Run, entries: Vec<(String, Rc<TNode>)>, nb: &mut usize) -> Rc<TNode> {
        let below: usize = entries.iter().map(|e| e.1.nocc).sum();
        let b = self.bucket(run, entries, 0, RMeta::default(), nb);
        Rc::new(TNode { cid: b.cid, block: b.block.clone(), tsize: b.tsize, meta: RMeta::default(), nocc: below + 1, kind: TKind::Hamt(b) })
    }
    pub fn hamt(&mut self, run: &mut Run, entries: Vec<(String, Rc<TNode>)>) -> Rc<TNode> {
        let meta = gen_meta(run, self.p_meta, 8);
        let depth = run.urange(if entries.len() > 240 { 1 } else { 0 }, 3);
        let mut nb = 0;
        let below: usize = entries.iter().map(|e| e.1.nocc).sum();
        let b = self.bucket(run, entries, depth, meta.clone(), &mut nb);
        if nb > 1 {
            run.count("probe_nested_buckets");
        }
        run.count("probe_hamt_dir");
        Rc::new(TNode { cid: b.cid, block: b.block.clone(), tsize: b.tsize, meta, nocc: below + nb, kind: TKind::Hamt(b) })
    }
}

/// A tree whose root is most often a directory.
pub fn gen_tree(run: &mut Run, blocks: &mut Blocks, budget: usize, dups: bool) -> Rc<TNode> {
    let s = run.t.begin();
    let mut g = TreeGen::new(run, blocks, budget);
    g.dups = dups;
    let r = match run.below(12) {
        0 => g.file(run),
        1 => g.symlink(run),
        11 if budget >= 8 && run.chance(1, 8) => {
            if run.flip() {
                g.wide(run)
            } else {
                g.deep(run)
            }
        }
        _ => {
            let depth = run.urange(1, 5);
            g.dir(run, depth)
        }
    };
    run.t.end(s);
    r
}

// ---------------------------------------------------------------------------------- walks

#[derive(Clone, Debug)]
pub enum Expect {
    Dir { path: String, sharded: bool },
    Bucket { path: String },
    File { path: String, first: bool, last: bool, bytes: Bytes, total: u64, root: Cid },
    Symlink { path: String, target: Vec<u8> },
}

pub struct WOcc {
    pub cid: Cid,
    pub parent: Option<usize>,
    pub exp: Expect,
    pub meta: RMeta,
}

pub fn join(p: &str, n: &str) -> String {
    // like std's PathBuf::push of a relative component
    if p.is_empty() {
        n.to_string()
    } else if p.ends_with('/') {
        format!("{}{}", p, n)
    } else {
        format!("{}/{}", p, n)
    }
}

pub fn walk_occs(n: &TNode, root_name: &str) -> Vec<WOcc> {
    let mut out = vec![];
    walk_in(n, root_name, None, &mut out);
    out
}
fn walk_in(n: &TNode, path: &str, parent: Option<usize>, out: &mut Vec<WOcc>) {
    let me = out.len();
    match &n.kind {
        TKind::File(f) => {
            let occs = f.occs();
            let total = f.size();
            let cnt = occs.len();
            for (i, o) in occs.iter().enumerate() {
                out.push(WOcc {
                    cid: f.b[o.blk].cid,
                    parent: match o.parent {
                        None => parent,
                        Some(p) => Some(me + p),
                    },
                    exp: Expect::File { path: path.to_string(), first: i == 0, last: i + 1 == cnt, bytes: f.b[o.blk].data.clone(), total, root: n.cid },
                    meta: n.meta.clone(),
                });
            }
        }
        TKind::Symlink(t) => out.push(WOcc { cid: n.cid, parent, exp: Expect::Symlink { path: path.to_string(), target: t.clone() }, meta: n.meta.clone() }),
        TKind::Dir(v) => {
            out.push(WOcc { cid: n.cid, parent, exp: Expect::Dir { path: path.to_string(), sharded: false }, meta: n.meta.clone() });
            for (name, to) in v {
                walk_in(to, &join(path, name), Some(me), out);
            }
        }
        TKind::Hamt(b) => bucket_in(b, true, path, parent, &n.meta, out),
    }
}
fn bucket_in(b: &Bucket, root: bool, path: &str, parent: Option<usize>, meta: &RMeta, out: &mut Vec<WOcc>) {
    let me = out.len();
    let exp = if root { Expect::Dir { path: path.to_string(), sharded: true } } else { Expect::Bucket { path: path.to_string() } };
    out.push(WOcc { cid: b.cid, parent, exp, meta: meta.clone() });
    for i in &b.items {
        match i {
            Item::Entry { name, to, .. } => walk_in(to, &join(path, name), Some(me), out),
            Item::Sub { to, .. } => bucket_in(to, false, path, Some(me), meta, out),
        }
    }
}

/// What is known to be still to come when occurrence `i` is needed next.
pub fn pending_at<T>(occs: &[T], i: usize, parent: impl Fn(&T) -> Option<usize>) -> Vec<usize> {
    (i..occs.len()).filter(|j| parent(&occs[*j]).map_or(*j == i, |p| p < i)).collect()
}
