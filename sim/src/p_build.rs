//! World "build": directory trees built on a node which interleaves builders, rejects operations,
//! crashes and restarts. U17-U21.
use crate::core::*;
use crate::gen::*;
use crate::net::*;
use crate::p_import::{decode, Disk};
use crate::p_read::*;
use crate::refpb::*;
use crate::runner::Prop;
use crate::{ensure, ev};
use libipld::Cid;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator, TreeBuildingFailed, TreeConstructionFailed, TreeOptions};
use unixfs_v1::{FlatUnixFs, Metadata};

// ---------------------------------------------------------------------------------- operations

#[derive(Clone, Debug)]
pub enum Op {
    Put { path: String, cid: Cid, size: u64 },
    Meta { path: String, meta: RMeta },
}
impl Op {
    pub fn path(&self) -> &str {
        match self {
            Op::Put { path, .. } | Op::Meta { path, .. } => path,
        }
    }
    pub fn desc(&self) -> String {
        let p = self.path();
        let p: String = if p.len() > 60 { format!("{}..({} bytes)", p.chars().take(40).collect::<String>(), p.len()) } else { p.to_string() };
        match self {
            Op::Put { cid, size, .. } => format!("put {:?} -> {} ({})", p, short(cid), size),
            Op::Meta { meta, .. } => format!("meta {:?} {:?}", p, meta),
        }
    }
}

/// The crate's `Metadata` can only be had from a UnixFS block.
pub fn to_metadata(m: &RMeta) -> Metadata {
    let b = enc(&[], &RData { typ: T_DIR, meta: m.clone(), ..Default::default() });
    lib(|| {
        let f = FlatUnixFs::try_parse(&b).expect("well-formed block");
        Metadata::from(&f.data)
    })
}

pub fn apply(b: &mut BufferingTreeBuilder, op: &Op) -> Result<(), TreeBuildingFailed> {
    match op {
        Op::Put { path, cid, size } => lib(|| b.put_link(path, *cid, *size)),
        Op::Meta { path, meta } => {
            let m = to_metadata(meta);
            lib(|| b.set_metadata(path, m))
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    Rooted,
    Repeat,
    Ends,
    TooMany,
    Duplicate,
    LeafAsDir,
}

fn why_of(e: &TreeBuildingFailed) -> (Why, Option<String>) {
    match e {
        TreeBuildingFailed::RootedPath(p) => (Why::Rooted, Some(p.clone())),
        TreeBuildingFailed::RepeatSlashesInPath(p) => (Why::Repeat, Some(p.clone())),
        TreeBuildingFailed::PathEndsInSlash(p) => (Why::Ends, Some(p.clone())),
        TreeBuildingFailed::TooManyRootLevelEntries => (Why::TooMany, None),
        TreeBuildingFailed::DuplicatePath(p) => (Why::Duplicate, Some(p.clone())),
        TreeBuildingFailed::LeafAsDirectory(p) => (Why::LeafAsDir, Some(p.clone())),
    }
}

// ---------------------------------------------------------------------------------- the model

#[derive(Clone)]
pub enum MEnt {
    Leaf(Cid, u64),
    Dir(MDir),
}
#[derive(Clone, Default)]
pub struct MDir {
    pub ents: BTreeMap<Vec<u8>, MEnt>,
    pub meta: RMeta,
}
#[derive(Clone, Default)]
pub struct Model {
    pub wrap: bool,
    pub root: MDir,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub path: String,
    pub cid: Cid,
    pub block: Vec<u8>,
    pub total: u64,
}
impl Node {
    fn diff(&self, o: &Node) -> String {
        if self.path != o.path {
            format!("path {:?} instead of {:?}", self.path, o.path)
        } else if self.block != o.block {
            format!("{:?}: block of {} bytes differs from the expected one of {} bytes", self.path, self.block.len(), o.block.len())
        } else if self.cid != o.cid {
            format!("{:?}: Cid {} instead of {}", self.path, self.cid, o.cid)
        } else {
            format!("{:?}: total size {} instead of {}", self.path, self.total, o.total)
        }
    }
}

impl Model {
    pub fn new(wrap: bool) -> Self {
        Model { wrap, root: MDir::default() }
    }
    /// Reasons to reject; empty when the operation is valid.
    pub fn judge(&self, op: &Op) -> Vec<Why> {
        let path = op.path();
        let mut r = vec![];
        if path.ends_with('/') {
            r.push(Why::Ends);
        }
        if path.contains("//") {
            r.push(Why::Repeat);
        }
        if path.starts_with('/') {
            r.push(Why::Rooted);
        }
        if !r.is_empty() {
            return r;
        }
        let parts: Vec<&str> = path.split('/').collect();
        if !self.wrap && !self.root.ents.is_empty() && !self.root.ents.contains_key(parts[0].as_bytes()) {
            return vec![Why::TooMany];
        }
        let mut d = &self.root;
        for (i, p) in parts.iter().enumerate() {
            let last = i + 1 == parts.len();
            match (d.ents.get(p.as_bytes()), last, op) {
                (None, ..) => return vec![],
                (Some(_), true, Op::Put { .. }) => return vec![Why::Duplicate],
                (Some(MEnt::Leaf(..)), true, Op::Meta { .. }) => return vec![Why::LeafAsDir],
                (Some(MEnt::Leaf(..)), false, _) => return vec![Why::LeafAsDir],
                (Some(MEnt::Dir(_)), true, Op::Meta { .. }) => return vec![],
                (Some(MEnt::Dir(n)), false, _) => d = n,
            }
        }
        vec![]
    }
    /// of an operation which was judged valid
    pub fn apply(&mut self, op: &Op) {
        let parts: Vec<&str> = op.path().split('/').collect();
        let mut d = &mut self.root;
        for p in &parts[..parts.len() - 1] {
            d = match d.ents.entry(p.as_bytes().to_vec()).or_insert_with(|| MEnt::Dir(MDir::default())) {
                MEnt::Dir(n) => n,
                MEnt::Leaf(..) => panic!("model: invalid operation applied"),
            };
        }
        let name = parts[parts.len() - 1].as_bytes().to_vec();
        match op {
            Op::Put { cid, size, .. } => {
                d.ents.insert(name, MEnt::Leaf(*cid, *size));
            }
            Op::Meta { meta, .. } => match d.ents.entry(name).or_insert_with(|| MEnt::Dir(MDir::default())) {
                MEnt::Dir(n) => n.meta = meta.clone(),
                MEnt::Leaf(..) => panic!("model: invalid operation applied"),
            },
        }
    }
    /// Canonical nodes by path.
    pub fn nodes(&self) -> BTreeMap<String, Node> {
        let mut out = BTreeMap::new();
        if self.wrap {
            canon(&self.root, "", &mut out);
        } else {
            for (n, e) in &self.root.ents {
                if let MEnt::Dir(d) = e {
                    canon(d, std::str::from_utf8(n).expect("utf8"), &mut out);
                }
            }
        }
        out
    }
    pub fn top(&self) -> Option<String> {
        if self.wrap {
            return Some(String::new());
        }
        self.root.ents.iter().next().and_then(|(n, e)| match e {
            MEnt::Dir(_) => Some(String::from_utf8(n.clone()).expect("utf8")),
            _ => None,
        })
    }
    pub fn leaf(&self, path: &str) -> Option<(String, Cid, u64)> {
        let mut d = &self.root;
        let mut parts = path.split('/').peekable();
        while let Some(p) = parts.next() {
            match (d.ents.get(p.as_bytes())?, parts.peek()) {
                (MEnt::Dir(n), Some(_)) => d = n,
                (MEnt::Leaf(c, t), None) => return Some((path.to_string(), *c, *t)),
                _ => return None,
            }
        }
        None
    }
    /// (full path, is leaf)
    pub fn paths(&self) -> Vec<(String, bool)> {
        fn go(d: &MDir, at: &str, out: &mut Vec<(String, bool)>) {
            for (n, e) in &d.ents {
                let n = std::str::from_utf8(n).expect("utf8");
                let p = if at.is_empty() { n.to_string() } else { format!("{}/{}", at, n) };
                out.push((p.clone(), matches!(e, MEnt::Leaf(..))));
                if let MEnt::Dir(d) = e {
                    go(d, &p, out)
                }
            }
        }
        let mut out = vec![];
        go(&self.root, "", &mut out);
        out
    }
}

pub fn canon_meta(m: &RMeta) -> RMeta {
    RMeta { mode: m.mode, mtime: m.mtime.map(|(s, n)| (s, n.filter(|n| *n != 0))) }
}

fn canon(d: &MDir, path: &str, out: &mut BTreeMap<String, Node>) -> (Cid, u64) {
    let mut links = vec![];
    let mut total = 0u64;
    for (n, e) in &d.ents {
        let (c, t) = match e {
            MEnt::Leaf(c, t) => (*c, *t),
            MEnt::Dir(s) => {
                let name = std::str::from_utf8(n).expect("utf8");
                let p = if path.is_empty() { name.to_string() } else { format!("{}/{}", path, name) };
                canon(s, &p, out)
            }
        };
        total += t;
        links.push(RLink { hash: Some(c.to_bytes()), name: Some(n.clone()), tsize: Some(t) });
    }
    let block = enc(&links, &RData { typ: T_DIR, meta: canon_meta(&d.meta), ..Default::default() });
    let cid = cid_v1(&block);
    total += block.len() as u64;
    out.insert(path.to_string(), Node { path: path.to_string(), cid, block, total });
    (cid, total)
}

// ---------------------------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct Prof {
    pub dots: bool,
    pub bad: u64,
    pub p_meta: u64,
    pub long_names: bool,
    pub opaque: bool,
}

fn gen_leaf_cid(run: &mut Run, opaque: bool) -> Cid {
    let n = run.below(1 << 16);
    let b = n.to_le_bytes();
    if !opaque {
        return cid_codec(0x55, &b);
    }
    match run.below(11) {
        0 | 1 => cid_v0(&b),
        2 => cid_codec(0x55, &b),
        3 => cid_codec(0x71, &b),
        // codecs of 2, 3 and more varint bytes
        4 => cid_codec(run.pick(&[0x0129u64, 0x7f, 0x80, 0x3fff, 0x4000, 0xb401, 0x1f_ffff, 0x20_0000]), &b),
        5 => cid_sha512(&b),
        6 => {
            let l = run.urange(0, 40);
            cid_identity(&content_bytes(n, l))
        }
        // codes of hashes of 2, 3 and more varint bytes
        7 => cid_code(run.pick(&[0x70u64, 0x55, 0x0129]), run.pick(&[0x7fu64, 0x80, 0xb220, 0x3fff, 0x4000, 0x1f_ffff, 0x20_0000, u32::MAX as u64]), &b),
        _ => cid_v1(&b),
    }
}

fn gen_size(run: &mut Run) -> u64 {
    match run.below(6) {
        0 => run.below(300),
        1 => run.pick(&[0u64, 1, 127, 128, 16383, 16384, (1 << 21) - 1, 1 << 21, (1 << 28) - 1, 1 << 28]),
        2 => run.pick(&[u32::MAX as u64, 1 << 32, (1 << 35) - 1, 1 << 35, (1 << 42) - 1, 1 << 42, (1 << 49) - 1, 1 << 49]),
        3 => run.below(1 << 33),
        _ => run.below(1 << 20),
    }
}

fn gen_bname(run: &mut Run, used: &BTreeSet<String>, pr: &Prof) -> String {
    if pr.dots && run.chance(1, 24) {
        let n = run.pick(&[".", ".."]);
        if !used.contains(n) {
            return n.to_string();
        }
    }
    if pr.long_names && run.chance(1, 8) {
        // lengths around the varint boundaries of the name and of the whole link
        let l = match run.below(5) {
            0 => run.urange(60, 100),
            1 => run.urange(120, 132),
            2 => run.urange(16300, 16400),
            3 => run.urange(200, 260),
            _ => run.urange(1, 30),
        };
        let c = run.pick(&["n", "m", "é", "日"]);
        let mut s: String = c.repeat(l / c.len() + 1);
        while s.len() > l {
            s.pop();
        }
        if s.is_empty() {
            s.push('q');
        }
        if !used.contains(&s) {
            return s;
        }
    }
    gen_name(run, used)
}

/// One more operation, valid or not, given what the tree already has.
pub fn gen_op(run: &mut Run, m: &Model, paths: &[(String, bool)], pr: &Prof) -> Op {
    let s = run.t.begin();
    let dirs: Vec<&String> = paths.iter().filter(|p| !p.1).map(|p| &p.0).collect();
    let leaves: Vec<&String> = paths.iter().filter(|p| p.1).map(|p| &p.0).collect();
    let bad = pr.bad > 0 && run.chance(pr.bad, 16);
    let fresh = |run: &mut Run, base: &str| {
        let k = match run.below(6) {
            0 if run.chance(1, 40) => {
                if run.chance(1, 30) {
                    run.count("probe_very_deep_path");
                    run.urange(200, 320)
                } else {
                    run.urange(8, 70)
                }
            }
            0 => run.urange(1, 4),
            1 => 2,
            // a lone leaf at the root is valid, but there is not much to it
            _ if base.is_empty() && !m.wrap && run.chance(7, 8) => 2,
            _ => 1,
        };
        let mut p = base.to_string();
        for i in 0..k {
            // names of the siblings, so that neighbouring names are made
            let used: BTreeSet<String> = if i == 0 {
                paths.iter().filter_map(|(q, _)| q.rsplit_once('/').map_or(if base.is_empty() { Some(q.as_str()) } else { None }, |(d, n)| if d == base { Some(n) } else { None })).map(|x| x.to_string()).collect()
            } else {
                BTreeSet::new()
            };
            let n = gen_bname(run, &used, pr);
            if p.is_empty() {
                p = n;
            } else {
                p = format!("{}/{}", p, n);
            }
        }
        p
    };
    let base = |run: &mut Run| -> String {
        if dirs.is_empty() || (m.wrap && run.chance(1, 4)) {
            String::new()
        } else {
            match run.below(3) {
                // keep growing the latest one: deep chains and wide directories
                0 => dirs[dirs.len() - 1].clone(),
                1 => dirs[0].clone(),
                _ => dirs[run.idx(dirs.len())].clone(),
            }
        }
    };
    let path = if !bad {
        if !dirs.is_empty() && run.chance(1, 8) {
            // metadata of an existing directory
            let p = dirs[run.idx(dirs.len())].clone();
            let meta = gen_meta(run, 7, 8);
            run.t.end(s);
            return Op::Meta { path: p, meta };
        }
        let b = base(run);
        fresh(run, &b)
    } else {
        let ok = {
            let b = base(run);
            fresh(run, &b)
        };
        match run.below(10) {
            0 if !paths.is_empty() => paths[run.idx(paths.len())].0.clone(),
            1 if !leaves.is_empty() => {
                let l = leaves[run.idx(leaves.len())].clone();
                fresh(run, &l)
            }
            2 => format!("/{}", ok),
            3 => format!("{}/", ok),
            4 => {
                // a doubled slash somewhere
                let at: Vec<usize> = ok.match_indices('/').map(|x| x.0).collect();
                if at.is_empty() {
                    format!("{}//x", ok)
                } else {
                    let i = at[run.idx(at.len())];
                    format!("{}/{}", &ok[..i], &ok[i..])
                }
            }
            5 => run.pick(&["/", "//", "///", "a//", "//a", "/a/", "/a//b/"]).to_string(),
            6 => fresh(run, ""),
            7 if !leaves.is_empty() => leaves[run.idx(leaves.len())].clone(),
            8 if !paths.is_empty() => format!("{}/", paths[run.idx(paths.len())].0),
            9 if !m.wrap && run.chance(1, 4) => String::new(),
            _ => {
                if paths.is_empty() {
                    ok
                } else {
                    format!("/{}", paths[run.idx(paths.len())].0)
                }
            }
        }
    };
    // exactly what is there already, or something very like it
    if bad && run.chance(1, 10) {
        if let Some((p, cid, size)) = leaves.get(run.idx(leaves.len().max(1))).and_then(|l| m.leaf(l)) {
            run.count("probe_same_entry_again");
            let size = if run.chance(3, 4) { size } else { gen_size(run) };
            let cid = if run.chance(3, 4) { cid } else { gen_leaf_cid(run, pr.opaque) };
            run.t.end(s);
            return Op::Put { path: p, cid, size };
        }
    }
    let op = if run.chance(pr.p_meta, 16) {
        let meta = gen_meta(run, 7, 8);
        Op::Meta { path, meta }
    } else {
        let cid = gen_leaf_cid(run, pr.opaque);
        let size = gen_size(run);
        Op::Put { path, cid, size }
    };
    run.t.end(s);
    op
}

pub fn gen_prof(run: &mut Run, bad: u64) -> Prof {
    Prof { dots: run.flip(), bad, p_meta: run.pick(&[0u64, 2, 8]), long_names: run.chance(1, 3), opaque: run.chance(3, 4) }
}

/// The beginning of a tree of a size at which nobody tries things by hand: thousands of entries in
/// a directory, thousands of directories, or hundreds of levels.
pub fn gen_bulk(run: &mut Run, wrap: bool) -> Vec<Op> {
    let s = run.t.begin();
    let mut ops = vec![];
    let at = if wrap && run.flip() { "" } else { "r/" };
    let leaf = |path: String, i: usize| Op::Put { path, cid: cid_codec(0x55, &i.to_le_bytes()), size: (i as u64) << (i % 23) };
    let pad = "p".repeat(run.pick(&[0usize, 0, 1, 20, 90]));
    let step = run.pick(&[1usize, 1, 7919, 104_729]);
    // beyond what 16 bits can count
    let vast = run.vast && run.chance(1, 25);
    if vast {
        run.count("probe_more_than_65536");
    }
    match run.below(3) {
        0 => {
            run.count("probe_directory_of_thousands_of_entries");
            let n = if vast { 65_600 } else { run.pick(&[230usize, 600, 1_200, 2_500, 5_000]) };
            let n = n + run.idx(n / 4);
            let dirs = run.urange(1, 3);
            for i in 0..n {
                let k = i * step % 1_000_003;
                let d = ["", "d/", "d/e/"][if k % 8 == 0 { i % dirs } else { 0 }];
                ops.push(leaf(format!("{}{}{}{}", at, d, pad, k), i));
            }
        }
        1 => {
            run.count("probe_thousands_of_directories");
            let n = if vast { 65_600 } else { run.pick(&[150usize, 400, 1_000, 2_000]) };
            let n = n + run.idx(n / 4);
            let per = run.pick(&[1usize, 3, 40, 10_000]);
            for i in 0..n {
                let k = i * step % 1_000_003;
                let path = format!("{}x{}{}/y{}", at, pad, i / per, k);
                if k % 5 == 0 {
                    ops.push(Op::Meta { path, meta: RMeta { mode: Some(k as u32), mtime: None } });
                } else {
                    ops.push(leaf(format!("{}/f", path), i));
                }
            }
        }
        _ => {
            run.count("probe_hundreds_of_nested_directories");
            let n = run.pick(&[100usize, 260, 520, 1_100]);
            let n = n + run.idx(n / 4);
            let mut p = at.to_string();
            for i in 0..n {
                if !p.is_empty() && !p.ends_with('/') {
                    p.push('/');
                }
                p.push_str(&format!("{}", i * step % 11));
                if i % 97 == 96 {
                    ops.push(leaf(format!("{}/0s", p), i));
                }
            }
            ops.push(leaf(format!("{}/end", p), n));
        }
    }
    run.t.end(s);
    ops
}

/// Some of the paths, so that operations can refer to them.
fn some_paths(run: &mut Run, m: &Model) -> Vec<(String, bool)> {
    let all = m.paths();
    (0..40).map(|_| all[run.idx(all.len())].clone()).collect()
}

/// A whole history of accepted and rejected operations together with the resulting model.
pub fn gen_history(run: &mut Run, wrap: bool, n: usize, pr: &Prof) -> (Vec<Op>, Model) {
    let mut m = Model::new(wrap);
    let mut ops = vec![];
    let mut paths: Vec<(String, bool)> = vec![];
    let mut n = n;
    if run.chance(1, BULK) {
        ops = gen_bulk(run, wrap);
        for op in &ops {
            if m.judge(op).is_empty() {
                m.apply(op);
            }
        }
        paths = some_paths(run, &m);
        n = n.min(12);
    }
    for _ in 0..n {
        let op = gen_op(run, &m, &paths, pr);
        if m.judge(&op).is_empty() {
            m.apply(&op);
            note(&mut paths, &op);
        }
        ops.push(op);
    }
    (ops, m)
}

/// keeps the list of existing paths of an accepted operation up to date
pub fn note(paths: &mut Vec<(String, bool)>, op: &Op) {
    let p = op.path();
    let known: BTreeSet<String> = paths.iter().map(|x| x.0.clone()).collect();
    for (i, _) in p.match_indices('/') {
        if !known.contains(&p[..i]) {
            paths.push((p[..i].to_string(), false));
        }
    }
    if !known.contains(p) {
        paths.push((p.to_string(), matches!(op, Op::Put { .. })));
    }
}

/// one history in so many begins with a tree of thousands of entries
const BULK: u64 = 400;

fn n_ops(run: &mut Run) -> usize {
    if run.chance(1, 100) {
        run.count("probe_long_history");
        return run.urange(150, 400);
    }
    let max = if run.thorough { 160 } else { 60 };
    run.skewed(max)
}

pub fn opts_of(wrap: bool, limit: Option<Option<u64>>) -> TreeOptions {
    // either order of the two setters
    let mut o = TreeOptions::default();
    let wrap_first = limit.flatten().map_or(true, |l| l % 2 == 0);
    if wrap && wrap_first {
        o.wrap_with_directory();
    }
    if let Some(l) = limit {
        o.block_size_limit(l);
    }
    if wrap && !wrap_first {
        o.wrap_with_directory();
    }
    o
}

/// One step of the iteration, owned or borrowed.
pub fn step(it: &mut PostOrderIterator, borrowed: bool) -> Option<Result<Node, TreeConstructionFailed>> {
    let r = if borrowed {
        lib(|| {
            it.next_borrowed().map(|r| {
                r.map(|n| Node { path: n.path.to_string(), cid: *n.cid, block: n.block.to_vec(), total: n.total_size })
            })
        })
    } else {
        lib(|| it.next()).map(|r| r.map(|n| Node { path: n.path.clone(), cid: n.cid, block: n.block.to_vec(), total: n.total_size }))
    };
    r
}

/// Complete iteration of a tree without a limit in the way.
fn all_nodes(it: &mut PostOrderIterator, max: usize) -> Res<Vec<Node>> {
    let mut out = vec![];
    while let Some(r) = step(it, false) {
        match r {
            Ok(n) => out.push(n),
            Err(e) => return viol("build-error", format!("building failed with {:?}", e)),
        }
        ensure!(out.len() <= max + 1, "build-endless", "{} nodes emitted for a tree of {} directories", out.len(), max);
    }
    Ok(out)
}

/// The emitted nodes are exactly the canonical ones (in any order).
fn check_canonical(got: &[Node], want: &BTreeMap<String, Node>, ctx: &str) -> Res {
    let mut seen = BTreeSet::new();
    for n in got {
        ensure!(seen.insert(n.path.clone()), "node-repeated", "directory {:?} was emitted twice {}", n.path, ctx);
        match want.get(&n.path) {
            None => return viol("node-unknown", format!("directory {:?} was emitted but does not exist {}", n.path, ctx)),
            Some(w) => ensure!(n == w, "node-not-canonical", "{} {}", n.diff(w), ctx),
        }
    }
    for p in want.keys() {
        ensure!(seen.contains(p), "node-missing", "directory {:?} was not emitted {}", p, ctx);
    }
    Ok(())
}

fn same_nodes(a: &[Node], b: &[Node], class: &str, ctx: &str) -> Res {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(x == y, class, "node #{}: {} {}", i, x.diff(y), ctx);
    }
    ensure!(a.len() == b.len(), class, "{} nodes instead of {} {}", a.len(), b.len(), ctx);
    Ok(())
}

fn probes(run: &mut Run, m: &Model) {
    fn go(d: &MDir, depth: usize, w: &mut usize, deep: &mut usize, mixed: &mut bool, empty: &mut bool) {
        *w = (*w).max(d.ents.len());
        *deep = (*deep).max(depth);
        let dirs = d.ents.values().filter(|e| matches!(e, MEnt::Dir(_))).count();
        *mixed |= dirs > 0 && dirs < d.ents.len();
        *empty |= d.ents.is_empty();
        for e in d.ents.values() {
            if let MEnt::Dir(s) = e {
                go(s, depth + 1, w, deep, mixed, empty)
            }
        }
    }
    let (mut w, mut deep, mut mixed, mut empty) = (0, 0, false, false);
    go(&m.root, 0, &mut w, &mut deep, &mut mixed, &mut empty);
    if w > 12 {
        run.count("probe_wide_dir");
    }
    if deep > 8 {
        run.count("probe_deep_tree");
    }
    if mixed {
        run.count("probe_leaves_and_dirs_mixed");
    }
    if empty {
        run.count("probe_empty_dir");
    }
    if m.wrap {
        run.count("probe_wrapped");
    }
    if !m.wrap && m.root.ents.values().any(|e| matches!(e, MEnt::Leaf(..))) {
        run.count("probe_single_leaf_root");
    }
}

// ---------------------------------------------------------------------------------- U17

/// One building task: a builder being fed, then an iterator being drained.
struct Task {
    tree: usize,
    /// remaining accepted operations in this task's order
    todo: Vec<Op>,
    rejects: Vec<Op>,
    m: Model,
    b: Option<BufferingTreeBuilder>,
    it: Option<PostOrderIterator>,
    out: Vec<Node>,
    done: bool,
}

fn shuffle<T>(run: &mut Run, v: &mut [T]) {
    match run.below(4) {
        0 => {}
        1 => v.reverse(),
        _ => {
            for i in (1..v.len()).rev() {
                let j = i - run.idx(i + 1);
                v.swap(i, j);
            }
        }
    }
}

/// What remains of a history: every accepted entry once, the latest metadata of each directory.
fn accepted(ops: &[Op], wrap: bool) -> Vec<Op> {
    let mut m = Model::new(wrap);
    let mut out: Vec<Option<Op>> = vec![];
    let mut latest: BTreeMap<&str, usize> = BTreeMap::new();
    for op in ops {
        if m.judge(op).is_empty() {
            m.apply(op);
            if let Op::Meta { path, .. } = op {
                if let Some(i) = latest.insert(path, out.len()) {
                    out[i] = None;
                }
            }
            out.push(Some(op.clone()));
        }
    }
    out.into_iter().flatten().collect()
}

impl Task {
    fn step(&mut self, run: &mut Run, bound: usize) -> Res {
        if let Some(b) = self.b.as_mut() {
            // something to be rejected in between
            if !self.rejects.is_empty() && run.chance(1, 4) {
                let i = run.idx(self.rejects.len());
                let op = self.rejects[i].clone();
                if !self.m.judge(&op).is_empty() {
                    run.fault("rejected_operation");
                    if apply(b, &op).is_ok() {
                        return viol("invalid-accepted", format!("{} was accepted, tree {}", op.desc(), self.tree));
                    }
                    return Ok(());
                }
            }
            if let Some(op) = self.todo.pop() {
                if let Err(e) = apply(b, &op) {
                    return viol("valid-rejected", format!("{} was rejected in another order: {:?}", op.desc(), e));
                }
                self.m.apply(&op);
                return Ok(());
            }
            let b = self.b.take().expect("present");
            self.it = Some(lib(|| b.build()));
            return Ok(());
        }
        let borrowed = run.flip();
        match step(self.it.as_mut().expect("present"), borrowed) {
            Some(Ok(n)) => {
                ensure!(self.out.len() <= bound, "build-endless", "more nodes than the {} directories of the tree", bound);
                self.out.push(n)
            }
            Some(Err(e)) => return viol("build-error", format!("building failed with {:?}", e)),
            None => self.done = true,
        }
        Ok(())
    }
}

fn u17(run: &mut Run) -> Res {
    run.vast = true;
    let nt = run.urange(1, 2);
    let mut trees = vec![];
    for t in 0..nt {
        let wrap = run.flip();
        let pr = gen_prof(run, 3);
        let n = n_ops(run);
        let (ops, m) = gen_history(run, wrap, n, &pr);
        probes(run, &m);
        ev!(run, "tree {}: wrap={} {} operations, {} entries", t, wrap, ops.len(), m.paths().len());
        let want = m.nodes();
        trees.push((ops, m, want, wrap));
    }
    let mut tasks: Vec<Task> = vec![];
    let mut outs: Vec<(usize, Vec<Node>, &'static str)> = vec![];
    for (t, (ops, _, want, wrap)) in trees.iter().enumerate() {
        let acc = accepted(ops, *wrap);
        let variants = if acc.len() > 20_000 { 2 } else { run.urange(2, 4) };
        for v in 0..variants {
            let mut todo = acc.clone();
            if v > 0 {
                shuffle(run, &mut todo);
            } else {
                todo.reverse();
            }
            if run.chance(1, 4) {
                // another process: its own hash keys, nothing interleaved
                let seed = run.below(1 << 40) + 1;
                run.count("probe_other_hash_keys");
                let wrap = *wrap;
                let bound = want.len();
                let o = with_hash_seed(seed, move || {
                    let mut b = lib(|| BufferingTreeBuilder::new(opts_of(wrap, Some(None))));
                    for op in todo.iter().rev() {
                        if let Err(e) = apply(&mut b, op) {
                            return viol("valid-rejected", format!("{} was rejected in another order: {:?}", op.desc(), e));
                        }
                    }
                    all_nodes(&mut lib(|| b.build()), bound)
                })?;
                outs.push((t, o, "in another process"));
            } else {
                let b = lib(|| BufferingTreeBuilder::new(opts_of(*wrap, Some(None))));
                tasks.push(Task { tree: t, todo, rejects: ops.clone(), m: Model::new(*wrap), b: Some(b), it: None, out: vec![], done: false });
            }
        }
    }
    // all of the builders and iterators interleaved
    let mut steps = 0;
    while tasks.iter().any(|t| !t.done) {
        let live: Vec<usize> = (0..tasks.len()).filter(|i| !tasks[*i].done).collect();
        let i = live[run.idx(live.len())];
        run.sig(i as u64);
        run.now += 10;
        steps += 1;
        let bound = trees[tasks[i].tree].2.len();
        tasks[i].step(run, bound)?;
    }
    run.count_n("interleaved_steps", steps);
    for t in tasks {
        outs.push((t.tree, t.out, "with operations in another order"));
    }
    for (i, (_, _, want, _)) in trees.iter().enumerate() {
        let mine: Vec<&(usize, Vec<Node>, &str)> = outs.iter().filter(|o| o.0 == i).collect();
        for o in &mine {
            check_canonical(&o.1, want, "")?;
            same_nodes(&o.1, &mine[0].1, "order-dependent", o.2)?;
        }
        for n in &mine[0].1 {
            ev!(run, "node {:?} {} {}", n.path.chars().take(60).collect::<String>(), short(&n.cid), n.total);
        }
    }
    run.weight += outs.len() as u64;
    run.summary = format!("{} trees, {} builds", nt, outs.len());
    Ok(())
}

const STUB: &[&str] = &["cooperative scheduler", "reference model of the tree with its own encoder (oracle)", "hash keys (getrandom)"];

pub const U17: Prop = Prop {
    id: "U17",
    run: u17,
    quick: 150_000,
    thorough: 2_500_000,
    rule: "Every run makes 1-2 seeded histories of operations and builds each 2-4 times with the accepted ones permuted, rejected ones in between, other builders and iterators interleaved step by step and other hash keys; all node sequences are compared with each other and with an independent canonical encoder.",
    min_weight: 2,
    real: &["unixfs_v1::dir::builder"],
    stub: STUB,
    assumptions: &["the sum of entry sizes fits in 64 bits", "'/' separates names; no empty names in wrapped trees"],
};

// ---------------------------------------------------------------------------------- U18

fn u18(run: &mut Run) -> Res {
    run.vast = true;
    let k = run.urange(1, 3);
    struct T {
        m: Model,
        b: BufferingTreeBuilder,
        /// gets the accepted operations only
        twin: BufferingTreeBuilder,
        left: usize,
        paths: Vec<(String, bool)>,
        pr: Prof,
        wrap: bool,
        bulk: Vec<Op>,
    }
    let mut ts: Vec<T> = vec![];
    for _ in 0..k {
        let wrap = run.flip();
        let bad = run.pick(&[4u64, 8, 12]);
        let pr = gen_prof(run, bad);
        let mut left = n_ops(run);
        let mut bulk = vec![];
        if run.chance(1, BULK) {
            bulk = gen_bulk(run, wrap);
            bulk.reverse();
            left = bulk.len() + left.min(20);
        }
        let o = opts_of(wrap, Some(None));
        ts.push(T { m: Model::new(wrap), b: lib(|| BufferingTreeBuilder::new(o.clone())), twin: lib(|| BufferingTreeBuilder::new(o)), left, paths: vec![], pr, wrap, bulk });
    }
    let mut n = 0u64;
    while ts.iter().any(|t| t.left > 0) {
        let live: Vec<usize> = (0..ts.len()).filter(|i| ts[*i].left > 0).collect();
        let i = live[run.idx(live.len())];
        run.sig(i as u64);
        run.now += 10;
        n += 1;
        let t = &mut ts[i];
        t.left -= 1;
        let bulk = t.bulk.pop();
        let of_bulk = bulk.is_some();
        let op = bulk.unwrap_or_else(|| gen_op(run, &t.m, &t.paths, &t.pr));
        let why = t.m.judge(&op);
        let r = apply(&mut t.b, &op);
        ev!(run, "tree {}: {} -> {}", i, op.desc(), if r.is_ok() { "accepted" } else { "rejected" });
        match (r, why.is_empty()) {
            (Ok(()), true) => {
                run.count("accepted");
                t.m.apply(&op);
                if of_bulk && t.bulk.is_empty() {
                    t.paths = some_paths(run, &t.m);
                } else if !of_bulk {
                    note(&mut t.paths, &op);
                }
                if let Err(e) = apply(&mut t.twin, &op) {
                    return viol("history-dependent", format!("{} was rejected ({:?}) by a builder which saw the accepted operations only", op.desc(), e));
                }
            }
            (Ok(()), false) => return viol("invalid-accepted", format!("{} was accepted although {:?} applies (wrap={})", op.desc(), why, t.wrap)),
            (Err(e), true) => return viol("valid-rejected", format!("{} was rejected with {:?} (wrap={})", op.desc(), e, t.wrap)),
            (Err(e), false) => {
                let (w, p) = why_of(&e);
                ensure!(why.contains(&w), "wrong-reason", "{} was rejected with {:?} although only {:?} applies (wrap={})", op.desc(), e, why, t.wrap);
                if let Some(p) = p {
                    ensure!(p == op.path(), "wrong-reason-path", "the reason {:?} does not name the path {:?}", w, op.path());
                }
                run.fault(match w {
                    Why::Rooted => "rejected_rooted",
                    Why::Repeat => "rejected_repeated_slashes",
                    Why::Ends => "rejected_trailing_slash",
                    Why::TooMany => "rejected_second_root",
                    Why::Duplicate => "rejected_duplicate",
                    Why::LeafAsDir => "rejected_leaf_as_directory",
                });
            }
        }
    }
    let mut total = 0;
    for t in ts {
        probes(run, &t.m);
        let want = t.m.nodes();
        let got = all_nodes(&mut lib(|| t.b.build()), want.len())?;
        check_canonical(&got, &want, "(after accepted and rejected operations)")?;
        let twin = all_nodes(&mut lib(|| t.twin.build()), want.len())?;
        same_nodes(&got, &twin, "rejected-operation-left-a-trace", "compared with a builder which saw the accepted operations only")?;
        total += got.len();
    }
    run.weight += 1;
    run.summary = format!("{} builders, {} operations, {} nodes", k, n, total);
    Ok(())
}

pub const U18: Prop = Prop {
    id: "U18",
    run: u18,
    quick: 150_000,
    thorough: 2_500_000,
    rule: "Every run interleaves 1-3 builders and gives each a seeded history of valid and invalid operations chosen relative to its current tree; every answer and reason is compared with a reference model, and the built tree with the model's and with that of a builder which saw only the accepted operations.",
    min_weight: 3,
    real: &["unixfs_v1::dir::builder"],
    stub: STUB,
    assumptions: &["if several reasons apply to a malformed path any of them may be reported", "the empty path names an entry with an empty name (tested upstream behaviour)"],
};

// ---------------------------------------------------------------------------------- U19

/// Directories directly below each directory, from the model.
fn subdirs(m: &Model) -> BTreeMap<String, Vec<String>> {
    let nodes = m.nodes();
    let mut out: BTreeMap<String, Vec<String>> = nodes.keys().map(|k| (k.clone(), vec![])).collect();
    let top = m.top();
    for p in nodes.keys() {
        if Some(p) == top.as_ref() {
            continue;
        }
        let parent = p.rsplit_once('/').map_or("", |x| x.0);
        out.get_mut(parent).expect("parent is a directory").push(p.clone());
    }
    out
}

fn u19(run: &mut Run) -> Res {
    let k = run.urange(1, 3);
    let mut trees = vec![];
    for _ in 0..k {
        let wrap = run.flip();
        let mut pr = gen_prof(run, 1);
        // leaves are never directories of the trees
        pr.opaque = false;
        let n = n_ops(run);
        let (ops, m) = gen_history(run, wrap, n, &pr);
        probes(run, &m);
        let want = m.nodes();
        let subs = subdirs(&m);
        let acc = accepted(&ops, wrap);
        // what an undisturbed owned iteration gives
        let mut b = lib(|| BufferingTreeBuilder::new(opts_of(wrap, Some(None))));
        for op in &acc {
            if let Err(e) = apply(&mut b, op) {
                return viol("valid-rejected", format!("{}: {:?}", op.desc(), e));
            }
        }
        let seq = all_nodes(&mut lib(|| b.build()), want.len())?;
        ev!(run, "tree: wrap={} {} directories", wrap, want.len());
        trees.push((acc, m, want, subs, wrap, seq));
    }
    let err = if run.flip() { run.range(1, 24) } else { 0 };
    let mut disk = Disk::default();
    if run.chance(1, 5) {
        disk.full_after = Some(run.urange(0, 20));
    }
    let all_dirs: usize = trees.iter().map(|t| t.2.len()).sum();
    let mut crashes = run.urange(0, 3);
    let mut done: Vec<bool> = vec![false; k];
    let closed = |disk: &Disk| -> Res {
        for (_, _, want, subs, _, _) in &trees {
            for (p, n) in want {
                if disk.durable.contains_key(&n.cid.to_bytes()) {
                    for s in &subs[p] {
                        ensure!(disk.durable.contains_key(&want[s].cid.to_bytes()), "dangling-directory", "{:?} is stored but its subdirectory {:?} is not", p, s);
                    }
                }
            }
        }
        Ok(())
    };
    'life: for life in 0..30 {
        let todo: Vec<usize> = (0..k).filter(|i| !done[*i]).collect();
        if todo.is_empty() {
            break;
        }
        let crash_at = if crashes > 0 && all_dirs > 0 {
            crashes -= 1;
            Some(run.urange(1, all_dirs * 2 + 1))
        } else {
            None
        };
        ev!(run, "process start #{} with {} stored directories", life, disk.durable.len());
        // (tree, iterator, emitted so far, stored so far)
        let mut its: Vec<(usize, PostOrderIterator, Vec<Node>, usize, bool)> = vec![];
        for t in todo {
            let (acc, _, _, _, wrap, _) = &trees[t];
            let mut b = lib(|| BufferingTreeBuilder::new(opts_of(*wrap, Some(None))));
            let mut order: Vec<&Op> = acc.iter().collect();
            if life > 0 {
                shuffle(run, &mut order);
            }
            for op in order {
                if let Err(e) = apply(&mut b, op) {
                    return viol("valid-rejected", format!("{}: {:?}", op.desc(), e));
                }
            }
            its.push((t, lib(|| b.build()), vec![], 0, false));
        }
        let mode = run.below(3);
        let mut steps = 0;
        while !its.is_empty() {
            steps += 1;
            run.now += 10;
            if Some(steps) == crash_at {
                ev!(run, "crash after {} steps", steps);
                disk.crash(run);
                closed(&disk)?;
                continue 'life;
            }
            let j = run.idx(its.len());
            run.sig(j as u64);
            let (t, it, out, stored, ended) = &mut its[j];
            let (_, m, want, subs, _, seq) = &trees[*t];
            if *stored < out.len() {
                let n = &out[*stored];
                if disk.put(run, &n.cid, &n.block, err) {
                    *stored += 1;
                } else {
                    ev!(run, "write of {:?} failed", n.path);
                }
                continue;
            }
            if *ended {
                disk.sync();
                done[*t] = true;
                its.remove(j);
                continue;
            }
            let borrowed = match mode {
                0 => false,
                1 => true,
                _ => run.flip(),
            };
            run.count(if borrowed { "borrowed_steps" } else { "owned_steps" });
            match step(it, borrowed) {
                None => {
                    *ended = true;
                    check_canonical(out, want, "")?;
                    same_nodes(out, seq, "owned-and-borrowed-differ", "compared with an undisturbed owned iteration")?;
                    ensure!(out.last().map(|n| n.path.clone()) == m.top().filter(|_| !want.is_empty()), "top-not-last", "the last directory is {:?} instead of {:?}", out.last().map(|n| &n.path), m.top());
                    // exhausted stays exhausted
                    for _ in 0..2 {
                        let b = run.flip();
                        ensure!(step(it, b).is_none(), "node-after-end", "something was emitted after the end");
                    }
                }
                Some(Err(e)) => return viol("build-error", format!("building failed with {:?}", e)),
                Some(Ok(n)) => {
                    ensure!(out.len() <= want.len(), "build-endless", "more than {} nodes", want.len());
                    ensure!(want.contains_key(&n.path), "node-unknown", "directory {:?} was emitted but does not exist", n.path);
                    for s in &subs[&n.path] {
                        ensure!(out.iter().any(|o| o.path == *s), "parent-before-child", "{:?} was emitted before {:?} below it", n.path, s);
                    }
                    ev!(run, "emitted {:?} {}", n.path.chars().take(60).collect::<String>(), short(&n.cid));
                    out.push(n);
                }
            }
        }
    }
    disk.sync();
    closed(&disk)?;
    for (t, (_, _, want, _, _, _)) in trees.iter().enumerate() {
        ensure!(done[t], "rebuild-not-completed", "tree {} was never completed although faults stopped", t);
        for (p, n) in want {
            ensure!(disk.durable.get(&n.cid.to_bytes()) == Some(&n.block), "rebuild-incomplete", "directory {:?} is not stored after the rebuild", p);
        }
    }
    run.weight += k as u64;
    run.summary = format!("{} trees, {} directories", k, all_dirs);
    Ok(())
}

pub const U19: Prop = Prop {
    id: "U19",
    run: u19,
    quick: 150_000,
    thorough: 2_500_000,
    rule: "Process lifetimes in which 1-3 trees are built and iterated interleaved (owned, borrowed and mixed) while their nodes are written in emission order to an append-log disk; crashes at seeded steps keep a seeded prefix, after which the closure of what survived is checked and everything is rebuilt.",
    min_weight: 3,
    real: &["unixfs_v1::dir::builder"],
    stub: &["disk (append log, write errors, full, torn last record)", "process crash", "cooperative scheduler", "reference model of the tree (oracle)"],
    assumptions: &["the disk persists blocks in the order they were written"],
};

// ---------------------------------------------------------------------------------- U20

const DEFAULT_LIMIT: u64 = 512 * 1024;

fn u20(run: &mut Run) -> Res {
    let wrap = run.flip();
    let pr = gen_prof(run, 1);
    let n = n_ops(run);
    let (ops, mut m) = gen_history(run, wrap, n, &pr);
    let mut acc = accepted(&ops, wrap);
    // now and then a directory which just fits in the default limit, or just does not
    let big = run.chance(1, if run.thorough { 12 } else { 40 });
    if big {
        let dirs: Vec<String> = if m.root.ents.is_empty() {
            vec![if wrap { String::new() } else { "big".into() }]
        } else {
            m.paths().into_iter().filter(|p| !p.1).map(|p| p.0).collect()
        };
        if !dirs.is_empty() {
            let d = run.pick(&dirs);
            let target = DEFAULT_LIMIT + 2 - run.below(5);
            let mut i = 0;
            loop {
                let size = m.nodes().get(&d).map_or(4, |n| n.block.len()) as u64;
                let left = target.saturating_sub(size);
                // link overhead: raw cid 36+2, name tag and length, size 2, outer tag and length
                let over = |n: u64| {
                    let l = RLink { hash: Some(cid_codec(0x55, b"x").to_bytes()), name: Some(vec![b'x'; n as usize]), tsize: Some(1) };
                    enc_node(&[l], None).len() as u64
                };
                if left < over(8) {
                    break;
                }
                let len = if left > 80_000 {
                    run.range(30_000, 60_000)
                } else {
                    let mut len = left - 50;
                    while len > 8 && over(len) > left {
                        len -= 1;
                    }
                    while over(len + 1) <= left {
                        len += 1;
                    }
                    len
                };
                let name = format!("{:04}{}", i, "x".repeat(len as usize - 4));
                i += 1;
                let path = if d.is_empty() { name } else { format!("{}/{}", d, name) };
                let op = Op::Put { path, cid: cid_codec(0x55, b"x"), size: 1 };
                if !m.judge(&op).is_empty() {
                    break;
                }
                m.apply(&op);
                acc.push(op);
                if left <= 80_000 {
                    break;
                }
            }
        }
    }
    probes(run, &m);
    let want = m.nodes();
    let sizes: Vec<u64> = want.values().map(|n| n.block.len() as u64).collect();
    ev!(run, "tree: wrap={} directory sizes {:?}", wrap, sizes.iter().take(200).collect::<Vec<_>>());
    let build = |limit: Option<Option<u64>>, default_ctor: bool| -> Res<PostOrderIterator> {
        let mut b = if default_ctor { lib(BufferingTreeBuilder::default) } else { lib(|| BufferingTreeBuilder::new(opts_of(wrap, limit))) };
        for op in &acc {
            if let Err(e) = apply(&mut b, op) {
                return viol("valid-rejected", format!("{}: {:?}", op.desc(), e));
            }
        }
        Ok(lib(|| b.build()))
    };
    let full = all_nodes(&mut build(Some(None), false)?, want.len())?;
    check_canonical(&full, &want, "(without a limit)")?;
    // several builds with limits, iterated interleaved
    let mut its: Vec<(PostOrderIterator, u64, usize, bool, String, bool)> = vec![];
    let nb = run.urange(2, 5);
    for i in 0..nb {
        let k = if big && i == 0 { 0 } else { run.below(9) };
        let (limit, it, what) = match k {
            0 if wrap => (DEFAULT_LIMIT, build(None, false)?, "default options, wrapped".to_string()),
            0 => {
                let ctor = run.flip();
                (DEFAULT_LIMIT, build(None, ctor)?, format!("default options (constructor default: {})", ctor))
            }
            1 => (u64::MAX, build(Some(None), false)?, "no limit".to_string()),
            _ => {
                let s = if sizes.is_empty() { 10 } else { sizes[run.idx(sizes.len())] };
                let max = sizes.iter().max().copied().unwrap_or(10);
                let l = match k {
                    2 => s,
                    3 => s.saturating_sub(1),
                    4 => s + 1,
                    5 => max,
                    6 => max.saturating_sub(1),
                    7 => run.below(max + 8),
                    _ => run.pick(&[0u64, 1, 3, 4, u64::MAX, u32::MAX as u64]),
                };
                if sizes.iter().any(|s| *s == l) {
                    run.count("probe_limit_equals_a_size");
                }
                if sizes.iter().any(|s| Some(*s) == l.checked_add(1)) {
                    run.count("probe_limit_one_below_a_size");
                }
                (l, build(Some(Some(l)), false)?, format!("limit {}", l))
            }
        };
        if k == 0 && big {
            let max = sizes.iter().max().copied().unwrap_or(0);
            if max == DEFAULT_LIMIT {
                run.count("probe_default_limit_exactly_reached");
            }
            if max == DEFAULT_LIMIT + 1 {
                run.count("probe_default_limit_exceeded_by_one");
            }
        }
        its.push((it, limit, 0, false, what, false));
    }
    while its.iter().any(|t| !t.3) {
        let live: Vec<usize> = (0..its.len()).filter(|i| !its[*i].3).collect();
        let j = live[run.idx(live.len())];
        run.sig(j as u64);
        run.now += 10;
        let (it, limit, pos, done, what, failed) = &mut its[j];
        let borrowed = run.flip();
        let r = step(it, borrowed);
        let expect = full.get(*pos);
        ev!(run, "{}, node #{}: {}", what, pos, match &r { None => "end".to_string(), Some(Ok(n)) => short(&n.cid), Some(Err(e)) => format!("{:?}", e) });
        match (r, expect) {
            (None, None) => {
                *done = true;
            }
            (None, Some(w)) => return viol("node-missing", format!("iteration ended before {:?} ({})", w.path, what)),
            (Some(Ok(n)), None) => return viol("node-unknown", format!("{:?} was emitted after the last directory ({})", n.path, what)),
            (Some(Ok(n)), Some(w)) => {
                ensure!(n.block.len() as u64 <= *limit, "limit-exceeded", "{:?} was emitted with {} bytes ({})", n.path, n.block.len(), what);
                ensure!(n == *w, "limit-changes-nodes", "{} ({})", n.diff(w), what);
                *pos += 1;
            }
            (Some(Err(e)), w) => {
                let size = match e {
                    TreeConstructionFailed::TooLargeBlock(s) => s,
                    e => return viol("build-error", format!("building failed with {:?} ({})", e, what)),
                };
                match w {
                    None => return viol("error-without-cause", format!("an error about {} bytes after the last directory ({})", size, what)),
                    Some(w) => {
                        let real = w.block.len() as u64;
                        ensure!(real > *limit, "error-within-limit", "an error about {} bytes although {:?} has {} ({})", size, w.path, real, what);
                        ensure!(size == real, "wrong-offending-size", "the error says {} bytes, {:?} has {} ({})", size, w.path, real, what);
                    }
                }
                run.fault("limit_hit");
                *failed = true;
                *done = true;
                for _ in 0..3 {
                    let b = run.flip();
                    let again = step(it, b);
                    ensure!(again.is_none(), "emitted-after-error", "{} after the error ({})", if matches!(again, Some(Ok(_))) { "a node" } else { "another error" }, what);
                }
            }
        }
    }
    for (_, limit, _, _, what, failed) in &its {
        ensure!(*failed == sizes.iter().any(|s| s > limit), "limit-missed", "failed={} ({}), sizes {:?}", failed, what, sizes);
        if !failed {
            run.count("completed_within_limit");
        }
    }
    run.weight += nb as u64;
    run.summary = format!("{} directories, {} limited builds", want.len(), nb);
    Ok(())
}

pub const U20: Prop = Prop {
    id: "U20",
    run: u20,
    quick: 150_000,
    thorough: 2_000_000,
    rule: "Every run builds one seeded tree without a limit and 2-5 times with limits at, just below and just above the sizes of its directories (and at the default limit with a directory grown to it), iterating all of them interleaved, owned and borrowed, past the error.",
    min_weight: 3,
    real: &["unixfs_v1::dir::builder"],
    stub: STUB,
    assumptions: &["the order of directories is that of the unlimited iteration"],
};

// ---------------------------------------------------------------------------------- U21

/// Turns the built tree into the readers' expectation, with the blocks the library made.
pub fn model_tree(m: &Model, targets: &BTreeMap<Cid, Rc<TNode>>, built: &BTreeMap<String, Node>) -> Option<Rc<TNode>> {
    fn go(d: &MDir, path: &str, targets: &BTreeMap<Cid, Rc<TNode>>, built: &BTreeMap<String, Node>) -> Rc<TNode> {
        let mut v = vec![];
        for (n, e) in &d.ents {
            let name = String::from_utf8(n.clone()).expect("utf8");
            let to = match e {
                MEnt::Leaf(c, _) => targets[c].clone(),
                MEnt::Dir(s) => {
                    let p = if path.is_empty() { name.clone() } else { format!("{}/{}", path, name) };
                    go(s, &p, targets, built)
                }
            };
            v.push((name, to));
        }
        let n = &built[path];
        let nocc = 1 + v.iter().map(|e| e.1.nocc).sum::<usize>();
        Rc::new(TNode { cid: n.cid, block: Rc::new(n.block.clone()), tsize: n.total, meta: d.meta.clone(), kind: TKind::Dir(v), nocc })
    }
    if m.wrap {
        return Some(go(&m.root, "", targets, built));
    }
    m.root.ents.iter().next().and_then(|(n, e)| match e {
        MEnt::Dir(d) => Some(go(d, std::str::from_utf8(n).expect("utf8"), targets, built)),
        MEnt::Leaf(c, _) => Some(targets[c].clone()),
    })
}

const META: Check = Check { report: false, meta: true, pending: false };

fn u21(run: &mut Run) -> Res {
    let mut store = Blocks::default();
    // what the directories link to
    let mut leaves: Vec<Rc<TNode>> = vec![];
    {
        let mut g = TreeGen::new(run, &mut store, 6);
        g.p_meta = 6;
        let n = run.urange(1, 5);
        for _ in 0..n {
            let l = match run.below(5) {
                0 | 1 => g.file(run),
                2 => g.symlink(run),
                _ => g.dir(run, 2),
            };
            leaves.push(l);
        }
    }
    let targets: BTreeMap<Cid, Rc<TNode>> = leaves.iter().map(|l| (l.cid, l.clone())).collect();
    let wrap = run.flip();
    let pr = Prof { dots: false, bad: 2, p_meta: run.pick(&[4u64, 8, 12]), long_names: false, opaque: false };
    let mut m = Model::new(wrap);
    let mut paths: Vec<(String, bool)> = vec![];
    let mut b = lib(|| BufferingTreeBuilder::new(opts_of(wrap, None)));
    let n = run.skewed(24) + 1;
    let mut occ = 0;
    for _ in 0..n {
        let mut op = gen_op(run, &m, &paths, &pr);
        if op.path().is_empty() {
            continue;
        }
        if let Op::Put { cid, size, .. } = &mut op {
            let l = &leaves[run.idx(leaves.len())];
            if occ + l.nocc > 900 {
                continue;
            }
            *cid = l.cid;
            *size = l.tsize;
            if m.judge(&op).is_empty() {
                occ += l.nocc;
            }
        }
        let ok = m.judge(&op).is_empty();
        ev!(run, "{}", op.desc());
        let r = apply(&mut b, &op);
        ensure!(r.is_ok() == ok, "accepted-differently", "{}: {:?}", op.desc(), r);
        if ok {
            m.apply(&op);
            note(&mut paths, &op);
            if let Op::Meta { meta, .. } = &op {
                if meta.mtime.map_or(false, |t| t.0 < 0) {
                    run.count("probe_mtime_before_1970");
                }
                if meta.mtime.map_or(false, |t| t.1.unwrap_or(0) > 0) {
                    run.count("probe_mtime_nanos");
                }
            }
        } else {
            run.fault("rejected_operation");
        }
    }
    let mut it = lib(|| b.build());
    let mut built: BTreeMap<String, Node> = BTreeMap::new();
    while let Some(r) = {
        let bo = run.flip();
        step(&mut it, bo)
    } {
        match r {
            Ok(n) => {
                store.add(n.cid, &Rc::new(n.block.clone()));
                built.insert(n.path.clone(), n);
            }
            Err(e) => return viol("build-error", format!("{:?}", e)),
        }
    }
    // stored in that directory's block
    fn stored(d: &MDir, path: &str, built: &BTreeMap<String, Node>) -> Res {
        let n = match built.get(path) {
            Some(n) => n,
            None => return viol("node-missing", format!("{:?} was not emitted", path)),
        };
        let (_, data) = decode(&n.block)?;
        ensure!(data.meta.seen() == d.meta.seen(), "metadata-not-stored", "{:?} was given {:?} but its block has {:?}", path, d.meta, data.meta);
        for (k, e) in &d.ents {
            if let MEnt::Dir(s) = e {
                let k = std::str::from_utf8(k).expect("utf8");
                stored(s, &if path.is_empty() { k.to_string() } else { format!("{}/{}", path, k) }, built)?;
            }
        }
        Ok(())
    }
    if wrap {
        stored(&m.root, "", &built)?;
    } else {
        for (n, e) in &m.root.ents {
            if let MEnt::Dir(d) = e {
                stored(d, std::str::from_utf8(n).expect("utf8"), &built)?;
            }
        }
    }
    let tree = match model_tree(&m, &targets, &built) {
        Some(t) => t,
        None => {
            run.summary = "nothing built".into();
            return Ok(());
        }
    };
    let pool = Pool::new(2);
    let mut sessions: Vec<Box<dyn Session + '_>> = vec![];
    let (mut files, mut dirs) = (vec![], vec![]);
    collect(&tree, &mut files, &mut dirs, 40);
    let k = run.urange(1, 3);
    for _ in 0..k {
        let pol = CachePol::gen(run, &pool);
        let name = gen_root_name(run);
        sessions.push(Box::new(WalkSession::new(tree.clone(), &name, pol, META)));
    }
    for _ in 0..run.below(3) {
        if files.is_empty() {
            break;
        }
        let f = run.pick(&files);
        let pol = CachePol::gen(run, &pool);
        if run.flip() {
            sessions.push(Box::new(VisitSession::new(f, pol, META)));
        } else {
            let r = gen_range(run, &f);
            sessions.push(Box::new(RangeSession::new(f, r, pol, META)));
        }
    }
    run.count_n("directories", dirs.len() as u64);
    let cfg = gen_net(run);
    let st = exchange(run, &cfg, &store, &mut sessions)?;
    run.weight += st.feeds.min(3);
    run.summary = format!("{} built directories, {} walked occurrences, {} feeds", built.len(), tree.nocc, st.feeds);
    Ok(())
}

pub const U21: Prop = Prop {
    id: "U21",
    run: u21,
    quick: 150_000,
    thorough: 2_500_000,
    rule: "Every run builds a tree of directories with seeded metadata over files of several segments, symlinks and sharded directories which carry their own, decodes the emitted blocks independently, and walks and visits it interleaved over a faulty network; metadata is compared on every report.",
    min_weight: 4,
    real: &["unixfs_v1::dir::builder", "unixfs_v1::walk", "unixfs_v1::file::visit", "unixfs_v1::Metadata"],
    stub: &["network (delay, loss, duplication, reordering, corruption, partitions, timeouts)", "peers' block stores", "node crash and cancellation", "generator of files, symlinks and sharded directories with its own encoder", "reference model of the tree (oracle)"],
    assumptions: &["nanoseconds are below 10^9", "names are walkable (not '.')"],
};
