//! World "read": visits, walks and lookups on a node which fetches blocks over a faulty network.
//! U06, U07, U10, U11, U13, U14, U16.
use crate::core::*;
use crate::gen::*;
use crate::net::*;
use crate::refpb::*;
use crate::runner::Prop;
use crate::{ensure, ev};
use libipld::Cid;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use std::path::Path;
use std::rc::Rc;
use unixfs_v1::dir::{resolve, MaybeResolved, ShardedLookup};
use unixfs_v1::file::visit::{FileVisit, IdleFileVisit};
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::Metadata;

pub type FCache = Option<unixfs_v1::file::visit::Cache>;
pub type DCache = Option<unixfs_v1::dir::Cache>;

// ---------------------------------------------------------------------------------- caches

pub struct Pool {
    pub file: Vec<RefCell<FCache>>,
    pub dir: Vec<RefCell<DCache>>,
}
impl Pool {
    pub fn new(n: usize) -> Rc<Self> {
        Rc::new(Pool { file: (0..n).map(|_| RefCell::new(None)).collect(), dir: (0..n).map(|_| RefCell::new(None)).collect() })
    }
}
#[derive(Clone)]
pub enum CachePol {
    None,
    Shared(Rc<Pool>, usize),
    /// a different slot (or none) on every call
    Any(Rc<Pool>),
}
impl CachePol {
    pub fn gen(run: &mut Run, pool: &Rc<Pool>) -> Self {
        match run.below(4) {
            0 => CachePol::None,
            1 | 2 => CachePol::Shared(pool.clone(), run.idx(pool.file.len())),
            _ => CachePol::Any(pool.clone()),
        }
    }
    fn slot(&self, run: &mut Run) -> Option<(Rc<Pool>, usize)> {
        match self {
            CachePol::None => None,
            CachePol::Shared(p, i) => Some((p.clone(), *i)),
            CachePol::Any(p) => {
                let i = run.idx(p.file.len() + 1);
                if i == 0 {
                    None
                } else {
                    Some((p.clone(), i - 1))
                }
            }
        }
    }
    pub fn file<T>(&self, run: &mut Run, f: impl FnOnce(&mut FCache) -> T) -> T {
        match self.slot(run) {
            None => f(&mut None),
            Some((p, i)) => {
                if p.file[i].borrow().is_some() {
                    run.count("probe_cache_reused");
                }
                f(&mut p.file[i].borrow_mut())
            }
        }
    }
    pub fn dir<T>(&self, run: &mut Run, f: impl FnOnce(&mut DCache) -> T) -> T {
        match self.slot(run) {
            None => f(&mut None),
            Some((p, i)) => {
                if p.dir[i].borrow().is_some() {
                    run.count("probe_cache_reused");
                }
                f(&mut p.dir[i].borrow_mut())
            }
        }
    }
}

pub fn meta_of(m: &Metadata) -> (Option<u32>, Option<(i64, u32)>) {
    // both views of the time have to agree
    let (raw, file) = (m.mtime(), lib(|| m.mtime_as_filetime()).map(|t| (t.unix_seconds(), t.nanoseconds())));
    (m.mode(), if raw == file { raw } else { file })
}

/// Which statements a session enforces (requests and ends are always checked).
#[derive(Clone, Copy, Default)]
pub struct Check {
    pub report: bool,
    pub meta: bool,
    pub pending: bool,
}
#[allow(dead_code)]
pub const ALL: Check = Check { report: true, meta: true, pending: true };
pub const REPORT: Check = Check { report: true, meta: true, pending: false };
pub const PENDING: Check = Check { report: false, meta: false, pending: true };

fn cids(v: &[Cid]) -> String {
    let s: Vec<String> = v.iter().take(12).map(short).collect();
    format!("[{}{}]", s.join(" "), if v.len() > 12 { " .." } else { "" })
}

fn pend_pair<'a>(p: (&'a Cid, impl Iterator<Item = &'a Cid>)) -> Vec<Cid> {
    let mut v = vec![*p.0];
    v.extend(p.1.cloned());
    v
}

// ---------------------------------------------------------------------------------- whole visits

pub struct VisitSession {
    pub dag: Rc<FileDag>,
    occs: Vec<Occ>,
    content: Vec<u8>,
    visit: Option<FileVisit>,
    /// next occurrence to supply
    pos: usize,
    got: usize,
    started: bool,
    pub done: bool,
    pol: CachePol,
    check: Check,
}

impl VisitSession {
    pub fn new(dag: Rc<FileDag>, pol: CachePol, check: Check) -> Self {
        let occs = dag.occs();
        let content = dag.content();
        VisitSession { dag, occs, content, visit: None, pos: 0, got: 0, started: false, done: false, pol, check }
    }
    fn state(&self, v: &FileVisit) -> Res {
        if self.check.report {
            let sz = lib(|| v.file_size());
            ensure!(sz == self.dag.size(), "visit-size", "file size reported during the visit is {} instead of {}", sz, self.dag.size());
        }
        if self.check.meta {
            let m: &Metadata = lib(|| v.as_ref());
            ensure!(meta_of(m) == self.dag.meta.seen(), "visit-metadata", "metadata during the visit is {:?} instead of {:?}", m, self.dag.meta);
        }
        Ok(())
    }
    fn bytes(&mut self, b: &[u8]) -> Res {
        if self.check.report {
            let want = self.content.get(self.got..self.got + b.len());
            ensure!(want == Some(b), "visit-bytes", "{} bytes at offset {} are not the file's ({} bytes, {})", b.len(), self.got, self.content.len(), self.dag.style);
        }
        self.got += b.len();
        Ok(())
    }
    fn finish(&mut self) -> Res {
        self.done = true;
        ensure!(self.pos == self.occs.len(), "visit-ended-early", "visit ended after {} of {} blocks ({})", self.pos, self.occs.len(), self.dag.style);
        ensure!(!self.check.report || self.got == self.content.len(), "visit-bytes", "visit returned {} of {} bytes ({})", self.got, self.content.len(), self.dag.style);
        Ok(())
    }
}

impl Session for VisitSession {
    fn want(&mut self, _run: &mut Run) -> Res<Option<Vec<Cid>>> {
        if self.done {
            return Ok(None);
        }
        if !self.started {
            return Ok(Some(vec![self.dag.root().cid]));
        }
        let v = self.visit.as_ref().expect("ongoing");
        self.state(v)?;
        let p = lib(|| pend_pair(v.pending_links()));
        ensure!(self.pos < self.occs.len(), "visit-continues", "visit wants {} after all {} blocks were supplied ({})", cids(&p), self.occs.len(), self.dag.style);
        let need = self.dag.b[self.occs[self.pos].blk].cid;
        ensure!(p[0] == need, "visit-request", "visit wants {} but block #{} in depth-first order is {} ({})", short(&p[0]), self.pos, short(&need), self.dag.style);
        if self.check.pending {
            let want: Vec<Cid> = pending_at(&self.occs, self.pos, |o| o.parent).into_iter().map(|j| self.dag.b[self.occs[j].blk].cid).collect();
            ensure!(p == want, "visit-pending", "pending links of the visit at block #{} are {} instead of {} ({})", self.pos, cids(&p), cids(&want), self.dag.style);
        }
        Ok(Some(p))
    }
    fn feed(&mut self, run: &mut Run, _cid: &Cid, block: &[u8]) -> Res {
        self.pos += 1;
        if !self.started {
            self.started = true;
            return match lib(|| IdleFileVisit::default().start(block)) {
                Ok((b, sz, m, v)) => {
                    if self.check.report {
                        ensure!(sz == self.dag.size(), "visit-size", "file size reported at the start is {} instead of {}", sz, self.dag.size());
                    }
                    if self.check.meta {
                        ensure!(meta_of(&m) == self.dag.meta.seen(), "visit-metadata", "metadata at the start is {:?} instead of {:?}", m, self.dag.meta);
                    }
                    self.bytes(b)?;
                    self.visit = v;
                    if self.visit.is_none() {
                        self.finish()?;
                    }
                    Ok(())
                }
                Err(e) => viol("visit-error", format!("visit of a well-formed file failed at its root: {:?} ({})", e, self.dag.style)),
            };
        }
        let v = self.visit.take().expect("ongoing");
        match self.pol.file(run, |c| lib(|| v.continue_walk(block, c))) {
            Ok((b, v)) => {
                self.bytes(b)?;
                self.visit = v;
                if self.visit.is_none() {
                    self.finish()?;
                }
                Ok(())
            }
            Err(e) => viol("visit-error", format!("visit of a well-formed file failed at block #{}: {:?} ({})", self.pos - 1, e, self.dag.style)),
        }
    }
    fn restart(&mut self, _run: &mut Run) -> Res {
        if !self.done {
            self.visit = None;
            self.started = false;
            self.pos = 0;
            self.got = 0;
        }
        Ok(())
    }
    fn bound(&self) -> u64 {
        self.occs.len() as u64
    }
}

// ---------------------------------------------------------------------------------- range visits

pub struct RangeSession {
    pub dag: Rc<FileDag>,
    pub range: Range<u64>,
    want: Vec<u8>,
    touching: Vec<(Cid, bool)>,
    asked: Vec<Cid>,
    visit: Option<FileVisit>,
    got: Vec<u8>,
    started: bool,
    pub done: bool,
    last: Vec<Cid>,
    pol: CachePol,
    check: Check,
}

impl RangeSession {
    pub fn new(dag: Rc<FileDag>, range: Range<u64>, pol: CachePol, check: Check) -> Self {
        let want = dag.slice(range.start, range.end);
        let touching = if range.start <= range.end { dag.touching(range.start, range.end) } else { vec![] };
        RangeSession { dag, range, want, touching, asked: vec![], visit: None, got: vec![], started: false, done: false, last: vec![], pol, check }
    }
    fn desc(&self) -> String {
        format!("range {:?} of a {} file of {} bytes", self.range, self.dag.style, self.dag.size())
    }
    fn bytes(&mut self, b: &[u8]) -> Res {
        self.got.extend_from_slice(b);
        ensure!(self.want.starts_with(&self.got), "range-bytes", "the first {} bytes returned are not those of {}", self.got.len(), self.desc());
        Ok(())
    }
    fn finish(&mut self, run: &mut Run) -> Res {
        self.done = true;
        ensure!(self.got == self.want, "range-bytes", "{} bytes returned instead of {} for {}", self.got.len(), self.want.len(), self.desc());
        // everything that overlaps was needed, in order
        let mut it = self.asked.iter();
        for (c, strict) in &self.touching {
            if *strict {
                ensure!(it.any(|a| a == c), "range-skipped-block", "block {} overlaps {} but was not requested (in order)", short(c), self.desc());
            }
        }
        run.count_n("range_blocks_requested", self.asked.len() as u64);
        Ok(())
    }
    /// the blocks asked for are a subsequence of those which touch the range
    fn asked_ok(&self) -> Res {
        let mut it = self.touching.iter();
        for c in &self.asked {
            ensure!(
                it.any(|(t, _)| t == c),
                "range-unneeded-block",
                "request #{} ({}) is outside of, out of order for, or repeated within {}",
                self.asked.len(),
                short(self.asked.last().unwrap()),
                self.desc()
            );
        }
        Ok(())
    }
}

impl Session for RangeSession {
    fn want(&mut self, _run: &mut Run) -> Res<Option<Vec<Cid>>> {
        if self.done {
            return Ok(None);
        }
        if !self.started {
            return Ok(Some(vec![self.dag.root().cid]));
        }
        let v = self.visit.as_ref().expect("ongoing");
        let p = lib(|| pend_pair(v.pending_links()));
        if self.check.report {
            let sz = lib(|| v.file_size());
            ensure!(sz == self.dag.size(), "range-size", "file size reported is {} for {}", sz, self.desc());
        }
        if self.check.pending {
            // known links stay, in order; new ones are children of the block just consumed
            let rest: &[Cid] = if self.last.is_empty() { &[] } else { &self.last[1..] };
            let new = p.len().checked_sub(rest.len());
            let ok = new.map_or(false, |n| p[n..] == *rest);
            ensure!(ok, "range-pending", "pending links went from {} to {} in {}", cids(&self.last), cids(&p), self.desc());
            let parent = if self.last.is_empty() { self.dag.root() } else { self.dag.by_cid(&self.last[0]).expect("known") };
            let mut kids = parent.kids.iter().map(|k| self.dag.b[*k].cid);
            ensure!(
                p[..new.unwrap()].iter().all(|c| kids.any(|k| k == *c)),
                "range-pending",
                "new pending links {} are not children of the consumed block in order, in {}",
                cids(&p[..new.unwrap()]),
                self.desc()
            );
        }
        self.last = p.clone();
        Ok(Some(p))
    }
    fn feed(&mut self, run: &mut Run, cid: &Cid, block: &[u8]) -> Res {
        if !self.started {
            self.started = true;
            let idle = IdleFileVisit::default().with_target_range(self.range.clone());
            return match lib(|| idle.start(block)) {
                Ok((b, sz, m, v)) => {
                    ensure!(sz == self.dag.size(), "range-size", "file size reported is {} for {}", sz, self.desc());
                    if self.check.meta {
                        ensure!(meta_of(&m) == self.dag.meta.seen(), "visit-metadata", "metadata at the start is {:?} instead of {:?}", m, self.dag.meta);
                    }
                    self.bytes(b)?;
                    self.visit = v;
                    if self.visit.is_none() {
                        self.finish(run)?;
                    }
                    Ok(())
                }
                Err(e) => viol("range-error", format!("{:?} at the root for {}", e, self.desc())),
            };
        }
        self.asked.push(*cid);
        self.asked_ok()?;
        let v = self.visit.take().expect("ongoing");
        match self.pol.file(run, |c| lib(|| v.continue_walk(block, c))) {
            Ok((b, v)) => {
                self.bytes(b)?;
                self.visit = v;
                if self.visit.is_none() {
                    self.finish(run)?;
                }
                Ok(())
            }
            Err(e) => viol("range-error", format!("{:?} for {}", e, self.desc())),
        }
    }
    fn restart(&mut self, _run: &mut Run) -> Res {
        if !self.done {
            self.visit = None;
            self.started = false;
            self.asked.clear();
            self.got.clear();
            self.last.clear();
        }
        Ok(())
    }
    fn bound(&self) -> u64 {
        self.touching.len() as u64 + 1
    }
}

pub fn gen_range(run: &mut Run, dag: &FileDag) -> Range<u64> {
    let s = run.t.begin();
    let size = dag.size();
    // interesting offsets: block boundaries on a random path down
    let mut marks = vec![0, size];
    let mut blk = dag.root;
    let mut at = 0u64;
    while !dag.b[blk].kids.is_empty() {
        let k = run.idx(dag.b[blk].kids.len());
        for j in 0..k {
            at += dag.b[dag.b[blk].kids[j]].size;
        }
        blk = dag.b[blk].kids[k];
        marks.push(at);
        marks.push(at + dag.b[blk].size);
    }
    let off = |run: &mut Run| {
        let m = run.pick(&marks);
        match run.below(6) {
            0 | 1 => m,
            2 => m.saturating_add(run.below(3)),
            3 => m.saturating_sub(run.below(3)),
            4 => {
                let w = run.range(1, 200);
                m.saturating_sub(100).saturating_add(w)
            }
            _ => {
                if size == 0 {
                    0
                } else {
                    run.below(size.saturating_add(2))
                }
            }
        }
    };
    let a = off(run);
    let b = match run.below(8) {
        0 => a,
        1 => a.saturating_add(run.below(4)),
        2 | 3 => off(run),
        4 => a.saturating_add(run.below(300)),
        5 => u64::MAX,
        6 => size.saturating_add(run.below(10)),
        _ => a + 1,
    };
    run.t.end(s);
    // keep the amount read of a huge file bounded
    let b = if dag.huge { b.min(a.saturating_add(700)) } else { b };
    if b < a {
        if run.chance(1, 4) {
            run.count("probe_inverted_range");
            return a..b;
        }
        // order them, bounded again
        return if dag.huge { b..a.min(b.saturating_add(700)) } else { b..a };
    }
    a..b
}

// ---------------------------------------------------------------------------------- walks

pub struct WalkSession {
    pub tree: Rc<TNode>,
    pub root_name: String,
    pub occs: Rc<Vec<WOcc>>,
    walker: Option<Walker>,
    pos: usize,
    pub done: bool,
    pol: CachePol,
    check: Check,
    /// (path, cid, is directory) of everything reported, for U16
    pub seen: Vec<(String, Cid, bool)>,
}

impl WalkSession {
    pub fn new(tree: Rc<TNode>, root_name: &str, pol: CachePol, check: Check) -> Self {
        let occs = Rc::new(walk_occs(&tree, root_name));
        WalkSession { tree, root_name: root_name.into(), occs, walker: None, pos: 0, done: false, pol, check, seen: vec![] }
    }
}

fn path_str(p: &Path) -> String {
    p.to_str().unwrap_or("<not utf-8>").to_string()
}

/// A root name may be written in more ways than one ("a//b", "a/."); paths are equal if their
/// components are.
pub fn same_path(p: &Path, want: &str) -> bool {
    p.to_str() == Some(want) || p.to_str().is_some() && p == Path::new(want)
}

/// Compares one report with the expectation.
pub fn check_report(cw: &ContinuedWalk<'_>, o: &WOcc, check: Check, seen: &mut Vec<(String, Cid, bool)>, ctx: &str) -> Res {
    let kind = match cw {
        ContinuedWalk::Bucket(..) => "Bucket",
        ContinuedWalk::Directory(..) => "Directory",
        ContinuedWalk::RootDirectory(..) => "RootDirectory",
        ContinuedWalk::File(..) => "File",
        ContinuedWalk::Symlink(..) => "Symlink",
    };
    let (cid, path, meta): (&Cid, &Path, Option<&Metadata>) = match cw {
        ContinuedWalk::Bucket(c, p) => (c, p, None),
        ContinuedWalk::Directory(c, p, m) | ContinuedWalk::RootDirectory(c, p, m) => (c, p, Some(m)),
        ContinuedWalk::File(_, c, p, m, _) => (c, p, Some(m)),
        ContinuedWalk::Symlink(_, c, p, m) => (c, p, Some(m)),
    };
    let p = path_str(path);
    if check.report {
        let (want_path, want_cid) = match &o.exp {
            Expect::Dir { path, .. } | Expect::Bucket { path } | Expect::Symlink { path, .. } => (path, o.cid),
            Expect::File { path, root, .. } => (path, *root),
        };
        let ok = matches!(
            (cw, &o.exp),
            (ContinuedWalk::Bucket(..), Expect::Bucket { .. })
                | (ContinuedWalk::Directory(..) | ContinuedWalk::RootDirectory(..), Expect::Dir { .. })
                | (ContinuedWalk::File(..), Expect::File { .. })
                | (ContinuedWalk::Symlink(..), Expect::Symlink { .. })
        );
        ensure!(ok, "walk-kind", "{} at {:?} reported for {:?} {}", kind, p, o.exp, ctx);
        // below the walk's root the name of a sharded directory's report is left open
        let root_dir = matches!(cw, ContinuedWalk::RootDirectory(..));
        if let (Expect::Dir { sharded, .. }, true) = (&o.exp, !root_dir && o.parent.is_none() || root_dir && o.parent.is_some()) {
            ensure!(*sharded && root_dir, "walk-root-kind", "{} at {:?} reported, which is {} {}", kind, p, if o.parent.is_none() { "the root" } else { "not the root" }, ctx);
        }
        ensure!(same_path(path, want_path), "walk-path", "{} reported at {:?} instead of {:?} {}", kind, p, want_path, ctx);
        ensure!(*cid == want_cid, "walk-cid", "{} at {:?} reported with Cid {} instead of {} {}", kind, p, short(cid), short(&want_cid), ctx);
        if let (ContinuedWalk::File(seg, _, _, _, total), Expect::File { first, last, bytes, total: wt, .. }) = (cw, &o.exp) {
            ensure!(lib(|| seg.as_bytes()) == &bytes[..] && lib(|| seg.as_ref()) == &bytes[..], "walk-bytes", "segment of {:?} has {} bytes instead of the {} of its block {}", p, seg.as_bytes().len(), bytes.len(), ctx);
            ensure!(total == wt, "walk-total-size", "{:?} reported with total size {} instead of {} {}", p, total, wt, ctx);
            ensure!((seg.is_first(), seg.is_last()) == (*first, *last), "walk-flags", "{:?} segment flags are first={} last={} instead of {} {} {}", p, seg.is_first(), seg.is_last(), first, last, ctx);
        }
        if let (ContinuedWalk::Symlink(t, ..), Expect::Symlink { target, .. }) = (cw, &o.exp) {
            ensure!(*t == &target[..], "walk-symlink", "symlink {:?} has target {:?} instead of {:?} {}", p, t, target, ctx);
        }
    }
    if check.meta {
        if let Some(m) = meta {
            ensure!(meta_of(m) == o.meta.seen(), "walk-metadata", "{} at {:?} reported with {:?} instead of {:?} {}", kind, p, m, o.meta, ctx);
        }
    }
    match cw {
        ContinuedWalk::Bucket(..) => {}
        ContinuedWalk::File(seg, ..) if !seg.is_first() => {}
        _ => seen.push((p, *cid, matches!(cw, ContinuedWalk::Directory(..) | ContinuedWalk::RootDirectory(..)))),
    }
    Ok(())
}

impl Session for WalkSession {
    fn want(&mut self, _run: &mut Run) -> Res<Option<Vec<Cid>>> {
        if self.done {
            return Ok(None);
        }
        let (root, name) = (self.tree.cid, self.root_name.clone());
        let w = self.walker.get_or_insert_with(|| lib(|| Walker::new(root, name)));
        let more = lib(|| w.should_continue());
        ensure!(
            more == (self.pos < self.occs.len()),
            if more { "walk-continues" } else { "walk-ended-early" },
            "should_continue is {} after {} of {} blocks",
            more,
            self.pos,
            self.occs.len()
        );
        if !more {
            self.done = true;
            return Ok(None);
        }
        let p = lib(|| pend_pair(w.pending_links()));
        let need = self.occs[self.pos].cid;
        ensure!(p[0] == need, "walk-request", "walk wants {} but block #{} in depth-first order is {} ({:?})", short(&p[0]), self.pos, short(&need), self.occs[self.pos].exp);
        if self.check.pending {
            let want: Vec<Cid> = pending_at(&self.occs, self.pos, |o| o.parent).into_iter().map(|j| self.occs[j].cid).collect();
            ensure!(p == want, "walk-pending", "pending links of the walk at block #{} are {} instead of {}", self.pos, cids(&p), cids(&want));
        }
        Ok(Some(p))
    }
    fn feed(&mut self, run: &mut Run, _cid: &Cid, block: &[u8]) -> Res {
        let o = &self.occs[self.pos];
        let w = self.walker.as_mut().expect("started");
        let (check, seen, pos) = (self.check, &mut self.seen, self.pos);
        let r = self.pol.file(run, |c| match lib(|| w.next(block, c)) {
            Ok(cw) => check_report(&cw, o, check, seen, &format!("(block #{})", pos)),
            Err(e) => viol("walk-error", format!("walk of a well-formed tree failed at block #{} ({:?}): {:?}", pos, o.exp, e)),
        });
        r?;
        self.pos += 1;
        Ok(())
    }
    fn restart(&mut self, _run: &mut Run) -> Res {
        if !self.done {
            self.walker = None;
            self.pos = 0;
            self.seen.clear();
        }
        Ok(())
    }
    fn bound(&self) -> u64 {
        self.occs.len() as u64
    }
}

pub fn gen_root_name(run: &mut Run) -> String {
    match run.below(10) {
        0..=2 => "",
        3..=5 => "root",
        6 => "foo/bar",
        7 => "é日/x",
        8 => "a/b/c",
        _ => "..",
    }
    .to_string()
}

/// Any name, also ones of other paths than those relative and normalised.
pub fn gen_any_root(run: &mut Run) -> String {
    if run.chance(4, 5) {
        return gen_root_name(run);
    }
    run.count("probe_root_name_unusual");
    run.pick(&["/", "/tmp/out", ".", "./a", "a/", "a//b", "a/.", "a/../b", "../..", "//a", "/..", "./", " ", "a\\b", "~", "C:"]).to_string()
}

// ---------------------------------------------------------------------------------- lookups

/// What looking for a name has to give.
#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Found(Cid),
    NotFound,
    Multiple,
    /// an error other than that of multiple matches
    Refused,
}

pub enum DirRef {
    Tree(Rc<TNode>),
    /// one which (or one of the buckets of which) is not supported
    Spoiled(Rc<TNode>),
    /// one with a link of this name which has no valid Cid
    Dead(Rc<TNode>, String),
    /// plain dag-pb without UnixFS in it
    DagPb { cid: Cid, links: Vec<(String, Cid)> },
}

impl DirRef {
    pub fn cid(&self) -> Cid {
        match self {
            DirRef::Tree(t) | DirRef::Spoiled(t) | DirRef::Dead(t, _) => t.cid,
            DirRef::DagPb { cid, .. } => *cid,
        }
    }
    pub fn names(&self) -> Vec<(String, Cid)> {
        match self {
            DirRef::Tree(t) | DirRef::Spoiled(t) | DirRef::Dead(t, _) => t.entries().into_iter().map(|(n, t)| (n, t.cid)).collect(),
            DirRef::DagPb { links, .. } => links.clone(),
        }
    }
    pub fn answer(&self, needle: &str) -> Answer {
        let m: Vec<Cid> = self.names().into_iter().filter(|(n, _)| n == needle).map(|x| x.1).collect();
        match m.len() {
            0 => Answer::NotFound,
            1 => Answer::Found(m[0]),
            _ => Answer::Multiple,
        }
    }
    /// All of the permissible answers.
    pub fn answers(&self, needle: &str) -> Vec<Answer> {
        fn good(b: &Bucket, needle: &str, m: &mut Vec<Cid>) {
            if b.bad {
                return;
            }
            for i in &b.items {
                match i {
                    Item::Entry { name, to, .. } if name == needle => m.push(to.cid),
                    Item::Sub { to, .. } => good(to, needle, m),
                    _ => {}
                }
            }
        }
        match self {
            DirRef::Spoiled(t) => {
                let mut m = vec![];
                if let TKind::Hamt(b) = &t.kind {
                    good(b, needle, &mut m);
                }
                match m.len() {
                    0 => vec![Answer::Refused],
                    1 => vec![Answer::Refused, Answer::Found(m[0])],
                    _ => vec![Answer::Refused, Answer::Multiple],
                }
            }
            DirRef::Dead(_, n) if n == needle => vec![Answer::Refused],
            DirRef::Dead(..) => vec![self.answer(needle), Answer::Refused],
            _ => vec![self.answer(needle)],
        }
    }
    fn buckets(&self) -> BTreeMap<Cid, Rc<Bucket>> {
        fn go(b: &Rc<Bucket>, m: &mut BTreeMap<Cid, Rc<Bucket>>) {
            m.insert(b.cid, b.clone());
            for i in &b.items {
                if let Item::Sub { to, .. } = i {
                    go(to, m)
                }
            }
        }
        let mut m = BTreeMap::new();
        if let DirRef::Tree(t) | DirRef::Spoiled(t) | DirRef::Dead(t, _) = self {
            if let TKind::Hamt(b) = &t.kind {
                go(b, &mut m);
            }
        }
        m
    }
}

pub struct LookupSession {
    // declared before the needle it may borrow: dropped first
    lookup: Option<ShardedLookup<'static>>,
    needle: Box<str>,
    pub dir: Rc<DirRef>,
    buckets: BTreeMap<Cid, Rc<Bucket>>,
    pub want_answer: Vec<Answer>,
    started: bool,
    pub done: bool,
    pub answer: Option<Answer>,
    /// known buckets not yet searched
    known: Vec<Cid>,
    own: u64,
    pol: CachePol,
    check: Check,
    pub feeds: u64,
}

impl LookupSession {
    pub fn new(run: &mut Run, dir: Rc<DirRef>, needle: &str, want: Vec<Answer>, pol: CachePol, check: Check) -> Self {
        let buckets = dir.buckets();
        let own = run.pick(&[0u64, 4, 8]);
        LookupSession { lookup: None, needle: needle.into(), dir, buckets, want_answer: want, started: false, done: false, answer: None, known: vec![], own, pol, check, feeds: 0 }
    }
    fn desc(&self) -> String {
        format!("looking for {:?} in {} ({} entries, {} buckets)", self.needle, short(&self.dir.cid()), self.dir.names().len(), self.buckets.len())
    }
    fn learn(&mut self, cid: &Cid) {
        if let Some(b) = self.buckets.get(cid) {
            for i in &b.items {
                if let Item::Sub { to, .. } = i {
                    self.known.push(to.cid);
                }
            }
        }
    }
    fn end(&mut self, a: Answer) -> Res {
        self.done = true;
        self.lookup = None;
        if a == Answer::NotFound {
            ensure!(self.known.is_empty(), "lookup-gave-up", "not found although {} known buckets were not searched, {}", self.known.len(), self.desc());
        }
        ensure!(!self.check.report || self.want_answer.contains(&a), "lookup-answer", "answered {:?} instead of {:?}, {}", a, self.want_answer, self.desc());
        self.answer = Some(a);
        Ok(())
    }
    fn result(&mut self, run: &mut Run, cid: &Cid, block: &[u8], r: Result<MaybeResolved<'static>, unixfs_v1::ResolveError>) -> Res {
        use unixfs_v1::{LookupError, ResolveError};
        self.learn(cid);
        match r {
            Ok(MaybeResolved::Found(c)) => self.end(Answer::Found(c)),
            Ok(MaybeResolved::NotFound) => self.end(Answer::NotFound),
            Ok(MaybeResolved::NeedToLoadMore(l)) => {
                let l = if run.chance(self.own, 8) {
                    run.count("probe_owned_needle");
                    lib(|| l.with_owned_needle())
                } else {
                    l
                };
                self.lookup = Some(l);
                Ok(())
            }
            Err(ResolveError::Lookup(LookupError::Multiple(m))) => {
                if self.check.report {
                    let first = m.into_inner();
                    let ok = self.dir.names().iter().any(|(n, c)| **n == *self.needle && *c == first);
                    ensure!(ok, "lookup-multiple-cid", "first of the multiple matches is {} which is none of them, {}", short(&first), self.desc());
                }
                self.end(Answer::Multiple)
            }
            Err(e) if self.want_answer.contains(&Answer::Refused) => {
                // callers tell a path which goes on below a file from other failures by this
                if let ResolveError::UnexpectedType(t) | ResolveError::Lookup(LookupError::UnexpectedBucketType(t)) = &e {
                    let typ = crate::refpb::dec_node(block).and_then(|(_, d)| d.and_then(|d| crate::refpb::dec_data(&d))).map(|d| d.typ as u32 as u64);
                    run.count("probe_unexpected_type");
                    let is = |f: bool, d: bool| typ.map_or(true, |t| f == (t == T_FILE) && d == (t == T_DIR || t == T_HAMT));
                    let (f, d) = lib(|| (t.is_file(), t.is_directory()));
                    ensure!(is(f, d), "unexpected-type", "the block of type {:?} was refused as {:?}, file {}, directory {}, {}", typ, t, f, d, self.desc());
                }
                self.end(Answer::Refused)
            }
            Err(e) => viol("lookup-error", format!("{:?}, {}", e, self.desc())),
        }
    }
}

impl Session for LookupSession {
    fn want(&mut self, _run: &mut Run) -> Res<Option<Vec<Cid>>> {
        if self.done {
            return Ok(None);
        }
        if !self.started {
            return Ok(Some(vec![self.dir.cid()]));
        }
        let l = self.lookup.as_ref().expect("ongoing");
        let p = lib(|| pend_pair(l.pending_links()));
        ensure!(self.known.contains(&p[0]), "lookup-request", "lookup wants {} which is no known unsearched bucket (requested twice or unknown), {}", short(&p[0]), self.desc());
        if self.check.pending {
            let (mut a, mut b) = (p.clone(), self.known.clone());
            a.sort();
            b.sort();
            ensure!(a == b, "lookup-pending", "pending links {} are not the known unsearched buckets {}, {}", cids(&p), cids(&self.known), self.desc());
        }
        Ok(Some(p))
    }
    fn feed(&mut self, run: &mut Run, cid: &Cid, block: &[u8]) -> Res {
        self.feeds += 1;
        if !self.started {
            self.started = true;
            // the needle's box neither moves nor changes for as long as the lookup lives
            let needle: &'static str = unsafe { &*(&*self.needle as *const str) };
            let r = self.pol.dir(run, |c| lib(|| resolve(block, needle, c)));
            return self.result(run, cid, block, r);
        }
        let i = self.known.iter().position(|c| c == cid).expect("checked by want");
        self.known.remove(i);
        let l = self.lookup.take().expect("ongoing");
        let r = self.pol.dir(run, |c| lib(|| l.continue_walk(block, c)));
        self.result(run, cid, block, r.map_err(|e| lib(|| e.into_resolve_error())))
    }
    fn restart(&mut self, _run: &mut Run) -> Res {
        if !self.done {
            self.lookup = None;
            self.started = false;
            self.known.clear();
        }
        Ok(())
    }
    fn bound(&self) -> u64 {
        self.buckets.len() as u64 + 1
    }
}

/// Names which exist, nearly exist and do not exist.
pub fn gen_needle(run: &mut Run, names: &[(String, Cid)]) -> String {
    let s = run.t.begin();
    let r = if !names.is_empty() && run.chance(5, 8) {
        let i = run.idx(names.len());
        names[i].0.clone()
    } else {
        let base = if names.is_empty() { "a".to_string() } else { names[run.idx(names.len())].0.clone() };
        match run.below(12) {
            9 => run.pick(&[format!("{}/", base), format!("/{}", base), format!("./{}", base), format!("{} ", base), format!("{}\0", base)]),
            10 => base.trim_matches('/').to_string(),
            11 => gen_text(run, true),
            0 => format!("{}x", base),
            1 => format!("00{}", base),
            2 => base.chars().skip(1).collect(),
            3 => {
                let mut b = base;
                b.pop();
                b
            }
            4 => base.to_uppercase(),
            5 => String::new(),
            6 => run.pick(&["00", "FF", "é", "e\u{301}", "a", "nope", "..", "/", "00a"]).to_string(),
            7 => base.chars().skip(2).collect(),
            _ => {
                let used = BTreeSet::new();
                gen_name(run, &used)
            }
        }
    };
    run.t.end(s);
    r
}

// ---------------------------------------------------------------------------------- U06

fn n_sessions(run: &mut Run) -> usize {
    match run.below(4) {
        0 => 1,
        1 | 2 => run.urange(1, 3),
        _ => run.urange(2, 6),
    }
}

fn file_node(f: &Rc<FileDag>) -> Rc<TNode> {
    let n = f.occs().len();
    Rc::new(TNode { cid: f.root().cid, block: f.root().block.clone(), tsize: f.root().tsize, meta: f.meta.clone(), kind: TKind::File(f.clone()), nocc: n })
}

fn wrap_up(run: &mut Run, what: &str, st: &Stats) {
    run.weight += st.feeds.min(3);
    run.summary = format!("{}; {} feeds, {} network events", what, st.feeds, st.events);
}

fn u06(run: &mut Run) -> Res {
    let mut store = Blocks::default();
    let max = if run.thorough { run.pick(&[12usize, 40, 150]) } else { run.pick(&[8usize, 20, 50]) };
    let nf = run.urange(1, 3);
    let files: Vec<Rc<FileDag>> = (0..nf).map(|_| Rc::new(gen_file(run, max, false))).collect();
    for f in &files {
        f.store(&mut store);
        ev!(run, "file {} style={} blocks={} size={} meta={:?}", short(&f.root().cid), f.style, f.b.len(), f.size(), f.meta);
        run.count(match f.style {
            "single" => "probe_style_single",
            "balanced" => "probe_style_balanced",
            "trickle" => "probe_style_trickle",
            "uneven" => "probe_style_uneven",
            "chain" => "probe_style_chain",
            _ => "probe_style_wide",
        });
    }
    let pool = Pool::new(2);
    let mut sessions: Vec<Box<dyn Session + '_>> = vec![];
    for _ in 0..n_sessions(run) {
        let f = run.pick(&files);
        let pol = CachePol::gen(run, &pool);
        if run.chance(1, 4) {
            sessions.push(Box::new(WalkSession::new(file_node(&f), "f", pol, REPORT)));
        } else {
            sessions.push(Box::new(VisitSession::new(f, pol, REPORT)));
        }
    }
    let cfg = gen_net(run);
    let k = sessions.len();
    let st = exchange(run, &cfg, &store, &mut sessions)?;
    wrap_up(run, &format!("{} sessions over {} files", k, nf), &st);
    Ok(())
}

const STUB: &[&str] = &["network (delay, loss, duplication, reordering, corruption, partitions, timeouts)", "peers' block stores", "node crash and cancellation", "tree generator with its own encoder (input and oracle)"];

pub const U06: Prop = Prop {
    id: "U06",
    run: u06,
    quick: 375_000,
    thorough: 6_250_000,
    rule: "Every run makes 1-3 well-formed files of seeded shape and 1-6 interleaved whole-file visits and walks of them on a node fetching over a faulty network; all requests, bytes, sizes and metadata are checked as they are returned.",
    min_weight: 4,
    real: &["unixfs_v1::file::visit", "unixfs_v1::file::reader", "unixfs_v1::walk", "unixfs_v1::pb"],
    stub: STUB,
    assumptions: &["blocks handed to the library are verified against their Cid (corruption is detected)"],
};

// ---------------------------------------------------------------------------------- U07

fn u07(run: &mut Run) -> Res {
    let mut store = Blocks::default();
    let max = if run.thorough { run.pick(&[12usize, 40, 150]) } else { run.pick(&[8usize, 20, 50]) };
    let nf = run.urange(1, 2);
    let mut files: Vec<Rc<FileDag>> = vec![];
    for _ in 0..nf {
        let huge = run.chance(1, 3);
        files.push(Rc::new(gen_file(run, max, huge)));
    }
    for f in &files {
        f.store(&mut store);
        ev!(run, "file {} style={} blocks={} size={}", short(&f.root().cid), f.style, f.b.len(), f.size());
    }
    let pool = Pool::new(2);
    let mut sessions: Vec<Box<dyn Session + '_>> = vec![];
    for _ in 0..n_sessions(run) + 1 {
        let f = run.pick(&files);
        let r = gen_range(run, &f);
        let pol = CachePol::gen(run, &pool);
        ev!(run, "range {:?} of {}", r, short(&f.root().cid));
        if r.start >= r.end {
            run.count("probe_empty_range");
        } else if r.start >= f.size() {
            run.count("probe_range_beyond_end");
        } else if r.end > f.size() {
            run.count("probe_range_over_end");
        } else {
            run.count("probe_range_inside");
        }
        if r.start > u32::MAX as u64 && r.start < f.size() {
            run.count("probe_range_past_4gib");
        }
        sessions.push(Box::new(RangeSession::new(f, r, pol, Check { report: false, meta: true, pending: false })));
    }
    let cfg = gen_net(run);
    let k = sessions.len();
    let st = exchange(run, &cfg, &store, &mut sessions)?;
    wrap_up(run, &format!("{} range visits", k), &st);
    Ok(())
}

pub const U07: Prop = Prop {
    id: "U07",
    run: u07,
    quick: 270_000,
    thorough: 4_500_000,
    rule: "Every run makes 1-2 well-formed files (a third of them of 1 GiB to 1 EiB through shared subtrees) and 2-7 interleaved range visits with ends biased to block boundaries, over a faulty network.",
    min_weight: 4,
    real: &["unixfs_v1::file::visit", "unixfs_v1::file::reader", "unixfs_v1::pb"],
    stub: STUB,
    assumptions: &["blocks handed to the library are verified against their Cid", "file sizes below 2^61"],
};

// ---------------------------------------------------------------------------------- U10 / U11

fn walk_world(run: &mut Run, check: Check, others: bool) -> Res {
    let mut store = Blocks::default();
    let budget = if run.thorough { run.pick(&[4usize, 14, 40, 90]) } else { run.pick(&[3usize, 10, 30]) };
    let nt = run.urange(1, 2);
    let dups = run.chance(1, 6);
    let trees: Vec<Rc<TNode>> = (0..nt).map(|_| gen_tree(run, &mut store, budget, dups)).collect();
    let pool = Pool::new(2);
    let mut sessions: Vec<Box<dyn Session + '_>> = vec![];
    let mut files: Vec<Rc<FileDag>> = vec![];
    let mut dirs: Vec<Rc<TNode>> = vec![];
    for t in &trees {
        ev!(run, "tree {} with {} occurrences", short(&t.cid), t.nocc);
        collect(t, &mut files, &mut dirs, 40);
    }
    for _ in 0..n_sessions(run) {
        let pol = CachePol::gen(run, &pool);
        let k = if others { run.below(8) } else { 0 };
        match k {
            5 if !files.is_empty() => {
                let f = run.pick(&files);
                sessions.push(Box::new(VisitSession::new(f, pol, check)));
            }
            6 if !files.is_empty() => {
                let f = run.pick(&files);
                let r = gen_range(run, &f);
                sessions.push(Box::new(RangeSession::new(f, r, pol, check)));
            }
            7 if !dirs.is_empty() && !dups => {
                let d = run.pick(&dirs);
                let dir = Rc::new(DirRef::Tree(d));
                let n = gen_needle(run, &dir.names());
                let a = dir.answer(&n);
                sessions.push(Box::new(LookupSession::new(run, dir, &n, vec![a], pol, check)));
            }
            _ => {
                let t = run.pick(&trees);
                let name = gen_any_root(run);
                sessions.push(Box::new(WalkSession::new(t, &name, pol, check)));
            }
        }
    }
    let mut cfg = gen_net(run);
    if check.pending && run.flip() {
        cfg.prefetch = 8;
    }
    let k = sessions.len();
    let st = exchange(run, &cfg, &store, &mut sessions)?;
    wrap_up(run, &format!("{} sessions over trees of {:?} occurrences", k, trees.iter().map(|t| t.nocc).collect::<Vec<_>>()), &st);
    Ok(())
}

/// files and directories of a tree, bounded
pub fn collect(t: &Rc<TNode>, files: &mut Vec<Rc<FileDag>>, dirs: &mut Vec<Rc<TNode>>, max: usize) {
    if files.len() + dirs.len() > max {
        return;
    }
    match &t.kind {
        TKind::File(f) => files.push(f.clone()),
        TKind::Symlink(_) => {}
        _ => {
            dirs.push(t.clone());
            for (_, c) in t.entries() {
                collect(&c, files, dirs, max);
            }
        }
    }
}

fn u10(run: &mut Run) -> Res {
    walk_world(run, REPORT, false)
}
fn u11(run: &mut Run) -> Res {
    walk_world(run, PENDING, true)
}

pub const U10: Prop = Prop {
    id: "U10",
    run: u10,
    quick: 150_000,
    thorough: 2_500_000,
    rule: "Every run makes 1-2 trees of nested plain and sharded directories, files and symlinks and walks them 1-6 times, interleaved, over a faulty network; every report and every request is compared with the depth-first expectation.",
    min_weight: 4,
    real: &["unixfs_v1::walk", "unixfs_v1::file::visit", "unixfs_v1::dir (support checks)", "unixfs_v1::pb"],
    stub: STUB,
    assumptions: &["entry names are non-empty, not '.', and have no slash", "HAMT fanout 256 and hash type murmur3 (the supported ones)"],
};
pub const U11: Prop = Prop {
    id: "U11",
    run: u11,
    quick: 150_000,
    thorough: 2_500_000,
    rule: "Every run interleaves walks, whole and range visits and sharded lookups over a faulty network which also prefetches seeded subsets of the pending links in seeded order; after every step the complete pending list is compared with the set of blocks known to be still required.",
    min_weight: 4,
    real: &["unixfs_v1::walk", "unixfs_v1::file::visit", "unixfs_v1::dir::sharded_lookup", "unixfs_v1::pb"],
    stub: STUB,
    assumptions: &["a lookup may search known buckets in any order"],
};

// ---------------------------------------------------------------------------------- U14

/// Directories of every kind to look names up in.
/// Lookups compare names, whatever they are; unlike walks, they do not need them to be components
/// of paths.
fn gen_entry_name(run: &mut Run, used: &BTreeSet<String>) -> String {
    if !run.chance(1, 12) {
        return gen_name(run, used);
    }
    let s = run.t.begin();
    let mut n = match run.below(4) {
        0 => run.pick(&["/", ".", "a/", "/a", "a/b", "//", "./", "a//", "..", "../", "0A/", "/0A"]).to_string(),
        1 if !used.is_empty() => {
            let v: Vec<&String> = used.iter().collect();
            let b = v[run.idx(v.len())].clone();
            if run.flip() {
                format!("{}/", b)
            } else {
                format!("/{}", b)
            }
        }
        _ => gen_text(run, true),
    };
    while n.is_empty() || used.contains(&n) {
        n.push(run.pick(&['/', 'x', '.']));
    }
    run.count("probe_name_no_path_component");
    run.t.end(s);
    n
}

pub fn gen_dir(run: &mut Run, store: &mut Blocks, dups: bool) -> DirRef {
    let s = run.t.begin();
    let r = if run.chance(1, 8) {
        run.count("probe_plain_dagpb");
        let n = run.skewed(12);
        let mut used = BTreeSet::new();
        let mut links = vec![];
        for i in 0..n {
            let name = if dups && !used.is_empty() && run.chance(1, 4) {
                let v: Vec<String> = used.iter().cloned().collect();
                run.pick(&v)
            } else {
                gen_entry_name(run, &used)
            };
            used.insert(name.clone());
            links.push((name, cid_v1(&[i as u8])));
        }
        let l: Vec<RLink> = links.iter().map(|(n, c)| RLink { hash: Some(c.to_bytes()), name: Some(n.as_bytes().to_vec()), tsize: Some(3) }).collect();
        let data: Option<&[u8]> = match run.below(3) {
            0 => None,
            1 => Some(&[]),
            // no UnixFS message
            _ => Some(&[0xff, 0xff, 0xff]),
        };
        let b = Rc::new(enc_node(&l, data));
        let cid = cid_v1(&b);
        store.add(cid, &b);
        DirRef::DagPb { cid, links }
    } else {
        let mut g = TreeGen::new(run, store, 0);
        g.p_hamt = 0;
        // a few cheap targets shared by all of the names
        let mut targets = vec![];
        for _ in 0..3 {
            targets.push(g.symlink(run));
        }
        let n = if run.chance(1, 40) {
            run.count("probe_wide_dir");
            if run.chance(1, 20) {
                run.count("probe_directory_of_thousands_of_links");
                if run.vast && run.chance(1, 20) {
                    run.count("probe_more_than_65536");
                    run.urange(65_600, 70_000)
                } else {
                    run.urange(1_000, 4_000)
                }
            } else {
                run.urange(100, 300)
            }
        } else {
            run.skewed(if run.thorough { 120 } else { 40 })
        };
        let mut used = BTreeSet::new();
        let mut entries = vec![];
        for i in 0..n {
            let name = gen_entry_name(run, &used);
            used.insert(name.clone());
            let to = if run.chance(1, 4) {
                targets[run.idx(targets.len())].clone()
            } else {
                // a distinct target for each name, never fetched
                let b = Rc::new(vec![i as u8, 1, (i >> 8) as u8]);
                Rc::new(TNode { cid: cid_codec(0x55, &b), block: b, tsize: 3, meta: RMeta::default(), kind: TKind::Symlink(vec![]), nocc: 1 })
            };
            entries.push((name, to));
        }
        // one level of buckets has room for so many
        let hamt = entries.len() < 30_000 && run.chance(5, 8);
        // duplicates sit within one block
        if dups && !entries.is_empty() && run.chance(1, 3) {
            let i = run.idx(entries.len());
            let e = entries[i].clone();
            let same = run.flip();
            let other = if same { e.1.clone() } else { targets[0].clone() };
            run.count("probe_duplicate_name");
            if hamt && run.flip() {
                g.twin = Some(other);
            } else if hamt {
                // single bucket, so that the duplicates share it
                entries.swap(0, i);
                entries.truncate(240);
                entries.push((e.0, other));
                let mut nb = 0;
                let mut entries2 = vec![];
                std::mem::swap(&mut entries2, &mut entries);
                let b = g.bucket_flat(run, entries2, &mut nb);
                run.t.end(s);
                return DirRef::Tree(b);
            } else {
                entries.insert(run.idx(entries.len() + 1), (e.0, other));
            }
        }
        if dups && !entries.is_empty() && g.twin.is_none() && run.chance(1, 8) {
            let n = entries[run.idx(entries.len())].0.clone();
            if entries.iter().filter(|e| e.0 == n).count() == 1 {
                run.count("probe_link_without_cid");
                g.dead = Some(n.clone());
                let t = if hamt { g.hamt(run, entries) } else { g.plain(run, entries) };
                run.t.end(s);
                return DirRef::Dead(t, n);
            }
        }
        g.spoil = dups && run.chance(1, 8);
        let spoil = g.spoil;
        let t = if hamt { g.hamt(run, entries) } else { g.plain(run, entries) };
        if spoil && !(hamt && g.spoil) {
            DirRef::Spoiled(t)
        } else {
            DirRef::Tree(t)
        }
    };
    run.t.end(s);
    r
}

fn u14(run: &mut Run) -> Res {
    run.vast = true;
    let mut store = Blocks::default();
    let nd = run.urange(1, 2);
    let dirs: Vec<Rc<DirRef>> = (0..nd).map(|_| Rc::new(gen_dir(run, &mut store, true))).collect();
    let pool = Pool::new(2);
    let mut sessions: Vec<Box<dyn Session + '_>> = vec![];
    for _ in 0..n_sessions(run) + 2 {
        let d = run.pick(&dirs);
        let names = d.names();
        let needle = gen_needle(run, &names);
        let a = d.answers(&needle);
        ev!(run, "look for {:?} in {} ({} entries): {:?}", needle, short(&d.cid()), names.len(), a);
        run.count(match &a[0] {
            Answer::Found(_) => "probe_found",
            Answer::NotFound => "probe_not_found",
            Answer::Multiple => "probe_multiple",
            Answer::Refused => "probe_refused",
        });
        let pol = CachePol::gen(run, &pool);
        sessions.push(Box::new(LookupSession::new(run, d, &needle, a, pol, REPORT)));
    }
    let cfg = gen_net(run);
    let k = sessions.len();
    let st = exchange(run, &cfg, &store, &mut sessions)?;
    wrap_up(run, &format!("{} lookups in {} directories", k, nd), &st);
    Ok(())
}

pub const U14: Prop = Prop {
    id: "U14",
    run: u14,
    quick: 450_000,
    thorough: 7_500_000,
    rule: "Every run makes 1-2 directories (plain, sharded with nested and empty buckets, dag-pb without UnixFS, or with a block of an unsupported kind or with unsupported properties) with adversarially similar and repeated names and interleaves 3-8 lookups of present, absent and nearly present names over a faulty network.",
    min_weight: 4,
    real: &["unixfs_v1::dir::resolve", "unixfs_v1::dir::ShardedLookup", "unixfs_v1::pb"],
    stub: STUB,
    assumptions: &["HAMT fanout 256 and hash type murmur3; placement of names in buckets is not required to follow the hash"],
};

// ---------------------------------------------------------------------------------- U16

fn u16_(run: &mut Run) -> Res {
    let mut store = Blocks::default();
    let budget = if run.thorough { run.pick(&[4usize, 14, 40]) } else { run.pick(&[4usize, 10, 24]) };
    let tree = gen_tree(run, &mut store, budget, false);
    let pool = Pool::new(2);
    let root_name = gen_root_name(run);
    let mut ws = WalkSession::new(tree.clone(), &root_name, CachePol::gen(run, &pool), Check::default());
    // any report counts here, even a wrong one: the walk is compared with resolving
    ws.check = Check::default();
    let cfg = gen_net(run);
    let st = {
        let w: &mut WalkSession = &mut ws;
        let mut s: Vec<Box<dyn Session + '_>> = vec![Box::new(ByRef(w))];
        exchange(run, &cfg, &store, &mut s)?
    };
    // what the walk says: directory path -> (cid, entries)
    let mut reported: BTreeMap<String, (Cid, Vec<(String, Cid)>)> = BTreeMap::new();
    for (p, c, d) in &ws.seen {
        if *d {
            reported.entry(p.clone()).or_insert((*c, vec![]));
        }
    }
    for (p, c, _) in &ws.seen {
        if *p == root_name {
            continue;
        }
        let parent = match Path::new(p).parent() {
            Some(x) => path_str(x),
            None => return viol("walk-orphan", format!("{:?} was reported but is below nothing", p)),
        };
        let name = match Path::new(p).file_name() {
            Some(n) => n.to_str().unwrap_or("").to_string(),
            // the ".." entries have no file name in std's eyes
            None => p.rsplit('/').next().unwrap_or("").to_string(),
        };
        match reported.get_mut(&parent) {
            Some(e) => e.1.push((name, *c)),
            None => return viol("walk-orphan", format!("{:?} was reported but no directory {:?} was", p, parent)),
        }
    }
    // resolve each reported entry, and names the walk did not report, from the directory's block
    let mut sessions: Vec<Box<dyn Session + '_>> = vec![];
    let dirs: Vec<(&String, &(Cid, Vec<(String, Cid)>))> = reported.iter().collect();
    let mut bycid: BTreeMap<Cid, Rc<TNode>> = BTreeMap::new();
    let (mut f, mut d) = (vec![], vec![]);
    collect(&tree, &mut f, &mut d, 2000);
    for n in d {
        bycid.insert(n.cid, n);
    }
    let mut planned = 0;
    for (p, (cid, entries)) in &dirs {
        let node = match bycid.get(cid) {
            Some(n) => n.clone(),
            None => return viol("walk-unknown-directory", format!("directory {:?} was reported with Cid {} which is no directory of the tree", p, short(cid))),
        };
        let dir = Rc::new(DirRef::Tree(node));
        for (n, c) in entries {
            planned += 1;
            if planned > 60 {
                break;
            }
            let pol = CachePol::gen(run, &pool);
            run.count("resolved_reported_entries");
            sessions.push(Box::new(LookupSession::new(run, dir.clone(), n, vec![Answer::Found(*c)], pol, REPORT)));
        }
        for _ in 0..run.below(3) {
            let n = gen_needle(run, entries);
            if entries.iter().any(|e| e.0 == n) {
                continue;
            }
            let pol = CachePol::gen(run, &pool);
            run.count("resolved_unreported_names");
            sessions.push(Box::new(LookupSession::new(run, dir.clone(), &n, vec![Answer::NotFound], pol, REPORT)));
        }
    }
    // whole paths from the root, one component after the other
    for _ in 0..run.below(4) {
        let under: Vec<&(String, Cid, bool)> = ws.seen.iter().filter(|s| s.0 != root_name).collect();
        if under.is_empty() {
            break;
        }
        let (p, c, _) = under[run.idx(under.len())].clone();
        let rel = if root_name.is_empty() { &p[..] } else { &p[root_name.len() + 1..] };
        run.count("resolved_paths");
        sessions.push(Box::new(PathSession::new(tree.cid, rel, c, CachePol::gen(run, &pool))));
    }
    let cfg = gen_net(run);
    let n = sessions.len();
    let st2 = exchange(run, &cfg, &store, &mut sessions)?;
    run.weight += st2.feeds.min(2);
    wrap_up(run, &format!("walk of {} reports, then {} resolutions ({} feeds)", ws.seen.len(), n, st2.feeds), &st);
    Ok(())
}

pub struct ByRef<'a, S: Session>(pub &'a mut S);
impl<'a, S: Session> Session for ByRef<'a, S> {
    fn want(&mut self, run: &mut Run) -> Res<Option<Vec<Cid>>> {
        self.0.want(run)
    }
    fn feed(&mut self, run: &mut Run, cid: &Cid, block: &[u8]) -> Res {
        self.0.feed(run, cid, block)
    }
    fn restart(&mut self, run: &mut Run) -> Res {
        self.0.restart(run)
    }
    fn bound(&self) -> u64 {
        self.0.bound()
    }
}

/// Resolves a path from a root Cid, one component after the other.
pub struct PathSession {
    lookup: Option<ShardedLookup<'static>>,
    parts: Vec<Box<str>>,
    root: Cid,
    want_cid: Cid,
    pos: usize,
    at: Cid,
    pub done: bool,
    pol: CachePol,
}
impl PathSession {
    pub fn new(root: Cid, rel: &str, want_cid: Cid, pol: CachePol) -> Self {
        PathSession { lookup: None, parts: rel.split('/').map(|s| s.into()).collect(), root, want_cid, pos: 0, at: root, done: false, pol }
    }
    fn desc(&self) -> String {
        format!("component #{} of {:?} from {}", self.pos, self.parts, short(&self.root))
    }
}
impl Session for PathSession {
    fn want(&mut self, _run: &mut Run) -> Res<Option<Vec<Cid>>> {
        if self.done {
            return Ok(None);
        }
        Ok(Some(match &self.lookup {
            Some(l) => lib(|| pend_pair(l.pending_links())),
            None => vec![self.at],
        }))
    }
    fn feed(&mut self, run: &mut Run, _cid: &Cid, block: &[u8]) -> Res {
        let r = match self.lookup.take() {
            Some(l) => self.pol.dir(run, |c| lib(|| l.continue_walk(block, c))).map_err(|e| e.into_resolve_error()),
            None => {
                let needle: &'static str = unsafe { &*(&*self.parts[self.pos] as *const str) };
                self.pol.dir(run, |c| lib(|| resolve(block, needle, c)))
            }
        };
        match r {
            Ok(MaybeResolved::Found(c)) => {
                self.at = c;
                self.pos += 1;
                if self.pos == self.parts.len() {
                    ensure!(c == self.want_cid, "path-resolves-elsewhere", "{} leads to {} but the walk reported {}", self.desc(), short(&c), short(&self.want_cid));
                    self.done = true;
                }
                Ok(())
            }
            Ok(MaybeResolved::NotFound) => viol("path-not-found", format!("{} was not found but the walk reported it", self.desc())),
            Ok(MaybeResolved::NeedToLoadMore(l)) => {
                self.lookup = Some(if run.flip() { lib(|| l.with_owned_needle()) } else { l });
                Ok(())
            }
            Err(e) => viol("path-error", format!("{}: {:?}", self.desc(), e)),
        }
    }
    fn restart(&mut self, _run: &mut Run) -> Res {
        if !self.done {
            self.lookup = None;
            self.pos = 0;
            self.at = self.root;
        }
        Ok(())
    }
    fn bound(&self) -> u64 {
        // every component may need all of a directory's buckets
        self.parts.len() as u64 * 40
    }
}

pub const U16: Prop = Prop {
    id: "U16",
    run: u16_,
    quick: 225_000,
    thorough: 3_750_000,
    rule: "Every run walks a seeded tree over a faulty network, then resolves every reported entry from its directory's block, names the walk did not report, and whole paths from the root, interleaved and over another faulty network.",
    min_weight: 4,
    real: &["unixfs_v1::walk", "unixfs_v1::dir::resolve", "unixfs_v1::dir::ShardedLookup"],
    stub: STUB,
    assumptions: &["names are unique within a directory"],
};

// ---------------------------------------------------------------------------------- U13

/// A traversal whose complete observable behaviour is a list of lines. `supply` decides which bytes
/// it is given at which step, so that it can be repeated without a cache.
pub enum Trav {
    Walk(Walker),
    VisitStart(Option<Range<u64>>),
    Visit(FileVisit),
    Resolve(Box<str>, bool),
    Lookup(ShardedLookup<'static>, bool),
    End,
}

pub struct Plan {
    pub root: Cid,
    pub kind: u8,
    pub range: Option<Range<u64>>,
    pub needle: Box<str>,
    pub own: bool,
    /// at this step other bytes are supplied
    pub bad_at: Option<(usize, Rc<Vec<u8>>)>,
    /// dropped at this step
    pub cancel_at: Option<usize>,
}

impl Plan {
    pub fn start(&self) -> Trav {
        match self.kind {
            0 => Trav::Walk(lib(|| Walker::new(self.root, "r".into()))),
            1 => Trav::VisitStart(self.range.clone()),
            _ => Trav::Resolve(self.needle.clone(), self.own),
        }
    }
}

pub fn trav_need(t: &Trav, p: &Plan) -> (Option<Cid>, String) {
    match t {
        Trav::Walk(w) => {
            if lib(|| w.should_continue()) {
                let l = lib(|| pend_pair(w.pending_links()));
                (Some(l[0]), format!("{}", cids_full(&l)))
            } else {
                (None, "end".into())
            }
        }
        Trav::VisitStart(_) | Trav::Resolve(..) => (Some(p.root), "root".into()),
        Trav::Visit(v) => {
            let l = lib(|| pend_pair(v.pending_links()));
            (Some(l[0]), format!("{} size={}", cids_full(&l), lib(|| v.file_size())))
        }
        Trav::Lookup(l, _) => {
            let l = lib(|| pend_pair(l.pending_links()));
            (Some(l[0]), cids_full(&l))
        }
        Trav::End => (None, "end".into()),
    }
}

fn cids_full(v: &[Cid]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for c in v {
        h = (h ^ (u64::from(c.version()) << 60) ^ (c.codec() << 20) ^ c.hash().code()).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        for w in c.hash().digest().chunks(8) {
            let mut x = [w.len() as u8; 8];
            x[..w.len()].copy_from_slice(w);
            h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        }
    }
    format!("next={} +{} #{:016x}", short(&v[0]), v.len() - 1, h)
}
pub fn bytes_sig(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{}b#{:08x}", b.len(), h as u32)
}

pub fn show(cw: &ContinuedWalk<'_>) -> String {
    match cw {
        ContinuedWalk::Bucket(c, p) => format!("bucket {} {:?}", short(c), p),
        ContinuedWalk::Directory(c, p, m) => format!("dir {} {:?} {:?}", short(c), p, m),
        ContinuedWalk::RootDirectory(c, p, m) => format!("rootdir {} {:?} {:?}", short(c), p, m),
        ContinuedWalk::File(s, c, p, m, sz) => format!("file {} {:?} {:?} {} {} {} {}", short(c), p, m, sz, s.is_first(), s.is_last(), bytes_sig(s.as_bytes())),
        ContinuedWalk::Symlink(t, c, p, m) => format!("symlink {} {:?} {:?} {:?}", short(c), p, m, t),
    }
}

/// One step; the line describes everything observable.
pub fn trav_step(t: Trav, block: &[u8], fc: &mut FCache, dc: &mut DCache) -> (Trav, String) {
    match t {
        Trav::Walk(mut w) => {
            let line = match lib(|| w.next(block, fc)) {
                Ok(cw) => show(&cw),
                Err(e) => {
                    let l = format!("error {:?}", e);
                    return (Trav::End, l);
                }
            };
            (Trav::Walk(w), line)
        }
        Trav::VisitStart(r) => {
            let mut i = IdleFileVisit::default();
            if let Some(r) = r {
                i = i.with_target_range(r);
            }
            match lib(|| i.start(block)) {
                Ok((b, sz, m, v)) => {
                    let l = format!("visit {} size={} {:?}", bytes_sig(b), sz, m);
                    (v.map_or(Trav::End, Trav::Visit), l)
                }
                Err(e) => (Trav::End, format!("error {:?}", e)),
            }
        }
        Trav::Visit(v) => match lib(|| v.continue_walk(block, fc)) {
            Ok((b, v)) => (v.map_or(Trav::End, Trav::Visit), format!("visit {}", bytes_sig(b))),
            Err(e) => (Trav::End, format!("error {:?}", e)),
        },
        Trav::Resolve(n, own) => match lib(|| resolve(block, &n, dc)) {
            Ok(MaybeResolved::Found(c)) => (Trav::End, format!("found {}", c)),
            Ok(MaybeResolved::NotFound) => (Trav::End, "not found".into()),
            Ok(MaybeResolved::NeedToLoadMore(l)) => {
                let l = lib(|| l.with_owned_needle());
                (Trav::Lookup(l, own), "more".into())
            }
            Err(e) => (Trav::End, format!("error {:?}", e)),
        },
        Trav::Lookup(l, own) => match lib(|| l.continue_walk(block, dc)) {
            Ok(MaybeResolved::Found(c)) => (Trav::End, format!("found {}", c)),
            Ok(MaybeResolved::NotFound) => (Trav::End, "not found".into()),
            Ok(MaybeResolved::NeedToLoadMore(l)) => (Trav::Lookup(l, own), "more".into()),
            Err(e) => (Trav::End, format!("error {:?}", e)),
        },
        Trav::End => (Trav::End, "end".into()),
    }
}

/// The history of a traversal on its own and without any cache.
pub fn solo(p: &Plan, store: &Blocks) -> Vec<String> {
    let mut out = vec![];
    let mut t = p.start();
    let mut step = 0;
    loop {
        let (need, line) = trav_need(&t, p);
        out.push(line);
        let c = match need {
            Some(c) => c,
            None => return out,
        };
        if p.cancel_at == Some(step) || step > 3000 {
            return out;
        }
        let b = match &p.bad_at {
            Some((s, b)) if *s == step => b.clone(),
            _ => match store.get(&c) {
                Some(b) => b.clone(),
                None => {
                    out.push("block not available".into());
                    return out;
                }
            },
        };
        let (t2, line) = trav_step(t, &b, &mut None, &mut None);
        t = t2;
        out.push(line);
        step += 1;
    }
}

/// Seeded damage of a block.
pub fn damage(run: &mut Run, b: &[u8], store: &Blocks) -> Vec<u8> {
    let s = run.t.begin();
    let r = match run.below(6) {
        0 => vec![],
        1 => {
            let all: Vec<&Bytes> = store.0.values().collect();
            (**all[run.idx(all.len())]).clone()
        }
        2 => {
            let mut v = b.to_vec();
            if !v.is_empty() {
                let n = run.idx(v.len());
                v.truncate(n);
            }
            v
        }
        3 => {
            let n = run.urange(1, 40);
            content_bytes(run.below(1 << 30) + 1, n)
        }
        _ => {
            let mut v = b.to_vec();
            for _ in 0..run.urange(1, 3) {
                if !v.is_empty() {
                    let i = run.idx(v.len());
                    v[i] ^= 1 << run.below(8);
                }
            }
            v
        }
    };
    run.t.end(s);
    r
}

fn u13(run: &mut Run) -> Res {
    let mut store = Blocks::default();
    let budget = run.pick(&[4usize, 10, 24]);
    let tree = gen_tree(run, &mut store, budget, false);
    let tree2 = gen_tree(run, &mut store, 6, false);
    let f = gen_file(run, 12, false);
    f.store(&mut store);
    let d = gen_dir(run, &mut store, true);
    let (mut files, mut dirs) = (vec![], vec![]);
    collect(&tree, &mut files, &mut dirs, 30);
    collect(&tree2, &mut files, &mut dirs, 60);
    files.push(Rc::new(f));
    let mut dirs: Vec<Rc<DirRef>> = dirs.into_iter().map(|d| Rc::new(DirRef::Tree(d))).collect();
    dirs.push(Rc::new(d));
    let pool = Pool::new(run.urange(1, 2));
    let n = run.urange(2, 7);
    let mut plans = vec![];
    for _ in 0..n {
        let s = run.t.begin();
        let kind = run.below(3) as u8;
        let mut p = Plan { root: tree.cid, kind, range: None, needle: "".into(), own: run.flip(), bad_at: None, cancel_at: None };
        match kind {
            0 => p.root = if run.chance(1, 3) { tree2.cid } else { tree.cid },
            1 => {
                let f = run.pick(&files);
                p.root = f.root().cid;
                if run.flip() {
                    p.range = Some(gen_range(run, &f));
                }
            }
            _ => {
                let d = if run.flip() { dirs.last().unwrap().clone() } else { run.pick(&dirs) };
                p.root = d.cid();
                p.needle = gen_needle(run, &d.names()).into();
            }
        }
        match run.below(5) {
            0 => {
                let base = store.get(&p.root).cloned().unwrap_or_default();
                let b = damage(run, &base, &store);
                p.bad_at = Some((run.skewed(20), Rc::new(b)));
            }
            1 => p.cancel_at = Some(run.skewed(20)),
            _ => {}
        }
        plans.push(p);
        run.t.end(s);
    }
    let solos: Vec<Vec<String>> = plans.iter().map(|p| solo(p, &store)).collect();
    // now interleaved, with caches; traversals start at different times so that later ones get
    // what earlier ones left behind
    let pols: Vec<CachePol> = plans
        .iter()
        .map(|_| match run.below(8) {
            0 => CachePol::Any(pool.clone()),
            _ => CachePol::Shared(pool.clone(), run.idx(pool.file.len())),
        })
        .collect();
    let mut live: Vec<(usize, Trav, usize, usize)> = vec![];
    let mut waiting: Vec<usize> = (0..plans.len()).rev().collect();
    let sequential = run.flip();
    let mut wire = Wire::default();
    while !live.is_empty() || !waiting.is_empty() {
        if !waiting.is_empty() && (live.is_empty() || (!sequential && run.chance(1, 4))) {
            let i = waiting.pop().unwrap();
            ev!(run, "start traversal {} kind {} root {}", i, plans[i].kind, short(&plans[i].root));
            live.push((i, plans[i].start(), 0, 0));
        }
        let k = run.idx(live.len());
        run.now += 10;
        let (i, t, mut step, mut at) = live.swap_remove(k);
        run.sig(i as u64);
        let p = &plans[i];
        let expect = &solos[i];
        let cmp = |at: &mut usize, line: String| -> Res {
            let want = expect.get(*at).cloned().unwrap_or_else(|| "nothing more".into());
            ensure!(line == want, "cache-changes-result", "traversal {} (kind {}) with a cache: {:?}; without: {:?} (line {})", i, p.kind, line, want, at);
            *at += 1;
            Ok(())
        };
        let (need, line) = trav_need(&t, p);
        cmp(&mut at, line)?;
        let c = match need {
            Some(c) => c,
            None => continue,
        };
        if p.cancel_at == Some(step) || step > 3000 {
            run.fault("traversal_cancelled");
            continue;
        }
        let b = match &p.bad_at {
            Some((s, b)) if *s == step => {
                run.fault("damaged_block");
                b.clone()
            }
            _ => match store.get(&c) {
                Some(b) => b.clone(),
                None => {
                    cmp(&mut at, "block not available".into())?;
                    continue;
                }
            },
        };
        let pol = &pols[i];
        let (t2, line) = match p.kind {
            2 => pol.dir(run, |dc| wire.lend(&b, |b| trav_step(t, b, &mut None, dc))),
            _ => pol.file(run, |fc| wire.lend(&b, |b| trav_step(t, b, fc, &mut None))),
        };
        ev!(run, "traversal {} step {}: {}", i, step, line);
        cmp(&mut at, line)?;
        step += 1;
        run.weight += 1;
        live.push((i, t2, step, at));
    }
    run.summary = format!("{} traversals sharing {} caches", plans.len(), pool.file.len());
    Ok(())
}

pub const U13: Prop = Prop {
    id: "U13",
    run: u13,
    quick: 225_000,
    thorough: 3_750_000,
    rule: "Every run plans 2-7 walks, visits and lookups (some given damaged blocks, some cancelled), records each alone without a cache, then repeats them interleaved while passing shared caches around; all observable lines must be equal.",
    min_weight: 6,
    real: &["unixfs_v1::walk", "unixfs_v1::file::visit", "unixfs_v1::dir::resolve", "unixfs_v1::dir::ShardedLookup"],
    stub: &["block supply with seeded damage", "cooperative scheduler of the traversals", "tree generator"],
    assumptions: &["a traversal's own run without a cache defines the result"],
};
