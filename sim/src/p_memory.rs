//! World "memory": what the traversals, imports and tree builders of a long-lived process hold on
//! to between their steps, as the counting allocator sees it. U24.
use crate::core::*;
use crate::gen::*;
use crate::p_build::{gen_op, gen_prof, note, opts_of, to_metadata, Model, Op};
use crate::p_import::{gen_job, ref_layout, Job};
use crate::p_read::gen_needle;
use crate::refpb::*;
use crate::runner::Prop;
use crate::{ensure, ev};
use libipld::Cid;
use std::rc::Rc;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator};
use unixfs_v1::dir::{resolve, MaybeResolved, ShardedLookup};
use unixfs_v1::file::adder::FileAdder;
use unixfs_v1::file::visit::{FileVisit, IdleFileVisit};
use unixfs_v1::walk::Walker;

type FCache = Option<unixfs_v1::file::visit::Cache>;
type DCache = Option<unixfs_v1::dir::Cache>;

/// What is held by something, in bytes: all that was allocated and not freed again by the calls.
#[derive(Default)]
struct Acc {
    held: i64,
}
impl Acc {
    fn call<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let r = lib(f);
        self.held += crate::alloc::last_live();
        r
    }
}

/// per link kept by an import, and per Cid or queue entry of a traversal
const PER: i64 = 600;
const PER_READ: i64 = 400;
const SLACK: i64 = 4096;

fn bound(held: i64, max: i64, what: &str, desc: &str) -> Res {
    ensure!(held >= 0, "accounting", "{} has freed {} bytes more than it took, {}", what, -held, desc);
    ensure!(held <= max, "memory-held", "{} holds {} bytes, {} would be plenty, {}", what, held, max, desc);
    Ok(())
}
fn gone(held: i64, what: &str, desc: &str) -> Res {
    ensure!(held == 0, "memory-leaked", "{} bytes are left behind by {}, {}", held, what, desc);
    Ok(())
}

// ------------------------------------------------------------------------------------ imports

struct Import {
    job: Job,
    a: Option<FileAdder>,
    acc: Acc,
    at: usize,
    piece: usize,
    top: i64,
}
impl Import {
    fn max(&self) -> i64 {
        let (chunk, bf) = (self.job.chunk, self.job.bf);
        let n = self.at / chunk + 1;
        // link blocks are made of the links to leaves as they come, and of those only at the end
        let links = n.min(n / bf + bf.saturating_add(2));
        // the buffer is made as large as it may ever need to be, or grows with what is in it
        let buffer = 2 * if chunk < 1 << 40 { chunk } else { self.at };
        SLACK + buffer as i64 + PER * links as i64
    }
    fn took(&mut self, blocks: Vec<(Cid, Vec<u8>)>) -> i64 {
        let n: usize = blocks.iter().map(|b| b.1.len()).sum();
        self.acc.call(|| drop(blocks));
        n as i64
    }
    fn over(&mut self) -> Res {
        gone(self.acc.held, "a finished import", &self.job.desc())
    }
    /// false: done
    fn step(&mut self, run: &mut Run) -> Res<bool> {
        if run.chance(1, 2000) {
            run.fault("cancelled");
            let a = self.a.take();
            self.acc.call(|| drop(a));
            gone(self.acc.held, "a cancelled import", &self.job.desc())?;
            return Ok(false);
        }
        let left = self.job.content.len() - self.at;
        if left == 0 {
            let a = self.a.take().expect("running");
            let b = self.acc.call(|| a.finish().collect::<Vec<_>>());
            let p = crate::alloc::last_peak();
            let max = self.max();
            let n = self.took(b);
            ensure!(p <= max + 2 * n, "memory-peak", "finishing took {} bytes for {} bytes of blocks ({})", p, n, self.job.desc());
            self.over()?;
            return Ok(false);
        }
        let k = match run.below(8) {
            7 => {
                run.fault("short_read");
                run.urange(0, left.min(9))
            }
            _ => self.piece.min(left),
        };
        let (a, c) = (self.a.as_mut().expect("running"), &self.job.content);
        let at = self.at;
        let (b, n) = self.acc.call(|| {
            let (i, n) = a.push(&c[at..at + k]);
            (i.collect::<Vec<_>>(), n)
        });
        let p = crate::alloc::last_peak();
        self.at += n;
        let max = self.max();
        let out = self.took(b);
        ensure!(p <= max + 2 * out, "memory-peak", "a push of {} bytes took {} bytes for {} bytes of blocks ({})", k, p, out, self.job.desc());
        self.top = self.top.max(self.acc.held);
        bound(self.acc.held, max, "an import", &format!("after {} bytes of {}", self.at, self.job.desc()))?;
        Ok(true)
    }
}

// ------------------------------------------------------------------------------------ readers

enum Kind {
    Walk(Option<Box<Walker>>),
    Visit(Option<FileVisit>),
    Lookup(Option<ShardedLookup<'static>>),
}
struct Reader {
    what: &'static str,
    kind: Kind,
    started: bool,
    root: Cid,
    range: Option<std::ops::Range<u64>>,
    needle: Box<str>,
    slot: Option<usize>,
    acc: Acc,
    /// the most that was ever pending, and bytes of names seen
    pend: usize,
    names: usize,
    steps: usize,
}
enum Step {
    More,
    Done,
    Failed,
}
impl Reader {
    fn want(&mut self) -> (Cid, usize) {
        match &mut self.kind {
            Kind::Walk(w) => {
                let w = w.as_ref().expect("running");
                let (c, rest) = w.pending_links();
                (*c, 1 + rest.count())
            }
            Kind::Visit(Some(v)) => {
                let (c, rest) = v.pending_links();
                (*c, 1 + rest.count())
            }
            Kind::Lookup(Some(l)) => {
                let (c, rest) = l.pending_links();
                (*c, 1 + rest.count())
            }
            _ => (self.root, 1),
        }
    }
    fn feed(&mut self, block: &[u8], fc: &mut [FCache], dc: &mut [DCache]) -> Step {
        let (mut nf, mut nd) = (None, None);
        let (f, d) = match self.slot {
            None => (&mut nf, &mut nd),
            Some(i) => (&mut fc[i], &mut dc[i]),
        };
        let needle: &'static str = unsafe { &*(&*self.needle as *const str) };
        let r = match &mut self.kind {
            Kind::Walk(w) => {
                let w = w.as_mut().expect("running");
                self.acc.call(|| match w.next(block, f).is_ok() {
                    true if w.should_continue() => Step::More,
                    true => Step::Done,
                    false => Step::Failed,
                })
            }
            Kind::Visit(v) => {
                let started = std::mem::replace(&mut self.started, true);
                let range = self.range.take();
                self.acc.call(|| {
                    let idle = IdleFileVisit::default();
                    let idle = match range {
                        Some(r) => idle.with_target_range(r),
                        None => idle,
                    };
                    let r = if !started { idle.start(block).map(|x| x.3) } else { v.take().expect("running").continue_walk(block, f).map(|x| x.1) };
                    match r {
                        Ok(Some(n)) => {
                            *v = Some(n);
                            Step::More
                        }
                        Ok(None) => Step::Done,
                        Err(_) => Step::Failed,
                    }
                })
            }
            Kind::Lookup(l) => {
                let started = std::mem::replace(&mut self.started, true);
                self.acc.call(|| {
                    let r = if !started { resolve(block, needle, d).map_err(|_| ()) } else { l.take().expect("running").continue_walk(block, d).map_err(|_| ()) };
                    match r {
                        Ok(MaybeResolved::NeedToLoadMore(n)) => {
                            *l = Some(n);
                            Step::More
                        }
                        Ok(_) => Step::Done,
                        Err(_) => Step::Failed,
                    }
                })
            }
        };
        // caches which are not kept are the call's own
        self.acc.call(|| drop((nf, nd)));
        r
    }
    fn end(&mut self) {
        let Reader { kind, acc, .. } = self;
        acc.call(|| match kind {
            Kind::Walk(w) => *w = None,
            Kind::Visit(v) => *v = None,
            Kind::Lookup(l) => *l = None,
        });
    }
    fn max(&self) -> i64 {
        SLACK + PER_READ * self.pend as i64 + 6 * self.names as i64
    }
}

// ----------------------------------------------------------------------------------- builders

struct Build {
    b: Option<BufferingTreeBuilder>,
    it: Option<Box<PostOrderIterator>>,
    m: Model,
    paths: Vec<(String, bool)>,
    left: usize,
    max: i64,
    largest: i64,
    longest: i64,
    limited: bool,
    acc: Acc,
}

impl Build {
    fn step(&mut self, run: &mut Run, pr: &crate::p_build::Prof) -> Res<bool> {
        if let Some(it) = &mut self.it {
            let owned = run.flip();
            let (acc, mut size) = (&mut self.acc, None);
            let more = if owned {
                let n = acc.call(|| it.next());
                match n {
                    None => false,
                    Some(Err(e)) => {
                        ensure!(self.limited, "tree-refused", "{:?}", e);
                        run.count("probe_block_too_large");
                        acc.call(|| drop(e));
                        true
                    }
                    Some(Ok(n)) => {
                        size = Some(n.block.len());
                        acc.call(|| drop(n));
                        true
                    }
                }
            } else {
                acc.call(|| match it.next_borrowed() {
                    None => false,
                    Some(n) => {
                        size = n.ok().map(|n| n.block.len());
                        true
                    }
                })
            };
            self.largest = self.largest.max(size.unwrap_or(0) as i64);
            bound(acc.held, 2 * self.max + 3 * self.largest + 2 * self.longest, "a tree being built", &format!("blocks of up to {} bytes", self.largest))?;
            if more && !run.chance(1, 400) {
                return Ok(true);
            }
            if more {
                run.fault("cancelled");
            }
            let it = self.it.take();
            self.acc.call(|| drop(it));
            gone(self.acc.held, "a built tree", "")?;
            return Ok(false);
        }
        if self.left == 0 {
            let b = self.b.take().expect("collecting");
            if run.chance(1, 8) {
                run.fault("cancelled");
                self.acc.call(|| drop(b));
                gone(self.acc.held, "an abandoned tree", "")?;
                return Ok(false);
            }
            let it = self.acc.call(|| Box::new(b.build()));
            self.it = Some(it);
            return Ok(true);
        }
        self.left -= 1;
        let op = gen_op(run, &self.m, &self.paths, pr);
        let good = self.m.judge(&op).is_empty();
        let (acc, b) = (&mut self.acc, self.b.as_mut().expect("collecting"));
        let r = match &op {
            Op::Put { path, cid, size } => acc.call(|| b.put_link(path, *cid, *size).is_ok()),
            Op::Meta { path, meta } => {
                let m = to_metadata(meta);
                acc.call(|| b.set_metadata(path, m).is_ok())
            }
        };
        ensure!(r == good, if good { "valid-rejected" } else { "invalid-accepted" }, "{}", op.desc());
        // the longest path ever named, good or not, is what a buffer is made for
        self.longest = self.longest.max(op.path().len() as i64);
        if good {
            let p = op.path();
            self.max += 4 * p.len() as i64 + 3000 * (p.matches('/').count() as i64 + 1);
            self.m.apply(&op);
            note(&mut self.paths, &op);
        } else {
            run.count("probe_rejected_operation");
        }
        bound(acc.held, self.max, "a tree builder", &format!("after {}", op.desc()))?;
        Ok(true)
    }
}

// -------------------------------------------------------------------------------------- world

enum Actor {
    Import(Import),
    Read(Reader),
    Build(Build, crate::p_build::Prof),
}

fn u24(run: &mut Run) -> Res {
    let mut store = Blocks::default();
    let mut actors: Vec<Actor> = vec![];
    let n = run.urange(1, 4);
    for _ in 0..n {
        match run.below(8) {
            0 => {
                let job = gen_job(run, 400, true);
                ev!(run, "import {}", job.desc());
                let mut acc = Acc::default();
                let a = acc.call(|| job.adder());
                let piece = match run.below(4) {
                    0 => run.urange(1, 40),
                    1 => job.chunk,
                    _ => run.urange(1, job.chunk.min(1 << 20) * 2),
                }
                .max(job.content.len() / 4000)
                .max(1);
                actors.push(Actor::Import(Import { job, a: Some(a), acc, at: 0, piece, top: 0 }));
            }
            1 | 2 => {
                // a file much larger than what is pending at any time
                let job = gen_job(run, 1200, false);
                let laid = ref_layout(&job.content[..job.content.len().min(1 << 20)], job.chunk, job.bf);
                for (c, b) in laid.blocks {
                    store.add(c, &Rc::new(b));
                }
                ev!(run, "file {} {}", short(&laid.root), job.desc());
                run.count("probe_long_read");
                let mut r = read(run, laid.root, 0);
                if let Actor::Read(Reader { kind: Kind::Visit(_), range, .. }) = &mut r {
                    if run.flip() {
                        let n = job.content.len() as u64;
                        let a = run.below(n + 10);
                        *range = Some(a..a + run.below(n + 10));
                        run.count("probe_range");
                    }
                }
                actors.push(r);
            }
            3 | 4 => {
                let t = gen_tree(run, &mut store, 30, false);
                ev!(run, "tree {}", short(&t.cid));
                actors.push(read(run, t.cid, 1));
            }
            5 | 6 => {
                let d = crate::p_read::gen_dir(run, &mut store, false);
                ev!(run, "directory {}", short(&d.cid()));
                let mut r = read(run, d.cid(), 2);
                if let Actor::Read(r) = &mut r {
                    r.needle = gen_needle(run, &d.names()).into();
                }
                actors.push(r);
            }
            _ => {
                let wrap = run.flip();
                let pr = gen_prof(run, 2);
                let left = run.skewed(60);
                let mut acc = Acc::default();
                let limit = if run.chance(1, 3) { Some(run.below(400)) } else { None };
                let b = acc.call(|| BufferingTreeBuilder::new(opts_of(wrap, Some(limit))));
                actors.push(Actor::Build(Build { b: Some(b), it: None, m: Model::new(wrap), paths: vec![], left, max: 2 * SLACK, largest: 0, longest: 0, limited: limit.is_some(), acc }, pr));
            }
        }
    }
    let (mut fc, mut dc): (Vec<FCache>, Vec<DCache>) = (vec![None, None], vec![None, None]);
    // all readers together with the caches
    let mut shared: i64 = actors.iter().map(|a| if let Actor::Read(r) = a { r.acc.held } else { 0 }).sum();
    let mut cache_max = 0i64;
    let p_lie = run.pick(&[0u64, 0, 1, 16, 100]);
    while !actors.is_empty() {
        let k = run.idx(actors.len());
        run.sig(k as u64);
        run.now += 10;
        let goes_on = match &mut actors[k] {
            Actor::Import(i) => i.step(run)?,
            Actor::Build(b, pr) => b.step(run, pr)?,
            Actor::Read(r) => {
                let (c, pending) = r.want();
                r.pend = r.pend.max(pending);
                let before = r.acc.held;
                if run.chance(1, 500) {
                    run.fault("cancelled");
                    r.end();
                    shared += r.acc.held - before;
                    false
                } else {
                    let right = store.get(&c).cloned();
                    let b = match &right {
                        Some(b) if p_lie == 0 || !run.chance(p_lie, 256) => (**b).clone(),
                        // targets of directories for lookups are not there
                        None => break_off(run, r, &mut shared)?,
                        Some(_) => {
                            run.count("probe_failed_traversal");
                            crate::p_hostile::lie(run, right.as_ref(), &store, true)
                        }
                    };
                    if b.is_empty() && right.is_none() {
                        actors.swap_remove(k);
                        continue;
                    }
                    let names: usize = dec_node(&b).map_or(b.len(), |x| x.0.iter().map(|l| l.name.as_ref().map_or(0, |n| n.len())).sum());
                    r.names += names;
                    r.steps += 1;
                    let s = r.feed(&b, &mut fc, &mut dc);
                    if matches!(s, Step::More) {
                        let (_, p) = r.want();
                        r.pend = r.pend.max(p);
                    }
                    // a block refused may have had any number of links
                    if matches!(s, Step::Failed) {
                        r.pend += b.len() / 2;
                    }
                    cache_max = cache_max.max(r.max());
                    if !matches!(s, Step::More) {
                        r.end();
                    }
                    shared += r.acc.held - before;
                    matches!(s, Step::More) && r.steps < 20_000
                }
            }
        };
        let reads = actors.iter().map(|a| if let Actor::Read(r) = a { r.max() } else { 0 }).sum::<i64>().max(0);
        let who = match &actors[k] {
            Actor::Read(r) => format!("{} after {} steps with at most {} pending", r.what, r.steps, r.pend),
            _ => String::new(),
        };
        if !who.is_empty() {
            bound(shared, reads + 2 * cache_max, "reading", &who)?;
        }
        if !goes_on {
            if let Actor::Read(r) = &mut actors[k] {
                let before = r.acc.held;
                r.end();
                shared += r.acc.held - before;
            }
            run.weight += 1;
            actors.swap_remove(k);
        }
    }
    let mut acc = Acc::default();
    acc.call(|| drop((fc, dc)));
    // the two vectors are this world's own
    let own = 2 * (std::mem::size_of::<FCache>() + std::mem::size_of::<DCache>()) as i64;
    gone(shared + acc.held + own, "all traversals and their caches", "")?;
    run.summary = format!("{} actors", n);
    Ok(())
}

fn break_off(_run: &mut Run, r: &mut Reader, shared: &mut i64) -> Res<Vec<u8>> {
    let before = r.acc.held;
    r.end();
    *shared += r.acc.held - before;
    Ok(vec![])
}

fn read(run: &mut Run, root: Cid, how: u8) -> Actor {
    let mut acc = Acc::default();
    let (what, kind) = match how {
        0 if run.flip() => ("a visit", Kind::Visit(None)),
        2 => ("a lookup", Kind::Lookup(None)),
        _ => {
            let name = crate::p_read::gen_any_root(run);
            ("a walk", Kind::Walk(Some(acc.call(|| Box::new(Walker::new(root, name.as_str().to_owned()))))))
        }
    };
    let slot = if run.chance(2, 3) { Some(run.idx(2)) } else { None };
    Actor::Read(Reader { what, kind, started: false, root, range: None, needle: "".into(), slot, acc, pend: 1, names: 0, steps: 0 })
}

pub const U24: Prop = Prop {
    id: "U24",
    run: u24,
    quick: 300_000,
    thorough: 3_000_000,
    rule: "Every run interleaves 1-4 imports, whole-file visits, walks, lookups and tree builders of one process, some of them cancelled or deceived; after every step what is held according to the counting allocator is compared with what is pending, and at the end with nothing.",
    min_weight: 1,
    real: &["unixfs_v1::file::adder", "unixfs_v1::file::visit", "unixfs_v1::walk", "unixfs_v1::dir", "unixfs_v1::dir::ShardedLookup", "unixfs_v1::dir::builder"],
    stub: &["counting allocator", "byte sources", "block store", "cooperative scheduler"],
    assumptions: &["400 bytes for each link pending, six times the names seen and 4 KiB for each traversal or import are plenty"],
};
