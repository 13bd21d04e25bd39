//! World "diagnostics": what importers, builders, iterators, visits, walks and lookups show of
//! themselves (Debug and Display) in every state they get into. U25.
use crate::core::*;
use crate::gen::*;
use crate::p_build::{apply, gen_op, gen_prof, note, opts_of, Model};
use crate::p_import::{gen_job, Job};
use crate::p_read::{gen_needle, meta_of};
use crate::refpb::*;
use crate::runner::Prop;
use crate::{ensure, ev};
use libipld::Cid;
use std::collections::BTreeMap;
use std::fmt::Debug;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator, TreeConstructionFailed};
use unixfs_v1::dir::{resolve, MaybeResolved, ShardedLookup};
use unixfs_v1::file::adder::FileAdder;
use unixfs_v1::file::visit::{FileVisit, IdleFileVisit};
use unixfs_v1::walk::{ContinuedWalk, Walker};

fn show<T: Debug>(run: &mut Run, x: &T) -> String {
    run.weight += 1;
    lib(|| format!("{:?}", x))
}
fn says(shown: &str, part: &str, what: &str) -> Res {
    ensure!(shown.contains(part), "diagnostic-untrue", "{} shows {}, without {}", what, shown.chars().take(600).collect::<String>(), part.chars().take(200).collect::<String>());
    Ok(())
}

// ------------------------------------------------------------------------------------ imports

struct Import {
    job: Job,
    a: Option<FileAdder>,
    at: usize,
    piece: usize,
    /// bytes in the leaves so far, links of each depth waiting, depth of each block
    leaves: u64,
    waiting: BTreeMap<usize, usize>,
    depth: BTreeMap<Cid, usize>,
}
impl Import {
    fn took(&mut self, blocks: Vec<(Cid, Vec<u8>)>) -> Res {
        for (c, b) in blocks {
            let (links, data) = match dec_node(&b) {
                Some(x) => x,
                None => return viol("bad-block", "a block of an import cannot be decoded".to_string()),
            };
            let d = if links.is_empty() {
                self.leaves += data.as_deref().and_then(dec_data).map_or(0, |d| d.data.map_or(0, |x| x.len())) as u64;
                0
            } else {
                let below = links[0].hash.as_deref().and_then(|h| Cid::try_from(h).ok()).and_then(|c| self.depth.get(&c).copied());
                let below = match below {
                    Some(x) => x,
                    None => return viol("bad-block", "a link block before its children".to_string()),
                };
                let left = self.waiting.entry(below).or_default();
                ensure!(*left >= links.len(), "bad-block", "a link block has {} links, there were {}", links.len(), left);
                *left -= links.len();
                below + 1
            };
            *self.waiting.entry(d).or_default() += 1;
            self.depth.insert(c, d);
        }
        Ok(())
    }
    fn shown(&self, run: &mut Run) -> Res {
        let s = show(run, self.a.as_ref().expect("running"));
        says(&s, &format!("block_buffer: {}/", self.at as u64 - self.leaves), "an importer")?;
        says(&s, &format!("{}", self.job.chunk), "an importer")?;
        let mut links = String::from("[");
        let mut last = None;
        for (d, n) in self.waiting.iter().rev().filter(|x| *x.1 > 0) {
            if let Some(l) = last {
                links.push('/');
                for _ in d + 1..l {
                    run.count("probe_level_without_links");
                    links.push_str("0/");
                }
                run.count("probe_several_levels");
            }
            links.push_str(&format!("{}: {}", d, n));
            last = Some(*d);
        }
        links.push(']');
        says(&s, &links, "an importer")
    }
    fn step(&mut self, run: &mut Run) -> Res<bool> {
        let left = self.job.content.len() - self.at;
        if left == 0 || run.chance(1, 1000) {
            return Ok(false);
        }
        let k = if run.chance(1, 8) {
            run.fault("short_read");
            run.urange(0, left.min(9))
        } else {
            self.piece.min(left)
        };
        let (at, c, a) = (self.at, &self.job.content, self.a.as_mut().expect("running"));
        let (b, n) = lib(|| {
            let (i, n) = a.push(&c[at..at + k]);
            (i.collect::<Vec<_>>(), n)
        });
        self.at += n;
        self.took(b)?;
        Ok(true)
    }
}

// ------------------------------------------------------------------------------------ readers

enum Kind {
    Walk(Box<Walker>, Option<std::path::PathBuf>),
    Visit(Option<FileVisit>),
    Lookup(Option<ShardedLookup<'static>>),
    Nothing,
}
struct Reader {
    kind: Kind,
    next: Cid,
    started: bool,
    range: Option<std::ops::Range<u64>>,
    needle: &'static str,
    steps: usize,
}
impl Reader {
    /// false: it has ended
    fn step(&mut self, run: &mut Run, block: &[u8], talk: bool) -> Res<bool> {
        let started = std::mem::replace(&mut self.started, true);
        match std::mem::replace(&mut self.kind, Kind::Nothing) {
            Kind::Walk(mut w, mut path) => {
                let r = lib(|| w.next(block, &mut None));
                if talk {
                    let s = show(run, &r);
                    says(&s, if r.is_ok() { "Ok" } else { "Err" }, "the result of a walk")?;
                    if let Ok(x) = &r {
                        let m = match x {
                            ContinuedWalk::File(_, _, _, m, _) | ContinuedWalk::RootDirectory(_, _, m) | ContinuedWalk::Directory(_, _, m) | ContinuedWalk::Symlink(_, _, _, m) => (*m).clone(),
                            ContinuedWalk::Bucket(..) => Default::default(),
                        };
                        let s = show(run, &m);
                        let (mode, time) = meta_of(&m);
                        if let Some(mode) = mode {
                            run.count("probe_metadata_shown");
                            says(&s, &mode.to_string(), "metadata")?;
                        }
                        if let Some((a, b)) = time {
                            says(&s, &a.to_string(), "metadata")?;
                            says(&s, &b.to_string(), "metadata")?;
                        }
                    }
                }
                let more = match r {
                    Ok(x) => {
                        path = Some(
                            match x {
                                ContinuedWalk::File(_, _, p, _, _) | ContinuedWalk::RootDirectory(_, p, _) | ContinuedWalk::Directory(_, p, _) | ContinuedWalk::Bucket(_, p) | ContinuedWalk::Symlink(_, _, p, _) => p,
                            }
                            .to_path_buf(),
                        );
                        lib(|| w.should_continue())
                    }
                    Err(e) => {
                        let s = lib(|| e.to_string());
                        ensure!(!s.is_empty(), "diagnostic-untrue", "an error without a word");
                        if talk {
                            // it can also be shown after it has failed
                            run.count("probe_shown_after_failure");
                            show(run, &w);
                        }
                        false
                    }
                };
                if more {
                    self.next = *lib(|| w.pending_links().0);
                }
                self.kind = Kind::Walk(w, path);
                Ok(more)
            }
            Kind::Visit(v) => {
                let range = self.range.take();
                let r = if started {
                    lib(|| v.expect("running").continue_walk(block, &mut None)).map(|x| x.1)
                } else {
                    let idle = IdleFileVisit::default();
                    let idle = match range {
                        Some(r) => lib(|| idle.with_target_range(r)),
                        None => idle,
                    };
                    if talk {
                        show(run, &idle);
                    }
                    lib(|| idle.start(block)).map(|x| x.3)
                };
                if talk && r.is_err() {
                    show(run, &r);
                }
                let r = r.unwrap_or(None);
                if let Some(v) = &r {
                    self.next = *lib(|| v.pending_links().0);
                }
                let more = r.is_some();
                self.kind = Kind::Visit(r);
                Ok(more)
            }
            Kind::Lookup(l) => {
                let needle = self.needle;
                if talk {
                    if let Ok(n) = lib(|| unixfs_v1::dagpb::wrap_node_data(block.to_vec())) {
                        run.count("probe_node_data_shown");
                        let s = show(run, &n);
                        says(&s, &block.len().to_string(), "node data")?;
                    }
                }
                let r = if started { lib(|| l.expect("running").continue_walk(block, &mut None)).map_err(|e| e.into_resolve_error()) } else { lib(|| resolve(block, needle, &mut None)) };
                if talk {
                    show(run, &r);
                }
                match r {
                    Ok(MaybeResolved::NeedToLoadMore(l)) => {
                        self.next = *lib(|| l.pending_links().0);
                        self.kind = Kind::Lookup(Some(l));
                        Ok(true)
                    }
                    _ => Ok(false),
                }
            }
            Kind::Nothing => Ok(false),
        }
    }
    fn shown(&self, run: &mut Run) -> Res {
        let cid = format!("{:?}", self.next);
        match &self.kind {
            Kind::Walk(w, path) => {
                let s = show(run, w);
                says(&s, &cid, "a walk")?;
                if let Some(p) = path {
                    run.count("probe_walk_shown");
                    says(&s, &format!("{:?}", p), "a walk")?;
                }
            }
            Kind::Visit(Some(v)) => {
                run.count("probe_visit_shown");
                let s = show(run, v);
                says(&s, &cid, "a visit")?;
            }
            Kind::Lookup(Some(l)) => {
                run.count("probe_lookup_shown");
                let n = lib(|| 1 + l.pending_links().1.count());
                let s = show(run, l);
                says(&s, &format!("links: {}", n), "a lookup")?;
                says(&s, &format!("{:?}", self.needle), "a lookup")?;
            }
            _ => {}
        }
        Ok(())
    }
}

// ----------------------------------------------------------------------------------- builders

struct Build {
    b: Option<BufferingTreeBuilder>,
    it: Option<Box<PostOrderIterator>>,
    m: Model,
    paths: Vec<(String, bool)>,
    left: usize,
}
impl Build {
    fn step(&mut self, run: &mut Run, pr: &crate::p_build::Prof) -> Res<bool> {
        if let Some(it) = &mut self.it {
            let r = lib(|| {
                it.next_borrowed().map(|r| {
                    r.map(|n| (format!("{:?}", n), n.path.to_string(), *n.cid, n.total_size, n.block.len()))
                })
            });
            match r {
                None => return Ok(false),
                Some(Ok((s, path, cid, total, len))) => {
                    run.weight += 1;
                    run.count("probe_tree_node_shown");
                    for part in [format!("{:?}", path), cid.to_string(), format!(": {}", total), format!(": {}", len)] {
                        says(&s, &part, "a tree node")?;
                    }
                }
                Some(Err(e)) => {
                    run.fault("limit_hit");
                    let (s, t) = (lib(|| e.to_string()), show(run, &e));
                    if let TreeConstructionFailed::TooLargeBlock(n) = e {
                        says(&s, &n.to_string(), "an error")?;
                        says(&t, &n.to_string(), "an error")?;
                    }
                }
            }
            return Ok(true);
        }
        if self.left == 0 {
            let b = self.b.take().expect("collecting");
            self.it = Some(lib(|| Box::new(b.build())));
            return Ok(true);
        }
        self.left -= 1;
        let op = gen_op(run, &self.m, &self.paths, pr);
        match apply(self.b.as_mut().expect("collecting"), &op) {
            Ok(()) => {
                if self.m.judge(&op).is_empty() {
                    self.m.apply(&op);
                    note(&mut self.paths, &op);
                }
            }
            Err(e) => {
                run.count("probe_rejected_operation");
                let (s, t) = (lib(|| e.to_string()), show(run, &e));
                ensure!(!s.is_empty(), "diagnostic-untrue", "an error without a word");
                use unixfs_v1::dir::builder::TreeBuildingFailed::*;
                if let RootedPath(p) | RepeatSlashesInPath(p) | PathEndsInSlash(p) | DuplicatePath(p) | LeafAsDirectory(p) = &e {
                    ensure!(s.contains(p.as_str()) || s.contains(&format!("{:?}", p)), "diagnostic-untrue", "{:?} says nothing of {:?}", s, p);
                    says(&t, &format!("{:?}", p), "an error")?;
                }
            }
        }
        Ok(true)
    }
}

enum Actor {
    Import(Import),
    Read(Reader),
    Build(Build, crate::p_build::Prof),
}

fn u25(run: &mut Run) -> Res {
    let mut store = Blocks::default();
    let mut actors: Vec<Actor> = vec![];
    let n = run.urange(1, 3);
    let mut needles: Vec<Box<str>> = vec![];
    for _ in 0..n {
        match run.below(8) {
            0..=2 => {
                let job = gen_job(run, 300, true);
                ev!(run, "import {}", job.desc());
                let a = lib(|| job.adder());
                let piece = run.urange(1, job.chunk.min(1 << 20) * 2).max(job.content.len() / 300).max(1);
                actors.push(Actor::Import(Import { job, a: Some(a), at: 0, piece, leaves: 0, waiting: BTreeMap::new(), depth: BTreeMap::new() }));
            }
            k @ 3..=5 => {
                let t = gen_tree(run, &mut store, 20, false);
                ev!(run, "tree {}", short(&t.cid));
                let mut root = t.cid;
                let kind = if k == 5 {
                    let files: Vec<Cid> = store.0.iter().filter(|x| dec_node(x.1).and_then(|n| n.1).and_then(|d| dec_data(&d)).map_or(false, |d| d.typ == T_FILE)).map(|x| *x.0).collect();
                    if !files.is_empty() {
                        root = files[run.idx(files.len())];
                    }
                    Kind::Visit(None)
                } else {
                    let name = crate::p_read::gen_any_root(run);
                    Kind::Walk(lib(|| Box::new(Walker::new(root, name))), None)
                };
                let range = if k == 5 && run.flip() { Some(run.below(50)..run.below(200)) } else { None };
                actors.push(Actor::Read(Reader { kind, next: root, started: false, range, needle: "", steps: 0 }));
            }
            6 => {
                let d = crate::p_read::gen_dir(run, &mut store, true);
                ev!(run, "directory {}", short(&d.cid()));
                let s: Box<str> = gen_needle(run, &d.names()).into();
                let needle: &'static str = unsafe { &*(&*s as *const str) };
                needles.push(s);
                actors.push(Actor::Read(Reader { kind: Kind::Lookup(None), next: d.cid(), started: false, range: None, needle, steps: 0 }));
            }
            _ => {
                let wrap = run.flip();
                let pr = gen_prof(run, 2);
                let left = run.skewed(40);
                let o = opts_of(wrap, Some(if run.chance(1, 3) { Some(run.below(400)) } else { None }));
                show(run, &o);
                actors.push(Actor::Build(Build { b: Some(lib(|| BufferingTreeBuilder::new(o))), it: None, m: Model::new(wrap), paths: vec![], left }, pr));
            }
        }
    }
    let p_lie = run.pick(&[0u64, 0, 4, 32, 100]);
    let p_show = run.pick(&[1u64, 4, 16]);
    while !actors.is_empty() {
        let k = run.idx(actors.len());
        run.sig(k as u64);
        run.now += 10;
        let talk = run.chance(1, p_show);
        let goes_on = match &mut actors[k] {
            Actor::Import(i) => {
                if talk {
                    i.shown(run)?;
                }
                i.step(run)?
            }
            Actor::Build(b, pr) => {
                if talk {
                    match (&b.b, &b.it) {
                        (Some(b), _) => {
                            show(run, b);
                        }
                        _ => {}
                    }
                }
                b.step(run, pr)?
            }
            Actor::Read(r) => {
                if talk {
                    r.shown(run)?;
                }
                r.steps += 1;
                let right = store.get(&r.next).cloned();
                let lied = p_lie > 0 && run.chance(p_lie, 256);
                match right {
                    None => false,
                    Some(b) if !lied => r.step(run, &b, talk)? && r.steps < 300,
                    right => {
                        run.fault("lie");
                        let b = crate::p_hostile::lie(run, right.as_ref(), &store, true);
                        r.step(run, &b, talk)? && r.steps < 300
                    }
                }
            }
        };
        if !goes_on {
            actors.swap_remove(k);
        }
    }
    run.summary = format!("{} actors", n);
    Ok(())
}

pub const U25: Prop = Prop {
    id: "U25",
    run: u25,
    quick: 150_000,
    thorough: 2_000_000,
    rule: "Every run interleaves 1-3 imports, visits, walks, lookups and tree builders of one process, some deceived or cut short; at random points each is shown with Debug, errors with Display too, and the text compared with a model of its state.",
    min_weight: 1,
    real: &["unixfs_v1::file::adder", "unixfs_v1::file::visit", "unixfs_v1::walk", "unixfs_v1::dir", "unixfs_v1::dir::ShardedLookup", "unixfs_v1::dir::builder"],
    stub: &["byte sources", "block store", "cooperative scheduler"],
    assumptions: &[],
};
