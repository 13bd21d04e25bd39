//! World "end to end": one node imports files and symlinks and builds directories on a disk which
//! fails and a process which crashes; another node walks, reads and resolves what was published
//! over a faulty network. U22.
use crate::core::*;
use crate::gen::*;
use crate::net::*;
use crate::p_build::*;
use crate::p_import::{decode, gen_job, link_cid, Disk, Job, Store, Task};
use crate::p_read::*;
use crate::refpb::*;
use crate::runner::Prop;
use crate::{ensure, ev};
use libipld::Cid;
use std::collections::BTreeMap;
use std::rc::Rc;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator};
use unixfs_v1::symlink::serialize_symlink_block;

enum Leaf {
    File(Job),
    Symlink(String),
}

/// The file as it was stored, measured bottom-up by the independent decoder.
fn dag_of(store: &Store, root: &Cid) -> Res<FileDag> {
    fn go(store: &Store, c: &Cid, b: &mut Vec<FB>, memo: &mut BTreeMap<Cid, usize>, depth: usize) -> Res<usize> {
        if let Some(i) = memo.get(c) {
            return Ok(*i);
        }
        ensure!(depth < 60, "stored-file-cyclic", "the stored file nests more than 60 levels");
        let block = match store.get(&c.to_bytes()) {
            Some(b) => b.clone(),
            None => return viol("stored-incomplete", format!("block {} is linked but not stored", short(c))),
        };
        let (links, data) = decode(&block)?;
        let mut kids = vec![];
        for l in &links {
            kids.push(go(store, &link_cid(l)?, b, memo, depth + 1)?);
        }
        let own = data.data.unwrap_or_default();
        ensure!(kids.is_empty() || own.is_empty(), "stored-unexpected", "link block {} has content of its own", short(c));
        let size = own.len() as u64 + kids.iter().map(|k| b[*k].size).sum::<u64>();
        let tsize = block.len() as u64 + kids.iter().map(|k| b[*k].tsize).sum::<u64>();
        b.push(FB { cid: *c, block: Rc::new(block), size, tsize, data: Rc::new(own), kids });
        memo.insert(*c, b.len() - 1);
        Ok(b.len() - 1)
    }
    let mut b = vec![];
    let root = go(store, root, &mut b, &mut BTreeMap::new(), 0)?;
    Ok(FileDag { b, root, meta: RMeta::default(), style: "imported", huge: false })
}

/// What is going on in one process of the importing node.
enum Job2<'a> {
    Import { leaf: usize, t: Task<'a>, stored: usize, total: u64 },
    Link { leaf: usize },
    Build { tree: usize, it: Option<PostOrderIterator>, out: Vec<Node>, stored: usize, ended: bool },
}

struct Plan {
    wrap: bool,
    ops: Vec<(Op, Option<usize>)>,
}
impl Plan {
    /// the operations with the real Cids of the leaves in place
    fn real(&self, roots: &[Option<(Cid, u64)>]) -> Option<Vec<Op>> {
        let mut v = vec![];
        for (op, l) in &self.ops {
            v.push(match (op, l) {
                (Op::Put { path, .. }, Some(l)) => {
                    let (c, s) = roots[*l]?;
                    Op::Put { path: path.clone(), cid: c, size: s }
                }
                (op, _) => op.clone(),
            });
        }
        Some(v)
    }
}

fn gen_plan(run: &mut Run, leaves: usize) -> Plan {
    let s = run.t.begin();
    let wrap = run.flip();
    let pr = Prof { dots: false, bad: run.pick(&[0u64, 2]), p_meta: run.pick(&[1u64, 4, 8]), long_names: run.chance(1, 6), opaque: false };
    let mut m = Model::new(wrap);
    let mut paths = vec![];
    let mut ops = vec![];
    let n = run.skewed(24) + 1;
    for _ in 0..n {
        let op = gen_op(run, &m, &paths, &pr);
        if op.path().is_empty() {
            continue;
        }
        if m.judge(&op).is_empty() {
            m.apply(&op);
            note(&mut paths, &op);
        }
        let l = match &op {
            Op::Put { .. } => Some(run.idx(leaves)),
            _ => None,
        };
        ops.push((op, l));
    }
    run.t.end(s);
    Plan { wrap, ops }
}

fn u22(run: &mut Run) -> Res {
    // ------------------------------------------------------------- what is to be published
    let nl = run.urange(1, 5);
    let mc = if run.thorough { 120 } else { 40 };
    let leaves: Vec<Leaf> = (0..nl)
        .map(|_| {
            if run.chance(1, 5) {
                Leaf::Symlink(gen_target(run))
            } else {
                Leaf::File(gen_job(run, mc, nl == 1))
            }
        })
        .collect();
    for l in &leaves {
        match l {
            Leaf::File(j) => {
                run.count("files");
                ev!(run, "file {}", j.desc());
            }
            Leaf::Symlink(t) => {
                run.count("symlinks");
                ev!(run, "symlink to {:?}", t);
            }
        }
    }
    let nt = run.urange(1, 2);
    let plans: Vec<Plan> = (0..nt).map(|_| gen_plan(run, nl)).collect();

    // ------------------------------------------------------------- the importing node
    let err = if run.flip() { run.range(1, 16) } else { 0 };
    let mut disk = Disk::default();
    if run.chance(1, 6) {
        disk.full_after = Some(run.urange(0, 30));
    }
    let mut crashes = run.urange(0, 3);
    let work: usize = leaves
        .iter()
        .map(|l| match l {
            Leaf::File(j) => j.content.len() / j.chunk + 2,
            Leaf::Symlink(_) => 1,
        })
        .sum::<usize>()
        + plans.iter().map(|p| p.ops.len()).sum::<usize>();
    // (root, cumulative size) of every leaf whose import was completed and synced
    let mut roots: Vec<Option<(Cid, u64)>> = vec![None; nl];
    let mut built: Vec<Option<BTreeMap<String, Node>>> = (0..nt).map(|_| None).collect();
    // reused by all symlinks, never emptied: the block is appended
    let mut buffer: Vec<u8> = vec![];
    'life: for life in 0..40 {
        if roots.iter().all(|r| r.is_some()) && built.iter().all(|b| b.is_some()) {
            break;
        }
        let crash_at = if crashes > 0 {
            crashes -= 1;
            Some(run.urange(1, work * 2 + 1))
        } else {
            None
        };
        ev!(run, "process start #{} with {} stored blocks", life, disk.durable.len());
        let mut jobs: Vec<Job2<'_>> = vec![];
        for (i, l) in leaves.iter().enumerate() {
            if roots[i].is_some() {
                continue;
            }
            match l {
                Leaf::File(j) => {
                    let mut t = Task::new(run, j, true);
                    t.src.live_on();
                    jobs.push(Job2::Import { leaf: i, t, stored: 0, total: 0 });
                }
                Leaf::Symlink(_) => jobs.push(Job2::Link { leaf: i }),
            }
        }
        for i in 0..nt {
            if built[i].is_none() {
                jobs.push(Job2::Build { tree: i, it: None, out: vec![], stored: 0, ended: false });
            }
        }
        let mut steps = 0;
        while !jobs.is_empty() {
            steps += 1;
            run.now += 5;
            if Some(steps) == crash_at {
                ev!(run, "crash after {} steps", steps);
                disk.crash(run);
                buffer.clear();
                continue 'life;
            }
            // a tree waits for its leaves
            let ready: Vec<usize> = (0..jobs.len())
                .filter(|k| match &jobs[*k] {
                    Job2::Build { tree, .. } => plans[*tree].ops.iter().all(|(_, l)| l.map_or(true, |l| roots[l].is_some())),
                    _ => true,
                })
                .collect();
            let k = ready[run.idx(ready.len())];
            run.sig(k as u64);
            let mut over = false;
            match &mut jobs[k] {
                Job2::Import { leaf, t, stored, total } => {
                    if *stored < t.blocks.len() {
                        let (c, b) = t.blocks[*stored].clone();
                        if disk.put(run, &c, &b, err) {
                            *stored += 1;
                            *total += b.len() as u64;
                        }
                    } else if t.done {
                        disk.sync();
                        let root = match t.blocks.last() {
                            Some(b) => b.0,
                            None => return viol("no-blocks", "nothing was emitted".into()),
                        };
                        ev!(run, "file #{} imported as {}", leaf, short(&root));
                        roots[*leaf] = Some((root, *total));
                        over = true;
                    } else {
                        t.step(run, false)?;
                    }
                }
                Job2::Link { leaf } => {
                    let target = match &leaves[*leaf] {
                        Leaf::Symlink(t) => t,
                        _ => unreachable!(),
                    };
                    let from = buffer.len();
                    lib(|| serialize_symlink_block(target, &mut buffer));
                    ensure!(buffer.len() > from, "symlink-empty", "nothing was appended for the symlink to {:?}", target);
                    let b = buffer[from..].to_vec();
                    let c = cid_v1(&b);
                    if disk.put(run, &c, &b, err) {
                        disk.sync();
                        roots[*leaf] = Some((c, b.len() as u64));
                        over = true;
                    }
                }
                Job2::Build { tree, it, out, stored, ended } => {
                    let plan = &plans[*tree];
                    match it {
                        None => {
                            let mut b = lib(|| BufferingTreeBuilder::new(opts_of(plan.wrap, None)));
                            let mut m = Model::new(plan.wrap);
                            for op in plan.real(&roots).expect("ready") {
                                let ok = m.judge(&op).is_empty();
                                let r = apply(&mut b, &op);
                                ensure!(r.is_ok() == ok, "accepted-differently", "{}: {:?}", op.desc(), r);
                                if ok {
                                    m.apply(&op);
                                }
                            }
                            *it = Some(lib(|| b.build()));
                        }
                        Some(i) => {
                            if *stored < out.len() {
                                let n = &out[*stored];
                                if disk.put(run, &n.cid, &n.block, err) {
                                    *stored += 1;
                                }
                            } else if *ended {
                                disk.sync();
                                ev!(run, "tree #{} built: {} directories", tree, out.len());
                                built[*tree] = Some(out.iter().map(|n| (n.path.clone(), n.clone())).collect());
                                over = true;
                            } else {
                                let bo = run.flip();
                                match step(i, bo) {
                                    Some(Ok(n)) => out.push(n),
                                    Some(Err(e)) => return viol("build-error", format!("{:?}", e)),
                                    None => *ended = true,
                                }
                            }
                        }
                    }
                }
            }
            if over {
                jobs.remove(k);
            }
        }
    }
    ensure!(roots.iter().all(|r| r.is_some()) && built.iter().all(|b| b.is_some()), "publishing-not-completed", "importing never completed although faults stopped");

    // ------------------------------------------------------------- what the other node must see
    let mut targets: BTreeMap<Cid, Rc<TNode>> = BTreeMap::new();
    for (i, l) in leaves.iter().enumerate() {
        let (root, _) = roots[i].expect("completed");
        let node = match l {
            Leaf::File(j) => {
                let dag = dag_of(&disk.durable, &root)?;
                ensure!(dag.content() == j.content, "stored-content-differs", "the blocks of file #{} do not contain its bytes ({})", i, j.desc());
                let nocc = dag.occs().len();
                TNode { cid: root, block: dag.root().block.clone(), tsize: dag.root().tsize, meta: RMeta::default(), nocc, kind: TKind::File(Rc::new(dag)) }
            }
            Leaf::Symlink(t) => {
                let b = disk.durable[&root.to_bytes()].clone();
                TNode { cid: root, tsize: b.len() as u64, block: Rc::new(b), meta: RMeta::default(), nocc: 1, kind: TKind::Symlink(t.as_bytes().to_vec()) }
            }
        };
        targets.insert(root, Rc::new(node));
    }
    let mut store = Blocks::default();
    for (k, b) in &disk.durable {
        store.0.insert(std::convert::TryFrom::try_from(&k[..]).expect("own key"), Rc::new(b.clone()));
    }
    let pool = Pool::new(3);
    let mut sessions: Vec<Box<dyn Session + '_>> = vec![];
    let mut occs = 0;
    for (i, plan) in plans.iter().enumerate() {
        let mut m = Model::new(plan.wrap);
        for op in plan.real(&roots).expect("ready") {
            if m.judge(&op).is_empty() {
                m.apply(&op);
            }
        }
        let built = built[i].as_ref().expect("completed");
        // directories the model knows must have been emitted
        for p in m.nodes().keys() {
            ensure!(built.contains_key(p), "directory-not-emitted", "directory {:?} was not emitted", p);
        }
        let tree = match model_tree(&m, &targets, built) {
            Some(t) => t,
            None => continue,
        };
        if tree.nocc > 1500 {
            continue;
        }
        occs += tree.nocc;
        for _ in 0..run.urange(1, 2) {
            let pol = CachePol::gen(run, &pool);
            let name = gen_root_name(run);
            run.count("walks");
            sessions.push(Box::new(WalkSession::new(tree.clone(), &name, pol, ALL)));
        }
        // every path resolves
        let mut ps: Vec<(String, Cid)> = vec![];
        paths_of(&tree, "", &mut ps);
        for (j, (p, c)) in ps.iter().enumerate() {
            if j < 4 || (ps.len() < 40 && run.flip()) || run.chance(4, ps.len().max(4) as u64) {
                run.count("resolved_paths");
                sessions.push(Box::new(PathSession::new(tree.cid, p, *c, CachePol::gen(run, &pool))));
            }
            if sessions.len() > 40 {
                break;
            }
        }
    }
    let files: Vec<Rc<FileDag>> = targets
        .values()
        .filter_map(|t| match &t.kind {
            TKind::File(f) => Some(f.clone()),
            _ => None,
        })
        .collect();
    for f in &files {
        for _ in 0..run.below(3) {
            let pol = CachePol::gen(run, &pool);
            let r = gen_range(run, f);
            run.count("range_reads");
            sessions.push(Box::new(RangeSession::new(f.clone(), r, pol, REPORT)));
        }
        if run.chance(1, 3) {
            let pol = CachePol::gen(run, &pool);
            run.count("whole_reads");
            sessions.push(Box::new(VisitSession::new(f.clone(), pol, ALL)));
        }
    }
    let cfg = gen_net(run);
    let n = sessions.len();
    let st = exchange(run, &cfg, &store, &mut sessions)?;
    run.weight += st.feeds.min(3);
    run.summary = format!("{} leaves, {} trees of {} occurrences, {} sessions, {} feeds", nl, nt, occs, n, st.feeds);
    Ok(())
}

/// Paths relative to the root and what they lead to.
fn paths_of(t: &TNode, at: &str, out: &mut Vec<(String, Cid)>) {
    for (n, c) in t.entries() {
        let p = if at.is_empty() { n } else { format!("{}/{}", at, n) };
        out.push((p.clone(), c.cid));
        paths_of(&c, &p, out);
    }
}

pub const U22: Prop = Prop {
    id: "U22",
    run: u22,
    quick: 90_000,
    thorough: 1_500_000,
    rule: "Every run publishes 1-5 files and symlinks and 1-2 directory trees from faulty readers on a crashing node with a failing disk, then another node walks them, reads ranges and whole files and resolves paths, all interleaved, over a faulty network until everything is complete; liveness is a bound on the steps after the last fault.",
    min_weight: 5,
    real: &["unixfs_v1::file::adder", "unixfs_v1::symlink", "unixfs_v1::dir::builder", "unixfs_v1::walk", "unixfs_v1::file::visit", "unixfs_v1::dir::resolve"],
    stub: &["byte sources", "disk (append log, write errors, full, torn last record)", "process crashes of both nodes", "network (delay, loss, duplication, reordering, corruption, partitions, timeouts)", "cooperative scheduler", "reference model of the tree and independent decoder (oracle)"],
    assumptions: &["blocks handed to the library are verified against their Cid", "the disk persists blocks in the order they were written"],
};
