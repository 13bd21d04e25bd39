//! World "hostile" once more: what the errors say about the blocks which were refused. U23.
use crate::core::*;
use crate::p_read::meta_of;
use crate::refpb::*;
use libipld::Cid;
use std::convert::TryFrom;
use unixfs_v1::dir::{MultipleMatchingLinks, ShardError};
use unixfs_v1::file::{FileError, FileReadFailed};
use unixfs_v1::{walk, InvalidCidInLink, LookupError, Metadata, ResolveError, UnexpectedNodeType};

/// An error, taken apart.
pub struct Told {
    pub text: String,
    pub what: What,
}
impl std::fmt::Display for Told {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.text)
    }
}

pub struct BadLink {
    nth: usize,
    hash: Vec<u8>,
    name: String,
    source: String,
}
pub struct Node {
    dir: bool,
    file: bool,
    shown: String,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sizes {
    More,
    Less,
    Either,
}
pub enum What {
    /// of no use to anyone; not in a block which is well-formed
    Unparsed,
    NoData,
    Link(BadLink),
    Name(usize, String),
    /// (met, it is only wrong here)
    Node(Node, bool),
    Directory(String),
    Shard { hash_type: Option<u64>, fanout: Option<u64> },
    ShardFile { filesize: Option<u64>, blocksizes: Vec<u64> },
    Two((usize, Cid), (usize, Cid)),
    OneValid((usize, Cid), BadLink),
    Mismatch,
    NoContent,
    Meta(Metadata),
    NoFileSize,
    Sizes(Sizes),
    NotOfFiles { hash_type: Option<u64>, fanout: Option<u64> },
}

fn link(e: InvalidCidInLink) -> BadLink {
    BadLink { nth: e.nth, hash: e.hash.to_vec(), name: e.name.to_string(), source: e.source.to_string() }
}
fn node(u: UnexpectedNodeType) -> Node {
    Node { dir: u.is_directory(), file: u.is_file(), shown: format!("{:?}", u) }
}
fn shard(e: ShardError) -> What {
    match e {
        ShardError::UnsupportedProperties { hash_type, fanout } => What::Shard { hash_type, fanout },
        ShardError::UnexpectedProperties { filesize, blocksizes } => What::ShardFile { filesize, blocksizes },
    }
}
fn file(e: FileError) -> What {
    use FileError::*;
    match e {
        LinksAndBlocksizesMismatch => What::Mismatch,
        NoLinksNoContent => What::NoContent,
        NonRootDefinesMetadata(m) => What::Meta(m),
        IntermediateNodeWithoutFileSize => What::NoFileSize,
        TreeExpandsOnLinks => What::Sizes(Sizes::More),
        TreeJumpsBetweenLinks => What::Sizes(Sizes::Less),
        TreeOverlapsBetweenLinks | EarlierLink => What::Sizes(Sizes::Either),
        UnexpectedRawOrFileProperties { hash_type, fanout } => What::NotOfFiles { hash_type, fanout },
    }
}
fn lookup(e: LookupError) -> What {
    match e {
        LookupError::Multiple(m) => {
            let first = match &m {
                MultipleMatchingLinks::Two { first, .. } | MultipleMatchingLinks::OneValid { first, .. } => *first,
            };
            match m {
                MultipleMatchingLinks::Two { second, .. } => What::Two(first, second),
                MultipleMatchingLinks::OneValid { second, .. } => What::OneValid(first, link(second)),
            }
        }
        LookupError::InvalidCid(l) => What::Link(link(l)),
        LookupError::UnexpectedBucketType(u) => What::Node(node(u), false),
        LookupError::Shard(s) => shard(s),
        LookupError::Read(Some(_)) => What::Unparsed,
        LookupError::Read(None) => What::NoData,
    }
}

/// all of what an error can be asked for as an error
fn shown(e: &(dyn std::error::Error + 'static)) -> String {
    let mut s = format!("{} {:?}", e, e);
    let mut at = e.source();
    let mut n = 0;
    while let Some(x) = at {
        s.push_str(&format!(" <- {}", x));
        at = x.source();
        n += 1;
        if n > 10 {
            return s + " <- and so on";
        }
    }
    s
}

pub fn of_visit(e: FileReadFailed) -> Told {
    let text = shown(&e);
    let what = match e {
        FileReadFailed::File(e) => file(e),
        FileReadFailed::UnexpectedType(u) => What::Node(node(u), false),
        FileReadFailed::Read(Some(_)) => What::Unparsed,
        FileReadFailed::Read(None) => What::NoData,
        FileReadFailed::InvalidCid(l) => What::Link(link(l)),
    };
    Told { text, what }
}
pub fn of_walk(e: walk::Error) -> Told {
    use walk::Error::*;
    let text = shown(&e);
    let what = match e {
        UnsupportedType(u) => What::Node(node(u), true),
        UnexpectedType(u) => What::Node(node(u), false),
        DagPbParsingFailed(_) | UnixFsParsingFailed(_) => What::Unparsed,
        EmptyDagPbNode => What::NoData,
        InvalidCid(l) => What::Link(link(l)),
        InvalidLinkName(n, s) => What::Name(n, s),
        File(e) => file(e),
        UnsupportedDirectory(d) => What::Directory(d.to_string()),
        UnsupportedHAMTShard(s) => shard(s),
    };
    Told { text, what }
}
pub fn of_resolve(e: ResolveError) -> Told {
    let text = shown(&e);
    let what = match e {
        ResolveError::UnexpectedType(u) => What::Node(node(u), false),
        ResolveError::UnexpectedDirProperties(d) => What::Directory(d.to_string()),
        ResolveError::Read(_) => What::Unparsed,
        ResolveError::Lookup(e) => lookup(e),
    };
    Told { text, what }
}
pub fn of_lookup(e: LookupError) -> Told {
    let text = shown(&e);
    // it stays what it is as the more general one
    match e.into_resolve_error() {
        ResolveError::Lookup(e) => Told { text: text + " " + &e.to_string(), what: lookup(e) },
        other => Told { text: format!("{} became {}", text, other), what: of_resolve(other).what },
    }
}

const KINDS: [&str; 6] = ["Raw", "Directory", "File", "Metadata", "Symlink", "HAMTShard"];

/// What the block was read as.
pub enum As<'a> {
    /// of a file; what the parents assigned to it
    File(Vec<u64>),
    Root,
    /// met by a walk: directory entry, or the root
    Entry,
    Bucket,
    /// first block of a lookup of the name
    Resolve(&'a str),
    ShardOf(&'a str),
}

fn has(shown: &str, v: Option<u64>) -> bool {
    v.map_or(true, |v| shown.contains(&v.to_string()))
}

/// Is what was said true of the block? `None`: not decided.
pub fn truth(run: &mut Run, told: &Told, block: &[u8], at: As<'_>, desc: &str) -> Res {
    let (links, data) = match dec_node(block) {
        Some(x) => x,
        None => return Ok(()),
    };
    let d = match data.as_deref() {
        Some(d) if !d.is_empty() => match dec_data(d) {
            Some(d) => Some(d),
            None => return Ok(()),
        },
        _ => None,
    };
    // only of blocks whose encoding is beyond all doubt
    let plain = match &d {
        Some(d) => enc(&links, d) == block && d.typ <= u32::MAX as u64,
        None => enc_node(&links, data.as_deref()) == block,
    };
    if !plain {
        run.count("probe_error_undecided");
        return Ok(());
    }
    let false_ = |why: String| -> Res { viol("error-untrue", format!("{}: {}, {}", told.text.chars().take(400).collect::<String>(), why, desc)) };
    let name_of = |n: usize| -> String { String::from_utf8_lossy(&links[n].name.clone().unwrap_or_default()).into_owned() };
    let needle = match at {
        As::Resolve(n) | As::ShardOf(n) => Some(n),
        _ => None,
    };
    let sharded = d.as_ref().map_or(false, |d| d.typ == T_HAMT);
    let matches = |n: usize| -> bool {
        let name = name_of(n);
        match needle {
            None => true,
            Some(x) if sharded => name.len() > 2 && name.get(2..) == Some(x),
            Some(x) => name == x,
        }
    };
    let bad = |b: &BadLink| -> Option<String> {
        let l = match links.get(b.nth) {
            Some(l) => l,
            None => return Some(format!("there is no link #{} among {}", b.nth, links.len())),
        };
        let hash = l.hash.clone().unwrap_or_default();
        if hash != b.hash {
            return Some(format!("the hash of link #{} is {:?}, not {:?}", b.nth, hash, b.hash));
        }
        if name_of(b.nth) != b.name {
            return Some(format!("the name of link #{} is {:?}, not {:?}", b.nth, name_of(b.nth), b.name));
        }
        match Cid::try_from(&hash[..]) {
            Ok(c) => Some(format!("the Cid of link #{} is {}", b.nth, c)),
            Err(e) if e.to_string() != b.source => Some(format!("link #{} fails with {}", b.nth, e)),
            Err(_) => None,
        }
    };
    let good = |(n, c): &(usize, Cid)| -> Option<String> {
        match links.get(*n) {
            None => Some(format!("there is no link #{} among {}", n, links.len())),
            Some(l) if Cid::try_from(l.hash.clone().unwrap_or_default()).ok() != Some(*c) => Some(format!("link #{} does not lead to {}", n, short(c))),
            Some(_) if !matches(*n) => Some(format!("link #{} is named {:?}", n, name_of(*n))),
            Some(_) => None,
        }
    };
    let none = RData::default();
    let dd = d.as_ref().unwrap_or(&none);
    run.count("probe_error_judged");
    match &told.what {
        What::Unparsed if dd.typ > T_HAMT => {
            run.count("probe_error_undefined_type");
            Ok(())
        }
        What::Unparsed => false_("the block is well-formed".into()),
        What::NoData => {
            run.count("probe_error_no_data");
            ensure_none(d.is_some().then(|| "the block has UnixFS data".to_string()), false_)
        }
        What::Link(b) => {
            run.count("probe_error_link");
            if let Some(why) = bad(b) {
                return false_(why);
            }
            let bucket = sharded && name_of(b.nth).len() == 2;
            ensure_none((needle.is_some() && !matches(b.nth) && !bucket).then(|| format!("link #{} is of no interest", b.nth)), false_)
        }
        What::Name(n, s) => {
            run.count("probe_error_name");
            if *n >= links.len() || name_of(*n) != *s {
                return false_(format!("the name of link #{} is {:?}", n, links.get(*n).map(|_| name_of(*n))));
            }
            let own = if sharded { s.get(2..) } else { Some(&s[..]) };
            ensure_none(own.filter(|x| sharded && x.is_empty() || crate::gen::valid_name(x)).map(|x| format!("nothing is wrong with the name {:?}", x)), false_)
        }
        What::Node(n, unsupported) => {
            run.count("probe_error_type");
            let d = match &d {
                Some(d) => d,
                None => return false_("the block has no UnixFS data".into()),
            };
            if n.dir != [T_DIR, T_HAMT].contains(&d.typ) || n.file != (d.typ == T_FILE) || !n.shown.contains(&d.typ.to_string()) || !n.shown.contains(KINDS[d.typ as usize % 6]) {
                return false_(format!("the type of the block is {}", d.typ));
            }
            let right = match at {
                As::File(_) | As::Root => [T_FILE, T_RAW].contains(&d.typ),
                As::Entry => d.typ != T_META,
                As::Bucket | As::ShardOf(_) => d.typ == T_HAMT,
                As::Resolve(_) => [T_DIR, T_HAMT].contains(&d.typ),
            };
            let wrong_kind = *unsupported && d.typ != T_META;
            ensure_none((right || wrong_kind).then(|| format!("type {} is fine here", d.typ)), false_)
        }
        What::Directory(shown) => {
            run.count("probe_error_directory");
            let hex: String = dd.data.clone().unwrap_or_default().iter().map(|b| format!("{:02x}", b)).collect();
            if dd.typ != T_DIR {
                return false_(format!("the type of the block is {}", dd.typ));
            }
            if !(has(shown, dd.filesize) && has(shown, dd.hash_type) && has(shown, dd.fanout) && shown.contains(&dd.blocksizes.len().to_string()) && shown.contains(&hex)) {
                return false_("not the properties of the block".into());
            }
            let fine = dd.filesize.is_none() && dd.blocksizes.is_empty() && dd.hash_type.is_none() && dd.fanout.is_none() && dd.data.as_ref().map_or(true, |x| x.is_empty());
            ensure_none(fine.then(|| "the directory has no such properties".to_string()), false_)
        }
        What::Shard { hash_type, fanout } => {
            run.count("probe_error_shard");
            let same = (*hash_type, *fanout) == (dd.hash_type, dd.fanout);
            let fine = (*hash_type, *fanout) == (Some(34), Some(256));
            ensure_none((!sharded || !same || fine).then(|| format!("the block has type {} and {:?} {:?}", dd.typ, dd.hash_type, dd.fanout)), false_)
        }
        What::ShardFile { filesize, blocksizes } => {
            run.count("probe_error_shard");
            let same = *filesize == dd.filesize && *blocksizes == dd.blocksizes;
            let fine = filesize.is_none() && blocksizes.is_empty();
            ensure_none((!sharded || !same || fine).then(|| format!("the block has type {} and {:?} {:?}", dd.typ, dd.filesize, dd.blocksizes)), false_)
        }
        What::Two(a, b) => {
            run.count("probe_error_two_links");
            ensure_none(good(a).or_else(|| good(b)).or_else(|| (a.0 >= b.0).then(|| "not two links".to_string())), false_)
        }
        What::OneValid(a, b) => {
            run.count("probe_error_two_links");
            let other = b.nth < links.len() && (!matches(b.nth) || b.nth <= a.0);
            ensure_none(good(a).or_else(|| bad(b)).or_else(|| other.then(|| "not two matching links".to_string())), false_)
        }
        What::Mismatch => ensure_none((links.len() == dd.blocksizes.len()).then(|| format!("there are {} links and block sizes", links.len())), false_),
        What::NoContent => {
            let content = dd.data.as_ref().map_or(false, |x| !x.is_empty());
            ensure_none((!links.is_empty() || content || dd.filesize.unwrap_or(0) == 0).then(|| "the block has content, links or no size".to_string()), false_)
        }
        What::Meta(m) => {
            run.count("probe_error_metadata");
            let root = !matches!(at, As::File(_));
            let none = dd.meta.mode.is_none() && dd.meta.mtime.is_none();
            ensure_none((root || none || meta_of(m) != dd.meta.seen()).then(|| format!("root: {}, metadata of the block: {:?}", root, dd.meta)), false_)
        }
        What::NoFileSize => ensure_none((links.is_empty() || dd.filesize.is_some()).then(|| format!("{} links, file size {:?}", links.len(), dd.filesize)), false_),
        What::Sizes(s) => {
            run.count("probe_error_sizes");
            let own: u128 = if links.is_empty() { dd.data.as_ref().map_or(0, |x| x.len()) as u128 } else { dd.blocksizes.iter().map(|x| *x as u128).sum() };
            let declared = dd.filesize.map(|x| x as u128).unwrap_or(own);
            let (mut more, mut less) = (own > declared, own < declared);
            if let As::File(assigned) = &at {
                more |= assigned.iter().any(|a| declared > *a as u128);
                less |= assigned.iter().any(|a| declared < *a as u128);
            }
            let ok = match s {
                Sizes::More => more,
                Sizes::Less => less,
                Sizes::Either => more || less,
            };
            ensure_none((!ok).then(|| format!("{} bytes below, {:?} declared", own, dd.filesize)), false_)
        }
        What::NotOfFiles { hash_type, fanout } => {
            let same = (*hash_type, *fanout) == (dd.hash_type, dd.fanout);
            ensure_none((!same || hash_type.is_none() && fanout.is_none()).then(|| format!("the block has {:?} {:?}", dd.hash_type, dd.fanout)), false_)
        }
    }
}

fn ensure_none(why: Option<String>, f: impl Fn(String) -> Res) -> Res {
    match why {
        None => Ok(()),
        Some(w) => f(w),
    }
}
