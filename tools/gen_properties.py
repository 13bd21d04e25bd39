#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

ADD="src/file/adder.rs"; VIS="src/file/visit.rs"; RD="src/file/reader.rs"; WALK="src/walk.rs"; PB="src/pb.rs"
SH="src/dir/sharded_lookup.rs"; DIR="src/dir.rs"; BUF="src/dir/builder/buffered.rs"; IT="src/dir/builder/iter.rs"; CPB="src/dir/builder/custom_pb.rs"; DB="src/dir/builder/dir_builder.rs"

p("U01","Import result is independent of how the input stream is fragmented",
  "Importing a given content with a given chunk size and branching factor emits the same blocks with the same Cids in the same order, however the content is cut into pushes (single bytes, empty pushes, pieces straddling or covering many chunks, re-pushing the unconsumed rest). This also holds while any number of other imports are interleaved in the same process, whichever thread each call is made on, and for a builder-configured importer as well as a default one.",
  ["inputs","schedules"],"all contents, all chunk sizes >= 1 and branching factors >= 2, all sequences of read sizes a stream can deliver, all interleavings of concurrent imports",
  "the tests push a handful of fixed texts at a few constant slice sizes, one import at a time; fragmentation patterns that vary inside one import and the buffered/unbuffered path switches are not sampled",
  [ADD],[("internal buffer plus whole-chunk fast path",ADD+": FileAdder::push"),("Chunker::accept",ADD)],["FileAdder::push","FileAdder::finish"])

p("U02","An imported file has the canonical balanced layout",
  "The blocks emitted for a file are exactly those of the balanced dag-pb layout: leaves of exactly the chunk size (only the last one may be shorter), link blocks filled left to right with at most the branching factor of children, all leaves at the same depth, one single root, and every block addressed by the CIDv1/dag-pb/sha2-256 of its bytes. An empty file is one empty leaf and a file of one chunk is that one leaf; an independent implementation of the layout fed with the same bytes produces the same root Cid.",
  ["inputs","configurations","schedules"],"all contents and lengths including the powers of the branching factor and their neighbours, all chunk sizes >= 1 and branching factors >= 2, all stream deliveries",
  "tests compare a dozen known root Cids; deeper trees, lengths around level boundaries, and the in-place compaction when several levels are pending are only hit at those points",
  [ADD],[("in-place level compaction",ADD+": BalancedCollector::flush_links"),("leaf flush",ADD+": FileAdder::flush_buffered_leaf")],["blocks returned by push and finish"],
  [dict(name="unflushed_links",meaning="links waiting for a parent block, by depth",where=ADD)])

p("U03","Pushing always makes progress and accounts for every byte",
  "Each push of a non-empty input consumes at least one byte and never more than given, and returns at most two new blocks. After every push the leaves emitted so far contain exactly the consumed bytes in order except for a remainder smaller than one chunk, so at whatever point the stream ends (cleanly, early, or after errors and retries of the reader), finishing yields a file of exactly the bytes consumed so far. The size hint is never zero, and a push of at least the hinted amount made when nothing is buffered completes a leaf.",
  ["inputs","schedules","fault_sequences"],"all push sequences, all points where the source stops, all stream faults (short reads, zero reads, interrupted reads, failure followed by finish)",
  "unit tests always push complete contents and only check the final root; intermediate accounting and stopping points are not observed",
  [ADD],[("accepted/ready split",ADD+": Chunker::accept"),("push/finish",ADD)],["consumed count and blocks of each push","FileAdder::size_hint"])

p("U04","A crash during import never leaves a dangling parent, and re-import recovers",
  "Blocks are emitted children before parents and the root last, so if blocks are stored in emission order and the process crashes at any point, every stored block has its whole subtree stored. The root is emitted exactly once and last, reaches every emitted block, and re-importing the same content onto whatever survived completes to the same root with nothing missing.",
  ["crash_points","inputs","fault_sequences"],"every crash point between and inside block writes, torn/lost/full-disk writes, any content, chunk size and branching factor, repeated crashes",
  "no test looks at the order of emission nor at partial results; crash points are not enumerated anywhere",
  [ADD],[("link block is created only after all of its children",ADD+": BalancedCollector::flush_links")],["order of blocks from push and finish"])

p("U05","Recorded sizes are truthful for files and directories",
  "In every imported file block the file size equals the number of content bytes below it and each block size equals the file size of the child it describes; every link's cumulative size equals the total encoded size of the linked block and everything below it (counted per link). Directory trees report for every directory the encoded size of its block plus the cumulative sizes of its entries, also when entry sizes exceed 32 bits, and readers report the total file size consistently on every block of the file.",
  ["inputs","configurations","schedules"],"all contents, all trees, all size magnitudes up to 2^63, whichever order blocks and operations arrive in",
  "tests compare a few Cids of small trees which only implies sizes at those magnitudes; nothing checks cumulative sizes in deep directory trees or large sizes",
  [ADD,IT,CPB,RD],[("partition_link sums",ADD),("render_directory total_size",IT),("file_size of a visit",RD)],["encoded blocks","TreeNode::total_size","FileVisit::file_size","ContinuedWalk::File"])

p("U06","Reading a whole file reproduces its bytes for any tree shape and delivery",
  "Starting from the root block and supplying each requested block, a whole-file visit returns exactly the content bytes in order and ends exactly after the last block, for every well-formed tree (single block, balanced, trickle-like, uneven, with empty or repeated blocks, Raw or File leaves, with or without optional size fields, with the fields of a block in any order and fields unknown to UnixFS among them). The result does not depend on network delay, loss, duplication, reordering, prefetching, on the threads the calls are made on, or on restarting the visit after cancellations, and the reported size and metadata are those of the root throughout.",
  ["inputs","schedules","fault_sequences"],"all well-formed file DAGs, all delivery orders and losses, all cancellation points",
  "four fixture files are read in one fixed order; shapes beyond those fixtures, repeated blocks, and interleaved or restarted reads are not exercised",
  [VIS,RD,PB],[("depth-first pending stack",VIS+": FileVisit::continue_walk"),("range assignment to links",PB+": RangeLinks")],["IdleFileVisit::start","FileVisit::continue_walk"])

p("U07","A range read returns exactly the range and fetches only blocks touching it",
  "A visit with a target byte range returns, concatenated, exactly the bytes of the file in the intersection of the range and the file, for every range including empty ones, ones beyond the end and ones past 4 GiB, on every well-formed tree. It never requests a block whose byte span lies entirely outside the range (spans which merely touch its boundary may be requested), and requests every block at most once per occurrence in the tree.",
  ["inputs","schedules","fault_sequences"],"all files, tree shapes, ranges and deliveries",
  "three ranges over one five-block file are tested, and a code comment says the slicing must have bugs",
  [VIS],[("range filter and slicing",VIS+": block_is_in_target_range, target_slice")],["IdleFileVisit::with_target_range","FileVisit::pending_links"])

p("U08","Wrong or inconsistent file blocks never yield misplaced bytes",
  "When a block of a file is replaced by another parseable block (misdelivered, replayed, stale or forged), the visit or walk either reports an error or has delivered bytes only at the offsets the tree assigns to them: every byte segment returned is exactly the data of the supplied leaf and starts where the previous segment ended. A read that completes without error has delivered exactly the declared number of bytes of the file (or of the requested range); in particular a block that covers more or less than its parent declared, blocks overlapping or leaving holes, a non-root block with metadata, or a block which is not of a file (of another or of an undefined kind) are reported as errors.",
  ["inputs","fault_sequences","schedules"],"all file DAGs, all substitutions of blocks by other blocks at any step, all inconsistent size fields",
  "the tests probe single comparisons of the validation helper; whole reads with substituted or inconsistent blocks are never run",
  [RD,VIS,PB],[("continuity checks",RD+": Ending::check_is_suitable_next"),("size checks",RD+": FileReader::from_parts")],["bytes and errors of continue_walk"])

p("U09","Hostile blocks cannot crash or hang a file read",
  "Whatever bytes are supplied as the root block or as any following block of a file visit, each call returns in bounded time and memory with either content or an error, without panicking. A failed read affects nothing but its own visit: other visits, later visits and re-used caches behave as if it had never happened.",
  ["inputs","fault_sequences","schedules"],"all byte strings at all steps of all visits, with and without target ranges, interleaved with healthy visits",
  "no test feeds malformed or bit-flipped blocks",
  [RD,VIS,PB,"src/pb/merkledag.rs","src/pb/unixfs.rs"],[("fallible parsing",PB),("error returns",RD)],["results of start and continue_walk"])

p("U10","Walking a tree reports every entry exactly once, in order, with its attributes",
  "Walking from a root Cid and supplying the requested blocks reports every directory, file, symlink and HAMT bucket of the tree exactly once per occurrence in depth-first link order, each with its own Cid, its path below the given root name, its kind (the root as root directory, plain directories below it as directories), its metadata, and for files their total size and exact content with correct first and last flags. This holds for arbitrarily nested plain and sharded directories (including empty ones, nested buckets, shared subtrees, any valid entry names, and UnixFS fields in any order with unknown ones among them) and independently of delivery delays, duplicates, losses and prefetching; the walk announces its end exactly after the last entry.",
  ["inputs","schedules","fault_sequences"],"all well-formed UnixFS trees, all root names, all block deliveries",
  "nine fixture trees are walked; buckets below buckets, empty subdirectories in shards, deep ascents, and adversarial names never occur in them",
  [WALK],[("pending stack with depths",WALK+": Walker::next"),("path maintenance",WALK+": InnerEntry::set_path, as_bucket")],["ContinuedWalk","Walker::should_continue"],
  [dict(name="current/next/pending",meaning="entry being reported, next link, remaining links",where=WALK)])

p("U11","Pending links name the block needed next and exactly the blocks still to come",
  "At every point of a walk or file visit the first pending link is the block the next step requires, and the remaining pending links are the other known links still to be visited, in exactly the order they will be required, with nothing omitted, repeated or already consumed. Prefetching any subset of them in any order therefore never changes the outcome nor fetches an unneeded block; a sharded lookup likewise names first the bucket it needs next and lists exactly the known buckets not yet searched.",
  ["schedules","inputs","histories"],"all steps of all walks, visits and lookups over all trees, all prefetch strategies",
  "the tests only follow the first link; the remainder of the iterator is never compared with the future of the walk",
  [WALK,VIS,SH],[("pending_links of walker, visit and lookup",WALK+", "+VIS+", "+SH)],["pending_links"])

p("U12","Hostile blocks cannot crash or hang a walk",
  "Whatever bytes are supplied for any requested block of a walk (unparseable, bit-flipped, truncated, of another type, with unusable or hostile link names, invalid Cids or unsupported properties), each step returns in bounded time with either a progress report or an error and without panicking, and each reported path stays a path of the names in the supplied blocks. A block of a kind which UnixFS does not define, or which cannot be walked, is an error, never an entry. A walk which failed does not claim to be able to continue and affects no other walk, and a walk which has not failed keeps reporting the entries of the blocks it was given.",
  ["inputs","fault_sequences","schedules"],"all byte strings at all steps of all walks, interleaved with healthy walks",
  "one fixture with an unsupported directory is tested; malformed blocks are never supplied in later steps",
  [WALK,RD,PB],[("error mapping",WALK+": impl From for Error"),("link conversion",WALK+": convert_link, convert_sharded_link")],["Walker::next results"])

p("U13","Re-used caches never change results",
  "For walks, file visits and directory lookups, passing any cache (none, fresh, one filled by an earlier traversal, one left behind by a failed or cancelled traversal, or one shared by interleaved traversals) gives exactly the same reports, errors, requested blocks and results as passing none.",
  ["histories","schedules","fault_sequences"],"all sequences of traversals over all trees sharing caches in any way, including failures and cancellations in between",
  "tests pass None or re-use a cache after success on one fixture; caches surviving failures or interleaving are never tried",
  [VIS,SH,WALK],[("clear on conversion",VIS+": Cache::from; "+SH+": Cache::from")],["results with and without caches"])

p("U14","Name resolution in directories is exact",
  "Resolving a name in a plain directory or a HAMT-sharded directory returns the target of the entry with exactly that name, 'not found' only after every bucket that could hold it was consulted and none has it, and an error when the same name occurs more than once in a block, when the entry found has no valid Cid, or when a block is of a kind which has no entries or is an unsupported directory (the error tells which kind was met). Each bucket is requested at most once per link to it, the answer does not depend on delivery faults or on converting the lookup to own its needle, and names are compared byte for byte (including multi-byte, short, prefix-like and bucket-like names).",
  ["inputs","schedules","fault_sequences"],"all directories and shard shapes, all names present or absent, all deliveries",
  "a handful of names of three fixtures are resolved; near-miss names, deep shards and duplicate names are not generated",
  [DIR,SH],[("plain matching",DIR+": resolve"),("bucket search",SH+": ShardedLookup::partition")],["MaybeResolved"])

p("U15","Hostile blocks cannot crash or hang name resolution or data extraction",
  "Whatever bytes are supplied to resolve, to a continued sharded lookup, or to the dag-pb data extraction and wrapping functions, each call returns in bounded time with a result or an error and without panicking. The extracted data is exactly the last Data field of the block as an independent decoder sees it, identically through the borrowed and the wrapping interface, and a failed lookup affects no other lookup.",
  ["inputs","fault_sequences","schedules"],"all byte strings as any block of any lookup or extraction, interleaved with healthy lookups",
  "only well-formed fixtures are resolved or wrapped",
  [DIR,SH,"src/dagpb.rs",PB],[("fallible parsing",DIR),("subslice_to_range","src/dagpb.rs")],["resolve","node_data","wrap_node_data"])

p("U16","Resolving and walking agree about every directory",
  "For every directory in a tree, each entry a walk reports under it is found by resolving its name starting from the directory's block and leads to the same Cid, and names which the walk does not report are not found. Path-by-path resolution of any walked path from the root thus reaches the walked entry, for plain and sharded directories alike and under any delivery of blocks.",
  ["inputs","schedules"],"all well-formed trees, all paths in them and near-miss paths, all deliveries",
  "walk and resolve are tested on separate fixtures with separate expectations",
  [WALK,DIR,SH],[("both interpret the same links",WALK+", "+DIR)],["Walker::next vs resolve"])

p("U17","A built directory tree does not depend on the order of operations",
  "The same set of accepted entries and directory metadata yields the same nodes (path, Cid, bytes, sizes, in the same order) whatever the order in which they were added, whatever rejected operations happened in between, whatever other builders are interleaved, whichever threads the calls are made on, and whatever the process' hash randomisation. The nodes are exactly those of the canonical encoding: entries sorted by the bytes of their names, links before data, CIDv1/dag-pb/sha2-256.",
  ["schedules","inputs","histories"],"all sets of paths, all permutations and interleavings of operations, all hash seeds",
  "a few trees are built in one fixed order with expected Cids",
  [BUF,DB,IT,CPB],[("ordered map of nodes",DB),("post-order rendering",IT)],["PostOrderIterator items"])

p("U18","The tree builder accepts exactly valid operations; rejected ones change nothing",
  "Adding a link is rejected for rooted paths, repeated slashes, trailing slashes, already existing paths, and paths below an existing leaf, and without the wrapping option for a second root entry; setting metadata is rejected under the same rules except that existing directories are allowed; everything else is accepted. A rejected operation reports the matching reason and leaves the tree that is finally built as if the operation had never been attempted.",
  ["histories","inputs","configurations"],"all sequences of put and set-metadata operations with valid and invalid paths, both root modes",
  "tests trigger each rejection once on tiny trees; sequences mixing failures and successes are not explored",
  [BUF,DB],[("path validation",BUF+": modify_with"),("entry insertion",DB)],["put_link/set_metadata results and the built tree"])

p("U19","Tree nodes are emitted children first; a crash leaves no dangling directory",
  "Iterating a built tree emits every directory exactly once, each with its full path, after all directories below it, and the topmost directory last; storing nodes in emission order and crashing at any point leaves no stored directory whose subdirectories are missing, and rebuilding completes to the same root. Owned and borrowed iteration, mixed in any way, give the same nodes.",
  ["crash_points","inputs","schedules"],"every crash point in the emission of all trees (deep, wide, similarly named siblings), all mixes of owned and borrowed steps",
  "tests compare the list of a few shallow trees; no crash points, no mixing, few name patterns",
  [IT],[("explicit post-order stack",IT+": next_borrowed"),("path maintenance",IT+": update_full_path")],["order of PostOrderIterator items"])

p("U20","The directory block size limit is enforced exactly",
  "With a limit set, no emitted directory block is larger than the limit, an error carrying the exact offending size is reported if and only if some directory's encoding exceeds it, every directory preceding the offending one is still emitted unchanged, and nothing is emitted after the error. Without a limit every tree is emitted; at default settings the limit is 512 KiB.",
  ["inputs","configurations"],"all trees and limits, in particular limits equal to, one below and one above each block's size; all points at which the consumer continues after the failure",
  "one tree at one limit is tested, and iteration is not continued after the failure",
  [IT],[("size check before rendering",IT+": render_directory")],["TreeConstructionFailed and emitted blocks"])

p("U21","Metadata survives from writer to reader",
  "Mode and modification time attached to a directory when building a tree are stored in that directory's block and are reported for it when the tree is walked, in each form they can be asked for, including times before 1970 and nanoseconds, and entries without metadata report none. For files (over all of their segments) and symlinks and sharded directories the walk reports exactly the metadata stored in their root block, whatever entries surround them.",
  ["inputs","histories","schedules"],"all trees with any placement of metadata, all modes and times, all deliveries and interleavings",
  "fixtures contain no metadata on directories of a built tree; mixtures of entries with and without metadata never occur",
  [BUF,IT,WALK,"src/lib.rs"],[("metadata in directory nodes",IT),("metadata propagation in the walk",WALK)],["built blocks","ContinuedWalk metadata"])

p("U22","A tree imported on a crashing node reads back identically over a lossy network",
  "Files, symlinks and directories imported and built on a node whose process and disk may fail, then fetched by another node over a network that delays, drops, duplicates, reorders and corrupts blocks (corruption being detected by hash), are walked and read back with identical paths, contents and metadata. Every path resolves from the root to the walked entry, any range of any file reads back exactly, and once faults stop the whole exchange completes within a number of steps bounded by the number of blocks.",
  ["inputs","schedules","crash_points","fault_sequences"],"all source trees, all import configurations, all crash points, disk faults, network schedules and reader interleavings",
  "no test combines import, directory building and reading, and none has faults",
  [ADD,BUF,IT,WALK,VIS,DIR,SH,"src/symlink.rs"],[("the whole public API",  "src/lib.rs")],["public API only"])

p("U23","Errors say truthfully what is wrong with the block refused",
  "When a visit, walk or lookup refuses a block, the error it reports is true of that very block: a link which cannot be used is identified by its index, name and raw hash, multiple matches by two distinct links with the wanted name and their targets, an unexpected kind of node by its type, an inconsistency of sizes by its direction, and unsupported properties, metadata, missing data or missing sizes by the values the block has. No error is given for a defect the block does not have, whatever was traversed before, and every error can be displayed and traced to its source.",
  ["inputs","fault_sequences"],"all forged, stale and misdelivered blocks at every step of every traversal",
  "tests check that some error is returned, for a few blocks, and not what it says",
  [WALK,VIS,DIR,SH,"src/dir/directory.rs","src/file/reader.rs","src/lib.rs"],[("error types and their conversions","src/lib.rs"),("support checks",SH),("size checks","src/file/reader.rs")],["Err of IdleFileVisit::start, FileVisit::continue_walk, Walker::next, resolve, ShardedLookup::continue_walk"])

p("U24","Memory held is bounded by what is pending, and all of it is given back",
  "Between two calls an import holds no more than its buffer (in proportion to the chunk size, not the file), the links to the leaves of the last link block and one link per link block written; a visit, walk or lookup holds no more than its pending links, the names in them and its caches, however much it has already traversed; a tree builder and its iterator hold no more than what was put in, in proportion. Once they are finished, cancelled or have failed, and caches are dropped, nothing is left allocated.",
  ["histories","fault_sequences","schedules"],"all interleavings of imports, traversals and builders of a long-lived process, with cancellations, refusals and lies at any step",
  "no test looks at memory; a leak or a structure which only grows changes no result, and shows only over long histories",
  [ADD,VIS,WALK,SH,"src/dir/builder/iter.rs","src/dir/builder/buffered.rs"],[("block buffer and unflushed links",ADD),("pending links and caches",VIS),("pending entries",WALK),("pending buckets",SH),("stack of nodes to be visited","src/dir/builder/iter.rs")],["bytes allocated and not freed between calls of every public stateful type"])

p("U25","Whatever is shown (Debug, Display) is safe and true in every state",
  "Every importer, tree builder, iterator, visit, walk, lookup, report, tree node, metadata and error can be shown with Debug, and every error with Display, in whatever state it is (fresh, half way, deceived, failed, ended), without panicking and without effect. What is shown is true of that state: an importer shows the chunk size, the bytes buffered and how many links wait at each depth, a walk the block it needs next and the path of its current entry, a visit the block it needs next, a lookup the number of pending buckets and the name looked for, a tree node its path, Cid, size and cumulative size, and an error of a builder the offending path or block size.",
  ["histories","schedules","fault_sequences"],"all states of all objects reached by any interleaving of steps, faults and refusals",
  "no test formats any of these in the middle of anything; hand-written formatters do arithmetic on the state",
  [ADD,WALK,SH,"src/dir/builder.rs",IT,"src/lib.rs"],[("link summary",ADD+": LinkFormatter"),("hand-written Debug impls",SH+", "+WALK+", "+IT),("error texts","src/dir/builder.rs")],["Debug and Display of public types"])

p("U26","Nodes written with the public types are read back as written, whatever the disk does",
  "Any node made of the public types (FlatUnixFs, PBNode, PBLink, UnixFs) and written through MessageWrite to a writer which takes few bytes at a time, is interrupted, runs full or breaks, or to a buffer of any length, is either written completely — exactly the number of bytes get_size announced, in the canonical encoding any independent implementation reads as the same node — or reported as not written; never is a failure taken for success, and what had been written by then is a prefix of the encoding. What comes back from the disk, whole or torn or damaged by a crash, is read with the public parsing functions as what an independent decoder reads in it, or refused, without panicking; a node read from a canonical encoding encodes back to the same bytes.",
  ["inputs","fault_sequences"],"all nodes, all short writes, interruptions, full and broken disks, torn and damaged files, buffers of all lengths",
  "tests encode a couple of nodes into a Vec which never fails; the library itself never writes a PBNode",
  [PB,"src/pb/merkledag.rs","src/pb/unixfs.rs"],[("generated codec","src/pb/merkledag.rs, src/pb/unixfs.rs"),("FlatUnixFs reading and writing",PB)],["FlatUnixFs, PBNode, PBLink and UnixFs writing and reading"])

p("N02","Modification times convert to file times without loss",
  "The conversion of stored seconds and nanoseconds to a file time is exact for every representable value.",
  ["inputs"],"all timestamps","a pure conversion","src/lib.rs".split(),[("Metadata::mtime_as_filetime","src/lib.rs")],["mtime_as_filetime"])
p("N03","Import time stays proportional to the input",
  "The time needed to import grows linearly with the input, whatever the chunk size and branching factor.",
  ["inputs"],"all contents and chunk sizes","a performance property; benches only print numbers",
  [ADD],[("link compaction",ADD)],["wall time"])
p("N04","Traversals can be moved between threads and tasks",
  "Walks, visits and owned lookups can be sent to other threads at any point.",
  ["programs"],"all programs using the crate","a compile-time (auto trait) property",
  [WALK,VIS,SH],[("no interior mutability or thread-bound state",WALK)],["Send/Sync bounds"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
ts=[len(x["title"]) for x in P]; print(len(P), max(ts))
