//! Batch execution, watchdog, minimisation, replay files and evidence.
use crate::core::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Run) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// minimal weight (faults fired + scheduling decisions etc.) to count a run as non-trivial
    pub min_weight: u64,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub struct Outcome {
    pub viol: Option<Violation>,
    pub harness: Option<String>,
    pub hash: u64,
    pub sched: u64,
    pub events: u64,
    pub now: u64,
    pub weight: u64,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub trace: Vec<String>,
    pub counts: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub summary: String,
}

pub fn run_seed(id: &str, verif_seed: u64, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(mix(verif_seed ^ h).wrapping_add(i))
}

/// One run on one fresh thread (fresh so that per-thread hash keys are the run's own).
pub fn exec(p: &Prop, tape: Tape, capture: bool, thorough: bool, dump: Option<PathBuf>) -> Outcome {
    exec_within(p, tape, capture, thorough, dump, Duration::from_secs(1 << 30)).expect("time enough")
}

/// None: it took longer than that, and is left to itself.
fn exec_within(p: &Prop, tape: Tape, capture: bool, thorough: bool, dump: Option<PathBuf>, limit: Duration) -> Option<Outcome> {
    let f = p.run;
    let (tx, rx) = std::sync::mpsc::sync_channel(1);
    let tick = BEAT.with(|b| b.borrow().clone());
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            BEAT.with(|b| *b.borrow_mut() = tick);
            if let Some(d) = dump {
                set_dump(std::fs::File::create(d).ok());
            }
            let mut run = Run::new(tape, capture, thorough);
            let hs = run.below(1 << 30);
            set_hash_seed(hs);
            if run.chance(1, 50) {
                start_threads(hs);
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut run)));
            reset_lib();
            match stop_threads() {
                0 => {}
                n => *run.faults.entry("call_on_another_thread").or_insert(0) += n,
            }
            let (viol, harness) = match r {
                Ok(Ok(())) => (None, None),
                Ok(Err(v)) => (Some(v), None),
                Err(_) => {
                    let p = take_reraise().or_else(take_panic);
                    match p {
                        Some((true, at, msg)) => (
                            Some(Violation {
                                class: format!("panic@{}", short_loc(&at)),
                                msg: format!("library panicked at {}: {}", at, msg),
                            }),
                            None,
                        ),
                        Some((false, at, msg)) => (None, Some(format!("{}: {}", at, msg))),
                        None => (None, Some("unknown panic".to_string())),
                    }
                }
            };
            if let Some(v) = &viol {
                run.ev(format!("VIOLATION [{}] {}", v.class, v.msg));
            }
            let _ = tx.send(Outcome {
                viol,
                harness,
                hash: run.hash,
                sched: run.sched,
                events: run.events,
                now: run.now,
                weight: run.weight,
                rec: std::mem::take(&mut run.t.rec),
                spans: std::mem::take(&mut run.t.spans),
                trace: std::mem::take(&mut run.trace),
                counts: std::mem::take(&mut run.counts),
                faults: std::mem::take(&mut run.faults),
                summary: std::mem::take(&mut run.summary),
            });
        })
        .expect("spawn run thread");
    match rx.recv_timeout(limit) {
        Ok(o) => {
            let _ = h.join();
            Some(o)
        }
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => None,
        Err(_) => Some(Outcome {
            viol: None,
            harness: Some("run thread died".into()),
            hash: 0,
            sched: 0,
            events: 0,
            now: 0,
            weight: 0,
            rec: vec![],
            spans: vec![],
            trace: vec![],
            counts: BTreeMap::new(),
            faults: BTreeMap::new(),
            summary: String::new(),
        }),
    }
}

fn short_loc(at: &str) -> String {
    // keep the class independent of the checkout's location
    match at.find("/src/") {
        Some(i) => {
            let krate = at[..i].rsplit('/').next().unwrap_or("");
            format!("{}{}", krate, &at[i..])
        }
        None => at.to_string(),
    }
}

// ---------------------------------------------------------------------------------- json bits

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}
fn jlist(v: &[String]) -> String {
    let v: Vec<String> = v.iter().map(|s| js(s)).collect();
    format!("[{}]", v.join(", "))
}
fn jget(s: &str, key: &str) -> Option<String> {
    let i = s.find(&format!("\n  \"{}\": ", key))?;
    let rest = &s[i + key.len() + 7..];
    let e = rest.find('\n').unwrap_or(rest.len());
    Some(rest[..e].trim_end_matches(',').to_string())
}
fn unq(s: String) -> String {
    s.trim_matches('"').replace("\\\"", "\"").replace("\\\\", "\\")
}

// ---------------------------------------------------------------------------------- subprocess

#[derive(Clone, Debug, PartialEq)]
pub enum SubRes {
    Pass,
    Viol(String),
    Hang,
    Crash(i32),
    Harness,
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("unixfs-sim-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

/// What one of our own children has used of the processor.
fn cpu_time(pid: u32) -> Duration {
    let stat = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let fields: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let ticks: u64 = [11, 12].iter().map(|i| fields.get(*i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)).sum();
    Duration::from_millis(ticks * 10)
}

fn sub_exec(p: &Prop, tape: Option<&[u64]>, seed: u64, thorough: bool, timeout: Duration, dump: Option<&Path>, tag: usize) -> SubRes {
    let exe = std::env::current_exe().expect("exe");
    let mut c = Command::new(exe);
    c.arg("exec").arg(p.id).arg(if thorough { "thorough" } else { "quick" });
    let tf = scratch().join(format!("tape-{}", tag));
    match tape {
        Some(t) => {
            let s: Vec<String> = t.iter().map(|x| x.to_string()).collect();
            std::fs::write(&tf, s.join("\n")).expect("write tape");
            c.arg("tape").arg(&tf);
        }
        None => {
            c.arg("seed").arg(seed.to_string());
        }
    }
    if let Some(d) = dump {
        c.arg(d);
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = c.spawn().expect("spawn");
    let t0 = Instant::now();
    let mut last = (Duration::ZERO, Duration::ZERO);
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => {
                use std::os::unix::process::ExitStatusExt;
                if let Some(sig) = st.signal() {
                    return SubRes::Crash(sig);
                }
                let mut out = String::new();
                use std::io::Read;
                if let Some(mut o) = ch.stdout.take() {
                    let _ = o.read_to_string(&mut out);
                }
                return match st.code() {
                    Some(0) => SubRes::Pass,
                    Some(1) => SubRes::Viol(out.trim().to_string()),
                    _ => SubRes::Harness,
                };
            }
            None => {
                // a busy machine is no reason: what counts is the time it was given, unless it
                // does not want any
                let e = t0.elapsed();
                let used = cpu_time(ch.id());
                if used > last.0 + Duration::from_millis(200) {
                    last = (used, e);
                }
                let patience = if timeout == HANG { 3 } else { 1 };
                if used > patience * timeout || (e > timeout && e > last.1 + Duration::from_secs(8)) || e > 6 * timeout {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return SubRes::Hang;
                }
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 100 { 2 } else { 20 }));
            }
        }
    }
}

pub fn cmd_exec(p: &Prop, args: &[String]) -> i32 {
    let thorough = args[0] == "thorough";
    let tape = if args[1] == "tape" {
        Tape::replay(read_tape(&std::fs::read_to_string(&args[2]).expect("tape")))
    } else {
        Tape::from_seed(args[2].parse().expect("seed"))
    };
    let o = exec(p, tape, false, thorough, args.get(3).map(PathBuf::from));
    if let Some(h) = o.harness {
        eprintln!("harness error: {}", h);
        return 2;
    }
    match o.viol {
        None => 0,
        Some(v) => {
            println!("{}", v.class);
            1
        }
    }
}
fn read_tape(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(0)).collect()
}

// ---------------------------------------------------------------------------------- shrinking

fn trim(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

/// Generic tape minimisation: `test` runs a candidate and returns the (normalised) tape and spans
/// when the same violation class persists.
fn shrink(start: Vec<u64>, spans: Vec<(usize, usize)>, mut test: impl FnMut(&[u64]) -> Option<(Vec<u64>, Vec<(usize, usize)>)>) -> (Vec<u64>, u64) {
    let mut best = trim(start);
    let mut spans = spans;
    let mut tries = 0u64;
    let key = |v: &[u64]| (v.len(), v.iter().map(|x| *x as u128).sum::<u128>());
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = trim($cand);
            if key(&cand) < key(&best) {
                tries += 1;
                match test(&cand) {
                    Some((rec, sp)) => {
                        let rec = trim(rec);
                        best = if key(&rec) <= key(&cand) { rec } else { cand };
                        spans = sp;
                        true
                    }
                    None => false,
                }
            } else {
                false
            }
        }};
    }
    loop {
        let before = key(&best);
        // tail cuts
        let mut cut = best.len() / 2;
        while cut > 0 {
            let n = best.len();
            if n <= cut || !attempt!(best[..n - cut].to_vec()) {
                cut /= 2;
            }
        }
        // spans, longest first
        let mut sp: Vec<(usize, usize)> = spans.clone();
        sp.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
        let mut i = 0;
        while i < sp.len() && i < 400 {
            let (a, b) = sp[i];
            if b <= best.len() {
                let mut c = best.clone();
                c.drain(a..b);
                if attempt!(c) {
                    sp = spans.clone();
                    sp.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
                    i = 0;
                    continue;
                }
            }
            i += 1;
        }
        for w in [64usize, 32, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i + w <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + w);
                if !attempt!(c) {
                    i += (w / 2).max(1);
                }
            }
        }
        for w in [32usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + w <= best.len() {
                if best[i..i + w].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + w].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += w;
            }
        }
        let mut i = 0;
        while i < best.len() {
            for k in 0..3 {
                if i < best.len() && best[i] > 0 {
                    let v = best[i];
                    let nv = match k {
                        0 => 0,
                        1 => v / 2,
                        _ => v - 1,
                    };
                    let mut c = best.clone();
                    c[i] = nv;
                    attempt!(c);
                }
            }
            i += 1;
        }
        if key(&best) >= before {
            return (best, tries);
        }
    }
}

// ---------------------------------------------------------------------------------- known findings

/// Lines "finding: property=U.. class=<class>" in known-findings.txt (see DESIGN.md). Nothing is
/// ever added by a run.
fn known(id: &str) -> Vec<String> {
    let s = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter(|l| l.contains(&format!("property={} ", id)))
        .filter_map(|l| l.split("class=").nth(1))
        .map(|l| l.split_whitespace().next().unwrap_or("").to_string())
        .collect()
}

// ---------------------------------------------------------------------------------- check

#[derive(Default)]
struct Agg {
    runs: u64,
    events: u64,
    sim_us: u64,
    hashes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    scheds: HashSet<u64>,
    counts: BTreeMap<&'static str, u64>,
    faults: BTreeMap<&'static str, u64>,
    fault_runs: BTreeMap<&'static str, u64>,
    viol: Option<(u64, Violation)>,
    known_hits: BTreeMap<String, u64>,
    harness: Option<(u64, String)>,
    batch: u64,
    slowest: (Duration, u64),
}

struct Slot {
    run: AtomicU64,
    since: AtomicU64,
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub runs: Option<u64>,
    pub workers: usize,
    pub cap: Duration,
    pub quiet: bool,
}

thread_local! {
    static BEAT: std::cell::RefCell<Option<Arc<dyn Fn() + Send + Sync>>> = const { std::cell::RefCell::new(None) };
}
/// A run which takes long by its nature tells the watchdog that it still gets on.
pub fn beat() {
    BEAT.with(|b| {
        if let Some(f) = &*b.borrow() {
            f()
        }
    });
}

const HANG: Duration = Duration::from_secs(25);

pub fn batch(p: &'static Prop, o: &Opts, inflight: Option<&Path>) -> Result<BatchOut, i32> {
    let n = o.runs.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let t0 = Instant::now();
    let slots: Arc<Vec<Slot>> = Arc::new((0..o.workers).map(|_| Slot { run: AtomicU64::new(u64::MAX), since: AtomicU64::new(0) }).collect());
    let kn = known(p.id);
    let inf: Option<Arc<std::fs::File>> = inflight.map(|f| Arc::new(std::fs::File::create(f).expect("inflight")));
    let mut hs = Vec::new();
    for w in 0..o.workers {
        let (next, stop, agg, slots, kn, inf) = (next.clone(), stop.clone(), agg.clone(), slots.clone(), kn.clone(), inf.clone());
        let (seed, thorough) = (o.seed, o.thorough);
        hs.push(std::thread::spawn(move || {
            let mine = slots.clone();
            BEAT.with(|b| *b.borrow_mut() = Some(Arc::new(move || mine[w].since.store(t0.elapsed().as_millis() as u64, SeqCst))));
            loop {
                if stop.load(SeqCst) {
                    break;
                }
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                slots[w].since.store(t0.elapsed().as_millis() as u64, SeqCst);
                slots[w].run.store(i, SeqCst);
                if let Some(f) = &inf {
                    use std::os::unix::fs::FileExt;
                    let _ = f.write_all_at(&i.to_le_bytes(), w as u64 * 8);
                }
                let s = run_seed(p.id, seed, i);
                let began = Instant::now();
                let out = exec(p, Tape::from_seed(s), false, thorough, None);
                slots[w].run.store(u64::MAX, SeqCst);
                let mut a = agg.lock().unwrap();
                a.runs += 1;
                a.slowest = a.slowest.max((began.elapsed(), i));
                a.batch ^= mix(out.hash.wrapping_add(mix(i)));
                a.events += out.events;
                a.sim_us += out.now;
                a.hashes.insert(out.hash);
                if out.weight >= p.min_weight {
                    a.nontrivial.insert(out.hash);
                }
                a.scheds.insert(out.sched);
                for (k, v) in &out.counts {
                    *a.counts.entry(k).or_insert(0) += v;
                }
                for (k, v) in &out.faults {
                    *a.faults.entry(k).or_insert(0) += v;
                    *a.fault_runs.entry(k).or_insert(0) += 1;
                }
                if let Some(h) = out.harness {
                    if a.harness.as_ref().map_or(true, |(j, _)| i < *j) {
                        a.harness = Some((i, h));
                    }
                    stop.store(true, SeqCst);
                }
                if let Some(v) = out.viol {
                    if kn.iter().any(|k| v.class == *k) {
                        *a.known_hits.entry(v.class).or_insert(0) += 1;
                    } else {
                        if a.viol.as_ref().map_or(true, |(j, _)| i < *j) {
                            a.viol = Some((i, v));
                        }
                        stop.store(true, SeqCst);
                    }
                }
            }
            slots[w].run.store(u64::MAX, SeqCst);
        }));
    }
    // watchdog
    let mut hang: Option<u64> = None;
    let mut cleared: HashSet<u64> = HashSet::new();
    loop {
        std::thread::sleep(Duration::from_millis(5));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let now = t0.elapsed();
        if now > o.cap {
            stop.store(true, SeqCst);
        }
        for s in slots.iter() {
            let r = s.run.load(SeqCst);
            if r == u64::MAX || cleared.contains(&r) {
                continue;
            }
            let since = Duration::from_millis(s.since.load(SeqCst));
            if now > since + HANG && s.run.load(SeqCst) == r {
                let seed = run_seed(p.id, o.seed, r);
                match sub_exec(p, None, seed, o.thorough, HANG, None, 0) {
                    SubRes::Hang | SubRes::Crash(_) => {
                        stop.store(true, SeqCst);
                        hang = Some(r)
                    }
                    _ => {
                        cleared.insert(r);
                    }
                }
            }
        }
        // a violation found by another worker is preferred: it replays in-process
        if hang.is_some() {
            let others = slots.iter().filter(|s| s.run.load(SeqCst) != u64::MAX).count();
            let _ = others;
            std::thread::sleep(Duration::from_millis(300));
            break;
        }
        if now > o.cap + Duration::from_secs(120) {
            eprintln!("harness error: runs did not stop");
            return Err(2);
        }
    }
    if hang.is_none() {
        for h in hs {
            let _ = h.join();
        }
    }
    let a = std::mem::take(&mut *agg.lock().unwrap());
    Ok(BatchOut { a, hang, wall: t0.elapsed(), planned: n })
}

pub struct BatchOut {
    a: Agg,
    hang: Option<u64>,
    wall: Duration,
    planned: u64,
}
impl BatchOut {
    pub fn signature(&self) -> (u64, u64, u64) {
        (self.a.runs, self.a.batch, self.a.events)
    }
    pub fn fault_table(&self) -> String {
        jmap(&self.a.faults)
    }
}

pub fn write_replay(p: &Prop, o: &Opts, idx: u64, mode: &str, class: &str, tape: &[u64], orig_len: usize, tries: u64) -> PathBuf {
    let out = if mode == "in-process" { Some(exec(p, Tape::replay(tape.to_vec()), true, o.thorough, None)) } else { None };
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", p.id, o.seed, idx));
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let mut s = String::from("{");
    let _ = write!(s, "\n  \"property\": {},", js(p.id));
    let _ = write!(s, "\n  \"verif_seed\": {},", o.seed);
    let _ = write!(s, "\n  \"tier\": {},", js(if o.thorough { "thorough" } else { "quick" }));
    let _ = write!(s, "\n  \"run_index\": {},", idx);
    let _ = write!(s, "\n  \"run_seed\": {},", run_seed(p.id, o.seed, idx));
    let _ = write!(s, "\n  \"mode\": {},", js(mode));
    let _ = write!(s, "\n  \"class\": {},", js(class));
    if let Some(out) = &out {
        let _ = write!(s, "\n  \"message\": {},", js(out.viol.as_ref().map_or("", |v| &v.msg)));
        let _ = write!(s, "\n  \"log_hash\": {},", out.hash);
        let _ = write!(s, "\n  \"faults\": {},", jmap(&out.faults));
        let _ = write!(s, "\n  \"summary\": {},", js(&out.summary));
    }
    let _ = write!(s, "\n  \"draws_before_minimisation\": {},", orig_len);
    let _ = write!(s, "\n  \"minimisation_runs\": {},", tries);
    let _ = write!(s, "\n  \"tape\": [{}]", t.join(","));
    if let Some(out) = &out {
        let _ = write!(s, ",\n  \"trace\": [\n    {}\n  ]", out.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n    "));
    }
    s.push_str("\n}\n");
    std::fs::write(&path, s).expect("write replay");
    path
}

/// Exit 1: reproduced exactly; 0: it did not.
pub fn cmd_replay(props: &'static [Prop], file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let id = unq(jget(&s, "property").expect("property"));
    let p = props.iter().find(|p| p.id == id).expect("known property");
    let tape = read_tape(&jget(&s, "tape").expect("tape"));
    let thorough = jget(&s, "tier").map(unq).as_deref() == Some("thorough");
    let class = unq(jget(&s, "class").expect("class"));
    let mode = unq(jget(&s, "mode").expect("mode"));
    if mode == "history" {
        let hash: u64 = jget(&s, "log_hash").and_then(|x| x.parse().ok()).unwrap_or(0);
        for (n, seed) in tape.iter().enumerate() {
            let last = n + 1 == tape.len();
            let o = exec(p, Tape::from_seed(*seed), last, thorough, None);
            if let Some(v) = o.viol {
                for l in &o.trace {
                    println!("{}", l);
                }
                println!("{} property={} class={} exact={}", if last && v.class == class { "REPRODUCED" } else { "DIFFERENT" }, id, v.class, o.hash == hash);
                println!("{}", v.msg);
                return (last && v.class == class) as i32;
            }
        }
        println!("NOT REPRODUCED property={}", id);
        0
    } else if mode == "in-process" {
        let hash: u64 = jget(&s, "log_hash").and_then(|x| x.parse().ok()).unwrap_or(0);
        let o = exec(p, Tape::replay(tape), true, thorough, None);
        for l in &o.trace {
            println!("{}", l);
        }
        match o.viol {
            Some(v) if v.class == class => {
                println!("REPRODUCED property={} class={} exact={}", id, v.class, o.hash == hash);
                println!("{}", v.msg);
                1
            }
            Some(v) => {
                println!("DIFFERENT property={} class={} ({})", id, v.class, v.msg);
                0
            }
            None => {
                println!("NOT REPRODUCED property={}{}", id, o.harness.map(|h| format!(" harness: {}", h)).unwrap_or_default());
                0
            }
        }
    } else {
        let r = sub_exec(p, Some(&tape), 0, thorough, HANG, None, 0);
        println!("REPLAY property={} expected={} got={:?}", id, class, r);
        let same = match (&r, mode.as_str()) {
            (SubRes::Hang, "hang") => true,
            (SubRes::Crash(_), "crash") => true,
            _ => false,
        };
        let _ = std::fs::remove_dir_all(scratch());
        same as i32
    }
}

/// Executes whole runs one after the other in this process. Exit 1: the one printed breaks the
/// property.
pub fn cmd_history(p: &Prop, args: &[String]) -> i32 {
    let thorough = args[0] == "thorough";
    for (n, seed) in read_tape(&std::fs::read_to_string(&args[1]).expect("seeds")).into_iter().enumerate() {
        let o = exec(p, Tape::from_seed(seed), false, thorough, None);
        if let Some(v) = o.viol {
            println!("{} {} {} {}", n, o.hash, v.class, v.msg.replace('\n', " "));
            return 1;
        }
        if o.harness.is_some() {
            return 2;
        }
    }
    0
}
/// (index of the failing one, hash, class, message)
fn history(p: &Prop, seeds: &[u64], thorough: bool, timeout: Duration) -> Option<(usize, u64, String, String)> {
    let tf = scratch().join("history");
    let s: Vec<String> = seeds.iter().map(|x| x.to_string()).collect();
    std::fs::write(&tf, s.join("\n")).expect("write seeds");
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.arg("history").arg(p.id).arg(if thorough { "thorough" } else { "quick" }).arg(&tf);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = c.spawn().expect("spawn");
    let t0 = Instant::now();
    while ch.try_wait().expect("wait").is_none() {
        if t0.elapsed() > timeout {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    let mut out = String::new();
    use std::io::Read;
    ch.stdout.take()?.read_to_string(&mut out).ok()?;
    let mut it = out.trim().splitn(4, ' ');
    Some((it.next()?.parse().ok()?, it.next()?.parse().ok()?, it.next()?.to_string(), it.next().unwrap_or("").to_string()))
}

/// A violation which does not come back in a fresh process needs something that earlier runs left
/// behind in the process: looks for a short series of runs which ends in one.
fn minimise_history(p: &'static Prop, o: &Opts, idx: u64) -> Option<(PathBuf, String, String)> {
    let t0 = Instant::now();
    let budget = Duration::from_secs(150);
    let mut found = None;
    let mut n = 1u64;
    while found.is_none() && t0.elapsed() < budget {
        let from = idx.saturating_sub(n);
        let seeds: Vec<u64> = (from..=idx + idx / 3 + 4 * o.workers as u64).map(|i| run_seed(p.id, o.seed, i)).collect();
        if let Some(r) = history(p, &seeds, o.thorough, budget.saturating_sub(t0.elapsed())) {
            found = Some((seeds[..=r.0].to_vec(), r));
        }
        if from == 0 {
            break;
        }
        n *= 4;
    }
    let (mut seeds, mut res) = found?;
    let orig = seeds.len();
    let mut tries = 0;
    let mut size = (seeds.len() / 2).max(1);
    while t0.elapsed() < budget {
        let mut i = 0;
        let mut any = false;
        while i + 1 < seeds.len() && t0.elapsed() < budget {
            let mut c = seeds.clone();
            let to = (i + size).min(c.len() - 1);
            c.drain(i..to);
            tries += 1;
            match history(p, &c, o.thorough, Duration::from_secs(20)) {
                Some(r) if r.2 == res.2 => {
                    c.truncate(r.0 + 1);
                    seeds = c;
                    res = r;
                    any = true;
                }
                _ => i = to,
            }
        }
        if size == 1 && !any {
            break;
        }
        size = (size / 2).max(1);
    }
    let path = verif_dir().join("replays").join(format!("{}-{}-{}.json", p.id, o.seed, idx));
    let t: Vec<String> = seeds.iter().map(|x| x.to_string()).collect();
    let mut s = String::from("{");
    let _ = write!(s, "\n  \"property\": {},", js(p.id));
    let _ = write!(s, "\n  \"verif_seed\": {},", o.seed);
    let _ = write!(s, "\n  \"tier\": {},", js(if o.thorough { "thorough" } else { "quick" }));
    let _ = write!(s, "\n  \"run_index\": {},", idx);
    let _ = write!(s, "\n  \"mode\": \"history\",");
    let _ = write!(s, "\n  \"class\": {},", js(&res.2));
    let _ = write!(s, "\n  \"message\": {},", js(&res.3));
    let _ = write!(s, "\n  \"log_hash\": {},", res.1);
    let _ = write!(s, "\n  \"runs_before_minimisation\": {},", orig);
    let _ = write!(s, "\n  \"minimisation_runs\": {},", tries);
    let _ = write!(s, "\n  \"meaning\": \"seeds of whole runs to be executed one after the other in one process; the last one fails\",");
    let _ = write!(s, "\n  \"tape\": [{}]", t.join(","));
    s.push_str("\n}\n");
    std::fs::write(&path, s).ok()?;
    Some((path, res.2, res.3))
}

fn minimise_and_report(p: &'static Prop, o: &Opts, idx: u64, v: &Violation) -> PathBuf {
    let first = exec(p, Tape::from_seed(run_seed(p.id, o.seed, idx)), false, o.thorough, None);
    let class = first.viol.as_ref().map(|v| v.class.clone()).unwrap_or_else(|| v.class.clone());
    let t0 = Instant::now();
    let budget = Duration::from_secs(if o.thorough { 90 } else { 40 });
    let orig = first.rec.clone();
    let mut stuck = 0;
    let (best, tries) = shrink(orig.clone(), first.spans, |cand| {
        if t0.elapsed() > budget || stuck > 2 {
            return None;
        }
        let Some(out) = exec_within(p, Tape::replay(cand.to_vec()), false, o.thorough, None, HANG) else {
            stuck += 1;
            return None;
        };
        match out.viol {
            Some(v) if v.class == class => Some((out.rec, out.spans)),
            _ => None,
        }
    });
    write_replay(p, o, idx, "in-process", &class, &best, orig.len(), tries)
}

fn minimise_sub(p: &'static Prop, o: &Opts, idx: u64, want: SubRes) -> (PathBuf, String) {
    let seed = run_seed(p.id, o.seed, idx);
    let dump = scratch().join("dump");
    let hang = want == SubRes::Hang;
    // long enough that a healthy run of any size is over
    let to = if hang { Duration::from_secs(6) } else { HANG };
    sub_exec(p, None, seed, o.thorough, to, Some(&dump), 1);
    let tape = read_tape(&std::fs::read_to_string(&dump).unwrap_or_default());
    let orig = tape.len();
    let t0 = Instant::now();
    let to2 = if hang { Duration::from_secs(3) } else { HANG };
    let (mut best, tries) = shrink(tape.clone(), vec![], |cand| {
        if t0.elapsed() > Duration::from_secs(90) {
            return None;
        }
        let r = sub_exec(p, Some(cand), 0, o.thorough, to2, None, 2);
        let ok = match (&r, &want) {
            (SubRes::Hang, SubRes::Hang) => true,
            (SubRes::Crash(_), SubRes::Crash(_)) => true,
            _ => false,
        };
        ok.then(|| (cand.to_vec(), vec![]))
    });
    // confirm with the full timeout; fall back to the original
    let r = sub_exec(p, Some(&best), 0, o.thorough, HANG, None, 3);
    if std::mem::discriminant(&r) != std::mem::discriminant(&want) {
        best = tape;
    }
    let (mode, class) = if hang { ("hang", "hang-or-runaway") } else { ("crash", "process-crash") };
    (write_replay(p, o, idx, mode, class, &best, orig, tries), class.to_string())
}

/// The worker process of a check.
pub fn cmd_check(p: &'static Prop, o: &Opts, inflight: &Path) -> i32 {
    let b = match batch(p, o, Some(inflight)) {
        Ok(b) => b,
        Err(c) => return c,
    };
    let mut violation: Option<(u64, String, String, PathBuf)> = None;
    if let Some((i, v)) = &b.a.viol {
        // some candidate may take the process down, or time out: leave the whole run as the replay
        // file for the supervisor first
        let whole = exec(p, Tape::from_seed(run_seed(p.id, o.seed, *i)), false, o.thorough, None);
        let path = write_replay(p, o, *i, "in-process", &v.class, &whole.rec, whole.rec.len(), 0);
        write_evidence(p, o, &b, 0, 0, &[], &Some((*i, v.class.clone(), v.msg.clone(), path.clone())));
        let _ = std::fs::write(
            marker(inflight),
            format!("run {} of {} (seed {}): [{}] {}\nreplay file not minimised\nVIOLATION property={} replay={}\n", i, b.planned, o.seed, v.class, v.msg, p.id, path.display()),
        );
        let path = minimise_and_report(p, o, *i, v);
        violation = Some((*i, v.class.clone(), v.msg.clone(), path));
    } else if let Some(i) = b.hang {
        let (path, class) = minimise_sub(p, o, i, SubRes::Hang);
        violation = Some((i, class, "a library call did not return (or allocated without bound)".into(), path));
    } else if let Some((i, h)) = &b.a.harness {
        eprintln!("harness error in run {}: {}", i, h);
        return 2;
    }
    // determinism re-check on a sample of this batch, and traces for the evidence
    let mut mism = 0;
    let mut samples = Vec::new();
    let redo = 12.min(b.a.runs);
    for i in 0..redo {
        if violation.is_some() {
            break;
        }
        let s = run_seed(p.id, o.seed, i);
        let a = exec(p, Tape::from_seed(s), i < 3, o.thorough, None);
        let c = exec(p, Tape::replay(a.rec.clone()), false, o.thorough, None);
        if a.hash != c.hash {
            mism += 1;
        }
        if i < 3 {
            let mut t = a.trace;
            let more = t.len().saturating_sub(25);
            t.truncate(25);
            if more > 0 {
                t.push(format!("... {} more events", more));
            }
            samples.push(format!("{{\"run\": {}, \"seed\": {}, \"summary\": {}, \"trace\": {}}}", i, s, js(&a.summary), jlist(&t)));
        }
    }
    for (k, n) in &b.a.known_hits {
        println!("KNOWN-FINDING: property={} {} (hit {} times)", p.id, k, n);
    }
    write_evidence(p, o, &b, redo, mism, &samples, &violation);
    if let Some((i, class, msg, path)) = violation {
        // prove that the file reproduces in a fresh process
        let again = |path: &Path| {
            let exe = std::env::current_exe().expect("exe");
            Command::new(exe).arg("replay").arg(path).stdout(Stdio::null()).stderr(Stdio::null()).status().map(|s| s.code() == Some(1)).unwrap_or(false)
        };
        let (mut ok, mut path, mut class, mut msg) = (again(&path), path, class, msg);
        if !ok && b.a.viol.is_some() {
            // the run alone, as it was found
            let whole = exec(p, Tape::from_seed(run_seed(p.id, o.seed, i)), false, o.thorough, None);
            path = write_replay(p, o, i, "in-process", &class, &whole.rec, whole.rec.len(), 0);
            ok = again(&path);
        }
        if !ok && b.a.viol.is_some() {
            if let Some((f, c, m)) = minimise_history(p, o, i) {
                ok = again(&f);
                (path, class, msg) = (f, c, m);
            }
        }
        println!("run {} of {} (seed {}): [{}] {}", i, b.planned, o.seed, class, msg);
        println!("replay reproduced in a fresh process: {}", ok);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        let _ = std::fs::remove_dir_all(scratch());
        return 1;
    }
    let _ = std::fs::remove_dir_all(scratch());
    if !o.quiet {
        println!(
            "OK property={} runs={} distinct={} events={} faults={} wall={:.1}s slowest={:.1}s#{}",
            p.id,
            b.a.runs,
            b.a.hashes.len(),
            b.a.events,
            b.a.faults.values().sum::<u64>(),
            b.wall.as_secs_f64(),
            b.a.slowest.0.as_secs_f64(),
            b.a.slowest.1
        );
    }
    0
}

pub fn marker(inflight: &Path) -> PathBuf {
    inflight.with_extension("found")
}

/// A run that takes the whole process down (stack overflow, abort) is found again from the list of
/// runs in flight, in subprocesses.
pub fn report_crash(p: &'static Prop, o: &Opts, inflight: &Path) -> i32 {
    if let Ok(m) = std::fs::read_to_string(marker(inflight)) {
        // it died minimising what it had found
        print!("{}", m);
        return 1;
    }
    let b = std::fs::read(inflight).unwrap_or_default();
    let mut idx: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    idx.sort();
    idx.dedup();
    for i in idx {
        let r = sub_exec(p, None, run_seed(p.id, o.seed, i), o.thorough, HANG, None, 0);
        if let SubRes::Crash(sig) = r {
            let (path, class) = minimise_sub(p, o, i, SubRes::Crash(sig));
            println!("run {} (seed {}): [{}] the process died of signal {}", i, o.seed, class, sig);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            let _ = std::fs::remove_dir_all(scratch());
            return 1;
        }
    }
    eprintln!("harness error: the worker process died and the cause did not reproduce");
    2
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &Prop, o: &Opts, b: &BatchOut, redo: u64, mism: u64, samples: &[String], v: &Option<(u64, String, String, PathBuf)>) {
    let wall = b.wall.as_secs_f64();
    let per_hour = if wall > 0.0 { (b.a.runs as f64 / wall * 3600.0) as u64 } else { 0 };
    let mut s = String::from("{\n");
    let _ = writeln!(s, "  \"property\": {},", js(p.id));
    let _ = writeln!(s, "  \"tier\": {},", js(if o.thorough { "thorough" } else { "quick" }));
    let _ = writeln!(s, "  \"seed\": {},", o.seed);
    let _ = writeln!(s, "  \"level\": \"exploration\",");
    let _ = writeln!(s, "  \"wall_s\": {:.3},", wall);
    let _ = writeln!(s, "  \"violations\": {},", v.is_some() as u32);
    let _ = writeln!(s, "  \"assumptions\": {},", jlist(&p.assumptions.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    let _ = writeln!(s, "  \"coverage\": {{");
    let _ = writeln!(s, "    \"evaluations\": {},", b.a.runs);
    let _ = writeln!(s, "    \"cut_short_by_time\": {},", b.a.runs < b.planned && v.is_none());
    let _ = writeln!(s, "    \"distinct_nontrivial\": {},", b.a.nontrivial.len());
    let _ = writeln!(s, "    \"rule\": {},", js(&format!("{} A run counts as non-trivial when faults fired plus weighted workload steps reach {}; runs are distinct when their complete event logs hash differently.", p.rule, p.min_weight)));
    let _ = writeln!(s, "    \"distinct_event_logs\": {},", b.a.hashes.len());
    let _ = writeln!(s, "    \"distinct_schedules\": {},", b.a.scheds.len());
    let _ = writeln!(s, "    \"schedule_measure\": \"hash of the ordered sequence of scheduling decisions (which session, stream, delivery, crash ran next)\",");
    let _ = writeln!(s, "    \"events\": {},", b.a.events);
    let _ = writeln!(s, "    \"runs_per_hour\": {},", per_hour);
    let _ = writeln!(s, "    \"seeds_per_run\": 1,");
    let _ = writeln!(s, "    \"simulated_seconds\": {:.3},", b.a.sim_us as f64 / 1e6);
    let _ = writeln!(s, "    \"faults_fired\": {},", jmap(&b.a.faults));
    let _ = writeln!(s, "    \"runs_with_fault\": {},", jmap(&b.a.fault_runs));
    let _ = writeln!(s, "    \"probes\": {},", jmap(&b.a.counts));
    let _ = writeln!(s, "    \"workers\": {},", o.workers);
    let _ = writeln!(s, "    \"determinism_reruns\": {},", redo);
    let _ = writeln!(s, "    \"determinism_mismatches\": {},", mism);
    let _ = writeln!(s, "    \"real_components\": {},", jlist(&p.real.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    let _ = writeln!(s, "    \"stub_components\": {},", jlist(&p.stub.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    let _ = writeln!(s, "    \"samples\": [{}]", samples.join(",\n      "));
    let _ = writeln!(s, "  }}\n}}");
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", p.id));
    let mut f = std::fs::File::create(&tmp).expect("evidence");
    f.write_all(s.as_bytes()).expect("evidence");
    std::fs::rename(tmp, dir.join(format!("{}.json", p.id))).expect("evidence");
}
