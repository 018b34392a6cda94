//! Case runner: workers, step-counting hang monitor, verdicts, evidence.

use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell as StdCell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- steps ---

/// One slot per worker thread.  Allocations are the logical clock of a library
/// call: every search loop of the library allocates on each step.
struct Slot {
    allocs: AtomicU64,
    call_seq: AtomicU64,
    call_start: AtomicU64,
    in_call: AtomicBool,
    tid: AtomicU64,
    idx: AtomicU64,
    desc: Mutex<String>,
}

const NSLOT: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    allocs: AtomicU64::new(0),
    call_seq: AtomicU64::new(0),
    call_start: AtomicU64::new(0),
    in_call: AtomicBool::new(false),
    tid: AtomicU64::new(0),
    idx: AtomicU64::new(0),
    desc: Mutex::new(String::new()),
};
static SLOTS: [Slot; NSLOT] = [SLOT0; NSLOT];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static MAX_STEPS: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static MY: StdCell<usize> = const { StdCell::new(usize::MAX) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = MY.try_with(|m| m.get()).unwrap_or(usize::MAX);
        if s < NSLOT {
            SLOTS[s].allocs.fetch_add(1, Relaxed);
        }
        if l.size() > 4096 {
            LIVE.fetch_add(l.size() as i64, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > 4096 {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
}

pub fn register_thread() -> usize {
    MY.with(|m| {
        if m.get() == usize::MAX {
            m.set(NEXT_SLOT.fetch_add(1, Relaxed) % NSLOT);
            SLOTS[m.get()].tid.store(gettid(), Relaxed);
        }
        m.get()
    })
}

fn gettid() -> u64 {
    // /proc/thread-self -> <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|s| s.to_str()?.parse().ok()))
        .unwrap_or(0)
}

/// CPU seconds used by a thread so far.
fn thread_cpu(tid: u64) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

/// Budgets for ONE library call.  The largest call of the workload uses less than a tenth.
pub const STEP_LIMIT: u64 = 1_500_000_000;
pub const CPU_LIMIT: f64 = 120.0;
/// Sanitized builds are slower by about this factor.
const SLOW: f64 = 25.0;
pub const MEM_LIMIT: i64 = 10 << 30;

// ---------------------------------------------------------------- context --

#[derive(Clone, Debug)]
pub struct Failure {
    pub idx: u64,
    /// Signature; a failure is a known finding only if this exact key is
    /// listed for the property.
    pub key: String,
    pub msg: String,
    pub input: String,
}

pub struct Ctx<'a> {
    pub thorough: bool,
    pub idx: u64,
    pub known: &'a BTreeMap<String, String>,
    pub desc: String,
    pub fails: Vec<Failure>,
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, f64>,
    pub tags: BTreeMap<String, BTreeSet<String>>,
    pub hashes: Vec<u64>,
    pub evals: u64,
    pub nontrivial: bool,
}

impl<'a> Ctx<'a> {
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxes.entry(k.to_string()).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    /// Record a member of a coverage set (for example a lattice character).
    pub fn tag(&mut self, set: &str, v: impl ToString) {
        self.tags.entry(set.to_string()).or_default().insert(v.to_string());
    }
    pub fn fail(&mut self, key: &str, msg: impl ToString) {
        let f = Failure {
            idx: self.idx,
            key: key.to_string(),
            msg: msg.to_string(),
            input: self.desc.clone(),
        };
        self.fails.push(f);
    }
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            let m = msg();
            self.fail(key, m);
        }
        ok
    }
    /// Mark this case as non-trivial, with a hash that identifies its input.
    pub fn good(&mut self, h: u64) {
        self.nontrivial = true;
        self.hashes.push(h);
    }
    /// Run a call into the library under test.  `Err` carries the panic text.
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        let s = &SLOTS[register_thread()];
        s.idx.store(self.idx, Relaxed);
        if let Ok(mut d) = s.desc.lock() {
            d.clone_from(&self.desc);
        }
        let start = s.allocs.load(Relaxed);
        s.call_start.store(start, Relaxed);
        s.call_seq.fetch_add(1, Relaxed);
        s.in_call.store(true, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        s.in_call.store(false, Relaxed);
        let steps = s.allocs.load(Relaxed) - start;
        MAX_STEPS.fetch_max(steps, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        self.evals += 1;
        r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
    }
    /// As `call`, but a panic is a violation of totality under `key`.
    pub fn must<T>(&mut self, key: &str, f: impl FnOnce() -> T) -> Option<T> {
        match self.call(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(&format!("{key}-panic"), format!("panicked: {m}"));
                None
            }
        }
    }
}

pub fn hash_f64s<'b>(it: impl Iterator<Item = &'b f64>) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in it {
        h ^= x.to_bits();
        h = h.wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29);
    }
    h
}

// ---------------------------------------------------------------- runner ---

pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Ctx, &mut Rng),
    /// Checked at the end of a full run: coverage floors.  `Err` makes the run
    /// inconclusive (exit 2), never a violation.
    pub floor: fn(&Totals) -> Result<(), String>,
    pub exhaustive: bool,
    pub assumptions: &'static [&'static str],
}

pub struct Totals {
    pub counts: BTreeMap<String, u64>,
    pub tags: BTreeMap<String, BTreeSet<String>>,
    pub cases: u64,
    pub full: bool,
}

impl Totals {
    pub fn get(&self, k: &str) -> u64 {
        *self.counts.get(k).unwrap_or(&0)
    }
    pub fn need(&self, k: &str, n: u64) -> Result<(), String> {
        if self.get(k) < n {
            return Err(format!("coverage floor: {k} = {} < {n}", self.get(k)));
        }
        Ok(())
    }
    pub fn need_tags(&self, k: &str, n: usize) -> Result<(), String> {
        let c = self.tags.get(k).map(|s| s.len()).unwrap_or(0);
        if c < n {
            return Err(format!("coverage floor: {k} covered {c} < {n}"));
        }
        Ok(())
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args {
    pub tier: String,
    pub seed: u64,
    pub only: Option<u64>,
    pub evidence: String,
    pub replay_dir: String,
    pub known_file: String,
    pub threads: usize,
    pub budget_s: f64,
    pub cases: Option<u64>,
    pub max_fails: usize,
}

struct Agg {
    counts: BTreeMap<String, u64>,
    maxes: BTreeMap<String, f64>,
    tags: BTreeMap<String, BTreeSet<String>>,
    hashes: HashSet<u64>,
    /// Failures that are not listed as known.
    fails: Vec<Failure>,
    /// Occurrences of known findings by key.
    old: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    cases: u64,
    evals: u64,
    harness_error: Option<String>,
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{loc}"));
    }));
}

/// `known: property=<id> key=<key> <text>` lines for this property.
pub fn load_known(path: &str, id: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(rest) = line.strip_prefix("known: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (p, k, text) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if p == format!("property={id}") {
            if let Some(k) = k.strip_prefix("key=") {
                out.insert(k.to_string(), text.to_string());
            }
        }
    }
    out
}

pub fn run(spec: &Spec, a: &Args) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let known = load_known(&a.known_file, spec.id);
    let thorough = a.tier == "thorough";
    let ncases = a.cases.unwrap_or(if thorough { spec.thorough } else { spec.quick });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = Arc::new(AtomicBool::new(false));
    let agg = Arc::new(Mutex::new(Agg {
        counts: Default::default(),
        maxes: Default::default(),
        tags: Default::default(),
        hashes: Default::default(),
        fails: vec![],
        old: Default::default(),
        samples: vec![],
        cases: 0,
        evals: 0,
        harness_error: None,
    }));

    let prop_seed: u64 = spec.id.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
    let timed_out = AtomicBool::new(false);

    // The monitor ends the process itself: a hung call never returns.
    {
        let agg = agg.clone();
        let done = done.clone();
        let id = spec.id;
        let rule = spec.rule;
        let (tier, seed, ev, rd) = (a.tier.clone(), a.seed, a.evidence.clone(), a.replay_dir.clone());
        let assumptions = spec.assumptions;
        let budget = a.budget_s;
        let cpu_limit = CPU_LIMIT * if std::env::var_os("CSMON_SLOW").is_some() { SLOW } else { 1.0 };
        std::thread::spawn(move || {
            let mut seen: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); NSLOT];
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                // A run that is stuck outside a monitored call decides nothing.
                if t0.elapsed().as_secs_f64() > budget + 300.0 {
                    println!("inconclusive: the run did not end");
                    std::process::exit(2);
                }
                let live = LIVE.load(Relaxed);
                for (i, s) in SLOTS.iter().enumerate() {
                    if !s.in_call.load(Relaxed) {
                        continue;
                    }
                    let seq = s.call_seq.load(Relaxed);
                    let steps = s.allocs.load(Relaxed).saturating_sub(s.call_start.load(Relaxed));
                    let tid = s.tid.load(Relaxed);
                    if seen[i].0 != seq {
                        seen[i] = (seq, thread_cpu(tid));
                        continue;
                    }
                    let cpu = thread_cpu(tid) - seen[i].1;
                    if !s.in_call.load(Relaxed) || s.call_seq.load(Relaxed) != seq {
                        continue;
                    }
                    let why = if steps > STEP_LIMIT {
                        format!("{steps} counted steps")
                    } else if cpu > cpu_limit {
                        format!("{cpu:.0} s of thread CPU time")
                    } else if live > MEM_LIMIT && steps > 1_000_000 {
                        format!("{live} live bytes after {steps} steps")
                    } else {
                        continue;
                    };
                    let f = Failure {
                        idx: s.idx.load(Relaxed),
                        key: "no-termination".into(),
                        msg: format!("library call did not finish: {why} (largest finished call: {} steps)", MAX_STEPS.load(Relaxed)),
                        input: s.desc.lock().map(|d| d.clone()).unwrap_or_default(),
                    };
                    let g = match agg.try_lock() {
                        Ok(g) => g,
                        Err(_) => continue,
                    };
                    let path = write_replay(&rd, id, &tier, seed, &f);
                    write_evidence(&ev, id, rule, &tier, seed, &g, t0.elapsed().as_secs_f64(), 1, false, false, assumptions, ncases);
                    println!("{}", f.msg);
                    println!("VIOLATION property={id} replay={path}");
                    std::process::exit(1);
                }
            }
        });
    }

    std::thread::scope(|sc| {
        for _ in 0..a.threads {
            let (agg, next, stop, known, timed_out) = (&agg, &next, &stop, &known, &timed_out);
            sc.spawn(move || {
                register_thread();
                loop {
                    if stop.load(Relaxed) {
                        break;
                    }
                    if t0.elapsed().as_secs_f64() > a.budget_s {
                        timed_out.store(true, Relaxed);
                        break;
                    }
                    let idx = match a.only {
                        Some(i) => {
                            if next.fetch_add(1, Relaxed) > 0 {
                                break;
                            }
                            i
                        }
                        None => {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= ncases {
                                break;
                            }
                            i
                        }
                    };
                    let mut ctx = Ctx {
                        thorough,
                        idx,
                        known,
                        desc: String::new(),
                        fails: vec![],
                        counts: Default::default(),
                        maxes: Default::default(),
                        tags: Default::default(),
                        hashes: vec![],
                        evals: 0,
                        nontrivial: false,
                    };
                    let mut rng = Rng::new(&[a.seed, prop_seed, idx]);
                    let r = catch_unwind(AssertUnwindSafe(|| (spec.case)(&mut ctx, &mut rng)));
                    let mut g = agg.lock().unwrap();
                    if r.is_err() {
                        let m = LAST_PANIC.with(|p| p.borrow().clone());
                        g.harness_error.get_or_insert(format!("case {idx}: {m}"));
                        stop.store(true, Relaxed);
                        break;
                    }
                    g.cases += 1;
                    g.evals += ctx.evals;
                    for (k, v) in ctx.counts {
                        *g.counts.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in ctx.maxes {
                        let e = g.maxes.entry(k).or_insert(v);
                        if v > *e {
                            *e = v;
                        }
                    }
                    for (k, v) in ctx.tags {
                        g.tags.entry(k).or_default().extend(v);
                    }
                    if ctx.nontrivial {
                        for h in &ctx.hashes {
                            g.hashes.insert(*h);
                        }
                        let want = g.samples.len() < 3 || (idx % 97 == 0 && g.samples.len() < 6);
                        if want && !ctx.desc.is_empty() {
                            let mut d = ctx.desc.clone();
                            if d.len() > 1200 {
                                let mut k = 1200;
                                while !d.is_char_boundary(k) {
                                    k -= 1;
                                }
                                d.truncate(k);
                                d.push_str("...");
                            }
                            g.samples.push((idx, d));
                        }
                    }
                    for f in ctx.fails {
                        if known.contains_key(&f.key) {
                            *g.old.entry(f.key).or_insert(0) += 1;
                        } else {
                            g.fails.push(f);
                        }
                    }
                    if g.fails.len() >= a.max_fails {
                        stop.store(true, Relaxed);
                    }
                }
            });
        }
    });
    done.store(true, Relaxed);
    let wall = t0.elapsed().as_secs_f64();
    let g = agg.lock().unwrap();
    let mut fresh: Vec<&Failure> = g.fails.iter().collect();
    let full = a.only.is_none() && !timed_out.load(Relaxed);
    write_evidence(
        &a.evidence, spec.id, spec.rule, &a.tier, a.seed, &g, wall, fresh.len() as i64,
        spec.exhaustive && full, timed_out.load(Relaxed), spec.assumptions, ncases,
    );
    for (k, n) in &g.old {
        println!("KNOWN-FINDING: property={} {} [{} occurrences this run, key {}]", spec.id, known[k], n, k);
    }
    if let Some(e) = &g.harness_error {
        if fresh.is_empty() {
            println!("harness error: {e}");
            return 2;
        }
    }
    if !fresh.is_empty() {
        fresh.sort_by_key(|f| f.idx);
        let mut keys = BTreeSet::new();
        for f in &fresh {
            if !keys.insert(f.key.clone()) {
                continue;
            }
            let path = write_replay(&a.replay_dir, spec.id, &a.tier, a.seed, f);
            println!("[{}] {}", f.key, f.msg);
            println!("  input: {}", f.input.chars().take(600).collect::<String>());
            println!("VIOLATION property={} replay={}", spec.id, path);
        }
        return 1;
    }
    if a.only.is_some() {
        println!("replay: held");
        return 0;
    }
    if g.cases == 0 || g.hashes.is_empty() {
        println!("inconclusive: nothing was observed");
        return 2;
    }
    let tot = Totals { counts: g.counts.clone(), tags: g.tags.clone(), cases: g.cases, full };
    if full && a.cases.is_none() {
        if let Err(e) = (spec.floor)(&tot) {
            println!("inconclusive: {e}");
            return 2;
        }
    } else if g.cases * 20 < ncases {
        println!("inconclusive: only {} of {} cases before the time budget", g.cases, ncases);
        return 2;
    }
    println!(
        "held: property={} tier={} seed={} cases={} calls={} distinct_nontrivial={} wall={:.1}s",
        spec.id, a.tier, a.seed, g.cases, g.evals, g.hashes.len(), wall
    );
    0
}

fn write_replay(dir: &str, id: &str, tier: &str, seed: u64, f: &Failure) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{id}-{tier}-s{seed}-c{}.json", f.idx);
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"case\": {},\n \"key\": {},\n \"what\": {},\n \"input\": {},\n \"rerun\": {}\n}}\n",
        js(id), js(tier), seed, f.idx, js(&f.key), js(&f.msg), js(&f.input),
        js(&format!("bash /verif/check.sh {id} {tier} --replay {path}"))
    );
    let _ = std::fs::write(&path, body);
    path
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    path: &str, id: &str, rule: &str, tier: &str, seed: u64, g: &Agg, wall: f64, violations: i64,
    exhaustive: bool, timed_out: bool, assumptions: &[&str], planned: u64,
) {
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(id), js(tier), seed);
    s += " \"coverage\": {\n";
    s += &format!("  \"evaluations\": {},\n", g.evals);
    s += &format!("  \"cases\": {},\n  \"cases_planned\": {},\n", g.cases, planned);
    s += &format!("  \"distinct_nontrivial\": {},\n", g.hashes.len());
    s += &format!("  \"rule\": {},\n", js(rule));
    if exhaustive {
        s += "  \"exhaustive\": true,\n";
    }
    s += &format!("  \"stopped_by_time_budget\": {timed_out},\n");
    s += &format!("  \"library_calls\": {},\n  \"largest_call_steps\": {},\n  \"step_budget_per_call\": {},\n",
        CALLS.load(Relaxed), MAX_STEPS.load(Relaxed), STEP_LIMIT);
    s += "  \"monitor_counts\": {";
    s += &g.counts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    s += "},\n  \"monitor_maxima\": {";
    s += &g.maxes.iter().map(|(k, v)| format!("{}: {:e}", js(k), if v.is_finite() { *v } else { -1.0 })).collect::<Vec<_>>().join(", ");
    s += "},\n  \"covered_sets\": {";
    s += &g
        .tags
        .iter()
        .map(|(k, v)| {
            let items: Vec<String> = v.iter().take(300).map(|x| js(x)).collect();
            format!("{}: {{\"size\": {}, \"members\": [{}]}}", js(k), v.len(), items.join(","))
        })
        .collect::<Vec<_>>()
        .join(", ");
    s += "},\n";
    let mut kn: BTreeMap<&str, u64> = g.old.iter().map(|(k, n)| (k.as_str(), *n)).collect();
    for f in &g.fails {
        *kn.entry(&f.key).or_insert(0) += 1;
    }
    s += "  \"failure_keys\": {";
    s += &kn.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    s += "},\n  \"samples\": [";
    s += &g.samples.iter().map(|(i, d)| format!("{{\"case\": {}, \"input\": {}}}", i, js(d))).collect::<Vec<_>>().join(",\n   ");
    s += "]\n },\n";
    s += &format!(" \"assumptions\": [{}],\n", assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    s += &format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, violations);
    if let Some(p) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(p);
    }
    let _ = std::fs::write(path, s);
}
