//! Exhaustive exploration engine: every check is a list of finite, indexed spaces; every index of
//! every space is executed on the real code.  Nothing is sampled.  A worker process runs the cases on
//! all cores and journals the case each thread is in, so that a crash or a hang of the code under test
//! is attributed to the case that caused it (and confirmed by re-running this case alone).
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// choose by tier
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

type CaseFn = Box<dyn Fn(u64, &mut Ctx) + Send + Sync>;
pub struct Space {
    pub name: String,
    pub n: u64,
    pub f: CaseFn,
    /// cores one case keeps busy
    pub cores: usize,
    /// a case runs other programs (compilers, the interpreter) and watches their time itself
    pub patient: bool,
}
pub fn space(name: &str, n: usize, f: impl Fn(u64, &mut Ctx) + Send + Sync + 'static) -> Space {
    Space { name: name.to_string(), n: n as u64, f: Box::new(f), cores: 1, patient: false }
}
/// Start of a case the watchdog does not watch.
pub const PATIENT: u64 = u64::MAX;

pub struct Check {
    pub id: &'static str,
    pub spaces: fn(Tier) -> Vec<Space>,
    pub assumptions: &'static [&'static str],
}

impl Check {
    /// What runs other programs comes last.
    pub fn list(&self, t: Tier) -> Vec<Space> {
        let mut v = (self.spaces)(t);
        v.sort_by_key(|s| s.patient);
        v
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Ctx {
    pub fails: Vec<Fail>,
    pub ops: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub maxima: BTreeMap<&'static str, f64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    /// part of the case was not decided
    pub partial: bool,
    /// the check is about what calls leave behind in the thread
    pub watches_fp: bool,
    states: Vec<u64>,
}
impl Ctx {
    /// n calls into the code under test were executed
    #[inline]
    pub fn op(&mut self, n: u64) {
        self.ops += n;
    }
    /// one complete behaviour of the implementation was compared with the oracle
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    #[inline]
    pub fn outcome(&mut self, s: &str) {
        if let Some(v) = self.outcomes.get_mut(s) {
            *v += 1;
        } else {
            self.outcomes.insert(s.to_string(), 1);
        }
    }
    #[inline]
    pub fn max(&mut self, k: &'static str, v: f64) {
        if v.is_finite() {
            let e = self.maxima.entry(k).or_insert(f64::NEG_INFINITY);
            if v > *e {
                *e = v;
            }
        }
    }
    /// a state of the system under test, identified by the given numbers (bitwise)
    #[inline]
    pub fn state(&mut self, v: &[f64]) {
        let mut h = 0x9E37_79B9_7F4A_7C15u64;
        for x in v {
            h = mix64(h ^ x.to_bits());
        }
        self.states.push(h);
    }
    pub fn state_h(&mut self, h: u64) {
        self.states.push(mix64(h));
    }
    pub fn fail(&mut self, key: &str, msg: String) {
        if self.fails.len() < 4 {
            self.fails.push(Fail { key: key.to_string(), msg });
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            self.samples.push(f());
        }
    }
}
pub fn mix64(mut h: u64) -> u64 {
    h ^= h >> 32;
    h = h.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    h ^= h >> 32;
    h = h.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    h ^ (h >> 32)
}

// ---------------------------------------------------------------- journal shared with the supervisor
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
pub const SLOTS: usize = 64;
/// per thread: [space+1 (0 = idle), index, start time in ms]
pub struct Journal(*mut AtomicU64);
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
impl Journal {
    pub fn open(path: &str) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("journal");
        f.set_len(4096).unwrap();
        // PROT_READ|PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap journal");
        Journal(p as *mut AtomicU64)
    }
    fn at(&self, slot: usize, k: usize) -> &AtomicU64 {
        assert!(slot < SLOTS && k < 3);
        unsafe { &*self.0.add(slot * 3 + k) }
    }
    pub fn clear(&self) {
        for s in 0..SLOTS {
            self.at(s, 0).store(0, SeqCst);
        }
    }
    fn begin(&self, slot: usize, sp: usize, idx: u64, ms: u64) {
        self.at(slot, 1).store(idx, Relaxed);
        self.at(slot, 2).store(ms, Relaxed);
        self.at(slot, 0).store(sp as u64 + 1, Release);
    }
    fn end(&self, slot: usize) {
        self.at(slot, 0).store(0, Release);
    }
    pub fn running(&self) -> Vec<(usize, u64, u64)> {
        (0..SLOTS)
            .filter_map(|s| {
                let v = self.at(s, 0).load(Acquire);
                (v > 0).then(|| (v as usize - 1, self.at(s, 1).load(Relaxed), self.at(s, 2).load(Relaxed)))
            })
            .collect()
    }
}

// ---------------------------------------------------------------- panics
thread_local! { static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = (loc, msg));
    }));
}
/// Runs f; Err((location, message)) if it panicked.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
/// A panic whose location is in the harness itself is an error of the check, never a verdict.
pub fn is_harness_panic(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("refmodel")
}

fn run_case(sp: &Space, idx: u64, c: &mut Ctx) -> Result<(), String> {
    let r = guarded(|| (sp.f)(idx, c));
    let fp = fp_control();
    if fp != FP_DEFAULT {
        // rounding, flushing of subnormals, traps: belong to the thread, not to an instance
        set_fp_control(FP_DEFAULT);
        if c.watches_fp {
            c.fail("thread state", format!("floating-point control of the thread is {fp:#x} afterwards instead of {FP_DEFAULT:#x}"));
        }
    }
    match r {
        Ok(()) => Ok(()),
        Err((loc, msg)) => {
            if is_harness_panic(&loc) {
                Err(format!("harness panic at {loc}: {msg} (space {} index {idx})", sp.name))
            } else {
                c.fail("panic", format!("the code under test panicked at {loc}: {msg}"));
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- known findings
pub struct Known {
    pub lines: Vec<(String, String)>, // key, text
}
impl Known {
    pub fn load(path: &str, id: &str) -> Known {
        let mut lines = vec![];
        if let Ok(s) = std::fs::read_to_string(path) {
            for l in s.lines() {
                let l = l.trim();
                if let Some(r) = l.strip_prefix("known: ") {
                    if let Some(r) = r.strip_prefix(&format!("property={id} ")) {
                        if let Some(r) = r.strip_prefix("case=") {
                            let (k, t) = r.split_once(' ').unwrap_or((r, ""));
                            lines.push((k.to_string(), t.to_string()));
                        }
                    }
                }
            }
        }
        Known { lines }
    }
    fn has(&self, f: &Fail) -> bool {
        self.lines.iter().any(|(k, _)| *k == f.key)
    }
}

// ---------------------------------------------------------------- worker
pub struct Opts {
    pub tier: Tier,
    pub seed: i64,
    pub dir: String,
    pub cap: Duration,
    pub hang: Duration,
    pub threads: usize,
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

pub fn write_replay(o: &Opts, id: &str, space: &str, sp: usize, idx: u64, what: &str) -> String {
    let dir = format!("{}/replays", o.dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{}-{sp}-{idx}.json", o.tier.name());
    let body = format!(
        "{{\n \"property\": \"{id}\",\n \"tier\": \"{}\",\n \"space\": {sp},\n \"index\": {idx},\n \"space_name\": \"{}\",\n \"replay_cmd\": \"./check replay {path}\",\n \"what\": \"{}\"\n}}\n",
        o.tier.name(), esc(space), esc(what)
    );
    let _ = std::fs::write(&path, body);
    path
}

static SHARDS: usize = 64;
const STATE_CAP: usize = 60_000_000;

pub fn write_evidence(o: &Opts, id: &str, cov: &str, assumptions: &[&str], wall: f64, violations: usize) {
    let ass: Vec<String> = assumptions.iter().map(|a| format!("\"{}\"", esc(a))).collect();
    let s = format!(
        "{{\n \"property\": \"{id}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {cov},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.3},\n \"violations\": {violations}\n}}\n",
        o.tier.name(), o.seed, ass.join(", ")
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.dir));
    std::fs::write(format!("{}/evidence/{id}.json", o.dir), s).expect("write evidence");
}

#[derive(Default)]
struct Total {
    ops: u64,
    traces: u64,
    cases: u64,
    outcomes: BTreeMap<String, u64>,
    maxima: BTreeMap<&'static str, f64>,
    samples: Vec<String>,
    known_hit: BTreeMap<String, u64>,
    best: Option<(u64, Fail)>,
    error: Option<String>,
    partial: bool,
}

/// Exit code: 0 held, 1 violation (printed), 2 error of the check, 77 a case exceeded the hang limit.
pub fn worker(ck: &Check, o: &Opts, journal: Journal) -> i32 {
    let start = Instant::now();
    let spaces = ck.list(o.tier);
    let known = Known::load(&format!("{}/known_findings.txt", o.dir), ck.id);
    let shards: Vec<Mutex<HashSet<u64, std::hash::BuildHasherDefault<Ident>>>> = (0..SHARDS).map(|_| Mutex::new(HashSet::default())).collect();
    let nstates = AtomicUsize::new(0);
    let mut tot = Total::default();
    let mut per_space = String::new();
    let mut exhaustive = true;
    let mut violation: Option<(usize, u64, Fail)> = None;
    let finished = AtomicBool::new(false);
    let journal = &journal;
    std::thread::scope(|scope| {
        // watchdog
        let fin = &finished;
        let hang = o.hang.as_millis() as u64;
        scope.spawn(move || {
            while !fin.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = start.elapsed().as_millis() as u64;
                for (sp, idx, t0) in journal.running() {
                    if now.saturating_sub(t0) > hang {
                        eprintln!("case space {sp} index {idx} exceeded {hang} ms");
                        unsafe { _exit(77) }
                    }
                }
            }
        });
        'spaces: for (si, sp) in spaces.iter().enumerate() {
            let next = AtomicU64::new(0);
            let minfail = AtomicU64::new(u64::MAX);
            let capped = AtomicBool::new(false);
            let agg = Mutex::new(Total::default());
            let chunk = (sp.n / (o.threads as u64 * 32)).clamp(1, 512);
            std::thread::scope(|s2| {
                for th in 0..(o.threads / sp.cores).max(1) {
                    let (next, minfail, capped, agg, shards, nstates, known) = (&next, &minfail, &capped, &agg, &shards, &nstates, &known);
                    s2.spawn(move || {
                        let mut c = Ctx { watches_fp: watches(ck), ..Default::default() };
                        let mut t = Total::default();
                        loop {
                            let lo = next.fetch_add(chunk, Relaxed);
                            if lo >= sp.n {
                                break;
                            }
                            for idx in lo..(lo + chunk).min(sp.n) {
                                if idx > minfail.load(Relaxed) {
                                    break;
                                }
                                let el = start.elapsed();
                                if el > o.cap {
                                    capped.store(true, Relaxed);
                                    break;
                                }
                                journal.begin(th, si, idx, if sp.patient { PATIENT } else { el.as_millis() as u64 });
                                c.want_sample = idx == 0 || idx == sp.n / 2;
                                if let Err(e) = run_case(sp, idx, &mut c) {
                                    t.error = Some(e);
                                    minfail.fetch_min(idx, Relaxed);
                                }
                                journal.end(th);
                                t.cases += 1;
                                for f in c.fails.drain(..) {
                                    if known.has(&f) {
                                        *t.known_hit.entry(f.key.clone()).or_insert(0) += 1;
                                    } else {
                                        if t.best.as_ref().map_or(true, |(i, _)| idx < *i) {
                                            t.best = Some((idx, f));
                                        }
                                        minfail.fetch_min(idx, Relaxed);
                                    }
                                }
                                if c.states.len() > 8192 {
                                    flush(&mut c.states, shards, nstates);
                                }
                            }
                            if capped.load(Relaxed) {
                                break;
                            }
                        }
                        flush(&mut c.states, shards, nstates);
                        t.partial = c.partial;
                        t.ops = c.ops;
                        t.traces = c.traces;
                        t.outcomes = c.outcomes;
                        t.maxima = c.maxima;
                        t.samples = c.samples;
                        merge(&mut agg.lock().unwrap(), t);
                    });
                }
            });
            let a = agg.into_inner().unwrap();
            let cap = capped.load(Relaxed);
            if !per_space.is_empty() {
                per_space.push_str(",\n   ");
            }
            let _ = write!(per_space, "{{\"space\": \"{}\", \"cases\": {}, \"of\": {}, \"transitions\": {}, \"traces\": {}, \"done_at_s\": {:.2}}}", esc(&sp.name), a.cases, sp.n, a.ops, a.traces, start.elapsed().as_secs_f64());
            let best = a.best.clone();
            let err = a.error.clone();
            let partial = a.partial;
            merge(&mut tot, a);
            if let Some(e) = err {
                tot.error = Some(e);
                exhaustive = false;
                break 'spaces;
            }
            if let Some((idx, f)) = best {
                violation = Some((si, idx, f));
                exhaustive = false;
                break 'spaces;
            }
            if partial {
                exhaustive = false;
            }
            if cap {
                exhaustive = false;
                break 'spaces;
            }
        }
        finished.store(true, Relaxed);
    });
    let mut code = 0;
    if let Some(e) = &tot.error {
        eprintln!("ERROR of the check: {e}");
        code = 2;
    }
    if let (0, Some((si, idx, f))) = (code, &violation) {
        // the same case must fail again
        let mut c = Ctx { watches_fp: watches(ck), ..Default::default() };
        let _ = run_case(&spaces[*si], *idx, &mut c);
        let again = c.fails.iter().any(|g| !known.has(g));
        let path = write_replay(o, ck.id, &spaces[*si].name, *si, *idx, &f.msg);
        if !again {
            println!("note: the failing case did not fail when repeated in the same process: {}", f.msg);
        }
        println!("{}: space \"{}\" case {idx}: [{}] {}", ck.id, spaces[*si].name, f.key, f.msg);
        println!("VIOLATION property={} replay={path}", ck.id);
        code = 1;
    }
    for (k, t) in &known.lines {
        println!("KNOWN-FINDING: property={} {t} (case={k}, hit {} times)", ck.id, tot.known_hit.get(k).copied().unwrap_or(0));
    }
    let ns = nstates.load(Relaxed);
    let outs: Vec<String> = tot.outcomes.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect();
    let mx: Vec<String> = tot.maxima.iter().map(|(k, v)| format!("\"{}\": {v:e}", esc(k))).collect();
    let smp: Vec<String> = tot.samples.iter().take(40).map(|k| format!("\"{}\"", esc(k))).collect();
    let cov = format!(
        "{{\n  \"states\": {ns},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"cases\": {},\n  \"exhaustive\": {},\n  \"state_count_capped\": {},\n  \"distinct_outcomes\": {{{}}},\n  \"observed_maxima\": {{{}}},\n  \"spaces\": [\n   {per_space}],\n  \"samples\": [{}]\n }}",
        tot.ops, tot.traces, tot.cases, exhaustive, ns >= STATE_CAP, outs.join(", "), mx.join(", "), smp.join(", ")
    );
    write_evidence(o, ck.id, &cov, ck.assumptions, start.elapsed().as_secs_f64(), violation.is_some() as usize);
    println!(
        "{} {}: {} cases, {} states, {} transitions, {} traces, exhaustive={} in {:.1}s",
        ck.id, o.tier.name(), tot.cases, ns, tot.ops, tot.traces, exhaustive, start.elapsed().as_secs_f64()
    );
    code
}

extern "C" {
    fn _exit(c: i32) -> !;
}

#[derive(Default)]
pub struct Ident(u64);
impl std::hash::Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 << 8) | *x as u64;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}

fn flush(v: &mut Vec<u64>, shards: &[Mutex<HashSet<u64, std::hash::BuildHasherDefault<Ident>>>], n: &AtomicUsize) {
    if n.load(Relaxed) >= STATE_CAP {
        v.clear();
        return;
    }
    v.sort_unstable_by_key(|h| h % SHARDS as u64);
    let mut i = 0;
    while i < v.len() {
        let s = v[i] % SHARDS as u64;
        let mut g = shards[s as usize].lock().unwrap();
        while i < v.len() && v[i] % SHARDS as u64 == s {
            if g.insert(v[i]) {
                n.fetch_add(1, Relaxed);
            }
            i += 1;
        }
    }
    v.clear();
}

fn merge(a: &mut Total, b: Total) {
    a.ops += b.ops;
    a.traces += b.traces;
    a.cases += b.cases;
    a.partial |= b.partial;
    for (k, v) in b.outcomes {
        *a.outcomes.entry(k).or_insert(0) += v;
    }
    for (k, v) in b.maxima {
        let e = a.maxima.entry(k).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    for (k, v) in b.known_hit {
        *a.known_hit.entry(k).or_insert(0) += v;
    }
    a.samples.extend(b.samples);
    if let Some((i, f)) = b.best {
        if a.best.as_ref().map_or(true, |(j, _)| i < *j) {
            a.best = Some((i, f));
        }
    }
    if b.error.is_some() {
        a.error = b.error;
    }
}

/// Re-runs one case; exit 1 if it fails.
pub fn single(ck: &Check, tier: Tier, si: usize, idx: u64) -> i32 {
    let spaces = ck.list(tier);
    let mut c = Ctx { want_sample: true, watches_fp: watches(ck), ..Default::default() };
    if let Err(e) = run_case(&spaces[si], idx, &mut c) {
        eprintln!("ERROR of the check: {e}");
        return 2;
    }
    for s in &c.samples {
        println!("case: {s}");
    }
    for f in &c.fails {
        println!("{}: [{}] {}", ck.id, f.key, f.msg);
    }
    if c.fails.is_empty() {
        println!("{}: case held", ck.id);
        0
    } else {
        1
    }
}

/// Output of a program; None if it had to be ended after that many seconds.
pub fn output_within(c: &mut std::process::Command, secs: u64) -> std::io::Result<Option<std::process::Output>> {
    use std::os::unix::process::CommandExt;
    use std::process::Stdio;
    if secs == u64::MAX {
        return c.stdin(Stdio::null()).output().map(Some);
    }
    // a process group of its own: what it started is ended with it
    let ch = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0).spawn()?;
    let pid = ch.id() as i32;
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::spawn(move || {
        let o = ch.wait_with_output();
        let _ = tx.send(());
        o
    });
    let ended = rx.recv_timeout(Duration::from_secs(secs)).is_ok();
    if !ended {
        unsafe { kill(-pid, 9) };
    }
    let o = h.join().unwrap()?;
    Ok(ended.then_some(o))
}
extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

fn watches(ck: &Check) -> bool {
    matches!(ck.id, "F02" | "H03")
}

/// rounding mode, trap masks and flush-to-zero of the thread (the sticky status bits are nobody's business)
const FP_DEFAULT: u32 = 0x1f80;
#[cfg(target_arch = "x86_64")]
fn fp_control() -> u32 {
    let mut v = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v) };
    v & !0x3f
}
#[cfg(target_arch = "x86_64")]
fn set_fp_control(v: u32) {
    unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &v) };
}
#[cfg(not(target_arch = "x86_64"))]
fn fp_control() -> u32 {
    FP_DEFAULT
}
#[cfg(not(target_arch = "x86_64"))]
fn set_fp_control(_: u32) {}
