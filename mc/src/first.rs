//! First use of the library in a process, and preemption at every access to memory that threads share.
//!
//! `mc aux first TIER CASE` is a fresh process in which the library has not been used yet.  For every schedule it forks;
//! the child runs one program on a thread A and another one on a thread B.  While A runs, the writable
//! static memory of the executable is inaccessible, so each access to it (the only way for state to be shared: the
//! programs share no instance) stops A; B then runs its program before or some instructions after
//! the access, as the schedule says.  A waits meanwhile, unless B needs a lock that A holds.
use crate::api::*;
use crate::checks::hist::{apply, near, show_ops, Op, Op::*};
use crate::engine::*;
use crate::gas::*;
use crate::step::Partner;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Prog {
    pub kind: Kind,
    pub ffi: bool,
    pub ops: Vec<Op>,
}
impl Prog {
    fn run(&self) -> Vec<f64> {
        let mut m = if self.ffi { self.kind.make_ffi() } else { self.kind.make() };
        let mut v = vec![];
        for o in &self.ops {
            v.push(apply(&mut *m, o));
            v.extend([m.t(), m.p(), m.d()]);
            v.extend(m.out());
        }
        v
    }
    fn show(&self) -> String {
        format!("{}{}: {}", self.kind.name(), if self.ffi { " (C)" } else { "" }, show_ops(&self.ops))
    }
    fn diff(&self, got: &[f64], want: &[f64]) -> Option<String> {
        let w = want.len() / self.ops.len();
        if got.len() != want.len() {
            return Some(format!("{}: does not finish", self.show()));
        }
        (0..got.len()).find(|&i| !near(got[i], want[i], if i % w > 3 { 1e-3 } else { 0.0 }, 1e-12)).map(|i| {
            let n = match i % w {
                0 => "result",
                1 => "t",
                2 => "p",
                3 => "d",
                n => ON[n - 4],
            };
            format!("{}: step {}: {n} = {:?} instead of {:?}", self.show(), i / w + 1, got[i], want[i])
        })
    }
}

pub struct Scenario {
    a: Prog,
    b: Prog,
    /// calculations before: none, by an instance that is gone, by one that is still there
    warm: usize,
}
pub fn scenarios(_tier: Tier) -> Vec<Scenario> {
    let x = mix(&[(0, 0.9), (2, 0.06), (4, 0.04)]);
    let y = mix(&[(0, 0.85), (1, 0.1), (6, 0.05)]);
    let bodies = [
        (vec![Comp(x), T(300.0), D(6.0), Prop], vec![Comp(y), T(300.0), D(6.0), Pres, T(310.0), Pres]),
        (vec![Comp(y), T(290.0), P(5000.0), Dens(0), Prop], vec![Comp(x), T(310.0), D(4.0), Prop]),
        (vec![Comp(x), T(300.0), D(6.0), Pres, T(320.0), Prop], vec![Comp(x), T(300.0), D(6.0), Prop]),
    ];
    let mut v = vec![];
    for warm in 0..3 {
        for (ka, kb) in KINDS.into_iter().flat_map(|a| KINDS.map(|b| (a, b))) {
            for (a, b) in &bodies {
                for ffi in [false, true] {
                    let (a, b) = (a.clone(), b.clone());
                    v.push(Scenario { a: Prog { kind: ka, ffi, ops: a }, b: Prog { kind: kb, ffi, ops: b }, warm });
                }
            }
        }
    }
    v
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fd: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn open(p: *const u8, f: i32, ...) -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn usleep(us: u32) -> i32;
    fn mprotect(a: usize, n: usize, p: i32) -> i32;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const TF: u64 = 0x100;

/// the writable static memory of this executable
fn statics() -> (usize, usize) {
    let exe = std::env::current_exe().unwrap();
    let exe = exe.to_str().unwrap();
    let (mut lo, mut hi) = (0, 0);
    for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let name = f.get(5).copied().unwrap_or("");
        if f[1].starts_with("rw") && (name == exe || (name.is_empty() && hi == a && hi != 0)) {
            if lo == 0 {
                lo = a;
            }
            hi = b;
        }
    }
    (lo, hi)
}

struct Watch {
    lo: usize,
    len: usize,
    /// the pages are inaccessible
    armed: bool,
    /// watching is over (the partner was blocked)
    open: bool,
    accesses: u64,
    /// (access, instructions after it; -1: before it)
    points: [(u64, i64); 2],
    next: usize,
    np: usize,
    after: i64,
    partner: *const Partner,
    tid: *const AtomicI32,
    ran: u64,
    blocked: u64,
    slow: u64,
}
thread_local! { static CUR: Cell<*mut Watch> = const { Cell::new(std::ptr::null_mut()) }; }

/// is the thread asleep?
unsafe fn asleep(tid: i32) -> bool {
    let mut p = [0u8; 64];
    let mut n = 0;
    for b in b"/proc/self/task/" {
        p[n] = *b;
        n += 1;
    }
    let (mut d, mut t, mut k) = ([0u8; 12], tid, 0);
    while t > 0 {
        d[k] = b'0' + (t % 10) as u8;
        t /= 10;
        k += 1;
    }
    while k > 0 {
        k -= 1;
        p[n] = d[k];
        n += 1;
    }
    for b in b"/stat\0" {
        p[n] = *b;
        n += 1;
    }
    let fd = open(p.as_ptr(), 0);
    if fd < 0 {
        return false;
    }
    let mut b = [0u8; 200];
    let l = read(fd, b.as_mut_ptr(), 200);
    close(fd);
    let b = &b[..l.max(0) as usize];
    match b.iter().rposition(|c| *c == b')') {
        Some(i) => b.get(i + 2) == Some(&b'S'),
        None => false,
    }
}
impl Watch {
    unsafe fn protect(&mut self, on: bool) {
        if self.armed != on {
            mprotect(self.lo, self.len, if on { 0 } else { 3 });
            self.armed = on;
        }
    }
    unsafe fn run_partner(&mut self) {
        self.protect(false);
        self.next += 1;
        self.ran += 1;
        let e = *__errno_location();
        let p = &*self.partner;
        p.go();
        let mut n = 0u64;
        let mut sleeping = 0;
        while !p.idle() {
            n += 1;
            if n < 20_000 {
                std::hint::spin_loop();
                continue;
            }
            let tid = (*self.tid).load(SeqCst);
            if tid != 0 && asleep(tid) {
                sleeping += 1;
            } else {
                sleeping = 0;
            }
            // (a long time, for a partner that spins)
            if sleeping > 3 || n > 20_000 + 6_000 {
                self.blocked += 1;
                self.slow += (sleeping <= 3) as u64;
                self.open = true;
                break;
            }
            usleep(50);
        }
        *__errno_location() = e;
    }
}
unsafe fn crash(sig: i32) {
    let a = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
    sigaction(sig, &a, std::ptr::null_mut());
}
unsafe extern "C" fn on_segv(sig: i32, info: *mut u8, uc: *mut u8) {
    let w = CUR.with(|c| c.get());
    let addr = *(info.add(16) as *const usize);
    if w.is_null() || addr < (*w).lo || addr >= (*w).lo + (*w).len || !(*w).armed {
        crash(sig);
        return;
    }
    let w = &mut *w;
    let efl = uc.add(40 + 17 * 8) as *mut u64;
    w.protect(false);
    let k = w.accesses;
    w.accesses += 1;
    if w.next < w.np && w.points[w.next] == (k, -1) {
        w.run_partner();
    }
    if w.open {
        *efl &= !TF;
        return;
    }
    if w.after < 0 && w.next < w.np && w.points[w.next].0 == k {
        w.after = w.points[w.next].1;
        w.after = w.after.max(0);
    }
    *efl |= TF;
}
unsafe extern "C" fn on_trap(_sig: i32, _info: *mut u8, uc: *mut u8) {
    let w = CUR.with(|c| c.get());
    let efl = uc.add(40 + 17 * 8) as *mut u64;
    if w.is_null() || (*w).open {
        *efl &= !TF;
        return;
    }
    let w = &mut *w;
    if w.after == 0 {
        w.after = -1;
        w.run_partner();
        if w.open {
            *efl &= !TF;
            return;
        }
    } else if w.after > 0 {
        w.after -= 1;
    }
    w.protect(true);
    if w.after < 0 {
        *efl &= !TF;
    } else {
        *efl |= TF;
    }
}

struct Report {
    accesses: u64,
    ran: u64,
    blocked: u64,
    slow: u64,
    bad: String,
    solo: Vec<f64>,
}
/// runs f in a child process and passes on its report
fn child(limit: u32, f: impl FnOnce() -> Report) -> Result<Report, i32> {
    let mut fd = [0; 2];
    unsafe {
        assert!(pipe(fd.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(fd[0]);
            alarm(limit);
            let r = f();
            let mut b = vec![];
            for n in [r.accesses, r.ran, r.blocked, r.slow, r.solo.len() as u64] {
                b.extend(n.to_le_bytes());
            }
            for x in r.solo {
                b.extend(x.to_bits().to_le_bytes());
            }
            b.extend(r.bad.as_bytes());
            let mut at = 0;
            while at < b.len() {
                let n = write(fd[1], b.as_ptr().add(at), b.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            _exit(0);
        }
        close(fd[1]);
        let mut b = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = read(fd[0], buf.as_mut_ptr(), 4096);
            if n <= 0 {
                break;
            }
            b.extend(&buf[..n as usize]);
        }
        close(fd[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st != 0 || b.len() < 40 {
            return Err(st);
        }
        let u = |i: usize| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        let n = u(4) as usize;
        Ok(Report { accesses: u(0), ran: u(1), blocked: u(2), slow: u(3), solo: (0..n).map(|i| f64::from_bits(u(5 + i))).collect(), bad: String::from_utf8_lossy(&b[40 + 8 * n..]).into() })
    }
}

fn run(s: &Scenario, wa: &[f64], wb: &[f64], points: &[(u64, i64)], range: (usize, usize)) -> Report {
    use std::arch::asm;
    let warmth = Prog { kind: s.a.kind, ffi: false, ops: vec![Comp(mix(&[(0, 0.7), (1, 0.2), (5, 0.1)])), T(305.0), D(2.0), Prop] };
    let mut alive: Vec<Box<dyn Eos>> = vec![];
    match s.warm {
        1 => {
            warmth.run();
            s.b.run();
        }
        2 => {
            for p in [&warmth, &s.a] {
                let mut m = p.kind.make();
                for o in &p.ops {
                    apply(&mut *m, o);
                }
                alive.push(m);
            }
        }
        _ => {}
    }
    let partner = Partner::new();
    let tid = AtomicI32::new(0);
    let ready = AtomicBool::new(false);
    let rb: Mutex<Vec<Result<Vec<f64>, (String, String)>>> = Mutex::new(vec![]);
    let counts: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];
    let mut ra = Ok(vec![]);
    std::thread::scope(|sc| {
        let (partner, tid, ready, rb, counts) = (&partner, &tid, &ready, &rb, &counts);
        sc.spawn(move || {
            let id = unsafe { syscall(186) } as i32;
            ready.store(true, SeqCst);
            partner.serve(|_| {
                tid.store(id, SeqCst);
                let r = guarded(|| s.b.run());
                tid.store(0, SeqCst);
                rb.lock().unwrap().push(r);
            });
        });
        while !ready.load(SeqCst) {
            std::hint::spin_loop();
        }
        let a = sc.spawn(move || {
            let mut w = Watch { lo: range.0, len: range.1 - range.0, armed: false, open: false, accesses: 0, points: [(u64::MAX, 0); 2], next: 0, np: points.len(), after: -1, partner, tid, ran: 0, blocked: 0, slow: 0 };
            w.points[..points.len()].copy_from_slice(points);
            let wp = &mut w as *mut Watch;
            let r = guarded(|| {
                CUR.with(|c| c.set(wp));
                unsafe { (*wp).protect(true) };
                let r = s.a.run();
                unsafe {
                    asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
                    (*wp).protect(false);
                }
                CUR.with(|c| c.set(std::ptr::null_mut()));
                r
            });
            // (after a panic)
            unsafe {
                asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
                (*wp).protect(false);
            }
            CUR.with(|c| c.set(std::ptr::null_mut()));
            for (c, v) in counts.iter().zip([w.accesses, w.ran, w.blocked, w.slow]) {
                c.store(v, SeqCst);
            }
            r
        });
        ra = a.join().unwrap();
        partner.stop();
    });
    let mut bad = String::new();
    let mut see = |who: &str, r: &Result<Vec<f64>, (String, String)>, p: &Prog, want: &[f64]| {
        if bad.is_empty() {
            match r {
                Err((l, m)) => bad = format!("{who}: {} panics at {l}: {m}", p.show()),
                Ok(r) => {
                    if let Some(e) = p.diff(r, want) {
                        bad = format!("{who}: {e}");
                    }
                }
            }
        }
    };
    see("thread A", &ra, &s.a, wa);
    for r in rb.lock().unwrap().iter() {
        see("thread B", r, &s.b, wb);
    }
    drop(alive);
    see("afterwards", &guarded(|| s.a.run()), &s.a, wa);
    see("afterwards", &guarded(|| s.b.run()), &s.b, wb);
    let c = |i: usize| counts[i].load(SeqCst);
    Report { accesses: c(0), ran: c(1), blocked: c(2), slow: c(3), bad, solo: vec![] }
}

/// what the process is for: all schedules of one scenario
pub fn main(tier: Tier, case: usize) -> i32 {
    let s = &scenarios(tier)[case];
    install_panic_hook();
    let range = statics();
    for (sig, h) in [(11, on_segv as *const () as usize), (5, on_trap as *const () as usize)] {
        // SA_SIGINFO, SA_NODEFER
        let a = SigAction { handler: h, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
        assert!(unsafe { sigaction(sig, &a, std::ptr::null_mut()) } == 0);
    }
    let solo = |p: &Prog| {
        child(60, || Report { accesses: 0, ran: 0, blocked: 0, slow: 0, bad: String::new(), solo: p.run() }).map(|r| r.solo)
    };
    let (Ok(wa), Ok(wb)) = (solo(&s.a), solo(&s.b)) else {
        println!("FAIL alone: {} or {} ends the process", s.a.show(), s.b.show());
        return 1;
    };
    let (mut runs, mut switches, mut blocked, mut slow) = (0u64, 0, 0, 0);
    let mut go = |points: &[(u64, i64)], log: &mut (u64, u64, u64)| -> Result<u64, ()> {
        let what = || {
            let at: Vec<String> = points.iter().map(|p| if p.1 < 0 { format!("before access {}", p.0) } else { format!("{} instructions after access {}", p.1, p.0) }).collect();
            let w = ["in a new process", "after other calculations", "while other instances are alive"][s.warm];
            format!("{} on thread A preempted by {} on thread B ({}) {w}", s.a.show(), s.b.show(), if at.is_empty() { "not at all".into() } else { at.join(", ") })
        };
        let r = child(60, || run(s, &wa, &wb, points, range));
        runs += 1;
        match r {
            Err(st) => {
                println!("FAIL {}: the process ends with status {st}", what());
                Err(())
            }
            Ok(r) if !r.bad.is_empty() => {
                println!("FAIL {}: {}", what(), r.bad);
                Err(())
            }
            Ok(r) => {
                switches += r.ran;
                blocked += r.blocked;
                slow += r.slow;
                *log = (r.ran, r.blocked, r.slow);
                Ok(r.accesses)
            }
        }
    };
    let q = tier == Tier::Quick;
    let delays: &[i64] = if q { &[-1, 0, 1, 2, 4, 16, 64, 1024] } else { &[-1, 0, 1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 128, 256, 1024, 4096, 16384] };
    let cap = tier.pick(96u64, 1500);
    let mut l = (0, 0, 0);
    let mut slows = 0;
    let r = (|| -> Result<u64, ()> {
        let n = go(&[], &mut l)?;
        // all accesses, or evenly spread ones
        let pts: Vec<u64> = if n <= cap { (0..n).collect() } else { (0..cap / 2).chain((0..cap / 2).map(|i| cap / 2 + i * (n - cap / 2) / (cap / 2))).collect() };
        for &k in &pts {
            for &d in delays {
                if slows > 20 {
                    return Ok(n);
                }
                go(&[(k, d)], &mut l)?;
                slows += l.2;
                // further delays meet the same lock
                if l.1 > 0 && d > 16 {
                    break;
                }
            }
        }
        // two preemptions
        let few = tier.pick(12, 60);
        let pts: Vec<u64> = if n <= few { (0..n).collect() } else { (0..few).map(|i| i * n / few).collect() };
        for (i, &k) in pts.iter().enumerate() {
            for &k2 in &pts[i + 1..] {
                for d in [-1i64, 0] {
                    if slows > 20 {
                        return Ok(n);
                    }
                    go(&[(k, d), (k2, d)], &mut l)?;
                    slows += l.2;
                }
            }
        }
        Ok(n)
    })();
    match r {
        Ok(n) => {
            println!("OK {runs} {switches} {blocked} {n}");
            0
        }
        Err(()) => 1,
    }
}

pub fn space_of(tier: Tier) -> Space {
    let n = scenarios(tier).len();
    space("first use and preemption at accesses to static memory", n, move |i, c| {
        let exe = std::env::current_exe().unwrap();
        let o = std::process::Command::new(exe).args(["aux", "first", tier.name(), &i.to_string()]).output().expect("child");
        let t = String::from_utf8_lossy(&o.stdout);
        if let Some(l) = t.lines().find_map(|l| l.strip_prefix("FAIL ")) {
            c.fail("preemption", l.to_string());
            return;
        }
        let Some(l) = t.lines().find_map(|l| l.strip_prefix("OK ")) else {
            panic!("harness: no answer for scenario {i}: {} {}", o.status, String::from_utf8_lossy(&o.stderr));
        };
        let f: Vec<u64> = l.split(' ').map(|f| f.parse().unwrap()).collect();
        c.op(f[1]);
        for k in 0..f[0] {
            c.trace();
            c.state_h(i << 32 | k | 1 << 59);
        }
        c.max("accesses to static memory in one program", f[3] as f64);
        c.outcome(if f[2] > 0 { "partner had to wait for a lock" } else { "as alone" });
    })
}
