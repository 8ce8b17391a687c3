//! Preemption at machine-instruction granularity.
//!
//! `run` executes a closure on the calling thread with the processor's single-step (trap) flag set;
//! after every instruction the trap handler consults a policy, which may let a partner thread execute
//! one complete operation before the next instruction (the partner is a real second thread: thread
//! local state is not shared, locks block).  If the partner does not finish because the preempted
//! code holds a lock, stepping goes on until it does.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

pub struct Partner {
    req: AtomicU32,
    done: AtomicU32,
    quit: AtomicBool,
    /// threads that sleep until `req` or `done` moves
    sleepers: AtomicU32,
}
impl Partner {
    pub fn new() -> Partner {
        Partner { req: AtomicU32::new(0), done: AtomicU32::new(0), quit: AtomicBool::new(false), sleepers: AtomicU32::new(0) }
    }
    pub fn stop(&self) {
        self.quit.store(true, SeqCst);
        self.wake(&self.req);
    }
    /// body of the partner thread: f(n) is its n-th operation
    pub fn serve(&self, mut f: impl FnMut(u64)) {
        let mut n = 0;
        loop {
            let r = self.req.load(SeqCst);
            let d = self.done.load(Relaxed);
            if r != d {
                f(d as u64);
                self.done.store(d.wrapping_add(1), SeqCst);
                self.wake(&self.done);
                n = 0;
            } else if self.quit.load(SeqCst) {
                return;
            } else {
                self.wait(&mut n, &self.req, r, 20_000_000);
            }
        }
    }
    pub fn idle(&self) -> bool {
        self.req.load(SeqCst) == self.done.load(SeqCst)
    }
    pub fn go(&self) {
        self.req.fetch_add(1, SeqCst);
        self.wake(&self.req);
    }
    pub fn runs(&self) -> u64 {
        self.done.load(SeqCst) as u64
    }
    fn wake(&self, a: &AtomicU32) {
        if self.sleepers.load(SeqCst) != 0 {
            unsafe { syscall(202, a.as_ptr(), 129, i32::MAX, std::ptr::null::<u8>(), 0, 0) };
        }
    }
    /// spins for a while, then sleeps (at most ns) as long as a has the value v
    fn wait(&self, n: &mut u32, a: &AtomicU32, v: u32, ns: i64) {
        *n += 1;
        if *n < 3000 {
            std::hint::spin_loop();
            return;
        }
        let t = [0i64, ns];
        self.sleepers.fetch_add(1, SeqCst);
        unsafe { syscall(202, a.as_ptr(), 128, v, t.as_ptr(), 0, 0) };
        self.sleepers.fetch_sub(1, SeqCst);
    }
}

pub struct Plan {
    /// the partner runs after instructions k with k % stride == phase (and k >= from)
    pub stride: u64,
    pub phase: u64,
    pub from: u64,
    /// at most this many times
    pub max: u64,
}

struct Stepper<'a> {
    partner: &'a Partner,
    plan: &'a Plan,
    count: u64,
    preemptions: u64,
    blocked: u64,
}
thread_local! { static CUR: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) }; }

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
const TF: u64 = 0x100;

unsafe extern "C" fn on_trap(_sig: i32, _info: *mut u8, uc: *mut u8) {
    let p = CUR.with(|c| c.get()) as *mut Stepper;
    // ucontext: flags, link, stack (24 bytes), then the general registers; EFLAGS is number 17
    let efl = uc.add(40 + 17 * 8) as *mut u64;
    if p.is_null() {
        *efl &= !TF;
        return;
    }
    let s = &mut *p;
    let k = s.count;
    s.count += 1;
    if s.preemptions >= s.plan.max && s.partner.idle() {
        // nothing left to do at this or a later instruction
        *efl &= !TF;
        return;
    }
    if s.partner.idle() {
        if k < s.plan.from || k % s.plan.stride != s.plan.phase || s.preemptions >= s.plan.max {
            return;
        }
        s.preemptions += 1;
        s.partner.go();
    }
    // wait for the partner, but not forever: it may wait for a lock held here
    let mut n = 0u32;
    let limit = if s.blocked == 0 { 3_000 + 60 } else { 2_000 };
    let e = *__errno_location();
    loop {
        let d = s.partner.done.load(SeqCst);
        if s.partner.idle() {
            *__errno_location() = e;
            return;
        }
        if n > limit {
            s.blocked += 1;
            return;
        }
        s.partner.wait(&mut n, &s.partner.done, d, 5_000_000);
    }
}

pub fn supported() -> bool {
    cfg!(all(target_arch = "x86_64", target_os = "linux"))
}

#[cfg(target_arch = "x86_64")]
pub fn run(partner: &Partner, plan: &Plan, f: impl FnOnce()) -> (u64, u64, u64) {
    use std::arch::asm;
    static INIT: std::sync::Once = std::sync::Once::new();
    INIT.call_once(|| {
        let a = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert!(unsafe { sigaction(5, &a, std::ptr::null_mut()) } == 0);
    });
    let mut s = Stepper { partner, plan, count: 0, preemptions: 0, blocked: 0 };
    CUR.with(|c| c.set(&mut s as *mut Stepper as *mut u8));
    unsafe {
        asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    f();
    unsafe {
        asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    CUR.with(|c| c.set(std::ptr::null_mut()));
    let mut n = 0;
    loop {
        let d = partner.done.load(SeqCst);
        if partner.idle() {
            break;
        }
        partner.wait(&mut n, &partner.done, d, 5_000_000);
    }
    (s.count, s.preemptions, s.blocked)
}
#[cfg(not(target_arch = "x86_64"))]
pub fn run(_: &Partner, _: &Plan, f: impl FnOnce()) -> (u64, u64, u64) {
    f();
    (0, 0, 0)
}
