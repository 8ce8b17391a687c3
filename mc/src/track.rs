//! Checking allocator: while tracking is on for a thread, every block gets guard zones and a fill
//! pattern, freed blocks are kept (poisoned) until tracking ends, and all errors are recorded.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

const G: usize = 256;
const N: usize = 16384;
/// blocks allocated and not yet released, by all threads, while switched on
pub static COUNTING: AtomicBool = AtomicBool::new(false);
pub static OUTSTANDING: AtomicI64 = AtomicI64::new(0);
#[derive(Clone, Copy)]
struct Ent {
    raw: *mut u8,
    ptr: *mut u8,
    size: usize,
    total: usize,
    align: usize,
    live: bool,
}
struct Tab {
    n: usize,
    e: [Ent; N],
    err: [&'static str; 4],
    nerr: usize,
}
const EMPTY: Ent = Ent { raw: std::ptr::null_mut(), ptr: std::ptr::null_mut(), size: 0, total: 0, align: 0, live: false };
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NET: Cell<i64> = const { Cell::new(0) };
    static TAB: UnsafeCell<Tab> = const { UnsafeCell::new(Tab { n: 0, e: [EMPTY; N], err: [""; 4], nerr: 0 }) };
}
pub struct Track;
fn tab() -> *mut Tab {
    TAB.try_with(|t| t.get()).unwrap_or(std::ptr::null_mut())
}
fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}
unsafe fn err(t: *mut Tab, s: &'static str) {
    if (*t).nerr < 4 {
        (*t).err[(*t).nerr] = s;
        (*t).nerr += 1;
    }
}
unsafe fn guards_ok(e: &Ent) -> bool {
    let off = e.ptr as usize - e.raw as usize;
    (0..off).all(|i| *e.raw.add(i) == 0xA5) && (off + e.size..e.total).all(|i| *e.raw.add(i) == 0xA5)
}
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        net(1);
        if COUNTING.load(Relaxed) {
            OUTSTANDING.fetch_add(1, Relaxed);
        }
        if !on() {
            return System.alloc(l);
        }
        let t = tab();
        if t.is_null() || (*t).n == N {
            return System.alloc(l);
        }
        let align = l.align().max(16);
        let g = G.max(align);
        let total = l.size() + 2 * g;
        let raw = System.alloc(Layout::from_size_align_unchecked(total, align));
        if raw.is_null() {
            return raw;
        }
        std::ptr::write_bytes(raw, 0xA5, total);
        let ptr = raw.add(g);
        std::ptr::write_bytes(ptr, 0xDB, l.size());
        (*t).e[(*t).n] = Ent { raw, ptr, size: l.size(), total, align, live: true };
        (*t).n += 1;
        ptr
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        net(-1);
        if COUNTING.load(Relaxed) {
            OUTSTANDING.fetch_sub(1, Relaxed);
        }
        let t = tab();
        if !t.is_null() && (*t).n > 0 {
            let n = (*t).n;
            for i in (0..n).rev() {
                let e = (*t).e[i];
                if e.ptr == p {
                    if !e.live {
                        err(t, "a block is freed twice");
                        return;
                    }
                    if e.size != l.size() {
                        err(t, "a block is freed with another size than it was allocated with");
                    }
                    if !guards_ok(&e) {
                        err(t, "memory next to a block was written");
                    }
                    std::ptr::write_bytes(p, 0xEF, e.size);
                    (*t).e[i].live = false;
                    return;
                }
            }
        }
        System.dealloc(p, l)
    }
}
fn net(d: i64) {
    let _ = NET.try_with(|n| n.set(n.get() + d));
}
/// blocks allocated minus blocks released by this thread since it was started
pub fn balance() -> i64 {
    NET.with(|n| n.get())
}
pub fn begin() {
    unsafe {
        let t = tab();
        assert!((*t).n == 0);
        (*t).nerr = 0;
    }
    ON.with(|o| o.set(true));
}
/// stop recording new allocations (frees of recorded blocks are still recorded)
pub fn pause<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.with(|o| o.replace(false));
    let r = f();
    ON.with(|o| o.set(was));
    r
}
/// more blocks than are recorded
pub fn full() -> bool {
    unsafe { (*tab()).n == N }
}
pub fn live() -> usize {
    unsafe {
        let t = tab();
        (0..(*t).n).filter(|i| (*t).e[*i].live).count()
    }
}
/// an address inside a live block?
pub fn owned(p: *const u8) -> Option<usize> {
    unsafe {
        let t = tab();
        (0..(*t).n).find(|i| {
            let e = (*t).e[*i];
            e.live && e.ptr as *const u8 == p
        })
    }
}
/// Verifies guards of live blocks and the poison of freed ones.
pub fn verify() -> Option<String> {
    unsafe {
        let t = tab();
        for i in 0..(*t).n {
            let e = (*t).e[i];
            if !guards_ok(&e) {
                return Some("memory next to a block was written".into());
            }
            if !e.live && (0..e.size).any(|k| *e.ptr.add(k) != 0xEF) {
                return Some("a block was written after it was freed".into());
            }
        }
        if (*t).nerr > 0 {
            return Some((&(*t).err)[0].into());
        }
        None
    }
}
/// Ends tracking: (live blocks, error).
pub fn end() -> (usize, Option<String>) {
    ON.with(|o| o.set(false));
    let l = live();
    let e = verify();
    unsafe {
        let t = tab();
        for i in 0..(*t).n {
            let e = (*t).e[i];
            System.dealloc(e.raw, Layout::from_size_align_unchecked(e.total, e.align));
        }
        (*t).n = 0;
    }
    (l, e)
}
