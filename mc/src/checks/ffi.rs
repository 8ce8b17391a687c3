//! The C interface: equivalence with the native types (F01), memory (F02).
use super::hist::{accepts, ident, show_ops, Op};
use crate::api::*;
use crate::engine::*;
use crate::gas::*;
use crate::checks::values::rungs;
use crate::track;
use aga8::composition::{Composition, CompositionError};
use aga8::DensityError;
use std::sync::Arc;
use Op::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "F01", spaces: f01, assumptions: &["gerg_calculate_density is the plain search mode (0) of the native function; d2p_dtd is not part of the C structure"] },
        Check {
            id: "F02",
            spaces: f02,
            assumptions: &["a read of freed memory is seen through its effect on results (freed blocks are overwritten), reads outside the caller's composition only in the direction of the adjacent inaccessible page"],
        },
    ]
}

/// results of the C functions with every output, error parameters starting from `init`
struct CSide {
    k: Kind,
    h: *mut u8,
    init: bool,
}
macro_rules! both {
    ($s:expr, $d:ident, $g:ident $(, $a:expr)*) => {
        unsafe {
            match $s.k {
                Kind::Detail => crate::cabi::detail::$d($s.h as *mut aga8::detail::Detail $(, $a)*),
                Kind::Gerg => crate::cabi::gerg2008::$g($s.h as *mut aga8::gerg2008::Gerg2008 $(, $a)*),
            }
        }
    };
}
impl CSide {
    fn new(k: Kind, init: bool) -> CSide {
        let h = match k {
            Kind::Detail => unsafe { crate::cabi::detail::aga8_new() as *mut u8 },
            Kind::Gerg => unsafe { crate::cabi::gerg2008::gerg_new() as *mut u8 },
        };
        CSide { k, h, init }
    }
    fn free(&mut self) {
        both!(self, aga8_free, gerg_free);
        self.h = std::ptr::null_mut();
    }
    fn apply(&mut self, op: &Op) -> f64 {
        match op {
            Comp(x) => {
                let mut e = if self.init { CompositionError::BadSum } else { CompositionError::Ok };
                let c = comp(x);
                both!(self, aga8_set_composition, gerg_set_composition, &c, &mut e);
                cerr(&e) as f64
            }
            T(v) => {
                both!(self, aga8_set_temperature, gerg_set_temperature, *v);
                0.0
            }
            P(v) => {
                both!(self, aga8_set_pressure, gerg_set_pressure, *v);
                0.0
            }
            D(v) => {
                both!(self, aga8_set_density, gerg_set_density, *v);
                0.0
            }
            Dens(_) => {
                let mut e = if self.init { DensityError::PressureTooLow } else { DensityError::Ok };
                both!(self, aga8_calculate_density, gerg_calculate_density, &mut e);
                derr(&e) as f64
            }
            Pres => both!(self, aga8_calculate_pressure, gerg_calculate_pressure),
            Mm => both!(self, aga8_calculate_molar_mass, gerg_calculate_molar_mass),
            Prop => {
                both!(self, aga8_calculate_properties, gerg_calculate_properties);
                0.0
            }
            Wx(_) => unreachable!(),
        }
    }
    /// t, p, d, then the structure: d and 14 results
    fn see(&self) -> [f64; 18] {
        let q = both!(self, aga8_get_properties, gerg_get_properties);
        [
            both!(self, aga8_get_temperature, gerg_get_temperature),
            both!(self, aga8_get_pressure, gerg_get_pressure),
            both!(self, aga8_get_density, gerg_get_density),
            q.d, q.mm, q.z, q.dp_dd, q.d2p_dd2, q.dp_dt, q.u, q.h, q.s, q.cv, q.cp, q.w, q.g, q.jt, q.kappa,
        ]
    }
}
const SEE: [&str; 18] = [
    "temperature", "pressure", "density", "Properties.d", "Properties.mm", "Properties.z", "Properties.dp_dd", "Properties.d2p_dd2", "Properties.dp_dt", "Properties.u", "Properties.h",
    "Properties.s", "Properties.cv", "Properties.cp", "Properties.w", "Properties.g", "Properties.jt", "Properties.kappa",
];
fn see_native(m: &dyn Eos) -> [f64; 18] {
    let o = m.out();
    [m.t(), m.p(), m.d(), m.d(), o[MM], o[Z], o[DPDD], o[D2PDD2], o[DPDT], o[U], o[H], o[S], o[CV], o[CP], o[W], o[G], o[JT], o[KAPPA]]
}
fn native(m: &mut dyn Eos, op: &Op) -> f64 {
    let r = super::hist::apply(m, &if let Dens(_) = op { Dens(0) } else { *op });
    if let Prop = op {
        0.0
    } else {
        r
    }
}
/// equal up to rounding
fn same(a: f64, b: f64) -> bool {
    ident(a, b) || (a - b).abs() <= 1e-13 * a.abs().max(b.abs())
}

fn run_f01(k: Kind, ops: &[Op], init: bool, c: &mut Ctx) -> bool {
    let mut s = CSide::new(k, init);
    let mut m = k.make();
    let mut good = true;
    for (i, op) in ops.iter().enumerate() {
        let (a, b) = (s.apply(op), native(&mut *m, op));
        c.op(2);
        if !same(a, b) {
            c.fail("result", format!("{} {}: through C {a:?}, natively {b:?} (error parameter initially {})", k.name(), show_ops(&ops[..=i]), if init { "set" } else { "Ok" }));
            good = false;
            break;
        }
        let (x, y) = (s.see(), see_native(&*m));
        if let Some(n) = (0..18).find(|n| !same(x[*n], y[*n])) {
            c.fail("field", format!("{} {}: {} = {:?} through C, natively {:?}", k.name(), show_ops(&ops[..=i]), SEE[n], x[n], y[n]));
            good = false;
            break;
        }
    }
    c.trace();
    c.state(&s.see());
    s.free();
    good
}

fn f01(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let a = full();
    let cc = mix(&[(0, 0.9), (2, 0.06), (3, 0.04)]);
    let mut bad = a;
    bad[0] += 0.4;
    for k in KINDS {
        let al = Arc::new(vec![Comp(a), Comp(cc), Comp([0.0; 21]), Comp(bad), T(300.15), T(150.07), P(5000.3), P(0.0), P(-2.3), D(6.1), D(-18.7), Prop, Pres, Mm, Dens(0)]);
        // from a new handle, and from a prepared one
        for (pn, pre) in [("new handle", vec![]), ("prepared handle", vec![Comp(a), T(279.65), P(6000.7)])] {
            for len in 1..=if q { 4 } else { 5 } {
                let (al, pre) = (al.clone(), pre.clone());
                v.push(space(&format!("{} all sequences of {len} of {} functions, {pn}", k.name(), al.len()), al.len().pow(len as u32), move |i, c| {
                    let mut ops: Vec<Op> = pre.clone();
                    let mut j = i as usize;
                    for _ in 0..len {
                        ops.push(al[j % al.len()]);
                        j /= al.len();
                    }
                    if ops.windows(2).any(|w| !w[0].is_calc() && std::mem::discriminant(&w[0]) == std::mem::discriminant(&w[1]) && !matches!(w[0], Comp(_))) {
                        c.outcome("field written twice in a row, skipped");
                        return;
                    }
                    if run_f01(k, &ops, i % 2 == 0, c) {
                        c.outcome("same natively and through C");
                    }
                    c.sample(|| format!("{} {}", k.name(), show_ops(&ops)));
                }));
            }
        }
        // every gas
        let mut xs: Vec<X> = (0..21).map(pure).collect();
        xs.extend(named().into_iter().map(|g| g.1));
        xs.extend(binaries(&[0.5]));
        xs.extend([[0.0; 21], bad, [f64::NAN; 21], [1.0; 21]]);
        let ts = if q { vec![90.0, 200.0, 300.0, 500.0] } else { lin(60.0, 700.0, 33) };
        let nt = ts.len();
        v.push(space(&format!("{} gases, temperatures, pressures, densities", k.name()), xs.len() * nt, move |i, c| {
            let x = &xs[i as usize / nt];
            let t = ts[i as usize % nt];
            for (p, d) in [(101.325, 0.0), (5000.3, 0.0), (2e4, -15.3), (1e-16, 0.0), (1e9, 0.0), (f64::NAN, f64::NAN), (-1.0, 1.0)] {
                for init in [false, true] {
                    for o in [vec![Dens(0), Prop], vec![Prop, Pres], vec![Mm], vec![D(8.1), Prop, Dens(0)], vec![Dens(0), Dens(0), Pres]] {
                        let mut ops = vec![Comp(*x), T(t), P(p), D(d)];
                        ops.extend(o);
                        if !run_f01(k, &ops, init, c) {
                            return;
                        }
                    }
                }
            }
            c.outcome("same natively and through C");
            c.sample(|| format!("{} T={t} x={{{}}}", k.name(), show(x)));
        }));
        // compositions as users have them: sums and single fractions on ladders, negative fractions, traces
        let mut devs: Vec<f64> = lin(-0.015, 0.015, if q { 101 } else { 1001 });
        for e in 4..=34 {
            devs.extend([10f64.powf(-0.5 * e as f64), -10f64.powf(-0.5 * e as f64)]);
        }
        let mut bases: Vec<X> = named().into_iter().map(|g| g.1).collect();
        bases.extend((0..21).map(pure));
        bases.push(full());
        let fr: Vec<f64> = rungs(1e-19, 0.9, if q { 0.4 } else { 0.05 });
        let (nb, nd) = (bases.len(), devs.len());
        v.push(space(&format!("{} ladders of sums and fractions", k.name()), nb * (nd + 21), move |i, c| {
            let (x, j) = (&bases[i as usize % nb], i as usize / nb);
            let mut xs = vec![];
            if j < nd {
                xs.push(x.map(|f| f * (1.0 + devs[j])));
                // all of the deviation in one component
                let mut y = *x;
                y[j % 21] += devs[j];
                xs.push(y);
            } else {
                let j = j - nd;
                let big = (0..21).filter(|n| *n != j).max_by(|a, b| x[*a].total_cmp(&x[*b])).unwrap();
                for f in &fr {
                    for f in [*f, -*f] {
                        let mut y = *x;
                        y[big] += y[j] - f;
                        y[j] = f;
                        xs.push(y);
                    }
                }
            }
            for x in xs {
                for ops in [vec![Comp(x), T(290.7), D(4.3), Pres, Prop], vec![T(310.3), P(2000.7), Comp(x), Dens(0), Mm, Prop]] {
                    if !run_f01(k, &ops, j % 2 == 0, c) {
                        return;
                    }
                }
            }
            c.outcome("same natively and through C");
            c.sample(|| format!("{} ladder {j} of x={{{}}}", k.name(), show(x)));
        }));
        let step = if q { 0.01 } else { 0.001 };
        let ways = [rungs(10.0, 5000.0, step), rungs(1e-6, 1e7, step), rungs(1e-9, 100.0, step)];
        let ng = common().len();
        let most = ways.iter().map(|w| w.len()).max().unwrap();
        v.push(space(&format!("{} ladders of temperature, pressure, density", k.name()), ng * most, move |i, c| {
            let (x, j) = (common()[i as usize % ng], i as usize / ng);
            for (w, l) in ways.iter().enumerate() {
                let Some(&a) = l.get(j) else { continue };
                let st: Vec<(f64, f64, f64)> = match w {
                    0 => vec![(a, 4000.3, 6.1), (a, 60.7, -13.3)],
                    1 => vec![(300.15, a, 0.0), (180.35, a, -14.3)],
                    _ => vec![(300.15, 4000.3, a), (200.35, 1e4 / 7.0, -a)],
                };
                for (t, p, d) in st {
                    for o in [vec![Pres, Prop], vec![Dens(0), Prop]] {
                        let mut ops = vec![Comp(x), T(t), P(p), D(d)];
                        ops.extend(o);
                        if !run_f01(k, &ops, j % 2 == 0, c) {
                            return;
                        }
                    }
                }
            }
            c.outcome("same natively and through C");
            c.sample(|| format!("{} rung {j} of x={{{}}}", k.name(), show(&x)));
        }));
        // error codes over sums
        let sums: Vec<f64> = vec![0.0, 1e-12, 0.5, 0.98, 0.989, 0.991, 1.0, 1.009, 1.011, 1.02, 2.0, -1.0, f64::INFINITY, f64::NAN];
        v.push(space(&format!("{} error codes", k.name()), sums.len() * 22, move |i, c| {
            let s = sums[i as usize / 22];
            let mut x = [0.0; 21];
            match i as usize % 22 {
                21 => x = [s / 21.0; 21],
                j => x[j] = s,
            }
            for init in [false, true] {
                let mut h = CSide::new(k, init);
                let r = h.apply(&Comp(x));
                c.op(1);
                c.trace();
                h.free();
                if accepts(&x).is_some_and(|w| w as f64 != r) {
                    c.fail("code", format!("{}: error parameter {r} (initially {}) for a sum of {s:?}, expected {:?}", k.name(), if init { "set" } else { "Ok" }, accepts(&x)));
                }
            }
            c.outcome("code as specified");
            c.state(&[s, (i % 22) as f64, k as u32 as f64]);
        }));
        // what goes in comes out: every exponent, both signs, several mantissas; and what is calculated from it
        let mants: Vec<u64> = vec![0, 1, 1 << 51, (1 << 52) - 1, 0x5_5555_5555_5555, 0x8_0000_2000_0000, 0x0_0000_1fff_ffff];
        v.push(space(&format!("{} every exponent in every field", k.name()), 2048, move |e, c| {
            let mut h = CSide::new(k, e % 2 == 0);
            let mut m = k.make();
            for op in [Comp(cc), T(300.15), P(5000.3), D(6.1)] {
                h.apply(&op);
                native(&mut *m, &op);
            }
            for mant in &mants {
                for sign in [0u64, 1 << 63] {
                    let y = f64::from_bits(sign | e << 52 | mant);
                    for f in [T as fn(f64) -> Op, P, D] {
                        let back = see_native(&*m);
                        let mut ops = vec![f(y), Pres, Prop, Dens(0)];
                        // and back
                        ops.extend([T(back[0]), P(back[1]), D(back[2]), Prop]);
                        for (n, op) in ops.iter().enumerate() {
                            let (a, b) = (h.apply(op), native(&mut *m, op));
                            c.op(2);
                            let (x, y) = (h.see(), see_native(&*m));
                            if !same(a, b) || (0..18).any(|n| !same(x[n], y[n])) || (0..3).any(|i| x[i].to_bits() != y[i].to_bits() && !x[i].is_nan()) {
                                let d = (0..18).find(|n| !same(x[*n], y[*n])).unwrap_or(0);
                                c.fail("field", format!("{} {}: {} = {:?} through C, natively {:?} (result {a:?}, natively {b:?})", k.name(), show_ops(&ops[..=n]), SEE[d], x[d], y[d]));
                                h.free();
                                return;
                            }
                        }
                        c.trace();
                    }
                }
            }
            h.free();
            c.state_h(e | (k as u64) << 40 | 8 << 50);
            c.outcome("same natively and through C");
        }));
        // all combinations of special values
        let sp = super::density::specials();
        let ns = sp.len();
        v.push(space(&format!("{} all combinations of special values", k.name()), ns * ns, move |i, c| {
            let (t, p) = (sp[i as usize / ns], sp[i as usize % ns]);
            for &d in &sp {
                for o in [Dens(0), Prop, Pres] {
                    if !run_f01(k, &[Comp(a), T(t), P(p), D(d), o, Prop], i % 2 == 0, c) {
                        return;
                    }
                }
            }
            c.outcome("same natively and through C");
        }));
        // repetition
        let bl: Vec<Vec<Op>> = super::long::blocks(k).into_iter().filter(|b| !b.iter().any(|o| matches!(o, Wx(_)) || matches!(o, Dens(f) if *f != 0))).collect();
        let n = bl.len();
        let reps = tier.pick(270, 2000);
        v.push(space(&format!("{} all ordered pairs of {n} blocks, {reps} times alternating", k.name()), n * n, move |i, c| {
            let (p, r) = (&bl[i as usize / n], &bl[i as usize % n]);
            let mut s = CSide::new(k, false);
            let mut m = k.make();
            for rep in 0..reps {
                s.init = rep % 2 == 0;
                for op in p.iter().chain(r) {
                    let (a, b) = (s.apply(op), native(&mut *m, op));
                    c.op(2);
                    let (x, y) = (s.see(), see_native(&*m));
                    if !same(a, b) || (0..18).any(|n| !same(x[n], y[n])) {
                        let f = (0..18).find(|n| !same(x[*n], y[*n])).map_or("result", |n| SEE[n]);
                        c.fail("repetition", format!("{} repetition {rep} of [{}]; [{}]: {f} differs after {}", k.name(), show_ops(p), show_ops(r), op.show()));
                        s.free();
                        return;
                    }
                }
            }
            s.free();
            c.trace();
            c.state_h(i | (k as u64) << 40 | 7 << 50);
            c.outcome("same natively and through C");
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------ F02

/// enumerated operations on up to three handles
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mo {
    New(Kind),
    Free(usize),
    Use(usize),
    FreeNull(Kind),
}
fn mem_ops() -> Vec<Mo> {
    vec![Mo::New(Kind::Detail), Mo::New(Kind::Gerg), Mo::Free(0), Mo::Free(1), Mo::Free(2), Mo::Use(0), Mo::Use(1), Mo::Use(2), Mo::FreeNull(Kind::Detail), Mo::FreeNull(Kind::Gerg)]
}
fn use_handle(h: &mut CSide, slot: usize) -> Result<(), String> {
    // every slot has inputs of its own
    let xs = [mix(&[(0, 0.9), (2, 0.1)]), mix(&[(0, 0.8), (3, 0.2)]), mix(&[(1, 0.7), (14, 0.3)])];
    let ops = [Comp(xs[slot]), T(300.1 + 7.0 * slot as f64), P(3000.3 + slot as f64 * 500.0), D(0.0), Dens(0), Prop, Pres, Mm];
    let mut r = vec![];
    for o in &ops {
        r.push(h.apply(o));
    }
    let s = h.see();
    track::pause(|| {
        thread_local! { static EXP: std::cell::RefCell<std::collections::HashMap<(usize, usize), (Vec<f64>, [f64; 18])>> = Default::default(); }
        EXP.with(|e| {
            let mut e = e.borrow_mut();
            let w = e.entry((h.k as usize, slot)).or_insert_with(|| {
                let mut m = h.k.make();
                let r: Vec<f64> = ops.iter().map(|o| native(&mut *m, o)).collect();
                (r, see_native(&*m))
            });
            for (i, (a, b)) in r.iter().zip(&w.0).enumerate() {
                if !same(*a, *b) {
                    return Err(format!("{} gives {a:?} instead of {b:?}", ops[i].show()));
                }
            }
            match (0..18).find(|n| !same(s[*n], w.1[*n])) {
                Some(n) => Err(format!("{} = {:?} instead of {:?}", SEE[n], s[n], w.1[n])),
                None => Ok(()),
            }
        })
    })
}

fn warm_up() {
    // whatever is set up once per process or thread is no leak
    thread_local! { static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
    if DONE.with(|d| d.replace(true)) {
        return;
    }
    for k in KINDS {
        for slot in 0..3 {
            let mut h = CSide::new(k, false);
            let _ = use_handle(&mut h, slot);
            h.free();
        }
    }
}

fn run_mem(ops: &[Mo], c: &mut Ctx) -> bool {
    warm_up();
    let mut hs: [Option<CSide>; 3] = [None, None, None];
    let mut seen: [Option<[f64; 18]>; 3] = [None; 3];
    let mut problem: Option<(&str, String)> = None;
    track::begin();
    let mut nops = 0;
    for (i, o) in ops.iter().enumerate() {
        nops += 1;
        let before = track::live();
        match o {
            Mo::New(k) => {
                let h = CSide::new(*k, i % 2 == 0);
                if h.h.is_null() || hs.iter().flatten().any(|o| o.h == h.h) {
                    problem = Some(("handle", "a new handle is null or equals a live one".into()));
                }
                if let Some(s) = (0..3).find(|s| hs[*s].is_none()) {
                    hs[s] = Some(h);
                    seen[s] = None;
                }
            }
            Mo::Free(s) => {
                if let Some(mut h) = hs[*s].take() {
                    h.free();
                    if track::live() >= before && before > 0 {
                        problem = Some(("leak", "freeing a handle releases nothing".into()));
                    }
                }
            }
            Mo::Use(s) => {
                if let Some(h) = &mut hs[*s] {
                    if let Err(e) = use_handle(h, *s) {
                        problem = Some(("use", track::pause(|| format!("using handle {s}: {e}"))));
                    }
                    seen[*s] = Some(h.see());
                    if track::live() != before {
                        problem = Some(("leak", "using a handle leaves memory allocated".into()));
                    }
                }
            }
            Mo::FreeNull(k) => {
                let mut h = CSide { k: *k, h: std::ptr::null_mut(), init: false };
                h.free();
                if track::live() != before {
                    problem = Some(("null", "freeing a null handle changes the allocations".into()));
                }
            }
        }
        // the others are as they were
        for s in 0..3 {
            if let (Some(h), Some(w)) = (&hs[s], &seen[s]) {
                let x = h.see();
                if (0..18).any(|n| !ident(x[n], w[n])) {
                    problem = Some(("other", track::pause(|| format!("{o:?} changes handle {s}"))));
                }
            }
        }
        if problem.is_none() {
            if let Some(e) = track::verify() {
                problem = Some(("memory", e));
            }
        }
        if problem.is_some() {
            break;
        }
    }
    for h in hs.iter_mut() {
        if let Some(mut h) = h.take() {
            h.free();
        }
    }
    let (live, err) = track::end();
    c.op(nops);
    c.trace();
    if problem.is_none() && live > 0 {
        problem = Some(("leak", format!("{live} blocks are still allocated after all handles are freed")));
    }
    if problem.is_none() {
        if let Some(e) = err {
            problem = Some(("memory", e));
        }
    }
    if let Some((k, e)) = problem {
        c.fail(k, format!("{ops:?}: {e}"));
        return false;
    }
    true
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
const PAGE: usize = 4096;
/// one page between two inaccessible ones
struct Fenced(*mut u8);
impl Fenced {
    fn new() -> Fenced {
        unsafe {
            let p = mmap(std::ptr::null_mut(), 3 * PAGE, 0, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert!(mprotect(p.add(PAGE), PAGE, 3) == 0);
            std::ptr::write_bytes(p.add(PAGE), 0xC7, PAGE);
            Fenced(p)
        }
    }
    /// room for a T at the end (or start) of the page
    fn at<T>(&self, end: bool) -> *mut T {
        unsafe { self.0.add(if end { 2 * PAGE - std::mem::size_of::<T>() } else { PAGE }) as *mut T }
    }
    fn protect(&self, p: i32) {
        assert!(unsafe { mprotect(self.0.add(PAGE), PAGE, p) } == 0);
    }
    /// all bytes of the page outside the T are untouched
    fn clean<T>(&self, end: bool) -> bool {
        let lo = self.at::<T>(end) as usize - self.0 as usize - PAGE;
        (0..PAGE).all(|i| (i >= lo && i < lo + std::mem::size_of::<T>()) || unsafe { *self.0.add(PAGE + i) } == 0xC7)
    }
}
impl Drop for Fenced {
    fn drop(&mut self) {
        unsafe { munmap(self.0, 3 * PAGE) };
    }
}

pub const NULLS: [&str; 30] = [
    "aga8_set_composition", "aga8_set_pressure", "aga8_get_pressure", "aga8_set_temperature", "aga8_get_temperature", "aga8_set_density", "aga8_get_density", "aga8_get_properties",
    "aga8_calculate_pressure", "aga8_calculate_molar_mass", "aga8_calculate_density", "aga8_calculate_properties", "gerg_set_composition", "gerg_set_pressure", "gerg_get_pressure",
    "gerg_set_temperature", "gerg_get_temperature", "gerg_set_density", "gerg_get_density", "gerg_get_properties", "gerg_calculate_pressure", "gerg_calculate_molar_mass",
    "gerg_calculate_density", "gerg_calculate_properties", "aga8_set_composition invalid", "gerg_set_composition invalid", "aga8_free", "gerg_free", "aga8_free twice null", "gerg_free twice null",
];
/// child process: call one function with a null handle
pub fn call_null(name: &str) {
    let k = if name.starts_with("aga8") { Kind::Detail } else { Kind::Gerg };
    let mut s = CSide { k, h: std::ptr::null_mut(), init: false };
    match &name[5..] {
        "set_composition" => {
            s.apply(&Comp(full()));
        }
        "set_composition invalid" => {
            s.apply(&Comp([0.0; 21]));
        }
        "set_pressure" => {
            s.apply(&P(1.0));
        }
        "set_temperature" => {
            s.apply(&T(1.0));
        }
        "set_density" => {
            s.apply(&D(1.0));
        }
        "get_pressure" => {
            std::hint::black_box(both!(s, aga8_get_pressure, gerg_get_pressure));
        }
        "get_temperature" => {
            std::hint::black_box(both!(s, aga8_get_temperature, gerg_get_temperature));
        }
        "get_density" => {
            std::hint::black_box(both!(s, aga8_get_density, gerg_get_density));
        }
        "get_properties" => {
            std::hint::black_box(both!(s, aga8_get_properties, gerg_get_properties).d);
        }
        "calculate_pressure" => {
            s.apply(&Pres);
        }
        "calculate_molar_mass" => {
            s.apply(&Mm);
        }
        "calculate_density" => {
            s.apply(&Dens(0));
        }
        "calculate_properties" => {
            s.apply(&Prop);
        }
        "free" => s.free(),
        "free twice null" => {
            s.free();
            s.free();
        }
        _ => std::process::exit(99),
    }
}

fn f02(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let al = Arc::new(mem_ops());
    for len in 1..=if q { 5 } else { 7 } {
        let al = al.clone();
        v.push(space(&format!("all sequences of {len} creations, uses and releases of up to three handles"), al.len().pow(len as u32), move |i, c| {
            let mut ops = vec![];
            let mut j = i as usize;
            for _ in 0..len {
                ops.push(al[j % al.len()]);
                j /= al.len();
            }
            // only possible sequences
            let mut used = [false; 3];
            for o in &ops {
                let ok = match o {
                    Mo::New(_) => match (0..3).find(|s| !used[*s]) {
                        Some(s) => {
                            used[s] = true;
                            true
                        }
                        None => false,
                    },
                    Mo::Free(s) => std::mem::replace(&mut used[*s], false),
                    Mo::Use(s) => used[*s],
                    Mo::FreeNull(_) => true,
                };
                if !ok {
                    c.outcome("impossible sequence, skipped");
                    return;
                }
            }
            c.state_h(i ^ (len as u64) << 50);
            if run_mem(&ops, c) {
                c.outcome("memory in order");
            }
            c.sample(|| format!("{ops:?}"));
        }));
    }
    // arguments between inaccessible pages
    let mut xs: Vec<X> = (0..21).map(pure).collect();
    xs.extend([full(), [0.0; 21], [1.0; 21], [f64::NAN; 21]]);
    let nx = xs.len();
    v.push(space("arguments next to inaccessible memory", nx * 2 * 4, move |i, c| {
        let i = i as usize;
        let x = xs[i / 8];
        let k = KINDS[i / 4 % 2];
        let (ce, ee) = (i & 1 == 1, i & 2 == 2);
        let (fc, fe, fd) = (Fenced::new(), Fenced::new(), Fenced::new());
        let cp = fc.at::<Composition>(ce);
        let ep = fe.at::<CompositionError>(ee);
        let dp = fd.at::<DensityError>(ee);
        warm_up();
        track::begin();
        let mut h = CSide::new(k, false);
        let code;
        let dcode;
        unsafe {
            std::ptr::write(cp, comp(&x));
            std::ptr::write(ep, CompositionError::Ok);
            std::ptr::write(dp, DensityError::Ok);
            // the composition may only be read
            fc.protect(1);
            both!(h, aga8_set_composition, gerg_set_composition, &*cp, &mut *ep);
            code = cerr(&*ep);
            fc.protect(0);
            fe.protect(1);
            // nothing refers to the arguments any more
            both!(h, aga8_set_temperature, gerg_set_temperature, 300.0);
            both!(h, aga8_set_pressure, gerg_set_pressure, 4000.0);
            both!(h, aga8_calculate_density, gerg_calculate_density, &mut *dp);
            dcode = derr(&*dp);
            fd.protect(1);
            both!(h, aga8_calculate_pressure, gerg_calculate_pressure);
            both!(h, aga8_calculate_properties, gerg_calculate_properties);
            both!(h, aga8_calculate_molar_mass, gerg_calculate_molar_mass);
        }
        let s = h.see();
        h.free();
        let (live, err) = track::end();
        c.op(8);
        c.trace();
        fc.protect(3);
        fe.protect(3);
        fd.protect(3);
        let mut m = k.make();
        let want = m.set(&comp(&x));
        m.set_t(300.0);
        m.set_p(4000.0);
        let dwant = m.density(0);
        m.pressure();
        m.properties();
        let w = see_native(&*m);
        c.state(&[i as f64, s[2], s[5]]);
        let y = uncomp(unsafe { &*cp });
        let what = format!("{} x={{{}}}", k.name(), show(&x));
        if let Some(e) = err {
            c.fail("memory", format!("{what}: {e}"));
        } else if live > 0 {
            c.fail("leak", format!("{what}: {live} blocks left"));
        } else if !fc.clean::<Composition>(ce) || !fe.clean::<CompositionError>(ee) || !fd.clean::<DensityError>(ee) {
            c.fail("memory", format!("{what}: memory next to an argument was written"));
        } else if (0..21).any(|n| !ident(x[n], y[n])) {
            c.fail("memory", format!("{what}: the caller's composition was changed"));
        } else if code != want || dcode != dwant {
            c.fail("code", format!("{what}: codes {code}, {dcode}; natively {want}, {dwant}"));
        } else if (0..18).any(|n| !same(s[n], w[n])) {
            c.fail("result", format!("{what}: results differ from the native ones"));
        } else {
            c.outcome("arguments only used during the call");
        }
    }));
    crowds(tier, &mut v);
    v.push(super::miri::space_of("mem", "all sequences of creations, uses and releases of two handles", if q { 16 } else { 64 }, if q { 3 } else { 5 }));
    // null handles, each in a process of its own
    v.push(space("null handles", NULLS.len(), move |i, c| {
        use std::os::unix::process::ExitStatusExt;
        let name = NULLS[i as usize];
        let exe = std::env::current_exe().unwrap();
        let st = std::process::Command::new(exe).args(["aux", "null", name]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().expect("child");
        c.op(1);
        c.trace();
        c.state_h(i | 1 << 60);
        if st.code() == Some(99) {
            panic!("harness: unknown function {name}");
        }
        if name.contains("_free") {
            if st.code() != Some(0) {
                c.fail("null", format!("{name}(NULL) does not return ({st})"));
            }
            c.outcome("free(NULL) returns");
        } else {
            match (st.code(), st.signal()) {
                (Some(0), _) => c.fail("null", format!("{name} with a null handle returns")),
                (_, Some(s @ (11 | 7 | 4 | 5))) => c.fail("null", format!("{name} with a null handle dies with signal {s}: the handle was dereferenced")),
                _ => c.outcome("stopped before the handle is used"),
            }
        }
        c.sample(|| format!("{name}: {st}"));
    }));
    v
}

/// Many handles alive at once, handles made and released over and over, handles passed between threads.
fn crowds(tier: Tier, v: &mut Vec<Space>) {
    let sizes: Vec<usize> = if tier == Tier::Quick { super::long::CROWDS.to_vec() } else { (2..=400).chain([511, 512, 513, 1023, 1024, 1025, 2049, 4095, 4096, 4097]).collect() };
    let top = *sizes.last().unwrap();
    v.push(space(&format!("2 to {top} handles alive at once, released in several orders"), sizes.len() * 12, move |i, c| {
        let (n, what) = (sizes[i as usize / 12], i as usize % 12);
        let (order, kinds) = (what / 3, what % 3);
        let kind = |j: usize| match kinds {
            0 => Kind::Detail,
            1 => Kind::Gerg,
            _ => KINDS[j % 2],
        };
        warm_up();
        let mut problem: Option<(&str, String)> = None;
        let mut slots: Vec<usize> = (0..n).collect();
        match order {
            0 => {}
            1 => slots.reverse(),
            // from the middle, and every second one first
            2 => slots.rotate_left(n / 2),
            _ => slots = (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        }
        track::begin();
        let mut hs: Vec<Option<CSide>> = track::pause(|| Vec::with_capacity(n));
        for j in 0..n {
            let h = CSide::new(kind(j), j % 2 == 0);
            if h.h.is_null() || hs.iter().flatten().any(|o| o.h == h.h) {
                problem = Some(("handle", track::pause(|| format!("handle {j} is null or equals a live one"))));
            }
            // distinct inputs, to be found again at the end
            let x = (300.0 + j as f64, 1000.0 + 3.0 * j as f64, 0.5 + 0.01 * j as f64);
            both!(h, aga8_set_temperature, gerg_set_temperature, x.0);
            both!(h, aga8_set_pressure, gerg_set_pressure, x.1);
            both!(h, aga8_set_density, gerg_set_density, x.2);
            hs.push(Some(h));
        }
        for (no, j) in slots.iter().enumerate() {
            let mut h = hs[*j].take().unwrap();
            let s = h.see();
            if s[0] != 300.0 + *j as f64 || s[1] != 1000.0 + 3.0 * *j as f64 || s[2] != 0.5 + 0.01 * *j as f64 {
                problem = Some(("other", track::pause(|| format!("handle {j} of {n} has lost its values: {:?}", &s[..3]))));
            }
            if let Err(e) = use_handle(&mut h, no % 3) {
                problem = Some(("use", track::pause(|| format!("using handle {j} of {n}: {e}"))));
            }
            let before = track::live();
            h.free();
            if track::live() >= before && !track::full() {
                problem = Some(("leak", track::pause(|| format!("freeing handle {j} of {n} releases nothing"))));
            }
            if problem.is_some() {
                break;
            }
        }
        for h in hs.iter_mut() {
            if let Some(mut h) = h.take() {
                h.free();
            }
        }
        track::pause(|| drop(hs));
        let (live, err) = track::end();
        c.op(n as u64 * 14);
        c.trace();
        c.state_h(i | 5 << 52);
        if problem.is_none() && live > 0 {
            problem = Some(("leak", format!("{live} blocks are still allocated after {n} handles are freed")));
        }
        if problem.is_none() {
            if let Some(e) = err {
                problem = Some(("memory", e));
            }
        }
        match problem {
            Some((k, e)) => c.fail(k, format!("{n} handles, release order {order}, kinds {kinds}: {e}")),
            None => c.outcome("memory in order"),
        }
    }));
    // handles at recycled addresses: whatever the first one did, the second one is new
    let bl: Vec<Vec<Vec<Op>>> = KINDS.iter().map(|k| super::long::blocks(*k).into_iter().filter(|b| !b.iter().any(|o| matches!(o, Wx(_)) || matches!(o, Dens(f) if *f != 0))).collect()).collect();
    let n = bl[0].len();
    v.push(space("a handle after another one at the same place", n * n * 2, move |i, c| {
        let k = KINDS[i as usize % 2];
        let bl = &bl[k as usize];
        let (p, s) = (&bl[i as usize / 2 / n], &bl[i as usize / 2 % n]);
        let mut same_place = 0;
        for with_new_composition in [false, true] {
            let mut h = CSide::new(k, false);
            for o in p {
                h.apply(o);
            }
            let at = h.h;
            h.free();
            let mut h = CSide::new(k, false);
            same_place += (h.h == at) as u64;
            let mut m = k.make();
            let mut ops = s.clone();
            if with_new_composition {
                ops.insert(0, Comp(mix(&[(0, 0.7), (4, 0.3)])));
            }
            let zero = h.see();
            let fresh = see_native(&*m);
            if let Some(f) = (0..18).find(|f| !same(zero[*f], fresh[*f])) {
                c.fail("recycled", format!("{}: [{}] on a handle, freed; a new handle starts with {} = {:?} instead of {:?}", k.name(), show_ops(p), SEE[f], zero[f], fresh[f]));
                return;
            }
            for o in &ops {
                let (a, b) = (h.apply(o), native(&mut *m, o));
                let (x, y) = (h.see(), see_native(&*m));
                c.op(2);
                if !same(a, b) || (0..18).any(|f| !same(x[f], y[f])) {
                    c.fail("recycled", format!("{}: [{}] on a handle, freed; then [{}] on a new one: results differ from those of a new instance", k.name(), show_ops(p), show_ops(&ops)));
                    return;
                }
            }
            h.free();
        }
        c.trace();
        c.state_h(i | 6 << 52);
        c.outcome(if same_place > 0 { "new, at the same address" } else { "new, elsewhere" });
    }));
    // made and released over and over, with others alive
    let many: u64 = tier.pick(70_000, 300_000);
    v.push(space(&format!("{many} handles one after the other"), 8, move |i, c| {
            let k = KINDS[i as usize & 1];
            let (using, other) = (i & 2 != 0, i & 4 != 0);
            warm_up();
            let mut keep = [CSide::new(KINDS[0], false), CSide::new(KINDS[1], false)];
            let _ = use_handle(&mut keep[0], 0);
            let _ = use_handle(&mut keep[1], 1);
            let rounds = if using { many / 10 } else { many };
            let before = track::balance();
            for r in 0..rounds {
                let mut h = CSide::new(k, false);
                if using {
                    if let Err(e) = use_handle(&mut h, (r % 3) as usize) {
                        c.fail("use", format!("{} handle number {r}: {e}", k.name()));
                        break;
                    }
                }
                let o = other.then(|| CSide::new(KINDS[(i as usize + 1) & 1], false));
                h.free();
                if let Some(mut o) = o {
                    o.free();
                }
            }
            let left = track::balance() - before;
            for (j, h) in keep.iter_mut().enumerate() {
                if let Err(e) = use_handle(h, j) {
                    c.fail("other", format!("a handle kept alive meanwhile: {e}"));
                }
                h.free();
            }
            c.op(rounds * 3);
            c.trace();
            c.state_h(i | 7 << 52);
            // something set up once is no leak
            if left > 1000 {
                c.fail("leak", format!("{left} blocks are left after {rounds} {} handles were made and freed", k.name()));
            }
            c.outcome("nothing accumulates");
    }));
    // passed between threads: the life of a handle, every step on either of two threads
    type Job = Box<dyn FnOnce() + Send>;
    struct H(CSide);
    unsafe impl Send for H {}
    const STEPS: usize = 5;
    v.push(Space {
        name: "the life of a handle, every step on either of two threads, 300 times".into(),
        n: 2 << STEPS,
        cores: 64,
        patient: false,
        f: Box::new(move |i, c| {
            let k = KINDS[i as usize & 1];
            let place = i >> 1;
            let mut tx = vec![];
            let mut th = vec![];
            for _ in 0..2 {
                let (t, r) = std::sync::mpsc::channel::<Job>();
                tx.push(t);
                th.push(std::thread::spawn(move || {
                    while let Ok(j) = r.recv() {
                        j();
                    }
                }));
            }
            let mut m = k.make();
            let xs = [Comp(mix(&[(0, 0.8), (3, 0.2)])), T(305.0), P(4000.0)];
            for o in &xs {
                native(&mut *m, o);
            }
            let want = [native(&mut *m, &Dens(0)), native(&mut *m, &Pres)];
            native(&mut *m, &Prop);
            let ws = see_native(&*m);
            let mut left = 0;
            let mut bad = None;
            for round in 0..2 {
                // the first round sets up what is set up once per thread
                track::OUTSTANDING.store(0, std::sync::atomic::Ordering::Relaxed);
                track::COUNTING.store(true, std::sync::atomic::Ordering::Relaxed);
                for _ in 0..if round == 0 { 3 } else { 300 } {
                    let mut h: Option<H> = None;
                    for s in 0..STEPS {
                        let (rt, rr) = std::sync::mpsc::channel();
                        let hh = h.take();
                        let xs = xs;
                        let job: Job = Box::new(move || {
                            let mut r = [0.0; 2];
                            let mut see = None;
                            let mut out = None;
                            match s {
                                0 => out = Some(H(CSide::new(k, false))),
                                1 => {
                                    let mut h = hh.unwrap();
                                    xs.iter().for_each(|o| {
                                        h.0.apply(o);
                                    });
                                    out = Some(h);
                                }
                                2 => {
                                    let mut h = hh.unwrap();
                                    r = [h.0.apply(&Dens(0)), h.0.apply(&Pres)];
                                    out = Some(h);
                                }
                                3 => {
                                    let mut h = hh.unwrap();
                                    h.0.apply(&Prop);
                                    see = Some(h.0.see());
                                    out = Some(h);
                                }
                                _ => hh.unwrap().0.free(),
                            }
                            let _ = rt.send((out, r, see));
                        });
                        tx[(place >> s & 1) as usize].send(job).unwrap();
                        let (o, r, see) = rr.recv().unwrap_or_else(|_| panic!("harness: a thread ended"));
                        h = o;
                        c.op(1);
                        if s == 2 && !(same(r[0], want[0]) && same(r[1], want[1])) {
                            bad = Some(format!("density code and pressure {r:?} instead of {want:?}"));
                        }
                        if let Some(see) = see {
                            if let Some(f) = (0..18).find(|f| !same(see[*f], ws[*f])) {
                                bad = Some(format!("{} = {:?} instead of {:?}", SEE[f], see[f], ws[f]));
                            }
                        }
                    }
                }
                track::COUNTING.store(false, std::sync::atomic::Ordering::Relaxed);
                left = track::OUTSTANDING.load(std::sync::atomic::Ordering::Relaxed);
            }
            drop(tx);
            th.into_iter().for_each(|t| {
                let _ = t.join();
            });
            c.trace();
            c.state_h(i | 8 << 52);
            let what = format!("{}: steps new, set, solve, properties, free on threads (bits) {place:#07b}", k.name());
            if let Some(b) = bad {
                c.fail("thread", format!("{what}: {b}"));
            } else if left > 200 {
                c.fail("leak", format!("{what}: {left} blocks are left after 300 handles were freed"));
            }
            c.outcome("as on one thread");
        }),
    });
}
