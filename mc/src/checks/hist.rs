//! Histories: every sequence of operations on one instance against new instances (H01), frame
//! conditions and repeatability (H02), recovery from bad inputs (H04), totality (T01).
//!
//! The specification of an instance is the abstract state (composition, T, P, D, outputs); the result
//! of a calculation in a state is *defined* by a new instance put into this state.  Histories are
//! replayed from `new()`; hidden state (caches) is thereby explored together with the visible one.
use crate::api::*;
use crate::engine::*;
use crate::gas::*;
use crate::checks::values::rungs;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "H01", spaces: h01, assumptions: &["results are compared at 1e-12 of their magnitude: a stale term whose effect is smaller is not seen", "the expected result of a calculation is that of a new instance of the same build"] },
        Check { id: "H02", spaces: h02, assumptions: &[] },
        Check { id: "H04", spaces: h04, assumptions: &["results are compared at 1e-12 of their magnitude", "a negative leftover density is an estimate by documentation, so the recovered instance is compared with a new one given the same density field"] },
        Check { id: "T01", spaces: t01, assumptions: &["built with optimisation and with all run-time checks of the compiler (overflow, bounds, debug assertions)", "a case running for more than 100 s counts as not returning"] },
    ]
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Op {
    /// set_composition
    Comp(X),
    /// write the fraction array directly
    Wx(X),
    T(f64),
    P(f64),
    D(f64),
    Dens(i32),
    Pres,
    Prop,
    Mm,
}
use Op::*;
impl Op {
    pub fn is_calc(&self) -> bool {
        matches!(self, Dens(_) | Pres | Prop | Mm)
    }
    fn class(&self) -> u32 {
        match self {
            Comp(_) | Wx(_) => 0,
            T(_) => 1,
            P(_) => 2,
            D(_) => 3,
            Dens(_) => 4,
            Pres => 5,
            Prop => 6,
            Mm => 7,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Comp(x) => format!("set_composition({})", show(x)),
            Wx(x) => format!("x <- ({})", show(x)),
            T(v) => format!("t <- {v:?}"),
            P(v) => format!("p <- {v:?}"),
            D(v) => format!("d <- {v:?}"),
            Dens(f) => format!("density({f})"),
            Pres => "pressure()".into(),
            Prop => "properties()".into(),
            Mm => "molar_mass()".into(),
        }
    }
}
pub fn show_ops(o: &[Op]) -> String {
    o.iter().map(|o| o.show()).collect::<Vec<_>>().join("; ")
}

pub fn apply(m: &mut dyn Eos, op: &Op) -> f64 {
    match op {
        Comp(x) => m.set(&comp(x)) as f64,
        Wx(x) => {
            m.set_x(x);
            0.0
        }
        T(v) => {
            m.set_t(*v);
            0.0
        }
        P(v) => {
            m.set_p(*v);
            0.0
        }
        D(v) => {
            m.set_d(*v);
            0.0
        }
        Dens(f) => m.density(*f) as f64,
        Pres => m.pressure(),
        Prop => m.properties(),
        Mm => m.molar_mass(),
    }
}

/// everything that can be observed of an instance
#[derive(Clone, Copy)]
pub struct Obs {
    pub t: f64,
    pub p: f64,
    pub d: f64,
    pub out: Out,
    pub x: X,
}
pub fn obs(m: &dyn Eos) -> Obs {
    Obs { t: m.t(), p: m.p(), d: m.d(), out: m.out(), x: m.x() }
}
/// sum rule of compositions; None within rounding of a threshold
pub fn accepts(x: &X) -> Option<i32> {
    let s: f64 = x.iter().sum();
    if s.is_nan() {
        return Some(2);
    }
    for th in [0.99, 1.01, 1e-10, -1e-10] {
        if (s - th).abs() < 1e-14 {
            return None;
        }
    }
    Some(if s.abs() < 1e-10 {
        1
    } else if (s - 1.0).abs() > 0.01 {
        2
    } else {
        0
    })
}

/// identical numbers (any not-a-number equals any other; zeros of both signs are equal)
pub fn ident(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn near(a: f64, b: f64, floor: f64, rel: f64) -> bool {
    if ident(a, b) {
        return true;
    }
    (a - b).abs() <= rel * a.abs().max(b.abs()).max(floor)
}
/// a natural magnitude of each output, for cancelling sums
pub fn floors(k: Kind, t: f64) -> Out {
    let r = k.r();
    let rt = r * t.abs();
    let rt = if rt.is_finite() { rt } else { 0.0 };
    let mut f = [0.0; 15];
    f[DPDD] = rt;
    f[D2PDD2] = rt * 0.1;
    f[D2PDTD] = r;
    f[U] = rt;
    f[H] = rt;
    f[G] = rt;
    f[S] = r;
    f[JT] = 1e-4;
    f
}

#[derive(Clone, Copy)]
pub struct Exp {
    pub ret: f64,
    pub o: Obs,
}
thread_local! { static FRESH: RefCell<HashMap<(u64, u64), Exp>> = RefCell::new(HashMap::new()); }

/// What a new instance calculates in this state.
pub fn fresh(k: Kind, x: &X, t: f64, p: f64, d: f64, op: &Op, c: &mut Ctx) -> Exp {
    let opc = match op {
        Dens(f) => 1000 + *f as i64,
        o => o.class() as i64,
    };
    let mut h1 = mix64(opc as u64 ^ (k as u64) << 40 ^ 0x1234_5678_9abc);
    let mut h2 = mix64(opc as u64 ^ (k as u64) << 50 ^ 0xfeed_beef_0123);
    for v in x.iter().chain([t, p, d].iter()) {
        h1 = mix64(h1 ^ v.to_bits());
        h2 = mix64(h2.rotate_left(7) ^ v.to_bits().wrapping_mul(0x9E37_79B9_7F4A_7C15));
    }
    if let Some(e) = FRESH.with(|f| f.borrow().get(&(h1, h2)).copied()) {
        return e;
    }
    let mut m = k.make();
    if m.set(&comp(x)) != 0 {
        m.set_x(x);
    }
    m.set_t(t);
    m.set_p(p);
    m.set_d(d);
    let ret = apply(&mut *m, op);
    c.op(1);
    let e = Exp { ret, o: obs(&*m) };
    FRESH.with(|f| {
        let mut f = f.borrow_mut();
        if f.len() > 400_000 {
            f.clear();
        }
        f.insert((h1, h2), e);
    });
    e
}

/// Results of a calculation against those of a new instance.
pub fn results(k: Kind, op: &Op, before: &Obs, ret: f64, after: &Obs, e: &Exp, ffi: bool, rel: f64) -> Option<String> {
    let fl = floors(k, before.t);
    let outs: Vec<usize> = match op {
        Prop => (0..15).collect(),
        Pres => vec![Z],
        Mm => vec![MM],
        Dens(_) if ret != 0.0 => vec![],
        Dens(f) if *f > 0 && k == Kind::Gerg => (0..15).collect(),
        Dens(_) => vec![Z],
        _ => return None,
    };
    let pf = 0.0;
    if !near(ret, e.ret, pf, rel) {
        return Some(format!("{} gives {ret:?}, a new instance {:?}", op.show(), e.ret));
    }
    for (n, a, b) in [("d", after.d, e.o.d), ("p", after.p, e.o.p), ("t", after.t, e.o.t)] {
        if !near(a, b, 0.0, rel) {
            return Some(format!("{n} = {a:?} after {}, with a new instance {b:?}", op.show()));
        }
    }
    for n in outs {
        if ffi && n == D2PDTD {
            continue;
        }
        if !near(after.out[n], e.o.out[n], fl[n], rel) {
            return Some(format!("{} = {:?} after {}, with a new instance {:?}", ON[n], after.out[n], op.show(), e.o.out[n]));
        }
    }
    None
}

/// What an operation must leave alone.
pub fn frame(k: Kind, op: &Op, b: &Obs, ret: f64, a: &Obs, ffi: bool) -> Option<String> {
    let mut may = [false; 15];
    let (mut t, mut p, mut d, mut x) = (false, false, false, false);
    match op {
        Comp(_) | Wx(_) => x = true,
        T(_) => t = true,
        P(_) => p = true,
        D(_) => d = true,
        Pres => may[Z] = true,
        Mm => may[MM] = true,
        Prop => {
            may = [true; 15];
            p = true;
        }
        Dens(f) => {
            d = true;
            may[Z] = true;
            if *f > 0 && k == Kind::Gerg {
                may = [true; 15];
            }
        }
    }
    if !t && !ident(a.t, b.t) {
        return Some(format!("{} changes t from {:?} to {:?}", op.show(), b.t, a.t));
    }
    if !p && !ident(a.p, b.p) {
        return Some(format!("{} changes p from {:?} to {:?}", op.show(), b.p, a.p));
    }
    if !d && !ident(a.d, b.d) {
        return Some(format!("{} changes d from {:?} to {:?}", op.show(), b.d, a.d));
    }
    if !ffi {
        let want = match op {
            Comp(v) if ret == 0.0 => v,
            Wx(v) => v,
            _ => &b.x,
        };
        let _ = x;
        for i in 0..21 {
            if !ident(a.x[i], want[i]) {
                return Some(format!("after {} the fraction of {} is {:?}, expected {:?}", op.show(), NAMES[i], a.x[i], want[i]));
            }
        }
    }
    match op {
        T(v) if !ident(a.t, *v) => return Some(format!("{} leaves t = {:?}", op.show(), a.t)),
        P(v) if !ident(a.p, *v) => return Some(format!("{} leaves p = {:?}", op.show(), a.p)),
        D(v) if !ident(a.d, *v) => return Some(format!("{} leaves d = {:?}", op.show(), a.d)),
        Comp(v) => {
            if let Some(w) = accepts(v) {
                if w as f64 != ret {
                    return Some(format!("{} returns code {ret}, expected {w}", op.show()));
                }
            }
        }
        _ => {}
    }
    for n in 0..15 {
        if !may[n] && !ident(a.out[n], b.out[n]) {
            return Some(format!("{} changes {} from {:?} to {:?}", op.show(), ON[n], b.out[n], a.out[n]));
        }
    }
    None
}

fn digits(mut i: u64, n: usize, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for k in (0..len).rev() {
        v[k] = (i % n as u64) as usize;
        i /= n as u64;
    }
    v
}

/// sequences whose last operation is a calculation and that contain no operation without effect
/// (a value written twice in a row to the same field)
fn canonical(ops: &[Op], set: bool) -> bool {
    if !set && !ops.last().unwrap().is_calc() {
        return false;
    }
    ops.windows(2).all(|w| w[0].is_calc() || w[0].class() != w[1].class())
}

/// x the instance holds, as specified
pub fn spec_x(x: &X, op: &Op, ret: f64) -> X {
    match op {
        Comp(v) if ret == 0.0 => *v,
        Wx(v) => *v,
        _ => *x,
    }
}

/// Runs prefix and ops; every step of ops[from..] is compared with a new instance.
pub fn run_h01(k: Kind, ops: &[Op], from: usize, c: &mut Ctx) -> bool {
    let mut m = k.make();
    let mut x = [0.0; 21];
    for (i, op) in ops.iter().enumerate() {
        let b = obs(&*m);
        let ret = apply(&mut *m, op);
        c.op(1);
        let nx = spec_x(&x, op, ret);
        if i >= from && op.is_calc() {
            let a = obs(&*m);
            let e = fresh(k, &x, b.t, b.p, b.d, op, c);
            c.trace();
            if let Some(e) = results(k, op, &b, ret, &a, &e, false, 1e-12) {
                c.fail("history", format!("{} {}: {e}", k.name(), show_ops(&ops[..=i])));
                return false;
            }
        }
        x = nx;
    }
    let a = obs(&*m);
    c.state(&[a.t, a.p, a.d, a.out[Z], a.out[MM], a.out[S], a.x[0], a.x[1], a.x[2], k as u32 as f64]);
    true
}

/// Three natural gases: all 21 components; the same fractions on other components; a rearrangement
/// of a few components that keeps the sum, the number of components and the molar mass nearly equal.
fn abc() -> (X, X, X, X) {
    let a = full();
    let mut b = a;
    b[..14].rotate_left(3);
    b[14..].rotate_left(2);
    let cc = mix(&[(0, 0.9), (2, 0.06), (3, 0.04)]);
    let dd = mix(&[(0, 0.9), (2, 0.04), (4, 0.06)]);
    (a, b, cc, dd)
}

/// The quantities a composition may be summed up in: two compositions that agree in one of them are
/// different compositions all the same.
fn sums(k: Kind) -> Vec<Box<dyn Fn(&X) -> f64 + Send + Sync>> {
    fn dot(w: Vec<f64>) -> Box<dyn Fn(&X) -> f64 + Send + Sync> {
        Box::new(move |x| (0..21).map(|i| x[i] * w[i]).sum())
    }
    let mut v = vec![dot(k.mm_table().to_vec()), dot((1..=21).map(|i| i as f64).collect())];
    match k {
        Kind::Gerg => {
            v.push(Box::new(|x| refmodel::gerg_reducing(x).1));
            v.push(Box::new(|x| refmodel::gerg_reducing(x).0));
            v.push(dot(refmodel::tab_gerg::TC.to_vec()));
            v.push(dot(refmodel::tab_gerg::DC.iter().map(|d| 1.0 / d).collect()));
        }
        Kind::Detail => {
            v.push(dot(refmodel::tab_detail::KI.iter().map(|k| k.powf(2.5)).collect()));
            v.push(dot(refmodel::tab_detail::EI.iter().map(|e| e.powf(2.5)).collect()));
            v.push(dot(refmodel::tab_detail::GI.to_vec()));
            v.push(dot(refmodel::tab_detail::KI.to_vec()));
        }
    }
    v.push(Box::new(|x| x.iter().map(|v| v * v).sum()));
    v
}

/// A gas, then every binary mixture that agrees with it in a sum, to the last bits.
fn aggregates(k: Kind, q: bool) -> Space {
    let sums = Arc::new(sums(k));
    let (a, _, cc, _) = abc();
    let bases = [a, cc, mix(&[(0, 0.5), (9, 0.5)]), mix(&[(2, 0.7), (14, 0.3)])];
    let nb = if q { 3 } else { 4 };
    let offs: Vec<i64> = if q { (-6..=6).chain((-15..=15).map(|i| i * 4)).collect() } else { (-64..=64).collect() };
    let ns = sums.len();
    space(&format!("{} compositions that agree in a sum", k.name()), ns * nb * 210, move |i, c| {
        let (s, base, pr) = (&sums[i as usize % ns], bases[i as usize / ns % nb], i as usize / ns / nb);
        let (ci, cj) = (0..21).flat_map(|i| (i + 1..21).map(move |j| (i, j))).nth(pr).unwrap();
        let want = s(&base);
        let f = |g: f64| s(&mix(&[(ci, g), (cj, 1.0 - g)])) - want;
        let (mut lo, mut hi) = (0.0, 1.0);
        if !(f(lo) * f(hi) < 0.0) {
            c.outcome("sum not reached by this pair");
            return;
        }
        let up = f(hi) > 0.0;
        for _ in 0..60 {
            let g = 0.5 * (lo + hi);
            if (f(g) > 0.0) == up {
                hi = g;
            } else {
                lo = g;
            }
        }
        for o in &offs {
            let g = f64::from_bits((hi.to_bits() as i64 + o) as u64);
            if !(g > 0.0 && g < 1.0) {
                continue;
            }
            let other = mix(&[(ci, g), (cj, 1.0 - g)]);
            let calc = [Pres, Prop, Mm, Pres][(*o + i as i64).rem_euclid(4) as usize];
            let (first, second) = if o % 2 == 0 { (base, other) } else { (other, base) };
            if !run_h01(k, &[Comp(first), T(260.0), D(7.0), calc, Comp(second), calc, if calc == Pres { Prop } else { Pres }], 4, c) {
                return;
            }
        }
        c.outcome("compared");
    })
}

/// Two states that agree in a combination of temperature and density (product, sum, quotient, difference, exchange).
fn combined(k: Kind) -> Space {
    let mut pts: Vec<(f64, f64)> = vec![];
    for (t, d) in [(256.0, 8.0), (320.0, 2.0), (96.0, 12.0)] {
        pts.push((t, d));
        for f in [2.0, 0.5, 4.0] {
            pts.extend([(t * f, d / f), (t * f, d * f)]);
        }
        for s in [1.0, -1.0, 0.5] {
            pts.extend([(t + s, d - s), (t + s, d + s)]);
        }
        pts.push((d, t));
        pts.push((t, -d));
    }
    let n = pts.len();
    space(&format!("{} temperatures and densities that agree in a combination", k.name()), n * n, move |i, c| {
        let (p, r) = (pts[i as usize / n], pts[i as usize % n]);
        let (a, _, cc, _) = abc();
        for (x, y) in [(a, a), (a, cc)] {
            for (o1, o2) in [(Pres, Pres), (Prop, Prop), (Pres, Prop), (Prop, Pres)] {
                if !run_h01(k, &[Comp(x), T(p.0), D(p.1), o1, Comp(y), T(r.0), D(r.1), o2, D(p.1), o2, T(p.0), o1], 4, c) {
                    return;
                }
            }
        }
        c.outcome("compared");
    })
}

fn seqs(name: &str, k: Kind, prefix: Vec<Op>, alpha: Vec<Op>, max: usize, run: fn(Kind, &[Op], usize, &mut Ctx) -> bool, set_last: bool) -> Vec<Space> {
    let mut v = vec![];
    let alpha = Arc::new(alpha);
    let prefix = Arc::new(prefix);
    for len in 1..=max {
        let (al, pre) = (alpha.clone(), prefix.clone());
        v.push(space(&format!("{} {name}: all sequences of {len} of {} operations", k.name(), al.len()), al.len().pow(len as u32), move |i, c| {
            let ops: Vec<Op> = digits(i, al.len(), len).into_iter().map(|j| al[j]).collect();
            if !canonical(&ops, set_last) {
                c.outcome("sequence equivalent to a shorter one, skipped");
                return;
            }
            let all: Vec<Op> = pre.iter().chain(ops.iter()).copied().collect();
            if run(k, &all, all.len() - 1, c) {
                c.outcome("history agrees");
            }
            c.sample(|| format!("{}: {}", k.name(), show_ops(&ops)));
        }));
    }
    v
}

fn h01(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let (a, b, cc, dd) = abc();
    for k in KINDS {
        let start = vec![Comp(a), T(300.0), P(5000.0), D(4.0)];
        v.push(aggregates(k, q));
        v.push(combined(k));
        // composition caches; a one-digit change of two fractions that keeps the sum
        let mut drift = a;
        drift[0] += 1e-9;
        drift[1] -= 1e-9;
        v.extend(seqs("compositions", k, start.clone(), vec![Comp(a), Comp(b), Comp(cc), Wx(dd), Wx(drift), Prop, Pres, Mm], if q { 5 } else { 7 }, run_h01, false));
        // temperature caches
        let tt = vec![T(300.0), T(250.0), T(300.0 * (1.0 + 1e-9)), T(300.004), D(-12.0), D(8.0), D(0.0), Prop, Pres, Dens(0)];
        v.extend(seqs("temperatures", k, start.clone(), tt, if q { 5 } else { 6 }, run_h01, false));
        // everything
        let mut al = vec![Comp(a), Comp(cc), T(300.0), T(260.0), D(5.0), D(-5.0), P(3000.0), P(9000.0), Prop, Pres, Mm, Dens(0)];
        if k == Kind::Gerg {
            al.extend([Dens(1), Dens(2)]);
        }
        v.extend(seqs("mixed", k, start.clone(), al, if q { 4 } else { 6 }, run_h01, false));
        // state points visited one after the other: composition, temperature, density (also zero and vanishing), calculation
        let mut pts: Vec<Vec<Op>> = vec![];
        let (xs0, ts0, ds0): (Vec<X>, Vec<f64>, Vec<f64>) = if q {
            (vec![cc, b], vec![300.0, 190.0], vec![0.0, 1e-12, 5.0, 26.0])
        } else {
            (vec![cc, b, pure(0)], vec![300.0, 190.0, 1e-3], vec![0.0, 1e-17, 1e-12, 5.0, 26.0, -4.0, 1e3])
        };
        for x in &xs0 {
            for t in &ts0 {
                for d in &ds0 {
                    for op in [Prop, Pres, Dens(0), Mm] {
                        if op.class() == 7 && (*d != 5.0 || *t != 300.0) || op.class() == 4 && *d == 1e-12 {
                            continue;
                        }
                        pts.push(vec![Comp(*x), T(*t), P(6000.0), D(*d), op]);
                    }
                }
            }
        }
        let np = pts.len();
        for len in 2..=3 {
            let pts = pts.clone();
            v.push(space(&format!("{} visits of {len} of {np} state points", k.name()), np.pow(len as u32), move |i, c| {
                let ops: Vec<Op> = digits(i, np, len).into_iter().flat_map(|j| pts[j].clone()).collect();
                if run_h01(k, &ops, ops.len() - 1, c) {
                    c.outcome("history agrees");
                }
                c.sample(|| format!("{}: {}", k.name(), show_ops(&ops)));
            }));
        }
        // pairs of configurations, with one operation in between, both ways of setting a composition
        let mut xs: Vec<X> = (0..21).map(pure).collect();
        xs.extend(named().into_iter().map(|g| g.1));
        xs.extend([b, cc, dd, mix(&[(0, 0.95), (14, 0.05)]), mix(&[(2, 0.5), (17, 0.5)]), mix(&[(0, 0.989), (3, 0.005)]), mix(&[(0, 1.0), (3, 0.005)]), mix(&[(3, 0.5), (4, 0.5)]), mix(&[(14, 0.5), (19, 0.5)])]);
        if !q {
            xs.extend(binaries(&[0.4]));
        }
        let n = xs.len();
        let xs = Arc::new(xs);
        let xs1 = xs.clone();
        v.push(space(&format!("{} pairs of compositions", k.name()), n * n, move |i, c| {
            let (xa, xb) = (&xs1[i as usize / n], &xs1[i as usize % n]);
            for pre in [Prop, Pres, Dens(0)] {
                for set in [Comp(*xb), Wx(*xb)] {
                    for (t2, d2) in [(320.0, 3.0), (320.0, 0.5), (410.0, 3.0)] {
                        for post in [Prop, Pres, Dens(0)] {
                            let mut ops = vec![Comp(*xa), T(320.0), D(3.0), P(2000.0), pre, set];
                            let from = ops.len();
                            if t2 != 320.0 {
                                ops.push(T(t2));
                            }
                            ops.extend([D(d2), post]);
                            if !run_h01(k, &ops, from, c) {
                                return;
                            }
                            // and back again
                            ops.extend([Comp(*xa), T(320.0), D(3.0), post]);
                            if !run_h01(k, &ops, ops.len() - 1, c) {
                                return;
                            }
                        }
                    }
                }
            }
            c.outcome("pair agrees");
            c.sample(|| format!("{}: {{{}}} then {{{}}}", k.name(), show(xa), show(xb)));
        }));
        // small changes
        let mut ds = vec![];
        for e in 3..=16 {
            ds.push(10f64.powi(-e));
            ds.push(-4.5 * 10f64.powi(-e - 1));
        }
        let ds = Arc::new(ds);
        let bases: Vec<X> = if q { vec![a, cc, named()[10].1] } else { named().into_iter().map(|g| g.1).chain([cc, dd]).collect() };
        let nb = bases.len();
        let (ds1, bases) = (ds.clone(), Arc::new(bases));
        let bs1 = bases.clone();
        v.push(space(&format!("{} drifts of one fraction", k.name()), nb * 21 * ds1.len(), move |i, c| {
            let i = i as usize;
            let (ib, ic, id) = (i / ds1.len() / 21, i / ds1.len() % 21, i % ds1.len());
            let xa = bs1[ib];
            let mut xb = xa;
            xb[ic] += ds1[id];
            // the same change compensated on another component: the sum stays
            let mut xc = xb;
            let jc = if ic == 0 { 1 } else { 0 };
            xc[jc] -= ds1[id];
            for x2 in [xb, xc] {
                for pre in [Prop, Pres] {
                    for set in [Comp(x2), Wx(x2)] {
                        for post in [Prop, Pres, Dens(0)] {
                            if !run_h01(k, &[Comp(xa), T(290.0), D(6.0), P(4000.0), pre, set, post], 6, c) {
                                return;
                            }
                        }
                    }
                }
            }
            c.outcome("drift agrees");
            c.sample(|| format!("{}: {} changed by {:e}", k.name(), NAMES[ic], ds1[id]));
        }));
        // staircases: many changes, each possibly below a threshold
        let ds2 = ds.clone();
        let bs2 = bases.clone();
        v.push(space(&format!("{} staircases", k.name()), nb * 22 * ds2.len(), move |i, c| {
            let i = i as usize;
            let (ib, ic, id) = (i / ds2.len() / 22, i / ds2.len() % 22, i % ds2.len());
            let mut x = bs2[ib];
            let mut t = 290.0;
            let mut ops = vec![Comp(x), T(t), D(6.0), P(4000.0), Prop];
            for s in 0..if q { 12 } else { 40 } {
                if ic < 21 {
                    x[ic] += ds2[id];
                    ops.push(Wx(x));
                } else {
                    t *= 1.0 + ds2[id];
                    ops.push(T(t));
                }
                ops.push(if s % 3 == 2 { Prop } else { Pres });
            }
            if run_h01(k, &ops, 5, c) {
                c.outcome("staircase agrees");
            }
        }));
        // temperature and density changes
        let ds3 = ds.clone();
        v.push(space(&format!("{} drifts of temperature and density", k.name()), nb * ds3.len() * 8, move |i, c| {
            let i = i as usize;
            let (ib, it, id) = (i / ds3.len() / 8, i / ds3.len() % 8, i % ds3.len());
            let xa = bases[ib];
            let t = [150.0, 200.0, 273.15, 298.15, 300.0, 350.0, 500.0, 1000.0][it];
            for (t2, d2) in [(t * (1.0 + ds3[id]), 6.0), (t, 6.0 * (1.0 + ds3[id])), (t + ds3[id], 6.0), (t, 6.0 + ds3[id])] {
                for pre in [Prop, Pres, Dens(0)] {
                    for post in [Prop, Pres, Dens(0)] {
                        if !run_h01(k, &[Comp(xa), T(t), D(6.0), P(4000.0), pre, T(t2), D(d2), post], 7, c) {
                            return;
                        }
                    }
                }
            }
            c.outcome("drift agrees");
        }));
    }
    v.extend(super::long::h01(tier));
    v
}

// ------------------------------------------------------------------------------------------ H02

fn run_h02(k: Kind, ops: &[Op], from: usize, c: &mut Ctx) -> bool {
    let mut m = k.make();
    for (i, op) in ops.iter().enumerate() {
        let b = obs(&*m);
        let ret = apply(&mut *m, op);
        c.op(1);
        if i >= from {
            let a = obs(&*m);
            c.trace();
            if let Some(e) = frame(k, op, &b, ret, &a, false) {
                c.fail("frame", format!("{} {}: {e}", k.name(), show_ops(&ops[..=i])));
                return false;
            }
            if op.is_calc() {
                // once more; a density calculation has used up the estimate, so its second and third
                // repetitions are the ones with equal inputs
                let (mut ret, mut a) = (ret, a);
                if matches!(op, Dens(_)) {
                    ret = apply(&mut *m, op);
                    a = obs(&*m);
                    c.op(1);
                }
                let ret2 = apply(&mut *m, op);
                c.op(1);
                let a2 = obs(&*m);
                let same = ident(ret, ret2) && ident(a.t, a2.t) && ident(a.p, a2.p) && ident(a.d, a2.d) && (0..15).all(|n| ident(a.out[n], a2.out[n]));
                if !same {
                    let n = (0..15).find(|n| !ident(a.out[*n], a2.out[*n]));
                    let what = match n {
                        Some(n) => format!("{} from {:?} to {:?}", ON[n], a.out[n], a2.out[n]),
                        None => format!("result {ret:?} d={:?} to {ret2:?} d={:?}", a.d, a2.d),
                    };
                    c.fail("repeat", format!("{} {}: repeating the last call changes {what}", k.name(), show_ops(&ops[..=i])));
                    return false;
                }
            }
        }
    }
    let a = obs(&*m);
    c.state(&[a.t, a.p, a.d, a.out[Z], a.out[MM], a.out[S], a.x[0], a.x[1], a.x[2], k as u32 as f64]);
    true
}

fn h02(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let (a, b, cc, _) = abc();
    let mut bad = a;
    bad[0] += 0.5;
    for k in KINDS {
        let flags: &[i32] = if k == Kind::Gerg { &[0, 1, 2] } else { &[0] };
        // accepted, although the sum is not one and a fraction is negative
        let mut off = a.map(|f| f * 0.994);
        off[5] = -1e-3;
        let mut al = vec![Comp(a), Comp(cc), Comp(bad), Comp(off), T(300.0), T(180.0), P(4000.0), P(0.0), D(5.0), D(-14.0), Prop, Pres, Mm];
        al.extend(flags.iter().map(|f| Dens(*f)));
        v.extend(seqs("frame", k, vec![], al.clone(), if q { 4 } else { 5 }, run_h02, true));
        v.extend(seqs("frame, from a calculated state", k, vec![Comp(b), T(270.0), P(7000.0), Dens(0), Prop], al, if q { 3 } else { 5 }, run_h02, true));
        // each operation in many states
        let mut xs: Vec<X> = (0..21).map(pure).collect();
        xs.extend(named().into_iter().map(|g| g.1));
        xs.extend(binaries(&[0.5]));
        for (n, s) in [0.9901, 0.993, 0.9999, 1.0 - 1e-7, 1.0 - 1e-10, 1.0 + 1e-13, 1.0 + 1e-8, 1.00001, 1.002, 1.0099].iter().enumerate() {
            xs.extend(named().into_iter().map(|g| g.1.map(|f| f * s)));
            xs.push(pure(n).map(|f| f * s));
            xs.push(pure(20 - n).map(|f| f * s));
            // a fraction of no weight, and a negative one
            let mut y = full().map(|f| f * s);
            y[2 * n] = 1e-17;
            xs.push(y);
            y[2 * n] = -1e-4;
            xs.push(y);
        }
        xs.extend(dominated());
        xs.retain(|x| (x.iter().sum::<f64>() - 1.0).abs() < 0.01);
        let ts = if q { vec![90.0, 150.0, 220.0, 300.0, 500.0] } else { lin(60.0, 700.0, 33) };
        let nt = ts.len();
        v.push(space(&format!("{} frame over states", k.name()), xs.len() * nt, move |i, c| {
            let x = &xs[i as usize / nt];
            let t = ts[i as usize % nt];
            for (p, d) in [(1e-3, 0.0), (100.0, 0.05), (3000.0, 1.5), (3000.0, -20.0), (30000.0, 11.0), (2e5, 25.0), (-5.0, 3.0), (0.0, 1.0), (1e-16, 0.0)] {
                for op in [Prop, Pres, Mm].into_iter().chain(flags.iter().map(|f| Dens(*f))) {
                    // in a calculated state, and in a new one
                    if !run_h02(k, &[Comp(*x), T(t), D(2.0), Prop, P(p), D(d), op], 3, c) || !run_h02(k, &[P(p), D(d), T(t), Comp(*x), op, op], 4, c) {
                        return;
                    }
                }
            }
            c.outcome("all operations leave the rest alone");
            c.sample(|| format!("{}: T={t} x={{{}}}", k.name(), show(x)));
        }));
    }
    // every window of temperature, pressure or density wider than a step
    let step = if q { 0.01 } else { 0.001 };
    let mut gs: Vec<X> = [0usize, 2, 4, 14, 17, 19].iter().map(|i| pure(*i)).collect();
    gs.extend(named().into_iter().map(|g| g.1));
    gs.push(full().map(|f| f * 0.996));
    for k in KINDS {
        for (name, way, r) in [("temperatures", 0, rungs(1.0, 1e4, step)), ("pressures", 1, rungs(1e-6, 1e7, 2.0 * step)), ("densities", 2, rungs(1e-12, 100.0, 2.0 * step))] {
            let gs = gs.clone();
            let nb = r.len().div_ceil(64);
            let flags: &[i32] = if k == Kind::Gerg { &[0, 1, 2] } else { &[0] };
            v.push(space(&format!("{} frame over a ladder of {name}", k.name()), gs.len() * nb, move |i, c| {
                let x = &gs[i as usize / nb];
                let b = i as usize % nb * 64;
                for a in &r[b..(b + 64).min(r.len())] {
                    let states: Vec<(f64, f64, f64)> = match way {
                        0 => vec![(*a, 4000.0, 0.0), (*a, 50.0, -11.0)],
                        1 => vec![(300.0, *a, 0.0), (180.0, *a, -14.0)],
                        _ => vec![(300.0, 4000.0, *a), (200.0, 1e4, -*a)],
                    };
                    for (t, p, d) in states {
                        for op in [Prop, Pres, Mm].into_iter().chain(flags.iter().map(|f| Dens(*f))) {
                            if !run_h02(k, &[Comp(*x), T(t), P(p), D(d), op], 4, c) {
                                return;
                            }
                        }
                    }
                }
                c.outcome("all operations leave the rest alone");
                c.sample(|| format!("{}: {name} from {:?} on, x={{{}}}", k.name(), r[b], show(x)));
            }));
        }
    }
    v.extend(super::long::h02(tier));
    v
}

// ------------------------------------------------------------------------------------------ H04

fn bads(k: Kind) -> Vec<Vec<Op>> {
    let g = full();
    let mut v: Vec<Vec<Op>> = vec![];
    let calcs: Vec<Op> = if k == Kind::Gerg { vec![Prop, Pres, Dens(0), Dens(1), Dens(2)] } else { vec![Prop, Pres, Dens(0)] };
    let mut muts: Vec<Op> = vec![];
    let zero = [0.0; 21];
    let mut nan = g;
    nan[3] = f64::NAN;
    let mut inf = g;
    inf[0] = f64::INFINITY;
    let mut neg = g;
    neg[0] = -0.2;
    let mut big = g;
    big[1] = 5.0;
    let mut infneg = g;
    infneg[0] = f64::INFINITY;
    infneg[1] = f64::NEG_INFINITY;
    // accepted, but senseless
    let mut cross = g;
    cross[0] += 3.0;
    cross[1] -= 3.0;
    for x in [zero, nan, inf, neg, big, infneg, cross] {
        muts.push(Comp(x));
        muts.push(Wx(x));
    }
    for s in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -300.0, 1e-300, 1e300] {
        muts.push(T(s));
        muts.push(P(s));
        muts.push(D(s));
    }
    muts.push(P(1e9));
    muts.push(D(-1e3));
    for m in &muts {
        for c in &calcs {
            v.push(vec![*m, *c]);
        }
    }
    // failures of well-formed calculations
    for p in [1e9, 1e-20, -5.0] {
        for f in [0, 1, 2] {
            v.push(vec![P(p), Dens(f)]);
        }
    }
    v
}

fn h04(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let (a, _, cc, dd) = abc();
    for k in KINDS {
        let b = Arc::new(bads(k));
        let n = b.len();
        // how the instance is given valid inputs again, and what is then calculated
        let mut post: Vec<Op> = vec![Prop, Pres, Mm, Dens(0)];
        if k == Kind::Gerg {
            post.extend([Dens(1), Dens(2)]);
        }
        let goods: Vec<(X, f64, f64, Option<f64>)> = vec![(a, 300.0, 5000.0, Some(0.0)), (cc, 250.0, 3000.0, Some(7.0)), (dd, 300.0, 1.0, Some(-3.0)), (pure(0), 300.0, 5000.0, None)];
        let recover = move |k: Kind, pre: &[Op], m: &mut dyn Eos, c: &mut Ctx, g: &(X, f64, f64, Option<f64>), o: &Op, direct: bool| -> bool {
            let mut ops: Vec<Op> = vec![if direct { Wx(g.0) } else { Comp(g.0) }, T(g.1), P(g.2)];
            if let Some(d) = g.3 {
                ops.push(D(d));
            }
            for s in &ops {
                let r = apply(m, s);
                c.op(1);
                if r != 0.0 {
                    c.fail("rejects", format!("{} {}: then {} returns code {r}", k.name(), show_ops(pre), s.show()));
                    return false;
                }
            }
            let bf = obs(m);
            let ret = apply(m, o);
            c.op(1);
            c.trace();
            let af = obs(m);
            let e = fresh(k, &g.0, bf.t, bf.p, bf.d, o, c);
            if let Some(e) = results(k, o, &bf, ret, &af, &e, false, 1e-12) {
                c.fail("recovery", format!("{} {}; {}: {e}", k.name(), show_ops(pre), show_ops(&ops)));
                return false;
            }
            true
        };
        let start = [Comp(a), T(300.0), P(5000.0), D(0.0), Dens(0), Prop];
        // one field of any magnitude, then a calculation
        let mags: Vec<f64> = (-323..=308).filter(|e: &i32| if q { e.abs() <= 24 || e % 12 == 0 } else { true }).flat_map(|e| [1.0, -1.0].map(|s| s * format!("1e{e}").parse::<f64>().unwrap())).collect();
        let (post2, goods2) = (post.clone(), goods.clone());
        let nm = mags.len();
        v.push(space(&format!("{} one field of any magnitude", k.name()), 24 * nm, move |i, c| {
            let (field, val) = (i as usize / nm, mags[i as usize % nm]);
            let bad = match field {
                0 => T(val),
                1 => P(val),
                2 => D(val),
                j => {
                    let mut x = full();
                    x[j - 3] = val;
                    Wx(x)
                }
            };
            let mut calcs = vec![Mm, Pres, Prop, Dens(0)];
            if k == Kind::Gerg {
                calcs.push(Dens(1 + (i as i32 & 1)));
            }
            for (n, o) in calcs.into_iter().enumerate() {
                let mut m = k.make();
                let mut pre: Vec<Op> = if (i as usize + n) % 2 == 0 { start.to_vec() } else { vec![] };
                pre.extend([bad, o]);
                for s in &pre {
                    apply(&mut *m, s);
                }
                c.op(pre.len() as u64);
                // what was calculated with the bad value first, then something else
                let first = post2.iter().position(|p| *p == o).unwrap_or(0);
                let g = i as usize + n;
                if !recover(k, &pre, &mut *m, c, &goods2[g % goods2.len()], &post2[first], g % 3 == 1) || !recover(k, &pre, &mut *m, c, &goods2[(g + 1) % goods2.len()], &post2[(first + 1 + g % (post2.len() - 1)) % post2.len()], g % 3 == 2) {
                    return;
                }
            }
            c.outcome("recovered");
            c.state_h(i ^ 1 << 49 ^ (k as u64) << 60);
        }));
        for depth in 1..=if q { 2 } else { 3 } {
            let (b, post, goods) = (b.clone(), post.clone(), goods.clone());
            v.push(space(&format!("{} all sequences of {depth} bad calculations", k.name()), n.pow(depth as u32), move |i, c| {
                let seq: Vec<Op> = digits(i, n, depth).into_iter().flat_map(|j| b[j].clone()).collect();
                // deeper sequences: one recovery each, chosen by position in the enumeration
                let combos: Vec<(usize, usize, bool, bool)> = if depth <= 1 {
                    let mut w = vec![];
                    for g in 0..goods.len() {
                        for o in 0..post.len() {
                            for dr in [false, true] {
                                w.push((g, o, dr, false));
                                w.push((g, o, dr, true));
                            }
                        }
                    }
                    w
                } else {
                    (0..post.len()).map(|o| ((o + i as usize) % goods.len(), o, (i as usize + o) % 2 == 1, i as usize / 2 % 2 == 1)).take(if depth == 2 { 6 } else { 2 }).collect()
                };
                for (g, o, dr, warm) in combos {
                    let mut m = k.make();
                    let pre: Vec<Op> = if warm { start.iter().chain(seq.iter()).copied().collect() } else { seq.clone() };
                    for s in &pre {
                        apply(&mut *m, s);
                    }
                    c.op(pre.len() as u64);
                    if !recover(k, &pre, &mut *m, c, &goods[g], &post[o], dr) {
                        return;
                    }
                    // and a second calculation after it
                    if !recover(k, &pre, &mut *m, c, &goods[(g + 1) % goods.len()], &post[(o + 1) % post.len()], dr) {
                        return;
                    }
                }
                c.outcome("recovered");
                c.state_h(i ^ (depth as u64) << 50 ^ (k as u64) << 60);
                c.sample(|| format!("{}: {}", k.name(), show_ops(&seq)));
            }));
        }
    }
    // one gas, whose composition is set once: failing states, senseless values, and between them good states
    let mut gs: Vec<X> = (0..21).map(pure).collect();
    gs.extend(named().into_iter().map(|g| g.1));
    gs.extend(binaries(if q { &[0.5] } else { &[0.5, 0.1, 0.9] }));
    gs.push(full().map(|f| f * 0.995));
    let mut ts = if q { lin(40.0, 340.0, 11) } else { lin(40.0, 700.0, 67) };
    ts.extend([0.0, -200.0, f64::NAN, f64::INFINITY, 1e-3, 1e7]);
    let mut ps = log(1e-2, 1e6, if q { 17 } else { 49 });
    ps.extend([0.0, -4000.0, f64::NAN, f64::INFINITY, 1e-16]);
    for k in KINDS {
        let flags: &[i32] = if k == Kind::Gerg { &[0, 1, 2] } else { &[0] };
        let (gs, ts, ps) = (gs.clone(), ts.clone(), ps.clone());
        let nt = ts.len();
        v.push(space(&format!("{} failing and good states of one gas in turn", k.name()), gs.len() * nt, move |i, c| {
            let (x, t) = (&gs[i as usize / nt], ts[i as usize % nt]);
            let mut m = k.make();
            apply(&mut *m, &Comp(*x));
            let tg = refmodel::gerg_reducing(x).1.max(150.0);
            // good states: plain gas, dense, the temperature of the failure again
            let goods = [(1.5 * tg, 300.0, 0.0), (1.2 * tg, 5000.0, 0.0), (2.0 * tg, 2000.0, -1.0), (if t > 20.0 && t < 1e4 { t } else { 1.3 * tg }, 20.0, 3.0)];
            let calcs = [Dens(0), Prop, Pres, Mm];
            for (j, &p) in ps.iter().enumerate() {
                for (n, f) in flags.iter().enumerate() {
                    for d0 in [0.0, -15.0, f64::NAN] {
                        let pre = [T(t), P(p), D(d0), Dens(*f)];
                        for o in &pre {
                            apply(&mut *m, o);
                        }
                        c.op(1);
                        let w = j + n + (d0 < 0.0) as usize + 2 * d0.is_nan() as usize;
                        let (gt, gp, gd) = goods[w % goods.len()];
                        // the first calculation after the failure is each of the four in turn
                        for o in [calcs[w / 4 % 4], Prop] {
                            m.set_t(gt);
                            m.set_p(gp);
                            m.set_d(gd);
                            let bf = obs(&*m);
                            let ret = apply(&mut *m, &o);
                            let af = obs(&*m);
                            c.op(1);
                            c.trace();
                            let e = fresh(k, x, gt, gp, gd, &o, c);
                            if let Some(e) = results(k, &o, &bf, ret, &af, &e, false, 1e-12) {
                                c.fail("recovery", format!("{} x={{{}}}: after {} at T={gt:?} p={gp:?} d={gd:?}: {e}", k.name(), show(x), show_ops(&pre)));
                                return;
                            }
                        }
                    }
                }
            }
            c.outcome("recovered");
            c.state_h(i ^ 1 << 48 ^ (k as u64) << 60);
            c.sample(|| format!("{}: T={t:?} x={{{}}}", k.name(), show(x)));
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------ T01

const SPECIAL: [f64; 24] = [
    0.0, -0.0, 5e-324, -5e-324, 2.3e-308, 1e-300, -1e-300, 1e-17, 1e-15, -1e-15, 1e-8, 0.3, 1.0, -1.0, 15.0, 300.0, -300.0, 1e5, 1e17, 1e154, 1e300, f64::MAX, f64::INFINITY,
    f64::NAN,
];

fn tcomps() -> Vec<X> {
    let g = full();
    let mut v = vec![g, [0.0; 21], pure(0), pure(17), pure(13), mix(&[(14, 0.5), (2, 0.5)]), [1.0; 21], [f64::NAN; 21], [f64::INFINITY; 21], [-1.0; 21], [1e300; 21], [5e-324; 21], [f64::MAX; 21], [f64::NEG_INFINITY; 21]];
    let mut cross = g;
    cross[0] += 1e6;
    cross[1] -= 1e6;
    v.push(cross);
    let mut x = [0.0; 21];
    x[14] = -1.0;
    x[0] = 2.0;
    v.push(x);
    let mut x = [0.0; 21];
    x[4] = 1e-310;
    x[0] = 1.0;
    v.push(x);
    v
}

fn t01(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for k in KINDS {
        for ffi in [false, true] {
            let make = move || if ffi { k.make_ffi() } else { k.make() };
            let flags: &'static [i32] = if k == Kind::Gerg && !ffi { &[0, 1, 2, 3, -1, i32::MAX, i32::MIN] } else { &[0] };
            // all combinations of special values
            let xs = tcomps();
            let sp: Vec<f64> = if ffi && q { vec![0.0, -0.0, 5e-324, 1e-15, -1.0, 15.0, 300.0, 1e300, f64::INFINITY, f64::NAN] } else { SPECIAL.iter().chain(&[f64::NEG_INFINITY]).copied().collect() };
            let ns = sp.len();
            v.push(space(&format!("{}{} special values", k.name(), if ffi { " through C" } else { "" }), xs.len() * ns * ns, move |i, c| {
                let i = i as usize;
                let (ix, it, ip) = (i / ns / ns, i / ns % ns, i % ns);
                for &d in &sp {
                    for (no, o) in [Pres, Prop, Mm].into_iter().chain(flags.iter().map(|f| Dens(*f))).enumerate() {
                        if matches!(o, Dens(f) if f > 2 || f < 0) && d != 0.0 {
                            continue;
                        }
                        if no < 3 && ip % 8 != 0 {
                            continue; // the pressure field is no input of these
                        }
                        let mut m = make();
                        m.set(&comp(&xs[ix]));
                        if !ffi {
                            m.set_x(&xs[ix]);
                        }
                        m.set_t(sp[it]);
                        m.set_p(sp[ip]);
                        m.set_d(d);
                        let r = apply(&mut *m, &o);
                        c.op(1);
                        c.trace();
                        if no >= 3 {
                            apply(&mut *m, &Prop);
                            c.op(1);
                        }
                        c.outcome(if r.is_finite() { "returned, finite" } else { "returned, not finite" });
                    }
                }
                c.state_h(i as u64 ^ (k as u64) << 40 ^ (ffi as u64) << 50);
                c.sample(|| format!("{}: T={:?} P={:?} x={{{}}}", k.name(), sp[it], sp[ip], show(&xs[ix])));
            }));
            // all sequences
            let g = full();
            let mut al = vec![Comp(g), Comp(pure(17)), Comp([f64::NAN; 21]), T(300.0), T(f64::NAN), T(0.0), P(5000.0), P(f64::INFINITY), P(-1.0), D(-8.0), D(f64::NEG_INFINITY), Prop, Pres, Dens(0)];
            if k == Kind::Gerg && !ffi {
                al.push(Dens(2));
            }
            let al = Arc::new(al);
            for len in 1..=if q { 4 } else { 6 } {
                let al = al.clone();
                if ffi && len == 6 {
                    continue;
                }
                v.push(space(&format!("{}{} all sequences of {len} of {} operations", k.name(), if ffi { " through C" } else { "" }, al.len()), al.len().pow(len as u32), move |i, c| {
                    let ops: Vec<Op> = digits(i, al.len(), len).into_iter().map(|j| al[j]).collect();
                    if !canonical(&ops, false) {
                        return;
                    }
                    let mut m = make();
                    for o in &ops {
                        apply(&mut *m, o);
                    }
                    c.op(ops.len() as u64);
                    c.trace();
                    c.outcome("sequence returned");
                    c.state_h(mix64(i) ^ (k as u64) << 40 ^ (ffi as u64) << 50 ^ len as u64);
                }));
            }
        }
    }
    // instances from Default: without tables, but nothing may go wrong
    for k in KINDS {
        let sp: Vec<f64> = vec![0.0, -0.0, 5e-324, 1e-15, -1.0, 15.0, 300.0, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
        let xs = tcomps();
        let (ns, nx) = (sp.len(), xs.len());
        v.push(space(&format!("{} instances from Default", k.name()), (nx + 1) * ns * ns, move |i, c| {
            let i = i as usize;
            let (ix, it, ip) = (i / ns / ns, i / ns % ns, i % ns);
            for &d in &sp {
                for o in [Pres, Prop, Mm, Dens(0), Dens(1), Dens(2)] {
                    let mut m = k.make_default();
                    if ix < nx {
                        m.set(&comp(&xs[ix]));
                        m.set_x(&xs[ix]);
                    }
                    m.set_t(sp[it]);
                    m.set_p(sp[ip]);
                    m.set_d(d);
                    apply(&mut *m, &o);
                    apply(&mut *m, &Prop);
                    c.op(2);
                    c.trace();
                }
            }
            c.outcome("returned");
            c.state_h(i as u64 ^ (k as u64) << 40 ^ 3 << 55);
        }));
    }
    v.extend(super::long::t01(tier));
    v.push(super::miri::space_of("special", "special values", if q { 24 } else { 96 }, if q { 1 } else { 2 }));
    // ladders: every window of one input wider than a step, ordinary values finely, all magnitudes and signs coarsely
    let fine = if q { 0.01 } else { 0.001 };
    let mut all: Vec<f64> = rungs(1e-307, 1e307, if q { 0.5 } else { 0.05 });
    all.extend(rungs(1e-2, 1e6, fine));
    let neg: Vec<f64> = all.iter().map(|f| -f).collect();
    let all = Arc::new([all, neg].concat());
    let mut gs: Vec<X> = (0..21).map(pure).collect();
    gs.extend(named().into_iter().map(|g| g.1));
    gs.push(full().map(|f| f * 0.993));
    let gs = Arc::new(gs);
    for k in KINDS {
        let flags: &[i32] = if k == Kind::Gerg { &[0, 1, 2] } else { &[0] };
        let nb = all.len().div_ceil(64);
        for (name, way) in [("temperature", 0), ("pressure", 1), ("density", 2)] {
            let (all, gs) = (all.clone(), gs.clone());
            v.push(space(&format!("{} ladder of {name}", k.name()), gs.len() * nb, move |i, c| {
                let x = &gs[i as usize / nb];
                let b = i as usize % nb * 64;
                let mut m = k.make();
                m.set(&comp(x));
                for &a in &all[b..(b + 64).min(all.len())] {
                    let st: &[(f64, f64, f64)] = match way {
                        0 => &[(a, 4000.0, 6.0), (a, 70.0, -12.0)],
                        1 => &[(300.0, a, 0.0), (150.0, a, -15.0)],
                        _ => &[(300.0, 4000.0, a), (110.0, 2e4, a)],
                    };
                    for &(t, p, d) in st {
                        for o in [Pres, Prop].into_iter().chain(flags.iter().map(|f| Dens(*f))) {
                            if way == 1 && matches!(o, Pres | Prop) {
                                continue;
                            }
                            m.set_t(t);
                            m.set_p(p);
                            m.set_d(d);
                            apply(&mut *m, &o);
                            c.op(1);
                        }
                    }
                }
                c.trace();
                c.outcome("ladder returned");
                c.state_h(i ^ (k as u64) << 40 ^ (way as u64) << 44 | 1 << 61);
                c.sample(|| format!("{}: {name} from {:?}, x={{{}}}", k.name(), all[b], show(x)));
            }));
        }
        // ordinary states of many gases
        let mut xs: Vec<X> = binaries(&[0.5, 0.05]);
        for t in triples().into_iter().step_by(3) {
            xs.push(mix(&[(t[0], 0.6), (t[1], 0.3), (t[2], 0.1)]));
        }
        xs.extend(dominated());
        let (ts, ps) = (lin(60.0, 700.0, if q { 17 } else { 129 }), log(1e-3, 1e6, if q { 19 } else { 91 }));
        v.push(space(&format!("{} gases, temperatures, pressures", k.name()), xs.len(), move |i, c| {
            let x = &xs[i as usize];
            let mut m = k.make();
            m.set(&comp(x));
            for &t in &ts {
                m.set_t(t);
                for &p in &ps {
                    for f in flags {
                        m.set_p(p);
                        m.set_d(0.0);
                        m.density(*f);
                        m.properties();
                        c.op(2);
                    }
                }
            }
            c.trace();
            c.outcome("gas returned");
            c.state_h(i ^ (k as u64) << 40 | 3 << 60);
        }));
    }
    // every support: which components are there never matters
    v.push(space("all 2^21 supports", 1 << 11, move |i, c| {
        let (mut a, mut g) = (Kind::Detail.make(), Kind::Gerg.make());
        for j in 0..1024u32 {
            let x = of_mask((i as u32) << 10 | j);
            let mut cm = comp(&x);
            let _ = cm.check();
            let _ = cm.normalize();
            for m in [&mut a, &mut g] {
                m.set(&cm);
                apply(&mut **m, &Mm);
                c.op(4);
                // calculations for one in sixteen (thorough: all)
                if !q || j % 16 == i as u32 % 16 {
                    m.set_t(280.0);
                    m.set_d(3.0);
                    m.pressure();
                    c.op(1);
                }
            }
        }
        c.trace();
        c.outcome("supports returned");
        c.state_h(i | 5 << 60);
    }));
    // special fractions at each component
    for k in KINDS {
        v.push(space(&format!("{} special fraction of each component", k.name()), 21 * SPECIAL.len(), move |i, c| {
            let (ci, s) = (i as usize / SPECIAL.len(), SPECIAL[i as usize % SPECIAL.len()]);
            for base in [[0.0; 21], full()] {
                let mut x = base;
                x[ci] = s;
                let _ = comp(&x).check();
                let mut cm = comp(&x);
                let _ = cm.normalize();
                for xx in [x, uncomp(&cm)] {
                    for t in [300.0, 40.0, 0.0, f64::NAN] {
                        for d in [0.0, 1e-16, 9.0, 1e4] {
                            for o in [Pres, Prop, Mm, Dens(0), Dens(1), Dens(2)] {
                                let mut m = k.make();
                                m.set(&comp(&xx));
                                m.set_x(&xx);
                                m.set_t(t);
                                m.set_p(4000.0);
                                m.set_d(d);
                                apply(&mut *m, &o);
                                c.op(1);
                                c.trace();
                            }
                        }
                    }
                }
            }
            c.outcome("returned");
            c.state_h(i ^ (k as u64) << 40 | 1 << 62);
        }));
    }
    v
}
