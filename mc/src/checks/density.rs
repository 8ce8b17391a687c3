//! Density calculation: soundness (D01), failure contract (D02), convergence (D03), estimates (D04), GERG modes (D05), success outside natural gas (D06).
use crate::api::*;
use crate::engine::*;
use crate::gas::*;
use crate::checks::values::rungs;
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "D01", spaces: d01, assumptions: &["the equation of state is the reference model; success is judged at relative density error 1e-9 (plus conditioning, and what is left of the last Newton step in ln v of 1e-7 where ln p is steep: at most 1e-7)"] },
        Check { id: "D02", spaces: d02, assumptions: &[] },
        Check { id: "D03", spaces: d03, assumptions: &["gas root = smallest density at which the reference isotherm reaches the pressure, located on a grid between successive results"] },
        Check { id: "D04", spaces: d04, assumptions: &["states within 1e-4 RT of mechanical instability are excluded"] },
        Check { id: "D05", spaces: d05, assumptions: &["roots of the reference isotherm are located on a grid of 400 densities up to 4 times the reducing density"] },
        Check { id: "D06", spaces: d06, assumptions: &["a stable density exists where the reference isotherm reaches the pressure between two neighbouring points of a grid up to 3 times the reducing density that are both stable"] },
    ]
}

const FLAGS: [i32; 7] = [0, 1, 2, 3, -1, i32::MAX, i32::MIN];

fn at(k: Kind, x: &X, t: f64, p: f64, d0: f64, flag: i32) -> String {
    format!("{} T={t:?} K, p={p:?} kPa, estimate field {d0:?}, mode {flag}, x = {{{}}}", k.name(), show(x))
}

/// relative density error of a claimed solution, and the error allowed
pub fn root_error(k: Kind, x: &X, t: f64, p: f64, d: f64) -> (f64, f64, refmodel::State) {
    let r = k.reference(x, t, d);
    let kk = d * r.dp_dd.v / p;
    let e = (r.p.v - p).abs() / (d * r.dp_dd.v.abs());
    // what a Newton step of 1e-7 in ln v leaves: half its square times the curvature of ln p
    let tol = (1e-9 + 1e-14 * kk.abs()).min(1e-7) + 1e-11 / kk.abs() + 1e-12 * r.p.s / (d * r.dp_dd.v.abs());
    (e, tol, r)
}

/// Soundness of one success
fn sound(k: Kind, x: &X, t: f64, p: f64, d0: f64, flag: i32, d: f64, c: &mut Ctx) -> bool {
    let w = || at(k, x, t, p, d0, flag);
    if !(d.is_finite() && d > 0.0) {
        c.fail("density", format!("{}: success with density {d:?}", w()));
        return false;
    }
    let (e, tol, r) = root_error(k, x, t, p, d);
    c.max("density error/tolerance", e / tol);
    if !(r.dp_dd.v > -1e-12 * r.dp_dd.s) {
        c.fail("unstable", format!("{}: success with density {d:?}, where dp/dD = {:?}", w(), r.dp_dd.v));
        return false;
    }
    if !(e <= tol) {
        c.fail("pressure", format!("{}: success with density {d:?}, where the equation gives p = {:?} (relative density error {e:e}, tolerance {tol:e})", w(), r.p.v));
        return false;
    }
    true
}

fn d01(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let d0s: Vec<f64> = vec![0.0, f64::NAN, 7.0, -1e-12, -0.01, -1.0, -4.0, -8.0, -12.0, -18.0, -25.0, -1e3, f64::NEG_INFINITY];
    let d0p: Vec<f64> = vec![0.0, -3.0, -14.0];
    let sets: Vec<(&str, Vec<X>, Vec<f64>, Vec<f64>, Vec<f64>)> = vec![
        (
            "pures",
            (0..21).map(pure).collect(),
            [vec![40.0], lin(70.0, 700.0, if q { 64 } else { 316 }), vec![1500.0]].concat(),
            [vec![1e-12, 1e-6, 1e-3], log(0.1, 1e6, if q { 30 } else { 120 }), vec![1e7, 1e9]].concat(),
            d0s.clone(),
        ),
        (
            "binaries",
            binaries(if q { &[0.5, 0.1, 0.9] } else { &[0.5, 0.02, 0.1, 0.3, 0.7, 0.9, 0.98] }),
            if q { vec![150.0, 220.0, 290.0, 400.0] } else { lin(100.0, 600.0, 21) },
            [vec![1e-6], log(1.0, 1e6, if q { 14 } else { 40 })].concat(),
            d0p.clone(),
        ),
        ("named", named().into_iter().map(|g| g.1).collect(), lin(110.0, 500.0, if q { 79 } else { 391 }), log(1e-3, 3e5, if q { 40 } else { 200 }), d0s.clone()),
        ("natural gas box", pipeline(), lin(150.0, 350.0, if q { 9 } else { 41 }), log(1.0, 1e5, if q { 12 } else { 40 }), d0p.clone()),
        (
            "ternaries",
            triples().into_iter().map(|t| mix(&[(t[0], 0.5), (t[1], 0.3), (t[2], 0.2)])).collect(),
            if q { vec![200.0, 300.0] } else { lin(120.0, 500.0, 9) },
            log(10.0, 1e5, if q { 5 } else { 16 }),
            vec![0.0],
        ),
        ("supports of 19 to 21", subsets(19).into_iter().chain(subsets(20)).chain(subsets(21)).map(of_mask).collect(), vec![250.0, 400.0], log(10.0, 1e5, if q { 4 } else { 12 }), vec![0.0]),
    ];
    let mut v = vec![];
    for k in KINDS {
        for (n, xs, ts, ps, ds) in &sets {
            let nt = ts.len();
            let (xs, ts, ps, ds) = (Arc::new(xs.clone()), ts.clone(), ps.clone(), ds.clone());
            let flags: &'static [i32] = match (k, *n) {
                (Kind::Detail, _) => &[0],
                (_, "pures" | "named") => &FLAGS,
                _ => &[0, 1, 2],
            };
            v.push(space(&format!("{} {n}", k.name()), xs.len() * nt, move |i, c| {
                let x = &xs[i as usize / nt];
                let t = ts[i as usize % nt];
                // one instance, so that density calculations follow each other in every combination of outcomes
                let mut m = k.make();
                m.set(&comp(x));
                m.set_t(t);
                for &p in &ps {
                    for &flag in flags {
                        for &d0 in &ds {
                            m.set_p(p);
                            m.set_d(d0);
                            let e = m.density(flag);
                            c.op(1);
                            let d = m.d();
                            if e == 0 {
                                c.trace();
                                c.state(&[t, p, d]);
                                c.outcome("success");
                                if !sound(k, x, t, p, d0, flag, d, c) {
                                    return;
                                }
                            } else {
                                c.outcome("failure");
                            }
                        }
                    }
                }
                c.sample(|| format!("{} T={t} x={{{}}}: {} pressures x {} estimates x {} modes", k.name(), show(x), ps.len(), ds.len(), flags.len()));
            }));
        }
        // ladders: a step of 1 % in one input at a time, so that no interval of it is wider than that
        let flags: &'static [i32] = if k == Kind::Gerg { &[0, 1, 2] } else { &[0] };
        let gases: Arc<Vec<X>> = Arc::new(ladder_gases());
        let n = gases.len();
        let step = if q { 0.01 } else { 0.001 };
        let (tl, pl) = (rungs(60.0, 2000.0, step), rungs(1e-3, 1e6, step));
        let dl: Vec<f64> = rungs(1e-7, 200.0, step);
        let ts = if q { vec![110.0, 180.0, 250.0, 290.0, 330.0, 450.0] } else { lin(90.0, 600.0, 52) };
        let ps = if q { vec![1.0, 101.325, 3e3, 1.2e4, 9e4] } else { log(0.1, 1e6, 36) };
        let run = move |x: &X, grid: &mut dyn Iterator<Item = (f64, f64, f64)>, c: &mut Ctx| {
            let mut m = k.make();
            m.set(&comp(x));
            for (t, p, d0) in grid {
                for &flag in flags {
                    m.set_t(t);
                    m.set_p(p);
                    m.set_d(d0);
                    let e = m.density(flag);
                    c.op(1);
                    let d = m.d();
                    if e == 0 {
                        c.trace();
                        c.state(&[t, p, d]);
                        c.outcome("success");
                        if !sound(k, x, t, p, d0, flag, d, c) {
                            return;
                        }
                    } else {
                        c.outcome("failure");
                    }
                }
            }
        };
        let run = Arc::new(run);
        v.push(space(&format!("{} ladder of pressures", k.name()), n * ts.len(), {
            let (gases, run, ts) = (gases.clone(), run.clone(), ts.clone());
            move |i, c| {
                let t = ts[i as usize / n];
                run(&gases[i as usize % n], &mut pl.iter().map(|&p| (t, p, 0.0)), c)
            }
        }));
        v.push(space(&format!("{} ladder of temperatures", k.name()), n * ps.len(), {
            let (gases, run, ps) = (gases.clone(), run.clone(), ps.clone());
            move |i, c| {
                let p = ps[i as usize / n];
                run(&gases[i as usize % n], &mut tl.iter().map(|&t| (t, p, 0.0)), c)
            }
        }));
        let (pr, tr) = (readings(if q { 20_000 } else { 100_000 }), per(90, 700, 100));
        let (np, nt) = (pr.len().div_ceil(256), tr.len().div_ceil(256));
        v.push(space(&format!("{} pressures as read, temperatures in hundredths", k.name()), common().len() * (np + nt), {
            let run = run.clone();
            move |i, c| {
                let (x, b) = (&common()[i as usize / (np + nt)], i as usize % (np + nt));
                if b < np {
                    for t in [200.0, 288.15, 300.0] {
                        run(x, &mut pr[b * 256..(b * 256 + 256).min(pr.len())].iter().map(|&p| (t, p, 0.0)), c)
                    }
                } else {
                    let b = (b - np) * 256;
                    for p in [101.325, 4000.0, 30_000.0] {
                        run(x, &mut tr[b..(b + 256).min(tr.len())].iter().map(|&t| (t, p, 0.0)), c)
                    }
                }
            }
        }));
        // the density found before, at another pressure: all pairs of pressures on every stable branch
        let mut xs: Vec<X> = (0..21).map(pure).collect();
        xs.extend(named().into_iter().map(|g| g.1));
        xs.extend(binaries(&[0.5]));
        let fr = if q { lin(0.35, 1.15, 17) } else { lin(0.3, 1.5, 61) };
        let pp = if q { log(1e-9, 1e5, 29) } else { log(1e-12, 1e6, 109) };
        let nf = fr.len();
        v.push(space(&format!("{} estimates from other pressures", k.name()), xs.len() * nf, {
            let run = run.clone();
            move |i, c| {
                let (x, f) = (&xs[i as usize / nf], fr[i as usize % nf]);
                let (rd, rt) = refmodel::gerg_reducing(x);
                let t = f * rt;
                let iso: Vec<(f64, f64)> = log(1e-9, 0.05, 20).into_iter().chain(lin(0.06, 3.2, 158)).map(|q| (q * rd, k.reference(x, t, q * rd).p.v)).collect();
                let mut est = vec![];
                for w in iso.windows(2) {
                    for &p in &pp {
                        // crossed upwards
                        if w[0].1 < p && w[1].1 >= p {
                            let (mut lo, mut hi) = (w[0].0, w[1].0);
                            for _ in 0..56 {
                                let d = 0.5 * (lo + hi);
                                if k.reference(x, t, d).p.v < p {
                                    lo = d
                                } else {
                                    hi = d
                                }
                            }
                            est.push(hi);
                        }
                    }
                }
                for d in est {
                    run(x, &mut pp.iter().map(|&p| (t, p, -d)), c);
                    if !c.fails.is_empty() {
                        return;
                    }
                }
            }
        }));
        v.push(space(&format!("{} ladder of estimates", k.name()), n * ts.len() * ps.len(), {
            move |i, c| {
                let (j, g) = (i as usize / n, i as usize % n);
                run(&gases[g], &mut dl.iter().map(|&d| (ts[j / ps.len()], ps[j % ps.len()], -d)), c)
            }
        }));
    }
    v
}

/// what the ladders go through: named gases and a few pure and binary ones
fn ladder_gases() -> Vec<X> {
    let mut v: Vec<X> = named().into_iter().map(|g| g.1).collect();
    v.extend([0, 1, 2, 3, 4, 7, 14, 17, 19].map(pure));
    v.extend([(0, 2), (1, 2), (0, 7), (14, 17)].map(|(a, b)| mix(&[(a, 0.5), (b, 0.5)])));
    v
}

// ------------------------------------------------------------------------------------------ D02

/// the contract every density call has to meet, whatever the inputs
fn contract(m: &mut dyn Eos, x: &X, t: f64, p: f64, d0: f64, flag: i32, valid_x: bool, c: &mut Ctx) -> bool {
    let k = m.kind();
    m.set_t(t);
    m.set_p(p);
    m.set_d(d0);
    let xb = m.x();
    let e = m.density(flag);
    c.op(1);
    c.trace();
    let d = m.d();
    c.state(&[t, p, d0, d, e as f64]);
    c.outcome(match e {
        0 => "success",
        1 => "iteration failed",
        2 => "pressure too low",
        _ => "other",
    });
    let w = || at(k, x, t, p, d0, flag);
    let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    if !same(m.t(), t) || !same(m.p(), p) {
        c.fail("inputs", format!("{}: the call changed T to {:?}, p to {:?}", w(), m.t(), m.p()));
        return false;
    }
    let xa = m.x();
    if (0..21).any(|i| !same(xa[i], xb[i])) {
        c.fail("inputs", format!("{}: the call changed the composition", w()));
        return false;
    }
    if e == 0 {
        if !(t > 0.0 && t.is_finite() && p > 0.0 && p.is_finite()) {
            c.fail("invalid", format!("{}: success for invalid input, density {d:?}", w()));
            return false;
        }
        if !(d > 0.0 && d.is_finite()) {
            c.fail("invalid", format!("{}: success with density {d:?}", w()));
            return false;
        }
        return true;
    }
    let low = k == Kind::Detail && p.abs() < 1e-15;
    let want = if low { 0.0 } else { p / k.r() / t };
    let code = if low { 2 } else { 1 };
    if e != code {
        c.fail("code", format!("{}: error code {e}, expected {code}", w()));
        return false;
    }
    let ok = (d.is_nan() && want.is_nan()) || d == want || (d - want).abs() <= 1e-13 * want.abs() + 1e-320;
    if !ok {
        c.fail("ideal", format!("{}: failed and left density {d:?}, the ideal gas has {want:?}", w()));
        return false;
    }
    let _ = valid_x;
    true
}

pub fn specials() -> Vec<f64> {
    vec![
        f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 5e-324, -5e-324, f64::MIN_POSITIVE, 1e-300, 1e-16, -1e-16, 1e-14, -1e-14, 1e-7, -1e-7, 1e-3, 1.0, -1.0,
        20.0, -20.0, 50.0, 150.0, 300.0, -300.0, 1e4, 1e6, 1e10, -1e10, 1e100, 1e300, f64::MAX, f64::MIN,
    ]
}

fn d02(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for k in KINDS {
        let flags: &'static [i32] = if k == Kind::Gerg { &FLAGS } else { &[0] };
        // every combination of special values
        let mut xs: Vec<X> = vec![[0.0; 21], pure(0), pure(17), pure(19), pure(13), full(), mix(&[(0, 0.5), (2, 0.5)]), mix(&[(3, 0.3), (9, 0.7)])];
        for s in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 1e300, -0.0, 5e-324, 1e-15] {
            let mut x = pure(0);
            x[4] = s;
            xs.push(x);
            let mut x = [0.0; 21];
            x[20] = s;
            xs.push(x);
        }
        let sp = specials();
        let n = sp.len();
        v.push(space(&format!("{} all combinations of special values", k.name()), xs.len() * n * n, {
            let (xs, sp) = (xs.clone(), sp.clone());
            move |i, c| {
                let i = i as usize;
                let (x, t, p) = (&xs[i / (n * n)], sp[i / n % n], sp[i % n]);
                let mut m = k.make();
                m.set_x(x);
                for &flag in flags {
                    for &d0 in &sp {
                        if !contract(&mut *m, x, t, p, d0, flag, false, c) {
                            return;
                        }
                    }
                }
                c.sample(|| at(k, x, t, p, f64::NAN, 0));
            }
        }));
        // ordinary states, where failures are rarer and their causes more varied
        let sets: Vec<(&str, Vec<X>, Vec<f64>, Vec<f64>)> = vec![
            ("pures", (0..21).map(pure).collect(), lin(60.0, 700.0, if q { 65 } else { 321 }), [vec![-100.0, 0.0, 1e-18], log(1e-3, 1e9, if q { 40 } else { 240 })].concat()),
            ("binaries", binaries(&[0.5, 0.1, 0.9]), if q { vec![120.0, 200.0, 280.0, 400.0] } else { lin(80.0, 600.0, 27) }, log(1.0, 1e8, if q { 14 } else { 60 })),
            ("named", named().into_iter().map(|g| g.1).collect(), lin(80.0, 500.0, if q { 43 } else { 211 }), log(1e-3, 1e8, if q { 40 } else { 160 })),
        ];
        for (n, xs, ts, ps) in sets {
            let d0s = [0.0, -1e-9, -0.5, -6.0, -15.0, -40.0, -1e4, 3.0, f64::NAN];
            let nt = ts.len();
            v.push(space(&format!("{} {n}", k.name()), xs.len() * nt, move |i, c| {
                let x = &xs[i as usize / nt];
                let t = ts[i as usize % nt];
                let mut m = k.make();
                m.set(&comp(x));
                for &p in &ps {
                    for &flag in flags {
                        for &d0 in &d0s {
                            if !contract(&mut *m, x, t, p, d0, flag, true, c) {
                                return;
                            }
                        }
                    }
                }
                c.sample(|| at(k, x, t, ps[0], 0.0, 0));
            }));
        }
        // ladders, over all magnitudes and signs
        let gases = Arc::new(ladder_gases());
        let n = gases.len();
        let step = if q { 0.02 } else { 0.002 };
        let wide: Vec<f64> = rungs(1e-3, 1e5, step);
        let tl: Vec<f64> = wide.iter().flat_map(|&t| [t, -t]).collect();
        let pl: Vec<f64> = rungs(1e-20, 1e12, 2.0 * step).iter().flat_map(|&p| [p, -p]).collect();
        let dl: Vec<f64> = rungs(1e-9, 1e5, 2.0 * step).iter().flat_map(|&d| [d, -d]).collect();
        for (name, var) in [("temperatures", 0), ("pressures", 1), ("density fields", 2)] {
            let (gases, tl, pl, dl) = (gases.clone(), tl.clone(), pl.clone(), dl.clone());
            let base: Vec<(f64, f64, f64)> = [100.0, 200.0, 300.0, 500.0].iter().flat_map(|&t| [10.0, 5e3, 5e4].map(|p| [0.0, -10.0].map(|d| (t, p, d))).concat()).collect();
            v.push(space(&format!("{} ladder of {name}", k.name()), n * base.len(), move |i, c| {
                let x = &gases[i as usize % n];
                let (t, p, d) = base[i as usize / n];
                let l = [&tl, &pl, &dl][var];
                let mut m = k.make();
                m.set(&comp(x));
                for &y in l {
                    let (t, p, d) = if var == 0 { (y, p, d) } else if var == 1 { (t, y, d) } else { (t, p, y) };
                    for &flag in if flags.len() > 1 { &[0, 1, 2][..] } else { flags } {
                        if !contract(&mut *m, x, t, p, d, flag, true, c) {
                            return;
                        }
                    }
                }
            }));
        }
        let (pr, tr) = (readings(if q { 20_000 } else { 100_000 }), per(1, 700, 100));
        let (np, nt) = (pr.len().div_ceil(256), tr.len().div_ceil(256));
        v.push(space(&format!("{} pressures as read, temperatures in hundredths", k.name()), common().len() * (np + nt), move |i, c| {
            let (x, b) = (&common()[i as usize / (np + nt)], i as usize % (np + nt));
            let mut m = k.make();
            m.set(&comp(x));
            let (l, fix) = if b < np { (&pr[b * 256..(b * 256 + 256).min(pr.len())], [100.0, 200.0, 300.0]) } else { (&tr[(b - np) * 256..((b - np) * 256 + 256).min(tr.len())], [101.325, 4000.0, 30_000.0]) };
            for &y in l {
                for f in fix {
                    for &flag in if flags.len() > 1 { &[0, 1, 2][..] } else { flags } {
                        let (t, p) = if b < np { (f, y) } else { (y, f) };
                        if !contract(&mut *m, x, t, p, 0.0, flag, true, c) {
                            return;
                        }
                    }
                }
            }
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------ D03

/// p(d') < p for all d' on a grid strictly between lo and d
fn no_root_between(k: Kind, x: &X, t: f64, p: f64, lo: f64, d: f64, n: usize) -> Option<f64> {
    for j in 1..n {
        let dd = lo + (d * (1.0 - 1e-6) - lo) * j as f64 / n as f64;
        if dd <= lo {
            continue;
        }
        let r = k.reference(x, t, dd);
        if r.p.v > p * (1.0 + 1e-9) {
            return Some(dd);
        }
    }
    None
}

fn d03(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for k in KINDS {
        let mut gases = pipeline();
        gases.extend(named().into_iter().filter(|g| ["nist-demo", "gulf-coast", "amarillo", "ekofisk", "high-n2", "high-co2", "traces"].contains(&g.0)).map(|g| g.1));
        for base in [pure(0), named()[2].1, named()[4].1] {
            for i in 0..21 {
                for f in [1e-6, 1e-4, 5e-4, 1e-3] {
                    let mut x = base.map(|v| v * (1.0 - f));
                    x[i] += f;
                    gases.push(x);
                }
            }
        }
        let dense: Vec<X> = named().into_iter().filter(|g| ["nist-demo", "gulf-coast", "amarillo", "ekofisk", "high-n2", "high-co2"].contains(&g.0)).map(|g| g.1).chain([pure(0)]).collect();
        let coarse_p = [vec![1e-3, 0.1, 10.0, 101.325], lin(500.0, 35_000.0, if q { 30 } else { 139 })].concat();
        let sets = [
            ("natural gases", gases, lin(250.0, 350.0, if q { 21 } else { 201 }), coarse_p),
            ("ladder of pressures", dense.clone(), lin(250.0, 350.0, if q { 41 } else { 401 }), rungs(1e-3, 35_000.0, if q { 0.01 } else { 0.002 })),
            ("ladder of temperatures", dense, lin(250.0, 350.0, if q { 2001 } else { 20001 }), [vec![1e-3, 0.1, 10.0, 101.325], lin(500.0, 35_000.0, 24)].concat()),
        ];
        for (sn, gases, ts, ps) in sets {
        let nt = ts.len();
        v.push(space(&format!("{} {sn}", k.name()), gases.len() * nt, move |i, c| {
            let x = &gases[i as usize / nt];
            let t = ts[i as usize % nt];
            let mut m = k.make();
            m.set(&comp(x));
            m.set_t(t);
            let mut last = 0.0;
            for &p in &ps {
                m.set_p(p);
                m.set_d(0.0);
                let e = m.density(0);
                c.op(1);
                c.trace();
                let d = m.d();
                c.state(&[t, p, d]);
                if e != 0 {
                    c.fail("fails", format!("{}: fails with code {e}", at(k, x, t, p, 0.0, 0)));
                    return;
                }
                if !(d > last) {
                    c.fail("monotone", format!("{}: density {d:?}, at the next lower pressure {last:?}", at(k, x, t, p, 0.0, 0)));
                    return;
                }
                let (err, tol, _) = root_error(k, x, t, p, d);
                if !(err <= tol) {
                    c.fail("root", format!("{}: density {d:?} is off by {err:e}", at(k, x, t, p, 0.0, 0)));
                    return;
                }
                if let Some(dd) = no_root_between(k, x, t, p, last, d, 4) {
                    c.fail("not gas", format!("{}: density {d:?}, but the pressure is already reached below {dd:?}", at(k, x, t, p, 0.0, 0)));
                    return;
                }
                last = d;
            }
            c.outcome("all converged to the gas root");
            c.sample(|| format!("{} T={t} x={{{}}}: {} pressures", k.name(), show(x), ps.len()));
        }));
        }
    }
    for k in KINDS {
        let (pr, tr) = (readings(35_000), per(250, 350, 100));
        let (np, nt) = (pr.len().div_ceil(128), tr.len().div_ceil(128));
        v.push(space(&format!("{} pressures as read, temperatures in hundredths", k.name()), 2 * (np + nt), move |i, c| {
            let (x, b) = (&common()[i as usize / (np + nt)], i as usize % (np + nt));
            let mut m = k.make();
            m.set(&comp(x));
            let mut find = |t: f64, p: f64, last: f64, c: &mut Ctx| -> Option<f64> {
                m.set_t(t);
                m.set_p(p);
                m.set_d(0.0);
                let e = m.density(0);
                c.op(1);
                c.trace();
                let d = m.d();
                c.state(&[t, p, d]);
                let w = || at(k, x, t, p, 0.0, 0);
                if e != 0 {
                    c.fail("fails", format!("{}: fails with code {e}", w()));
                    return None;
                }
                if !(d > last) {
                    c.fail("monotone", format!("{}: density {d:?}, at the next lower pressure {last:?}", w()));
                    return None;
                }
                let (err, tol, _) = root_error(k, x, t, p, d);
                if !(err <= tol) {
                    c.fail("root", format!("{}: density {d:?} is off by {err:e}", w()));
                    return None;
                }
                if last == 0.0 {
                    if let Some(dd) = no_root_between(k, x, t, p, last, d, 20) {
                        c.fail("not gas", format!("{}: density {d:?}, but the pressure is already reached below {dd:?}", w()));
                        return None;
                    }
                }
                Some(d)
            };
            if b < np {
                for t in [250.0, 273.15, 288.15, 300.0] {
                    let mut last = 0.0;
                    for &p in &pr[b * 128..(b * 128 + 129).min(pr.len())] {
                        match find(t, p, last, c) {
                            Some(d) => last = d,
                            None => return,
                        }
                    }
                }
            } else {
                let b = (b - np) * 128;
                for &t in &tr[b..(b + 128).min(tr.len())] {
                    for p in [101.325, 5000.0, 12_000.0, 35_000.0] {
                        if find(t, p, 0.0, c).is_none() {
                            return;
                        }
                    }
                }
            }
            c.outcome("all converged to the gas root");
        }));
    }
    // GERG finds the gas root of any mixture well inside its gas region
    let mut xs: Vec<X> = (0..21).map(pure).collect();
    xs.extend(binaries(if q { &[0.5] } else { &[0.5, 0.1, 0.9] }));
    xs.extend(named().into_iter().map(|g| g.1));
    let fr = if q { lin(0.45, 1.6, 8) } else { lin(0.4, 2.0, 33) };
    let nt = fr.len();
    v.push(space("GERG gas region of pures, binaries, named gases", xs.len() * nt, move |i, c| {
        let x = &xs[i as usize / nt];
        let (rd, tr) = refmodel::gerg_reducing(x);
        let t = tr * fr[i as usize % nt];
        if t < 60.0 {
            return;
        }
        // first maximum of the isotherm, up to 2.5 times the reducing density
        let mut pmax: f64 = 0.0;
        let mut sub = false;
        // (very cold vapours end at a small fraction of the reducing density)
        for q in log(1e-8, 0.0095, 60).into_iter().chain((1..=250).map(|j| j as f64 / 100.0)) {
            let r = refmodel::gerg(x, t, rd * q);
            if r.p.v < pmax {
                sub = true;
                break;
            }
            pmax = pmax.max(r.p.v);
        }
        let mut m = Kind::Gerg.make();
        m.set(&comp(x));
        m.set_t(t);
        for f in [1e-6, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7] {
            let p = pmax * f;
            m.set_p(p);
            m.set_d(0.0);
            let e = m.density(0);
            c.op(1);
            c.trace();
            let d = m.d();
            c.state(&[t, p, d]);
            let w = || at(Kind::Gerg, x, t, p, 0.0, 0);
            if e != 0 {
                c.fail("fails", format!("{}: fails with code {e} at {f} of the {} pressure", w(), if sub { "spinodal" } else { "limiting" }));
                return;
            }
            let (err, tol, _) = root_error(Kind::Gerg, x, t, p, d);
            if !(err <= tol) {
                c.fail("root", format!("{}: density {d:?} is off by {err:e}", w()));
                return;
            }
            if let Some(dd) = no_root_between(Kind::Gerg, x, t, p, 0.0, d, 12) {
                c.fail("not gas", format!("{}: density {d:?}, but the pressure is already reached below {dd:?}", w()));
                return;
            }
        }
        c.outcome(if sub { "subcritical gas region" } else { "supercritical" });
        c.sample(|| format!("GERG T={t} x={{{}}}", show(x)));
    }));
    v
}

// ------------------------------------------------------------------------------------------ D04

/// the state's density is an estimate of itself
fn again(m: &mut dyn Eos, x: &X, t: f64, d: f64, c: &mut Ctx) -> bool {
    let k = m.kind();
    let r = k.reference(x, t, d);
    if !(r.dp_dd.v > 1e-4 * k.r() * t && r.p.v > 1e-12) {
        c.outcome("unstable or tensile state, skipped");
        return true;
    }
    let p = r.p.v;
    let kk = d * r.dp_dd.v / p;
    let tol = (1e-9 + 1e-14 * kk).min(1e-7) + 1e-11 / kk + 1e-12 * r.p.s / (d * r.dp_dd.v);
    for &flag in if k == Kind::Gerg { &[0, 1, 2][..] } else { &[0][..] } {
        m.set_p(p);
        m.set_d(-d);
        let e = m.density(flag);
        c.op(1);
        c.trace();
        c.state(&[t, p, d]);
        let w = || at(k, x, t, p, -d, flag);
        if flag > 0 && e != 0 {
            // the two-phase check may reject the state
            c.outcome("rejected by the requested check");
            continue;
        }
        if e != 0 {
            c.fail("fails", format!("{}: fails with code {e} although the estimate is a solution", w()));
            return false;
        }
        let err = (m.d() - d).abs() / d;
        c.max("density error/tolerance", err / tol);
        if !(err <= tol) {
            c.fail("root", format!("{}: returns {:?}", w(), m.d()));
            return false;
        }
        c.outcome("found again");
    }
    true
}

fn d04(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for k in KINDS {
        let sets: Vec<(&str, Vec<X>, Vec<f64>, Vec<f64>)> = vec![
            ("pures", (0..21).map(pure).collect(), lin(70.0, 700.0, if q { 64 } else { 316 }), [vec![1e-9, 1e-4], lin(0.01, 2.8, if q { 56 } else { 280 })].concat()),
            ("binaries", binaries(&[0.5, 0.05, 0.95]), if q { vec![120.0, 180.0, 250.0, 300.0, 450.0] } else { lin(80.0, 600.0, 27) }, [vec![1e-6], lin(0.02, 2.6, if q { 14 } else { 60 })].concat()),
            ("named", named().into_iter().map(|g| g.1).collect(), lin(100.0, 500.0, if q { 41 } else { 201 }), lin(0.01, 2.7, if q { 40 } else { 150 })),
            ("natural gas box", pipeline(), if q { vec![160.0, 250.0, 300.0, 350.0] } else { lin(150.0, 400.0, 26) }, if q { vec![1e-4, 0.1, 0.5, 1.0, 1.6, 2.3] } else { lin(0.01, 2.5, 30) }),
        ];
        for (n, xs, ts, dl) in sets {
            let nt = ts.len();
            v.push(space(&format!("{} {n}", k.name()), xs.len() * nt, move |i, c| {
                let x = &xs[i as usize / nt];
                let t = ts[i as usize % nt];
                let rd = refmodel::gerg_reducing(x).0;
                let mut m = k.make();
                m.set(&comp(x));
                m.set_t(t);
                for &q in &dl {
                    if !again(&mut *m, x, t, q * rd, c) {
                        return;
                    }
                }
                c.sample(|| format!("{} T={t} x={{{}}}: {} densities", k.name(), show(x), dl.len()));
            }));
        }
        // ladders of temperature and density
        let gases = Arc::new(ladder_gases());
        let n = gases.len();
        let step = if q { 0.004 } else { 0.0005 };
        for (name, tl, dl) in [
            ("temperatures", rungs(60.0, 2000.0, step), if q { vec![1e-6, 1e-3, 0.05, 0.3, 0.8, 1.3, 2.0, 2.6] } else { [vec![1e-6, 1e-3], lin(0.05, 2.8, 56)].concat() }),
            ("densities", if q { vec![110.0, 180.0, 250.0, 290.0, 330.0, 450.0, 700.0] } else { lin(80.0, 700.0, 63) }, rungs(1e-9, 2.8, step)),
        ] {
            let gases = gases.clone();
            let nt = tl.len();
            v.push(space(&format!("{} ladder of {name}", k.name()), n * nt, move |i, c| {
                let (x, t) = (&gases[i as usize / nt], tl[i as usize % nt]);
                let rd = refmodel::gerg_reducing(x).0;
                let mut m = k.make();
                m.set(&comp(x));
                m.set_t(t);
                for &q in &dl {
                    if !again(&mut *m, x, t, q * rd, c) {
                        return;
                    }
                }
            }));
        }
        let (tl, dl) = (per(60, 700, 100), per(0, 30, 1000));
        let (nt, nd) = (tl.len().div_ceil(128), dl.len().div_ceil(128));
        v.push(space(&format!("{} temperatures in hundredths, densities in thousandths", k.name()), common().len() * (nt + nd), move |i, c| {
            let (x, b) = (&common()[i as usize / (nt + nd)], i as usize % (nt + nd));
            let rd = refmodel::gerg_reducing(x).0;
            let mut m = k.make();
            m.set(&comp(x));
            let mut list: Vec<(f64, f64)> = vec![];
            if b < nt {
                for &t in &tl[b * 128..(b * 128 + 128).min(tl.len())] {
                    list.extend([0.1, 1.0, 2.2].map(|f| (t, f * rd)));
                }
            } else {
                let b = (b - nt) * 128;
                for &d in &dl[b.max(1)..(b + 128).min(dl.len())] {
                    list.extend([200.0, 300.0, 450.0].map(|t| (t, d)));
                }
            }
            for (t, d) in list {
                m.set_t(t);
                if !again(&mut *m, x, t, d, c) {
                    return;
                }
            }
        }));
        // what is not an estimate does not matter
        let mut xs: Vec<X> = named().into_iter().map(|g| g.1).collect();
        xs.extend((0..21).map(pure));
        let ts = lin(110.0, 450.0, if q { 18 } else { 86 });
        let ps = log(1e-2, 2e5, if q { 18 } else { 60 });
        let nt = ts.len();
        let flags: &'static [i32] = if k == Kind::Gerg { &[0, 1, 2] } else { &[0] };
        v.push(space(&format!("{} leftovers that are no estimate", k.name()), xs.len() * nt, move |i, c| {
            let x = &xs[i as usize / nt];
            let t = ts[i as usize % nt];
            for &p in &ps {
                for &flag in flags {
                    let mut first = None;
                    for d0 in [0.0, -0.0, f64::NAN, 5e-324, 1e-16, -1e-16, 1e-9, 1e-3, 0.5, 5.0, 12.0, 30.0, 1e4, f64::INFINITY] {
                        let mut m = k.make();
                        m.set(&comp(x));
                        m.set_t(t);
                        m.set_p(p);
                        m.set_d(d0);
                        let e = m.density(flag);
                        c.op(1);
                        c.trace();
                        let d = m.d();
                        c.state(&[t, p, d0, d]);
                        match first {
                            None => first = Some((e, d)),
                            Some((e1, d1)) => {
                                if e != e1 || !((d - d1).abs() <= 1e-12 * d1.abs()) {
                                    c.fail("leftover", format!("{}: code {e}, density {d:?}; without a leftover code {e1}, density {d1:?}", at(k, x, t, p, d0, flag)));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            c.sample(|| format!("{} T={t} x={{{}}}: {} pressures x 14 leftovers", k.name(), show(x), ps.len()));
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------ D05

const POS: [(usize, &str); 5] = [(DPDD, "dp_dd"), (D2PDTD, "d2p_dtd"), (CV, "cv"), (CP, "cp"), (W, "w")];

fn d05(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let sets: Vec<(&str, Vec<X>, Vec<f64>, Vec<f64>)> = vec![
        ("pures", (0..21).map(pure).collect(), lin(70.0, 700.0, if q { 64 } else { 316 }), log(1e-2, 3e5, if q { 50 } else { 200 })),
        ("binaries", binaries(&[0.5, 0.1, 0.9]), if q { lin(100.0, 500.0, 5) } else { lin(80.0, 600.0, 27) }, log(1.0, 1e5, if q { 16 } else { 50 })),
        ("named", named().into_iter().map(|g| g.1).collect(), lin(90.0, 500.0, if q { 42 } else { 206 }), log(1e-2, 3e5, if q { 50 } else { 200 })),
        ("ladder of pressures", ladder_gases(), if q { vec![110.0, 180.0, 250.0, 290.0, 330.0, 450.0] } else { lin(90.0, 600.0, 52) }, rungs(1e-2, 3e5, if q { 0.005 } else { 0.001 })),
        ("ladder of temperatures", ladder_gases(), rungs(70.0, 2000.0, if q { 0.003 } else { 0.0005 }), log(1.0, 1e5, if q { 11 } else { 36 })),
        ("natural gas box", pipeline(), if q { vec![140.0, 180.0, 220.0, 300.0] } else { lin(140.0, 400.0, 27) }, log(10.0, 5e4, if q { 10 } else { 30 })),
        ("pressures as read", common(), vec![180.0, 288.15, 300.0], readings(if q { 10_000 } else { 40_000 })),
        ("temperatures in hundredths", common(), per(90, 500, 100), vec![101.325, 4000.0, 30_000.0]),
    ];
    for (n, xs, ts, ps) in sets {
        let nt = ts.len();
        v.push(space(&format!("checked mode: {n}"), xs.len() * nt, move |i, c| {
            let x = &xs[i as usize / nt];
            let t = ts[i as usize % nt];
            let mut m = Kind::Gerg.make();
            m.set(&comp(x));
            m.set_t(t);
            let mut f = Kind::Gerg.make();
            f.set(&comp(x));
            for &p in &ps {
                // the liquid search makes the same check; given an estimate it starts there
                for (d0, mode) in [(0.0, 1), (-12.0, 1), (-12.0, 2), (0.0, 2)] {
                    let liquid = mode == 2 && d0 == 0.0;
                    m.set_p(p);
                    m.set_d(d0);
                    let e0 = m.density(0);
                    let dd0 = m.d();
                    m.set_d(d0);
                    let e1 = m.density(mode);
                    let dd1 = m.d();
                    let o1 = m.out();
                    c.op(2);
                    c.trace();
                    c.state(&[t, p, d0, dd0, dd1]);
                    let w = || at(Kind::Gerg, x, t, p, d0, mode);
                    if liquid && e1 != 0 {
                        continue; // see the next space
                    }
                    if e0 != 0 && !liquid {
                        c.outcome("plain mode fails");
                        if e1 == 0 {
                            c.fail("checked", format!("{}: success although the plain mode fails", w()));
                            return;
                        }
                        continue;
                    }
                    // the found state, evaluated by another instance
                    f.set_t(t);
                    let dd = if liquid { dd1 } else { dd0 };
                    f.set_d(dd);
                    let pp = f.properties();
                    let o = f.out();
                    c.op(1);
                    let r = refmodel::gerg(x, t, dd);
                    let marg = [(o[DPDD], r.dp_dd.s), (o[D2PDTD], r.d2p_dtd.s), (o[CV], r.cv.s), (pp, r.p.s)];
                    if marg.iter().any(|(v, s)| v.abs() < 1e-10 * s) {
                        c.outcome("borderline state, skipped");
                        continue;
                    }
                    let bad: Vec<&str> = POS.iter().filter(|(k, _)| !(o[*k] > 0.0)).map(|x| x.1).chain((!(pp > 0.0)).then_some("p")).collect();
                    let good = bad.is_empty();
                    c.outcome(if good { "checked mode succeeds" } else { "checked mode rejects" });
                    if good != (e1 == 0) {
                        c.fail("checked", format!("{}: code {e1}; the state found by the plain mode or this one (density {dd:?}) has {}", w(), if good { "only positive quantities".to_string() } else { format!("non-positive {bad:?}") }));
                        return;
                    }
                    if good {
                        if !((dd1 - dd).abs() <= 1e-12 * dd) {
                            c.fail("density", format!("{}: density {dd1:?}, plain mode {dd0:?}", w()));
                            return;
                        }
                        for n in 0..15 {
                            let mag = if n == H || n == U || n == G { o[n].abs() + r.u.s } else if n == S { r.s.s } else { o[n].abs() };
                            // dp/dD vanishes at the limit of stability: quantities divided by it are ill-conditioned
                            let cond = 1.0 + r.dp_dd.s / o[DPDD].abs() + r.cv.s / o[CV].abs();
                            let cond = cond * (1.0 + r.p.s / pp.abs());
                            if !((o1[n] - o[n]).abs() <= 1e-10 * cond * mag + 1e-290) {
                                c.fail("properties", format!("{}: after success {} = {:?}, properties of the state give {:?}", w(), ON[n], o1[n], o[n]));
                                return;
                            }
                        }
                    } else {
                        let want = p / Kind::Gerg.r() / t;
                        if !((dd1 - want).abs() <= 1e-13 * want) {
                            c.fail("ideal", format!("{}: rejected and left density {dd1:?}, the ideal gas has {want:?}", w()));
                            return;
                        }
                    }
                }
            }
            c.sample(|| format!("T={t} x={{{}}}: {} pressures x 4 estimates and modes", show(x), ps.len()));
        }));
    }
    // liquid search
    let mut xs: Vec<X> = (0..21).map(pure).collect();
    xs.extend(named().into_iter().map(|g| g.1));
    let nb = xs.len();
    xs.extend(binaries(if q { &[0.5] } else { &[0.5, 0.1, 0.9] }));
    let fr = if q { lin(0.45, 1.5, 43) } else { lin(0.45, 1.8, 136) };
    let pgrid = if q { log(1.0, 2e4, 60) } else { log(0.1, 1e5, 240) };
    let nt = fr.len();
    v.push(space("liquid search", xs.len() * nt, move |i, c| {
        let x = &xs[i as usize / nt];
        let (rd, tr) = refmodel::gerg_reducing(x);
        let t = tr * fr[i as usize % nt];
        if t < 60.0 {
            return;
        }
        let is_pure = (i as usize / nt) < 21;
        let binary = i as usize / nt >= nb;
        // the isotherm
        let iso: Vec<(f64, f64)> = (1..=400).map(|j| rd * j as f64 / 100.0).map(|d| (d, refmodel::gerg(x, t, d).p.v)).collect();
        let mut m = Kind::Gerg.make();
        m.set(&comp(x));
        m.set_t(t);
        let spin = (1..400).find(|&j| iso[j].1 < iso[j - 1].1).map(|j| {
            let gas = iso[j - 1].1;
            let mut k = j;
            while k + 1 < 400 && iso[k + 1].1 <= iso[k].1 {
                k += 1;
            }
            (gas, iso[k].1)
        });
        for &p in &pgrid {
            // crossings of p
            let mut up = vec![];
            let mut prev = (0.0, 0.0);
            let mut down = 0;
            for &(d, pp) in &iso {
                if prev.1 < p && pp >= p {
                    up.push((prev.0, d));
                }
                if prev.1 >= p && pp < p {
                    down += 1;
                }
                prev = (d, pp);
            }
            // exactly one stable root, or exactly gas and liquid
            let (two, lo, hi) = match (up.len(), down) {
                (1, 0) => (false, up[0].0, up[0].1),
                (2, 1) => (true, up[1].0, up[1].1),
                _ => {
                    c.outcome("other isotherm shape, skipped");
                    continue;
                }
            };
            m.set_p(p);
            m.set_d(0.0);
            let e = m.density(2);
            c.op(1);
            c.trace();
            let d = m.d();
            c.state(&[t, p, d]);
            let right = e == 0 && d >= lo * 0.999 && d <= hi * 1.001;
            let f = t / tr;
            let w = || at(Kind::Gerg, x, t, p, 0.0, 2);
            let key = format!("{}: {}", if two { "two roots" } else { "one root" }, if e != 0 { "error" } else if right { "found" } else { "other" });
            c.outcome(&key);
            // how far between the pressures at the two limits of stability, 0 at the liquid's, 1 at the gas'
            let s = spin.map_or(0.0, |(g, l)| (p - l.max(0.0)) / (g - l.max(0.0)));
            // supercritical, or liquid compressed above the gas spinodal, or liquid and gas near the critical temperature
            // (for colder liquids the search may fail, and says so)
            let must = if two { is_pure && (0.87..=0.97).contains(&f) && (0.5..=0.97).contains(&s) } else { f >= 1.1 || lo > rd && f >= 0.83 && !binary };
            // success has to be the liquid
            let may = if two { !binary && f <= if is_pure { 0.81 } else { 0.85 } } else { lo > rd && (f >= 0.6 || !binary) };
            if must && !right {
                c.fail("liquid", format!("{}: code {e}, density {d:?}; the {} is between {lo:?} and {hi:?}", w(), if two { "liquid root" } else { "only root" }));
                return;
            }
            if may && e == 0 && !right && d < 4.0 * rd {
                c.fail("liquid", format!("{}: density {d:?}; the {} is between {lo:?} and {hi:?}", w(), if two { "liquid root" } else { "only root" }));
                return;
            }
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------ D06

/// Success where there is something to find: every pressure of one isotherm.
fn found(k: Kind, x: &X, t: f64, ps: &[f64], c: &mut Ctx) -> bool {
    let (rd, tr) = refmodel::gerg_reducing(x);
    let mut ds: Vec<f64> = log(1e-7, 0.01, 24).into_iter().map(|q| q * rd).collect();
    ds.extend(lin(0.02, 3.0, 299).into_iter().map(|q| q * rd));
    if k == Kind::Detail && x[14] + x[19] > 0.4 {
        return true;
    }
    let st: Vec<(f64, bool)> = ds
        .iter()
        .map(|d| {
            let r = k.reference(x, t, *d);
            // DETAIL never starts again elsewhere: no part of its isotherm may be nearly flat
            (r.p.v, r.dp_dd.v > if k == Kind::Detail { 0.5 * 8.31 * t } else { 0.0 })
        })
        .collect();
    let one = st.iter().all(|s| s.1);
    if k == Kind::Detail && !one {
        c.outcome("DETAIL isotherm that is not monotone, not claimed");
        return true;
    }
    let mut m = k.make();
    m.set(&comp(x));
    m.set_t(t);
    for &p in ps {
        let root = st.windows(2).find(|w| w[0].1 && w[1].1 && w[0].0 <= p && p <= w[1].0);
        if root.is_none() {
            c.outcome("no stable density on the grid");
            continue;
        }
        m.set_p(p);
        m.set_d(0.0);
        let e = m.density(0);
        c.op(1);
        c.trace();
        c.state(&[t, p, m.d()]);
        if e != 0 && t < 1.03 * tr {
            // near the critical temperature Newton's method has isolated points of failure
            let near = [0.97, 0.98, 0.99, 0.995, 1.005, 1.01, 1.02, 1.03];
            let ok = near.iter().filter(|f| {
                m.set_p(p * **f);
                m.set_d(0.0);
                m.density(0) == 0
            });
            if ok.count() >= 4 {
                c.outcome("an isolated failure near the critical temperature");
                continue;
            }
        }
        if e != 0 {
            c.fail("not found", format!("{}: error {e}, although the isotherm has a stable density there", at(k, x, t, p, 0.0, 0)));
            return false;
        }
        let d = m.d();
        if !sound(k, x, t, p, 0.0, 0, d, c) {
            return false;
        }
        c.outcome(if one { "found, monotone isotherm" } else { "found, isotherm with a loop" });
    }
    true
}

fn d06(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for k in KINDS {
        // reduced temperatures from which the algorithm is reliable
        let lo: f64 = if k == Kind::Gerg { 0.92 } else { 1.6 };
        let mut nat = pipeline();
        nat.extend(named().into_iter().map(|g| g.1));
        let mut tern = vec![];
        for t in triples() {
            tern.push(mix(&[(t[0], 0.5), (t[1], 0.3), (t[2], 0.2)]));
            if !q {
                tern.push(mix(&[(t[0], 0.05), (t[1], 0.15), (t[2], 0.8)]));
                tern.push(mix(&[(t[0], 0.8), (t[1], 0.02), (t[2], 0.18)]));
            }
        }
        let off: Vec<X> = [0.991, 1.009].iter().flat_map(|s| (0..21).map(pure).map(move |x| x.map(|f| f * s))).collect();
        // a third of the steps up to 1.1
        let steps = |n: usize| if k == Kind::Gerg { [log(lo, 1.1, n / 3), log(1.12, 6.0, n - n / 3)].concat() } else { log(lo, 6.0, n) };
        let hi: f64 = if k == Kind::Gerg { 7e4 } else { 3.5e4 };
        let ps = |n: usize| log(1e-3, hi, n);
        let sets: Vec<(&str, Vec<X>, Vec<f64>, Vec<f64>)> = vec![
            ("pures", (0..21).map(pure).collect(), steps(if q { 120 } else { 1200 }), ps(if q { 60 } else { 400 })),
            ("binaries", binaries(&[0.02, 0.1, 0.5, 0.9, 0.98]), steps(if q { 10 } else { 60 }), ps(if q { 36 } else { 90 })),
            ("ternaries", tern, steps(if q { 6 } else { 24 }), ps(if q { 30 } else { 60 })),
            ("natural and named gases", nat, steps(if q { 10 } else { 80 }), ps(if q { 40 } else { 120 })),
            ("supports of 5 to 17 components", strided(), steps(if q { 3 } else { 20 }), ps(30)),
            ("one component dominating", dominated(), steps(if q { 10 } else { 60 }), ps(40)),
            ("sums off one", off, steps(if q { 20 } else { 120 }), ps(40)),
            ("ladder of pressures", common(), steps(if q { 8 } else { 40 }), rungs(0.1, hi, if q { 0.005 } else { 0.001 })),
        ];
        for (n, xs, qs, ps) in sets {
            let nt = qs.len();
            v.push(space(&format!("{} {n}", k.name()), xs.len() * nt, move |i, c| {
                let x = &xs[i as usize / nt];
                let t = qs[i as usize % nt] * refmodel::gerg_reducing(x).1;
                if t >= if k == Kind::Gerg { 20.0 } else { 200.0 } {
                    found(k, x, t, &ps, c);
                }
                c.sample(|| format!("{} T={t} K, {} pressures, x={{{}}}", k.name(), ps.len(), show(x)));
            }));
        }
    }
    v
}
