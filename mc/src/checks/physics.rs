//! Thermodynamic consistency (V03), ideal-gas limit (V04), cross-model agreement (V05), molar mass (K04).
use super::values::{derived, rungs};
use crate::api::*;
use crate::engine::*;
use crate::gas::*;
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "V03",
            spaces: v03,
            assumptions: &["derivatives are compared with sixth-order central differences of the implementation's own outputs; deviations below about 1e-8 of the magnitude of the quantity are not seen here (V01 and V02 see them)"],
        },
        Check { id: "V04", spaces: v04, assumptions: &["ideal-gas behaviour is observed at densities 0 and 1e-12 to 1e-6 mol/l"] },
        Check { id: "V05", spaces: v05, assumptions: &["agreement bounds were measured on the pinned commit over the same box and rounded up"] },
        Check { id: "K04", spaces: k04, assumptions: &["molar masses of the reference tables are those of the pinned commit, cross-checked with the chemical formulas within 0.02 g/mol"] },
    ]
}

#[derive(Clone, Copy)]
struct St {
    p: f64,
    o: Out,
}
fn eval(m: &mut dyn Eos, t: f64, d: f64) -> St {
    m.set_t(t);
    m.set_d(d);
    let p = m.properties();
    St { p, o: m.out() }
}
/// sixth- and fourth-order central differences from values at -3h..3h
fn diff(v: &[f64; 6], h: f64) -> (f64, f64) {
    let (a, b, c) = (v[3] - v[2], v[4] - v[1], v[5] - v[0]);
    ((45.0 * a - 9.0 * b + c) / (60.0 * h), (8.0 * a - b) / (12.0 * h))
}

fn consistency(k: Kind, x: &X, ts: &[f64], ds: &[f64], c: &mut Ctx) {
    let mut m = k.make();
    if m.set(&comp(x)) != 0 {
        c.fail("rejected", format!("{}: composition rejected: {}", k.name(), show(x)));
        return;
    }
    let r = k.r();
    for &t in ts {
        for &d in ds {
            let s = eval(&mut *m, t, d);
            let q = k.reference(x, t, d); // only its magnitudes are used
            let o = &s.o;
            c.op(13);
            c.trace();
            c.state(&[t, d, s.p]);
            let at = || format!("{} at T={t:?} K, D={d:?} mol/l, x = {{{}}}", k.name(), show(x));
            // algebraic relations
            let rel = [
                ("z = p/(DRT)", o[Z], s.p / (d * r * t), q.z.s),
                ("h = u + p/D", o[H], o[U] + s.p / d, q.h.s),
                ("g = h - T s", o[G], o[H] - t * o[S], q.h.s + t * q.s.s),
            ];
            for (n, a, b, mag) in rel {
                if !((a - b).abs() <= 1e-12 * mag) {
                    c.fail(n, format!("{}: {n} violated: {a:?} against {b:?}", at()));
                    return;
                }
            }
            if let Some((key, msg)) = derived(k, o, t, d) {
                c.fail(&key, format!("{}: {msg}", at()));
                return;
            }
            // derivatives
            let (hd, ht) = (1e-3 * d, 1e-3 * t);
            let mut fd = [St { p: 0.0, o: [0.0; 15] }; 6];
            let mut ft = fd;
            for (i, kk) in [-3.0, -2.0, -1.0, 1.0, 2.0, 3.0].iter().enumerate() {
                fd[i] = eval(&mut *m, t, d + kk * hd);
                ft[i] = eval(&mut *m, t + kk * ht, d);
            }
            let g = |f: &[St; 6], w: &dyn Fn(&St) -> f64| -> [f64; 6] { [w(&f[0]), w(&f[1]), w(&f[2]), w(&f[3]), w(&f[4]), w(&f[5])] };
            let pp = |s: &St| s.p;
            let mut list: Vec<(&str, f64, [f64; 6], f64, f64, f64)> = vec![
                // name, reported, samples, step, magnitude of the function, magnitude of the derivative
                ("dp/dD", o[DPDD], g(&fd, &pp), hd, q.p.s, q.dp_dd.s),
                ("d2p/dD2", o[D2PDD2], g(&fd, &|s| s.o[DPDD]), hd, q.dp_dd.s, q.d2p_dd2.s),
                ("dp/dT", o[DPDT], g(&ft, &pp), ht, q.p.s, q.dp_dt.s),
                ("cv = dU/dT", o[CV], g(&ft, &|s| s.o[U]), ht, q.u.s, q.cv.s),
                ("cv/T = dS/dT", o[CV] / t, g(&ft, &|s| s.o[S]), ht, q.s.s, q.cv.s / t),
                ("dS/dD = -(dp/dT)/D^2", -o[DPDT] / d / d, g(&fd, &|s| s.o[S]), hd, q.s.s, q.dp_dt.s / d / d),
                ("dU/dD = (p - T dp/dT)/D^2", (s.p - t * o[DPDT]) / d / d, g(&fd, &|s| s.o[U]), hd, q.u.s, (q.p.s + t * q.dp_dt.s) / d / d),
            ];
            if k == Kind::Gerg {
                list.push(("d2p/dTdD", o[D2PDTD], g(&fd, &|s| s.o[DPDT]), hd, q.dp_dt.s, q.d2p_dtd.s));
                list.push(("d2p/dDdT", o[D2PDTD], g(&ft, &|s| s.o[DPDD]), ht, q.dp_dd.s, q.d2p_dtd.s));
            }
            for (n, v, f, h, ms, ds) in list {
                let (d6, d4) = diff(&f, h);
                let tol = 5.0 * (d6 - d4).abs() + 1e-13 * ms / h + 2e-10 * ds;
                let e = (v - d6).abs();
                c.max("difference/tolerance", e / tol);
                c.max("tolerance/magnitude", tol / ds);
                if !(e <= tol) {
                    c.fail(n, format!("{}: reported {n} = {v:?}, from neighbouring states {d6:?} (tolerance {tol:e})", at()));
                    return;
                }
            }
            c.outcome(if o[DPDD] > 0.0 { "stable" } else { "unstable" });
        }
    }
    c.sample(|| format!("{} x={{{}}} over {} temperatures x {} densities", k.name(), show(x), ts.len(), ds.len()));
}

fn v03(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let mut sets: Vec<(&str, Vec<X>, Vec<f64>, Vec<f64>)> = vec![
        ("pures", (0..21).map(pure).collect(), [lin(70.0, 700.0, if q { 64 } else { 400 }), vec![1000.0, 1900.0]].concat(), [vec![1e-8, 1e-4], lin(0.01, 2.9, if q { 59 } else { 180 })].concat()),
        ("binaries", binaries(if q { &[0.5, 0.03, 0.97] } else { &[0.5, 0.03, 0.97, 0.2, 0.8, 1e-5] }), if q { vec![130.0, 200.0, 290.0, 400.0, 600.0] } else { lin(100.0, 700.0, 25) }, if q { vec![1e-3, 0.1, 0.3, 0.7, 1.1, 1.6, 2.2] } else { vec![1e-6, 1e-3, 0.05, 0.3, 0.6, 1.1, 1.6, 2.2, 2.8] }),
        ("natural gas box", pipeline(), if q { lin(240.0, 360.0, 7) } else { lin(230.0, 400.0, 35) }, if q { vec![1e-3, 0.05, 0.1, 0.2, 0.4, 0.6, 0.9, 1.3] } else { lin(0.01, 1.6, 16) }),
        ("named", named().into_iter().map(|g| g.1).collect(), lin(150.0, 500.0, if q { 36 } else { 141 }), lin(0.02, 2.5, if q { 32 } else { 125 })),
        ("supports of 20 and 21", subsets(20).into_iter().chain(subsets(21)).map(of_mask).collect(), vec![200.0, 330.0], vec![0.1, 0.7, 1.5]),
    ];
    if !q {
        sets.push(("ternaries", triples().into_iter().map(|t| mix(&[(t[0], 0.5), (t[1], 0.3), (t[2], 0.2)])).collect(), vec![150.0, 290.0, 500.0], vec![0.01, 0.4, 1.2, 2.2]));
    }
    for k in KINDS {
        for (n, xs, ts, dl) in &sets {
            let (xs, ts, dl) = (Arc::new(xs.clone()), ts.clone(), dl.clone());
            v.push(space(&format!("{} {n}", k.name()), xs.len(), move |i, c| {
                let x = &xs[i as usize];
                let rd = refmodel::gerg_reducing(x).0;
                let ds: Vec<f64> = dl.iter().map(|q| q * rd).collect();
                consistency(k, x, &ts, &ds, c)
            }));
        }
        // ladders: every window of temperature or density wider than a step
        let mut few: Vec<X> = (0..21).map(pure).collect();
        few.extend(named().into_iter().map(|g| g.1));
        let step = if q { 3e-3 } else { 1e-3 };
        let (tl, dl) = (rungs(70.0, 2000.0, step), rungs(1e-3, 60.0, step));
        let (nt, nd) = (tl.len().div_ceil(64), dl.len().div_ceil(64));
        v.push(space(&format!("{} ladders of temperature and density", k.name()), few.len() * (nt + nd), move |i, c| {
            let (g, b) = (i as usize / (nt + nd), i as usize % (nt + nd));
            let x = &few[g];
            let rd = refmodel::gerg_reducing(x).0;
            if b < nt {
                consistency(k, x, &tl[b * 64..(b * 64 + 64).min(tl.len())], &[1e-3 * rd, 0.2 * rd, 0.9 * rd, 2.1 * rd], c)
            } else {
                let b = b - nt;
                consistency(k, x, &[180.0, 310.0], &dl[b * 64..(b * 64 + 64).min(dl.len())], c)
            }
        }));
        let (tl, dl) = (per(60, if q { 700 } else { 2000 }, 100), per(0, 30, 1000));
        let (nt, nd) = (tl.len().div_ceil(64), dl.len().div_ceil(64));
        v.push(space(&format!("{} temperatures in hundredths, densities in thousandths", k.name()), common().len() * (nt + nd), move |i, c| {
            let (x, b) = (&common()[i as usize / (nt + nd)], i as usize % (nt + nd));
            let rd = refmodel::gerg_reducing(x).0;
            if b < nt {
                consistency(k, x, &tl[b * 64..(b * 64 + 64).min(tl.len())], &[0.2 * rd, 1.8 * rd], c)
            } else {
                let b = (b - nt) * 64;
                consistency(k, x, &[250.0, 300.0], &dl[b.max(1)..(b + 64).min(dl.len())], c)
            }
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------ V04

fn ideal_case(k: Kind, x: &X, ts: &[f64], c: &mut Ctx) {
    let r = k.r();
    let mut m = k.make();
    if m.set(&comp(x)) != 0 {
        c.fail("rejected", format!("{}: composition rejected: {}", k.name(), show(x)));
        return;
    }
    let mut pures: Vec<(usize, f64, Box<dyn Eos>)> = vec![];
    for i in 0..21 {
        if x[i] > 0.0 {
            let mut p = k.make();
            p.set(&comp(&pure(i)));
            pures.push((i, x[i], p));
        }
    }
    for &t in ts {
        let at = |d: f64| format!("{} at T={t:?} K, D={d:?} mol/l, x = {{{}}}", k.name(), show(x));
        for d in [0.0, 1e-12, 1e-9, 1e-6] {
            let s = eval(&mut *m, t, d);
            let q = k.reference(x, t, d);
            c.op(1);
            c.trace();
            c.state(&[t, d, s.o[S], s.o[H]]);
            let o = &s.o;
            for n in 0..15 {
                if n != JT && !o[n].is_finite() {
                    c.fail(ON[n], format!("{}: {} = {:?}", at(d), ON[n], o[n]));
                    return;
                }
            }
            // distance from the ideal gas that the residual terms can account for
            let res = 2.0 * (q.dp_dd.s / (r * t) - 1.0).abs() + (q.dp_dt.s / (d * r) - 1.0).abs().min(1e300);
            let res = if d == 0.0 { 0.0 } else { res };
            if res > 0.1 {
                continue; // not dilute enough at this temperature
            }
            let tol = 1e-11 + 4.0 * res;
            let w2 = 1000.0 * o[CP] / o[CV] * r * t / o[MM];
            let list = [
                ("z -> 1", o[Z], 1.0, 1.0),
                ("p -> DRT", s.p, d * r * t, d * r * t + 1e-300),
                ("dp/dD -> RT", o[DPDD], r * t, r * t),
                ("dp/dT -> DR", o[DPDT], d * r, d * r + 1e-300),
                ("cp - cv -> R", o[CP] - o[CV], r, o[CP].abs() + r),
                ("h - u -> RT", o[H] - o[U], r * t, q.h.s + r * t),
                ("w^2 -> cp/cv RT/M", o[W] * o[W], w2, w2),
                ("kappa -> cp/cv", o[KAPPA], o[CP] / o[CV], o[CP] / o[CV]),
            ];
            for (n, a, b, mag) in list {
                if !((a - b).abs() <= tol * mag) {
                    c.fail(n, format!("{}: {n}: {a:?} against {b:?}", at(d)));
                    return;
                }
            }
            if d == 0.0 && !(o[CV] >= 1.4999 * r) {
                c.fail("cv", format!("{}: cv = {:?} below 3/2 R", at(d), o[CV]));
                return;
            }
            // ideal mixing of the model's own pure gases, same T and D
            let (mut u, mut h, mut cv, mut cp, mut en, mut su, mut ss) = (0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0);
            for (i, xi, p) in pures.iter_mut() {
                let a = eval(&mut **p, t, d);
                c.op(1);
                let qi = k.reference(&pure(*i), t, d);
                // a component that is not dilute enough on its own would not be ideal
                let ri = if d == 0.0 { 0.0 } else { (qi.dp_dd.s / (r * t) - 1.0).abs() + (qi.dp_dt.s / (d * r) - 1.0).abs() };
                su += *xi * (qi.u.s + r * t) * (1e-12 + 10.0 * ri);
                ss += *xi * (qi.s.s + 10.0 * r) * (1e-12 + 10.0 * ri);
                u += *xi * a.o[U];
                h += *xi * a.o[H];
                cv += *xi * a.o[CV];
                cp += *xi * a.o[CP];
                en += *xi * (a.o[S] - r * xi.ln());
            }
            su += (q.u.s + r * t) * tol;
            ss += (q.s.s + 10.0 * r) * tol;
            for (n, a, b, e) in [("u", o[U], u, su), ("h", o[H], h, su), ("cv", o[CV], cv, ss), ("cp", o[CP], cp, ss), ("s", o[S], en, ss)] {
                if !((a - b).abs() <= e) {
                    c.fail(n, format!("{}: ideal mixing violated: {n} = {a:?}, from the pure gases {b:?} (tolerance {e:e})", at(d)));
                    return;
                }
            }
        }
    }
    c.sample(|| format!("{} x={{{}}} at {} temperatures", k.name(), show(x), ts.len()));
}

fn v04(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for k in KINDS {
        v.push(space(&format!("{} reference state and pure ideal gases", k.name()), 21, move |i, c| {
            let i = i as usize;
            let r = k.r();
            let mut m = k.make();
            m.set(&comp(&pure(i)));
            let t0 = 298.15;
            let d0 = 101.325 / r / t0;
            let s = eval(&mut *m, t0, 0.0);
            c.op(1);
            c.max("reference enthalpy", s.o[H].abs());
            if !(s.o[H].abs() < 1e-3) {
                c.fail("h0", format!("{} {}: ideal-gas enthalpy at 298.15 K is {:?} J/mol", k.name(), NAMES[i], s.o[H]));
                return;
            }
            for d in [1e-10, 1e-8] {
                let s = eval(&mut *m, t0, d);
                c.op(1);
                c.trace();
                c.state(&[i as f64, d, s.o[S]]);
                let e = s.o[S] + r * (d / d0).ln();
                c.max("reference entropy", e.abs());
                let q = k.reference(&pure(i), t0, d);
                let tol = 1e-5 + 10.0 * r * ((q.dp_dd.s / r / t0 - 1.0).abs() + (q.dp_dt.s / d / r - 1.0).abs());
                if !(e.abs() < tol) {
                    c.fail("s0", format!("{} {}: ideal-gas entropy at 298.15 K, 101.325 kPa is {e:?} J/(mol K)", k.name(), NAMES[i]));
                    return;
                }
            }
            // both models have the same ideal gases
            let other = if k == Kind::Detail { Kind::Gerg } else { Kind::Detail };
            let mut n = other.make();
            n.set(&comp(&pure(i)));
            for t in lin(60.0, 2000.0, 195) {
                let a = eval(&mut *m, t, 0.0).o;
                let b = eval(&mut *n, t, 0.0).o;
                c.op(2);
                c.trace();
                c.state(&[i as f64, t, a[CP]]);
                c.max("ideal cp difference / cp", ((a[CP] - b[CP]) / a[CP]).abs());
                c.max("ideal h difference / cp T", ((a[H] - b[H]) / a[CP] / t).abs());
                c.max("ideal w difference / w", ((a[W] - b[W]) / a[W]).abs());
                if !((a[CP] - b[CP]).abs() <= 2e-5 * a[CP] && (a[CV] - b[CV]).abs() <= 2e-5 * a[CV] && (a[H] - b[H]).abs() <= 1e-4 * a[CP] * t && (a[W] - b[W]).abs() <= 2e-4 * a[W]) {
                    c.fail("models", format!("{} ideal gas at T={t:?}: the models disagree: cp {:?} / {:?}, h {:?} / {:?}, w {:?} / {:?}", NAMES[i], a[CP], b[CP], a[H], b[H], a[W], b[W]));
                    return;
                }
                if (NAMES[i] == "helium" || NAMES[i] == "argon") && !((a[CV] - 1.5 * r).abs() < 1e-4) {
                    c.fail("monatomic", format!("{} {} ideal cv = {:?} at T={t:?}", k.name(), NAMES[i], a[CV]));
                    return;
                }
            }
        }));
        let ts = if q { vec![60.0, 120.0, 200.0, 250.0, 298.15, 400.0, 700.0, 1200.0, 2000.0] } else { lin(60.0, 2000.0, 98) };
        let mut sets = vec![
            ("pures", (0..21).map(pure).collect::<Vec<X>>()),
            ("binaries", binaries(if q { &[0.5, 0.02, 0.9, 1e-6] } else { &[0.5, 0.02, 0.9, 1e-6, 0.3, 0.7, 1e-3, 1e-9, 1.0 - 1e-6] })),
            ("ternaries", triples().into_iter().map(|t| mix(&[(t[0], 0.5), (t[1], 0.3), (t[2], 0.2)])).collect()),
            ("large supports", subsets(19).into_iter().chain(subsets(20)).chain(subsets(21)).map(of_mask).collect()),
            ("natural gases", pipeline()),
            ("named", named().into_iter().map(|g| g.1).collect()),
        ];
        if !q {
            sets.push(("4-component supports", subsets(4).into_iter().map(of_mask).collect()));
        }
        for (n, xs) in sets {
            let ts = ts.clone();
            v.push(space(&format!("{} {n}", k.name()), xs.len(), move |i, c| ideal_case(k, &xs[i as usize], &ts, c)));
        }
        let mut few: Vec<X> = (0..21).map(pure).collect();
        few.extend(named().into_iter().map(|g| g.1));
        few.extend(subsets(20).into_iter().map(of_mask));
        let tl = rungs(60.0, 5000.0, if q { 2e-3 } else { 3e-4 });
        let nb = tl.len().div_ceil(64);
        v.push(space(&format!("{} temperature ladder", k.name()), few.len() * nb, move |i, c| {
            let b = i as usize % nb * 64;
            ideal_case(k, &few[i as usize / nb], &tl[b..(b + 64).min(tl.len())], c)
        }));
        let tl = per(60, if q { 1000 } else { 3000 }, 100);
        let nb = tl.len().div_ceil(64);
        v.push(space(&format!("{} temperatures in hundredths", k.name()), common().len() * nb, move |i, c| {
            let b = i as usize % nb * 64;
            ideal_case(k, &common()[i as usize / nb], &tl[b..(b + 64).min(tl.len())], c)
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------ V05

fn v05(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let ts = lin(270.0, 350.0, if q { 41 } else { 161 });
    let ps = [vec![0.1, 10.0, 101.325], lin(500.0, 12_000.0, if q { 93 } else { 231 })].concat();
    let mut gases: Vec<X> = pipeline().into_iter().filter(in_v05_box).collect();
    gases.extend(named().into_iter().filter(|g| ["nist-demo", "gulf-coast", "amarillo", "ekofisk", "high-n2", "high-co2", "traces"].contains(&g.0)).map(|g| g.1));
    // a small amount of every component in otherwise simple gases
    for base in [pure(0), named()[2].1, named()[4].1, named()[5].1] {
        for i in 0..21 {
            for f in [1e-4, 5e-4, 1e-3, 2e-3] {
                let mut x = base.map(|v| v * (1.0 - f));
                x[i] += f;
                gases.push(x);
            }
        }
    }
    let mut v = vec![space("natural gases", gases.len(), move |i, c| agree(&gases[i as usize], &ts, &ps, c))];
    let gas = common()[1];
    let tl = per(270, 350, 100);
    v.push(space("temperatures in hundredths", tl.len().div_ceil(64), move |i, c| {
        let b = i as usize * 64;
        agree(&gas, &tl[b..(b + 64).min(tl.len())], &[101.325, 1000.0, 5000.0, 12_000.0], c)
    }));
    let pl: Vec<f64> = readings(12_000);
    v.push(space("pressures as read", pl.len().div_ceil(64), move |i, c| {
        let b = i as usize * 64;
        agree(&gas, &[273.15, 288.15, 300.0, 350.0], &pl[b..(b + 64).min(pl.len())], c)
    }));
    v
}
fn agree(x: &X, ts: &[f64], ps: &[f64], c: &mut Ctx) {
        let mut a = Kind::Detail.make();
        let mut b = Kind::Gerg.make();
        a.set(&comp(x));
        b.set(&comp(x));
        for &t in ts {
            // ideal-gas enthalpies, so that only the real-gas part is compared
            let ha = eval(&mut *a, t, 0.0).o[H];
            let hb = eval(&mut *b, t, 0.0).o[H];
            for &p in ps {
                let mut res = vec![];
                for m in [&mut a, &mut b] {
                    m.set_t(t);
                    m.set_p(p);
                    m.set_d(0.0);
                    let e = m.density(0);
                    if e != 0 {
                        c.fail("convergence", format!("{} fails ({e}) at T={t:?} K, p={p:?} kPa, x = {{{}}}", m.kind().name(), show(x)));
                        return;
                    }
                    m.properties();
                    res.push((m.d(), m.out()));
                    c.op(2);
                }
                c.trace();
                let (da, oa) = res[0];
                let (db, ob) = res[1];
                c.state(&[t, p, da, db]);
                let rt = 8.314 * t;
                let dev = [
                    ("density", (da - db).abs() / db, LIM[0]),
                    ("speed of sound", (oa[W] - ob[W]).abs() / ob[W], LIM[1]),
                    ("cp", (oa[CP] - ob[CP]).abs() / ob[CP], LIM[2]),
                    ("cv", (oa[CV] - ob[CV]).abs() / ob[CV], LIM[3]),
                    ("residual enthalpy / RT", ((oa[H] - ha) - (ob[H] - hb)).abs() / rt, LIM[4]),
                    ("isentropic exponent", (oa[KAPPA] - ob[KAPPA]).abs() / ob[KAPPA], LIM[5]),
                ];
                for (n, v, lim) in dev {
                    // the models differ by their virial coefficients: in proportion to pressure
                    let lim = lim * (p / 12_000.0 + 0.002);
                    c.max(n, v / (p / 12_000.0 + 0.002));
                    if !(v <= lim) {
                        c.fail(n, format!("T={t:?} K, p={p:?} kPa, x = {{{}}}: {n} of DETAIL and GERG differ by {v:e} (limit {lim:e}); densities {da:?}, {db:?}", show(x)));
                        return;
                    }
                }
            }
        }
        c.sample(|| format!("x={{{}}} over {} T x {} p", show(x), ts.len(), ps.len()));
}
const LIM: [f64; 6] = [0.016, 0.008, 0.045, 0.032, 0.056, 0.02];
fn in_v05_box(x: &X) -> bool {
    x[0] >= 0.7 && x[1] <= 0.2 && x[2] <= 0.2 && x[3] <= 0.1 && x[4] <= 0.04
}

// ------------------------------------------------------------------------------------------ K04

fn formula() -> [f64; 21] {
    let (c, h, n, o, s) = (12.0107, 1.00794, 14.0067, 15.9994, 32.065);
    let al = |k: f64| k * c + (2.0 * k + 2.0) * h;
    [
        al(1.0), 2.0 * n, c + 2.0 * o, al(2.0), al(3.0), al(4.0), al(4.0), al(5.0), al(5.0), al(6.0), al(7.0), al(8.0), al(9.0), al(10.0), 2.0 * h, 2.0 * o,
        c + o, 2.0 * h + o, 2.0 * h + s, 4.002602, 39.948,
    ]
}

fn k04(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for k in KINDS {
        v.push(space(&format!("{} component molar masses", k.name()), 21, move |i, c| {
            let mut m = k.make();
            m.set(&comp(&pure(i as usize)));
            let mm = m.molar_mass();
            c.op(1);
            c.trace();
            c.state(&[mm]);
            let f = formula()[i as usize];
            c.max("difference from formula", (mm - f).abs());
            if !((mm - f).abs() < 0.02) {
                c.fail("formula", format!("{}: molar mass of {} is {mm:?}, formula gives {f:?}", k.name(), NAMES[i as usize]));
            }
        }));
        let mut xs: Vec<X> = (0..21).map(pure).collect();
        xs.extend(binaries(&[0.5, 0.1, 0.9, 1e-3, 1e-9, 1e-15, 1e-17]));
        xs.extend(triples().into_iter().map(|t| mix(&[(t[0], 0.5), (t[1], 0.3), (t[2], 0.2)])));
        for s in if q { 18..=21 } else { 4..=21 } {
            xs.extend(subsets(s).into_iter().map(of_mask));
        }
        xs.extend(named().into_iter().map(|g| g.1));
        let n = xs.len();
        let block = 16;
        v.push(space(&format!("{} mixtures", k.name()), n.div_ceil(block), move |bi, c| {
            // one instance for a whole block: every composition follows every kind of other one
            let mut m = k.make();
            let mut f = k.make_ffi();
            for x in &xs[bi as usize * block..((bi as usize + 1) * block).min(n)] {
                for scale in [1.0, 0.992, 1.009] {
                    let y = x.map(|v| v * scale);
                    let want: f64 = (0..21).map(|i| y[i] * k.mm_table()[i]).sum();
                    let mut got = vec![];
                    if m.set(&comp(&y)) != 0 || f.set(&comp(&y)) != 0 {
                        c.fail("rejected", format!("{}: composition rejected: {}", k.name(), show(&y)));
                        return;
                    }
                    for h in [&mut m, &mut f] {
                        h.set_t(300.0);
                        h.set_d(0.5);
                        got.push(("molar mass call", h.molar_mass()));
                        got.push(("field after molar mass call", h.out()[MM]));
                        h.properties();
                        got.push(("with the properties", h.out()[MM]));
                    }
                    c.op(4);
                    c.trace();
                    c.state(&[want]);
                    for (w, g) in got {
                        if !((g - want).abs() <= 1e-13 * want) {
                            c.fail("mm", format!("{}: molar mass ({w}) {g:?}, expected {want:?}, x = {{{}}}", k.name(), show(&y)));
                            return;
                        }
                    }
                }
                // fractions written directly, not normalized
                for scale in [0.0, 1e-12, 0.5, 100.0] {
                    let y = x.map(|v| v * scale);
                    let want: f64 = (0..21).map(|i| y[i] * k.mm_table()[i]).sum();
                    m.set_x(&y);
                    let g = m.molar_mass();
                    c.op(1);
                    if !((g - want).abs() <= 1e-13 * want) || !((m.out()[MM] - want).abs() <= 1e-13 * want) {
                        c.fail("mm", format!("{}: molar mass {g:?}, expected {want:?}, x = {{{}}} (written directly)", k.name(), show(&y)));
                        return;
                    }
                }
            }
            c.sample(|| format!("{} block of {block} mixtures x 3 sums x native and C", k.name()));
        }));
        let light = move |h: &mut dyn Eos, y: &X, c: &mut Ctx| -> bool {
            let want: f64 = (0..21).map(|i| y[i] * k.mm_table()[i]).sum();
            if h.set(&comp(y)) != 0 {
                c.fail("rejected", format!("{}: composition rejected: {}", k.name(), show(y)));
                return false;
            }
            let g = h.molar_mass();
            c.op(1);
            c.trace();
            if !((g - want).abs() <= 1e-13 * want && h.out()[MM] == g) {
                c.fail("mm", format!("{}: molar mass {g:?} (field {:?}), expected {want:?}, x = {{{}}}", k.name(), h.out()[MM], show(y)));
                return false;
            }
            true
        };
        v.push(space(&format!("{} all supports", k.name()), 1 << 11, move |bi, c| {
            let (mut m, mut f) = (k.make(), k.make_ffi());
            for lo in 0..1u32 << 10 {
                let mask = (bi as u32) << 10 | lo;
                let x = if mask == 0 { continue } else { of_mask(mask) };
                if !light(&mut *m, &x, c) || (lo & 7 == 0 && !light(&mut *f, &x, c)) {
                    return;
                }
            }
            c.state_h(bi | (k as u64) << 40);
        }));
        v.push(space(&format!("{} all signs", k.name()), 1 << 11, move |bi, c| {
            let (mut m, mut f) = (k.make(), k.make_ffi());
            for lo in 0..1u32 << 10 {
                let Some(x) = signed((bi as u32) << 10 | lo) else { continue };
                let want: f64 = (0..21).map(|i| x[i] * k.mm_table()[i]).sum();
                let mag: f64 = (0..21).map(|i| x[i].abs() * k.mm_table()[i]).sum();
                for (h, on) in [(&mut m, true), (&mut f, lo & 7 == 0)] {
                    if !on {
                        continue;
                    }
                    let code = h.set(&comp(&x));
                    let g = h.molar_mass();
                    c.op(1);
                    c.trace();
                    if code != 0 || !((g - want).abs() <= 1e-13 * mag && h.out()[MM] == g) {
                        c.fail("mm", format!("{}: code {code}, molar mass {g:?}, expected {want:?}, x = {{{}}}", k.name(), show(&x)));
                        return;
                    }
                }
            }
            c.state_h(bi | 1 << 41 | (k as u64) << 40);
        }));
        v.push(space(&format!("{} fraction ladder of all ordered pairs", k.name()), 420, move |i, c| {
            let (a, b) = (i as usize / 20, i as usize % 20);
            let b = if b >= a { b + 1 } else { b };
            let (mut m, mut f) = (k.make(), k.make_ffi());
            for w in rungs(1e-18, 1.0, if q { 0.02 } else { 0.002 }) {
                let x = mix(&[(a, 1.0 - w.min(1.0)), (b, w)]);
                if !light(&mut *m, &x, c) || !light(&mut *f, &x, c) {
                    return;
                }
                c.state(&[w, i as f64]);
            }
        }));
    }
    v
}
