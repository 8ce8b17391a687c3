//! Compositions: acceptance (K01), mapping to components (K02), normalization (K03).
use super::hist::{apply, ident, near, obs, Op};
use crate::api::*;
use crate::engine::*;
use crate::gas::*;
use super::values::rungs;
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "K01", spaces: k01, assumptions: &["sums within 1e-14 of the limits 0.99 and 1.01 may be decided either way (rounding); sums of a magnitude between 1e-14 and 1e-9 are rejected, with either code"] },
        Check { id: "K02", spaces: k02, assumptions: &["the order of components in the fraction arrays is that of the fields of Composition, as documented"] },
        Check { id: "K03", spaces: k03, assumptions: &["sums below the smallest normal number may be refused instead"] },
    ]
}

/// Some(code) if the specification fixes the code; None if only acceptance/rejection or nothing is fixed
fn want(s: f64) -> (Option<bool>, Option<i32>) {
    if s.is_nan() {
        return (Some(false), Some(2));
    }
    if (s - 0.99).abs() < 1e-14 || (s - 1.01).abs() < 1e-14 {
        return (None, None);
    }
    if (s - 1.0).abs() < 0.01 {
        return (Some(true), Some(0));
    }
    let code = if s.abs() < 1e-14 {
        Some(1)
    } else if s.abs() > 1e-9 {
        Some(2)
    } else {
        None
    };
    (Some(false), code)
}

fn judge(who: &str, code: i32, s: f64, x: &X, c: &mut Ctx) -> bool {
    let (acc, wc) = want(s);
    let bad = match acc {
        Some(a) if a != (code == 0) => true,
        _ => wc.is_some_and(|w| w != code),
    };
    if bad {
        let names = ["accepted", "empty", "bad sum"];
        let exp = match wc {
            Some(w) => names[w as usize],
            None => "rejected",
        };
        c.fail("acceptance", format!("{who}: code {code} ({}) for a sum of {s:?}, expected: {exp}; x = {{{}}}", names.get(code as usize).unwrap_or(&"?"), show(x)));
        return false;
    }
    c.outcome(["accepted", "empty", "bad sum"].get(code as usize).unwrap_or(&"?"));
    true
}

fn sums() -> Vec<f64> {
    let mut v = vec![0.0, 1e-300, 5e-324, 1e-16, 1e-11, 9e-11, 1.1e-10, 1e-9, 1e-8, 1e-3, 0.1, 0.5, 0.9, 0.95, 1.0, 1.05, 1.1, 1.5, 2.0, 10.0, 99.0, 100.0, 101.0, 1e5, 1e300, f64::MAX, f64::INFINITY, f64::NAN];
    for th in [0.98, 0.985, 0.99, 0.995, 0.999, 1.0, 1.001, 1.005, 1.01, 1.015, 1.02] {
        for e in 2..=14 {
            v.push(th + 10f64.powi(-e));
            v.push(th - 10f64.powi(-e));
        }
        v.push(th);
    }
    let n: Vec<f64> = v.iter().filter(|s| **s != 0.0).map(|s| -s).collect();
    v.extend(n);
    v
}

/// distributions of a sum over the components
fn spread(s: f64, kind: usize) -> X {
    let mut x = [0.0; 21];
    match kind {
        0..=20 => x[kind] = s,
        21 => x = [s / 21.0; 21],
        22 => {
            // cancelling
            x[3] = 2.0 * s;
            x[18] = -s;
        }
        23 => {
            for (i, v) in full().iter().enumerate() {
                x[i] = v * s;
            }
        }
        _ => {
            let (i, j) = pairs()[kind - 24];
            x[i] = s * 0.75;
            x[j] = s * 0.25;
        }
    }
    x
}

fn k01(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let ss = Arc::new(sums());
    let ns = ss.len();
    let s1 = ss.clone();
    let nd = 24 + 210;
    v.push(space("check() over sums and distributions", ns * nd, move |i, c| {
        let x = spread(s1[i as usize / nd], i as usize % nd);
        let s: f64 = x.iter().sum();
        let cm = comp(&x);
        let code = ccode(&cm.check());
        c.op(1);
        c.trace();
        c.state(&[s, (i as usize % nd) as f64]);
        judge("check()", code, s, &x, c);
        // checking does not change the composition
        let y = uncomp(&cm);
        if (0..21).any(|n| !ident(x[n], y[n])) {
            c.fail("changed", format!("check() changes x = {{{}}}", show(&x)));
        }
        c.sample(|| format!("sum {s:?}, x = {{{}}}", show(&x)));
    }));
    // the models, natively and through C, from several prior states
    for k in KINDS {
        for ffi in [false, true] {
            let ss = ss.clone();
            let dist: Vec<usize> = if q { vec![0, 1, 2, 9, 13, 17, 20, 21, 22, 23, 24, 60, 150] } else { (0..nd).collect() };
            let nd = dist.len();
            let who = format!("{}{}", k.name(), if ffi { " through C" } else { "" });
            v.push(space(&format!("{who} set_composition over sums, distributions and prior states"), ns * nd * 3, move |i, c| {
                let i = i as usize;
                let x = spread(ss[i / 3 / nd], dist[i / 3 % nd]);
                let s: f64 = x.iter().sum();
                let mut m = if ffi { k.make_ffi() } else { k.make() };
                m.set_t(310.0);
                m.set_p(3000.0);
                if i % 3 > 0 {
                    m.set(&comp(&full()));
                    m.set_d(2.0);
                }
                if i % 3 > 1 {
                    m.properties();
                }
                let before = obs(&*m);
                let code = m.set(&comp(&x));
                c.op(1);
                c.trace();
                c.state(&[s, i as f64, ffi as u32 as f64]);
                if !judge(&who, code, s, &x, c) {
                    return;
                }
                let after = obs(&*m);
                let same = ident(before.t, after.t) && ident(before.p, after.p) && ident(before.d, after.d) && (0..15).all(|n| ident(before.out[n], after.out[n]));
                if !same {
                    c.fail("state", format!("{who}: set_composition (code {code}) changes more than the composition; x = {{{}}}", show(&x)));
                    return;
                }
                let hold = if code == 0 { x } else { before.x };
                if !ffi && (0..21).any(|n| !ident(hold[n], after.x[n])) {
                    c.fail("composition", format!("{who}: after code {code} the model holds {{{}}}, expected {{{}}}", show(&after.x), show(&hold)));
                    return;
                }
                if code != 0 && i % 3 > 0 {
                    // later results are those of the composition set before
                    let mut f = if ffi { k.make_ffi() } else { k.make() };
                    f.set_t(310.0);
                    f.set_p(3000.0);
                    f.set(&comp(&full()));
                    f.set_d(2.0);
                    for o in [Op::Prop, Op::Mm, Op::Dens(0)] {
                        let (a, b) = (apply(&mut *m, &o), apply(&mut *f, &o));
                        c.op(1);
                        if !near(a, b, 0.0, 1e-12) || (0..15).any(|n| !near(m.out()[n], f.out()[n], 1e-3, 1e-12)) {
                            c.fail("later", format!("{who}: after the rejected {{{}}}, {} gives {a:?} instead of {b:?}", show(&x), o.show()));
                            return;
                        }
                    }
                }
            }));
        }
    }
    // every support, sums on both sides of the limits
    v.push(space("acceptance of all signs", 1 << 11, move |bi, c| {
        let (mut a, mut b) = (Kind::Detail.make_ffi(), Kind::Gerg.make());
        for lo in 0..1u32 << 10 {
            let Some(x) = signed((bi as u32) << 10 | lo) else { continue };
            for (f, want) in [(1.0, 0), (-1.0, 2), (0.5, 2), (1.0099, 0), (-1.0099, 2), (1e-14, 1), (-1e-14, 1)] {
                let y = x.map(|v| v * f);
                let cm = comp(&y);
                let mut got = vec![ccode(&cm.check())];
                if lo & 7 == 0 {
                    got.extend([a.set(&cm), b.set(&cm)]);
                }
                c.op(got.len() as u64);
                c.trace();
                if got.iter().any(|g| *g != want) {
                    c.fail("acceptance", format!("codes {got:?} (check(), DETAIL through C, GERG) for a sum of {:?}, expected {want}; x = {{{}}}", y.iter().sum::<f64>(), show(&y)));
                    return;
                }
            }
        }
        c.state_h(bi | 6 << 50);
    }));
    v.push(space("check() over all supports", 1 << 11, move |bi, c| {
        for lo in 0..1u32 << 10 {
            let mask = (bi as u32) << 10 | lo;
            if mask == 0 {
                continue;
            }
            let b = of_mask(mask);
            for f in [0.9899, 0.9901, 0.999999, 1.0, 1.00001, 1.0099, 1.0101] {
                let x = b.map(|v| v * f);
                let s: f64 = x.iter().sum();
                c.op(1);
                c.trace();
                if !judge("check()", ccode(&comp(&x).check()), s, &x, c) {
                    return;
                }
            }
            if lo & 63 == 0 {
                for k in KINDS {
                    for f in [0.9899, 1.0, 1.0101] {
                        let x = b.map(|v| v * f);
                        let s: f64 = x.iter().sum();
                        c.op(2);
                        if !judge(k.name(), k.make().set(&comp(&x)), s, &x, c) || !judge("C", k.make_ffi().set(&comp(&x)), s, &x, c) {
                            return;
                        }
                    }
                }
            }
        }
        c.state_h(bi | 2 << 50);
    }));
    // sums, every window wider than a step
    v.push(space("check() over a ladder of sums", 24 + 210, move |i, c| {
        let mut l = lin(-2.0, 3.0, if q { 5001 } else { 500_001 });
        l.extend(lin(0.98, 1.02, if q { 4001 } else { 400_001 }));
        for e in rungs(1e-17, 1e-3, 0.05) {
            l.extend([0.99 - e, 0.99 + e, 1.01 - e, 1.01 + e, 1.0 - e, 1.0 + e, e, -e]);
        }
        l.extend(rungs(1e-320, 1e308, if q { 0.3 } else { 0.01 }));
        for s in l {
            let x = spread(s, i as usize);
            let s: f64 = x.iter().sum();
            c.op(1);
            c.trace();
            c.state(&[s, i as f64]);
            if !judge("check()", ccode(&comp(&x).check()), s, &x, c) {
                return;
            }
        }
    }));
    // special values at every position of an otherwise valid gas
    let sp = [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 1e17, -1e17, 0.5, -0.5, 1.0];
    v.push(space("special values in every position and pair of positions", 21 * 21 * sp.len() * sp.len(), move |i, c| {
        let i = i as usize;
        let (a, b) = (i / sp.len() / sp.len() / 21, i / sp.len() / sp.len() % 21);
        let (u, w) = (sp[i / sp.len() % sp.len()], sp[i % sp.len()]);
        let mut x = full();
        x[a] = u;
        x[b] = w;
        // a sum that depends on the order of summation is outside the specification
        let s: f64 = x.iter().sum();
        let r: f64 = x.iter().rev().sum();
        let big = x.iter().any(|v| v.is_finite() && v.abs() > 1e10);
        let inf = x.iter().any(|v| !v.is_finite());
        let s = if inf { f64::NAN } else { s };
        if big && !inf && (s - r).abs() > 1e-3 {
            c.outcome("sum depends on rounding, skipped");
            return;
        }
        if big && !inf && want(s).0 == Some(true) {
            c.outcome("sum depends on rounding, skipped");
            return;
        }
        let (acc, _) = want(s);
        for (who, code) in [("check()", ccode(&comp(&x).check())), ("DETAIL", Kind::Detail.make().set(&comp(&x))), ("GERG", Kind::Gerg.make().set(&comp(&x)))] {
            c.op(1);
            let ok = if big && !inf { code != 0 } else { acc.is_none() || (acc == Some(true)) == (code == 0) };
            let ok = ok && (!inf || code == 2);
            if !ok {
                c.fail("acceptance", format!("{who}: code {code} for a sum of {s:?}; x = {{{}}}", show(&x)));
                return;
            }
        }
        c.trace();
        c.outcome("special values judged");
        c.state_h(i as u64 | 1 << 50);
    }));
    v
}

// ------------------------------------------------------------------------------------------ K02

fn distinct(k: usize) -> X {
    // 21 different fractions; rotated by k
    let mut x = [0.0; 21];
    let s: f64 = (1..=21).map(|i| (i * i) as f64).sum();
    for i in 0..21 {
        let j = (i + k) % 21 + 1;
        x[i] = (j * j) as f64 / s;
    }
    x
}

fn k02(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let mut xs: Vec<X> = (0..21).map(pure).collect();
    xs.extend((0..21).map(distinct));
    xs.extend(named().into_iter().map(|g| g.1));
    xs.extend((0..21).map(|i| {
        let mut x = full();
        x[i] = 0.0;
        let s: f64 = x.iter().sum();
        x.iter_mut().for_each(|v| *v /= s);
        x
    }));
    xs.push([1.0 / 21.0; 21]);
    xs.extend(binaries(if q { &[0.25] } else { &[0.25, 0.001, 0.6] }));
    let n = xs.len();
    let xs = Arc::new(xs);
    for k in KINDS {
        // every ordered pair: the second replaces the first completely
        let x1 = xs.clone();
        v.push(space(&format!("{} all ordered pairs of compositions", k.name()), n * n, move |i, c| {
            let (a, b) = (&x1[i as usize / n], &x1[i as usize % n]);
            let mut m = k.make();
            m.set(&comp(a));
            if i % 2 == 1 {
                m.set_t(300.0);
                m.set_d(3.0);
                m.pressure();
            }
            m.set(&comp(b));
            c.op(2);
            c.trace();
            c.state_h(i | (k as u64) << 50);
            let x = m.x();
            for j in 0..21 {
                if x[j] != b[j] {
                    c.fail("fraction", format!("{}: after {{{}}} and then {{{}}} the fraction of {} is {:?}", k.name(), show(a), show(b), NAMES[j], x[j]));
                    return;
                }
            }
            c.outcome("replaced completely");
        }));
        // every support after another one, fraction by fraction
        v.push(space(&format!("{} all supports, one after the other", k.name()), 1 << 11, move |bi, c| {
            let mut m = k.make();
            for lo in 0..1u32 << 10 {
                let mask = (bi as u32) << 10 | lo;
                if mask == 0 {
                    continue;
                }
                let b = of_mask(mask);
                let code = m.set(&comp(&b));
                c.op(1);
                c.trace();
                let x = m.x();
                if code != 0 || (0..21).any(|j| x[j] != b[j]) {
                    c.fail("fraction", format!("{}: set to {{{}}} (code {code}), the model holds {{{}}}", k.name(), show(&b), show(&x)));
                    return;
                }
            }
            c.state_h(bi | 5 << 50 | (k as u64) << 55);
        }));
        // all signs, one after the other
        v.push(space(&format!("{} all signs, one after the other", k.name()), 1 << 11, move |bi, c| {
            let mut m = k.make();
            for lo in 0..1u32 << 10 {
                let Some(b) = signed((bi as u32) << 10 | lo) else { continue };
                let code = m.set(&comp(&b));
                c.op(1);
                c.trace();
                let x = m.x();
                if code != 0 || (0..21).any(|j| x[j] != b[j]) {
                    c.fail("fraction", format!("{}: set to {{{}}} (code {code}), the model holds {{{}}}", k.name(), show(&b), show(&x)));
                    return;
                }
            }
            c.state_h(bi | 7 << 50 | (k as u64) << 55);
        }));
        // hardly different compositions: the second replaces the first however close it is
        let mut mms = [0.0; 21];
        for (j, w) in mms.iter_mut().enumerate() {
            let mut x = [0.0; 21];
            x[j] = 1.0;
            *w = k.reference(&x, 300.0, 0.01).mm.v;
        }
        let close: Vec<X> = named().into_iter().map(|g| g.1).chain([[1.0 / 21.0; 21], full()]).chain((0..3).map(distinct)).collect();
        let ladder = Arc::new(crate::checks::values::rungs(1e-19, 9e-3, if q { 0.05 } else { 0.005 }));
        v.push(space(&format!("{} hardly different compositions", k.name()), close.len() * 21 * 21, move |i, c| {
            let i = i as usize;
            let (a, from, to) = (&close[i / 441], i / 21 % 21, i % 21);
            let mut m = k.make();
            let mut h = k.make_ffi();
            for &e in ladder.iter() {
                // from one component to another, or just one component
                let mut b = *a;
                if from != to {
                    b[from] -= e;
                }
                b[to] += e;
                for (x, ffi) in [(a, false), (&b, false), (a, true), (&b, true)] {
                    let m = if ffi { &mut h } else { &mut m };
                    let code = m.set(&comp(x));
                    c.op(1);
                    c.trace();
                    if ffi {
                        // (the fractions of a handle are not visible; the molar mass is)
                        let (g, w) = (m.molar_mass(), (0..21).map(|j| x[j] * mms[j]).sum::<f64>());
                        if !((g - w).abs() <= 4e-15 * w) {
                            c.fail("fraction", format!("{} through C: molar mass {g:?} instead of {w:?} for {{{}}}, {e:e} moved from {} to {}", k.name(), show(a), NAMES[from], NAMES[to]));
                            return;
                        }
                        continue;
                    }
                    let got = m.x();
                    if code != 0 || (0..21).any(|j| got[j].to_bits() != x[j].to_bits()) {
                        let j = (0..21).find(|&j| got[j].to_bits() != x[j].to_bits()).unwrap_or(0);
                        c.fail("fraction", format!("{}: {e:e} moved from {} to {} in {{{}}} (code {code}): the model holds {:?} of {} instead of {:?}", k.name(), NAMES[from], NAMES[to], show(a), got[j], NAMES[j], x[j]));
                        return;
                    }
                }
            }
            c.state_h(i as u64 | 6 << 50 | (k as u64) << 55);
            c.outcome("replaced completely");
        }));
        // each fraction is used for its component: the results are those of the reference model
        for ffi in [false, true] {
            let x2 = xs.clone();
            let ts: Vec<f64> = if q { vec![300.0, 450.0] } else { vec![200.0, 250.0, 300.0, 350.0, 450.0, 700.0] };
            let nt = ts.len();
            v.push(space(&format!("{}{} results of each composition", k.name(), if ffi { " through C" } else { "" }), n * nt, move |i, c| {
                let x = &x2[i as usize / nt];
                let t = ts[i as usize % nt];
                let mut m = if ffi { k.make_ffi() } else { k.make() };
                if m.set(&comp(x)) != 0 {
                    c.fail("rejected", format!("{}: valid composition rejected: {{{}}}", k.name(), show(x)));
                    return;
                }
                m.set_t(t);
                for d in [0.2, 3.0, 9.0] {
                    m.set_d(d);
                    let p = m.properties();
                    let p = if k == Kind::Gerg { m.pressure() } else { p };
                    c.op(1);
                    c.trace();
                    c.state(&[t, d, p]);
                    let r = k.reference(x, t, d);
                    let o = m.out();
                    for (name, v, q) in [("pressure", p, r.p), ("mm", o[MM], r.mm), ("cv", o[CV], r.cv), ("s", o[S], r.s), ("h", o[H], r.h)] {
                        if !((v - q.v).abs() <= 1e-11 * q.s) {
                            c.fail("component", format!("{}: {name} = {v:?}, the equation gives {:?} for {{{}}} at T={t}, d={d}", k.name(), q.v, show(x)));
                            return;
                        }
                    }
                }
                c.outcome("results of this composition");
                c.sample(|| format!("{} {{{}}}", k.name(), show(x)));
            }));
        }
        // writing the public array directly is the same as setting the composition
        let x3 = xs.clone();
        v.push(space(&format!("{} public fraction array", k.name()), n, move |i, c| {
            let x = &x3[i as usize];
            let (mut a, mut b) = (k.make(), k.make());
            a.set(&comp(x));
            b.set_x(x);
            for m in [&mut a, &mut b] {
                m.set_t(320.0);
                m.set_d(4.0);
            }
            let (p, r) = (a.properties(), b.properties());
            c.op(2);
            c.trace();
            c.state_h(i | 3 << 50 | (k as u64) << 55);
            let (oa, ob) = (a.out(), b.out());
            if !near(p, r, 0.0, 1e-12) || (0..15).any(|n| !near(oa[n], ob[n], 1e-3, 1e-12)) {
                c.fail("array", format!("{}: fraction array and set_composition give different results for {{{}}}", k.name(), show(x)));
                return;
            }
            c.outcome("array in documented order");
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------ K03

fn k03(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let mut bases: Vec<X> = (0..21).map(pure).collect();
    bases.extend(binaries(&[0.25]));
    bases.extend((0..3).map(distinct));
    bases.extend(named().into_iter().map(|g| g.1));
    bases.push([1.0; 21]);
    bases.push(mix(&[(0, 2.0), (5, -0.5)]));
    let fac: Vec<f64> = if q { vec![1.0, 3.7] } else { vec![1.0, 1.3, 2.0, 3.7, 5.0, 9.99] };
    let nf = fac.len();
    let ne = 310 + 308;
    v.push(space("normalize(): every base at every power of ten", bases.len() * ne * nf, move |i, c| {
        let i = i as usize;
        let b = &bases[i / ne / nf];
        let e = (i / nf % ne) as i32 - 310;
        let f = fac[i % nf];
        // in two steps: the power of ten alone may be subnormal
        let sc = |v: f64| if e < -300 { v * f * 10f64.powi(e + 100) * 1e-100 } else { v * f * 10f64.powi(e) };
        let mut x = *b;
        x.iter_mut().for_each(|v| *v = sc(*v));
        let s: f64 = x.iter().sum();
        let mag: f64 = x.iter().map(|v| v.abs()).sum();
        let mut cm = comp(&x);
        let code = ccode(&cm.normalize());
        c.op(1);
        c.trace();
        c.state(&[s, (i / ne / nf) as f64]);
        let y = uncomp(&cm);
        let what = || format!("normalize() of {{{}}} (sum {s:?})", show(&x));
        if !(s > 0.0 && s.is_finite()) {
            if code == 0 {
                c.fail("spec", format!("{}: Ok", what()));
            } else if (0..21).any(|n| !ident(x[n], y[n])) {
                c.fail("changed", format!("{}: code {code}, but the composition is changed", what()));
            }
            c.outcome("refused");
            return;
        }
        if s < 2.3e-308 && code != 0 {
            if (0..21).any(|n| !ident(x[n], y[n])) {
                c.fail("changed", format!("{}: code {code}, but the composition is changed", what()));
            }
            c.outcome("subnormal sum refused");
            return;
        }
        if code != 0 {
            c.fail("refused", format!("{}: code {code}", what()));
            return;
        }
        let tol = 1e-13 * mag / s + if s < 1e-290 { 1e-323 / s * 30.0 } else { 0.0 };
        for n in 0..21 {
            let w = x[n] / s;
            if !((y[n] - w).abs() <= tol * w.abs() + 1e-300 + if s < 1e-290 { tol } else { 0.0 }) {
                c.fail("ratio", format!("{}: fraction of {} becomes {:?}, expected {w:?}", what(), NAMES[n], y[n]));
                return;
            }
        }
        let s2: f64 = y.iter().sum();
        if !((s2 - 1.0).abs() <= tol * 4.0 + 1e-14) {
            c.fail("sum", format!("{}: sum becomes {s2:?}", what()));
            return;
        }
        if s > 1e-290 {
            let cc = ccode(&cm.check());
            if cc != 0 {
                c.fail("check", format!("{}: the result is not accepted (code {cc})", what()));
                return;
            }
            // again: nothing changes any more
            let c2 = ccode(&cm.normalize());
            c.op(1);
            let z = uncomp(&cm);
            if c2 != 0 || (0..21).any(|n| (z[n] - y[n]).abs() > 1e-14 * y[n].abs() * mag / s) {
                c.fail("idempotent", format!("{}: normalizing again (code {c2}) changes the fractions", what()));
                return;
            }
        }
        c.outcome("normalized");
        c.sample(|| what());
    }));
    // powers of two: exact in any order of summation, so every single fraction counts
    v.push(space("sum() of all subsets of 21 powers of two", 1 << 11, move |bi, c| {
        for lo in 0..1u32 << 10 {
            let mask = (bi as u32) << 10 | lo;
            for e in [-1050, -60, 0, 900] {
                let x: X = std::array::from_fn(|i| if mask >> i & 1 == 1 { 2f64.powi(e + (i as i32 * 8) % 21) } else { 0.0 });
                let w = x.iter().sum::<f64>();
                let s = comp(&x).sum();
                c.op(1);
                c.trace();
                if s != w {
                    c.fail("sum", format!("sum() = {s:?} of {{{}}}, expected {w:?}", show(&x)));
                    return;
                }
            }
        }
        c.state_h(bi | 4 << 50);
    }));
    v.push(space("normalize() of all supports", 1 << 11, move |bi, c| {
        for lo in 0..1u32 << 10 {
            let mask = (bi as u32) << 10 | lo;
            if mask == 0 {
                continue;
            }
            let b = of_mask(mask);
            for f in [1.0, 0.97, 1e-9, 64.0, 100.0, 1e7] {
                let x = b.map(|v| v * f);
                let mut cm = comp(&x);
                let code = ccode(&cm.normalize());
                let y = uncomp(&cm);
                c.op(1);
                c.trace();
                if code != 0 || (0..21).any(|n| (y[n] - b[n]).abs() > 1e-13 * b[n]) {
                    c.fail("ratio", format!("normalize() of {{{}}}: code {code}, {{{}}}", show(&x), show(&y)));
                    return;
                }
            }
        }
        c.state_h(bi | 5 << 50);
    }));
    // negative fractions are scaled like the others
    v.push(space("normalize() of all signs", 1 << 11, move |bi, c| {
        for lo in 0..1u32 << 10 {
            let Some(b) = signed((bi as u32) << 10 | lo) else { continue };
            let mag: f64 = b.iter().map(|v| v.abs()).sum();
            for f in [1.0, 0.97, 1e-9, 100.0, 1e7] {
                let x = b.map(|v| v * f);
                let mut cm = comp(&x);
                let code = ccode(&cm.normalize());
                let y = uncomp(&cm);
                c.op(1);
                c.trace();
                let s2: f64 = y.iter().sum();
                if code != 0 || (0..21).any(|n| (y[n] - b[n]).abs() > 1e-13 * b[n].abs() * mag) || (s2 - 1.0).abs() > 1e-13 * mag {
                    c.fail("ratio", format!("normalize() of {{{}}}: code {code}, {{{}}}", show(&x), show(&y)));
                    return;
                }
            }
        }
        c.state_h(bi | 6 << 50);
    }));
    // sums, every window wider than a step
    let bl: Vec<X> = [pure(0), pure(20), mix(&[(3, 0.25), (17, 0.75)]), full(), distinct(7), [1.0 / 21.0; 21]].to_vec();
    v.push(space("normalize() over a ladder of sums", bl.len() * 64, move |i, c| {
        let b = &bl[i as usize / 64];
        let mut l = rungs(1e-14, 1e14, if q { 1e-3 } else { 1e-4 });
        for e in rungs(1e-16, 1e-2, 0.02) {
            l.extend([1.0 - e, 1.0 + e, 100.0 * (1.0 - e), 100.0 * (1.0 + e)]);
        }
        l.extend([1.0, 100.0, 1000.0, 1e6, 0.5, 2.0]);
        for f in l.iter().skip(i as usize % 64).step_by(64) {
            let x = b.map(|v| v * f);
            let s: f64 = x.iter().sum();
            let mut cm = comp(&x);
            let code = ccode(&cm.normalize());
            let y = uncomp(&cm);
            c.op(1);
            c.trace();
            c.state(&[s]);
            let s2: f64 = y.iter().sum();
            if code != 0 || (0..21).any(|n| (y[n] - x[n] / s).abs() > 1e-13 * y[n]) || (s2 - 1.0).abs() > 1e-13 || ccode(&cm.check()) != 0 {
                c.fail("ratio", format!("normalize() of {{{}}} (sum {s:?}): code {code}, {{{}}} (sum {s2:?})", show(&x), show(&y)));
                return;
            }
        }
    }));
    // errors change nothing
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -1.0, -2.0, 0.0, -0.0, 5e-324, 1e-310];
    v.push(space("normalize(): special values in every pair of positions", 21 * 21 * sp.len() * sp.len() * 2, move |i, c| {
        let i = i as usize;
        let mut x = if i % 2 == 0 { [0.0; 21] } else { full() };
        let r = i / 2;
        x[r / 100 / 21] = sp[r / 10 % 10];
        x[r / 100 % 21] = sp[r % 10];
        let s: f64 = x.iter().sum();
        let mut cm = comp(&x);
        let code = ccode(&cm.normalize());
        c.op(1);
        c.trace();
        c.state_h(i as u64 | 1 << 50);
        let y = uncomp(&cm);
        let what = || format!("normalize() of {{{}}} (sum {s:?})", show(&x));
        if code != 0 {
            if (0..21).any(|n| !ident(x[n], y[n])) {
                c.fail("changed", format!("{}: code {code}, but the composition is changed", what()));
                return;
            }
            if x.iter().all(|v| *v == 0.0) && code != 1 {
                c.fail("empty", format!("{}: code {code} for an empty composition", what()));
                return;
            }
            if s.is_finite() && s > 1e-300 {
                c.fail("refused", format!("{}: code {code}", what()));
                return;
            }
            c.outcome("refused, unchanged");
        } else {
            let s2: f64 = y.iter().sum();
            let mag: f64 = y.iter().map(|v| v.abs()).sum();
            let loose = if s < 1e-300 { 0.1 } else { 0.0 };
            if !(s > 0.0 && s.is_finite() && (s2 - 1.0).abs() <= 1e-13 * mag + loose) {
                c.fail("spec", format!("{}: Ok, sum becomes {s2:?}", what()));
                return;
            }
            c.outcome("normalized");
        }
    }));
    // the sum adds all fractions
    v.push(space("sum() adds every fraction", 21 * 21 * 4, move |i, c| {
        let i = i as usize;
        let (a, b, k) = (i / 4 / 21, i / 4 % 21, i % 4);
        let mut x = [0.0; 21];
        match k {
            0 => x = [1.0; 21],
            1 => x.iter_mut().enumerate().for_each(|(i, v)| *v = (1u64 << i) as f64),
            2 => x = full(),
            _ => {}
        }
        x[a] += 4194304.0;
        x[b] += 8388608.0;
        let cm = comp(&x);
        let (s, w) = (cm.sum(), x.iter().sum::<f64>());
        c.op(1);
        c.trace();
        c.state_h(i as u64 | 2 << 50);
        if !((s - w).abs() <= 1e-14 * w) {
            c.fail("sum", format!("sum() = {s:?} of {{{}}}, expected {w:?}", show(&x)));
            return;
        }
        c.outcome("sum of all");
    }));
    v
}
