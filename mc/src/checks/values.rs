//! Calculated values: agreement with the equations of state (V01, V02).
use crate::api::*;
use crate::engine::*;
use crate::gas::*;
use std::sync::Arc;

pub const REL: f64 = 1e-12;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "V01",
            spaces: |t| value_spaces(Kind::Detail, t),
            assumptions: &[
                "the reference model (refmodel crate) is AGA Report No. 8 Part 1; its coefficient tables were frozen from the pinned commit and validated by reference states (h = s = 0 at 298.15 K, 101.325 kPa) of all components",
                "values are compared at the enumerated grid points; an error confined to conditions between grid points is not seen",
            ],
        },
        Check {
            id: "V02",
            spaces: |t| value_spaces(Kind::Gerg, t),
            assumptions: &[
                "the reference model (refmodel crate) is GERG-2008; its coefficient tables were frozen from the pinned commit and validated by the critical points of all components and the reference states",
                "values are compared at the enumerated grid points; an error confined to conditions between grid points is not seen",
            ],
        },
    ]
}

/// Compares every reported quantity of one state with the reference; returns the failure text.
pub fn compare(m: &dyn Eos, p: f64, r: &refmodel::State, t: f64, d: f64, c: &mut Ctx) -> Option<(String, String)> {
    let o = m.out();
    let base = [
        ("mm", o[MM], r.mm),
        ("z", o[Z], r.z),
        ("p", p, r.p),
        ("dp_dd", o[DPDD], r.dp_dd),
        ("d2p_dd2", o[D2PDD2], r.d2p_dd2),
        ("dp_dt", o[DPDT], r.dp_dt),
        ("u", o[U], r.u),
        ("h", o[H], r.h),
        ("s", o[S], r.s),
        ("g", o[G], r.g),
        ("cv", o[CV], r.cv),
    ];
    for (n, v, q) in base {
        // at a vanishing density DETAIL takes p/d = RT
        let ideal = if d <= 1e-15 && (n == "h" || n == "g") { (r.z.v - 1.0).abs() * m.kind().r() * t } else { 0.0 };
        let e = ((v - q.v).abs() - ideal).max(0.0) / (q.s + 1e-290);
        let e = if v.is_nan() || q.v.is_nan() { f64::INFINITY } else { e };
        c.max("error/scale", e);
        if !(e <= REL) {
            return Some((n.into(), format!("{n} = {v:?}, equation gives {:?} (magnitude {:e}, error/magnitude {e:e})", q.v, q.s)));
        }
    }
    if m.kind() == Kind::Gerg {
        let e = (o[D2PDTD] - r.d2p_dtd.v).abs() / (r.d2p_dtd.s + 1e-290);
        if !(e <= REL) {
            return Some(("d2p_dtd".into(), format!("d2p_dtd = {:?}, equation gives {:?}", o[D2PDTD], r.d2p_dtd.v)));
        }
    } else if o[D2PDTD] != 0.0 {
        return Some(("d2p_dtd".into(), format!("d2p_dtd = {:?}, documented as not calculated (0)", o[D2PDTD])));
    }
    derived(m.kind(), &o, t, d)
}

/// cp, w, jt and kappa follow from the other reported quantities
pub fn derived(k: Kind, o: &Out, t: f64, d: f64) -> Option<(String, String)> {
    let tol = 1e-11;
    let r = k.r();
    let near = |n: &str, v: f64, want: f64, mag: f64| -> Option<(String, String)> {
        if !want.is_finite() || !mag.is_finite() || (v - want).abs() <= tol * mag {
            None
        } else {
            Some((n.to_string(), format!("{n} = {v:?}, expected {want:?} from the other reported quantities")))
        }
    };
    if d > 1e-15 {
        let k1 = t * (o[DPDT] / d) * (o[DPDT] / d) / o[DPDD];
        if let e @ Some(_) = near("cp", o[CP], o[CV] + k1, o[CV].abs() + k1.abs()) {
            return e;
        }
        let k2 = t / d * o[DPDT] / o[DPDD];
        if let e @ Some(_) = near("jt", o[JT], (k2 - 1.0) / o[CP] / d, (k2.abs() + 1.0) / (o[CP] * d).abs()) {
            return e;
        }
    } else {
        if let e @ Some(_) = near("cp", o[CP], o[CV] + r, o[CV].abs() + r) {
            return e;
        }
        if o[JT] != 1e20 {
            return Some(("jt".into(), format!("jt = {:?} at zero density", o[JT])));
        }
    }
    let w2 = (1000.0 * o[CP] / o[CV] * o[DPDD] / o[MM]).max(0.0);
    if let e @ Some(_) = near("w", o[W] * o[W], w2, w2.abs()) {
        return e;
    }
    if o[W] < 0.0 {
        return Some(("w".into(), format!("negative speed of sound {:?}", o[W])));
    }
    let kap = o[W] * o[W] * o[MM] / (r * t * 1000.0 * o[Z]);
    near("kappa", o[KAPPA], kap, kap.abs())
}

/// one composition, all temperatures and densities of a grid
fn sweep(k: Kind, x: &X, ts: &[f64], ds: &[f64], c: &mut Ctx) {
    let mut m = k.make();
    if m.set(&comp(x)) != 0 {
        c.fail("rejected", format!("{}: composition rejected: {}", k.name(), show(x)));
        return;
    }
    for &t in ts {
        for &d in ds {
            m.set_t(t);
            m.set_d(d);
            let p = m.properties();
            let r = k.reference(x, t, d);
            c.op(1);
            c.trace();
            c.state(&[t, d, p, m.out()[S]]);
            if let Some((key, msg)) = compare(&*m, p, &r, t, d, c) {
                c.fail(&key, format!("{} at T={t:?} K, D={d:?} mol/l, x = {{{}}}: {msg}", k.name(), show(x)));
                return;
            }
            let pp = m.pressure();
            c.op(1);
            let z = m.out()[Z];
            if !((pp - r.p.v).abs() <= REL * r.p.s) || !((z - r.z.v).abs() <= REL * r.z.s) {
                c.fail("pressure", format!("{} at T={t:?}, D={d:?}, x = {{{}}}: pressure() = {pp:?}, z = {z:?}, equation gives {:?}, {:?}", k.name(), show(x), r.p.v, r.z.v));
                return;
            }
            c.outcome(if r.dp_dd.v > 0.0 { "stable" } else { "unstable" });
        }
    }
    c.sample(|| format!("{} x={{{}}} over {} temperatures x {} densities, last T={:?} D={:?}: z={:?} w={:?}", k.name(), show(x), ts.len(), ds.len(), ts[ts.len() - 1], ds[ds.len() - 1], m.out()[Z], m.out()[W]));
}

fn over(name: &str, k: Kind, xs: Vec<X>, ts: Vec<f64>, deltas: Vec<f64>) -> Space {
    let n = xs.len();
    let xs = Arc::new(xs);
    space(name, n, move |i, c| {
        let x = &xs[i as usize];
        // densities relative to the reducing density, so that every mixture is taken from ideal gas to dense liquid
        let rd = refmodel::gerg_reducing(x).0;
        let ds: Vec<f64> = deltas.iter().map(|q| q * rd).collect();
        sweep(k, x, &ts, &ds, c)
    })
}

/// A geometric ladder: no interval [a, a(1+step)] is without a point.
pub fn rungs(a: f64, b: f64, step: f64) -> Vec<f64> {
    log(a, b, ((b.ln() - a.ln()) / step).ceil() as usize + 1)
}
/// compositions x blocks of temperatures, all densities
fn blocks(name: &str, k: Kind, xs: Vec<X>, ts: Vec<f64>, deltas: Vec<f64>) -> Space {
    let nb = ts.len().div_ceil(128);
    space(name, xs.len() * nb, move |i, c| {
        let x = &xs[i as usize / nb];
        let b = i as usize % nb * 128;
        let rd = refmodel::gerg_reducing(x).0;
        let ds: Vec<f64> = deltas.iter().map(|q| q * rd).collect();
        sweep(k, x, &ts[b..(b + 128).min(ts.len())], &ds, c)
    })
}
/// compositions x blocks of densities, all temperatures
fn dense(name: &str, k: Kind, xs: Vec<X>, ts: Vec<f64>, ds: Vec<f64>) -> Space {
    let nb = ds.len().div_ceil(128);
    space(name, xs.len() * nb, move |i, c| {
        let b = i as usize % nb * 128;
        sweep(k, &xs[i as usize / nb], &ts, &ds[b..(b + 128).min(ds.len())], c)
    })
}
/// values of temperature and density that mean something to the equations or to people, and their neighbours
fn landmarks(x: &X) -> (Vec<f64>, Vec<f64>) {
    let (rd, rt) = refmodel::gerg_reducing(x);
    let mut ts = vec![rt, 1.0, 100.0, 200.0, 250.0, 273.15, 288.15, 288.71, 293.15, 298.15, 300.0, 333.15, 373.15, 400.0, 500.0, 1000.0];
    let mut ds = vec![rd, 0.01, 0.1, 0.5, 1.0, 2.0, 5.0, 10.0, 20.0];
    let (mut tc, mut vc) = (0.0, 0.0);
    for i in 0..21 {
        if x[i] > 0.0 {
            let (d, t) = refmodel::gerg_reducing(&pure(i));
            tc += x[i] * t;
            vc += x[i] / d;
            ts.push(t);
            ds.push(d);
        }
    }
    ts.push(tc);
    ds.push(1.0 / vc);
    let near = |v: Vec<f64>| {
        let mut o = vec![];
        for a in v {
            for e in [0.0, 1e-15, 1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 5e-3] {
                o.push(a * (1.0 + e));
                if e > 0.0 {
                    o.push(a * (1.0 - e));
                }
            }
        }
        o
    };
    ts.retain(|t| *t >= 20.0);
    let (mut ts, mut ds) = (near(ts), near(ds));
    // simple multiples and parts of the scales of the equation: reduced values that are round numbers
    for s in [rt, tc] {
        for a in 1..=12 {
            for b in 1..=12 {
                ts.push(s * a as f64 / b as f64);
            }
        }
        for e in [0.35, 0.7, 0.65, 0.95, 1.05, 1.15, 16.0, 32.0] {
            ts.push(s * e);
        }
    }
    for s in [rd, 1.0 / vc] {
        for a in 1..=12 {
            for b in 1..=12 {
                ds.push(s * a as f64 / b as f64);
            }
        }
        for e in 4..=60 {
            ds.push(s * 0.5f64.powi(e));
        }
    }
    ts.retain(|t| *t >= 20.0);
    ds.retain(|d| *d <= 90.0);
    (ts, ds)
}

fn value_spaces(k: Kind, tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let mut dl = vec![0.0, 1e-17, 1e-13, 1e-9, 1e-5, 1e-3];
    dl.extend(lin(0.02, 3.2, if q { 60 } else { 160 }));
    let mut tl = vec![40.0, 60.0, 80.0, 100.0, 120.0, 143.0, 190.564, 220.0, 250.0, 273.15, 288.15, 298.15, 300.0, 320.0, 350.0, 400.0, 450.0, 500.0, 600.0, 700.0, 1000.0, 1500.0, 2000.0];
    tl.extend(lin(45.0, 1000.0, if q { 50 } else { 300 }));
    v.push(over("pure components", k, (0..21).map(pure).collect(), tl, dl));
    let fr: &[f64] = if q { &[0.5, 0.1, 0.9, 1e-3, 0.999, 1e-6, 1e-9, 1e-13] } else { &[0.5, 0.3, 0.7, 0.1, 0.9, 0.02, 0.98, 1e-3, 0.999, 1e-4, 1e-6, 1.0 - 1e-6, 1e-9, 1e-11, 1e-13, 1e-14] };
    v.push(over(
        "all 210 binaries x fractions",
        k,
        binaries(fr),
        if q { vec![90.0, 150.0, 200.0, 250.0, 293.15, 350.0, 420.0, 600.0, 900.0] } else { [lin(60.0, 700.0, 17), vec![1000.0, 2000.0]].concat() },
        if q { vec![1e-9, 1e-3, 0.05, 0.15, 0.4, 0.7, 1.0, 1.4, 1.8, 2.2, 2.7] } else { [vec![1e-9, 1e-4], lin(0.03, 3.0, 16)].concat() },
    ));
    let mut tern = vec![];
    for t in triples() {
        for w in if q { vec![[0.5, 0.3, 0.2], [0.02, 0.08, 0.9]] } else { vec![[0.5, 0.3, 0.2], [0.02, 0.08, 0.9], [0.9, 0.06, 0.04], [0.1, 0.8, 0.1], [0.33, 0.33, 0.34], [0.989, 0.01, 0.001]] } {
            tern.push(mix(&[(t[0], w[0]), (t[1], w[1]), (t[2], w[2])]));
        }
    }
    v.push(over("all 1330 ternaries x mixing weights", k, tern, if q { vec![120.0, 210.0, 293.15, 370.0, 450.0, 650.0] } else { lin(100.0, 700.0, 13) }, if q { vec![1e-4, 0.1, 0.4, 0.9, 1.5, 2.1] } else { vec![1e-6, 0.1, 0.4, 0.9, 1.5, 2.0, 2.8] }));
    v.push(over("natural gas box", k, pipeline(), if q { lin(220.0, 400.0, 19) } else { lin(220.0, 400.0, 37) }, if q { vec![1e-6, 0.01, 0.05, 0.1, 0.2, 0.4, 0.6, 0.9, 1.2, 1.6] } else { [vec![1e-6, 1e-3], lin(0.01, 2.0, 30)].concat() }));
    v.push(over("named gases, dense grid", k, named().into_iter().map(|g| g.1).collect(), lin(120.0, 600.0, if q { 97 } else { 481 }), [vec![0.0, 1e-12, 1e-6], lin(0.01, 3.0, if q { 60 } else { 300 })].concat()));
    // accepted compositions whose sum is not exactly one
    let mut off = vec![];
    for s in [0.9905, 0.995, 0.9999, 1.0001, 1.005, 1.0095] {
        for (_, g) in named() {
            off.push(g.map(|f| f * s));
        }
        for i in 0..21 {
            off.push(pure(i).map(|f| f * s));
        }
    }
    v.push(over("sums within 1% of one", k, off, vec![150.0, 300.0, 500.0], vec![1e-8, 0.2, 1.1, 2.4]));
    let mut big: Vec<X> = vec![];
    for s in 18..=21 {
        big.extend(subsets(s).into_iter().map(of_mask));
    }
    v.push(over("all supports of 18 to 21 components", k, big, vec![230.0, 330.0], vec![0.3, 1.4]));
    v.push(over("supports of 5 to 17 components, all starts and strides", k, strided(), if q { vec![215.0, 310.0] } else { lin(150.0, 500.0, 8) }, if q { vec![1e-3, 0.6, 1.7] } else { vec![1e-6, 0.02, 0.2, 0.6, 1.0, 1.7, 2.5] }));
    v.push(over("21 components, each dominant, each a trace", k, dominated(), if q { vec![160.0, 250.0, 300.0, 420.0] } else { lin(120.0, 600.0, 25) }, if q { vec![1e-4, 0.3, 0.9, 1.9] } else { lin(0.02, 3.0, 20) }));
    // far outside the range of the equations: very cold and hot, very dense
    let mut ends: Vec<X> = (0..21).map(pure).collect();
    ends.extend(named().into_iter().map(|g| g.1));
    ends.extend(binaries(&[0.4]));
    let mut te = vec![20.0, 30.0, 55.0, 300.0, 2500.0, 3000.0, 5000.0, 1e4, 1e5, 1e6];
    let mut de = vec![0.0, 1e-300, 1e-30, 1e-16, 1e-12, 1e-7, 0.5, 2.0, 3.5, 4.0, 5.0, 7.0, 10.0, 30.0];
    if !q {
        te.extend(lin(20.0, 59.0, 40));
        te.extend(log(2000.0, 1e7, 40));
        de.extend(lin(3.0, 12.0, 50));
    }
    v.push(over("extreme temperatures and densities", k, ends, te, de));
    // ladders: every window of temperature, density or fraction wider than a step
    let step = if q { 1e-3 } else { 2e-4 };
    let mut few: Vec<X> = (0..21).map(pure).collect();
    few.extend(named().into_iter().map(|g| g.1));
    v.push(blocks("temperature ladder", k, few.clone(), rungs(20.0, 5000.0, step), vec![1e-5, 0.15, 0.7, 1.3, 2.4]));
    v.push(dense("density ladder", k, few.clone(), if q { vec![210.0, 300.0, 480.0] } else { vec![120.0, 210.0, 300.0, 480.0, 900.0] }, rungs(1e-4, 80.0, step)));
    v.push(blocks("temperatures in hundredths", k, common(), per(20, if q { 700 } else { 2000 }, 100), vec![1e-5, 0.2, 1.7]));
    v.push(dense("densities in thousandths", k, common(), vec![250.0, 300.0, 450.0], per(0, if q { 30 } else { 60 }, 1000)));
    v.push(dense("density ladder, dilute", k, few, vec![250.0, 300.0], rungs(1e-17, 1e-4, 10.0 * step)));
    let fl: Vec<f64> = [lin(0.0, 1.0, if q { 201 } else { 1001 }), rungs(1e-15, 5e-3, if q { 0.2 } else { 0.02 })].concat();
    v.push(space("fraction ladder of all 210 pairs", 210, move |i, c| {
        let (a, b) = pairs()[i as usize];
        for f in &fl {
            for w in [*f, 1.0 - *f] {
                sweep(k, &mix(&[(a, 1.0 - w), (b, w)]), &[190.0, 330.0], &[0.3, 11.0], c);
            }
        }
    }));
    let mut marks: Vec<X> = (0..21).map(pure).collect();
    marks.extend(named().into_iter().map(|g| g.1));
    marks.extend(binaries(if q { &[0.5, 0.1] } else { &[0.5, 0.1, 0.9, 0.02, 1e-6] }));
    marks.extend(subsets(20).into_iter().map(of_mask));
    v.push(space("landmarks of temperature and density and their neighbours", marks.len(), move |i, c| {
        let (ts, ds) = landmarks(&marks[i as usize]);
        // all temperatures at few densities, all densities at few temperatures, all exact ones with each other
        let x = &marks[i as usize];
        sweep(k, x, &ts, &[ds[0], 1.0, 3.0 * ds[0]], c);
        sweep(k, x, &[300.0, ts[0]], &ds, c);
        let every = |v: &Vec<f64>| v.iter().step_by(17).copied().collect::<Vec<f64>>();
        sweep(k, x, &every(&ts), &every(&ds), c);
    }));
    if !q {
        for s in 4..=6 {
            v.push(over(&format!("all supports of {s} components"), k, subsets(s).into_iter().map(of_mask).collect(), vec![120.0, 180.0, 230.0, 293.15, 360.0, 480.0], vec![1e-3, 0.2, 0.6, 1.0, 1.6, 2.2]));
        }
        v.push(over("all remaining supports (7 to 17 components)", k, (1u32..1 << 21).filter(|m| (7..=17).contains(&m.count_ones())).map(of_mask).collect(), vec![200.0, 270.0, 400.0], vec![0.1, 0.8, 1.9]));
    } else {
        v.push(over("all supports of 4 components", k, subsets(4).into_iter().map(of_mask).collect(), vec![180.0, 293.15, 480.0], vec![0.2, 1.0, 2.2]));
    }
    v
}
