// One deterministic workload of native calls; included by the harness and compiled again in every build
// configuration (T02).  A result is (name, value, magnitude); a panic is recorded as such.
use aga8::composition::Composition;
use aga8::detail::Detail;
use aga8::gerg2008::Gerg2008;

pub type Line = (String, f64, f64);

fn comp(x: &[f64; 21]) -> Composition {
    Composition {
        methane: x[0],
        nitrogen: x[1],
        carbon_dioxide: x[2],
        ethane: x[3],
        propane: x[4],
        isobutane: x[5],
        n_butane: x[6],
        isopentane: x[7],
        n_pentane: x[8],
        hexane: x[9],
        heptane: x[10],
        octane: x[11],
        nonane: x[12],
        decane: x[13],
        hydrogen: x[14],
        oxygen: x[15],
        carbon_monoxide: x[16],
        water: x[17],
        hydrogen_sulfide: x[18],
        helium: x[19],
        argon: x[20],
    }
}

const GAS: [f64; 21] = [
    0.778_24, 0.02, 0.06, 0.08, 0.03, 0.001_5, 0.003, 0.000_5, 0.001_65, 0.002_15, 0.000_88, 0.000_24, 0.000_15, 0.000_09, 0.004, 0.005, 0.002, 0.000_1, 0.002_5, 0.007, 0.001,
];

fn gases() -> Vec<(String, [f64; 21])> {
    let mut v = vec![("full".to_string(), GAS)];
    for i in 0..21 {
        let mut x = [0.0; 21];
        x[i] = 1.0;
        v.push((format!("pure{i}"), x));
        let mut y = [0.0; 21];
        y[i] += 0.35;
        y[(i * 5 + 3) % 21] += 0.65;
        v.push((format!("pair{i}"), y));
    }
    v
}

macro_rules! outputs {
    ($m:expr, $t:expr) => {{
        let rt = 8.314 * $t;
        vec![
            ("mm", $m.mm, 0.0),
            ("z", $m.z, 0.0),
            ("dp_dd", $m.dp_dd, rt),
            ("d2p_dd2", $m.d2p_dd2, rt),
            ("d2p_dtd", $m.d2p_dtd, 8.3),
            ("dp_dt", $m.dp_dt, 0.0),
            ("u", $m.u, rt),
            ("h", $m.h, rt),
            ("s", $m.s, 8.3),
            ("cv", $m.cv, 0.0),
            ("cp", $m.cp, 0.0),
            ("w", $m.w, 0.0),
            ("g", $m.g, rt),
            ("jt", $m.jt, 1e-3),
            ("kappa", $m.kappa, 0.0),
            ("t", $m.t, 0.0),
            ("d", $m.d, 0.0),
        ]
    }};
}

fn guard(out: &mut Vec<Line>, name: String, f: impl FnOnce() -> Vec<Line>) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => out.extend(v.into_iter().map(|(n, v, m)| (format!("{name} {n}"), v, m))),
        Err(_) => out.push((format!("{name} PANIC"), -12345.0, 0.0)),
    }
}

pub fn run() -> Vec<Line> {
    let mut out: Vec<Line> = vec![];
    let l = |n: &str, v: f64, m: f64| (n.to_string(), v, m);
    for (gn, x) in gases() {
        for t in [180.0, 300.0, 420.0] {
            for d in [0.0, 1e-6, 0.5, 4.0, 11.0] {
                guard(&mut out, format!("detail {gn} {t} {d}"), || {
                    let mut m = Detail::new();
                    let c = m.set_composition(&comp(&x)).is_ok() as u8 as f64;
                    m.t = t;
                    m.d = d;
                    let p = m.pressure();
                    m.properties();
                    let rt = 8.314 * t * d;
                    let mut v = vec![l("set", c, 0.0), l("pressure", p, rt), l("p", m.p, rt)];
                    v.extend(outputs!(m, t).into_iter().map(|(n, v, s)| l(n, v, s)));
                    v
                });
                guard(&mut out, format!("gerg {gn} {t} {d}"), || {
                    let mut m = Gerg2008::new();
                    let c = m.set_composition(&comp(&x)).is_ok() as u8 as f64;
                    m.t = t;
                    m.d = d;
                    let p = m.pressure();
                    let q = m.properties();
                    m.molar_mass();
                    let rt = 8.314 * t * d;
                    let mut v = vec![l("set", c, 0.0), l("pressure", p, rt), l("properties", q, rt)];
                    v.extend(outputs!(m, t).into_iter().map(|(n, v, s)| l(n, v, s)));
                    v
                });
            }
        }
        // density, every mode, gas states
        for t in [320.0, 420.0] {
            for p in [1e-3, 10.0, 50.0] {
                guard(&mut out, format!("detail density {gn} {t} {p}"), || {
                    let mut m = Detail::new();
                    let _ = m.set_composition(&comp(&x));
                    m.t = t;
                    m.p = p;
                    let r = m.density().is_ok() as u8 as f64;
                    vec![l("ok", r, 0.0), l("d", m.d, 0.0)]
                });
                for f in [0, 1, 2] {
                    guard(&mut out, format!("gerg density {gn} {t} {p} {f}"), || {
                        let mut m = Gerg2008::new();
                        let _ = m.set_composition(&comp(&x));
                        m.t = t;
                        m.p = p;
                        let r = m.density(f).is_ok() as u8 as f64;
                        if f == 2 {
                            // the liquid search may fail for cold liquids
                            return vec![l("returned", 1.0, 0.0)];
                        }
                        vec![l("ok", r, 0.0), l("d", m.d, 0.0)]
                    });
                }
            }
        }
    }
    // high pressure, one gas
    for i in 0..40 {
        let p = 100.0 * 1.2f64.powi(i);
        for t in [250.0, 300.0, 400.0] {
            guard(&mut out, format!("detail density full {t} step {i}"), || {
                let mut m = Detail::new();
                let _ = m.set_composition(&comp(&GAS));
                m.t = t;
                m.p = p;
                let r = m.density().is_ok() as u8 as f64;
                vec![l("ok", r, 0.0), l("d", m.d, 0.0)]
            });
            guard(&mut out, format!("gerg density full {t} step {i}"), || {
                let mut m = Gerg2008::new();
                let _ = m.set_composition(&comp(&GAS));
                m.t = t;
                m.p = p;
                let r = m.density(0).is_ok() as u8 as f64;
                vec![l("ok", r, 0.0), l("d", m.d, 0.0)]
            });
        }
    }
    // states at which the calculation starts again or gives up: cold, critical, liquid, two-phase
    for (gn, x) in gases() {
        if !["full", "pure0", "pure1", "pure2", "pure4", "pure17", "pure19", "pair0", "pair4"].contains(&gn.as_str()) {
            continue;
        }
        for it in 0..16 {
            let t = [80.0, 110.0, 130.0, 150.0, 170.0, 185.0, 195.0, 210.0, 230.0, 250.0, 270.0, 290.0, 303.0, 340.0, 380.0, 600.0][it];
            for ip in 0..18 {
                let p = 10.0 * 1.72f64.powi(ip);
                guard(&mut out, format!("detail hard density {gn} {t} {p}"), || {
                    let mut m = Detail::new();
                    let _ = m.set_composition(&comp(&x));
                    m.t = t;
                    m.p = p;
                    let r = m.density().is_ok() as u8 as f64;
                    vec![l("ok", r, 0.0), l("d", m.d, 1e3)]
                });
                for f in [0, 1, 2] {
                    guard(&mut out, format!("gerg hard density {gn} {t} {p} {f}"), || {
                        let mut m = Gerg2008::new();
                        let _ = m.set_composition(&comp(&x));
                        m.t = t;
                        m.p = p;
                        let r = m.density(f).is_ok() as u8 as f64;
                        vec![l("ok", r, 0.0), l("d", m.d, 1e3)]
                    });
                }
            }
        }
    }
    // histories on one instance
    guard(&mut out, "history".into(), || {
        let mut v = vec![];
        let (mut a, mut g) = (Detail::new(), Gerg2008::new());
        let gs = gases();
        for k in 0..60 {
            let x = &gs[(k * 7) % gs.len()].1;
            if k % 3 == 0 {
                let _ = a.set_composition(&comp(x));
                let _ = g.set_composition(&comp(x));
            }
            a.t = 280.0 + (k % 5) as f64 * 13.0;
            g.t = a.t;
            a.d = 0.1 * (k % 7) as f64;
            g.d = a.d;
            a.properties();
            v.push((format!("detail {k} h"), a.h, 8.3 * a.t));
            v.push((format!("detail {k} p"), a.p, 8.3 * a.t));
            let p = g.properties();
            v.push((format!("gerg {k} h"), g.h, 8.3 * g.t));
            v.push((format!("gerg {k} p"), p, 8.3 * g.t));
        }
        v
    });
    // special values: every call returns
    let sp = [0.0, -0.0, 1e-300, -5.0, 1e300, f64::INFINITY, f64::NAN, f64::MAX, 5e-324];
    for &t in &sp {
        for &p in &sp {
            for &d in &sp {
                guard(&mut out, format!("detail special {t} {p} {d}"), || {
                    let mut m = Detail::new();
                    let _ = m.set_composition(&comp(&GAS));
                    m.t = t;
                    m.p = p;
                    m.d = d;
                    let _ = m.density();
                    m.d = d;
                    m.pressure();
                    m.properties();
                    vec![l("returned", 1.0, 0.0)]
                });
                guard(&mut out, format!("gerg special {t} {p} {d}"), || {
                    let mut m = Gerg2008::new();
                    let _ = m.set_composition(&comp(&GAS));
                    m.t = t;
                    m.p = p;
                    m.d = d;
                    for f in [0, 2, i32::MAX, i32::MIN] {
                        m.d = d;
                        let _ = m.density(f);
                    }
                    m.d = d;
                    m.pressure();
                    m.properties();
                    vec![l("returned", 1.0, 0.0)]
                });
            }
        }
    }
    // compositions
    for (n, s) in [("0", 0.0), ("1", 1.0), ("0.985", 0.985), ("0.995", 0.995), ("1.005", 1.005), ("1.015", 1.015), ("nan", f64::NAN), ("inf", f64::INFINITY), ("100", 100.0), ("tiny", 1e-200), ("huge", 1e200), ("neg", -1.0)] {
        for i in 0..22 {
            guard(&mut out, format!("composition {n} {i}"), || {
                let mut x = [0.0; 21];
                if i == 21 {
                    x = GAS;
                    x.iter_mut().for_each(|v| *v *= s);
                } else {
                    x[i] = s;
                }
                let mut c = comp(&x);
                let code = |r: Result<(), aga8::composition::CompositionError>| match r {
                    Ok(()) => 0.0,
                    Err(aga8::composition::CompositionError::Empty) => 1.0,
                    Err(_) => 2.0,
                };
                let mut v = vec![l("sum", c.sum(), 0.0), l("check", code(c.check()), 0.0)];
                v.push(l("detail", code(Detail::new().set_composition(&c)), 0.0));
                v.push(l("gerg", code(Gerg2008::new().set_composition(&c)), 0.0));
                v.push(l("normalize", code(c.normalize()), 0.0));
                v.push(l("methane", c.methane, 0.0));
                v.push(l("argon", c.argon, 0.0));
                v.push(l("sum after", c.sum(), 0.0));
                v
            });
        }
    }
    out
}
