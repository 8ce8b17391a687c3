//! Programs for the interpreter (Miri): every memory access of the code under test is checked there.
//! `mcmiri MODE SHARD OF DEPTH`: runs the cases i with i % OF == SHARD of the enumeration MODE; prints
//! "case i what" before each, "ran n" at the end.
use aga8::composition::{Composition, CompositionError};
use aga8::detail::Detail;
use cabi::{detail as fd, gerg2008 as fg};
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;

#[path = "../../src/cabi.rs"]
mod cabi;

fn mix(p: &[(usize, f64)]) -> [f64; 21] {
    let mut x = [0.0; 21];
    for (i, f) in p {
        x[*i] += f;
    }
    x
}
fn comp(x: &[f64; 21]) -> Composition {
    Composition {
        methane: x[0],
        nitrogen: x[1],
        carbon_dioxide: x[2],
        ethane: x[3],
        propane: x[4],
        isobutane: x[5],
        n_butane: x[6],
        isopentane: x[7],
        n_pentane: x[8],
        hexane: x[9],
        heptane: x[10],
        octane: x[11],
        nonane: x[12],
        decane: x[13],
        hydrogen: x[14],
        oxygen: x[15],
        carbon_monoxide: x[16],
        water: x[17],
        hydrogen_sulfide: x[18],
        helium: x[19],
        argon: x[20],
    }
}
fn gases() -> Vec<[f64; 21]> {
    let full = [
        0.778_24, 0.02, 0.06, 0.08, 0.03, 0.001_5, 0.003, 0.000_5, 0.001_65, 0.002_15, 0.000_88, 0.000_24, 0.000_15, 0.000_09, 0.004, 0.005, 0.002, 0.000_1, 0.002_5, 0.007, 0.001,
    ];
    vec![full, mix(&[(0, 0.9), (2, 0.1)]), mix(&[(17, 0.5), (13, 0.5)]), mix(&[(14, 0.3), (20, 0.7)])]
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    D,
    G,
}
/// a handle of the C interface
struct Handle(Kind, *mut u8);
unsafe impl Send for Handle {}
macro_rules! both {
    ($h:expr, $d:ident, $g:ident $(, $a:expr)*) => {
        unsafe {
            match $h.0 {
                Kind::D => fd::$d($h.1 as *mut Detail $(, $a)*),
                Kind::G => fg::$g($h.1 as *mut Gerg2008 $(, $a)*),
            }
        }
    };
}
fn new(k: Kind) -> Handle {
    Handle(
        k,
        match k {
            Kind::D => unsafe { fd::aga8_new() as *mut u8 },
            Kind::G => unsafe { fg::gerg_new() as *mut u8 },
        },
    )
}
/// sets a composition whose memory is gone right after the call
fn set(h: &Handle, x: &[f64; 21]) -> i32 {
    let c = Box::new(comp(x));
    let mut e = Box::new(CompositionError::BadSum);
    both!(h, aga8_set_composition, gerg_set_composition, &*c, &mut *e);
    *e as i32
}
fn solve(h: &Handle) -> i32 {
    let mut e = Box::new(DensityError::PressureTooLow);
    both!(h, aga8_calculate_density, gerg_calculate_density, &mut *e);
    *e as i32
}
fn life(h: &Handle, x: &[f64; 21], t: f64, p: f64) -> Vec<f64> {
    let mut v = vec![set(h, x) as f64];
    both!(h, aga8_set_temperature, gerg_set_temperature, t);
    both!(h, aga8_set_pressure, gerg_set_pressure, p);
    both!(h, aga8_set_density, gerg_set_density, 0.0);
    v.push(solve(h) as f64);
    v.push(both!(h, aga8_calculate_pressure, gerg_calculate_pressure));
    both!(h, aga8_calculate_properties, gerg_calculate_properties);
    v.push(both!(h, aga8_calculate_molar_mass, gerg_calculate_molar_mass));
    v.push(both!(h, aga8_get_temperature, gerg_get_temperature));
    v.push(both!(h, aga8_get_pressure, gerg_get_pressure));
    v.push(both!(h, aga8_get_density, gerg_get_density));
    let q = both!(h, aga8_get_properties, gerg_get_properties);
    v.extend([q.d, q.mm, q.z, q.dp_dd, q.d2p_dd2, q.dp_dt, q.u, q.h, q.s, q.cv, q.cp, q.w, q.g, q.jt, q.kappa]);
    v
}
fn free(h: Handle) {
    both!(h, aga8_free, gerg_free);
}

struct Shard {
    mode: String,
    i: u64,
    of: u64,
    n: u64,
    ran: u64,
}
impl Shard {
    fn case(&mut self, what: impl FnOnce() -> String) -> bool {
        let mine = self.n % self.of == self.i;
        if mine {
            println!("case {} {}", self.n, what());
            self.ran += 1;
        }
        self.n += 1;
        mine
    }
}

/// all sequences of creations, uses and releases of up to two handles
fn mem(s: &mut Shard, depth: usize) {
    let al: [(&str, usize); 8] = [("new D", 0), ("new G", 0), ("use", 0), ("use", 1), ("free", 0), ("free", 1), ("free null D", 0), ("free null G", 0)];
    let g = gases();
    for len in 1..=depth {
        'seq: for i in 0..al.len().pow(len as u32) {
            let mut ops = vec![];
            let mut j = i;
            for _ in 0..len {
                ops.push(al[j % al.len()]);
                j /= al.len();
            }
            let mut used = [false; 2];
            let mut nulls = 0;
            for o in &ops {
                let ok = match o.0 {
                    "new D" | "new G" => match (0..2).find(|k| !used[*k]) {
                        Some(k) => {
                            used[k] = true;
                            true
                        }
                        None => false,
                    },
                    "use" => used[o.1],
                    "free" => std::mem::replace(&mut used[o.1], false),
                    _ => {
                        nulls += 1;
                        true
                    }
                };
                if !ok || nulls > 1 {
                    continue 'seq;
                }
            }
            // a creation at the end adds nothing
            if len > 1 && ops[len - 1].0.starts_with("new") {
                continue;
            }
            if !s.case(|| format!("{ops:?}")) {
                continue;
            }
            let mut hs: [Option<Handle>; 2] = [None, None];
            for o in &ops {
                match o.0 {
                    "new D" | "new G" => {
                        let k = (0..2).find(|k| hs[*k].is_none()).unwrap();
                        hs[k] = Some(new(if o.0 == "new D" { Kind::D } else { Kind::G }));
                    }
                    "use" => {
                        life(hs[o.1].as_ref().unwrap(), &g[o.1], 300.0 + o.1 as f64, 4000.0);
                    }
                    "free" => free(hs[o.1].take().unwrap()),
                    "free null D" => free(Handle(Kind::D, std::ptr::null_mut())),
                    _ => free(Handle(Kind::G, std::ptr::null_mut())),
                }
            }
            hs.into_iter().flatten().for_each(free);
        }
    }
}

/// two or three threads, each with instances of its own, and instances handed over
fn threads(s: &mut Shard) {
    let g = gases();
    let run = |k: Kind, ffi: bool, x: &[f64; 21], t: f64| {
        if ffi {
            let h = new(k);
            life(&h, x, t, 4000.0);
            set(&h, &[0.0; 21]);
            both!(h, aga8_set_pressure, gerg_set_pressure, -1.0);
            solve(&h);
            free(h);
            return;
        }
        let c = comp(x);
        match k {
            Kind::D => {
                let mut m = Detail::new();
                let _ = m.set_composition(&c);
                m.t = t;
                m.p = 4000.0;
                let _ = m.density();
                m.properties();
                m.pressure();
                m.molar_mass();
            }
            Kind::G => {
                let mut m = Gerg2008::new();
                let _ = m.set_composition(&c);
                m.t = t;
                m.p = 4000.0;
                let _ = m.density(0);
                m.d = 0.0;
                let _ = m.density(1);
                m.d = 0.0;
                let _ = m.density(2);
                m.properties();
                m.pressure();
                m.molar_mass();
            }
        }
    };
    for a in [Kind::D, Kind::G] {
        for b in [Kind::D, Kind::G] {
            for (fa, fb) in [(false, false), (false, true), (true, true)] {
                for same in [false, true] {
                    if (a == Kind::G && b == Kind::D) && fa == fb {
                        continue;
                    }
                    let n = |k| if k == Kind::D { "Detail" } else { "Gerg2008" };
                    if !s.case(|| format!("{} {} and {} {} on two threads, {} inputs", n(a), if fa { "through C" } else { "" }, n(b), if fb { "through C" } else { "" }, if same { "equal" } else { "different" })) {
                        continue;
                    }
                    let (xa, xb) = (g[1], if same { g[1] } else { g[0] });
                    let (ta, tb) = (300.0, if same { 300.0 } else { 310.0 });
                    std::thread::scope(|sc| {
                        sc.spawn(|| run(a, fa, &xa, ta));
                        sc.spawn(|| run(b, fb, &xb, tb));
                    });
                }
            }
        }
    }
    for k in [Kind::D, Kind::G] {
        if s.case(|| "a handle made on one thread, used on a second, released on a third".into()) {
            let h = new(k);
            let h = std::thread::spawn(move || {
                let h = h;
                life(&h, &gases()[1], 300.0, 4000.0);
                h
            })
            .join()
            .unwrap();
            std::thread::spawn(move || {
                let h = h;
                free(h)
            })
            .join()
            .unwrap();
        }
    }
}

/// special values, one instance per shard, so that every case also follows another one
fn special(s: &mut Shard, depth: usize) {
    let sp: &[f64] = if depth < 2 { &[0.0, 300.0, -1.0, 1e300, f64::NAN] } else { &[0.0, 300.0, 5e-324, -1.0, 1e-15, 1e17, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] };
    let g = gases();
    let mut xs = vec![g[0], g[2]];
    if depth >= 2 {
        xs.extend([[0.0; 21], [f64::NAN; 21], [1e300; 21], [-1.0; 21]]);
    }
    let mut md = Detail::new();
    let mut mg = Gerg2008::new();
    for (ix, x) in xs.iter().enumerate() {
        for &t in sp {
            for &p in sp {
                for &d in sp {
                    for f in [-9i32, 0, 2] {
                        // the liquid search starts from a density of its own
                        if f == 2 && d != 0.0 {
                            continue;
                        }
                        if !s.case(|| format!("{} T={t:?} p={p:?} d={d:?} gas {ix} mode {f}", if f == -9 { "DETAIL" } else { "GERG" })) {
                            continue;
                        }
                        if f == -9 {
                            if md.set_composition(&comp(x)).is_err() {
                                md.x[..21].copy_from_slice(x);
                            }
                            (md.t, md.p, md.d) = (t, p, d);
                            let _ = md.density();
                            md.d = d;
                            md.pressure();
                            md.properties();
                            md.molar_mass();
                        } else {
                            if mg.set_composition(&comp(x)).is_err() {
                                mg.x[1..22].copy_from_slice(x);
                            }
                            (mg.t, mg.p, mg.d) = (t, p, d);
                            let _ = mg.density(f);
                            mg.d = d;
                            mg.pressure();
                            mg.properties();
                            mg.molar_mass();
                        }
                    }
                }
            }
        }
    }
}

/// results, for comparison between targets
fn values(s: &mut Shard) {
    let mut gs = gases();
    for i in 0..21 {
        gs.push(mix(&[(i, 0.35), ((i * 5 + 3) % 21, 0.65)]));
    }
    let (hd, hg) = (new(Kind::D), new(Kind::G));
    for (ix, x) in gs.iter().enumerate() {
        for (h, n) in [(&hd, "DETAIL"), (&hg, "GERG")] {
            for (t, p) in [(320.0, 10.0), (430.0, 5000.0)] {
                // heavy gases are not brought to high pressure: there may be two roots
                let p = if ix > 1 && p > 100.0 { 60.0 } else { p };
                if !s.case(|| format!("{n} T={t} p={p} gas {ix}")) {
                    continue;
                }
                for (j, v) in life(h, x, t, p).iter().enumerate() {
                    println!("{:016x} {n} {t} {p} gas {ix} value {j}", v.to_bits());
                }
                let c = comp(x);
                println!("{:016x} sum {ix}", c.sum().to_bits());
            }
        }
    }
    if s.case(|| "codes and layout".into()) {
        for (n, v) in [0.0, 1e-12, 0.985, 0.9901, 1.0, 1.0099, 1.015, f64::NAN, f64::INFINITY].iter().enumerate() {
            let mut x = gs[0].map(|f| f * v);
            println!("{:016x} code {n}", (set(&hd, &x) as f64).to_bits());
            println!("{:016x} code {n} gerg", (set(&hg, &x) as f64).to_bits());
            x[3] += 0.01;
            let mut c = comp(&x);
            let r = c.normalize().is_ok();
            println!("{:016x} normalized {n}", (r as u8 as f64).to_bits());
            println!("{:016x} normalized methane {n}", c.methane.to_bits());
        }
        for (n, v) in [
            ("Composition", std::mem::size_of::<Composition>()),
            ("Properties", std::mem::size_of::<aga8::ffi::Properties>()),
            ("offset argon", std::mem::offset_of!(Composition, argon)),
            ("offset kappa", std::mem::offset_of!(aga8::ffi::Properties, kappa)),
            ("CompositionError", std::mem::size_of::<CompositionError>()),
            ("DensityError", std::mem::size_of::<DensityError>()),
        ] {
            println!("{:016x} size {n}", (v as f64).to_bits());
        }
    }
    free(hd);
    free(hg);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let mut s = Shard { mode: a[1].clone(), i: num(2), of: num(3), n: 0, ran: 0 };
    let depth = num(4) as usize;
    match s.mode.as_str() {
        "mem" => mem(&mut s, depth),
        "threads" => threads(&mut s),
        "special" => special(&mut s, depth),
        "values" => values(&mut s),
        "none" => {}
        _ => panic!("mode?"),
    }
    println!("ran {}", s.ran);
}
