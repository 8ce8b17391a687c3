//! The library as others build it: C header and C programs (F03), build configurations (T02).
use super::hist::ident;
use crate::api::*;
use crate::engine::*;
use crate::gas::*;
use crate::workload;
use aga8::composition::{Composition, CompositionError};
use aga8::ffi::Properties;
use aga8::DensityError;
use std::io::Write;
use std::mem::{offset_of, size_of};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, OnceLock};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "F03", spaces: f03, assumptions: &["x86_64 Linux with the installed gcc and clang", "a C program is correct if it is so for the enumerated command sequences"] },
        Check { id: "T02", spaces: t02, assumptions: &["one target and one compiler version; results are compared at 1e-11 of their magnitude over the enumerated workload"] },
    ]
}

fn repo() -> PathBuf {
    PathBuf::from("/repo")
}
fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn cmd(c: &mut Command) -> Result<String, String> {
    cmd_for(c, u64::MAX)
}
/// ... ended after that many seconds
fn cmd_for(c: &mut Command, secs: u64) -> Result<String, String> {
    let Some(o) = output_within(c, secs).map_err(|e| format!("{c:?}: {e}"))? else {
        return Err(format!("{} does not end within {secs} s", c.get_program().to_string_lossy()));
    };
    if o.status.success() {
        Ok(String::from_utf8_lossy(&o.stdout).into_owned())
    } else {
        let e = String::from_utf8_lossy(&o.stderr).into_owned();
        let e: Vec<&str> = e.lines().filter(|l| !l.trim().is_empty()).take(12).collect();
        Err(format!("{}: {}\n{}", c.get_program().to_string_lossy(), o.status, e.join("\n")))
    }
}
/// `cargo build` of the repository itself, with its own profiles
fn cargo(release: bool, feature: bool) -> Result<PathBuf, String> {
    let dir = verif().join("target/ext");
    let mut c = Command::new("cargo");
    c.args(["build", "--offline", "--locked", "--lib", "--manifest-path"]).arg(repo().join("Cargo.toml"));
    if release {
        c.arg("--release");
    }
    if feature {
        c.args(["--features", "extern"]);
    }
    c.env("CARGO_TARGET_DIR", &dir).env("CARGO_NET_OFFLINE", "true").env_remove("RUSTFLAGS").env_remove("CARGO_ENCODED_RUSTFLAGS");
    cmd(&mut c)?;
    Ok(dir)
}

// ------------------------------------------------------------------------------------------ F03

const FUNCS: [&str; 28] = [
    "aga8_new", "aga8_free", "aga8_set_composition", "aga8_set_pressure", "aga8_get_pressure", "aga8_set_temperature", "aga8_get_temperature", "aga8_set_density", "aga8_get_density",
    "aga8_get_properties", "aga8_calculate_pressure", "aga8_calculate_molar_mass", "aga8_calculate_density", "aga8_calculate_properties", "gerg_new", "gerg_free", "gerg_set_composition",
    "gerg_set_pressure", "gerg_get_pressure", "gerg_set_temperature", "gerg_get_temperature", "gerg_set_density", "gerg_get_density", "gerg_get_properties", "gerg_calculate_pressure",
    "gerg_calculate_molar_mass", "gerg_calculate_density", "gerg_calculate_properties",
];
const LIBS: [&str; 7] = ["-lgcc_s", "-lutil", "-lrt", "-lpthread", "-lm", "-ldl", "-lc"];

struct Built {
    dir: PathBuf,
    header: String,
    so: PathBuf,
    a: PathBuf,
}

fn layout_rust() -> String {
    let mut s = format!("Composition {}\n", size_of::<Composition>());
    macro_rules! c { ($($f:ident)*) => { $( s += &format!("Composition.{} {} 8\n", stringify!($f), offset_of!(Composition, $f)); )* } }
    c!(methane nitrogen carbon_dioxide ethane propane isobutane n_butane isopentane n_pentane hexane heptane octane nonane decane hydrogen oxygen carbon_monoxide water hydrogen_sulfide helium argon);
    s += &format!("Properties {}\n", size_of::<Properties>());
    macro_rules! p { ($($f:ident)*) => { $( s += &format!("Properties.{} {} 8\n", stringify!($f), offset_of!(Properties, $f)); )* } }
    p!(d mm z dp_dd d2p_dd2 dp_dt u h s cv cp w g jt kappa);
    s += &format!("CompositionError {}\n", size_of::<CompositionError>());
    s += &format!("CompositionError.Ok {}\nCompositionError.Empty {}\nCompositionError.BadSum {}\n", CompositionError::Ok as i32, CompositionError::Empty as i32, CompositionError::BadSum as i32);
    s += &format!("DensityError {}\n", size_of::<DensityError>());
    s += &format!("DensityError.Ok {}\nDensityError.IterationFail {}\nDensityError.PressureTooLow {}\n", DensityError::Ok as i32, DensityError::IterationFail as i32, DensityError::PressureTooLow as i32);
    s
}

#[derive(Clone)]
enum W {
    New(Kind),
    NewIn(Kind, usize),
    Sel(usize),
    Free(usize),
    C(X),
    T(f64),
    P(f64),
    D(f64),
    Dens,
    Pres,
    Mm,
    Prop,
    Get,
}
/// scripts for the C program and what natively results
fn script(ws: &[W]) -> (String, Vec<(f64, String)>) {
    let mut t = String::new();
    let mut exp = vec![];
    let mut slots: Vec<Option<Box<dyn Eos>>> = (0..8).map(|_| None).collect();
    let mut cur = 0;
    let hx = |v: f64| format!("{:x}", v.to_bits());
    let mut hist = String::new();
    for w in ws {
        if hist.len() > 2000 {
            // (only the last of it)
            hist = format!("...{}", &hist[hist.len() - 300..]);
        }
        match w {
            W::New(k) => {
                t += if *k == Kind::Detail { "A 0\n" } else { "B 0\n" };
                cur = 0;
                slots[0] = Some(k.make());
                hist = k.name().to_string();
            }
            W::NewIn(k, i) => {
                t += &format!("{} {i}\n", if *k == Kind::Detail { "A" } else { "B" });
                cur = *i;
                slots[cur] = Some(k.make());
                hist += &format!("; new {} as {i}", k.name());
            }
            W::Sel(i) => {
                t += &format!("S {i}\n");
                cur = *i;
                hist += &format!("; with {i}");
            }
            W::Free(i) => {
                t += &format!("F {i}\n");
                cur = *i;
                slots[cur] = None;
                hist += &format!("; free {i}");
            }
            W::C(x) => {
                t += "C";
                x.iter().for_each(|v| {
                    t += " ";
                    t += &hx(*v);
                });
                t += "\n";
                hist += &format!("; set_composition({})", show(x));
                exp.push((slots[cur].as_mut().unwrap().set(&comp(x)) as f64, format!("{hist}: error code")));
            }
            W::T(v) => {
                t += &format!("T {}\n", hx(*v));
                slots[cur].as_mut().unwrap().set_t(*v);
                hist += &format!("; T={v:?}");
            }
            W::P(v) => {
                t += &format!("P {}\n", hx(*v));
                slots[cur].as_mut().unwrap().set_p(*v);
                hist += &format!("; P={v:?}");
            }
            W::D(v) => {
                t += &format!("D {}\n", hx(*v));
                slots[cur].as_mut().unwrap().set_d(*v);
                hist += &format!("; D={v:?}");
            }
            W::Dens => {
                t += "d\n";
                hist += "; calculate_density";
                exp.push((slots[cur].as_mut().unwrap().density(0) as f64, format!("{hist}: error code")));
            }
            W::Pres => {
                t += "p\n";
                hist += "; calculate_pressure";
                exp.push((slots[cur].as_mut().unwrap().pressure(), format!("{hist}: result")));
            }
            W::Mm => {
                t += "m\n";
                hist += "; calculate_molar_mass";
                exp.push((slots[cur].as_mut().unwrap().molar_mass(), format!("{hist}: result")));
            }
            W::Prop => {
                t += "r\n";
                hist += "; calculate_properties";
                slots[cur].as_mut().unwrap().properties();
            }
            W::Get => {
                t += "G\n";
                let m = slots[cur].as_ref().unwrap();
                let o = m.out();
                let n = ["temperature", "pressure", "density", "d", "mm", "z", "dp_dd", "d2p_dd2", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g", "jt", "kappa"];
                let v = [m.t(), m.p(), m.d(), m.d(), o[MM], o[Z], o[DPDD], o[D2PDD2], o[DPDT], o[U], o[H], o[S], o[CV], o[CP], o[W_], o[G_], o[JT], o[KAPPA]];
                for (n, v) in n.iter().zip(v) {
                    exp.push((v, format!("{hist}: {n}")));
                }
            }
        }
    }
    (t, exp)
}
const W_: usize = crate::api::W;
const G_: usize = crate::api::G;

fn scripts(tier: Tier) -> Vec<Vec<W>> {
    let mut v = vec![];
    let a = full();
    let cc = mix(&[(0, 0.9), (2, 0.06), (3, 0.04)]);
    for k in KINDS {
        // every component and many gases
        let mut xs: Vec<X> = (0..21).map(pure).collect();
        xs.extend(named().into_iter().map(|g| g.1));
        xs.extend(binaries(&[0.25]));
        xs.extend((0..21).map(|i| {
            let mut x = a;
            x.rotate_right(i);
            x
        }));
        xs.extend([[0.0; 21], [1.0; 21], [f64::NAN; 21], mix(&[(0, 0.98)]), mix(&[(0, 1.02)]), mix(&[(4, 0.991)]), mix(&[(20, 1.009)])]);
        for x in &xs {
            v.push(vec![W::New(k), W::C(*x), W::T(310.1), W::P(20.3), W::Get, W::Dens, W::Get, W::Prop, W::Get, W::D(3.1), W::Pres, W::Mm, W::Get, W::Prop, W::Get]);
        }
        // all short sequences
        let al = [W::C(a), W::C(cc), W::C([0.0; 21]), W::T(300.15), W::P(5000.3), W::P(0.0), W::D(6.1), W::D(-18.7), W::Dens, W::Pres, W::Mm, W::Prop];
        let n = al.len();
        for len in 1..=tier.pick(3, 4) {
            for i in 0..n.pow(len) {
                let mut s = vec![W::New(k), W::C(cc), W::T(279.65), W::P(2000.7)];
                let mut j = i;
                for _ in 0..len {
                    s.push(al[j % n].clone());
                    j /= n;
                }
                s.push(W::Get);
                v.push(s);
            }
        }
    }
    // what goes in comes out
    for k in KINDS {
        let mut s = vec![W::New(k), W::C(cc)];
        for e in 0..2048u64 {
            for m in [0x5_5555_5555_5555u64, 0] {
                let y = f64::from_bits(e << 52 | m) * if e % 2 == 0 { 1.0 } else { -1.0 };
                if !y.is_nan() {
                    s.extend([W::T(y), W::P(-y), W::D(y), W::Get]);
                }
            }
        }
        v.push(s);
    }
    // two handles: all merges of two programs
    let xs = [a, cc, mix(&[(1, 0.4), (17, 0.1), (4, 0.5)])];
    for (ka, kb) in KINDS.into_iter().flat_map(|a| KINDS.map(|b| (a, b))) {
        let pa = [W::C(xs[0]), W::T(290.1), W::P(4000.1), W::D(0.0), W::Dens, W::Prop];
        let pb = [W::C(xs[2]), W::T(400.3), W::D(2.3), W::Pres, W::Mm, W::Prop];
        for m in 0u32..1 << 12 {
            if m.count_ones() != 6 {
                continue;
            }
            let mut s = vec![W::NewIn(ka, 0), W::NewIn(kb, 1)];
            let (mut i, mut j, mut last) = (0, 0, 1);
            for n in 0..12 {
                let w = (m >> n & 1) as usize;
                if w != last {
                    s.push(W::Sel(w));
                    last = w;
                }
                if w == 0 {
                    s.push(pa[i].clone());
                    i += 1;
                } else {
                    s.push(pb[j].clone());
                    j += 1;
                }
            }
            s.extend([W::Sel(0), W::Get, W::Sel(1), W::Get]);
            v.push(s);
        }
    }
    // creating, using and freeing three handles in every order
    let len = tier.pick(5, 6);
    fn go(left: usize, alive: &mut [Option<Kind>; 3], s: &mut Vec<W>, xs: &[X; 3], v: &mut Vec<Vec<W>>) {
        if left == 0 {
            let mut s = s.clone();
            for i in 0..3 {
                if alive[i].is_some() {
                    s.extend([W::Sel(i), W::Get, W::Prop, W::Get]);
                }
            }
            s.extend([W::Free(0), W::Free(1), W::Free(2)]);
            v.push(s);
            return;
        }
        for i in 0..3 {
            let n = s.len();
            let was = alive[i];
            match was {
                None => {
                    for k in KINDS {
                        alive[i] = Some(k);
                        s.push(W::NewIn(k, i));
                        go(left - 1, alive, s, xs, v);
                        s.truncate(n);
                    }
                }
                Some(_) => {
                    s.extend([W::Sel(i), W::C(xs[i]), W::T(300.1 + 10.0 * i as f64), W::P(3000.1 * (i + 1) as f64), W::Dens, W::Mm, W::Get]);
                    go(left - 1, alive, s, xs, v);
                    s.truncate(n);
                    alive[i] = None;
                    s.push(W::Free(i));
                    go(left - 1, alive, s, xs, v);
                    s.truncate(n);
                }
            }
            alive[i] = was;
        }
    }
    let mut s = vec![];
    go(len, &mut [None; 3], &mut s, &xs, &mut v);
    v
}

fn f03(tier: Tier) -> Vec<Space> {
    let dir = cargo(true, true).unwrap_or_else(|e| panic!("harness: cannot build the library: {e}"));
    let keep = verif().join("target/f03");
    std::fs::create_dir_all(&keep).unwrap();
    // private copies: other builds share the directory
    for (from, to) in [("aga8.h", "aga8.h"), ("release/libaga8.so", "libaga8.so"), ("release/libaga8.a", "libaga8.a")] {
        let _ = std::fs::remove_file(keep.join(to));
        let _ = std::fs::copy(dir.join(from), keep.join(to));
    }
    let b = Arc::new(Built { header: std::fs::read_to_string(keep.join("aga8.h")).unwrap_or_default(), so: keep.join("libaga8.so"), a: keep.join("libaga8.a"), dir: keep });
    let mut v = vec![];
    let ccs = ["gcc", "clang"];
    let stds: &'static [&'static str] = &["c99", "c11", "c17", "gnu11"];
    let opts: &'static [&'static str] = &["-O0", "-O2"];
    let b1 = b.clone();
    v.push(space("the header compiles without warnings", ccs.len() * stds.len(), move |i, c| {
        let (cc, std) = (ccs[i as usize / stds.len()], stds[i as usize % stds.len()]);
        let src = b1.dir.join(format!("only-{cc}-{std}.c"));
        std::fs::write(&src, "#include \"aga8.h\"\nint main(void) { return 0; }\n").unwrap();
        let r = cmd(Command::new(cc).args([&format!("-std={std}"), "-Wall", "-Wextra", "-Wpedantic", "-Wstrict-prototypes", "-Werror", "-fsyntax-only", "-I"]).arg(&b1.dir).arg(&src));
        c.op(1);
        c.trace();
        c.state_h(i);
        match r {
            Err(e) => c.fail("header", format!("the generated header does not compile: {e}")),
            Ok(_) => c.outcome("header compiles"),
        }
        c.sample(|| format!("{cc} -std={std}"));
    }));
    // every function, in both directions
    let b2 = b.clone();
    v.push(space("every function is declared and exported", FUNCS.len() + 2, move |i, c| {
        c.op(1);
        c.trace();
        c.state_h(i | 1 << 40);
        let syms = |lib: &Path, a: &[&str]| -> Vec<String> {
            let t = cmd(Command::new("nm").args(a).arg(lib)).unwrap_or_default();
            t.lines().filter_map(|l| l.split_once(" T ").map(|x| x.1.trim().to_string())).collect()
        };
        let i = i as usize;
        if i >= FUNCS.len() {
            // whatever the library exports is declared by the header
            let (lib, s) = if i == FUNCS.len() { ("shared", syms(&b2.so, &["-D", "--defined-only"])) } else { ("static", syms(&b2.a, &["--defined-only"])) };
            for f in s.iter().filter(|f| f.starts_with("aga8_") || f.starts_with("gerg_") || (lib == "shared" && !f.starts_with('_') && !f.starts_with("rust"))) {
                if !b2.header.contains(&format!("{f}(")) {
                    c.fail("undeclared", format!("the {lib} library exports {f}, which the header does not declare"));
                }
            }
            c.outcome("exports declared");
            return;
        }
        let f = FUNCS[i];
        let src = b2.dir.join(format!("use-{f}.c"));
        std::fs::write(&src, format!("#include \"aga8.h\"\nint main(void) {{ void (*volatile p)(void) = (void (*)(void)){f}; return p == 0; }}\n")).unwrap();
        for (n, l) in [("shared", &b2.so), ("static", &b2.a)] {
            let out = b2.dir.join(format!("use-{f}-{n}"));
            let mut k = Command::new("gcc");
            k.args(["-std=c11", "-Wall", "-Werror", "-I"]).arg(&b2.dir).arg(&src).arg(l).args(LIBS).arg("-o").arg(&out);
            let r = cmd(&mut k);
            let _ = std::fs::remove_file(&out);
            if let Err(e) = r {
                c.fail("function", format!("{f} cannot be used with the header and the {n} library: {e}"));
                return;
            }
        }
        c.outcome("function usable");
    }));
    // C programs
    let sc = Arc::new(scripts(tier));
    let exp: Arc<OnceLock<(String, Vec<(f64, String)>)>> = Arc::new(OnceLock::new());
    let nopt = opts.len();
    let combos = ccs.len() * stds.len() * nopt * 2;
    v.push(space("C programs: layout and all command sequences", combos, move |i, c| {
        let i = i as usize;
        let (cc, std, opt, st) = (ccs[i / 2 / nopt / stds.len()], stds[i / 2 / nopt % stds.len()], opts[i / 2 % nopt], i % 2 == 1);
        let out = b.dir.join(format!("driver-{i}"));
        let lib = if st { &b.a } else { &b.so };
        let mut k = Command::new(cc);
        k.args([&format!("-std={std}"), opt, "-Wall", "-Wextra", "-Wpedantic", "-Werror", "-I"]).arg(&b.dir).arg(verif().join("mc/c/driver.c")).arg(lib).args(LIBS).arg("-o").arg(&out);
        k.arg(format!("-Wl,-rpath,{}", b.dir.display()));
        if let Err(e) = cmd(&mut k) {
            c.fail("program", format!("a C program using the header and the library does not build: {e}"));
            return;
        }
        let what = format!("{cc} -std={std} {opt} with the {} library", if st { "static" } else { "shared" });
        let lay = cmd(Command::new(&out).arg("layout"));
        let want = layout_rust();
        match lay {
            Err(e) => {
                c.fail("program", format!("{what}: {e}"));
                return;
            }
            Ok(l) => {
                if let Some((a, b)) = l.lines().zip(want.lines()).find(|(a, b)| a != b) {
                    c.fail("layout", format!("{what}: C has \"{a}\" (name, offset or value, size), the library \"{b}\""));
                    return;
                }
            }
        }
        let (script, exp) = exp.get_or_init(|| {
            let mut t = String::new();
            let mut e = vec![];
            for s in sc.iter() {
                let (a, b) = script(s);
                t += &a;
                e.extend(b);
            }
            (t, e)
        });
        let mut ch = Command::new(&out).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("driver");
        let mut si = ch.stdin.take().unwrap();
        let res = std::thread::scope(|s| {
            s.spawn(move || {
                let _ = si.write_all(script.as_bytes());
            });
            ch.wait_with_output().expect("driver")
        });
        let _ = std::fs::remove_file(&out);
        let text = String::from_utf8_lossy(&res.stdout);
        let got: Vec<f64> = text.lines().map(|l| f64::from_bits(u64::from_str_radix(l, 16).unwrap_or(u64::MAX))).collect();
        c.op(exp.len() as u64);
        c.traces += sc.len() as u64;
        for k in 0..sc.len() as u64 {
            c.state_h((i as u64) << 40 | k | 1 << 60);
        }
        for (n, (w, name)) in exp.iter().enumerate() {
            match got.get(n) {
                None => {
                    c.fail("program", format!("{what}: the program ended ({}) before: {name}", res.status));
                    return;
                }
                Some(g) => {
                    if !(ident(*g, *w) || (g - w).abs() <= 1e-11 * w.abs().max(1e-3)) {
                        c.fail("result", format!("{what}: {name} is {g:?} in C and {w:?} natively"));
                        return;
                    }
                }
            }
        }
        if !res.status.success() {
            c.fail("program", format!("{what}: the program ended with {}", res.status));
            return;
        }
        c.outcome("C program agrees");
        c.sample(|| what.clone());
    }));
    v
}

// ------------------------------------------------------------------------------------------ T02

#[derive(Clone)]
enum Conf {
    /// opt-level, debug assertions, overflow checks, feature, panic=abort
    Rustc(&'static str, bool, bool, bool, bool),
    /// further flags
    With(&'static [&'static str]),
    /// release, feature
    Cargo(bool, bool),
}
fn t02(tier: Tier) -> Vec<Space> {
    let dir = verif().join("target/t02");
    std::fs::create_dir_all(&dir).unwrap();
    let mut confs = vec![];
    for f in [false, true] {
        for r in [false, true] {
            confs.push(Conf::Cargo(r, f));
        }
    }
    let levels: &[&'static str] = if tier == Tier::Quick { &["0", "2", "3", "z"] } else { &["0", "1", "2", "3", "s", "z"] };
    for l in levels {
        for da in [false, true] {
            for f in [false, true] {
                if tier == Tier::Quick {
                    confs.push(Conf::Rustc(l, da, da, f, false));
                } else {
                    for oc in [false, true] {
                        for ab in [false, true] {
                            confs.push(Conf::Rustc(l, da, oc, f, ab));
                        }
                    }
                }
            }
        }
    }
    // what else a user may set
    confs.extend([
        Conf::With(&["-Copt-level=3", "-Ctarget-cpu=native"]),
        Conf::With(&["-Copt-level=3", "-Ctarget-cpu=native", "-Cdebug-assertions=on"]),
        Conf::With(&["-Copt-level=1", "-Cdebuginfo=2"]),
        Conf::With(&["-Copt-level=s", "-Coverflow-checks=on"]),
        Conf::With(&["-Copt-level=3", "-Cpanic=abort", "-Ccodegen-units=1"]),
        Conf::With(&["-Copt-level=3", "-Clto=fat", "-Cembed-bitcode=yes"]),
        Conf::With(&["-Copt-level=2", "-Crelocation-model=static"]),
    ]);
    // the builds with the repository's own profiles, one after the other (they share a directory)
    let mut rl: Vec<(usize, Result<PathBuf, String>)> = vec![];
    for (i, c) in confs.iter().enumerate() {
        if let Conf::Cargo(r, f) = c {
            let res = cargo(*r, *f).map(|d| {
                let to = dir.join(format!("cargo{i}"));
                std::fs::create_dir_all(&to).unwrap();
                let to = to.join("libaga8.rlib");
                let _ = std::fs::remove_file(&to);
                std::fs::copy(d.join(if *r { "release" } else { "debug" }).join("libaga8.rlib"), &to).map(|_| to).map_err(|e| e.to_string())
            });
            rl.push((
                i,
                match res {
                    Ok(Ok(p)) => Ok(p),
                    Ok(Err(e)) | Err(e) => Err(e),
                },
            ));
        }
    }
    let base = Arc::new(OnceLock::new());
    let b0 = base.clone();
    let mut v = vec![space("the checked build x one workload", 1, move |_, c| {
        let b = b0.get_or_init(workload::run);
        c.op(b.len() as u64);
        c.trace();
    })];
    v.push(Space { patient: true, ..space("build configurations x one workload", confs.len(), move |i, c| {
        let base = base.get_or_init(workload::run);
        let nb = base.len();
        let d = dir.join(format!("c{i}"));
        std::fs::create_dir_all(&d).unwrap();
        let (what, lib, flags): (String, Result<PathBuf, String>, Vec<String>) = match &confs[i as usize] {
            Conf::Cargo(r, f) => (
                format!("cargo build {}{}", if *r { "--release " } else { "" }, if *f { "--features extern" } else { "" }),
                rl.iter().find(|x| x.0 == i as usize).unwrap().1.clone(),
                vec!["-Copt-level=0".into()],
            ),
            Conf::With(fl) => {
                let fl: Vec<String> = fl.iter().map(|f| f.to_string()).collect();
                let out = d.join("libaga8.rlib");
                let mut k = Command::new("rustc");
                k.args(["--edition", "2021", "--crate-name", "aga8", "--crate-type", "rlib", "--cap-lints", "allow"]).args(&fl).arg("-o").arg(&out).arg(repo().join("src/lib.rs"));
                (format!("rustc {}", fl.join(" ")), cmd(&mut k).map(|_| out), fl)
            }
            Conf::Rustc(l, da, oc, f, ab) => {
                let fl: Vec<String> = vec![
                    format!("-Copt-level={l}"),
                    format!("-Cdebug-assertions={}", if *da { "on" } else { "off" }),
                    format!("-Coverflow-checks={}", if *oc { "on" } else { "off" }),
                    format!("-Cpanic={}", if *ab { "abort" } else { "unwind" }),
                ];
                let out = d.join("libaga8.rlib");
                let mut k = Command::new("rustc");
                k.args(["--edition", "2021", "--crate-name", "aga8", "--crate-type", "rlib", "--cap-lints", "allow"]).args(&fl);
                if *f {
                    k.args(["--cfg", "feature=\"extern\""]);
                }
                k.arg("-o").arg(&out).arg(repo().join("src/lib.rs"));
                (format!("rustc {}{}", fl.join(" "), if *f { " with feature extern" } else { "" }), cmd(&mut k).map(|_| out), fl)
            }
        };
        c.op(1);
        c.state_h(i);
        let lib = match lib {
            Ok(l) => l,
            Err(e) => {
                c.fail("build", format!("{what}: the library does not build: {e}"));
                return;
            }
        };
        let exe = d.join("run");
        let mut k = Command::new("rustc");
        k.args(["--edition", "2021", "--crate-name", "t02", "--cap-lints", "allow"]).args(&flags).arg("--extern").arg(format!("aga8={}", lib.display())).arg("-o").arg(&exe).arg(verif().join("mc/c/t02_main.rs"));
        if let Err(e) = cmd(&mut k) {
            panic!("harness: {what}: the workload does not build: {e}");
        }
        let r = cmd_for(&mut Command::new(&exe), 200);
        let _ = std::fs::remove_dir_all(&d);
        let t = match r {
            Ok(t) => t,
            Err(e) => {
                c.fail("run", format!("{what}: the workload does not run to its end: {e}"));
                return;
            }
        };
        c.op(nb as u64);
        let got: Vec<(f64, &str)> = t.lines().map(|l| (f64::from_bits(u64::from_str_radix(&l[..16], 16).unwrap()), &l[17..])).collect();
        for (j, (n, v, m)) in base.iter().enumerate() {
            let Some((g, gn)) = got.get(j) else {
                c.fail("run", format!("{what}: the workload ends before {n}"));
                return;
            };
            if gn != n {
                c.fail("run", format!("{what}: \"{gn}\", in the checked build \"{n}\" (one of them panics)"));
                return;
            }
            if !(ident(*g, *v) || (g - v).abs() <= 1e-11 * v.abs().max(*m)) {
                c.fail("value", format!("{what}: {n} = {g:?}, in the checked build {v:?}"));
                return;
            }
            if n.ends_with("PANIC") {
                c.fail("panic", format!("{n} in every build"));
                return;
            }
        }
        c.traces += nb as u64;
        c.outcome("build agrees");
        c.sample(|| format!("{what}: {nb} results"));
    })});
    v.push(super::miri::targets(tier.pick(super::miri::QUICK, super::miri::ALL), 8));
    v
}
