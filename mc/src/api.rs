//! The code under test behind one interface: both models, natively and through the C interface.
use aga8::composition::{Composition, CompositionError};
use aga8::detail::Detail;
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;

pub type X = [f64; 21];
pub const NAMES: [&str; 21] = [
    "methane", "nitrogen", "carbon_dioxide", "ethane", "propane", "isobutane", "n_butane", "isopentane", "n_pentane", "hexane", "heptane",
    "octane", "nonane", "decane", "hydrogen", "oxygen", "carbon_monoxide", "water", "hydrogen_sulfide", "helium", "argon",
];

pub fn comp(x: &X) -> Composition {
    Composition {
        methane: x[0],
        nitrogen: x[1],
        carbon_dioxide: x[2],
        ethane: x[3],
        propane: x[4],
        isobutane: x[5],
        n_butane: x[6],
        isopentane: x[7],
        n_pentane: x[8],
        hexane: x[9],
        heptane: x[10],
        octane: x[11],
        nonane: x[12],
        decane: x[13],
        hydrogen: x[14],
        oxygen: x[15],
        carbon_monoxide: x[16],
        water: x[17],
        hydrogen_sulfide: x[18],
        helium: x[19],
        argon: x[20],
    }
}
pub fn uncomp(c: &Composition) -> X {
    [
        c.methane, c.nitrogen, c.carbon_dioxide, c.ethane, c.propane, c.isobutane, c.n_butane, c.isopentane, c.n_pentane, c.hexane, c.heptane,
        c.octane, c.nonane, c.decane, c.hydrogen, c.oxygen, c.carbon_monoxide, c.water, c.hydrogen_sulfide, c.helium, c.argon,
    ]
}

/// 0 ok, 1 empty, 2 bad sum
pub fn ccode(r: &Result<(), CompositionError>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(e) => cerr(e),
    }
}
pub fn cerr(e: &CompositionError) -> i32 {
    match e {
        CompositionError::Ok => 0,
        CompositionError::Empty => 1,
        CompositionError::BadSum => 2,
        #[allow(unreachable_patterns)]
        _ => 9,
    }
}
/// 0 ok, 1 iteration failed, 2 pressure too low
pub fn dcode(r: &Result<(), DensityError>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(e) => derr(e),
    }
}
pub fn derr(e: &DensityError) -> i32 {
    match e {
        DensityError::Ok => 0,
        DensityError::IterationFail => 1,
        DensityError::PressureTooLow => 2,
        #[allow(unreachable_patterns)]
        _ => 9,
    }
}

/// names of the calculated outputs, in the order of `Out`
pub const ON: [&str; 15] = ["mm", "z", "dp_dd", "d2p_dd2", "d2p_dtd", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g", "jt", "kappa"];
pub const MM: usize = 0;
pub const Z: usize = 1;
pub const DPDD: usize = 2;
pub const D2PDD2: usize = 3;
pub const D2PDTD: usize = 4;
pub const DPDT: usize = 5;
pub const U: usize = 6;
pub const H: usize = 7;
pub const S: usize = 8;
pub const CV: usize = 9;
pub const CP: usize = 10;
pub const W: usize = 11;
pub const G: usize = 12;
pub const JT: usize = 13;
pub const KAPPA: usize = 14;
pub type Out = [f64; 15];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Detail,
    Gerg,
}
use Kind::*;
pub const KINDS: [Kind; 2] = [Detail, Gerg];
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Detail => "DETAIL",
            Gerg => "GERG",
        }
    }
    pub fn r(self) -> f64 {
        match self {
            Detail => refmodel::tab_detail::R,
            Gerg => refmodel::tab_gerg::R,
        }
    }
    pub fn mm_table(self) -> &'static [f64; 21] {
        match self {
            Detail => &refmodel::tab_detail::MM,
            Gerg => &refmodel::tab_gerg::MM,
        }
    }
    pub fn reference(self, x: &X, t: f64, d: f64) -> refmodel::State {
        match self {
            Detail => refmodel::detail(x, t, d),
            Gerg => refmodel::gerg(x, t, d),
        }
    }
    pub fn make(self) -> Box<dyn Eos> {
        match self {
            Detail => Box::new(Own(aga8::detail::Detail::new())),
            Gerg => Box::new(Own(Gerg2008::new())),
        }
    }
    pub fn make_default(self) -> Box<dyn Eos> {
        match self {
            Detail => Box::new(Own(aga8::detail::Detail::default())),
            Gerg => Box::new(Own(Gerg2008::default())),
        }
    }
    pub fn make_ffi(self) -> Box<dyn Eos> {
        match self {
            Detail => Box::new(FDetail::new()),
            Gerg => Box::new(FGerg::new()),
        }
    }
}

pub trait Eos: Send {
    fn kind(&self) -> Kind;
    fn set(&mut self, c: &Composition) -> i32;
    fn set_t(&mut self, v: f64);
    fn set_p(&mut self, v: f64);
    fn set_d(&mut self, v: f64);
    fn t(&self) -> f64;
    fn p(&self) -> f64;
    fn d(&self) -> f64;
    fn pressure(&mut self) -> f64;
    /// flag is ignored by DETAIL
    fn density(&mut self, flag: i32) -> i32;
    /// the pressure of the state (returned or stored, depending on the model)
    fn properties(&mut self) -> f64;
    fn molar_mass(&mut self) -> f64;
    fn out(&self) -> Out;
    /// composition by component, in field order
    fn x(&self) -> X;
    fn set_x(&mut self, x: &X);
}

/// A native instance.  It is moved between threads whether or not the library's type allows it: that it
/// does is a verdict of H03, and must not keep the harness from building.
pub struct Own<T>(pub T);
unsafe impl<T> Send for Own<T> {}
pub struct IsSend<T>(std::marker::PhantomData<T>);
impl<T: Send> IsSend<T> {
    pub const YES: bool = true;
}
pub trait NotSend {
    const YES: bool = false;
}
impl<T> NotSend for IsSend<T> {}

impl Eos for Own<Detail> {
    fn kind(&self) -> Kind {
        Kind::Detail
    }
    fn set(&mut self, c: &Composition) -> i32 {
        ccode(&self.0.set_composition(c))
    }
    fn set_t(&mut self, v: f64) {
        self.0.t = v
    }
    fn set_p(&mut self, v: f64) {
        self.0.p = v
    }
    fn set_d(&mut self, v: f64) {
        self.0.d = v
    }
    fn t(&self) -> f64 {
        self.0.t
    }
    fn p(&self) -> f64 {
        self.0.p
    }
    fn d(&self) -> f64 {
        self.0.d
    }
    fn pressure(&mut self) -> f64 {
        self.0.pressure()
    }
    fn density(&mut self, _flag: i32) -> i32 {
        dcode(&self.0.density())
    }
    fn properties(&mut self) -> f64 {
        self.0.properties();
        self.0.p
    }
    fn molar_mass(&mut self) -> f64 {
        self.0.molar_mass()
    }
    fn out(&self) -> Out {
        [
            self.0.mm, self.0.z, self.0.dp_dd, self.0.d2p_dd2, self.0.d2p_dtd, self.0.dp_dt, self.0.u, self.0.h, self.0.s, self.0.cv, self.0.cp, self.0.w, self.0.g, self.0.jt,
            self.0.kappa,
        ]
    }
    fn x(&self) -> X {
        let mut o = [0.0; 21];
        o.copy_from_slice(&self.0.x[..21]);
        o
    }
    fn set_x(&mut self, x: &X) {
        self.0.x[..21].copy_from_slice(x);
    }
}
impl Eos for Own<Gerg2008> {
    fn kind(&self) -> Kind {
        Gerg
    }
    fn set(&mut self, c: &Composition) -> i32 {
        ccode(&self.0.set_composition(c))
    }
    fn set_t(&mut self, v: f64) {
        self.0.t = v
    }
    fn set_p(&mut self, v: f64) {
        self.0.p = v
    }
    fn set_d(&mut self, v: f64) {
        self.0.d = v
    }
    fn t(&self) -> f64 {
        self.0.t
    }
    fn p(&self) -> f64 {
        self.0.p
    }
    fn d(&self) -> f64 {
        self.0.d
    }
    fn pressure(&mut self) -> f64 {
        self.0.pressure()
    }
    fn density(&mut self, flag: i32) -> i32 {
        dcode(&self.0.density(flag))
    }
    fn properties(&mut self) -> f64 {
        self.0.properties()
    }
    fn molar_mass(&mut self) -> f64 {
        self.0.molar_mass();
        self.0.mm
    }
    fn out(&self) -> Out {
        [
            self.0.mm, self.0.z, self.0.dp_dd, self.0.d2p_dd2, self.0.d2p_dtd, self.0.dp_dt, self.0.u, self.0.h, self.0.s, self.0.cv, self.0.cp, self.0.w, self.0.g, self.0.jt,
            self.0.kappa,
        ]
    }
    fn x(&self) -> X {
        let mut o = [0.0; 21];
        o.copy_from_slice(&self.0.x[1..22]);
        o
    }
    fn set_x(&mut self, x: &X) {
        self.0.x[1..22].copy_from_slice(x);
    }
}

macro_rules! ffi {
    ($n:ident, $m:ident, $ty:ty, $kind:expr, $new:ident, $free:ident, $set:ident, $sp:ident, $gp:ident, $st:ident, $gt:ident, $sd:ident, $gd:ident, $props:ident, $cp:ident, $cm:ident, $cd:ident, $cpr:ident) => {
        /// A handle obtained and used through the C interface only.
        pub struct $n(pub *mut $ty);
        unsafe impl Send for $n {}
        impl $n {
            pub fn new() -> Self {
                $n(unsafe { crate::cabi::$m::$new() })
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                unsafe { crate::cabi::$m::$free(self.0) }
            }
        }
        impl Eos for $n {
            fn kind(&self) -> Kind {
                $kind
            }
            fn set(&mut self, c: &Composition) -> i32 {
                let mut e = CompositionError::BadSum;
                unsafe { crate::cabi::$m::$set(self.0, c, &mut e) };
                cerr(&e)
            }
            fn set_t(&mut self, v: f64) {
                unsafe { crate::cabi::$m::$st(self.0, v) }
            }
            fn set_p(&mut self, v: f64) {
                unsafe { crate::cabi::$m::$sp(self.0, v) }
            }
            fn set_d(&mut self, v: f64) {
                unsafe { crate::cabi::$m::$sd(self.0, v) }
            }
            fn t(&self) -> f64 {
                unsafe { crate::cabi::$m::$gt(self.0) }
            }
            fn p(&self) -> f64 {
                unsafe { crate::cabi::$m::$gp(self.0) }
            }
            fn d(&self) -> f64 {
                unsafe { crate::cabi::$m::$gd(self.0) }
            }
            fn pressure(&mut self) -> f64 {
                unsafe { crate::cabi::$m::$cp(self.0) }
            }
            fn density(&mut self, _flag: i32) -> i32 {
                let mut e = DensityError::PressureTooLow;
                unsafe { crate::cabi::$m::$cd(self.0, &mut e) };
                derr(&e)
            }
            fn properties(&mut self) -> f64 {
                unsafe { crate::cabi::$m::$cpr(self.0) };
                self.p()
            }
            fn molar_mass(&mut self) -> f64 {
                unsafe { crate::cabi::$m::$cm(self.0) }
            }
            /// d2p_dtd is not part of the C structure
            fn out(&self) -> Out {
                let q = unsafe { crate::cabi::$m::$props(self.0) };
                [q.mm, q.z, q.dp_dd, q.d2p_dd2, 0.0, q.dp_dt, q.u, q.h, q.s, q.cv, q.cp, q.w, q.g, q.jt, q.kappa]
            }
            fn x(&self) -> X {
                [f64::NAN; 21]
            }
            fn set_x(&mut self, _x: &X) {
                unimplemented!()
            }
        }
    };
}
ffi!(
    FDetail, detail, Detail, Kind::Detail, aga8_new, aga8_free, aga8_set_composition, aga8_set_pressure, aga8_get_pressure, aga8_set_temperature,
    aga8_get_temperature, aga8_set_density, aga8_get_density, aga8_get_properties, aga8_calculate_pressure, aga8_calculate_molar_mass,
    aga8_calculate_density, aga8_calculate_properties
);
ffi!(
    FGerg, gerg2008, Gerg2008, Kind::Gerg, gerg_new, gerg_free, gerg_set_composition, gerg_set_pressure, gerg_get_pressure, gerg_set_temperature,
    gerg_get_temperature, gerg_set_density, gerg_get_density, gerg_get_properties, gerg_calculate_pressure, gerg_calculate_molar_mass,
    gerg_calculate_density, gerg_calculate_properties
);
