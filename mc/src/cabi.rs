//! The exported functions, called with the types the C interface has had from the start: what a program compiled
//! against it passes and expects, whatever the functions are declared with now.
macro_rules! module {
    ($m:ident, $ty:ty, $($f:ident($($a:ident: $t:ty),*) $(-> $r:ty)?;)*) => {
        pub mod $m {
            #[allow(unused_imports)]
            use aga8::{composition::{Composition, CompositionError}, ffi::Properties, DensityError};
            $(
                #[inline]
                pub unsafe fn $f($($a: $t),*) $(-> $r)? {
                    let f = std::mem::transmute::<*const (), unsafe extern "C" fn($($t),*) $(-> $r)?>(aga8::ffi::$m::$f as *const ());
                    f($($a),*)
                }
            )*
        }
    };
}
macro_rules! model {
    ($m:ident, $ty:ty, $new:ident, $free:ident, $set:ident, $sp:ident, $gp:ident, $st:ident, $gt:ident, $sd:ident, $gd:ident, $props:ident, $cp:ident, $cm:ident, $cd:ident, $cpr:ident) => {
        module!($m, $ty,
            $new() -> *mut $ty;
            $free(p: *mut $ty);
            $set(p: *mut $ty, c: *const Composition, e: *mut CompositionError);
            $sp(p: *mut $ty, v: f64);
            $gp(p: *mut $ty) -> f64;
            $st(p: *mut $ty, v: f64);
            $gt(p: *mut $ty) -> f64;
            $sd(p: *mut $ty, v: f64);
            $gd(p: *mut $ty) -> f64;
            $props(p: *mut $ty) -> Properties;
            $cp(p: *mut $ty) -> f64;
            $cm(p: *mut $ty) -> f64;
            $cd(p: *mut $ty, e: *mut DensityError);
            $cpr(p: *mut $ty);
        );
    };
}
model!(
    detail, aga8::detail::Detail, aga8_new, aga8_free, aga8_set_composition, aga8_set_pressure, aga8_get_pressure, aga8_set_temperature,
    aga8_get_temperature, aga8_set_density, aga8_get_density, aga8_get_properties, aga8_calculate_pressure, aga8_calculate_molar_mass,
    aga8_calculate_density, aga8_calculate_properties
);
model!(
    gerg2008, aga8::gerg2008::Gerg2008, gerg_new, gerg_free, gerg_set_composition, gerg_set_pressure, gerg_get_pressure, gerg_set_temperature,
    gerg_get_temperature, gerg_set_density, gerg_get_density, gerg_get_properties, gerg_calculate_pressure, gerg_calculate_molar_mass,
    gerg_calculate_density, gerg_calculate_properties
);
