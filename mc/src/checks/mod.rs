use crate::engine::Check;
mod compo;
mod density;
mod ext;
mod ffi;
pub mod hist;
mod long;
mod miri;
mod physics;
mod sched;
mod values;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(values::checks());
    v.extend(physics::checks());
    v.extend(density::checks());
    v.extend(hist::checks());
    v.extend(sched::checks());
    v.extend(compo::checks());
    v.extend(ffi::checks());
    v.extend(ext::checks());
    v
}
/// child processes of checks
pub fn aux(a: &[&str]) -> i32 {
    match a {
        ["null", name] => {
            ffi::call_null(name);
            0
        }
        ["first", tier, case] => crate::first::main(if *tier == "quick" { crate::engine::Tier::Quick } else { crate::engine::Tier::Thorough }, case.parse().unwrap()),
        ["miri"] => miri::prepare(),
        _ => 2,
    }
}
