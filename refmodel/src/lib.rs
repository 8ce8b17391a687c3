//! Independent, stateless reference of the AGA8 DETAIL and GERG-2008 equations of state.
//! Does not depend on the crate under test.
mod model;
#[rustfmt::skip]
pub mod tab_detail;
#[rustfmt::skip]
pub mod tab_gerg;
pub use model::*;
