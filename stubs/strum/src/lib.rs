//! Stand-in for `strum`: the one derive that air uses.
pub use strum_derive_standin::IntoStaticStr;
