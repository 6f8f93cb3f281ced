//! Harnesses: each entry builds symbolic inputs, runs the real code of /repo through its public
//! API and asserts one property against an independent reference model.
#![allow(dead_code, unused_imports, unused_macros)]
pub mod sym;
#[macro_use]
pub mod model;
#[cfg(feature = "files")]
pub mod vfs;
/// the program of that name
#[cfg(feature = "c27")] pub use c27::tool;
#[cfg(all(feature = "c22", not(feature = "c27")))] pub use c22::tool;
pub type Entry = extern "C-unwind" fn();

/// Defines the engine's entry points and the table the native replayer looks them up in.
#[macro_export]
macro_rules! entries { ($($n:ident => $e:expr;)*) => {
    $( #[no_mangle] pub extern "C-unwind" fn $n() { $e } )*
    pub const ENTRIES: &[(&str, $crate::Entry)] = &[$( (stringify!($n), $n) ),*];
} }
/// No families of FBASs / no other entries.
#[macro_export]
macro_rules! nomenu { () => { pub const MENU: &[(&str, $crate::Entry)] = &[]; } }
macro_rules! modules { ($($m:ident $f:literal),*) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    pub fn find(name: &str) -> Option<Entry> {
        $( #[cfg(feature = $f)] if let Some(e) = $m::ENTRIES.iter().chain($m::MENU).find(|e| e.0 == name) { return Some(e.1) } )*
        let _ = name; None
    }
} }
modules!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13",
    c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20", c21 "c21", c22 "c22", c23 "c23", c24 "c24", c25 "c25", c26 "c26", c27 "c27");
