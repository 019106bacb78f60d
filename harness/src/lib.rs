//! Harnesses: every module nXX states property NXX of /verif/properties.jsonl as checks over
//! symbolic inputs. They call the public interface of the real crate in /repo.
mod disk;
mod index;
mod model;
mod rt;
mod split;
mod tree;

pub type Entry = (&'static str, extern "C" fn());

macro_rules! modules {
    ($($m:ident $f:literal),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn entries() -> Vec<Entry> {
            #[allow(unused_mut)]
            let mut v: Vec<Entry> = Vec::new();
            $(#[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES);)*
            v
        }
    };
}
modules!(n01 "n01", n02 "n02", n03 "n03", n04 "n04", n05 "n05", n06 "n06", n07 "n07", n08 "n08", n09 "n09", n10 "n10", n11 "n11", n12 "n12", n13 "n13", n14 "n14", n15 "n15", n16 "n16", n17 "n17", n18 "n18", n19 "n19", n20 "n20", n21 "n21", n22 "n22", n23 "n23", n24 "n24", n25 "n25", n26 "n26", n27 "n27", n28 "n28", n29 "n29", n31 "n31", n32 "n32");

/// Defines the exported entry points of a module and lists them in `ENTRIES`.
#[macro_export]
macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        pub static ENTRIES: &[$crate::Entry] = &[$((stringify!($name), $name)),*];
    };
}
