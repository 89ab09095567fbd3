#[allow(dead_code)]
mod eig;
#[cfg(any(feature = "C17", feature = "C20", feature = "C30"))]
mod canned;
#[allow(dead_code)]
mod el;
#[cfg(feature = "C20")]
mod draw;
#[allow(dead_code)]
mod fem;
#[allow(dead_code)]
mod pbt;
#[allow(dead_code)]
mod tab;

use pbt::Property;

// one cargo feature per property: each check builds only what it runs
macro_rules! properties {
    ($($id:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $id)] mod $m;)*
        const IDS: &[&str] = &[$($id),*];
        fn make(id: &str) -> Option<Property> {
            match id {
                $(#[cfg(feature = $id)] $id => Some($m::property()),)*
                _ => None,
            }
        }
    };
}

properties! {
    "C01" c01,
    "C02" c02,
    "C03" c03,
    "C04" c04,
    "C05" c05,
    "C06" c06,
    "C07" c07,
    "C08" c08,
    "C09" c09,
    "C10" c10,
    "C11" c11,
    "C12" c12,
    "C13" c13,
    "C14" c14,
    "C15" c15,
    "C16" c16,
    "C17" c17,
    "C18" c18,
    "C19" c19,
    "C20" c20,
    "C21" c21,
    "C30" c30,
}

fn main() {
    pbt::main_with(make, IDS);
}
