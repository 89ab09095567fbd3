#[allow(dead_code)]
#[path = "../../core/src/pbt.rs"]
mod pbt;

#[cfg(feature = "C31")]
#[path = "../../core/src/draw.rs"]
mod draw;
#[allow(dead_code)]
mod poly;
#[allow(dead_code)]
mod model;
#[allow(dead_code)]
mod dress;
use pbt::Property;

// one cargo feature per property: each check builds only what it runs
macro_rules! properties {
    ($($id:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $id)] mod $m;)*
        const IDS: &[&str] = &[$($id),*];
        fn make(id: &str) -> Option<Property> {
            match id {
                $(#[cfg(feature = $id)] $id => Some($m::property()),)*
                _ => None,
            }
        }
    };
}

properties! {
    "C22" c22,
    "C23" c23,
    "C24" c24,
    "C25" c25,
    "C26" c26,
    "C27" c27,
    "C28" c28,
    "C29" c29,
    "C31" c31,
}

fn main() {
    pbt::main_with(make, IDS);
}
