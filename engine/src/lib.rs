pub mod cgeo;
pub mod cmath;
pub mod export;
pub mod logic;
pub mod poly;
pub mod shim;
pub mod sym;
#[cfg(feature = "symgeo")]
pub mod gen {
    include!(concat!(env!("KV_GEN"), "/gen.rs"));
}
