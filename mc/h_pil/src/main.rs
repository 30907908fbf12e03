//! `h_pil PROPERTY TIER`: analyzed circuits handed to the prover; the zkVM's chunks.
#[path = "../../h_core/src/air.rs"]
#[allow(dead_code)]
mod air;
#[cfg(feature = "p34")]
mod p34_export;
#[cfg(feature = "p36")]
#[path = "../../h_core/src/bigf.rs"]
#[allow(dead_code)]
mod bigf;
#[cfg(feature = "p35")]
mod p35_zkvm;
#[cfg(feature = "p36")]
mod p36_examples;
#[path = "../../h_core/src/refs.rs"]
#[allow(dead_code)]
mod refs;
#[path = "../../h_core/src/stark.rs"]
#[allow(dead_code)]
mod stark;
use mc_common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mc = Mc::new(&a[1], a.get(2).map(|s| s.as_str()).unwrap_or("quick"));
    match a[1].as_str() {
        #[cfg(feature = "p34")]
        "P34" => main_for(mc, p34_export::run),
        #[cfg(feature = "p35")]
        "P35" => main_for(mc, p35_zkvm::run),
        #[cfg(feature = "p36")]
        "P36" => main_for(mc, p36_examples::run),
        p => panic!("unknown property {p}"),
    }
}
