//! `h_alg PROPERTY TIER`: circuit files, witnesses and synthesis of algebraic; aggregation circuits.
mod api;
#[path = "../../h_gpu/src/model.rs"]
mod model;
#[cfg(feature = "p17")]
#[path = "../../h_gpu/src/p17_r1cs.rs"]
mod p17_r1cs;
#[cfg(feature = "p18")]
#[path = "../../h_gpu/src/p18_witness.rs"]
mod p18_witness;
#[cfg(feature = "p19")]
#[path = "../../h_gpu/src/p19_synth.rs"]
mod p19_synth;
#[cfg(feature = "rec")]
mod rec;
use mc_common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mc = Mc::new(&a[1], a.get(2).map(|s| s.as_str()).unwrap_or("quick"));
    match a[1].as_str() {
        #[cfg(feature = "p17")]
        "P17" => main_for(mc, p17_r1cs::run),
        #[cfg(feature = "p18")]
        "P18" => main_for(mc, p18_witness::run),
        #[cfg(feature = "p19")]
        "P19" => main_for(mc, p19_synth::run),
        #[cfg(feature = "rec")]
        "P20" => main_for(mc, rec::p20),
        #[cfg(feature = "rec")]
        "P21" => main_for(mc, rec::p21),
        p => panic!("unknown property {p}"),
    }
}
