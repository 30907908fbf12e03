//! `h_gpu PROPERTY TIER`: circuit files, witnesses and synthesis of algebraic-gpu.
mod api;
mod model;
#[cfg(feature = "p17")]
mod p17_r1cs;
#[cfg(feature = "p18")]
mod p18_witness;
#[cfg(feature = "p19")]
mod p19_synth;
use mc_common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mc = Mc::new(&a[1], a.get(2).map(|s| s.as_str()).unwrap_or("quick"));
    match a[1].as_str() {
        #[cfg(feature = "p17")]
        "P17" => main_for(mc, p17_r1cs::run),
        #[cfg(feature = "p18")]
        "P18" => main_for(mc, p18_witness::run),
        #[cfg(feature = "p19")]
        "P19" => main_for(mc, p19_synth::run),
        p => panic!("unknown property {p}"),
    }
}
