//! `h_core PROPERTY TIER`: explores the bounded behaviours of one property of fields/starky.
//! One feature per property: should a change keep one of them from building, the others still do.
#[cfg(feature = "stark")]
mod air;
#[cfg(feature = "stark")]
mod stark;
#[cfg(feature = "p01")]
mod p01_gl;
#[cfg(feature = "p02")]
mod p02_ext;
#[cfg(feature = "p03")]
mod p03_fft;
#[cfg(feature = "p04")]
mod p04_poseidon;
#[cfg(feature = "p05")]
mod p05_rowhash;
#[cfg(feature = "p06")]
mod p06_merkle;
#[cfg(feature = "p08")]
mod p08_transcript;
#[cfg(feature = "p09")]
mod p09_digest;
#[cfg(feature = "p10")]
mod p10_serde;
#[cfg(feature = "p11")]
mod p11_stark;
#[cfg(feature = "p12")]
mod p12_tamper;
#[cfg(feature = "p13")]
mod p13_traces;
#[cfg(feature = "p14")]
mod p14_fri;
#[cfg(feature = "p15")]
mod p15_exprs;
#[cfg(feature = "p16")]
mod circom;
#[cfg(feature = "p16")]
mod p16_circom;
#[cfg(feature = "p16")]
mod p16_gadgets;
#[cfg(feature = "p24")]
mod p24_simd;
#[cfg(feature = "p26")]
mod p26_join;
#[cfg(feature = "p27")]
mod p27_cols;
#[cfg(feature = "p28")]
mod p28_prove;
#[cfg(feature = "p32")]
mod p32_cheat;
#[cfg(feature = "p04")]
mod bigf;
#[cfg(feature = "p04")]
mod hashref;
mod refs;
use mc_common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "cell" {
        std::process::exit(cells(&a[2..]));
    }
    let mc = Mc::new(&a[1], a.get(2).map(|s| s.as_str()).unwrap_or("quick"));
    match a[1].as_str() {
        #[cfg(feature = "p01")]
        "P01" => main_for(mc, p01_gl::run),
        #[cfg(feature = "p02")]
        "P02" => main_for(mc, p02_ext::run),
        #[cfg(feature = "p03")]
        "P03" => main_for(mc, p03_fft::run),
        #[cfg(feature = "p04")]
        "P04" => main_for(mc, p04_poseidon::run),
        #[cfg(feature = "p05")]
        "P05" => main_for(mc, p05_rowhash::run),
        #[cfg(feature = "p06")]
        "P06" => main_for(mc, p06_merkle::run_gl),
        #[cfg(feature = "p06")]
        "P07" => main_for(mc, p06_merkle::run_curves),
        #[cfg(feature = "p08")]
        "P08" => main_for(mc, p08_transcript::run),
        #[cfg(feature = "p09")]
        "P09" => main_for(mc, p09_digest::run),
        #[cfg(feature = "p10")]
        "P10" => main_for(mc, p10_serde::run),
        #[cfg(feature = "p11")]
        "P11" => main_for(mc, p11_stark::run),
        #[cfg(feature = "p12")]
        "P12" => main_for(mc, p12_tamper::run),
        #[cfg(feature = "p13")]
        "P13" => main_for(mc, p13_traces::run),
        #[cfg(feature = "p14")]
        "P14" => main_for(mc, p14_fri::run),
        #[cfg(feature = "p15")]
        "P15" => main_for(mc, p15_exprs::run),
        #[cfg(feature = "p16")]
        "P16" => main_for(mc, p16_circom::run),
        #[cfg(feature = "p24")]
        "P24" => main_for(mc, p24_simd::run),
        #[cfg(feature = "p26")]
        "P26" => main_for(mc, p26_join::run_join),
        #[cfg(feature = "p27")]
        "P27" => main_for(mc, p27_cols::run),
        #[cfg(feature = "p28")]
        "P28" => main_for(mc, p28_prove::run),
        #[cfg(feature = "p26")]
        "P29" => main_for(mc, p26_join::run_json),
        #[cfg(feature = "p26")]
        "P30" => main_for(mc, p26_join::run_consts),
        #[cfg(feature = "p32")]
        "P32" => main_for(mc, p32_cheat::run),
        p => panic!("unknown property {p}"),
    }
}

fn cells(a: &[String]) -> i32 {
    install_hook();
    match a[0].as_str() {
        #[cfg(feature = "p03")]
        "P03" => return p03_fft::cell_main(&a[1..]),
        #[cfg(feature = "p11")]
        "P11" => return p11_stark::cell_main(&a[1..]),
        _ => {}
    }
    2
}
