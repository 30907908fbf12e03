//! `h_sched P25 TIER`: results do not depend on how work is split among threads or in which order
//! tasks run. rayon and num_cpus are stand-ins (mc/stubs) controlled from here, starky's locks are
//! those of mc/sync, tasks are a few rows long (cfg mc_small_tasks).
#[path = "../../h_core/src/air.rs"]
mod air;
#[path = "../../h_core/src/bigf.rs"]
mod bigf;
#[path = "../../h_core/src/hashref.rs"]
mod hashref;
#[path = "../../h_core/src/p04_poseidon.rs"]
mod p04_poseidon;
#[path = "../../h_core/src/refs.rs"]
mod refs;
#[path = "../../h_core/src/stark.rs"]
mod stark;
mod conc;
mod orders;
use mc_common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "cell" {
        install_hook();
        std::process::exit(conc::cell_main(&a[3..]));
    }
    let mc = Mc::new(&a[1], a.get(2).map(|s| s.as_str()).unwrap_or("quick"));
    match a[1].as_str() {
        "P25" => main_for(mc, |mc| {
            quiet_all(std::env::var("MC_LOUD").is_err());
            orders::run(mc);
            conc::run(mc);
        }),
        p => panic!("unknown property {p}"),
    }
}
