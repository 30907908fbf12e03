//! The proving command from files to files: what it writes is the proof of exactly the columns it
//! was given and the verifier of exactly that circuit; when anything is missing, damaged or false
//! it does not report success.
use crate::air::*;
use crate::p16_circom::{at, field_of, judge, leaves, lib, program, Stage};
use crate::stark::*;
use mc_common::*;
use crate::p12_tamper::{solo, spread};
use serde_json::{json, Value};
use starky::pil2circom::{pil2circom, StarkOption};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const ADDR: &str = "273030697313060285579891744179749754319274977764";

struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("mc_p28_{}_{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn f(&self, n: &str) -> String {
        self.0.join(n).to_string_lossy().into_owned()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn bytes(cols: &[Vec<u64>], rows: usize) -> Vec<u8> {
    (0..rows).flat_map(|r| cols.iter().flat_map(move |c| c[r].to_le_bytes())).collect()
}
#[derive(Clone)]
struct Files {
    ss: Vec<u8>,
    pil: Vec<u8>,
    k: Vec<u8>,
    w: Vec<u8>,
}
fn files(a: &Air, par: &Par, hash: &str) -> Files {
    let ss = json!({"nBits": par.bits, "nBitsExt": par.ext, "nQueries": par.queries, "verificationHashType": hash,
        "steps": par.steps.iter().map(|b| json!({"nBits": b})).collect::<Vec<_>>()});
    Files {
        ss: ss.to_string().into_bytes(),
        pil: a.pil_json().to_string().into_bytes(),
        k: bytes(&a.k, a.rows()),
        w: bytes(&a.w, a.rows()),
    }
}
#[derive(Clone, Copy)]
struct Opt {
    norm: bool,
    skip: bool,
    agg: bool,
}
/// Ok(Some((circuit, input))) when success is reported
fn command(f: &Files, o: Opt, addr: &str, out: Option<(&str, &str)>, without: Option<usize>) -> Result<(String, String), String> {
    let d = Dir::new();
    let names = ["ss.json", "pil.json", "const", "cm"].map(|n| d.f(n));
    for (i, (n, b)) in names.iter().zip([&f.ss, &f.pil, &f.k, &f.w]).enumerate() {
        if Some(i) != without {
            std::fs::write(n, b).unwrap();
        }
    }
    let (c, z) = (d.f("c.circom"), d.f("zkin.json"));
    let (c, z) = out.map(|(x, y)| (if x.is_empty() { c.clone() } else { x.into() }, if y.is_empty() { z.clone() } else { y.into() })).unwrap_or((c, z));
    let r = guard(|| solo(|| starky::prove::stark_prove(&names[0], &names[1], o.norm, o.skip, o.agg, &names[2], &names[3], &c, &z, addr)));
    match r {
        Err(e) => Err(format!("panic: {e}")),
        Ok(Err(e)) => Err(e.to_string()),
        Ok(Ok(())) => {
            let rd = |p: &str| if p.starts_with("/dev/") { Ok(String::new()) } else { std::fs::read_to_string(p).map_err(|e| format!("no output: {e}")) };
            Ok((rd(&c)?, rd(&z)?))
        }
    }
}

fn honest<K: Kind>(mc: &Mc, a: &Air, par: &Par, o: Opt, n: &AtomicU64)
where
    Inst<K>: Gen,
{
    n.fetch_add(1, Relaxed);
    let key = format!("{}:{}:{}:norm={} skip={} agg={}", K::NAME, a.name, par.show(), o.norm, o.skip, o.agg);
    let mut i = match Inst::<K>::new(a, par) {
        Ok(i) => i,
        Err(e) => {
            mc.check(false, &key, || e);
            return;
        }
    };
    let agg = o.agg && K::NAME == "GL";
    let quotient = !i.setup.starkinfo.qs.is_empty();
    // a circuit without a quotient has no generated verifier, nor has a joint one without four publics
    if !quotient || agg && a.pubs.len() < 4 {
        return;
    }
    let (c, z) = match command(&files(a, par, K::NAME), o, ADDR, None, None) {
        Ok(x) => x,
        Err(e) => {
            mc.check(false, &key, || format!("no proof of a satisfying trace: {e}"));
            return;
        }
    };
    let z: Value = match serde_json::from_str(&z) {
        Ok(z) => z,
        Err(e) => {
            mc.check(false, &key, || format!("the input file: {e}"));
            return;
        }
    };
    // the proof is one of these columns
    let p = match Inst::<K>::unjson(&z) {
        Ok(p) => p,
        Err(e) => {
            mc.check(false, &key, || format!("the input file: {e}"));
            return;
        }
    };
    mc.check(i.verify(&p) == Ok(true), &format!("{key}:verifies"), || "the written proof is not accepted".into());
    let pubs: Vec<String> = a.publics().iter().map(|x| x.to_string()).collect();
    mc.check(z["publics"] == json!(pubs), &format!("{key}:publics"), || format!("{} instead of {pubs:?}", z["publics"]));
    mc.check(K::NAME == "GL" || z["proverAddr"] == ADDR, &format!("{key}:address"), || z["proverAddr"].to_string());
    // nothing random in it: the same as proving in memory
    match i.prove_as(a, ADDR) {
        Ok(q) => {
            let q = Inst::<K>::json(&q);
            mc.check(q == z, &format!("{key}:proof"), || "another proof than that of the same columns in memory".into());
        }
        Err(e) => {
            mc.check(false, &key, || e);
        }
    }
    // the verifier is the one of these options
    let want = i.gen(&StarkOption { enable_input: false, verkey_input: o.norm, skip_main: o.skip, agg_stage: agg });
    mc.check(want.as_deref().ok() == Some(c.as_str()), &format!("{key}:circuit"), || "another circuit than the one generated for these options".into());
    // and it says what the command promised
    if agg {
        return;
    }
    let mut prog = match program(K::NAME, &c, false) {
        Ok(p) => p,
        Err(e) => {
            mc.check(false, &key, || format!("not a circuit: {e}"));
            return;
        }
    };
    let main = prog.has_main();
    mc.check(main != (o.skip && K::NAME != "GL"), &format!("{key}:main"), || format!("a main component: {main}"));
    if !main {
        prog.set_main("StarkVerifier", &[]);
    }
    let l = lib(K::NAME, false);
    let r = judge(K::NAME, &prog, &*l, &z);
    mc.check(r.is_ok(), &format!("{key}:accepts"), || format!("{:?}", r.as_ref().err()));
    // the key is fixed in the circuit unless it is an input
    let mut y = z.clone();
    let mut ls = vec![];
    leaves(&y["rootC"], &mut vec![], &mut ls);
    if let Some(x) = ls.first() {
        let v = at(&mut y["rootC"], x);
        let one = num_bigint::BigUint::from(1u32);
        *v = ((v.as_str().unwrap().parse::<num_bigint::BigUint>().unwrap() + one) % &field_of(K::NAME).q).to_string().into();
        let r = judge(K::NAME, &prog, &*l, &y);
        let says = r.is_ok();
        mc.check(says != o.norm, &format!("{key}:key"), || format!("another verification key is {}", if says { "accepted" } else { "refused" }));
    }
}
pub trait Gen {
    fn gen(&mut self, o: &StarkOption) -> Result<String, String>;
}
macro_rules! gen {
    ($k:ty) => {
        impl Gen for Inst<$k> {
            fn gen(&mut self, o: &StarkOption) -> Result<String, String> {
                pil2circom(&self.pil, &self.setup.const_root, &self.ss, &mut self.setup.starkinfo, &mut self.setup.program, o).map_err(|e| e.to_string())
            }
        }
    };
}
gen!(Gl);
gen!(Bn);
gen!(Bls);

/// success is never reported for these files
fn refused(mc: &Mc, key: String, f: &Files, out: Option<(&str, &str)>, without: Option<usize>, n: &AtomicU64) {
    n.fetch_add(1, Relaxed);
    let r = command(f, Opt { norm: false, skip: false, agg: false }, ADDR, out, without);
    mc.check(r.is_err(), &key, || "success is reported".into());
}
fn faults<K: Kind>(mc: &Mc, a: &Air, par: &Par, n: &AtomicU64)
where
    Inst<K>: Gen,
{
    let key = |s: String| format!("{}:{}:{s}", K::NAME, a.name);
    let f = files(a, par, K::NAME);
    let names = ["parameters", "circuit", "constants", "columns"];
    let mut items: Vec<(String, Files, Option<(String, String)>, Option<usize>)> = vec![];
    for i in 0..4 {
        items.push((format!("{} missing", names[i]), f.clone(), None, Some(i)));
        let full = [&f.ss, &f.pil, &f.k, &f.w][i].len();
        for cut in 0..full {
            let mut g = f.clone();
            [&mut g.ss, &mut g.pil, &mut g.k, &mut g.w][i].truncate(cut);
            items.push((format!("{} cut at {cut}", names[i]), g, None, None));
        }
    }
    for i in 2..4 {
        let words = [&f.k, &f.w][i - 2].len() / 8;
        for w in 0..words {
            for v in [crate::refs::P, u64::MAX] {
                let mut g = f.clone();
                [&mut g.k, &mut g.w][i - 2][w * 8..w * 8 + 8].copy_from_slice(&v.to_le_bytes());
                items.push((format!("{} with {v} as word {w}", names[i]), g, None, None));
            }
        }
    }
    for h in ["", "gl", "BN254", "GL ", "BLS12_381", "bn128"] {
        items.push((format!("hash {h:?}"), files(a, par, h), None, None));
    }
    for (c, z) in [("/dev/full", ""), ("", "/dev/full"), ("/nonexistent/x", ""), ("", "/nonexistent/x")] {
        items.push((format!("output to {c}{z}"), f.clone(), Some((c.into(), z.into())), None));
    }
    spread(items, |(what, g, out, wo)| {
        refused(mc, key(what), &g, out.as_ref().map(|(x, y)| (x.as_str(), y.as_str())), wo, n);
    });
    cells_changed::<K>(mc, a, &f, n);
}
/// every cell of the trace and of the constants changed
fn cells_changed<K: Kind>(mc: &Mc, a: &Air, f: &Files, n: &AtomicU64) {
    let key = |s: String| format!("{}:{}:{s}", K::NAME, a.name);
    let cells: Vec<(bool, usize, usize)> =
        (0..a.w.len()).flat_map(|c| (0..a.rows()).map(move |r| (false, c, r))).chain((0..a.k.len()).flat_map(|c| (0..a.rows()).map(move |r| (true, c, r)))).collect();
    spread(cells, |(k, c, r)| {
        for v in [0u64, 1, crate::refs::P - 1] {
            let mut b = a.clone();
            let cell = if k { &mut b.k[c][r] } else { &mut b.w[c][r] };
            if *cell == v {
                continue;
            }
            *cell = v;
            let ok = b.valid().is_ok();
            n.fetch_add(1, Relaxed);
            let g = Files { k: bytes(&b.k, b.rows()), w: bytes(&b.w, b.rows()), ..f.clone() };
            let s = command(&g, Opt { norm: false, skip: false, agg: false }, ADDR, None, None);
            let what = format!("{} {c} row {r} := {v}", if k { "constant" } else { "column" });
            if k && ok {
                continue;
            }
            mc.check(s.is_ok() == ok, &key(what), || if ok { format!("a satisfying trace is not proved: {}", s.as_ref().err().unwrap()) } else { "success is reported for a trace that does not satisfy the circuit".into() });
        }
    });
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    mc.rule("cells: one run of the proving command on files: honest (its outputs against the proof, public values and generated verifier of those columns, the verifier run), or with one file missing, cut, damaged, one cell changed, one output failing");
    let n = AtomicU64::new(0);
    let sec = |name: &str, n: &AtomicU64| {
        let n = n.swap(0, Relaxed);
        mc.states(n);
        mc.traces(n);
        mc.transitions(n);
        mc.evals(n, n);
        mc.section(name, json!({"runs of the command": n}));
    };
    let mut items = vec![];
    for bits in 2..=mc.pick(3, 4) {
        for (x, a) in airs(bits).into_iter().enumerate() {
            let e = (1..4).find(|e| fits(&a, *e)).unwrap();
            for h in 0..3 {
                for o in 0..8 {
                    let o = Opt { norm: o & 1 > 0, skip: o & 2 > 0, agg: o & 4 > 0 };
                    // the curves: all options on few circuits
                    if h > 0 && x > 3 && (o.agg || o.norm != (x % 2 == 0) || bits > 2) && !mc.thorough() || bits > 2 && o.agg {
                        continue;
                    }
                    let fri = step_lists(bits + e, e);
                    items.push((h, a.clone(), Par::new(bits, e, 1 + x % 3, &fri[(x + h) % fri.len()]), o));
                }
            }
        }
    }
    spread(items, |(h, a, p, o)| match h {
        0 => honest::<Gl>(mc, &a, &p, o, &n),
        1 => honest::<Bn>(mc, &a, &p, o, &n),
        _ => honest::<Bls>(mc, &a, &p, o, &n),
    });
    sec("satisfying traces", &n);
    let f = fib(2, &[0, 1, 2]);
    faults::<Gl>(mc, &f, &Par::new(2, 1, 2, &[2]), &n);
    faults::<Bn>(mc, &f, &Par::new(2, 1, 1, &[]), &n);
    faults::<Bls>(mc, &f, &Par::new(2, 1, 1, &[2]), &n);
    for a in airs(2) {
        let e = (1..4).find(|e| fits(&a, *e)).unwrap();
        let q = Inst::<Gl>::new(&a, &Par::new(2, e, 4, &[])).map(|i| !i.setup.starkinfo.qs.is_empty()).unwrap_or(true);
        if q && a.w.len() <= mc.pick(6, 99) {
            cells_changed::<Gl>(mc, &a, &files(&a, &Par::new(2, e, 4, &[]), "GL"), &n);
        }
    }
    sec("missing, damaged and false files", &n);
    mc.sample(json!({"circuit": f.name, "fault": "columns cut at 17 bytes", "expected": "no success"}));
}
