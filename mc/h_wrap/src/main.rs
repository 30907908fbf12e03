//! `h_wrap P33 TIER`: the wrapping of a BN254 proof into one over BLS12-381, from the command line and the Rust call
//! through the C boundary to the Go library, over stand-ins for gnark. Every case is one run of a real process.
use ark_bls12_381::{Bls12_381, Fq12, Fq2, Fr, G1Affine, G2Affine};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::PrimeField;
use mc_common::*;
use num_bigint::BigUint;
use rayon::prelude::*;
use recursion_gnark_ffi::json_util::{Groth16Proof, JsonPublicInput, JsonVerificationKey};
use recursion_gnark_ffi::Groth16Bn254Proof;
use serde_json::{json, Value};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

type B = Bls12_381;
fn dec<F: PrimeField>(x: F) -> String {
    x.into_bigint().to_string()
}
fn d2(x: Fq2) -> [String; 2] {
    [dec(x.c0), dec(x.c1)]
}
/// what the outer setup and prover return
struct Pts {
    a: G1Affine,
    b: G2Affine,
    c: G1Affine,
    alpha: G1Affine,
    beta: G2Affine,
    gamma: G2Affine,
    delta: G2Affine,
    k: Vec<G1Affine>,
    gt: Fq12,
}
fn points() -> Pts {
    let g1 = |s: u64| (G1Affine::generator() * Fr::from(s)).into_affine();
    let g2 = |s: u64| (G2Affine::generator() * Fr::from(s)).into_affine();
    let (alpha, beta) = (g1(11), g2(12));
    Pts { a: g1(2), b: g2(3), c: g1(5), alpha, beta, gamma: g2(13), delta: g2(17), k: (0..160).map(|i| g1(100 + i * i)).collect(), gt: B::pairing(alpha, beta).0 }
}
impl Pts {
    fn json(&self) -> Value {
        let p1 = |p: &G1Affine| json!([dec(p.x), dec(p.y)]);
        let p2 = |p: &G2Affine| json!([dec(p.x.c0), dec(p.x.c1), dec(p.y.c0), dec(p.y.c1)]);
        let gt: Vec<String> = [self.gt.c0.c0, self.gt.c0.c1, self.gt.c0.c2, self.gt.c1.c0, self.gt.c1.c1, self.gt.c1.c2].into_iter().flat_map(d2).collect();
        json!({"A": p1(&self.a), "B": p2(&self.b), "C": p1(&self.c), "Alpha": p1(&self.alpha), "Beta": p2(&self.beta), "Gamma": p2(&self.gamma),
            "Delta": p2(&self.delta), "Beta1": p1(&self.k[38]), "Delta1": p1(&self.k[39]), "K": self.k.iter().map(p1).collect::<Vec<_>>(), "Gt": gt})
    }
}
fn r254() -> BigUint {
    "21888242871839275222246405745257275088548364400416034343698204186575808495617".parse().unwrap()
}
fn values() -> Vec<BigUint> {
    let p = |k: usize| BigUint::from(1u8) << k;
    vec![0u8.into(), 1u8.into(), r254() - 1u8, p(64), p(128) + p(63), 77u8.into(), p(192) - 1u8, p(253) + p(191) + p(127) + 5u8]
}
fn proof_bytes(key: u8, pubs: &[BigUint]) -> Vec<u8> {
    let mut v = vec![0xa1, key, pubs.len() as u8];
    for p in pubs {
        let b = p.to_bytes_be();
        v.extend(vec![0; 32 - b.len()]);
        v.extend(b);
    }
    v
}
fn key_bytes(key: u8, n: usize) -> Vec<u8> {
    let mut v = vec![0xb2, key, n as u8];
    v.extend([key; 16]);
    v
}
#[derive(Clone)]
enum Out {
    Dir,
    Missing,
    /// the i-th output file can not be written
    Full(usize),
    IsDir(usize),
}
const FILES: [&str; 3] = ["proof_bls12381.json", "groth16_vk_bls12381.json", "public_inputs_bls12381.json"];
#[derive(Clone)]
struct Case {
    key: Option<Vec<u8>>,
    proof: String,
    publics: String,
    out: Out,
    fault: usize,
    /// Some: through the command line, with this proof file (None: no such file) and these arguments
    cli: Option<(Option<Vec<u8>>, Vec<String>)>,
}
impl Case {
    fn new(n: usize, pubs: &[BigUint], text: &[String]) -> Case {
        Case { key: Some(key_bytes(7, n)), proof: hex::encode(proof_bytes(7, pubs)), publics: json!(text).to_string(), out: Out::Dir, fault: 0, cli: None }
    }
}
struct Done {
    ok: bool,
    files: Vec<Option<String>>,
    log: Vec<String>,
    err: String,
}
static NR: AtomicU64 = AtomicU64::new(0);
struct Env {
    exe: PathBuf,
    cli: PathBuf,
    drive: PathBuf,
    dir: PathBuf,
    points: PathBuf,
}
impl Env {
    fn run(&self, c: &Case) -> Done {
        let d = self.dir.join(NR.fetch_add(1, Relaxed).to_string());
        // names that tell an argument in another's place
        let (kp, op, pp) = (d.join("the.key"), d.join("out dir"), d.join("the.proof"));
        std::fs::create_dir_all(&d).unwrap();
        if let Some(k) = &c.key {
            std::fs::write(&kp, k).unwrap();
        }
        match c.out {
            Out::Missing => {}
            _ => std::fs::create_dir(&op).unwrap(),
        }
        match c.out {
            Out::Full(i) => std::os::unix::fs::symlink("/dev/full", op.join(FILES[i])).unwrap(),
            Out::IsDir(i) => std::fs::create_dir(op.join(FILES[i])).unwrap(),
            _ => {}
        }
        let mut cmd;
        match &c.cli {
            None => {
                cmd = Command::new(&self.exe);
                cmd.arg("case").arg(&kp).arg(&op).arg(&c.proof).arg(&c.publics);
            }
            Some((file, args)) => {
                if let Some(b) = file {
                    std::fs::write(&pp, b).unwrap();
                }
                cmd = Command::new(&self.cli);
                for a in args {
                    cmd.arg(a.replace("KEY", kp.to_str().unwrap()).replace("OUT", op.to_str().unwrap()).replace("PROOF", pp.to_str().unwrap()));
                }
            }
        }
        let r = cmd
            .env("MC_LOG", d.join("log")).env("MC_POINTS", &self.points).env("MC_FAULT", c.fault.to_string()).env("GOMAXPROCS", "2").env("GOTRACEBACK", "none")
            .env_remove("RUST_BACKTRACE").current_dir(&d).stdin(Stdio::null()).output().unwrap();
        let files = FILES.iter().map(|f| op.join(f)).map(|f| if f.is_symlink() { None } else { std::fs::read_to_string(f).ok() }).collect();
        let log = std::fs::read_to_string(d.join("log")).unwrap_or_default().lines().map(|l| l.to_string()).collect();
        std::fs::remove_dir_all(&d).unwrap();
        Done { ok: r.status.success(), files, log, err: String::from_utf8_lossy(&r.stderr).chars().take(300).collect() }
    }
}
/// the public values of the outer circuit: four limbs of 64 bits each
fn limbs(pubs: &[BigUint]) -> Vec<Fr> {
    pubs.iter().flat_map(|p| (0..4).map(move |i| (p >> (64 * i)) & BigUint::from(u64::MAX))).map(|x| Fr::from(x)).collect()
}
/// how the three texts differ from what they have to say
fn wrong(p: &Pts, pubs: &[Fr], ic: &[G1Affine], proof: &str, key: &str, publics: &str) -> Option<String> {
    let Ok(pr) = serde_json::from_str::<Groth16Proof<B>>(proof) else { return Some(format!("the proof is not one: {proof:.200}")) };
    if (pr.pi_a, pr.pi_b, pr.pi_c) != (p.a, p.b, p.c) || pr.protocol != "groth16" || pr.curve != "bls12381" {
        return Some(format!("the proof is another: {proof:.200}"));
    }
    let Ok(k) = serde_json::from_str::<JsonVerificationKey<B>>(key) else { return Some(format!("the key is not one: {key:.300}")) };
    let want = JsonVerificationKey::<B> {
        protocol: "groth16".into(), n_public: pubs.len(), alpha_1: p.alpha, beta_2: p.beta, gamma_2: p.gamma, delta_2: p.delta, alpha_beta_gt: p.gt, ic: ic.to_vec(),
    };
    if k != want {
        return Some(format!("the key is another ({} public inputs, {} points)", k.n_public, k.ic.len()));
    }
    if serde_json::from_str::<Value>(key).unwrap()["curve"] != "bls12381" {
        return Some("the key names another curve".into());
    }
    match serde_json::from_str::<JsonPublicInput<Fr>>(publics) {
        Ok(x) if x.values == pubs => None,
        _ => Some(format!("the public inputs are {publics:.300}")),
    }
}
fn combos(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0..n).fold(vec![vec![]], |acc, _| acc.iter().flat_map(|v| (0..k).map(move |i| [v.clone(), vec![i]].concat())).collect())
}
fn p33(mc: &Mc) {
    mc.rule("every run of the whole pipeline over the stated inputs, with each fallible step failing in turn; a case is non-trivial when the pipeline reads at least the proof");
    mc.assume("gnark is replaced by stand-ins: an inner proof is valid exactly for the key and public inputs it was made for, the outer proof and key are given points, and the outer public values are the four 64-bit limbs of each inner public input");
    let dir = std::env::temp_dir().join(format!("mc-p33-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let pts = points();
    let exe = std::env::current_exe().unwrap();
    let env = Env {
        cli: exe.with_file_name("wrap"), exe, drive: root().join("build/ws/recursion-gnark/go/godrive"), points: dir.join("points.json"), dir: dir.clone(),
    };
    std::fs::write(&env.points, pts.json().to_string()).unwrap();
    let good = |key: &str, c: &Case, pubs: &[BigUint], what: &dyn Fn() -> String| {
        let d = env.run(c);
        mc.states(1);
        mc.transitions(d.log.len() as u64);
        mc.evals(1, 1);
        let bad = if !d.ok {
            Some(format!("refused: {}", d.err))
        } else if d.files.iter().any(|f| f.is_none()) {
            Some("a file is missing".into())
        } else {
            let f: Vec<&str> = d.files.iter().map(|f| f.as_ref().unwrap().as_str()).collect();
            let n = pubs.len();
            wrong(&pts, &limbs(pubs), if n == 0 { &pts.k[..1] } else { &pts.k[..4 * n + 2] }, f[0], f[1], f[2])
        };
        mc.check(bad.is_none(), key, || format!("{}: {}", what(), bad.as_ref().unwrap()));
        d.log
    };
    let refused = |key: &str, c: &Case, nothing: bool, what: &dyn Fn() -> String| {
        let d = env.run(c);
        mc.states(1);
        mc.transitions(d.log.len() as u64);
        mc.evals(1, !d.log.is_empty() as u64);
        mc.check(!d.ok, key, || format!("{}: reported success", what()));
        if nothing {
            mc.check(d.files.iter().all(|f| f.is_none()), key, || format!("{}: left outputs", what()));
        }
    };
    // 1. honest runs: numbers of public inputs, values and spellings
    let vals = values();
    let spell = |v: &BigUint, k: usize| match k {
        0 => v.to_string(),
        1 => format!("0x{v:x}"),
        2 => format!("0x{v:X}"),
        _ => format!("0x{:0>64}", format!("{v:x}")),
    };
    let mut runs: Vec<(Vec<BigUint>, Vec<String>)> = vec![(vec![], vec![])];
    let nmax = mc.pick(2, 3);
    for n in 1..=nmax {
        let kk = if n == 1 { vals.len() } else { mc.pick(6, if n == 2 { 8 } else { 5 }) };
        for c in combos(n, kk) {
            let v: Vec<BigUint> = c.iter().map(|i| vals[*i].clone()).collect();
            for s in if n == 1 || mc.thorough() && n == 2 { combos(n, 4) } else { (0..4).map(|k| (0..n).map(|i| (k + i) % 4).collect()).collect() } {
                runs.push((v.clone(), v.iter().zip(&s).map(|(x, k)| spell(x, *k)).collect()));
            }
        }
    }
    for n in nmax + 1..=mc.pick(5, 9) {
        for k in 0..4 {
            let v: Vec<BigUint> = (0..n).map(|i| vals[(i + k) % vals.len()].clone()).collect();
            runs.push((v.clone(), v.iter().enumerate().map(|(i, x)| spell(x, (i + k) % 4)).collect()));
        }
    }
    // many
    for n in [31usize, 32, 33] {
        let v: Vec<BigUint> = (0..n).map(|i| vals[(3 * i + n) % vals.len()].clone()).collect();
        runs.push((v.clone(), v.iter().enumerate().map(|(i, x)| spell(x, i % 4)).collect()));
    }
    runs.par_iter().for_each(|(v, t)| {
        good("wrap:honest", &Case::new(v.len(), v, t), v, &|| format!("public inputs {t:?}"));
    });
    mc.section("honest runs", json!({"runs": runs.len(), "public inputs": format!("0..{}, 31..33", mc.pick(5, 9)), "values": vals.len(), "spellings": 4}));
    mc.sample(json!({"public inputs": runs[runs.len() / 2].1}));

    // 2. every fallible step fails
    let three: Vec<BigUint> = vals[3..6].to_vec();
    let texts = |v: &[BigUint]| -> Vec<String> { v.iter().enumerate().map(|(i, x)| spell(x, i % 4)).collect() };
    let mut steps = 0;
    for n in 0..=3usize {
        let v = &three[..n];
        let base = Case::new(n, v, &texts(v));
        let log = good("wrap:honest", &base, v, &|| format!("{n} public inputs"));
        steps += log.len();
        (1..=log.len()).into_par_iter().for_each(|k| {
            refused("wrap:fault", &Case { fault: k, ..base.clone() }, false, &|| format!("{n} public inputs, step {k} ({}) fails", log[k - 1]));
        });
        if n == 2 {
            mc.sample(json!({"steps": log}));
        }
    }
    mc.section("failing steps", json!({"injected": steps}));

    // 3. inputs that must be refused
    let v2 = &vals[1..3];
    let base = Case::new(2, v2, &texts(v2));
    let mut bad: Vec<(String, Case, bool)> = vec![];
    let pb = proof_bytes(7, v2);
    for i in 0..pb.len() {
        bad.push((format!("proof cut to {i} bytes"), Case { proof: hex::encode(&pb[..i]), ..base.clone() }, true));
        let mut b = pb.clone();
        b[i] ^= 1;
        bad.push((format!("byte {i} of the proof changed"), Case { proof: hex::encode(&b), ..base.clone() }, true));
    }
    let h = hex::encode(&pb);
    for (w, t) in [("an odd number of digits", h[..h.len() - 1].to_string()), ("not hexadecimal", h.replacen('a', "g", 1)), ("0x in front", format!("0x{h}")), ("a space", format!(" {h}")), ("no proof", String::new())] {
        bad.push((format!("proof text with {w}"), Case { proof: t, ..base.clone() }, true));
    }
    let kb = key_bytes(7, 2);
    for i in 0..kb.len() {
        bad.push((format!("key cut to {i} bytes"), Case { key: Some(kb[..i].to_vec()), ..base.clone() }, true));
        let mut b = kb.clone();
        b[i] ^= 1;
        bad.push((format!("byte {i} of the key changed"), Case { key: Some(b), ..base.clone() }, true));
    }
    bad.push(("no key file".into(), Case { key: None, ..base.clone() }, true));
    bad.push(("another circuit's key".into(), Case { key: Some(key_bytes(8, 2)), ..base.clone() }, true));
    let t2 = texts(v2);
    for i in 0..2 {
        for (j, x) in vals.iter().enumerate() {
            if *x != v2[i] {
                for k in 0..4 {
                    let mut t = t2.clone();
                    t[i] = spell(x, k);
                    bad.push((format!("public input {i} is value {j}, spelling {k}"), Case { publics: json!(t).to_string(), ..base.clone() }, true));
                }
            }
        }
        for x in ["", "0x", "12a", "0xfg", "one", " 1", "1 ", "1.0", "1e3", "0b1", "--1", "1,0", "0x0x1", "x1", "\u{0661}"] {
            let mut t = t2.clone();
            t[i] = x.into();
            bad.push((format!("public input {i} is {x:?}"), Case { publics: json!(t).to_string(), ..base.clone() }, true));
        }
    }
    for t in [vec![], vec![t2[0].clone()], vec![t2[1].clone(), t2[0].clone()], vec![t2[0].clone(), t2[1].clone(), t2[0].clone()], vec![t2[0].clone(), t2[1].clone(), "0".into()]] {
        bad.push((format!("public inputs {t:?}"), Case { publics: json!(t).to_string(), ..base.clone() }, true));
    }
    let whole = json!(t2).to_string();
    for i in 0..whole.len() {
        bad.push((format!("public inputs cut to {i} characters"), Case { publics: whole[..i].into(), ..base.clone() }, true));
    }
    for t in ["{}", "[1, 2]", "\"1\"", "[\"1\", 2]", "[[\"1\"], [\"2\"]]", "1", "null and void"] {
        bad.push((format!("public inputs {t}"), Case { publics: t.into(), ..base.clone() }, true));
    }
    bad.push(("trailing text".into(), Case { publics: format!("{whole}]"), ..base.clone() }, true));
    bad.push(("no output folder".into(), Case { out: Out::Missing, ..base.clone() }, false));
    for i in 0..3 {
        bad.push((format!("output {i} full"), Case { out: Out::Full(i), ..base.clone() }, false));
        bad.push((format!("output {i} is a folder"), Case { out: Out::IsDir(i), ..base.clone() }, false));
    }
    bad.par_iter().for_each(|(w, c, nothing)| refused("wrap:refuse", c, *nothing, &|| w.clone()));
    mc.section("refusals", json!({"runs": bad.len()}));
    mc.sample(json!({"refused": bad[bad.len() / 3].0}));

    // 4. the command line
    let file = |proof: &str, p: &[String]| bincode::serialize(&Groth16Bn254Proof {
        public_inputs: [p[0].clone(), p[1].clone()], encoded_proof: "encoded".into(), raw_proof: proof.into(), groth16_vkey_hash: [9; 32],
    }).unwrap();
    let names = [[("-o", "OUT"), ("-v", "KEY"), ("-p", "PROOF"), ("-s", "groth16")], [("--output-dir", "OUT"), ("--vk-path", "KEY"), ("--proof-path", "PROOF"), ("--system", "groth16")]];
    let mut n_cli = 0u64;
    let mut orders = vec![vec![]];
    for _ in 0..4 {
        orders = orders.iter().flat_map(|o: &Vec<usize>| (0..4).filter(|i| !o.contains(i)).map(move |i| [o.clone(), vec![i]].concat())).collect();
    }
    let mut cases: Vec<(String, Case, Option<Vec<BigUint>>)> = vec![];
    for (k, o) in orders.iter().enumerate() {
        for long in 0..mc.pick(2, 16) {
            let long = if mc.thorough() { long } else { long * 15 };
            let mut a = vec!["test".to_string()];
            for i in o {
                let (n, v) = names[long >> i & 1][*i];
                if (k + i) % 3 == 0 && long >> i & 1 == 1 {
                    a.push(format!("{n}={v}"));
                } else {
                    a.extend([n.to_string(), v.to_string()]);
                }
            }
            let v: Vec<BigUint> = vec![vals[k % 8].clone(), vals[(k / 8 + 3) % 8].clone()];
            let t: Vec<String> = v.iter().enumerate().map(|(i, x)| spell(x, (k + i) % 4)).collect();
            cases.push((format!("{a:?}"), Case { cli: Some((Some(file(&hex::encode(proof_bytes(7, &v)), &t)), a)), ..base.clone() }, Some(v)));
        }
    }
    let args = |x: &[(&str, &str)]| -> Vec<String> { std::iter::once("test".to_string()).chain(x.iter().flat_map(|(a, b)| [a.to_string(), b.to_string()])).collect() };
    let fb = file(&h, &t2);
    let with = |f: Option<Vec<u8>>, a: Vec<String>| Case { cli: Some((f, a)), ..base.clone() };
    for s in ["plonk", "Groth16", "groth", "", "groth16 "] {
        let mut n = names[0];
        n[3].1 = s;
        cases.push((format!("system {s:?}"), with(Some(fb.clone()), args(&n)), None));
    }
    for i in 0..4 {
        let mut n = names[1].to_vec();
        n.remove(i);
        cases.push((format!("without {}", names[1][i].0), with(Some(fb.clone()), args(&n)), None));
        let mut n = names[1].to_vec();
        n.push(names[0][i]);
        cases.push((format!("{} twice", names[0][i].0), with(Some(fb.clone()), args(&n)), None));
    }
    cases.push(("no command".into(), with(Some(fb.clone()), args(&names[0])[1..].to_vec()), None));
    cases.push(("another command".into(), with(Some(fb.clone()), { let mut a = args(&names[0]); a[0] = "prove".into(); a }), None));
    cases.push(("no proof file".into(), with(None, args(&names[0])), None));
    for i in 0..fb.len() {
        cases.push((format!("proof file cut to {i} bytes"), with(Some(fb[..i].to_vec()), args(&names[0])), None));
    }
    cases.push(("a proof of something else".into(), with(Some(file(&hex::encode(proof_bytes(7, &vals[3..5])), &t2)), args(&names[0])), None));
    cases.push(("a proof for another key".into(), with(Some(file(&hex::encode(proof_bytes(8, v2)), &t2)), args(&names[0])), None));
    cases.push(("no key file".into(), Case { key: None, ..with(Some(fb.clone()), args(&names[0])) }, None));
    n_cli += cases.len() as u64;
    cases.par_iter().for_each(|(w, c, v)| match v {
        Some(v) => {
            good("wrap:cli", c, v, &|| w.clone());
        }
        None => refused("wrap:cli-refuse", c, true, &|| w.clone()),
    });
    mc.section("command line", json!({"runs": n_cli, "option orders": orders.len()}));

    // 5. the library's parts, called directly
    let mut reqs: Vec<(Value, Box<dyn Fn(&Value) -> bool + Sync + Send>)> = vec![];
    let q = |reqs: &mut Vec<(Value, Box<dyn Fn(&Value) -> bool + Sync + Send>)>, r: Value, want: Option<Value>| {
        reqs.push((r, Box::new(move |x| match &want {
            Some(w) => x.get("ok") == Some(w),
            None => x.get("err").is_some() && !x["err"].as_str().unwrap().starts_with("panic"),
        })));
    };
    for n in 0..=mc.pick(3, 4) {
        for c in combos(n, mc.pick(3, 4)) {
            for k in 0..4 {
                let v: Vec<&BigUint> = c.iter().map(|i| &vals[*i]).collect();
                let t: Vec<String> = v.iter().enumerate().map(|(i, x)| spell(x, (i + k) % 4)).collect();
                q(&mut reqs, json!({"Op": "inputs", "Signals": t}), Some(json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>())));
                q(&mut reqs, json!({"Op": "signals", "Text": serde_json::to_string_pretty(&t).unwrap()}), Some(json!(t)));
            }
            let t: Vec<String> = c.iter().map(|i| vals[*i].to_string()).collect();
            for fixed in [true, false] {
                q(&mut reqs, json!({"Op": "recursion", "Signals": t, "Key": 3, "K": n, "Fixed": fixed}), Some(json!([true, !fixed, fixed, t])));
            }
        }
    }
    for x in ["", "0x", "12a", "0xfg", "one", " 1", "1.0"] {
        for i in 0..3 {
            let mut t = vec!["1", "0x2", "3"];
            t[i] = x;
            q(&mut reqs, json!({"Op": "inputs", "Signals": t}), None);
        }
    }
    for n in -1i64..5 {
        for fixed in [true, false] {
            q(&mut reqs, json!({"Op": "placeholders", "Key": -1, "N": n, "Fixed": fixed}), None);
            for k in 0..4 {
                q(&mut reqs, json!({"Op": "placeholders", "Key": 1, "K": k, "N": n, "Fixed": fixed}), if n < 0 { None } else { Some(json!([true, k + 1, n, true])) });
            }
        }
    }
    for n in 0..=mc.pick(9usize, 30) {
        for k in n + 1..=n + 3 {
            let v: Vec<BigUint> = (0..n).map(|i| vals[i % 8].clone()).collect();
            let t: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            let (pk, f): (Vec<G1Affine>, Vec<Fr>) = (if n == 0 { pts.k[..1].to_vec() } else { pts.k[..k].to_vec() }, v.iter().map(|x| Fr::from(x.clone())).collect());
            let p = points();
            reqs.push((json!({"Op": "convert", "Signals": t, "K": k}), Box::new(move |x| x.get("ok").is_some_and(|x| wrong(&p, &f, &pk, &x[0].to_string(), &x[1].to_string(), &x[2].to_string()).is_none()))));
        }
    }
    q(&mut reqs, json!({"Op": "convert", "Text": "other", "K": 3}), None);
    let sv = dir.join("saved");
    for (n, k) in [(0usize, 1usize), (1, 3), (3, 4), (8, 40)] {
        let t: Vec<String> = (0..n).map(|i| vals[(i + 1) % 8].to_string()).collect();
        let f = sv.with_extension(n.to_string());
        let f = f.to_str().unwrap();
        q(&mut reqs, json!({"Op": "save", "Signals": t, "K": k, "Path": f}), Some(Value::Null));
        q(&mut reqs, json!({"Op": "load", "Signals": t, "K": k, "Path": f}), Some(Value::Bool(true)));
    }
    q(&mut reqs, json!({"Op": "save", "K": 2, "Path": "/dev/full"}), None);
    q(&mut reqs, json!({"Op": "save", "K": 2, "Path": dir.join("none/such")}), None);
    q(&mut reqs, json!({"Op": "load", "K": 2, "Path": dir.join("none")}), None);
    let calls = |lines: &[Value]| -> Vec<Value> {
        let mut ch = Command::new(&env.drive).env("MC_POINTS", &env.points).env("GOTRACEBACK", "none").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let text: String = lines.iter().map(|r| format!("{r}\n")).collect();
        let mut i = ch.stdin.take().unwrap();
        let w = std::thread::spawn(move || { let _ = i.write_all(text.as_bytes()); });
        let o = ch.wait_with_output().unwrap();
        w.join().unwrap();
        String::from_utf8_lossy(&o.stdout).lines().map(|l| serde_json::from_str(l).unwrap_or(Value::Null)).collect()
    };
    let run_all = |reqs: &[(Value, Box<dyn Fn(&Value) -> bool + Sync + Send>)]| {
        let res = calls(&reqs.iter().map(|r| r.0.clone()).collect::<Vec<_>>());
        mc.check(res.len() == reqs.len(), "wrap:parts", || format!("{} answers to {} calls", res.len(), reqs.len()));
        for ((r, ok), x) in reqs.iter().zip(&res) {
            mc.evals(1, 1);
            mc.transitions(1);
            mc.check(ok(x), &format!("wrap:{}", r["Op"].as_str().unwrap()), || format!("{:.300}: {:.300}", r.to_string(), x.to_string()));
        }
    };
    run_all(&reqs);
    // a saved proof that was cut is not read as another
    let whole = std::fs::read(sv.with_extension("3")).unwrap_or_default();
    let t: Vec<String> = (0..3).map(|i| vals[(i + 1) % 8].to_string()).collect();
    let step = mc.pick(7, 1);
    let mut cut: Vec<(Value, Box<dyn Fn(&Value) -> bool + Sync + Send>)> = vec![];
    for i in (0..whole.len()).step_by(step) {
        let f = dir.join(format!("cut{i}"));
        std::fs::write(&f, &whole[..i]).unwrap();
        q(&mut cut, json!({"Op": "load", "Signals": t, "K": 4, "Path": f}), None);
    }
    run_all(&cut);
    // 6. the artefacts the repository ships, which the real prover made: the model of the outer public values is theirs
    let data = root().join("build/ws/recursion-gnark/ffi/data");
    let read = |f: &str| -> Value { serde_json::from_str(&std::fs::read_to_string(data.join(f)).unwrap()).unwrap() };
    let (inner, outer, key) = (read("public_inputs.json"), read("public_inputs_bls12381.json"), read("groth16_vk_bls12381.json"));
    let inner: Vec<BigUint> = inner.as_array().unwrap().iter().map(|v| v.as_str().unwrap().parse().unwrap()).collect();
    let model: Vec<Value> = limbs(&inner).iter().map(|x| json!(dec(*x))).collect();
    mc.traces(1);
    mc.check(json!(model) == outer, "wrap:shipped", || "the shipped public inputs are not the limbs of the inner ones".into());
    mc.check(key["IC"].as_array().map(|a| a.len()) == Some(4 * inner.len() + 2), "wrap:shipped", || "the shipped key has another number of points".into());
    mc.section("parts", json!({"calls": reqs.len() + cut.len()}));
    mc.exhaustive(true);
    std::fs::remove_dir_all(&dir).unwrap();
    let _: &Path = &dir;
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("case") {
        recursion_gnark_ffi::ffi::build_groth16(&a[2], &a[3], &a[4], &a[5]);
        return;
    }
    main_for(Mc::new(&a[1], &a[2]), p33)
}
