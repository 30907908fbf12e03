//! `h_groth P22 TIER`: the final SNARK from files to files over BLS12-381.
#[path = "../../h_gpu/src/model.rs"]
mod model;
mod api {
    pub const NAME: &str = "groth16";
}
use bellperson::groth16::{Parameters, Proof, VerifyingKey};
use blstrs::{Bls12, Fp, Fp2, G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use ff::Field;
use ::groth16::api::*;
use ::groth16::json_utils::*;
use mc_common::*;
use model::*;
use num_bigint::BigUint;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// proving uses thread pools of its own that wait on each other when shared: one at a time
static BIG: std::sync::Mutex<()> = std::sync::Mutex::new(());
/// every item on one of a few plain threads (no work stealing: some hold the lock above)
fn par<T: Sync>(items: &[T], f: impl Fn(&T) + Sync) {
    let k = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| while let Some(x) = items.get(k.fetch_add(1, Relaxed)) { f(x) });
        }
    });
}
static N: AtomicU64 = AtomicU64::new(0);
const CURVE: &str = "BLS12381";

struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        static K: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("mc_p22_{}_{}", std::process::id(), K.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn f(&self, n: &str) -> String {
        if n.starts_with('/') { n.into() } else { self.0.join(n).to_string_lossy().into_owned() }
    }
    fn put(&self, n: &str, b: impl AsRef<[u8]>) -> String {
        std::fs::write(self.f(n), b).unwrap();
        self.f(n)
    }
    fn get(&self, n: &str) -> String {
        std::fs::read_to_string(self.f(n)).unwrap_or_default()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// success or not; panics count as failures
fn ran<T>(f: impl FnOnce() -> anyhow::Result<T>) -> Result<T, String> {
    N.fetch_add(1, Relaxed);
    match guard(f) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(e.to_string()),
        Err(e) => Err(format!("panic: {e}")),
    }
}
fn ran1<T>(f: impl FnOnce() -> anyhow::Result<T>) -> Result<T, String> {
    let _g = BIG.lock().unwrap_or_else(|e| e.into_inner());
    ran(f)
}
fn p_bls() -> BigUint {
    BigUint::parse_bytes(b"1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16).unwrap()
}
fn big(s: &str) -> BigUint {
    match s.strip_prefix("0x") {
        Some(h) => BigUint::parse_bytes(h.as_bytes(), 16).unwrap(),
        None => s.parse().unwrap(),
    }
}
fn of_fp(x: &Fp) -> BigUint {
    BigUint::from_bytes_be(&x.to_bytes_be())
}
fn fp(x: &BigUint) -> Fp {
    let b = x.to_bytes_be();
    let mut a = [0u8; 48];
    a[48 - b.len()..].copy_from_slice(&b);
    Fp::from_bytes_be(&a).unwrap()
}
fn g1s(p: &G1Affine) -> [BigUint; 2] {
    [of_fp(&p.x()), of_fp(&p.y())]
}
fn g2s(p: &G2Affine) -> [BigUint; 4] {
    [of_fp(&p.x().c0()), of_fp(&p.x().c1()), of_fp(&p.y().c0()), of_fp(&p.y().c1())]
}
fn g1v(v: &Value) -> Vec<BigUint> {
    ["x", "y"].iter().map(|k| big(v[k].as_str().unwrap())).collect()
}
fn g2v(v: &Value) -> Vec<BigUint> {
    [("x", 0), ("x", 1), ("y", 0), ("y", 1)].iter().map(|(k, i)| big(v[k][i].as_str().unwrap())).collect()
}
fn spell(x: &BigUint, hex: bool) -> Value {
    if hex { format!("0x{:0>96}", x.to_str_radix(16)) } else { x.to_string() }.into()
}
fn j1(p: &[BigUint; 2], hex: bool) -> Value {
    json!({"x": spell(&p[0], hex), "y": spell(&p[1], hex)})
}
fn j2(p: &[BigUint; 4], hex: bool) -> Value {
    json!({"x": [spell(&p[0], hex), spell(&p[1], hex)], "y": [spell(&p[2], hex), spell(&p[3], hex)]})
}

/// witness wires: 1, then what the program puts there
#[derive(Clone)]
struct Circuit {
    name: String,
    r1cs: Vec<u8>,
    cons: Vec<[Lc; 3]>,
    wasm: String,
    pubs: usize,
    echo: bool,
}
impl Circuit {
    /// echo: witness [1, y, x0, x1, x2]; multiplier: as the repository's circuit
    fn input(&self, w: &[BigUint]) -> String {
        let s = |i: usize| w[i].to_string();
        json!({"a_s0_siblings": [s(2), s(3), s(4)], "y": s(1)}).to_string()
    }
    fn satisfied(&self, w: &[BigUint]) -> bool {
        let r = Fld::Bls.p();
        let v = |l: &Lc| l.iter().map(|(i, c)| BigUint::from_bytes_le(c) * &w[*i]).sum::<BigUint>() % &r;
        self.cons.iter().all(|[a, b, c]| v(a) * v(b) % &r == v(c))
    }
}
fn circuits() -> Vec<Circuit> {
    let f = Fld::Bls;
    let t = |v: &[(usize, i64)]| -> Lc {
        v.iter().map(|(i, c)| (*i, f.le(&if *c < 0 { f.p() - BigUint::from(-c as u64) } else { BigUint::from(*c as u64) }))).collect()
    };
    let systems: Vec<(&str, Vec<[Lc; 3]>)> = vec![
        ("product", vec![[t(&[(2, 1)]), t(&[(3, 1)]), t(&[(1, 1)])], [t(&[(4, 1)]), t(&[(4, 1), (0, -1)]), t(&[])]]),
        ("square and sum", vec![[t(&[(2, 1)]), t(&[(2, 1)]), t(&[(3, 1), (0, 5)])], [t(&[]), t(&[]), t(&[(1, 1), (2, -1), (3, -1)])], [t(&[(4, 3)]), t(&[(1, 1)]), t(&[(2, 3)])]]),
        // every wire is somewhere: the generator refuses circuits with wires nothing reads
        ("equal", vec![[t(&[(1, 1), (2, -1)]), t(&[(0, 1)]), t(&[])], [t(&[(3, 1)]), t(&[(3, 1)]), t(&[(4, 1)])]]),
    ];
    let mut out = vec![];
    for (name, cons) in systems {
        for pubs in 0..=4usize {
            let file = File { f, h: [5, pubs as u32 / 2, pubs as u32 - pubs as u32 / 2, 4 - pubs as u32], n_labels: 5, cons: cons.clone(), map: (0..5).collect(), gates: vec![], uses: vec![], order: vec![1, 2, 3] };
            out.push(Circuit {
                name: format!("{name}, {pubs} public"),
                r1cs: file.bytes(),
                cons: cons.clone(),
                wasm: root().join("mc/h_gpu/data/echo_bls.wasm").to_str().unwrap().into(),
                pubs,
                echo: true,
            });
        }
    }
    out
}
/// the values of the wires the programs of the circuits above may hold
fn witnesses(c: &Circuit) -> Vec<Vec<BigUint>> {
    let r = Fld::Bls.p();
    let k = |x: u64| BigUint::from(x);
    let one = k(1);
    let mut vals = vec![k(0), k(1), k(2), k(7), &r - 1u8, &r - 2u8, (&r - 1u8) / 2u8, (k(1) << 64) - 1u8, k(1) << 64, k(1) << 128, k(1) << 192, (k(1) << 192) + 5u8];
    vals.push(k(255));
    vals.push(k(256));
    let mut out = vec![];
    for (i, a) in vals.iter().enumerate() {
        let b = &vals[(i * 5 + 3) % vals.len()];
        let w = if c.name.starts_with("product") {
            vec![one.clone(), a * b % &r, a.clone(), b.clone(), k(i as u64 % 2)]
        } else if c.name.starts_with("square") {
            // x1 = x0^2 - 5, y = x0 + x1, x2 = x0 / y
            let x1 = (a * a + &r - 5u8) % &r;
            let y = (a + &x1) % &r;
            let inv = y.modpow(&(&r - 2u8), &r);
            vec![one.clone(), y.clone(), a.clone(), x1, if y == k(0) { b.clone() } else { a * inv % &r }]
        } else {
            vec![one.clone(), a.clone(), a.clone(), b.clone(), b * b % &r]
        };
        if c.satisfied(&w) && w[2] != k(77) {
            out.push(w);
        }
    }
    out
}

struct Keys {
    d: Dir,
    vk: Value,
}
fn setup(mc: &Mc, c: &Circuit, hex: bool) -> Option<Keys> {
    let d = Dir::new();
    let r1cs = d.put("c.r1cs", &c.r1cs);
    let key = format!("{} hex={hex}: setup", c.name);
    let r = ran1(|| groth16_setup(CURVE, &r1cs, &d.f("pk"), &d.f("vk"), hex));
    if !mc.check(r.is_ok(), &key, || format!("{r:?}")) {
        return None;
    }
    let Ok(vk) = serde_json::from_str::<Value>(&d.get("vk")) else {
        mc.check(false, &key, || "the verification key is no JSON".into());
        return None;
    };
    // the key is the one of the parameters, in the spelling asked for
    let pk = Parameters::<Bls12>::read(std::io::BufReader::new(std::fs::File::open(d.f("pk")).unwrap()), true);
    let Ok(pk) = pk else {
        mc.check(false, &key, || "the parameters cannot be read back".into());
        return None;
    };
    mc.check(vk == vk_json(&pk.vk, hex), &key, || format!("{vk} is not the verification key of the parameters"));
    mc.check(pk.vk.ic.len() == c.pubs + 1, &key, || format!("{} key points for {} public inputs", pk.vk.ic.len(), c.pubs));
    Some(Keys { d, vk })
}
fn vk_json(v: &VerifyingKey<Bls12>, hex: bool) -> Value {
    json!({"protocol": "groth16", "curve": CURVE, "vk_alpha_1": j1(&g1s(&v.alpha_g1), hex), "vk_beta_1": j1(&g1s(&v.beta_g1), hex),
        "vk_beta_2": j2(&g2s(&v.beta_g2), hex), "vk_gamma_2": j2(&g2s(&v.gamma_g2), hex), "vk_delta_1": j1(&g1s(&v.delta_g1), hex),
        "vk_delta_2": j2(&g2s(&v.delta_g2), hex), "IC": v.ic.iter().map(|p| j1(&g1s(p), hex)).collect::<Vec<_>>()})
}
fn prove(c: &Circuit, k: &Keys, w: &[BigUint], hex: bool) -> Result<(Value, Value), String> {
    let d = Dir::new();
    let input = d.put("input.json", c.input(w));
    ran1(|| groth16_prove(CURVE, &k.d.f("c.r1cs"), &c.wasm, &k.d.f("pk"), &input, &d.f("pub"), &d.f("proof"), hex))?;
    let j = |n: &str| serde_json::from_str(&d.get(n)).map_err(|e| format!("{n}: {e}"));
    Ok((j("proof")?, j("pub")?))
}
/// the verifying command
fn verify(vk: &str, publics: &str, proof: &str) -> bool {
    let d = Dir::new();
    let (v, p, q) = (d.put("vk", vk), d.put("pub", publics), d.put("proof", proof));
    ran(|| groth16_verify(CURVE, &v, &p, &q)).is_ok()
}
fn ver(vk: &Value, publics: &Value, proof: &Value) -> bool {
    verify(&vk.to_string(), &publics.to_string(), &proof.to_string())
}

fn honest(mc: &Mc, c: &Circuit, hex: bool) {
    let Some(k) = setup(mc, c, hex) else { return };
    // the two spellings of a key say the same
    let all = witnesses(c);
    par(&all.iter().enumerate().collect::<Vec<_>>(), |(i, w)| {
        let ph = (i % 2 == 0) == hex;
        let key = format!("{} hex={hex},{ph}: {:?}", c.name, w.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        let (proof, publics) = match prove(c, &k, w, ph) {
            Ok(x) => x,
            Err(e) => {
                mc.check(false, &key, || e);
                return;
            }
        };
        let want: Vec<String> = w[1..=c.pubs].iter().map(|x| x.to_string()).collect();
        mc.check(publics == json!(want), &format!("{key}: publics"), || format!("{publics} instead of {want:?}"));
        mc.check(proof["protocol"] == "groth16" && proof["curve"] == CURVE, &format!("{key}: names"), || proof.to_string());
        let pts = [&proof["pi_a"]["x"], &proof["pi_b"]["y"][1], &proof["pi_c"]["y"]];
        mc.check(pts.iter().all(|s| s.as_str().is_some_and(|s| s.starts_with("0x") == ph)), &format!("{key}: spelling"), || proof.to_string());
        mc.check(ver(&k.vk, &publics, &proof), &format!("{key}: verifies"), || "the proof is refused".into());
        // the other ways to write public inputs
        if i % 4 == 0 {
            let h: Vec<String> = w[1..=c.pubs].iter().map(|x| format!("0x{}", x.to_str_radix(16))).collect();
            mc.check(ver(&k.vk, &json!(h), &proof), &format!("{key}: hex publics"), || "the proof is refused".into());
        }
    });
    // wires that break a constraint: whatever is written is refused
    let r = Fld::Bls.p();
    let w = &all[3 % all.len()];
    for i in 1..5 {
        for v in [BigUint::from(0u8), BigUint::from(1u8), &w[i] + 1u8, &r - 1u8] {
            let mut x = w.clone();
            x[i] = v % &r;
            if c.satisfied(&x) {
                continue;
            }
            let key = format!("{} hex={hex}: wire {i} := {}", c.name, x[i]);
            if let Ok((proof, publics)) = prove(c, &k, &x, hex) {
                mc.check(!ver(&k.vk, &publics, &proof), &key, || "a false statement is accepted".into());
                let right: Vec<String> = w[1..=c.pubs].iter().map(|x| x.to_string()).collect();
                mc.check(!ver(&k.vk, &json!(right), &proof), &key, || "a proof made from a false witness is accepted".into());
            }
        }
    }
}

/// points of the groups and near them
fn torsion_g1() -> G1Affine {
    // a point of the curve outside the group: x such that x^3 + 4 is a square
    for x in 0u64..100 {
        let x = fp(&x.into());
        let y2 = x * x * x + fp(&4u8.into());
        if let Some(y) = Option::<Fp>::from(y2.sqrt()) {
            let p = G1Affine::from_raw_unchecked(x, y, false);
            if bool::from(p.is_on_curve()) && !bool::from(p.is_torsion_free()) {
                // r times it is of small order
                let mut acc = G1Projective::from(p);
                let base = acc;
                let bits = Fld::Bls.p().to_str_radix(2);
                for b in bits.chars().skip(1) {
                    acc = acc + acc;
                    if b == '1' {
                        acc += base;
                    }
                }
                return acc.into();
            }
        }
    }
    unreachable!()
}
fn torsion_g2() -> G2Affine {
    for x in 0u64..100 {
        let x = Fp2::new(fp(&x.into()), fp(&1u8.into()));
        let y2 = x * x * x + Fp2::new(fp(&4u8.into()), fp(&4u8.into()));
        if let Some(y) = Option::<Fp2>::from(y2.sqrt()) {
            let p = G2Affine::from_raw_unchecked(x, y, false);
            if bool::from(p.is_on_curve()) && !bool::from(p.is_torsion_free()) {
                let mut acc = G2Projective::from(p);
                let base = acc;
                let bits = Fld::Bls.p().to_str_radix(2);
                for b in bits.chars().skip(1) {
                    acc = acc + acc;
                    if b == '1' {
                        acc += base;
                    }
                }
                return acc.into();
            }
        }
    }
    unreachable!()
}
fn pt1(v: &Value) -> G1Affine {
    let v = g1v(v);
    G1Affine::from_raw_unchecked(fp(&v[0]), fp(&v[1]), false)
}
fn pt2(v: &Value) -> G2Affine {
    let v = g2v(v);
    G2Affine::from_raw_unchecked(Fp2::new(fp(&v[0]), fp(&v[1])), Fp2::new(fp(&v[2]), fp(&v[3])), false)
}

/// every place of a text object that holds a number
fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::String(s) if s.starts_with(|c: char| c.is_ascii_digit()) => out.push(at.clone()),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| {
            at.push(i.to_string());
            places(x, at, out);
            at.pop();
        }),
        Value::Object(o) => o.iter().for_each(|(k, x)| {
            at.push(k.clone());
            places(x, at, out);
            at.pop();
        }),
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
    p.iter().fold(v, |v, k| match v {
        Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
        v => &mut v[k.as_str()],
    })
}

fn altered(mc: &Mc, c: &Circuit, other: &Circuit) {
    let (Some(k), Some(k2)) = (setup(mc, c, false), setup(mc, c, true)) else { return };
    let Some(ko) = setup(mc, other, false) else { return };
    let ws = witnesses(c);
    let (w, w2) = (&ws[3 % ws.len()], &ws[ws.len() - 1]);
    let (Ok((proof, publics)), Ok((again, _)), Ok((proof2, publics2))) = (prove(c, &k, w, false), prove(c, &k, w, false), prove(c, &k, w2, false)) else {
        mc.check(false, &format!("{}: proofs", c.name), || "no proof".into());
        return;
    };
    let ok = |what: String, vk: &Value, p: &Value, q: &Value| {
        mc.check(!ver(vk, p, q), &format!("{}: {what}", c.name), || "accepted".into());
    };
    mc.check(ver(&k.vk, &publics, &proof) && ver(&k.vk, &publics, &again) && ver(&k.vk, &publics2, &proof2), &format!("{}: proofs", c.name), || "refused".into());
    let r = Fld::Bls.p();
    let p = p_bls();
    let mut items: Vec<(String, Value, Value, Value)> = vec![];
    // public inputs
    let pv = publics.as_array().unwrap().clone();
    for i in 0..pv.len() {
        let v = big(pv[i].as_str().unwrap());
        for x in [(&v + 1u8) % &r, (&v + &r - 1u8) % &r, BigUint::from(0u8), (&r - &v) % &r, &v ^ (BigUint::from(1u8) << 200), &v + &r, &v + (&r << 1)] {
            if x != v {
                let mut q = pv.clone();
                q[i] = x.to_string().into();
                items.push((format!("public {i} := {x}"), k.vk.clone(), json!(q), proof.clone()));
                q[i] = format!("0x{}", x.to_str_radix(16)).into();
                items.push((format!("public {i} := {x} in hex"), k.vk.clone(), json!(q), proof.clone()));
            }
        }
        let mut q = pv.clone();
        q.remove(i);
        items.push((format!("without public {i}"), k.vk.clone(), json!(q), proof.clone()));
        for j in 0..i {
            let mut q = pv.clone();
            q.swap(i, j);
            if q != pv {
                items.push((format!("publics {i} and {j} exchanged"), k.vk.clone(), json!(q), proof.clone()));
            }
        }
        for bad in ["", "x", "0x", "-1", "1 ", "1.0", "0xg"] {
            let mut q = pv.clone();
            q[i] = bad.into();
            if !(bad == "0x" && v == BigUint::from(0u8) || bad.is_empty() && v == BigUint::from(0u8)) {
                items.push((format!("public {i} := {bad:?}"), k.vk.clone(), json!(q), proof.clone()));
            }
        }
    }
    for x in ["0", "1"] {
        let mut q = pv.clone();
        q.push(x.into());
        items.push((format!("one more public input {x}"), k.vk.clone(), json!(q), proof.clone()));
        q.rotate_right(1);
        items.push((format!("one more public input {x} in front"), k.vk.clone(), json!(q), proof.clone()));
    }
    for q in [json!({}), json!("1"), json!(null), json!([[publics]])] {
        items.push((format!("publics {q}"), k.vk.clone(), q, proof.clone()));
    }
    if publics != publics2 {
        items.push(("publics of another proof".into(), k.vk.clone(), publics2.clone(), proof.clone()));
        items.push(("proof of other publics".into(), k.vk.clone(), publics.clone(), proof2.clone()));
    }
    // parts of two proofs
    for m in 1..7 {
        for (name, o) in [("another proof of the same", &again), ("a proof of something else", &proof2)] {
            let mut q = proof.clone();
            for (i, part) in ["pi_a", "pi_b", "pi_c"].iter().enumerate() {
                if m >> i & 1 == 1 {
                    q[part] = o[part].clone();
                }
            }
            items.push((format!("parts {m} of {name}"), k.vk.clone(), publics.clone(), q));
        }
    }
    // every number of proof and key
    for (what, src) in [("proof", &proof), ("key", &k.vk)] {
        let mut ps = vec![];
        places(src, &mut vec![], &mut ps);
        for at_ in &ps {
            // these two are not part of the equation
            if what == "key" && (at_[0] == "vk_beta_1" || at_[0] == "vk_delta_1") {
                continue;
            }
            let mut s = src.clone();
            let v = big(at(&mut s, at_).as_str().unwrap());
            for x in [(&v + 1u8) % &p, (&v + &p - 1u8) % &p, BigUint::from(0u8), BigUint::from(1u8), &p - &v, &v + &p, &v ^ (BigUint::from(1u8) << 383)] {
                if x == v {
                    continue;
                }
                let mut s = src.clone();
                *at(&mut s, at_) = x.to_string().into();
                let (vk, q) = if what == "key" { (s, proof.clone()) } else { (k.vk.clone(), s) };
                items.push((format!("{what} {} := {x}", at_.join(".")), vk, publics.clone(), q));
            }
            let mut s = src.clone();
            *at(&mut s, at_) = Value::Null;
            let (vk, q) = if what == "key" { (s, proof.clone()) } else { (k.vk.clone(), s) };
            items.push((format!("{what} {} := null", at_.join(".")), vk, publics.clone(), q));
        }
        // points exchanged, negated, replaced by others of the group, moved out of the group
        let g1: Vec<Vec<String>> = ps.iter().filter(|x| x.last().unwrap() == "x").map(|x| x[..x.len() - 1].to_vec()).collect();
        let g2: Vec<Vec<String>> = ps.iter().filter(|x| x.len() > 2 && x[x.len() - 2] == "x" && x.last().unwrap() == "0").map(|x| x[..x.len() - 2].to_vec()).collect();
        let (t1, t2) = (torsion_g1(), torsion_g2());
        for a in &g1 {
            if what == "key" && (a[0] == "vk_beta_1" || a[0] == "vk_delta_1") {
                continue;
            }
            let mut s = src.clone();
            let v = pt1(at(&mut s, a));
            let pj = G1Projective::from(v);
            for (n, x) in [
                ("negated", G1Affine::from(-pj)), ("infinity", G1Affine::default()), ("the generator", blstrs::G1Affine::from(<G1Projective as group_::Group>::generator())),
                ("doubled", (pj + pj).into()), ("moved out of the group", (pj + G1Projective::from(t1)).into()), ("of small order", t1),
            ] {
                let mut s = src.clone();
                *at(&mut s, a) = j1(&g1s(&x), false);
                let (vk, q) = if what == "key" { (s, proof.clone()) } else { (k.vk.clone(), s) };
                items.push((format!("{what} {} {n}", a.join(".")), vk, publics.clone(), q));
            }
            for b in &g1 {
                let mut s = src.clone();
                let y = at(&mut s, b).clone();
                let x = std::mem::replace(at(&mut s, a), y);
                *at(&mut s, b) = x;
                if &s == src || b >= a || what == "key" && (b[0] == "vk_beta_1" || b[0] == "vk_delta_1") {
                    continue;
                }
                let (vk, q) = if what == "key" { (s, proof.clone()) } else { (k.vk.clone(), s) };
                // two key points exchanged matter when their inputs differ
                let same = a[0] == "IC" && b[0] == "IC" && {
                    let i = |z: &Vec<String>| z[1].parse::<usize>().unwrap();
                    let inp = |i: usize| if i == 0 { "1".into() } else { pv[i - 1].as_str().unwrap().to_string() };
                    inp(i(a)) == inp(i(b))
                };
                if !same {
                    items.push((format!("{what} {} and {} exchanged", a.join("."), b.join(".")), vk, publics.clone(), q));
                }
            }
        }
        for a in &g2 {
            let mut s = src.clone();
            let v = pt2(at(&mut s, a));
            let pj = G2Projective::from(v);
            for (n, x) in [
                ("negated", G2Affine::from(-pj)), ("infinity", G2Affine::default()), ("the generator", G2Affine::from(<G2Projective as group_::Group>::generator())),
                ("doubled", (pj + pj).into()), ("moved out of the group", (pj + G2Projective::from(t2)).into()), ("of small order", t2),
            ] {
                let mut s = src.clone();
                *at(&mut s, a) = j2(&g2s(&x), false);
                let (vk, q) = if what == "key" { (s, proof.clone()) } else { (k.vk.clone(), s) };
                items.push((format!("{what} {} {n}", a.join(".")), vk, publics.clone(), q));
            }
        }
    }
    // keys of others
    items.push(("another key of the same circuit".into(), k2.vk.clone(), publics.clone(), proof.clone()));
    items.push(("the key of another circuit".into(), ko.vk.clone(), publics.clone(), proof.clone()));
    // the key point of a public input that is not zero
    let ic = k.vk["IC"].as_array().unwrap();
    for i in 0..ic.len() {
        if i > 0 && pv[i - 1] == "0" {
            continue;
        }
        let mut s = k.vk.clone();
        s["IC"].as_array_mut().unwrap().remove(i);
        items.push((format!("key without point {i}"), s, publics.clone(), proof.clone()));
    }
    // a point of the key whose input is zero does not enter the equation
    let dead = |what: &str| -> bool {
        what.strip_prefix("key IC.").and_then(|s| s.split(|c: char| !c.is_ascii_digit()).next()?.parse::<usize>().ok()).is_some_and(|i| i > 0 && pv[i - 1] == "0")
    };
    par(&items, |(what, vk, p, q)| {
        if !dead(what) || what.contains("moved out") || what.contains("small order") {
            ok(what.clone(), vk, p, q);
        }
    });
    // text cut anywhere
    let texts = [k.vk.to_string(), publics.to_string(), proof.to_string()];
    for i in 0..3 {
        par(&(0..texts[i].len()).step_by(mc.pick(7, 1)).collect::<Vec<usize>>(), |&n| {
            let mut t = texts.clone();
            t[i].truncate(n);
            mc.check(!verify(&t[0], &t[1], &t[2]), &format!("{}: text {i} cut at {n}", c.name), || "accepted".into());
        });
        for extra in ["x", "{}", "1", &texts[i].clone()] {
            let mut t = texts.clone();
            t[i] += extra;
            mc.check(!verify(&t[0], &t[1], &t[2]), &format!("{}: text {i} followed by more", c.name), || "accepted".into());
        }
    }
}
use bellperson_group as group_;
mod bellperson_group {
    pub use group::Group;
}

fn faults(mc: &Mc) {
    let c = &circuits()[2];
    let Some(k) = setup(mc, c, false) else { return };
    let ws = witnesses(c);
    let d = Dir::new();
    let input = d.put("input.json", c.input(&ws[3]));
    let (r1cs, pk, vk) = (k.d.f("c.r1cs"), k.d.f("pk"), k.d.f("vk"));
    ran1(|| groth16_prove(CURVE, &r1cs, &c.wasm, &pk, &input, &d.f("pub"), &d.f("proof"), false)).ok();
    let (pubs, proof) = (d.f("pub"), d.f("proof"));
    mc.check(ran(|| groth16_verify(CURVE, &vk, &pubs, &proof)).is_ok(), "faults: base", || "refused".into());
    let no = |what: String, r: Result<(), String>| {
        mc.check(r.is_err(), &format!("faults: {what}"), || "success is reported".into());
    };
    for curve in ["", "bls12381", "BLS12-381", "BN128", "BN254", "GL", "BLS12381 "] {
        no(format!("setup for {curve:?}"), ran1(|| groth16_setup(curve, &r1cs, &d.f("a"), &d.f("b"), false)));
        no(format!("proof for {curve:?}"), ran1(|| groth16_prove(curve, &r1cs, &c.wasm, &pk, &input, &d.f("a"), &d.f("b"), false)));
        no(format!("verification for {curve:?}"), ran(|| groth16_verify(curve, &vk, &pubs, &proof)));
        no(format!("setup in place for {curve:?}"), ran1(|| groth16_setup_inplace(curve, &r1cs).map(|_| ())));
    }
    let none = d.f("none");
    no("setup without a circuit".into(), ran1(|| groth16_setup(CURVE, &none, &d.f("a"), &d.f("b"), false)));
    for out in ["/dev/full", "/nonexistent/x"] {
        no(format!("parameters to {out}"), ran1(|| groth16_setup(CURVE, &r1cs, out, &d.f("b"), false)));
        no(format!("key to {out}"), ran1(|| groth16_setup(CURVE, &r1cs, &d.f("a"), out, false)));
        no(format!("publics to {out}"), ran1(|| groth16_prove(CURVE, &r1cs, &c.wasm, &pk, &input, out, &d.f("b"), false)));
        no(format!("proof to {out}"), ran1(|| groth16_prove(CURVE, &r1cs, &c.wasm, &pk, &input, &d.f("a"), out, false)));
        no(format!("contract to {out}"), ran(|| generate_verifier(&vk, out)));
    }
    for i in 0..4 {
        let mut a = [r1cs.clone(), c.wasm.clone(), pk.clone(), input.clone()];
        a[i] = none.clone();
        no(format!("proof without file {i}"), ran1(|| groth16_prove(CURVE, &a[0], &a[1], &a[2], &a[3], &d.f("a"), &d.f("b"), false)));
    }
    for i in 0..3 {
        let mut a = [vk.clone(), pubs.clone(), proof.clone()];
        a[i] = none.clone();
        no(format!("verification without file {i}"), ran(|| groth16_verify(CURVE, &a[0], &a[1], &a[2])));
    }
    no("contract without a key".into(), ran(|| generate_verifier(&none, &d.f("a"))));
    // cut files
    let pkb = std::fs::read(&pk).unwrap();
    let step = mc.pick(97, 7);
    par(&(0..pkb.len()).step_by(step).collect::<Vec<usize>>(), |&n| {
        let e = Dir::new();
        let q = e.put("pk", &pkb[..n]);
        no(format!("proof from parameters cut at {n} of {}", pkb.len()), ran1(|| groth16_prove(CURVE, &r1cs, &c.wasm, &q, &input, &e.f("a"), &e.f("b"), false)));
    });
    par(&(0..c.r1cs.len()).collect::<Vec<usize>>(), |&n| {
        let e = Dir::new();
        let q = e.put("r", &c.r1cs[..n]);
        no(format!("setup from a circuit cut at {n}"), ran1(|| groth16_setup(CURVE, &q, &e.f("a"), &e.f("b"), false)));
    });
    let vks = k.vk.to_string();
    par(&(0..vks.len()).step_by(mc.pick(11, 1)).collect::<Vec<usize>>(), |&n| {
        let e = Dir::new();
        let q = e.put("vk", &vks[..n]);
        no(format!("contract from a key cut at {n}"), ran(|| generate_verifier(&q, &e.f("a"))));
    });
    // parameters of another circuit
    for o in [&circuits()[0], &circuits()[4], &circuits()[7]] {
        if let Some(ko) = setup(mc, o, false) {
            let e = Dir::new();
            let r = ran1(|| groth16_prove(CURVE, &r1cs, &c.wasm, &ko.d.f("pk"), &input, &e.f("a"), &e.f("b"), false));
            let mut both = vec![];
            if r.is_ok() {
                for v in [&vk, &ko.d.f("vk")] {
                    both.push(ran(|| groth16_verify(CURVE, v, &e.f("a"), &e.f("b"))).is_ok());
                }
            }
            mc.check(both.iter().all(|x| !x), &format!("faults: proof with the parameters of {}", o.name), || format!("{both:?}"));
        }
    }
    // the repository's circuit, with the parameters kept in memory
    let ws = root().join("build/ws/groth16");
    let _ = ws;
    for c in circuits().iter().filter(|c| c.echo) {
        let d = Dir::new();
        let r1cs = d.put("c.r1cs", &c.r1cs);
        let key = format!("in place: {}", c.name);
        let Ok(SetupResult::BLS12381(circuit, pk, vk)) = ran1(|| groth16_setup_inplace(CURVE, &r1cs)) else {
            mc.check(false, &key, || "no setup".into());
            continue;
        };
        let w = &witnesses(c)[5 % witnesses(c).len()];
        let input = d.put("input.json", c.input(w));
        let r = ran1(|| groth16_prove_inplace(CURVE, circuit, &c.wasm, pk, &input, &d.f("pub"), &d.f("proof"), true));
        mc.check(r.is_ok(), &key, || format!("{r:?}"));
        let want: Vec<String> = w[1..=c.pubs].iter().map(|x| x.to_string()).collect();
        mc.check(serde_json::from_str::<Value>(&d.get("pub")).ok() == Some(json!(want)), &key, || d.get("pub"));
        let vk = vk_json(&vk, false).to_string();
        mc.check(verify(&vk, &d.get("pub"), &d.get("proof")), &key, || "refused".into());
    }
}

/// points and scalars to text and back
fn texts(mc: &Mc) {
    let gen1 = <G1Projective as group_::Group>::generator();
    let gen2 = <G2Projective as group_::Group>::generator();
    let ks: Vec<Scalar> = (0..mc.pick(200u64, 3000)).map(Scalar::from).chain([-Scalar::ONE, -Scalar::from(2u64), Scalar::from(u64::MAX)]).collect();
    // among these there are coordinates with leading zero digits
    let small = std::sync::Mutex::new(1000usize);
    par(&ks, |k| {
        let (a, b): (G1Affine, G2Affine) = ((gen1 * k).into(), (gen2 * k).into());
        let key = format!("point {}", BigUint::from_bytes_be(&k.to_bytes_be()));
        for hex in [false, true] {
            N.fetch_add(4, Relaxed);
            let pr = Proof::<Bls12> { a, b, c: (gen1 * (k + Scalar::ONE)).into() };
            let want = json!({"pi_a": j1(&g1s(&pr.a), hex), "pi_b": j2(&g2s(&pr.b), hex), "pi_c": j1(&g1s(&pr.c), hex), "protocol": "groth16", "curve": "any"});
            let t = guard(|| serialize_proof(&pr, "any", hex).unwrap()).unwrap_or_default();
            mc.check(serde_json::from_str::<Value>(&t).ok() == Some(want.clone()), &key, || format!("{t} instead of {want}"));
            let m = g1s(&a).iter().map(|x| x.to_str_radix(16).len()).min().unwrap();
            let mut s = small.lock().unwrap();
            *s = (*s).min(m);
            drop(s);
            // upper case and short hexadecimal numbers are numbers too
            for t in [want.to_string(), want.to_string().replace("\"0x0", "\"0x")] {
                let back = guard(|| to_proof::<Bls12>(&t));
                mc.check(back.as_ref().is_ok_and(|q| q.a == pr.a && q.b == pr.b && q.c == pr.c), &format!("{key} hex={hex} back"), || format!("{t} reads as {back:?}"));
            }
            let vk = VerifyingKey::<Bls12> { alpha_g1: a, beta_g1: (gen1 * (k + Scalar::ONE)).into(), beta_g2: b, gamma_g2: (gen2 * (k + Scalar::from(3u64))).into(), delta_g1: (gen1 * (k + Scalar::from(5u64))).into(), delta_g2: (gen2 * (k + Scalar::from(7u64))).into(), ic: (0..(a.to_compressed()[47] % 4)).map(|i| (gen1 * (k + Scalar::from(11 + i as u64))).into()).collect() };
            let t = guard(|| serialize_vk(&vk, CURVE, hex).unwrap()).unwrap_or_default();
            mc.check(serde_json::from_str::<Value>(&t).ok() == Some(vk_json(&vk, hex)), &format!("{key} vk"), || t.clone());
            let back = guard(|| to_verification_key::<Bls12>(&vk_json(&vk, hex).to_string()));
            mc.check(
                back.as_ref().is_ok_and(|v| v.alpha_g1 == vk.alpha_g1 && v.beta_g1 == vk.beta_g1 && v.beta_g2 == vk.beta_g2 && v.gamma_g2 == vk.gamma_g2 && v.delta_g1 == vk.delta_g1 && v.delta_g2 == vk.delta_g2 && v.ic == vk.ic),
                &format!("{key} vk back hex={hex}"),
                || "another key".into(),
            );
        }
    });
    let r = Fld::Bls.p();
    let one = BigUint::from(1u8);
    let mut vals: Vec<BigUint> = (0..300u32).map(BigUint::from).collect();
    for b in 8..255 {
        for d in 0..3u8 {
            vals.push((&one << b) - 1u8 + d);
        }
    }
    for d in 0..20u8 {
        vals.push(&r - 10u8 + d);
    }
    vals.push((&one << 256) - 1u8);
    vals.push(&one << 256);
    vals.push((&one << 256) + 1u8);
    vals.push((&one << 264) + 1u8);
    for v in vals {
        for t in [v.to_string(), format!("0x{}", v.to_str_radix(16)), format!("0x{:0>64}", v.to_str_radix(16)), format!("0x{}", v.to_str_radix(16).to_uppercase())] {
            N.fetch_add(1, Relaxed);
            let s = json!([t, "5"]).to_string();
            let got = guard(|| to_public_input(&s)).ok().map(|x| x.iter().map(|y| BigUint::from_bytes_be(&y.to_bytes_be())).collect::<Vec<_>>());
            let want = if v < r { Some(vec![v.clone(), 5u8.into()]) } else { None };
            mc.check(got == want, &format!("public input {t}"), || format!("{got:?}"));
        }
    }
    mc.section("shortest coordinate", json!({"hex digits": *small.lock().unwrap()}));
}

/// the contract holds the numbers of the key, each in its place
fn contract(mc: &Mc) {
    for (style, n) in (0..4).flat_map(|s| (0..=mc.pick(12usize, 40)).map(move |n| (s, n))) {
        let mut next = 0u64;
        let mut num = || {
            next += 1;
            let x = match style {
                0 => BigUint::from(next * 1000 + 7),
                1 => (BigUint::from(next) << 240u32) + 3u8,
                2 => BigUint::from(next),
                _ => BigUint::from(u64::MAX - next) * BigUint::from(u64::MAX) * BigUint::from(u64::MAX),
            };
            if style % 2 == 1 { format!("0x{:0>64}", x.to_str_radix(16)) } else { x.to_string() }
        };
        let mut g1 = || json!({"x": num(), "y": num()});
        let (alpha, beta1, delta1) = (g1(), g1(), g1());
        let ic: Vec<Value> = (0..n + 1).map(|_| g1()).collect();
        let mut g2 = || json!({"x": [num(), num()], "y": [num(), num()]});
        let (beta, gamma, delta) = (g2(), g2(), g2());
        let vk = json!({"protocol": "groth16", "curve": "BN128", "vk_alpha_1": alpha, "vk_beta_1": beta1, "vk_beta_2": beta, "vk_gamma_2": gamma, "vk_delta_1": delta1, "vk_delta_2": delta, "IC": ic});
        let d = Dir::new();
        let key = format!("contract style {style} with {n} inputs");
        let v = d.put("vk", vk.to_string());
        let r = ran(|| generate_verifier(&v, &d.f("sol")));
        if !mc.check(r.is_ok(), &key, || format!("{r:?}")) {
            continue;
        }
        let text = d.get("sol");
        let t: String = text.chars().filter(|c| !c.is_whitespace()).collect();
        mc.check(!t.contains("<%") && !t.contains("%>"), &key, || "a place is left open".into());
        // numbers between a place and the end of its statement
        let nums = |p: &str| -> Vec<BigUint> {
            let m: Vec<usize> = t.match_indices(p).map(|x| x.0).collect();
            if m.len() != 1 {
                return vec![];
            }
            let s = &t[m[0] + p.len()..];
            let s = &s[..s.find(';').unwrap_or(0)];
            let s = s.replace("uint256", "").replace("Pairing.G1Point", "").replace("Pairing.G2Point", "");
            s.split(|c: char| !c.is_ascii_alphanumeric()).filter(|x| !x.is_empty()).map(|x| if x.starts_with(|c: char| c.is_ascii_digit()) { big(x) } else { BigUint::from(0u8) }).collect()
        };
        for (place, want) in [("vk.alpha=", g1v(&alpha)), ("vk.beta=", g2v(&beta)), ("vk.gamma=", g2v(&gamma)), ("vk.delta=", g2v(&delta))] {
            mc.check(nums(place) == want, &format!("{key}: {place}"), || format!("{:?}", nums(place)));
        }
        for (i, p) in ic.iter().enumerate() {
            let place = format!("vk.gamma_abc[{i}]=");
            mc.check(nums(&place) == g1v(p), &format!("{key}: {place}"), || format!("{:?}", nums(&place)));
        }
        mc.check(!t.contains(&format!("vk.gamma_abc[{}]=", n + 1)), &key, || "one point too many".into());
        mc.check(t.contains(&format!("vk.gamma_abc=newPairing.G1Point[]({});", n + 1)), &key, || "another number of key points".into());
        mc.check(t.contains(&format!("inputValues=newuint[]({n});")), &key, || "another number of inputs".into());
        mc.check(t.contains(&format!("Proofmemoryproof,uint[{n}]memoryinput)")) == (n > 0), &key, || "another argument".into());
        mc.check(t.contains("inputValues[i]=input[i];") == (n > 0), &key, || "the inputs are not passed on".into());
        mc.check(t.matches('{').count() == t.matches('}').count() && t.matches('(').count() == t.matches(')').count(), &key, || "unbalanced".into());
    }
}

fn run(mc: &Mc) {
    quiet_all(true);
    mc.rule("one run of a command (setup, prove, verify, contract) or of a reader or writer of its files, on good, altered, mixed, cut or missing files");
    let sec = |name: &str| {
        let n = N.swap(0, Relaxed);
        mc.states(n);
        mc.transitions(n);
        mc.traces(n);
        mc.evals(n, n);
        mc.section(name, json!({"runs": n}));
    };
    let cs = circuits();
    let jobs: Vec<(usize, bool)> = (0..cs.len()).flat_map(|i| [(i, false), (i, true)]).filter(|(i, h)| mc.thorough() || (i + *h as usize) % 2 == 0 || *i < 3).collect();
    par(&jobs, |(i, h)| honest(mc, &cs[*i], *h));
    sec("statements proved and verified");
    let ids: Vec<usize> = (0..cs.len()).filter(|i| mc.thorough() || [2, 4, 5, 8, 11].contains(i)).collect();
    par(&ids, |i| altered(mc, &cs[*i], &cs[(*i + 5) % cs.len()]));
    sec("altered and mixed");
    faults(mc);
    sec("missing and damaged files");
    texts(mc);
    sec("text forms");
    contract(mc);
    sec("contracts");
    mc.sample(json!({"circuit": cs[2].name, "change": "a point of small order added to pi_a", "expected": "refused"}));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mc = Mc::new(&a[1], a.get(2).map(|s| s.as_str()).unwrap_or("quick"));
    main_for(mc, run)
}
