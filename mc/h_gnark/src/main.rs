//! `h_gnark P23 TIER`: Groth16 proofs, keys and public inputs of BLS12-381 as text and bytes.
use ark_bls12_381::{Bls12_381, Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G2Affine};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{AdditiveGroup, Field, PrimeField, Zero};
use ark_groth16::{prepare_verifying_key, Groth16, Proof, VerifyingKey};
use mc_common::*;
use num_bigint::BigUint;
use rayon::prelude::*;
use recursion_gnark_ffi::json_util::{Groth16Proof, JsonPublicInput, JsonVerificationKey};
use recursion_gnark_ffi::traits::{ArkworksPairingBridge, ArkworksPrimeFieldBridge, CheckElement};
use serde_json::{json, Value};
use std::io::Read;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

type B = Bls12_381;
fn big<F: PrimeField>(x: &F) -> BigUint {
    (*x).into_bigint().into()
}
fn s<F: PrimeField>(x: &F) -> Value {
    json!(big(x).to_string())
}
fn s2(x: &Fq2) -> Value {
    json!([s(&x.c0), s(&x.c1)])
}
fn t1(p: &G1Affine) -> Value {
    match p.xy() {
        Some((x, y)) => json!([s(&x), s(&y), "1"]),
        None => json!(["0", "1", "0"]),
    }
}
fn t2(p: &G2Affine) -> Value {
    match p.xy() {
        Some((x, y)) => json!([s2(&x), s2(&y), ["1", "0"]]),
        None => json!([["0", "0"], ["1", "0"], ["0", "0"]]),
    }
}
fn t12(x: &Fq12) -> Value {
    let six = |x: &Fq6| json!([s2(&x.c0), s2(&x.c1), s2(&x.c2)]);
    json!([six(&x.c0), six(&x.c1)])
}
fn proof_text(a: &G1Affine, b: &G2Affine, c: &G1Affine) -> Value {
    json!({"pi_a": t1(a), "pi_b": t2(b), "pi_c": t1(c), "protocol": "groth16", "curve": "bls12381"})
}
fn key_text(a: &G1Affine, b: &G2Affine, g: &G2Affine, d: &G2Affine, ab: &Fq12, ic: &[G1Affine]) -> Value {
    json!({"protocol": "groth16", "curve": "bls12381", "nPublic": ic.len().saturating_sub(1), "vk_alpha_1": t1(a), "vk_beta_2": t2(b), "vk_gamma_2": t2(g),
        "vk_delta_2": t2(d), "vk_alphabeta_12": t12(ab), "IC": ic.iter().map(t1).collect::<Vec<_>>()})
}
/// None: refused; Err: panicked
fn rd_proof(t: &str) -> Result<Option<Groth16Proof<B>>, String> {
    guard(|| serde_json::from_str::<Groth16Proof<B>>(t).ok())
}
fn rd_key(t: &str) -> Result<Option<JsonVerificationKey<B>>, String> {
    let a = guard(|| serde_json::from_str::<JsonVerificationKey<B>>(t).ok())?;
    let b = guard(|| JsonVerificationKey::<B>::from_reader(t.as_bytes()).ok())?;
    if a != b {
        return Err("the two readers differ".into());
    }
    Ok(a)
}
fn rd_pub(t: &str) -> Result<Option<Vec<Fr>>, String> {
    guard(|| serde_json::from_str::<JsonPublicInput<Fr>>(t).ok().map(|x| x.values))
}
fn frs() -> Vec<Fr> {
    let mut v: Vec<Fr> = (0u64..4).map(Fr::from).collect();
    for k in [8u32, 16, 32, 63, 64, 127, 128, 192, 254] {
        let x = Fr::from(BigUint::from(1u8) << k);
        v.extend([x, x - Fr::from(1u8)]);
    }
    v.extend([-Fr::from(1u8), -Fr::from(2u8), Fr::from(2u8).inverse().unwrap()]);
    v.sort();
    v.dedup();
    v
}
/// points of the curves that are outside the prime-order groups, and pairs that are on no curve
fn outside1() -> Vec<(Fq, Fq)> {
    let mut v = vec![];
    let mut x = Fq::from(1u8);
    while v.len() < 4 {
        if let Some(p) = G1Affine::get_point_from_x_unchecked(x, v.len() % 2 == 0) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                v.push((p.x, p.y));
            }
        }
        x += Fq::from(1u8);
    }
    let g = G1Affine::generator();
    v.extend([(g.x, g.y + Fq::from(1u8)), (g.x + Fq::from(1u8), g.y), (g.y, g.x), (g.x, Fq::from(0u8)), (Fq::from(0u8), g.y), (Fq::from(1u8), Fq::from(1u8))]);
    v
}
fn outside2() -> Vec<(Fq2, Fq2)> {
    let mut v = vec![];
    let mut x = Fq2::new(Fq::from(1u8), Fq::from(2u8));
    while v.len() < 4 {
        if let Some(p) = G2Affine::get_point_from_x_unchecked(x, v.len() % 2 == 0) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                v.push((p.x, p.y));
            }
        }
        x += Fq2::new(Fq::from(1u8), Fq::from(0u8));
    }
    let g = G2Affine::generator();
    let sw = |a: Fq2| Fq2::new(a.c1, a.c0);
    v.extend([(g.x, g.y + Fq2::ONE), (g.x + Fq2::ONE, g.y), (g.y, g.x), (sw(g.x), g.y), (g.x, sw(g.y)), (sw(g.x), sw(g.y)), (Fq2::ZERO, g.y)]);
    v
}

/// all values reached from `v`, as pointers
fn paths(v: &Value, at: &str, out: &mut Vec<String>) {
    out.push(at.into());
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| paths(x, &format!("{at}/{k}"), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| paths(x, &format!("{at}/{i}"), out)),
        _ => {}
    }
}
/// every departure from a text in one place
fn damaged(v: &Value) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut ps = vec![];
    paths(v, "", &mut ps);
    let junk = [json!(""), json!("x"), json!("0x1"), json!("1.0"), json!(" "), json!("1 2"), json!(1), json!(1.5), json!(null), json!(true), json!([]), json!({}), json!([[]]), json!(["1"]), json!([["1"]]), json!([["1", "2"]])];
    for p in &ps {
        let old = v.pointer(p).unwrap();
        for j in &junk {
            if old != j {
                let mut w = v.clone();
                *w.pointer_mut(p).unwrap() = j.clone();
                out.push((format!("{p} = {j}"), w.to_string()));
            }
        }
        if let Value::String(t) = old {
            if let Ok(b) = t.parse::<BigUint>() {
                let mut ds = vec![b.clone() + 1u8, b.clone() * 10u8, b.clone() / 10u8];
                if b > BigUint::from(0u8) {
                    ds.push(b.clone() - 1u8);
                }
                for d in ds {
                    if d != b {
                        let mut w = v.clone();
                        *w.pointer_mut(p).unwrap() = json!(d.to_string());
                        out.push((format!("{p} = {d}"), w.to_string()));
                    }
                }
            }
            for c in ["a", "-", ".", " "] {
                let mut w = v.clone();
                *w.pointer_mut(p).unwrap() = json!(format!("{t}{c}"));
                out.push((format!("{p} followed by {c}"), w.to_string()));
            }
        }
        if let Value::Array(a) = old {
            for i in 0..a.len() {
                let mut w = v.clone();
                w.pointer_mut(p).unwrap().as_array_mut().unwrap().remove(i);
                out.push((format!("{p} without {i}"), w.to_string()));
                let mut w = v.clone();
                w.pointer_mut(p).unwrap().as_array_mut().unwrap().insert(i, a[i].clone());
                out.push((format!("{p} with {i} twice"), w.to_string()));
                for j in 0..i {
                    if a[i] != a[j] {
                        let mut w = v.clone();
                        w.pointer_mut(p).unwrap().as_array_mut().unwrap().swap(i, j);
                        out.push((format!("{p} with {i} and {j} exchanged"), w.to_string()));
                    }
                }
            }
        }
        if let Value::Object(m) = old {
            for k in m.keys() {
                let mut w = v.clone();
                w.pointer_mut(p).unwrap().as_object_mut().unwrap().remove(k);
                out.push((format!("{p} without {k}"), w.to_string()));
            }
        }
    }
    let t = v.to_string();
    (0..t.len()).for_each(|i| out.push((format!("cut at {i}"), t[..i].to_string())));
    for x in ["x", "}", "]", ",", "0"] {
        out.push((format!("followed by {x}"), t.clone() + x));
    }
    out
}

fn fq_ref(v: &Value) -> Option<Fq> {
    let b: BigUint = v.as_str()?.parse().ok()?;
    (v.as_str()? == b.to_string() && b < Fq::MODULUS.into()).then(|| Fq::from(b))
}
fn fq2_ref(v: &Value) -> Option<Fq2> {
    let a = v.as_array().filter(|a| a.len() == 2)?;
    Some(Fq2::new(fq_ref(&a[0])?, fq_ref(&a[1])?))
}
enum Pt<T> {
    Is(T),
    Bad,
    /// a third coordinate other than 0 and 1
    Any,
}
fn g1_ref(v: &Value) -> Pt<G1Affine> {
    let Some(a) = v.as_array().filter(|a| a.len() == 3) else { return Pt::Bad };
    let (Some(x), Some(y), Some(z)) = (fq_ref(&a[0]), fq_ref(&a[1]), fq_ref(&a[2])) else { return Pt::Bad };
    if z.is_zero() {
        return Pt::Is(G1Affine::zero());
    }
    if z != Fq::ONE {
        return Pt::Any;
    }
    let p = G1Affine::new_unchecked(x, y);
    if p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve() {
        Pt::Is(p)
    } else {
        Pt::Bad
    }
}
fn g2_ref(v: &Value) -> Pt<G2Affine> {
    let Some(a) = v.as_array().filter(|a| a.len() == 3) else { return Pt::Bad };
    let (Some(x), Some(y), Some(z)) = (fq2_ref(&a[0]), fq2_ref(&a[1]), fq2_ref(&a[2])) else { return Pt::Bad };
    if z.is_zero() {
        return Pt::Is(G2Affine::zero());
    }
    if z != Fq2::ONE {
        return Pt::Any;
    }
    let p = G2Affine::new_unchecked(x, y);
    if p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve() {
        Pt::Is(p)
    } else {
        Pt::Bad
    }
}
fn gt_ref(v: &Value) -> Option<Fq12> {
    let six = |v: &Value| {
        let a = v.as_array().filter(|a| a.len() == 3)?;
        Some(Fq6::new(fq2_ref(&a[0])?, fq2_ref(&a[1])?, fq2_ref(&a[2])?))
    };
    let a = v.as_array().filter(|a| a.len() == 2)?;
    Some(Fq12::new(six(&a[0])?, six(&a[1])?))
}
/// what a damaged text still says
fn proof_ref(t: &str) -> Pt<Groth16Proof<B>> {
    let Ok(v) = serde_json::from_str::<Value>(t) else { return Pt::Bad };
    // a struct may also be written as a list of its values
    if v.is_array() {
        return Pt::Any;
    }
    let (a, b, c) = (g1_ref(&v["pi_a"]), g2_ref(&v["pi_b"]), g1_ref(&v["pi_c"]));
    let (Some(protocol), Some(curve)) = (v["protocol"].as_str(), v["curve"].as_str()) else { return Pt::Bad };
    match (a, b, c) {
        (Pt::Bad, _, _) | (_, Pt::Bad, _) | (_, _, Pt::Bad) => Pt::Bad,
        (Pt::Is(pi_a), Pt::Is(pi_b), Pt::Is(pi_c)) => Pt::Is(Groth16Proof { pi_a, pi_b, pi_c, protocol: protocol.into(), curve: curve.into() }),
        _ => Pt::Any,
    }
}
fn key_ref(t: &str) -> Pt<JsonVerificationKey<B>> {
    let Ok(v) = serde_json::from_str::<Value>(t) else { return Pt::Bad };
    if v.is_array() {
        return Pt::Any;
    }
    let Some(ic) = v["IC"].as_array() else { return Pt::Bad };
    let ic: Vec<_> = ic.iter().map(g1_ref).collect();
    let g: Vec<_> = ["vk_beta_2", "vk_gamma_2", "vk_delta_2"].iter().map(|k| g2_ref(&v[k])).collect();
    let a = g1_ref(&v["vk_alpha_1"]);
    let (Some(protocol), Some(n), Some(ab)) = (v["protocol"].as_str(), v["nPublic"].as_u64(), gt_ref(&v["vk_alphabeta_12"])) else { return Pt::Bad };
    if ic.iter().any(|x| matches!(x, Pt::Bad)) || g.iter().any(|x| matches!(x, Pt::Bad)) || matches!(a, Pt::Bad) {
        return Pt::Bad;
    }
    if ic.iter().any(|x| matches!(x, Pt::Any)) || g.iter().any(|x| matches!(x, Pt::Any)) || matches!(a, Pt::Any) {
        return Pt::Any;
    }
    fn take<T: Copy>(p: &Pt<T>) -> T {
        match p {
            Pt::Is(x) => *x,
            _ => unreachable!(),
        }
    }
    Pt::Is(JsonVerificationKey { protocol: protocol.into(), n_public: n as usize, alpha_1: take(&a), beta_2: take(&g[0]), gamma_2: take(&g[1]), delta_2: take(&g[2]), alpha_beta_gt: ab, ic: ic.iter().map(take).collect() })
}
/// the text has a number that is not a canonical decimal: only refusals for other reasons are judged
fn odd_number(t: &str, m: &BigUint) -> bool {
    fn go(v: &Value, m: &BigUint) -> bool {
        match v {
            Value::String(s) => s.parse::<num_bigint::BigInt>().is_ok_and(|b| b.to_string() != *s || b.sign() == num_bigint::Sign::Minus || b.magnitude() >= m),
            Value::Array(a) => a.iter().any(|x| go(x, m)),
            Value::Object(o) => o.values().any(|x| go(x, m)),
            _ => false,
        }
    }
    serde_json::from_str::<Value>(t).is_ok_and(|v| go(&v, m))
}

fn run(mc: &Mc) {
    quiet_all(true);
    let n = AtomicU64::new(0);
    let mut last = 0;
    let mut sec = |name: &str, n: &AtomicU64| {
        let k = n.load(Relaxed) - last;
        last += k;
        mc.states(k);
        mc.transitions(k);
        mc.traces(k);
        mc.evals(k, k);
        mc.section(name, json!({ "cases": k }));
    };
    let ks = frs();
    let g1: Vec<G1Affine> = ks.iter().map(|k| (G1Affine::generator() * k).into_affine()).collect();
    let g2: Vec<G2Affine> = ks.iter().map(|k| (G2Affine::generator() * k).into_affine()).collect();
    let gt: Vec<Fq12> = {
        let f = |i: u64| -Fq::from(i * i + 1);
        let f2 = |i: u64| Fq2::new(f(i), f(i + 1));
        let f12 = |i: u64| Fq12::new(Fq6::new(f2(i), f2(i + 2), f2(i + 4)), Fq6::new(f2(i + 6), f2(i + 8), f2(i + 10)));
        let mut v = vec![Fq12::ONE, Fq12::ZERO, f12(1), B::pairing(g1[1], g2[1]).0];
        // one place at a time
        for k in 0..12 {
            let e = |j: usize| if j == k { -Fq::from(1u8) } else { Fq::ZERO };
            let e2 = |j: usize| Fq2::new(e(j), e(j + 1));
            v.push(Fq12::new(Fq6::new(e2(0), e2(2), e2(4)), Fq6::new(e2(6), e2(8), e2(10))));
        }
        v
    };
    // points as text
    let pairs: Vec<(usize, usize)> = (0..ks.len()).flat_map(|i| (0..ks.len()).map(move |j| (i, j))).filter(|(i, j)| mc.thorough() || (i + j) % 3 == 0 || *i < 2 || *j < 2).collect();
    pairs.par_iter().for_each(|&(i, j)| {
        let c = g1[(i + j) % ks.len()];
        let v = proof_text(&g1[i], &g2[j], &c);
        let key = format!("proof of points {i} {j}");
        let want = Groth16Proof::<B> { pi_a: g1[i], pi_b: g2[j], pi_c: c, protocol: "groth16".into(), curve: "bls12381".into() };
        for t in [v.to_string(), serde_json::to_string_pretty(&v).unwrap()] {
            n.fetch_add(1, Relaxed);
            let r = rd_proof(&t);
            mc.check(matches!(&r, Ok(Some(p)) if *p == want), &key, || format!("{t} read as {r:?}"));
        }
        let w = guard(|| serde_json::to_value(&want).ok());
        n.fetch_add(1, Relaxed);
        mc.check(w.as_ref() == Ok(&Some(v.clone())), &key, || format!("{want:?} written as {w:?}, not {v}"));
        let gm = g2[(2 * i + j) % ks.len()];
        let ic: Vec<G1Affine> = (0..(i + j) % 5).map(|k| g1[(i + k * j) % ks.len()]).collect();
        let ab = gt[(i * 7 + j) % gt.len()];
        let v = key_text(&g1[i], &g2[j], &gm, &g2[i], &ab, &ic);
        let want = JsonVerificationKey::<B> { protocol: "groth16".into(), n_public: ic.len().saturating_sub(1), alpha_1: g1[i], beta_2: g2[j], gamma_2: gm, delta_2: g2[i], alpha_beta_gt: ab, ic };
        n.fetch_add(2, Relaxed);
        let r = rd_key(&v.to_string());
        mc.check(matches!(&r, Ok(Some(p)) if *p == want), &key, || format!("key {v} read as {r:?}"));
        let w = guard(|| serde_json::to_value(&want).ok());
        let mut v = v;
        v.as_object_mut().unwrap().remove("curve");
        mc.check(w.as_ref() == Ok(&Some(v.clone())), &key, || format!("{want:?} written as {w:?}, not {v}"));
    });
    sec("points", &n);
    // public inputs
    let mut lists: Vec<Vec<Fr>> = vec![vec![], ks.clone()];
    for a in &ks {
        lists.push(vec![*a]);
        for b in &ks {
            lists.push(vec![*a, *b, *a]);
        }
    }
    for l in &lists {
        let v: Value = l.iter().map(s).collect();
        n.fetch_add(2, Relaxed);
        let r = rd_pub(&v.to_string());
        mc.check(r.as_ref() == Ok(&Some(l.clone())), &v.to_string(), || format!("read as {r:?}"));
        let w = guard(|| serde_json::to_value(JsonPublicInput { values: l.clone() }).ok());
        mc.check(w == Ok(Some(v.clone())), &v.to_string(), || format!("written as {w:?}"));
    }
    for (what, t) in damaged(&json!([s(&ks[3]), s(&ks[ks.len() - 1]), "0"])) {
        n.fetch_add(1, Relaxed);
        let r = rd_pub(&t);
        let want = serde_json::from_str::<Value>(&t).ok().and_then(|v| {
            v.as_array()?.iter().map(|x| x.as_str()?.parse::<BigUint>().ok().map(|b| (x.as_str() == Some(&b.to_string()) && b < Fr::MODULUS.into()).then(|| Fr::from(b)))).collect::<Option<Vec<_>>>()
        });
        match want {
            None if !odd_number(&t, &Fr::MODULUS.into()) => {
                mc.check(r == Ok(None), &what, || format!("public inputs {t} read as {r:?}"));
            }
            Some(w) if w.iter().all(|x| x.is_some()) => {
                mc.check(r == Ok(Some(w.into_iter().flatten().collect())), &what, || format!("public inputs {t} read as {r:?}"));
            }
            _ => {}
        }
    }
    sec("public inputs", &n);
    // damage
    let m: BigUint = Fq::MODULUS.into();
    let mut texts: Vec<(bool, String, String)> = vec![];
    let base_p = [proof_text(&g1[3], &g2[2], &g1[4]), proof_text(&G1Affine::zero(), &G2Affine::zero(), &g1[1])];
    let base_k = key_text(&g1[3], &g2[4], &g2[2], &g2[5], &gt[2], &[g1[1], g1[5], G1Affine::zero()]);
    for (i, b) in base_p.iter().enumerate() {
        texts.extend(damaged(b).into_iter().map(|(w, t)| (true, format!("proof {i}: {w}"), t)));
    }
    texts.extend(damaged(&base_k).into_iter().map(|(w, t)| (false, format!("key: {w}"), t)));
    for (i, (x, y)) in outside1().iter().enumerate() {
        for z in ["1", "0"] {
            let bad = json!([s(x), s(y), z]);
            for p in ["/pi_a", "/pi_c"] {
                let mut v = base_p[0].clone();
                *v.pointer_mut(p).unwrap() = bad.clone();
                texts.push((true, format!("{p} outside the group {i}"), v.to_string()));
            }
            for p in ["/vk_alpha_1", "/IC/0", "/IC/2"] {
                let mut v = base_k.clone();
                *v.pointer_mut(p).unwrap() = bad.clone();
                texts.push((false, format!("{p} outside the group {i}"), v.to_string()));
            }
        }
    }
    for (i, (x, y)) in outside2().iter().enumerate() {
        let bad = json!([s2(x), s2(y), ["1", "0"]]);
        for (pr, p) in [(true, "/pi_b"), (false, "/vk_beta_2"), (false, "/vk_gamma_2"), (false, "/vk_delta_2")] {
            let mut v = if pr { base_p[0].clone() } else { base_k.clone() };
            *v.pointer_mut(p).unwrap() = bad.clone();
            texts.push((pr, format!("{p} outside the group {i}"), v.to_string()));
        }
    }
    texts.par_iter().for_each(|(pr, what, t)| {
        n.fetch_add(1, Relaxed);
        let odd = odd_number(t, &m);
        let (same, refused, got, want) = if *pr {
            let r = rd_proof(t);
            let want = proof_ref(t);
            let same = matches!((&want, &r), (Pt::Is(w), Ok(Some(x))) if w == x);
            (same, r == Ok(None), format!("{r:?}"), match want { Pt::Is(_) => 1, Pt::Bad => 0, Pt::Any => 2 })
        } else {
            let r = rd_key(t);
            let want = key_ref(t);
            let same = matches!((&want, &r), (Pt::Is(w), Ok(Some(x))) if w == x);
            (same, r == Ok(None), format!("{r:?}"), match want { Pt::Is(_) => 1, Pt::Bad => 0, Pt::Any => 2 })
        };
        match want {
            1 => mc.check(same, what, || format!("{t} read as {got}")),
            0 if !odd => mc.check(refused, what, || format!("{t} is not refused: {got}")),
            _ => true,
        };
        mc.check(!got.starts_with("Err"), what, || format!("{t}: {got}"));
    });
    sec("damaged text", &n);
    bytes(mc, &n, &g1, &g2);
    sec("points as bytes", &n);
    writes(mc, &n, &g1, &g2, &gt, &ks);
    sec("failing writes", &n);
    verify(mc, &n);
    sec("verification", &n);
    mc.rule("cells: a proof, key, point or list of public inputs as text or bytes, whole or damaged in one place");
}

struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        let k = o.len().min(self.0.len()).min(self.1);
        o[..k].copy_from_slice(&self.0[..k]);
        self.0 = &self.0[k..];
        Ok(k)
    }
}
fn le<F: PrimeField>(x: &BigUint, size: usize) -> Vec<u8> {
    let _ = std::marker::PhantomData::<F>;
    let mut v = x.to_bytes_le();
    v.resize(size, 0);
    v
}
/// the Montgomery form
fn mont(x: &Fq) -> Vec<u8> {
    let m: BigUint = Fq::MODULUS.into();
    le::<Fq>(&((big(x) << 384) % m), 48)
}
fn bytes(mc: &Mc, n: &AtomicU64, g1: &[G1Affine], g2: &[G2Affine]) {
    let b1 = |x: &Fq, y: &Fq| [mont(x), mont(y)].concat();
    let b2 = |x: &Fq2, y: &Fq2| [mont(&x.c0), mont(&x.c1), mont(&y.c0), mont(&y.c1)].concat();
    let p1 = |p: &G1Affine| p.xy().map_or(vec![0; 96], |(x, y)| b1(&x, &y));
    let p2 = |p: &G2Affine| p.xy().map_or(vec![0; 192], |(x, y)| b2(&x, &y));
    let checks = [CheckElement::Yes, CheckElement::No];
    for (i, (p, q)) in g1.iter().zip(g2).enumerate() {
        let (a, b) = (p1(p), p2(q));
        for c in checks {
            for k in [1usize, 7, 1000] {
                n.fetch_add(2, Relaxed);
                let r = guard(|| B::g1_from_reader(Slow(&a, k), c).ok());
                mc.check(r == Ok(Some(*p)), &format!("G1 {i}"), || format!("read as {r:?}"));
                let r = guard(|| B::g2_from_reader(Slow(&b, k), c).ok());
                mc.check(r == Ok(Some(*q)), &format!("G2 {i}"), || format!("read as {r:?}"));
            }
            n.fetch_add(2, Relaxed);
            let r = guard(|| (B::g1_from_bytes(&a, c).ok(), B::g2_from_bytes(&b, c).ok()));
            mc.check(r == Ok((Some(*p), Some(*q))), &format!("bytes {i}"), || format!("read as {r:?}"));
        }
    }
    let (a, b) = (p1(&g1[3]), p2(&g2[3]));
    for c in checks {
        for k in 0..a.len() {
            n.fetch_add(1, Relaxed);
            let r = guard(|| B::g1_from_reader(&a[..k], c).is_err());
            mc.check(r == Ok(true), &format!("G1 cut at {k}"), || format!("{r:?}"));
        }
        for k in 0..b.len() {
            n.fetch_add(1, Relaxed);
            let r = guard(|| B::g2_from_reader(&b[..k], c).is_err());
            mc.check(r == Ok(true), &format!("G2 cut at {k}"), || format!("{r:?}"));
        }
    }
    // outside the groups: refused when asked to check
    for (i, (x, y)) in outside1().iter().enumerate() {
        let b = b1(x, y);
        n.fetch_add(2, Relaxed);
        let r = guard(|| B::g1_from_bytes(&b, CheckElement::Yes).is_err() && B::g1_from_reader(&b[..], CheckElement::Yes).is_err() && B::g1_vec_from_reader(&b[..], 1, CheckElement::Yes).is_err());
        mc.check(r == Ok(true), &format!("G1 outside {i}"), || format!("{r:?}"));
        let r = guard(|| B::g1_from_bytes(&b, CheckElement::No).ok());
        mc.check(r == Ok(Some(G1Affine::new_unchecked(*x, *y))), &format!("G1 outside {i} unchecked"), || format!("{r:?}"));
        for z in ["1"] {
            let t = |v: &Fq| big(v).to_string();
            let r = guard(|| B::g1_from_strings_projective(&t(x), &t(y), z, CheckElement::Yes).is_err());
            mc.check(r == Ok(true), &format!("G1 text outside {i}"), || format!("{r:?}"));
            let r = guard(|| B::g1_from_strings_projective(&t(x), &t(y), z, CheckElement::No).ok());
            mc.check(r == Ok(Some(G1Affine::new_unchecked(*x, *y))), &format!("G1 text outside {i} unchecked"), || format!("{r:?}"));
        }
    }
    for (i, (x, y)) in outside2().iter().enumerate() {
        let b = b2(x, y);
        n.fetch_add(2, Relaxed);
        let r = guard(|| B::g2_from_bytes(&b, CheckElement::Yes).is_err() && B::g2_from_reader(&b[..], CheckElement::Yes).is_err() && B::g2_vec_from_reader(&b[..], 1, CheckElement::Yes).is_err());
        mc.check(r == Ok(true), &format!("G2 outside {i}"), || format!("{r:?}"));
        let r = guard(|| B::g2_from_bytes(&b, CheckElement::No).ok());
        mc.check(r == Ok(Some(G2Affine::new_unchecked(*x, *y))), &format!("G2 outside {i} unchecked"), || format!("{r:?}"));
    }
    // words that no coordinate has
    let m: BigUint = Fq::MODULUS.into();
    let top: BigUint = (BigUint::from(1u8) << 384usize) - 1u8;
    for k in 0..2 {
        let at = |v: &[u8]| BigUint::from_bytes_le(&v[48 * k..48 * k + 48]);
        for v in [m.clone(), m.clone() + 1u8, at(&a) + &m, top.clone()] {
            let mut b = a.clone();
            b[48 * k..48 * k + 48].copy_from_slice(&le::<Fq>(&v, 48));
            for c in checks {
                n.fetch_add(1, Relaxed);
                let r = guard(|| B::g1_from_bytes(&b, c).is_err() && B::g1_from_reader(&b[..], c).is_err());
                mc.check(r == Ok(true), &format!("G1 word {k} = {v}"), || format!("{r:?}"));
            }
        }
    }
    for k in 0..4 {
        let at = |v: &[u8]| BigUint::from_bytes_le(&v[48 * k..48 * k + 48]);
        for v in [m.clone(), m.clone() + 1u8, at(&b) + &m, top.clone()] {
            let mut w = b.clone();
            w[48 * k..48 * k + 48].copy_from_slice(&le::<Fq>(&v, 48));
            for c in checks {
                n.fetch_add(1, Relaxed);
                let r = guard(|| B::g2_from_bytes(&w, c).is_err() && B::g2_from_reader(&w[..], c).is_err());
                mc.check(r == Ok(true), &format!("G2 word {k} = {v}"), || format!("{r:?}"));
            }
        }
    }
    // lists: in order, complete or refused
    for num in 0..mc.pick(9usize, 40) {
        let ps: Vec<G1Affine> = (0..num).map(|i| g1[(i * 5 + 1) % g1.len()]).collect();
        let qs: Vec<G2Affine> = (0..num).map(|i| g2[(i * 5 + 1) % g2.len()]).collect();
        let (a, b): (Vec<u8>, Vec<u8>) = (ps.iter().flat_map(p1).collect(), qs.iter().flat_map(p2).collect());
        for c in checks {
            for extra in [0usize, 3] {
                let (mut a, mut b) = (a.clone(), b.clone());
                a.extend(vec![1; extra]);
                b.extend(vec![1; extra]);
                n.fetch_add(2, Relaxed);
                let r = guard(|| (B::g1_vec_from_reader(Slow(&a, 50), num, c).ok(), B::g2_vec_from_reader(Slow(&b, 50), num, c).ok()));
                mc.check(r == Ok((Some(ps.clone()), Some(qs.clone()))), &format!("{num} points"), || format!("{r:?}"));
            }
            for k in (0..a.len()).step_by(11) {
                n.fetch_add(1, Relaxed);
                let r = guard(|| B::g1_vec_from_reader(&a[..k], num, c).is_err() && B::g2_vec_from_reader(&b[..2 * k], num, c).is_err());
                mc.check(r == Ok(true), &format!("{num} points cut at {k}"), || format!("{r:?}"));
            }
            for at in 0..num {
                let mut a = a.clone();
                a[96 * at..96 * at + 48].copy_from_slice(&le::<Fq>(&m, 48));
                n.fetch_add(1, Relaxed);
                let r = guard(|| B::g1_vec_from_reader(&a[..], num, c).is_err());
                mc.check(r == Ok(true), &format!("{num} points, {at} malformed"), || format!("{r:?}"));
            }
        }
    }
    // field elements
    fn field<F: PrimeField + ArkworksPrimeFieldBridge>(mc: &Mc, n: &AtomicU64, size: usize, name: &str) {
        let m: BigUint = F::MODULUS.into();
        let r = BigUint::from(1u8) << (8 * size);
        let inv: BigUint = big(&F::from(r.clone()).inverse().unwrap());
        let mut vals: Vec<BigUint> = vec![0u8.into(), 1u8.into(), 2u8.into(), &m - 1u8, &m - 2u8, &m >> 1];
        (0..8 * size - 8).step_by(13).for_each(|k| vals.push((BigUint::from(1u8) << k) % &m));
        for v in &vals {
            let b = le::<F>(v, size);
            for k in [1usize, 5, 100] {
                n.fetch_add(3, Relaxed);
                let x = guard(|| F::from_reader(Slow(&b, k)).ok().map(|x| big(&x)));
                mc.check(x == Ok(Some(v.clone())), &format!("{name} {v}"), || format!("{x:?}"));
                let x = guard(|| F::montgomery_bigint_from_reader(Slow(&b, k)).ok().map(|x| big(&x)));
                mc.check(x == Ok(Some(v * &inv % &m)), &format!("{name} {v} in Montgomery form"), || format!("{x:?}"));
                let x = guard(|| F::from_reader_for_groth16_zkey(Slow(&b, k)).ok().map(|x| big(&x)));
                mc.check(x == Ok(Some(v * &inv * &inv % &m)), &format!("{name} {v} of a zkey"), || format!("{x:?}"));
            }
        }
        for k in 0..size {
            let b = vec![1u8; k];
            n.fetch_add(1, Relaxed);
            let x = guard(|| F::from_reader(&b[..]).is_err() && F::montgomery_bigint_from_reader(&b[..]).is_err() && F::from_reader_for_groth16_zkey(&b[..]).is_err());
            mc.check(x == Ok(true), &format!("{name} of {k} bytes"), || format!("{x:?}"));
        }
    }
    field::<Fq>(mc, n, 48, "Fq");
    field::<Fr>(mc, n, 32, "Fr");
}

/// proofs made from known logarithms: accepted as read exactly for their key and public inputs
fn verify(mc: &Mc, n: &AtomicU64) {
    let f = |x: u64| Fr::from(x);
    let p = |k: &Fr| (G1Affine::generator() * k).into_affine();
    let q = |k: &Fr| (G2Affine::generator() * k).into_affine();
    let cells: Vec<(usize, u64)> = (0..mc.pick(5usize, 9)).flat_map(|l| (1..=mc.pick(2u64, 6)).map(move |s| (l, s))).collect();
    cells.par_iter().for_each(|&(l, seed)| {
        let (al, be, ga, de) = (f(seed + 2), f(seed + 3), f(seed + 5), f(seed + 7));
        let ic: Vec<Fr> = (0..=l as u64).map(|i| f(11 + i * i + seed)).collect();
        let pubs: Vec<Fr> = (0..l as u64).map(|i| if i == 0 { -f(seed) } else { f(1 << (5 * i)) }).collect();
        let (a, b) = (f(13 + seed), f(17));
        let sum = ic[0] + pubs.iter().zip(&ic[1..]).map(|(x, y)| *x * y).sum::<Fr>();
        let c = (a * b - al * be - sum * ga) / de;
        let key = key_text(&p(&al), &q(&be), &q(&ga), &q(&de), &B::pairing(p(&al), q(&be)).0, &ic.iter().map(p).collect::<Vec<_>>());
        let proof = proof_text(&p(&a), &q(&b), &p(&c));
        let pv: Value = pubs.iter().map(s).collect();
        let go = |key: &Value, proof: &Value, pubs: &Value| -> Result<bool, String> {
            let k = rd_key(&key.to_string())?.ok_or("key refused")?;
            let pr = rd_proof(&proof.to_string())?.ok_or("proof refused")?;
            let pu = rd_pub(&pubs.to_string())?.ok_or("public inputs refused")?;
            let vk = VerifyingKey::<B> { alpha_g1: k.alpha_1, beta_g2: k.beta_2, gamma_g2: k.gamma_2, delta_g2: k.delta_2, gamma_abc_g1: k.ic };
            guard(|| Groth16::<B>::verify_proof(&prepare_verifying_key(&vk), &Proof { a: pr.pi_a, b: pr.pi_b, c: pr.pi_c }, &pu).unwrap_or(false))
        };
        let name = format!("{l} public inputs, seed {seed}");
        n.fetch_add(1, Relaxed);
        let r = go(&key, &proof, &pv);
        mc.check(r == Ok(true), &name, || format!("not accepted: {r:?}"));
        let mut others: Vec<(String, Value, Value, Value)> = vec![];
        for i in 0..l {
            let mut x = pubs.clone();
            x[i] += f(1);
            others.push((format!("public input {i}"), key.clone(), proof.clone(), x.iter().map(s).collect()));
        }
        for (k, v) in [("pi_a", t1(&p(&(a + f(1))))), ("pi_b", t2(&q(&(b + f(1))))), ("pi_c", t1(&p(&(c + f(1))))), ("pi_a", t1(&p(&-a))), ("pi_b", t2(&q(&-b)))] {
            let mut x = proof.clone();
            x[k] = v;
            others.push((k.into(), key.clone(), x, pv.clone()));
        }
        for (k, v) in [("vk_alpha_1", t1(&p(&(al + f(1))))), ("vk_beta_2", t2(&q(&(be + f(1))))), ("vk_gamma_2", t2(&q(&(ga + f(1))))), ("vk_delta_2", t2(&q(&(de + f(1)))))] {
            let mut x = key.clone();
            x[k] = v;
            others.push((k.into(), x, proof.clone(), pv.clone()));
        }
        for i in 0..=l {
            let mut x = key.clone();
            x["IC"][i] = t1(&p(&(ic[i] + f(1))));
            others.push((format!("IC {i}"), x, proof.clone(), pv.clone()));
        }
        for (what, k, pr, pu) in others {
            n.fetch_add(1, Relaxed);
            let r = go(&k, &pr, &pu);
            mc.check(r == Ok(false), &format!("{name}, {what} changed"), || format!("{r:?}"));
        }
    });
    // the files that come along
    let d = root().join("build/ws/recursion-gnark/ffi/data");
    let t = |x: &str| std::fs::read_to_string(d.join(x)).unwrap_or_default();
    let (k, pr, pu) = (t("groth16_vk_bls12381.json"), t("proof_bls12381.json"), t("public_inputs_bls12381.json"));
    for (name, ok) in [("key", rd_key(&k).is_ok_and(|x| x.is_some())), ("proof", rd_proof(&pr).is_ok_and(|x| x.is_some())), ("public inputs", rd_pub(&pu).is_ok_and(|x| x.is_some()))] {
        n.fetch_add(1, Relaxed);
        mc.check(ok, &format!("sample {name}"), || "not read".into());
    }
    // they are written back as they are
    let same = |t: &str, w: Option<Value>| serde_json::from_str::<Value>(t).ok().map(|mut v| {
        if let Some(o) = v.as_object_mut() {
            if w.as_ref().is_some_and(|w| w.get("curve").is_none()) {
                o.remove("curve");
            }
        }
        v
    }) == w;
    let w = rd_key(&k).ok().flatten().and_then(|x| serde_json::to_value(x).ok());
    mc.check(same(&k, w.clone()), "sample key", || format!("written back as {w:?}"));
    let w = rd_proof(&pr).ok().flatten().and_then(|x| serde_json::to_value(x).ok());
    mc.check(same(&pr, w.clone()), "sample proof", || format!("written back as {w:?}"));
}

/// a writer that takes this many bytes and then fails
struct Broken(usize);
impl std::io::Write for Broken {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        let k = b.len().min(self.0);
        self.0 -= k;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// every point at which writing can fail; the other kind of proof
fn writes(mc: &Mc, n: &AtomicU64, g1: &[G1Affine], g2: &[G2Affine], gt: &[Fq12], ks: &[Fr]) {
    let proof = Groth16Proof::<B> { pi_a: g1[3], pi_b: g2[4], pi_c: G1Affine::zero(), protocol: "groth16".into(), curve: "bls12381".into() };
    let key = JsonVerificationKey::<B> { protocol: "groth16".into(), n_public: 1, alpha_1: g1[3], beta_2: g2[4], gamma_2: G2Affine::zero(), delta_2: g2[1], alpha_beta_gt: gt[2], ic: vec![g1[2], G1Affine::zero()] };
    let pubs = JsonPublicInput { values: ks.to_vec() };
    fn all<T: serde::Serialize + Sync>(mc: &Mc, n: &AtomicU64, what: &str, x: &T) {
        let len = serde_json::to_string(x).map(|t| t.len()).unwrap_or(0);
        (0..=len).into_par_iter().for_each(|k| {
            n.fetch_add(1, Relaxed);
            let r = guard(|| serde_json::to_writer(Broken(k), x).is_ok());
            mc.check(r == Ok(k >= len), &format!("{what}: write fails after {k}"), || format!("of {len}: {r:?}"));
        });
    }
    all(mc, n, "proof", &proof);
    all(mc, n, "key", &key);
    all(mc, n, "public inputs", &pubs);
    use recursion_gnark_ffi::{Groth16Bn254Proof, PlonkBn254Proof, ProofBn254};
    let texts = ["", "0", "0x00ff", "12\"3\\", "21888242871839275222246405745257275088548364400416034343698204186575808495616"];
    for a in texts {
        for b in texts {
            for c in texts {
                for h in [[0u8; 32], [255; 32], core::array::from_fn(|i| 7 * i as u8)] {
                    n.fetch_add(2, Relaxed);
                    let p = PlonkBn254Proof { public_inputs: [a.into(), b.into()], encoded_proof: c.into(), raw_proof: a.into(), plonk_vkey_hash: h };
                    let g = Groth16Bn254Proof { public_inputs: [a.into(), b.into()], encoded_proof: c.into(), raw_proof: b.into(), groth16_vkey_hash: h };
                    let (p, g) = (ProofBn254::Plonk(p), ProofBn254::Groth16(g));
                    for (x, want) in [
                        (&p, json!({"Plonk": {"public_inputs": [a, b], "encoded_proof": c, "raw_proof": a, "plonk_vkey_hash": h.to_vec()}})),
                        (&g, json!({"Groth16": {"public_inputs": [a, b], "encoded_proof": c, "raw_proof": b, "groth16_vkey_hash": h.to_vec()}})),
                    ] {
                        let r = guard(|| serde_json::to_value(x).ok());
                        mc.check(r == Ok(Some(want.clone())), &want.to_string(), || format!("written as {r:?}"));
                        let r = guard(|| serde_json::from_value::<ProofBn254>(want.clone()).ok().and_then(|y| serde_json::to_value(y).ok()));
                        mc.check(r == Ok(Some(want.clone())), &want.to_string(), || format!("read as {r:?}"));
                    }
                }
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mc = Mc::new(&a[1], a.get(2).map(|s| s.as_str()).unwrap_or("quick"));
    match a[1].as_str() {
        "P23" => main_for(mc, run),
        p => panic!("unknown property {p}"),
    }
}
