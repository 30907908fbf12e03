//! P10: JSON text of field elements and digests: every element of the boundary lattice survives a
//! round trip in the documented format, and every one-character edit of such a text is either
//! refused or denotes exactly the value it reads as; never a panic.
use crate::bigf::*;
use crate::hashref::*;
use crate::p04_poseidon::*;
use crate::p05_rowhash::fgl;
use crate::refs;
use ff::PrimeField;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use num_bigint::BigUint;
use rayon::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use starky::mc_hooks::digest::ElementDigest;
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::traits::{FieldExtension, MTNodeType};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const S: [u64; 12] = [0, 1, 7, 10, 0xFFFFFFFF, 1 << 32, 1 << 63, 0x1234567890ABCDEF, refs::P - 2, refs::P - 1, 0xFFFFFFFF00000000 - 0xFFFFFFFF, 9999999999999999999];

fn lists(n: usize, k: usize) -> Vec<Vec<u64>> {
    (0..k.pow(n as u32)).map(|i| (0..n).map(|j| S[i / k.pow(j as u32) % k]).collect()).collect()
}
fn q(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","))
}
fn rt<T: Serialize + DeserializeOwned>(mc: &Mc, name: &str, v: &T, want: &str, same: impl Fn(&T) -> bool) {
    let g = guard(|| serde_json::to_string(v).map_err(|e| e.to_string()));
    mc.check(g == Ok(Ok(want.to_string())), name, || format!("serialized {g:?}, want {want}"));
    let b = guard(|| serde_json::from_str::<T>(want).map_err(|e| e.to_string()));
    let ok = matches!(&b, Ok(Ok(x)) if same(x));
    mc.check(ok, name, || format!("{want} parsed back wrong: {:?}", b.map(|r| r.map(|x| serde_json::to_string(&x).unwrap_or_default()))));
    // the same through a serde_json::Value, which is how proofs are parsed
    let b = guard(|| serde_json::from_value::<T>(serde_json::from_str::<Value>(want).unwrap()).map_err(|e| e.to_string()));
    mc.check(matches!(&b, Ok(Ok(x)) if same(x)), name, || format!("{want} parsed back wrong from a Value"));
}

fn roundtrips(mc: &Mc) {
    let n = AtomicU64::new(0);
    lists(3, S.len()).par_iter().for_each(|v| {
        n.fetch_add(1, Relaxed);
        let e = F3G::from_vec(fgl(v));
        rt(mc, "f3g", &e, &q(v), |x: &F3G| x.dim == 3 && x.as_elements() == e.as_elements());
    });
    lists(5, mc.pick(6, 9)).par_iter().for_each(|v| {
        n.fetch_add(1, Relaxed);
        let e = F5G::from_vec(fgl(v));
        rt(mc, "f5g", &e, &q(v), |x: &F5G| x.dim == 5 && x.as_elements() == e.as_elements());
    });
    lists(4, S.len()).par_iter().for_each(|v| {
        n.fetch_add(1, Relaxed);
        let d = ElementDigest::<4, FGL>::new(&fgl(v));
        let want = if v[1..] == [0, 0, 0] { format!("\"{}\"", v[0]) } else { q(v) };
        rt(mc, "digest-gl", &d, &want, |x| x == &d);
    });
    for x in S.into_iter().chain((0..2000).map(|i| mix(i) % refs::P)) {
        let e = F3G::from(fgl(&[x])[0]);
        rt(mc, "f3g", &e, &format!("\"{x}\""), |y: &F3G| y.dim == 1 && y.to_be() == e.to_be());
        let e = F5G::from(fgl(&[x])[0]);
        rt(mc, "f5g", &e, &format!("\"{x}\""), |y: &F5G| y.dim == 1 && y.as_elements()[0] == e.as_elements()[0]);
        let e = fgl(&[x])[0];
        let t = serde_json::to_string(&e).unwrap();
        mc.check(serde_json::from_str::<FGL>(&t).ok() == Some(e), "fgl", || format!("{x}: {t}"));
        n.fetch_add(3, Relaxed);
    }
    fn fr<F: PrimeField + Default + Serialize + DeserializeOwned>(mc: &Mc, name: &str, c: Curve) -> u64 {
        let ins = inst(c);
        let vs = crate::p09_digest::vectors(&ins.f.p);
        vs.par_iter().for_each(|raw| {
            let canon = ins.f.from_m(raw);
            let big = canon.iter().rev().fold(BigUint::from(0u8), |a, x| (a << 64u32) + BigUint::from(*x));
            let mut r = F::Repr::default();
            r.as_mut().copy_from_slice(&canon);
            let f = F::from_repr(r).unwrap();
            let want = format!("\"{big}\"");
            rt(mc, &format!("fr-{name}"), &f, &want, |x: &F| *x == f);
            if raw.iter().all(|l| *l < refs::P) {
                let d = ElementDigest::<4, F>::from_scalar(&f);
                rt(mc, &format!("digest-{name}"), &d, &want, |x| x == &d);
            } else {
                // such a scalar has no digest: the text is refused, not a panic and not another value
                let g = guard(|| serde_json::from_str::<ElementDigest<4, F>>(&want).is_err());
                mc.check(matches!(g, Ok(true)), &format!("digest-{name}:unrepresentable"), || format!("{want}: {g:?}"));
            }
        });
        vs.len() as u64
    }
    let k = fr::<starky::field_bn128::Fr>(mc, "bn128", Curve::Bn) + fr::<starky::mc_hooks::field_bls12381::Fr>(mc, "bls12381", Curve::Bls);
    let t = n.load(Relaxed) + k;
    mc.states(t);
    mc.transitions(t * 3);
    mc.traces(t * 3);
    mc.section("round trips", json!({"values": t}));
}

/// every one-character substitution, insertion, deletion and every prefix of a text
fn edits(t: &str, two: bool) -> Vec<String> {
    const A: &[u8] = b"0123456789-+. ,\"[]{}exa\\\0";
    let b = t.as_bytes();
    let mut s: HashSet<Vec<u8>> = HashSet::new();
    let one = |b: &[u8], s: &mut HashSet<Vec<u8>>| {
        for i in 0..=b.len() {
            for c in A {
                let mut v = b.to_vec();
                v.insert(i, *c);
                s.insert(v);
                if i < b.len() {
                    let mut v = b.to_vec();
                    v[i] = *c;
                    s.insert(v);
                }
            }
            if i < b.len() {
                let mut v = b.to_vec();
                v.remove(i);
                s.insert(v);
                s.insert(b[..i].to_vec());
            }
        }
    };
    one(b, &mut s);
    if two {
        let first: Vec<Vec<u8>> = s.iter().cloned().collect();
        for f in first {
            one(&f, &mut s);
        }
    }
    s.into_iter().map(|v| String::from_utf8(v).unwrap()).collect()
}
/// what a text denotes: the list of decimal integers, if it is one
fn denotes(t: &str) -> Option<(bool, Vec<BigUint>)> {
    let num = |v: &Value| {
        let s = v.as_str()?;
        let d = s.strip_prefix('+').unwrap_or(s);
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        d.parse::<BigUint>().ok()
    };
    match serde_json::from_str::<Value>(t).ok()? {
        Value::Array(a) => Some((true, a.iter().map(num).collect::<Option<Vec<_>>>()?)),
        v => Some((false, vec![num(&v)?])),
    }
}
fn malformed<T: DeserializeOwned>(mc: &Mc, name: &str, texts: &[String], md: &BigUint, widths: &[(bool, usize)], two: bool, reduce: bool, vals: impl Fn(&T) -> Vec<BigUint> + Sync) {
    let n = AtomicU64::new(0);
    let acc = AtomicU64::new(0);
    texts.par_iter().for_each(|t| {
        for e in edits(t, two) {
            n.fetch_add(1, Relaxed);
            match guard(|| serde_json::from_str::<T>(&e).ok()) {
                Err(p) => mc.fail(&format!("{name}:panic"), &format!("parsing {e:?} panicked: {p}"), json!({"text": e})),
                Ok(None) => {}
                Ok(Some(v)) => {
                    acc.fetch_add(1, Relaxed);
                    let g = vals(&v);
                    let ok = match denotes(&e) {
                        Some((arr, d)) if widths.contains(&(arr, d.len())) => {
                            let mut d: Vec<BigUint> = if reduce { d.iter().map(|x| x % md).collect() } else { d };
                            let fits = d.iter().all(|x| x < md);
                            d.resize(g.len(), BigUint::from(0u8));
                            fits && d == g
                        }
                        _ => false,
                    };
                    mc.check(ok, &format!("{name}:malformed"), || format!("{e:?} was read as {g:?}"));
                }
            }
        }
    });
    let k = n.load(Relaxed);
    mc.states(k);
    mc.traces(k);
    mc.transitions(k);
    mc.evals(k, acc.load(Relaxed));
    mc.section(name, json!({"texts": texts.len(), "edited texts": k, "still readable": acc.load(Relaxed)}));
}

pub fn run(mc: &Mc) {
    mc.rule("all tuples of boundary values; all texts one (thorough, short texts: two) character edits away from a valid text; an edited text is non-trivial when it is still accepted");
    roundtrips(mc);
    let gl = BigUint::from(refs::P);
    let b = |v: Vec<FGL>| v.iter().map(|x| BigUint::from(x.as_int())).collect::<Vec<_>>();
    let pm = refs::P;
    let t1: Vec<String> = [0u64, 5, 10, pm - 1, pm, pm + 1, u64::MAX].iter().map(|x| format!("\"{x}\"")).collect();
    let arr = |k: usize| {
        let mut v = vec![q(&[1, 2, 3, 4, 5, 6, 7][..k]), q(&[pm - 1, 0, pm - 1, 10, pm - 1][..k.min(5)]), q(&vec![pm; k])];
        for l in [k - 1, k + 1] {
            v.push(q(&[1, 2, 3, 4, 5, 6, 7][..l]));
        }
        v
    };
    let with = |k: usize| {
        let mut v = t1.clone();
        v.extend(arr(k));
        v.push("[]".into());
        v
    };
    malformed::<F3G>(mc, "f3g", &with(3), &gl, &[(false, 1), (true, 3)], false, false, |v| b(v.as_elements()));
    malformed::<F5G>(mc, "f5g", &with(5), &gl, &[(false, 1), (true, 5)], false, false, |v| b(v.as_elements()));
    malformed::<ElementDigest<4, FGL>>(mc, "digest-gl", &with(4), &gl, &[(false, 1), (true, 4)], false, false, |v| b(v.as_elements().to_vec()));
    let short: Vec<String> = ["\"5\"", "\"10\"", "[\"1\",\"2\",\"3\"]"].map(String::from).to_vec();
    malformed::<F3G>(mc, "f3g:two-edits", &short[..mc.pick(2, 3)], &gl, &[(false, 1), (true, 3)], true, false, |v| b(v.as_elements()));
    malformed::<ElementDigest<4, FGL>>(mc, "digest-gl:two-edits", &short[..2], &gl, &[(false, 1), (true, 4)], true, false, |v| b(v.as_elements().to_vec()));
    fn curve<F: PrimeField + Default + DeserializeOwned>(mc: &Mc, name: &str, c: Curve) {
        let p = inst(c).f.p;
        let md = p.iter().rev().fold(BigUint::from(0u8), |a, x| (a << 64u32) + BigUint::from(*x));
        let one = BigUint::from(1u8);
        let mut ts: Vec<String> = vec![BigUint::from(0u8), BigUint::from(7u8), &md - &one].iter().map(|x| format!("\"{x}\"")).collect();
        let vals = |x: &F| vec![starky::helper::fr_to_biguint(x)];
        malformed::<F>(mc, &format!("fr-{name}"), &ts, &md, &[(false, 1)], false, true, vals);
        malformed::<F>(mc, &format!("fr-{name}:two-edits"), &ts[..2], &md, &[(false, 1)], true, true, vals);
        ts.push(q(&[1, 2, 3]));
        malformed::<ElementDigest<4, F>>(mc, &format!("digest-{name}"), &ts, &md, &[(false, 1)], false, true, |d: &ElementDigest<4, F>| {
            let r = d.as_scalar::<F>();
            let mut m = [0u64; 4];
            m.copy_from_slice(r.as_ref());
            let c = inst(if name_is_bls::<F>() { Curve::Bls } else { Curve::Bn }).f.from_m(&m);
            vec![c.iter().rev().fold(BigUint::from(0u8), |a, x| (a << 64u32) + BigUint::from(*x))]
        });
    }
    curve::<starky::field_bn128::Fr>(mc, "bn128", Curve::Bn);
    curve::<starky::mc_hooks::field_bls12381::Fr>(mc, "bls12381", Curve::Bls);
    mc.sample(json!({"text": "[\"1\",\"2\",\"18446744069414584321\"]", "as": "F3G", "expected": "refused"}));
    mc.assume("decimal text of a BN128/BLS12-381 scalar at or above the modulus denotes its residue (what ff's parser does)");
}
fn name_is_bls<F: 'static>() -> bool {
    std::any::TypeId::of::<F>() == std::any::TypeId::of::<starky::mc_hooks::field_bls12381::Fr>()
}
