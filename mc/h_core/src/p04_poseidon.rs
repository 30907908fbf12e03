//! P04: the hash functions are the Poseidon instances they are named after. The oracle is the
//! textbook permutation with parameters regenerated from their specification (Grain LFSR); the
//! explored space is every width, every input position x boundary value, all 0/1/-1 patterns of
//! the narrow widths, and every input/output length including the refused ones.
use crate::bigf::*;
use crate::refs;
use fields::field_gl::Fr as FGL;
use ff::*;
use mc_common::*;
use rayon::prelude::*;
use serde_json::json;
use starky::field_bn128 as bnf;
use starky::mc_hooks::field_bls12381 as blf;

pub fn bn(x: &U4) -> bnf::Fr {
    bnf::Fr::from_repr(bnf::FrRepr(*x)).unwrap()
}
pub fn unbn(x: &bnf::Fr) -> U4 {
    x.into_repr().0
}
pub fn bl(x: &U4) -> blf::Fr {
    blf::Fr::from_repr(blf::FrRepr(*x)).unwrap()
}
pub fn unbl(x: &blf::Fr) -> U4 {
    x.into_repr().0
}
pub const RP_BN: [usize; 16] = [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68];
pub const RP_BLS: [usize; 16] = [55, 55, 56, 56, 56, 56, 57, 57, 57, 57, 57, 57, 57, 57, 59, 59];
pub fn specs_bn() -> Vec<Spec> {
    let f = Mp::new(BN);
    (2..=17usize).into_par_iter().map(|t| spec(&f, 0, 254, t, 8, RP_BN[t - 2], Mds::Grain)).collect()
}
pub fn specs_bls_plain() -> Vec<Spec> {
    let f = Mp::new(BLS);
    (2..=17usize).into_par_iter().map(|t| spec(&f, 0, 255, t, 8, RP_BN[t - 2], Mds::Grain)).collect()
}
pub fn specs_bls() -> Vec<Spec> {
    let f = Mp::new(BLS);
    (2..=17usize).into_par_iter().map(|t| spec(&f, 1, 255, t, 8, RP_BLS[t - 2], Mds::Seq)).collect()
}
pub fn mix4(s: u64, p: &U4) -> U4 {
    let mut v = [mix(s), mix(s ^ 1 << 60), mix(s ^ 1 << 61), mix(s ^ 1 << 62)];
    while geq(&v, p) {
        v = sub4(&v, p).0;
    }
    v
}
/// boundary values of a 4-limb field
pub fn special4(p: &U4) -> Vec<U4> {
    let one = [1, 0, 0, 0];
    let mut v = vec![[0; 4], one, [2, 0, 0, 0], sub4(p, &one).0, sub4(p, &[2, 0, 0, 0]).0, [u64::MAX, 0, 0, 0], [0, 1, 0, 0], [u64::MAX, u64::MAX, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [u64::MAX, u64::MAX, u64::MAX, 0], [refs::P, refs::P, refs::P, 0]];
    v.push(mix4(7, p));
    v
}

/// every input vector explored for a width
fn inputs(t: usize, p: &U4, dense: bool) -> Vec<Vec<U4>> {
    let sp = special4(p);
    let mut r = vec![];
    let base: Vec<U4> = (0..t as u64).map(|i| mix4(i + 1000 * t as u64, p)).collect();
    for pos in 0..t {
        for s in &sp {
            let mut v = vec![[0; 4]; t];
            v[pos] = *s;
            r.push(v);
            let mut v = base.clone();
            v[pos] = *s;
            r.push(v);
        }
    }
    if t <= 3 {
        for k in 0..sp.len().pow(t as u32) {
            let mut q = k;
            r.push(
                (0..t)
                    .map(|_| {
                        let x = sp[q % sp.len()];
                        q /= sp.len();
                        x
                    })
                    .collect(),
            );
        }
    }
    let bits = if dense { t.min(10) } else { t.min(6) };
    for m in 0..1u32 << bits {
        let mut v = vec![sub4(p, &[1, 0, 0, 0]).0; t];
        for i in 0..bits {
            v[i] = [(m >> i & 1) as u64, 0, 0, 0];
        }
        r.push(v);
    }
    for k in 0..if dense { 60 } else { 6 } {
        r.push((0..t as u64).map(|i| mix4(i * 7919 + k * 104729, p)).collect());
    }
    r
}

macro_rules! instance {
    ($mc:expr, $name:expr, $pos:expr, $to:expr, $un:expr, $specs:expr, $p:expr, $digest:expr, $quick_t:expr) => {{
        let mc: &Mc = $mc;
        let pz = $pos;
        let f = Mp::new($p);
        let mut total = 0u64;
        for (k, s) in $specs.iter().enumerate() {
            let t = k + 2;
            let ins = inputs(t, &$p, mc.thorough());
            total += ins.len() as u64;
            ins.par_iter().enumerate().for_each(|(n, v)| {
                let w = permute(&f, s, v);
                let inp: Vec<_> = v[1..].iter().map(|x| $to(x)).collect();
                let st = $to(&v[0]);
                match pz.hash_ex(&inp, &st, t) {
                    Ok(g) => {
                        let g: Vec<U4> = g.iter().map(|x| $un(x)).collect();
                        mc.check(g == w, $name, || format!("{} width {t}, input {v:x?}: {g:x?}, want {w:x?}", $name));
                    }
                    Err(e) => {
                        mc.check(false, $name, || format!("{} width {t} refused: {e}", $name));
                    }
                }
                if n < 40 {
                    for out in 1..=t {
                        let g: Vec<U4> = pz.hash_ex(&inp, &st, out).map(|g| g.iter().map(|x| $un(x)).collect()).unwrap_or_default();
                        mc.check(g == w[..out], $name, || format!("{} width {t}, {out} outputs", $name));
                    }
                    let h = pz.hash(&inp, &st).map(|x| $un(&x)).ok();
                    mc.check(h == Some(w[$digest]), $name, || format!("{} digest, width {t}", $name));
                }
            });
        }
        // lengths outside 1..=16 are refused, never hashed as something else
        for l in [0usize, 17, 18, 32] {
            let r = guard(|| pz.hash(&vec![$to(&[1, 0, 0, 0]); l], &$to(&[0; 4])).is_err());
            mc.check(r == Ok(true), &format!("{}:length", $name), || format!("{l} inputs: {r:?}"));
        }
        mc.states(total);
        mc.transitions(total);
        mc.traces(total + 16 * 40 * 10);
        mc.evals(total, total);
        mc.section($name, json!({"widths": "2..=17", "inputs": total, "digest_index": $digest}));
    }};
}

fn gl(mc: &Mc) {
    let c = gl_constants();
    let pz = starky::poseidon_opt::Poseidon::new();
    let mut ins: Vec<[u64; 12]> = vec![];
    for m in 0..1u32 << 12 {
        let mut a = [0u64; 12];
        for i in 0..12 {
            a[i] = (m >> i & 1) as u64;
        }
        ins.push(a);
        ins.push(a.map(|x| if x == 1 { refs::P - 1 } else { 0 }));
        ins.push(a.map(|x| if x == 1 { 0xffff_ffff } else { mix(m as u64) % refs::P }));
    }
    let sp = refs::special(mc.pick(2, 16));
    for pos in 0..12 {
        for (k, s) in sp.iter().enumerate() {
            let mut a = [0; 12];
            a[pos] = *s;
            ins.push(a);
            for i in 0..12 {
                a[i] = mix(i as u64 * 31 + k as u64) % refs::P;
            }
            a[pos] = *s;
            ins.push(a);
            for p2 in 0..12 {
                if p2 != pos {
                    let mut b = [0; 12];
                    b[pos] = *s;
                    b[p2] = sp[(k * 7 + p2) % sp.len()];
                    ins.push(b);
                }
            }
        }
    }
    ins.par_iter().enumerate().for_each(|(n, a)| {
        let w = gl_permute(&c, a);
        let inp: Vec<FGL> = a[..8].iter().map(|x| FGL::from(*x)).collect();
        let cap: Vec<FGL> = a[8..].iter().map(|x| FGL::from(*x)).collect();
        let outs: Vec<usize> = if n % 50 == 0 { (1..=12).collect() } else { vec![12] };
        for o in outs {
            let g: Vec<u64> = pz.hash(&inp, &cap, o).map(|v| v.iter().map(|x| x.as_int()).collect()).unwrap_or_default();
            mc.check(g == w[..o], "poseidon-goldilocks", || format!("state {a:x?}, {o} outputs: {g:x?}, want {w:x?}"));
        }
    });
    for l in 0..=24usize {
        for cl in 0..=12usize {
            let r = guard(|| pz.hash(&vec![FGL::ONE; l], &vec![FGL::ONE; cl], 4).is_err());
            let want = l != 8 || cl != 4;
            mc.check(r == Ok(want), "poseidon-goldilocks:length", || format!("{l} inputs, {cl} capacity words: {r:?}"));
        }
    }
    let n = ins.len() as u64;
    mc.states(n);
    mc.transitions(n);
    mc.traces(n);
    mc.evals(n, n - 2);
    mc.section("poseidon-goldilocks", json!({"states": n}));
    // anchors of the oracle: published vectors of this instance
    for (i, w) in [(vec![0u64; 12], [0x3c18a9786cb0b359u64, 0xc4055e3364a246c3, 0x7953db0ab48808f4, 0xc71603f33a1144ca]), ((0..12).collect(), [0xd64e1e3efc5b8e9e, 0x53666633020aaa47, 0xd40285597c6a8825, 0x613a4f81e81231d2])] {
        let a: [u64; 12] = i.try_into().unwrap();
        assert_eq!(gl_permute(&c, &a)[..4], w, "oracle");
    }
}

pub fn run(mc: &Mc) {
    mc.rule("every width x every input position x boundary value (in a zero and in a full state), all {0,1}/{p-1} patterns of the leading positions, all value combinations for widths 2 and 3, all lengths; a case is non-trivial when the state is not all zero");
    gl(mc);
    #[allow(deprecated)]
    {
        instance!(mc, "poseidon-bn128-opt", starky::poseidon_bn128_opt::Poseidon::new(), bn, unbn, specs_bn(), BN, 0, 17);
        instance!(mc, "poseidon-bn128", starky::mc_hooks::poseidon_bn128::Poseidon::new(), bn, unbn, specs_bn(), BN, 0, 17);
        instance!(mc, "poseidon-bls12381-opt", starky::poseidon_bls12381_opt::Poseidon::new(), bl, unbl, specs_bls(), BLS, 1, 17);
        instance!(mc, "poseidon-bls12381", starky::mc_hooks::poseidon_bls12381::Poseidon::new(), bl, unbl, specs_bls_plain(), BLS, 0, 17);
    }
    mc.sample(json!({"instance": "bn128, width 3", "state": ["p-1", "2^64", "0"]}));
    mc.sample(json!({"instance": "goldilocks", "state": "mask 0xa5f of 1, rest 0"}));
    mc.sample(json!({"instance": "bls12381 (neptune parameters), width 17", "state": "0 except position 11 = 2^128-1"}));
    mc.assume("input elements are canonical field elements (the types guarantee it); number of outputs at most the width");
    mc.assume("Goldilocks round constants are the published ones (mc/h_core/data), the BN128/BLS12-381 ones are regenerated from the Grain LFSR");
}
