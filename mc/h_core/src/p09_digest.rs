//! P09: digests are lossless containers of curve scalars, and the conversions between limbs,
//! scalars and big integers are the ones of their definition: every combination of boundary
//! limbs, every element width.
use crate::bigf::*;
use crate::hashref::*;
use crate::p04_poseidon::*;
use crate::p05_rowhash::{fgl, ints};
use crate::refs;
use ff::PrimeField;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use num_bigint::BigUint;
use rayon::prelude::*;
use serde_json::json;
use starky::mc_hooks::digest::ElementDigest;
use starky::mc_hooks::digest::{to_bls12381, to_bn128};
use starky::traits::{MTNodeType, MerkleTree};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const LIMBS: [u64; 14] = [
    0,
    1,
    2,
    0xFFFFFFFF,
    0x1_0000_0000,
    0x7FFF_FFFF_FFFF_FFFF,
    0x8000_0000_0000_0000,
    0x1234_5678_9ABC_DEF0,
    0xFFFF_FFFE_FFFF_FFFF,
    0xFFFF_FFFF_0000_0000,
    0xFFFF_FFFF_0000_0001,
    0xFFFF_FFFF_0000_0002,
    0xFFFF_FFFF_FFFF_FFFE,
    0xFFFF_FFFF_FFFF_FFFF,
];
fn big(l: &[u64]) -> BigUint {
    l.iter().rev().fold(BigUint::from(0u8), |a, x| (a << 64u32) + BigUint::from(*x))
}
/// all limb vectors below the modulus; the top limb also takes the values next to the modulus'
pub fn vectors(md: &U4) -> Vec<U4> {
    let top: Vec<u64> = vec![0, 1, 0x0123_4567_89AB_CDEF, md[3] - 1, md[3]];
    let mut v = vec![];
    let mut lo: Vec<u64> = LIMBS.to_vec();
    lo.extend([md[0], md[0] - 1, md[1], md[1] - 1, md[2], md[2] - 1]);
    for a in &lo {
        for b in &lo {
            for c in &lo {
                for d in &top {
                    let x = [*a, *b, *c, *d];
                    if !geq(&x, md) {
                        v.push(x);
                    }
                }
            }
        }
    }
    v
}

fn curve<F: PrimeField + Default, M: MerkleTree<BaseField = F, MTNode = ElementDigest<4, F>>>(
    mc: &Mc,
    name: &str,
    c: Curve,
    pack: impl Fn(&[FGL; 4]) -> F + Sync,
) {
    let ins = inst(c);
    let md = ins.f.p;
    let n = AtomicU64::new(0);
    let vs = vectors(&md);
    let mk = |raw: &U4| {
        // the element whose Montgomery limbs are raw
        let mut r = F::Repr::default();
        r.as_mut().copy_from_slice(&ins.f.from_m(raw));
        F::from_repr(r).unwrap()
    };
    vs.par_iter().for_each(|raw| {
        n.fetch_add(1, Relaxed);
        let f = mk(raw);
        let bad = raw.iter().any(|l| *l >= refs::P);
        match guard(|| ElementDigest::<4, F>::from_scalar(&f)) {
            Err(_) if bad => mc.fail("from_scalar:panics-on-limb>=goldilocks", "a scalar with a Montgomery limb outside Goldilocks has no digest", json!({"curve": name, "limbs": raw})),
            Err(e) => mc.fail(&format!("{name}:from_scalar"), &format!("{raw:x?}: {e}"), json!({"limbs": raw})),
            Ok(d) => {
                mc.check(!bad, &format!("{name}:from_scalar"), || format!("{raw:x?} was converted although a limb is not a Goldilocks element: {d:?}"));
                if !bad {
                    mc.check(ints(d.as_elements()) == raw, &format!("{name}:from_scalar"), || format!("{raw:x?} -> {d:?}"));
                    mc.check(d.as_scalar::<F>().as_ref().to_vec().eq(&raw.to_vec()), &format!("{name}:as_scalar"), || format!("{raw:x?} -> {:x?}", d.as_scalar::<F>().as_ref()));
                    let d2 = ElementDigest::<4, F>::new(&fgl(raw));
                    mc.check(d2 == d && d2.as_elements() == d.as_elements(), &format!("{name}:new"), || format!("{raw:x?}"));
                    mc.check(d.is_dim_1().eq(&flat(raw)), &format!("{name}:is_dim_1"), || format!("{raw:x?}"));
                    let b = M::to_basefield(&d);
                    mc.check(b.len() == 1 && b[0] == f && M::from_basefield(&b[0]) == d, &format!("{name}:basefield"), || format!("{raw:x?}"));
                    let s = format!("{d}");
                    mc.check(s == raw.iter().map(|x| format!("{x}\n")).collect::<String>(), &format!("{name}:display"), || format!("{raw:x?}: {s}"));
                }
            }
        }
        // canonical integer <-> scalar
        let canon = ins.f.from_m(raw);
        let bi = starky::helper::fr_to_biguint(&f);
        mc.check(bi == big(&canon), &format!("{name}:fr_to_biguint"), || format!("{canon:x?} -> {bi}"));
        mc.check(starky::helper::biguint_to_fr::<F>(&bi) == f, &format!("{name}:biguint_to_fr"), || format!("{bi}"));
        for k in [1u32, 2, 5] {
            let y = &bi + big(&md) * BigUint::from(k);
            mc.check(starky::helper::biguint_to_fr::<F>(&y) == f, &format!("{name}:biguint_to_fr"), || format!("{y} = {bi} + {k} r"));
        }
        // limbs -> scalar
        if !bad {
            let a: [FGL; 4] = fgl(raw).try_into().unwrap();
            let g = guard(|| starky::helper::fr_to_biguint(&pack(&a)));
            mc.check(g == Ok(big(raw)), &format!("{name}:pack"), || format!("{raw:x?} -> {g:?}"));
        }
    });
    // vectors at and above the modulus are not scalars: refused, never a different scalar
    let mut over = vec![];
    for a in LIMBS {
        for d in [md[3], md[3] + 1, refs::P - 1] {
            for bc in [[md[1], md[2]], [md[1], md[2] + 1], [0, 0], [refs::P - 1, refs::P - 1]] {
                let x = [a, bc[0], bc[1], d];
                if geq(&x, &md) && x.iter().all(|l| *l < refs::P) {
                    over.push(x);
                }
            }
        }
    }
    for x in &over {
        let a: [FGL; 4] = fgl(x).try_into().unwrap();
        let g = guard(|| starky::helper::fr_to_biguint(&pack(&a)));
        mc.check(g.is_err(), &format!("{name}:pack"), || format!("{x:x?} >= r became {g:?}"));
    }
    let k = n.load(Relaxed) + over.len() as u64;
    mc.states(k);
    mc.transitions(k * 8);
    mc.traces(k * 8);
    mc.evals(k * 8, k * 8);
    mc.section(name, json!({"limb vectors": k}));
}

pub fn run(mc: &Mc) {
    mc.rule("all limb vectors over the boundary limbs of the field and of Goldilocks below the modulus (and those just above it)");
    curve::<starky::field_bn128::Fr, starky::merklehash_bn128::MerkleTreeBN128>(mc, "bn128", Curve::Bn, to_bn128);
    curve::<starky::mc_hooks::field_bls12381::Fr, starky::merklehash_bls12381::MerkleTreeBLS12381>(mc, "bls12381", Curve::Bls, to_bls12381);
    // Goldilocks digests
    type M = starky::merklehash::MerkleTreeGL;
    let l: Vec<u64> = LIMBS.iter().copied().filter(|x| *x < refs::P).collect();
    let k = l.len();
    let mut n = 0u64;
    for i in 0..k.pow(4) {
        let v: Vec<u64> = (0..4).map(|j| l[i / k.pow(j) % k]).collect();
        let d = ElementDigest::<4, FGL2>::new(&fgl(&v));
        mc.check(ints(d.as_elements()) == v, "gl:new", || format!("{v:x?}"));
        mc.check(d.is_dim_1() == (v[1..] == [0, 0, 0]), "gl:is_dim_1", || format!("{v:x?}"));
        let mut w = v.clone();
        w.extend([7, 8]);
        mc.check(ElementDigest::<4, FGL2>::new(&fgl(&w)) == d, "gl:new", || format!("extra elements {w:x?}"));
        let b = M::to_basefield(&d);
        mc.check(b.len() == 1 && b[0].as_int() == v[0], "gl:to_basefield", || format!("{v:x?}"));
        let e = M::from_basefield(&b[0]);
        mc.check(ints(e.as_elements()) == [v[0], 0, 0, 0], "gl:from_basefield", || format!("{v:x?}"));
        // two digests are equal exactly when all four elements are
        for j in 0..4 {
            let mut u = v.clone();
            u[j] = (u[j] + 1) % refs::P;
            mc.check(ElementDigest::<4, FGL2>::new(&fgl(&u)) != d, "gl:eq", || format!("{v:x?} = {u:x?}"));
        }
        n += 1;
    }
    mc.check(guard(|| ElementDigest::<4, FGL2>::new(&fgl(&[1, 2, 3]))).is_err(), "gl:new", || "3 elements accepted".into());
    mc.states(n);
    mc.transitions(n * 6);
    mc.traces(n * 6);
    // big integers reduced into Goldilocks
    let mut n = 0u64;
    for v in vectors(&[1, 0, 0, 0x73ED_A753_299D_7D48]) {
        let b = big(&v);
        let w = (&b % BigUint::from(refs::P)).to_string();
        let g = starky::helper::biguint_to_be(&b).as_int();
        mc.check(g.to_string() == w, "biguint_to_be", || format!("{b} -> {g}, want {w}"));
        n += 1;
    }
    mc.states(n);
    mc.traces(n);
    mc.section("goldilocks", json!({"digests": k.pow(4), "big integers": n}));
    mc.sample(json!({"raw limbs": ["0xffffffff00000000", "1", "0", "0x30644e72e131a029"], "curve": "bn128"}));
    mc.assume("a scalar one of whose Montgomery limbs is >= the Goldilocks modulus has no digest in this representation (known finding; about 3 in 2^32 scalars)");
}
fn flat(v: &[u64]) -> bool {
    v[1..].iter().all(|x| *x == 0)
}
type FGL2 = fields::field_gl::Fr;
