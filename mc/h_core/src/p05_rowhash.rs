//! P05: row (linear) hashing is the documented sponge, for every row length, batch size and
//! column layout. Explored: all lengths up to a bound x fills (distinct values, each boundary
//! value at each position), all compositions of short rows into columns, all batch sizes, and all
//! rows over a 3-letter alphabet up to a length (pairwise distinct digests).
use crate::bigf::*;
use crate::hashref::*;
use crate::p04_poseidon::*;
use crate::refs;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use rayon::prelude::*;
use serde_json::json;
use starky::linearhash::LinearHash;
use starky::linearhash_bls12381::LinearHashBLS12381;
use starky::linearhash_bn128::LinearHashBN128;
use starky::traits::MTNodeType;

pub fn fgl(v: &[u64]) -> Vec<FGL> {
    v.iter().map(|x| FGL::from(*x)).collect()
}
pub fn ints(v: &[FGL]) -> Vec<u64> {
    v.iter().map(|x| x.as_int()).collect()
}
/// rows of length n: distinct values, all p-1, zeros, and each boundary value at each position
fn fills(n: usize, sp: &[u64]) -> Vec<Vec<u64>> {
    let base: Vec<u64> = (0..n as u64).map(|i| m(i * 977 + n as u64)).collect();
    let mut r = vec![base.clone(), vec![refs::P - 1; n], vec![0; n], (1..=n as u64).collect()];
    for pos in 0..n {
        for s in sp {
            let mut v = base.clone();
            v[pos] = *s;
            r.push(v);
        }
    }
    r
}
fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (0..1usize << (n - 1))
        .map(|mask| {
            let mut r = vec![];
            let mut c = 1;
            for i in 0..n - 1 {
                if mask >> i & 1 == 1 {
                    r.push(c);
                    c = 1;
                } else {
                    c += 1;
                }
            }
            r.push(c);
            r
        })
        .collect()
}
fn split(v: &[u64], w: &[usize]) -> Vec<Vec<FGL>> {
    let mut o = 0;
    w.iter()
        .map(|k| {
            o += k;
            fgl(&v[o - k..o])
        })
        .collect()
}

pub fn run_gl(mc: &Mc) {
    let lh = LinearHash::new();
    let sp = [0u64, 1, refs::P - 1, 0xffff_ffff, 1 << 32];
    let maxl = mc.pick(150, 420);
    let cases: Vec<Vec<u64>> = (0..=maxl).flat_map(|n| if n <= 40 || n % 16 == 1 { fills(n, &sp) } else { fills(n, &sp[2..3]) }).collect();
    cases.par_iter().for_each(|v| {
        if v.is_empty() {
            return;
        }
        let w = gl_row(v, 0);
        let g = guard(|| lh.hash_element_matrix(&[fgl(v)], 0).map(|d| ints(d.as_elements())).unwrap_or_default());
        mc.check(g == Ok(w.to_vec()), "rowhash-gl", || format!("length {}: {g:x?} want {w:x?} for {v:x?}", v.len()));
    });
    let mut n = cases.len() as u64;
    // batch sizes
    let bmax = mc.pick(40, 120);
    let bs: Vec<(usize, usize)> = (1..=bmax).flat_map(|l| (0..=bmax + 2).map(move |b| (l, b))).collect();
    bs.par_iter().for_each(|(l, b)| {
        let v: Vec<u64> = (0..*l as u64).map(|i| m(i + 5000)).collect();
        let w = gl_row(&v, *b).to_vec();
        let g = guard(|| lh.hash_element_matrix(&[fgl(&v)], *b).map(|d| ints(d.as_elements())).unwrap_or_default());
        mc.check(g == Ok(w.clone()), "rowhash-gl:batch", || format!("length {l} batch {b}: {g:x?} want {w:x?}"));
        #[cfg(not(feature = "avx512"))]
        {
            let g = guard(|| lh.hash(&fgl(&v), *b).map(|d| ints(d.as_elements())).unwrap_or_default());
            mc.check(g == Ok(w.clone()), "rowhash-gl:flat", || format!("length {l} batch {b}: {g:x?} want {w:x?}"));
            let w = gl_sponge(&v).to_vec();
            let g = guard(|| lh._hash(&fgl(&v)).map(|d| ints(d.as_elements())).unwrap_or_default());
            mc.check(g == Ok(w.clone()), "rowhash-gl:sponge", || format!("length {l}: {g:x?} want {w:x?}"));
        }
        // this build hashes two rows at a time
        #[cfg(feature = "avx512")]
        for k in 0..3u64 {
            let v2: Vec<u64> = v.iter().enumerate().map(|(i, x)| if k == 0 { m(i as u64 + 777) } else if k == 1 { refs::P - 1 } else { *x ^ ((i == *l - 1) as u64) }).collect();
            let both = [v.clone(), v2.clone()].concat();
            let w = vec![gl_row(&v, *b).to_vec(), gl_row(&v2, *b).to_vec()];
            let g = guard(|| lh.hash(&fgl(&both), *b).map(|d| d.iter().map(|d| ints(d.as_elements())).collect::<Vec<_>>()).unwrap_or_default());
            mc.check(g == Ok(w.clone()), "rowhash-gl:two", || format!("length {l} batch {b}: {g:x?} want {w:x?}"));
            let w = [gl_sponge(&v), gl_sponge(&v2)].concat();
            let g = guard(|| lh._hash(&fgl(&both)).map(|d| ints(&d)).unwrap_or_default());
            mc.check(g == Ok(w.clone()), "rowhash-gl:two sponges", || format!("length {l}: {g:x?} want {w:x?}"));
        }
    });
    n += bs.len() as u64;
    // layouts: width x height rectangles hash as their concatenation
    let rects: Vec<(usize, usize)> = (1..=12).flat_map(|w| (1..=12).map(move |h| (w, h))).collect();
    rects.par_iter().for_each(|(w, h)| {
        let v: Vec<u64> = (0..(w * h) as u64).map(|i| m(i + 9000)).collect();
        let cols: Vec<Vec<FGL>> = v.chunks(*w).map(fgl).collect();
        let want = gl_row(&v, 0).to_vec();
        let g = guard(|| lh.hash_element_matrix(&cols, 0).map(|d| ints(d.as_elements())).unwrap_or_default());
        mc.check(g == Ok(want.clone()), "rowhash-gl:layout", || format!("{h} columns of {w}: {g:x?} want {want:x?}"));
    });
    n += rects.len() as u64;
    // no two different rows of the same length collide
    let al = [0u64, 1, refs::P - 1];
    let lmax = mc.pick(8, 9);
    let mut coll = 0u64;
    for l in 1..=lmax {
        let k = 3usize.pow(l as u32);
        let mut d: Vec<(Vec<u64>, usize)> = (0..k)
            .into_par_iter()
            .map(|i| {
                let v: Vec<u64> = (0..l).map(|j| al[i / 3usize.pow(j as u32) % 3]).collect();
                (guard(|| lh.hash_element_matrix(&[fgl(&v)], 0).map(|d| ints(d.as_elements())).unwrap_or_default()).unwrap_or_default(), i)
            })
            .collect();
        d.par_sort();
        for w in d.windows(2) {
            mc.check(w[0].0 != w[1].0, "rowhash-gl:collision", || format!("length {l}: rows {} and {} (base 3 over 0,1,-1) share a digest", w[0].1, w[1].1));
        }
        coll += k as u64;
    }
    n += coll;
    mc.states(n);
    mc.transitions(n);
    mc.traces(n);
    mc.evals(n, n);
    mc.section("goldilocks", json!({"lengths": format!("0..={maxl}"), "batch sizes": bs.len(), "rectangles": rects.len(), "pairwise distinct rows": coll}));
}

macro_rules! curve {
    ($mc:expr, $name:expr, $lh:ty, $curve:expr, $un:expr, $fr:path) => {{
        let mc = $mc;
        let lh = <$lh>::new();
        let ins = inst($curve);
        let sp = [0u64, 1, refs::P - 1, 0xffff_ffff];
        let maxl = mc.pick(120, 330);
        let mut cases: Vec<Vec<u64>> = (0..=maxl)
            .flat_map(|n| if n <= 12 { fills(n, &sp) } else if n <= 60 || n % 48 <= 2 { fills(n, &sp[2..3]).into_iter().step_by(if n > 60 { 7 } else { 1 }).collect() } else { fills(n, &[]) })
            .collect();
        let lmax = mc.pick(6, 7);
        for l in 1..=lmax {
            for i in 0..3usize.pow(l as u32) {
                cases.push((0..l).map(|j| [0u64, 1, refs::P - 1][i / 3usize.pow(j as u32) % 3]).collect());
            }
        }
        cases.sort();
        cases.dedup();
        let ds: Vec<(usize, U4)> = cases
            .par_iter()
            .map(|v| {
                let w = ins.row(v);
                let g = guard(|| lh.hash_element_matrix(&[fgl(v)]).map(|x| $un(&x)).ok());
                mc.check(g == Ok(Some(w)), concat!("rowhash-", $name), || format!("matrix hash, length {}: {g:x?} want {w:x?} for {v:x?}", v.len()));
                // the Merkle leaf hash is the same function
                if !v.is_empty() {
                    let g = guard(|| lh.hash_element_array(&fgl(v)).map(|d| { let f = $fr(d.as_scalar::<$fr>()); $un(&f) }).ok());
                    mc.check(g == Ok(Some(w)), concat!("rowhash-", $name, ":leaf"), || format!("leaf hash, length {}: {g:x?} want {w:x?} for {v:x?}", v.len()));
                }
                (v.len(), g.ok().flatten().unwrap_or([0; 4]))
            })
            .collect();
        // rows of equal length never collide
        let mut k: Vec<(usize, U4, usize)> = ds.iter().enumerate().map(|(i, d)| (d.0, d.1, i)).collect();
        k.sort();
        for w in k.windows(2) {
            mc.check((w[0].0, w[0].1) != (w[1].0, w[1].1), concat!("rowhash-", $name, ":collision"), || format!("{:x?} and {:x?}", cases[w[0].2], cases[w[1].2]));
        }
        let mut n = cases.len() as u64;
        // any layout into columns hashes like the concatenation
        let cm = mc.pick(10, 13);
        let comps: Vec<(usize, Vec<usize>)> = (1..=cm).flat_map(|l| compositions(l).into_iter().map(move |c| (l, c))).collect();
        comps.par_iter().for_each(|(l, c)| {
            let v: Vec<u64> = (0..*l as u64).map(|i| m(i + 70)).collect();
            let w = ins.row(&v);
            let g = guard(|| lh.hash_element_matrix(&split(&v, c)).map(|x| $un(&x)).ok());
            mc.check(g == Ok(Some(w)), concat!("rowhash-", $name, ":layout"), || format!("columns {c:?}: {g:x?} want {w:x?}"));
        });
        n += comps.len() as u64;
        // node hash: 16 children, zero or non-zero initial state
        let sp4 = special4(&ins.p);
        let nodes: Vec<(usize, usize)> = (0..16).flat_map(|p| (0..sp4.len()).map(move |s| (p, s))).collect();
        nodes.par_iter().for_each(|(p, s)| {
            for init in [[0u64; 4], [5, 0, 0, 0]] {
                let mut ch: Vec<U4> = (0..16u64).map(|i| mix4(i + 40, &ins.p)).collect();
                ch[*p] = sp4[*s];
                let w = ins.hash(&init, &ch);
                let raw = |x: &U4| ins.f.to_m(x);
                if ch.iter().chain([&w]).any(|x| raw(x).iter().any(|l| *l >= refs::P)) {
                    continue;
                }
                let el: Vec<starky::ElementDigest<4, $fr>> = ch.iter().map(|x| starky::ElementDigest::new(&fgl(&raw(x)))).collect();
                let mk = |x: &U4| { use ff::PrimeField; <$fr>::from_repr({ let mut r = <$fr as PrimeField>::Repr::default(); r.as_mut().copy_from_slice(x); r }).unwrap() };
                let g = guard(|| lh.hash_node(&el, &mk(&init)).map(|d| ints(d.as_elements())).unwrap_or_default());
                let want = raw(&w).to_vec();
                mc.check(g == Ok(want.clone()), concat!("rowhash-", $name, ":node"), || format!("child {p} = {:x?}: {g:x?} want {want:x?}", sp4[*s]));
            }
        });
        n += nodes.len() as u64 * 2;
        mc.states(n);
        mc.transitions(n);
        mc.traces(n);
        mc.evals(n, n);
        mc.section($name, json!({"rows": cases.len(), "lengths": format!("0..={maxl}"), "column layouts": comps.len(), "node inputs": nodes.len() * 2}));
    }};
}
pub fn run(mc: &Mc) {
    mc.rule("rows: every length up to the bound x {distinct, all p-1, zero, 1..n, each boundary value at each position}, all rows over {0,1,p-1} up to a length, all batch sizes, all column layouts; every case is distinct");
    run_gl(mc);
    curve!(mc, "bn128", LinearHashBN128, Curve::Bn, unbn, starky::field_bn128::Fr);
    curve!(mc, "bls12381", LinearHashBLS12381, Curve::Bls, unbl, starky::mc_hooks::field_bls12381::Fr);
    mc.sample(json!({"goldilocks row": [1, 2, 3, 4, 5], "batch": 3}));
    mc.sample(json!({"bn128 columns": [2, 1, 4], "values": "7 distinct elements"}));
}
