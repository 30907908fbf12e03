//! The low-degree test: the real prover against a reference prover, and the real verifier on every
//! proof of a reference prover that departs from the protocol in one place, with the exact outcome.
use crate::p12_tamper::spread;
use crate::refs::{self, E3};
use crate::stark::*;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use serde_json::json;
use starky::f3g::F3G;
use starky::mc_hooks::fri::{FRIProof, FRI};
use starky::traits::{FieldExtension, MTNodeType, MerkleTree, Transcript};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn f3(e: &E3) -> F3G {
    F3G::from_vec(e.iter().map(|x| FGL::from(*x)).collect())
}
fn e3(f: &F3G) -> E3 {
    let v: Vec<u64> = f.as_elements().iter().map(|x| x.as_int()).chain([0, 0, 0]).take(3).collect();
    v.try_into().unwrap()
}
/// coordinates of many extension elements
fn coords(v: &[E3], f: impl Fn(&[u64]) -> Vec<u64>) -> Vec<E3> {
    let c: Vec<Vec<u64>> = (0..3).map(|k| f(&v.iter().map(|e| e[k]).collect::<Vec<_>>())).collect();
    (0..c[0].len()).map(|i| [c[0][i], c[1][i], c[2][i]]).collect()
}
fn horner(c: &[E3], x: E3) -> E3 {
    c.iter().rev().fold([0; 3], |a, c| refs::e3add(refs::e3mul(a, x), *c))
}
/// values of the polynomial with these coefficients on shift*<omega_bits>
fn on(c: &[E3], bits: usize, shift: u64) -> Vec<E3> {
    coords(c, |v| refs::ref_dft(v, bits, shift))
}
/// interpolants of the fibres of x -> x^(2^r), evaluated at `s`
fn fold(v: &[E3], to: usize, shift: u64, s: E3) -> Vec<E3> {
    let from = v.len().trailing_zeros() as usize;
    let (m, w) = (1usize << to, refs::omega(from));
    (0..m)
        .map(|g| {
            let part: Vec<E3> = (0..v.len() / m).map(|i| v[i * m + g]).collect();
            let c = coords(&part, refs::ref_idft);
            let x0 = refs::mul(shift, refs::pow(w, g as u64));
            horner(&c, refs::e3mul(s, refs::e3s(refs::inv(x0))))
        })
        .collect()
}
/// degree of the interpolant of values on a coset, -1 for zero
fn degree(v: &[E3]) -> isize {
    coords(v, refs::ref_idft).iter().rposition(|c| *c != [0; 3]).map(|d| d as isize).unwrap_or(-1)
}

#[derive(Clone, Debug)]
struct Conf {
    n: usize,
    d: usize,
    q: usize,
    steps: Vec<usize>,
}
impl Conf {
    fn par(&self) -> Par {
        Par { bits: self.d, ext: self.n, queries: self.q, steps: self.steps.clone() }
    }
}
/// one departure of the prover, at layer `at`
#[derive(Clone, Debug)]
enum Lie {
    None,
    /// one value of the layer
    Cell(usize, usize),
    /// another polynomial of the given degree added to the layer
    Poly(usize, usize),
    /// the layer cut to the degree bound
    Cut(usize),
}
impl Lie {
    fn apply(&self, at: usize, v: &mut [E3], bound: usize, shift: u64) {
        let bits = v.len().trailing_zeros() as usize;
        match self {
            Lie::Cell(l, i) if *l == at => v[*i] = refs::e3add(v[*i], [1, 0, 0]),
            Lie::Poly(l, d) if *l == at => {
                let mut c = vec![[0; 3]; v.len()];
                c[*d] = [0, 5, 0];
                for (x, y) in v.iter_mut().zip(on(&c, bits, shift)) {
                    *x = refs::e3add(*x, y);
                }
            }
            Lie::Cut(l) if *l == at => {
                // values on shift*<w> -> coefficients scaled by shift^k: cutting commutes with the scale
                let mut c = coords(v, refs::ref_idft);
                c[bound..].iter_mut().for_each(|x| *x = [0; 3]);
                let w = coords(&c, |x| refs::ref_dft(x, bits, 1));
                v.copy_from_slice(&w);
            }
            _ => {}
        }
    }
}

struct Run<K: Kind> {
    proof: FRIProof<F3G, K::M>,
    layers: Vec<Vec<E3>>,
    pos: Vec<usize>,
    accept: bool,
}
/// the reference prover: committed layers, proof and the outcome the protocol demands
fn reference<K: Kind>(c: &Conf, f: &[E3], lie: &Lie) -> Run<K> {
    let mut t = K::T::new();
    let ns = c.steps.len();
    let mut proof = FRIProof::<F3G, K::M>::new(ns);
    let mut shift = 49u64;
    let mut prev = f.to_vec();
    let mut bits = c.n;
    let mut folds: Vec<Vec<E3>> = vec![]; // what layer i should be, given what was committed before
    let mut layers: Vec<Vec<E3>> = vec![];
    let mut trees = vec![];
    for (si, to) in c.steps.iter().enumerate() {
        let s: F3G = t.get_field();
        let g = if si == 0 { prev.clone() } else { fold(&prev, *to, shift, e3(&s)) };
        (0..bits - to).for_each(|_| shift = refs::mul(shift, shift));
        bits = *to;
        folds.push(g.clone());
        let mut g2 = g;
        lie.apply(si, &mut g2, 1 << (to + c.d - c.n), shift);
        if si + 1 < ns {
            let (w, h) = (1usize << c.steps[si + 1], 1usize << (to - c.steps[si + 1]));
            let rows: Vec<FGL> =
                (0..w).flat_map(|i| (0..h).flat_map(|j| g2[j * w + i]).collect::<Vec<u64>>()).map(FGL::from).collect();
            let mut tree = K::M::new();
            tree.merkelize(rows, 3 * h, w).unwrap();
            proof.queries[si + 1].root = tree.root();
            t.put(&[tree.root().as_elements().to_vec()]).unwrap();
            trees.push(tree);
        } else {
            for x in g2.iter().flatten() {
                t.put(&[vec![FGL::from(*x)]]).unwrap();
            }
            proof.last = g2.iter().map(f3).collect();
        }
        layers.push(g2.clone());
        prev = g2;
    }
    let pos = t.get_permutations(c.q, c.steps[0]).unwrap();
    let mut accept = true;
    for p in &pos {
        let mut p = *p;
        for si in 0..ns {
            // the fold of the committed layer above is opened at p of this layer
            accept &= folds[si][p] == layers[si][p];
            if si + 1 < ns {
                p %= 1 << c.steps[si + 1];
                proof.queries[si + 1].pol_queries.push(vec![trees[si].get_group_proof(p).unwrap()]);
            }
        }
        proof.queries[0].pol_queries.push(vec![]);
    }
    let last = layers.last().unwrap();
    accept &= degree(last) < 1 << (c.steps[ns - 1] + c.d - c.n);
    Run { proof, layers, pos, accept }
}
fn verify<K: Kind>(c: &Conf, p: &FRIProof<F3G, K::M>, f: &[E3], pos: &[usize]) -> Result<bool, String> {
    let par = c.par();
    let mut seen = vec![];
    let r = guard(|| {
        let mut t = K::T::new();
        FRI::new(&par.ss(K::NAME)).verify::<F3G, K::M, K::T>(&mut t, p, |_, i| {
            seen.push(i);
            Ok(vec![f3(&f[i])])
        })
    })?;
    if seen.iter().zip(pos).any(|(a, b)| a != b) || (matches!(r, Ok(true)) && seen != pos) {
        return Err(format!("asks for positions {seen:?}, the transcript draws {pos:?}"));
    }
    Ok(matches!(r, Ok(true)))
}

fn confs(nmax: usize, qs: &[usize]) -> Vec<Conf> {
    let mut v = vec![];
    for n in 2..=nmax {
        for d in 1..n {
            for st in step_lists(n, (n - d).max(1)) {
                for q in qs {
                    let mut steps = vec![n];
                    steps.extend(st.clone());
                    v.push(Conf { n, d, q: *q, steps });
                }
            }
        }
    }
    v
}
/// a polynomial of exactly this degree (dense below when asked)
fn poly(c: &Conf, deg: usize, dense: bool) -> Vec<E3> {
    let mut p = vec![[0; 3]; 1 << c.n];
    for i in 0..=deg {
        if i == deg || dense {
            let h = |k: u64| mix((i as u64) << 8 | k << 4 | c.n as u64) % refs::P;
            p[i] = [h(0), h(1), h(2)];
        }
    }
    p
}

fn one<K: Kind>(mc: &Mc, c: &Conf, deg: usize, dense: bool, lies: bool, n: &AtomicU64, acc: &AtomicU64) {
    let f = on(&poly(c, deg, dense), c.n, 49);
    let key = format!("{}:{c:?}:degree {deg}{}", K::NAME, if dense { " dense" } else { "" });
    let honest = reference::<K>(c, &f, &Lie::None);
    let low = deg < 1 << c.d;
    mc.check(honest.accept == low, &key, || "the reference prover itself is wrong".into());
    // the real prover sends the same
    let real = guard(|| {
        let mut t = K::T::new();
        let pol: Vec<F3G> = f.iter().map(f3).collect();
        let mut pos = vec![];
        FRI::new(&c.par().ss(K::NAME))
            .prove::<F3G, K::M, K::T>(&mut t, &pol, |i| {
                pos.push(i);
                vec![]
            })
            .map(|p| (p, pos))
    });
    match real {
        Ok(Ok((p, pos))) => {
            let last: Vec<E3> = p.last.iter().map(e3).collect();
            mc.check(pos == honest.pos, &key, || format!("the prover opens {pos:?}, the transcript draws {:?}", honest.pos));
            mc.check(last == *honest.layers.last().unwrap(), &key, || "the last layer is not the fold of the polynomial".into());
            for si in 1..c.steps.len() {
                let (a, b) = (&p.queries[si], &honest.proof.queries[si]);
                mc.check(a.root == b.root, &key, || format!("the root of layer {si} is not that of the fold"));
                mc.check(a.pol_queries == b.pol_queries, &key, || format!("openings of layer {si} differ from the protocol's"));
            }
            let v = verify::<K>(c, &p, &f, &pos);
            n.fetch_add(1, Relaxed);
            mc.check(v == Ok(low), &key, || format!("degree {deg}, bound {}: {v:?}", 1 << c.d));
            acc.fetch_add(low as u64, Relaxed);
        }
        r => {
            mc.check(false, &key, || format!("the prover fails: {:?}", r.map(|x| x.map(|_| ()).map_err(|e| e.to_string()))));
        }
    }
    if !lies {
        return;
    }
    let mut all = vec![];
    for (si, b) in c.steps.iter().enumerate() {
        all.extend((0..1usize << b).map(|i| Lie::Cell(si, i)));
        all.extend((0..1usize << b).map(|d| Lie::Poly(si, d)));
        all.push(Lie::Cut(si));
    }
    for l in all {
        let r = reference::<K>(c, &f, &l);
        let v = verify::<K>(c, &r.proof, &f, &r.pos);
        n.fetch_add(1, Relaxed);
        acc.fetch_add(r.accept as u64, Relaxed);
        mc.check(v == Ok(r.accept), &format!("{key}:{l:?}"), || {
            format!("the protocol {} this proof, the verifier says {v:?}", if r.accept { "accepts" } else { "rejects" })
        });
    }
}
/// changes of the proof that the reference prover did not make
fn tamper<K: Kind>(mc: &Mc, c: &Conf, n: &AtomicU64) {
    let f = on(&poly(c, (1 << c.d) - 1, true), c.n, 49);
    let r = reference::<K>(c, &f, &Lie::None);
    let key = format!("{}:{c:?}", K::NAME);
    let test = |what: String, p: &FRIProof<F3G, K::M>| {
        n.fetch_add(1, Relaxed);
        // positions drawn after a change differ from r.pos: only the decision counts
        let v = guard(|| {
            let mut t = K::T::new();
            matches!(
                FRI::new(&c.par().ss(K::NAME)).verify::<F3G, K::M, K::T>(&mut t, p, |_, i| Ok(vec![f3(&f[i])])),
                Ok(true)
            )
        });
        mc.check(!matches!(v, Ok(true)), &format!("{key}:{what}"), || "a changed proof is accepted".into());
    };
    for si in 1..c.steps.len() {
        for q in 0..c.q {
            for e in 0..r.proof.queries[si].pol_queries[q][0].0.len() {
                let mut p = dup::<K>(&r.proof);
                let x = &mut p.queries[si].pol_queries[q][0].0[e];
                *x = *x + FGL::from(1u64);
                test(format!("layer {si} query {q} value {e}"), &p);
            }
            for q2 in 0..c.q {
                if r.proof.queries[si].pol_queries[q] != r.proof.queries[si].pol_queries[q2] {
                    let mut p = dup::<K>(&r.proof);
                    p.queries[si].pol_queries[q] = r.proof.queries[si].pol_queries[q2].clone();
                    test(format!("layer {si} query {q} answered by that of query {q2}"), &p);
                }
            }
        }
        for s2 in 1..c.steps.len() {
            if r.proof.queries[si].root != r.proof.queries[s2].root {
                let mut p = dup::<K>(&r.proof);
                p.queries[si].root = r.proof.queries[s2].root;
                test(format!("root of layer {si} replaced by that of layer {s2}"), &p);
            }
        }
    }
    for i in 0..r.proof.last.len() {
        for k in 0..3 {
            let mut p = dup::<K>(&r.proof);
            let mut e = e3(&p.last[i]);
            e[k] = refs::add(e[k], 1);
            p.last[i] = f3(&e);
            test(format!("last[{i}].{k}"), &p);
        }
    }
    // every other starting function than the proof's: one value
    for i in 0..f.len() {
        let mut g = f.clone();
        g[i] = refs::e3add(g[i], [0, 0, 1]);
        let v = verify::<K>(c, &r.proof, &g, &r.pos);
        let hit = r.pos.contains(&i);
        n.fetch_add(1, Relaxed);
        mc.check(v == Ok(!hit), &format!("{key}:other value at {i}"), || format!("{v:?}, opened: {hit}"));
    }
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    let (n, acc) = (AtomicU64::new(0), AtomicU64::new(0));
    let sec = |name: &str, confs: usize| {
        let (k, a) = (n.swap(0, Relaxed), acc.swap(0, Relaxed));
        mc.states(k);
        mc.traces(k);
        mc.transitions(k * 3);
        mc.evals(k, k - a);
        mc.section(name, json!({"configurations": confs, "proofs": k, "accepted": a}));
    };
    macro_rules! go {
        ($h:expr, $c:expr, $deg:expr, $dense:expr, $lies:expr) => {
            match $h {
                0 => one::<Gl>(mc, $c, $deg, $dense, $lies, &n, &acc),
                1 => one::<Bn>(mc, $c, $deg, $dense, $lies, &n, &acc),
                _ => one::<Bls>(mc, $c, $deg, $dense, $lies, &n, &acc),
            }
        };
    }
    for h in 0..3 {
        // every degree
        let cs = confs(if h == 0 { mc.pick(7, 9) } else { mc.pick(4, 6) }, &[1, 4]);
        let items: Vec<(usize, usize, bool)> = cs
            .iter()
            .enumerate()
            .flat_map(|(i, c)| {
                (0..1usize << c.n)
                    .filter(move |d| c.n < 6 || d.is_power_of_two() || (d + 1).is_power_of_two() || d % 5 == 0)
                    .flat_map(move |d| [(i, d, false), (i, d, true)])
            })
            .collect();
        spread(items, |(i, d, dense)| go!(h, &cs[i], d, dense, false));
        sec(&format!("every degree {}", ["GL", "BN128", "BLS12381"][h]), cs.len());
        // every departure
        let cs = confs(if h == 0 { mc.pick(5, 6) } else { mc.pick(4, 5) }, if h == 0 { &[1, 2, 4] } else { &[2] });
        let items: Vec<(usize, usize)> = cs
            .iter()
            .enumerate()
            .flat_map(|(i, c)| {
                let b = 1usize << c.d;
                [b - 1, b, (1 << c.n) - 1].into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().map(move |d| (i, d))
            })
            .collect();
        spread(items, |(i, d)| go!(h, &cs[i], d, true, true));
        sec(&format!("every departure {}", ["GL", "BN128", "BLS12381"][h]), cs.len());
        // every change
        let cs = confs(if h == 0 { mc.pick(5, 7) } else { mc.pick(4, 5) }, &[3]);
        let len = cs.len();
        spread(cs, |c| match h {
            0 => tamper::<Gl>(mc, &c, &n),
            1 => tamper::<Bn>(mc, &c, &n),
            _ => tamper::<Bls>(mc, &c, &n),
        });
        sec(&format!("every change {}", ["GL", "BN128", "BLS12381"][h]), len);
    }
    mc.rule("cells (size, degree bound, layer sizes, queries, polynomial, departure of the prover): the verifier's decision is the one computed from the committed layers and the drawn positions");
}
fn dup<K: Kind>(p: &FRIProof<F3G, K::M>) -> FRIProof<F3G, K::M> {
    FRIProof { queries: p.queries.clone(), last: p.last.clone() }
}
