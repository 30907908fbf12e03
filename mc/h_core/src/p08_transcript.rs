//! P08: the Fiat-Shamir transcripts are duplex sponges over their permutations: every sequence of
//! absorb/squeeze operations up to a depth is run on the real transcript and on the reference
//! sponge, all outputs compared; and from every history, changing one absorbed element changes
//! every later challenge.
use crate::bigf::*;
use crate::hashref::*;
use crate::p04_poseidon::*;
use crate::p05_rowhash::fgl;
use crate::refs;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use rayon::prelude::*;
use serde_json::json;
use starky::f3g::F3G;
use starky::traits::{FieldExtension, Transcript};
use starky::transcript::TranscriptGL;
use starky::transcript_bls12381::TranscriptBLS128;
use starky::transcript_bn128::TranscriptBN128;
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// absorb k single elements, one call each
    Put1(usize),
    /// absorb k single elements in one call
    PutN(usize),
    /// absorb one 4-element digest
    PutD,
    /// absorb two digests and an element, one call
    PutMix,
    Get1(usize),
    Get3,
    Perm(usize, usize),
}
use Op::*;

/// model: a duplex sponge
trait Model {
    fn new() -> Self;
    fn absorb(&mut self, e: &[u64]);
    fn get1(&mut self) -> u64;
    fn perm(&mut self, n: usize, bits: usize) -> Vec<usize>;
}
#[derive(Default)]
struct MGl {
    st: [u64; 4],
    pend: Vec<u64>,
    out: Vec<u64>,
}
impl MGl {
    fn duplex(&mut self) {
        let r = gl_perm(&self.pend.split_off(0), &self.st);
        self.st = r[..4].try_into().unwrap();
        self.out = r.to_vec();
    }
}
fn bits_of(words: &[U4], per: usize, n: usize, bits: usize) -> Vec<usize> {
    let stream = |i: usize| (words[i / per][(i % per) / 64] >> ((i % per) % 64) & 1) as usize;
    (0..n).map(|k| (0..bits).map(|b| stream(k * bits + b) << b).sum()).collect()
}
impl Model for MGl {
    fn new() -> Self {
        Self::default()
    }
    fn absorb(&mut self, e: &[u64]) {
        for x in e {
            self.out.clear();
            self.pend.push(*x);
            if self.pend.len() == 8 {
                self.duplex();
            }
        }
    }
    fn get1(&mut self) -> u64 {
        if self.out.is_empty() {
            self.duplex();
        }
        self.out.remove(0)
    }
    fn perm(&mut self, n: usize, bits: usize) -> Vec<usize> {
        let k = (n * bits + 62) / 63;
        let w: Vec<U4> = (0..k).map(|_| [self.get1(), 0, 0, 0]).collect();
        bits_of(&w, 63, n, bits)
    }
}
struct MCurve<const B: bool> {
    st: U4,
    pend: Vec<U4>,
    out: Vec<U4>,
    words: Vec<u64>,
}
impl<const B: bool> MCurve<B> {
    fn ins() -> &'static Inst {
        inst(if B { Curve::Bls } else { Curve::Bn })
    }
    fn duplex(&mut self) {
        let mut p = self.pend.split_off(0);
        p.resize(16, [0; 4]);
        self.out = Self::ins().perm(&self.st, &p);
        self.words.clear();
        self.st = self.out[0];
    }
    fn out1(&mut self) -> U4 {
        if self.out.is_empty() {
            self.duplex();
        }
        self.out.remove(0)
    }
}
impl<const B: bool> Model for MCurve<B> {
    fn new() -> Self {
        MCurve { st: [0; 4], pend: vec![], out: vec![], words: vec![] }
    }
    fn absorb(&mut self, e: &[u64]) {
        self.out.clear();
        self.words.clear();
        let x = match e.len() {
            1 => [e[0], 0, 0, 0],
            // a digest is the Montgomery image of a scalar
            _ => Self::ins().f.from_m(&[e[0], e[1], e[2], e[3]]),
        };
        self.pend.push(x);
        if self.pend.len() == 16 {
            self.duplex();
        }
    }
    fn get1(&mut self) -> u64 {
        if self.words.is_empty() {
            let v = self.out1();
            self.words = v[..3].iter().map(|x| x % refs::P).collect();
        }
        self.words.remove(0)
    }
    fn perm(&mut self, n: usize, bits: usize) -> Vec<usize> {
        let k = (n * bits + 252) / 253;
        let w: Vec<U4> = (0..k).map(|_| self.out1()).collect();
        bits_of(&w, 253, n, bits)
    }
}

/// the elements absorbed by the i-th operation; digests keep every limb canonical and < the curve orders
fn val(ctr: &mut u64) -> u64 {
    *ctr += 1;
    match *ctr % 7 {
        3 => refs::P - 1,
        5 => 0,
        _ => m(*ctr),
    }
}
fn digest(ctr: &mut u64) -> Vec<u64> {
    *ctr += 1;
    vec![m(*ctr + 100), m(*ctr + 200), m(*ctr + 300), m(*ctr + 400) >> 4]
}
fn puts(op: &Op, ctr: &mut u64) -> Vec<Vec<Vec<u64>>> {
    match op {
        Put1(k) => (0..*k).map(|_| vec![vec![val(ctr)]]).collect(),
        PutN(k) => vec![(0..*k).map(|_| vec![val(ctr)]).collect()],
        PutD => vec![vec![digest(ctr)]],
        PutMix => vec![vec![digest(ctr), vec![val(ctr)], digest(ctr)]],
        _ => vec![],
    }
}
/// runs a history; `bump` = (which absorbed element, limb) is incremented
fn run_real<T: Transcript>(ops: &[Op], bump: Option<(usize, usize)>) -> Vec<Vec<u64>> {
    let mut t = T::new();
    let mut ctr = 0;
    let mut seen = 0;
    let mut o = vec![];
    for op in ops {
        for call in puts(op, &mut ctr) {
            let v: Vec<Vec<FGL>> = call
                .iter()
                .map(|e| {
                    let mut e = fgl(e);
                    if let Some((k, l)) = bump {
                        if k == seen {
                            let l = l % e.len();
                            e[l] = e[l] + FGL::ONE;
                        }
                    }
                    seen += 1;
                    e
                })
                .collect();
            t.put(&v).unwrap();
        }
        match op {
            Get1(k) => o.push((0..*k).map(|_| t.get_fields1().unwrap().as_int()).collect()),
            Get3 => o.push(t.get_field::<F3G>().as_elements().iter().map(|x| x.as_int()).collect()),
            Perm(n, b) => o.push(t.get_permutations(*n, *b).unwrap().iter().map(|x| *x as u64).collect()),
            _ => {}
        }
    }
    o
}
fn run_model<M: Model>(ops: &[Op]) -> Vec<Vec<u64>> {
    let mut t = M::new();
    let mut ctr = 0;
    let mut o = vec![];
    for op in ops {
        for call in puts(op, &mut ctr) {
            for e in call {
                t.absorb(&e);
            }
        }
        match op {
            Get1(k) => o.push((0..*k).map(|_| t.get1()).collect()),
            Get3 => o.push((0..3).map(|_| t.get1()).collect()),
            Perm(n, b) => o.push(t.perm(*n, *b).iter().map(|x| *x as u64).collect()),
            _ => {}
        }
    }
    o
}

fn explore<T: Transcript, M: Model>(mc: &Mc, name: &str, al: &[Op], depth: usize, sens: usize) {
    let k = al.len();
    let mut total = 0u64;
    let mut sensn = 0u64;
    for d in 1..=depth {
        let hist: Vec<Vec<Op>> = (0..k.pow(d as u32))
            .map(|i| (0..d).map(|j| al[i / k.pow(j as u32) % k].clone()).collect::<Vec<_>>())
            // histories are compared at their squeezes: the last operation is one
            .filter(|h| matches!(h.last(), Some(Get1(_) | Get3 | Perm(..))))
            .collect();
        total += hist.len() as u64;
        hist.par_iter().for_each(|h| {
            let g = guard(|| run_real::<T>(h, None));
            let w = run_model::<M>(h);
            mc.check(g.as_ref() == Ok(&w), name, || format!("history {h:?}: {g:x?} want {w:x?}"));
        });
        if d <= sens {
            let n: u64 = hist
                .par_iter()
                .map(|h| {
                    // number of elements absorbed before each squeeze
                    let mut ctr = 0;
                    let mut before = vec![];
                    let mut widths = vec![];
                    for op in h {
                        for c in puts(op, &mut ctr) {
                            widths.extend(c.iter().map(|e| e.len()));
                        }
                        if matches!(op, Get1(_) | Get3 | Perm(..)) {
                            before.push(widths.len());
                        }
                    }
                    let base = run_real::<T>(h, None);
                    let mut n = 0;
                    for (k, wd) in widths.iter().enumerate() {
                        for l in 0..*wd {
                            let o = run_real::<T>(h, Some((k, l)));
                            n += 1;
                            for (q, b) in before.iter().enumerate() {
                                let big = base[q].len() > 1 || base[q].iter().any(|x| *x > 1 << 20);
                                if *b > k {
                                    mc.check(!big || o[q] != base[q], &format!("{name}:binding"), || format!("history {h:?}: squeeze {q} does not depend on absorbed element {k}, limb {l}"));
                                } else {
                                    mc.check(o[q] == base[q], &format!("{name}:causal"), || format!("history {h:?}: squeeze {q} depends on the later element {k}"));
                                }
                            }
                        }
                    }
                    n
                })
                .sum();
            sensn += n;
        }
    }
    mc.states(total);
    mc.transitions(total * depth as u64);
    mc.traces(total + sensn);
    mc.evals(total + sensn, total + sensn);
    mc.section(name, json!({"operations": k, "depth": depth, "histories": total, "single-element changes": sensn}));
}

pub fn run_gl(mc: &Mc) {
    let gl = [Put1(1), PutN(7), PutN(8), PutD, PutMix, Get1(1), Get3, Get1(12), Perm(8, 8), Perm(1, 63), Perm(13, 17)];
    explore::<TranscriptGL, MGl>(mc, "transcript-gl", &gl, mc.pick(5, 6), mc.pick(4, 4));
}
pub fn run(mc: &Mc) {
    mc.rule("all histories of absorb/squeeze operations up to the depth ending in a squeeze; each is a different history");
    run_gl(mc);
    let cv = [Put1(1), PutN(15), PutD, PutMix, Get1(1), Get3, Perm(8, 8), Perm(3, 253), Get1(52)];
    explore::<TranscriptBN128, MCurve<false>>(mc, "transcript-bn128", &cv, mc.pick(5, 6), mc.pick(4, 4));
    explore::<TranscriptBLS128, MCurve<true>>(mc, "transcript-bls12381", &cv, mc.pick(5, 6), mc.pick(4, 4));
    // query positions: all (n, bits) pairs, from a fresh and from a squeezed transcript
    let mut pairs = vec![];
    for n in 1..=mc.pick(40, 130) {
        for b in 1..=mc.pick(30, 52) {
            pairs.push((n, b));
        }
    }
    pairs.par_iter().for_each(|(n, b)| {
        for h in [vec![PutN(3), Perm(*n, *b), Get1(2)], vec![PutN(3), Get3, Perm(*n, *b), Get3]] {
            let g = guard(|| run_real::<TranscriptGL>(&h, None));
            let w = run_model::<MGl>(&h);
            mc.check(g.as_ref() == Ok(&w), "permutations-gl", || format!("{h:?}: {g:x?} want {w:x?}"));
            mc.check(g.iter().all(|o| o[h.len() - 3].iter().all(|x| *x < 1 << b)), "permutations-gl:range", || format!("{h:?}"));
            if (n + b) % mc.pick(5, 2) == 0 || n * b % 253 < 4 {
                let g = guard(|| run_real::<TranscriptBN128>(&h, None));
                let w = run_model::<MCurve<false>>(&h);
                mc.check(g.as_ref() == Ok(&w), "permutations-bn128", || format!("{h:?}: {g:x?} want {w:x?}"));
                let g = guard(|| run_real::<TranscriptBLS128>(&h, None));
                let w = run_model::<MCurve<true>>(&h);
                mc.check(g.as_ref() == Ok(&w), "permutations-bls12381", || format!("{h:?}: {g:x?} want {w:x?}"));
            }
        }
    });
    mc.states(pairs.len() as u64 * 2);
    mc.traces(pairs.len() as u64 * 2);
    mc.section("query positions", json!({"(n, bits) pairs": pairs.len()}));
    // long runs: every number of absorbed elements and of squeezed ones
    let lens: Vec<(usize, usize)> = (0..=mc.pick(40, 80)).flat_map(|a| (1..=mc.pick(30, 60)).map(move |g| (a, g))).collect();
    lens.par_iter().for_each(|(a, g)| {
        let h = vec![PutN(*a), Get1(*g), Put1(1), Get1(1)];
        let r = guard(|| run_real::<TranscriptGL>(&h, None));
        mc.check(r.as_ref() == Ok(&run_model::<MGl>(&h)), "transcript-gl:runs", || format!("{h:?}"));
        if *g % 10 == 1 {
            let r = guard(|| run_real::<TranscriptBN128>(&h, None));
            mc.check(r.as_ref() == Ok(&run_model::<MCurve<false>>(&h)), "transcript-bn128:runs", || format!("{h:?}"));
            let r = guard(|| run_real::<TranscriptBLS128>(&h, None));
            mc.check(r.as_ref() == Ok(&run_model::<MCurve<true>>(&h)), "transcript-bls12381:runs", || format!("{h:?}"));
        }
    });
    mc.states(lens.len() as u64);
    mc.traces(lens.len() as u64);
    // different messages give different challenges: all messages over {0,1,p-1} of one length
    for l in 1..=mc.pick(7, 9) {
        let s: Vec<Vec<u64>> = (0..3usize.pow(l as u32))
            .into_par_iter()
            .map(|i| {
                let mut t = TranscriptGL::new();
                let v: Vec<Vec<FGL>> = (0..l).map(|j| fgl(&[[0u64, 1, refs::P - 1][i / 3usize.pow(j as u32) % 3]])).collect();
                t.put(&v).unwrap();
                t.get_field::<F3G>().as_elements().iter().map(|x| x.as_int()).collect()
            })
            .collect();
        let u: HashSet<_> = s.iter().collect();
        mc.check(u.len() == s.len(), "transcript-gl:collision", || format!("length {l}"));
        mc.states(s.len() as u64);
    }
    mc.sample(json!({"history": "PutN(7), Get1(1), PutD, Perm(8,8), Get3"}));
    mc.sample(json!({"history": "Get1(1), PutMix, Perm(3,253), Get1(1)", "transcript": "bn128"}));
    mc.assume("the BN128/BLS12-381 transcripts absorb single elements and 4-limb digests only (other lengths are refused)");
}
