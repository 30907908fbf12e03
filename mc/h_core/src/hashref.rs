//! Reference row hashing, Merkle trees and sponges, written from their definitions over the
//! reference permutations of `bigf`; with memoisation, since histories share prefixes.
use rayon::prelude::*;
use crate::bigf::*;
use crate::p04_poseidon::*;
use crate::refs;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub fn glc() -> &'static Vec<u64> {
    static C: OnceLock<Vec<u64>> = OnceLock::new();
    C.get_or_init(gl_constants)
}
/// Goldilocks permutation on 8 inputs and 4 capacity words
pub fn gl_perm(inp: &[u64], cap: &[u64; 4]) -> [u64; 12] {
    static M: OnceLock<Mutex<HashMap<[u64; 12], [u64; 12]>>> = OnceLock::new();
    let mut s = [0u64; 12];
    s[..inp.len()].copy_from_slice(inp);
    s[8..].copy_from_slice(cap);
    let m = M.get_or_init(Default::default);
    if let Some(r) = m.lock().unwrap().get(&s) {
        return *r;
    }
    let r = gl_permute(glc(), &s);
    let mut g = m.lock().unwrap();
    if g.len() < 400_000 {
        g.insert(s, r);
    }
    r
}
/// sponge over blocks of 8, capacity chained; up to 4 elements are their own digest
pub fn gl_sponge(v: &[u64]) -> [u64; 4] {
    let mut st = [0u64; 4];
    if v.len() <= 4 {
        st[..v.len()].copy_from_slice(v);
        return st;
    }
    for b in v.chunks(8) {
        st = gl_perm(b, &st)[..4].try_into().unwrap();
    }
    st
}
/// row hash: chunks of `bs` (default max(8, ceil(n/4))) are hashed, and their digests hashed
pub fn gl_row(v: &[u64], bs: usize) -> [u64; 4] {
    if v.len() <= 4 {
        return gl_sponge(v);
    }
    let bs = if bs == 0 { usize::max(8, (v.len() + 3) / 4) } else { bs };
    let mut h = vec![];
    for c in v.chunks(bs) {
        h.extend(gl_sponge(c));
    }
    gl_sponge(&h)
}
pub struct GlTree {
    /// levels[0] = leaves
    pub levels: Vec<Vec<[u64; 4]>>,
}
pub fn gl_node(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    gl_perm(&[a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]], &[0; 4])[..4].try_into().unwrap()
}
impl GlTree {
    pub fn new(rows: &[Vec<u64>]) -> Self {
        let mut levels = vec![rows.iter().map(|r| gl_row(r, 0)).collect::<Vec<_>>()];
        while levels.last().unwrap().len() > 1 {
            let l = levels.last_mut().unwrap();
            if l.len() % 2 == 1 {
                l.push([0; 4]);
            }
            let n = l.chunks(2).map(|c| gl_node(&c[0], &c[1])).collect();
            levels.push(n);
        }
        GlTree { levels }
    }
    pub fn root(&self) -> [u64; 4] {
        self.levels.last().unwrap()[0]
    }
    pub fn path(&self, idx: usize) -> Vec<[u64; 4]> {
        (0..self.levels.len() - 1).map(|l| self.levels[l][(idx >> l) ^ 1]).collect()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Curve {
    Bn,
    Bls,
}
pub struct Inst {
    pub f: Mp,
    pub p: U4,
    pub specs: Vec<Spec>,
    pub digest: usize,
    memo: Mutex<HashMap<Vec<U4>, Vec<U4>>>,
}
pub fn inst(c: Curve) -> &'static Inst {
    static B: OnceLock<Inst> = OnceLock::new();
    static L: OnceLock<Inst> = OnceLock::new();
    match c {
        Curve::Bn => B.get_or_init(|| Inst { f: Mp::new(BN), p: BN, specs: specs_bn(), digest: 0, memo: Default::default() }),
        Curve::Bls => L.get_or_init(|| Inst { f: Mp::new(BLS), p: BLS, specs: specs_bls(), digest: 1, memo: Default::default() }),
    }
}
impl Inst {
    /// permutation of state ‖ inputs
    pub fn perm(&self, st: &U4, inp: &[U4]) -> Vec<U4> {
        let mut k = vec![*st];
        k.extend_from_slice(inp);
        if let Some(r) = self.memo.lock().unwrap().get(&k) {
            return r.clone();
        }
        let r = permute(&self.f, &self.specs[inp.len() - 1], &k);
        let mut g = self.memo.lock().unwrap();
        if g.len() < 200_000 {
            g.insert(k, r.clone());
        }
        r
    }
    pub fn hash(&self, st: &U4, inp: &[U4]) -> U4 {
        self.perm(st, inp)[self.digest]
    }
    /// packs 3 Goldilocks elements per scalar, then chains blocks of 16
    pub fn row(&self, v: &[u64]) -> U4 {
        let packed: Vec<U4> = v
            .chunks(3)
            .map(|c| {
                let mut u = [0u64; 4];
                u[..c.len()].copy_from_slice(c);
                u
            })
            .collect();
        match packed.len() {
            0 => [0; 4],
            1 => packed[0],
            _ => packed.chunks(16).fold([0; 4], |st, b| self.hash(&st, b)),
        }
    }
    /// levels of the 16-ary tree, padded with zero
    pub fn tree(&self, rows: &[Vec<u64>]) -> Vec<Vec<U4>> {
        let mut levels = vec![rows.par_iter().map(|r| self.row(r)).collect::<Vec<_>>()];
        while levels.last().unwrap().len() > 1 {
            let l = levels.last_mut().unwrap();
            while l.len() % 16 != 0 {
                l.push([0; 4]);
            }
            let n = l.par_chunks(16).map(|c| self.hash(&[0; 4], c)).collect();
            levels.push(n);
        }
        levels
    }
}
/// distinct non-structured Goldilocks element
pub fn m(s: u64) -> u64 {
    mc_common::mix(s) % refs::P
}
