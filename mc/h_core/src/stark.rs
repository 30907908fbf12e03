//! Drives the STARK prover and verifier under test on circuits of `air`.
use crate::air::*;
use crate::refs;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use starky::polsarray::{PolKind, PolsArray};
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::stark_verify::stark_verify;
use starky::traits::{MerkleTree, Transcript};
use starky::types::{StarkStruct, PIL};

#[derive(Clone, Debug, PartialEq)]
pub struct Par {
    pub bits: usize,
    pub ext: usize,
    pub queries: usize,
    pub steps: Vec<usize>,
}
impl Par {
    /// bits + e extension bits, given FRI steps after the first
    pub fn new(bits: usize, e: usize, queries: usize, rest: &[usize]) -> Self {
        let mut steps = vec![bits + e];
        steps.extend(rest);
        Par { bits, ext: bits + e, queries, steps }
    }
    pub fn ss(&self, hash: &str) -> StarkStruct {
        serde_json::from_value(json!({"nBits": self.bits, "nBitsExt": self.ext, "nQueries": self.queries,
            "verificationHashType": hash, "steps": self.steps.iter().map(|b| json!({"nBits": b})).collect::<Vec<_>>()}))
        .unwrap()
    }
    pub fn show(&self) -> String {
        format!("n=2^{} ext=2^{} q={} fri={:?}", self.bits, self.ext, self.queries, self.steps)
    }
}
/// every strictly decreasing list of FRI sizes from `ext` bits whose last is at least `min`
pub fn step_lists(ext: usize, min: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let cand: Vec<usize> = (min..ext).rev().collect();
    for m in 0..1u32 << cand.len() {
        out.push(cand.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, b)| *b).collect());
    }
    out
}

pub trait Kind: Send + Sync {
    type M: MerkleTree<ExtendField = starky::f3g::F3G, MTNode: Send + Sync, BaseField: Send + Sync> + Default + Serialize + DeserializeOwned + Send + Sync;
    type T: Transcript;
    const NAME: &'static str;
}
pub struct Gl;
pub struct Bn;
pub struct Bls;
impl Kind for Gl {
    type M = starky::merklehash::MerkleTreeGL;
    type T = starky::transcript::TranscriptGL;
    const NAME: &'static str = "GL";
}
impl Kind for Bn {
    type M = starky::merklehash_bn128::MerkleTreeBN128;
    type T = starky::transcript_bn128::TranscriptBN128;
    const NAME: &'static str = "BN128";
}
impl Kind for Bls {
    type M = starky::merklehash_bls12381::MerkleTreeBLS12381;
    type T = starky::transcript_bls12381::TranscriptBLS128;
    const NAME: &'static str = "BLS12381";
}
pub type Proof<K> = StarkProof<<K as Kind>::M>;

pub struct Inst<K: Kind> {
    pub pil: PIL,
    pub raw: PIL,
    pub setup: StarkSetup<K::M>,
    pub ss: StarkStruct,
}

pub fn fill(p: &mut PolsArray, cols: &[Vec<u64>]) {
    assert_eq!(p.nPols, cols.len());
    for (i, c) in cols.iter().enumerate() {
        assert_eq!(p.array[i].len(), c.len());
        for (j, v) in c.iter().enumerate() {
            p.array[i][j] = FGL::from(*v);
        }
    }
}

impl<K: Kind> Inst<K> {
    pub fn new(a: &Air, par: &Par) -> Result<Self, String> {
        let raw: PIL = serde_json::from_value(a.pil_json()).map_err(|e| e.to_string())?;
        let ss = par.ss(K::NAME);
        let l1 = a.l1.as_ref().and_then(|(s, _)| if s == "Global.L1" { None } else { Some(s.clone()) });
        let r = guard(|| {
            let mut pil = raw.clone();
            let mut c = PolsArray::new(&pil, PolKind::Constant);
            fill(&mut c, &a.k);
            let setup = StarkSetup::<K::M>::new(&c, &mut pil, &ss, l1).map_err(|e| e.to_string())?;
            Ok::<_, String>((pil, setup))
        });
        let (pil, setup) = r.map_err(|e| format!("setup panicked: {e}"))??;
        Ok(Inst { pil, raw, setup, ss })
    }
    pub fn prove(&self, a: &Air) -> Result<Proof<K>, String> {
        self.prove_as(a, "addr")
    }
    pub fn prove_as(&self, a: &Air, addr: &str) -> Result<Proof<K>, String> {
        guard(|| {
            let mut c = PolsArray::new(&self.raw, PolKind::Constant);
            fill(&mut c, &a.k);
            let mut w = PolsArray::new(&self.raw, PolKind::Commit);
            fill(&mut w, &a.w);
            StarkProof::<K::M>::stark_gen::<K::T>(
                w,
                c,
                &self.setup.const_tree,
                &self.setup.starkinfo,
                &self.setup.program,
                &self.pil,
                &self.ss,
                addr,
            )
            .map_err(|e| e.to_string())
        })
        .map_err(|e| format!("prover panicked: {e}"))?
    }
    /// Ok(accepted); a refusal with an error counts as not accepted
    pub fn verify(&self, p: &Proof<K>) -> Result<bool, String> {
        self.verify_with(p, &self.setup.const_root, &self.ss)
    }
    pub fn verify_with(
        &self,
        p: &Proof<K>,
        root: &<K::M as MerkleTree>::MTNode,
        ss: &StarkStruct,
    ) -> Result<bool, String> {
        let r = guard(|| stark_verify::<K::M, K::T>(p, root, &self.setup.starkinfo, ss, &self.setup.program));
        match r {
            Ok(Ok(b)) => Ok(b),
            Ok(Err(_)) => Ok(false),
            Err(e) => Err(format!("verifier panicked: {e}")),
        }
    }
    pub fn json(p: &Proof<K>) -> Value {
        serde_json::to_value(p).unwrap()
    }
    pub fn unjson(v: &Value) -> Result<Proof<K>, String> {
        match guard(|| serde_json::from_str::<Proof<K>>(&v.to_string())) {
            Ok(Ok(p)) => Ok(p),
            Ok(Err(e)) => Err(e.to_string()),
            Err(e) => Err(format!("panicked: {e}")),
        }
    }
}

/// prove and verify: Ok(accepted), the reason when the prover or setup gives up
pub fn outcome<K: Kind>(i: &Inst<K>, a: &Air) -> Result<bool, String> {
    let p = i.prove(a)?;
    i.verify(&p)
}

// ---------------------------------------------------------------- circuits

fn pw(x: u64, e: u64) -> u64 {
    refs::pow(x, e)
}
/// values over the whole field: small, large, and boundary ones
pub fn val(i: usize) -> u64 {
    match i % 5 {
        0 => i as u64,
        1 => refs::P - 1 - i as u64,
        2 => mix(i as u64) % refs::P,
        3 => 0xFFFF_FFFF + i as u64,
        _ => 1 << (i % 64),
    }
    .rem_euclid(refs::P)
}

/// Fibonacci-like recurrence on squares with publics of both kinds in the given order:
/// 0 = column at row 0, 1 = expression at row 0, 2 = column at the last row, 3 = expression inside
pub fn fib(bits: usize, order: &[usize]) -> Air {
    let mut a = Air::new(&format!("fib{order:?}"), bits);
    let n1 = a.rows() - 1;
    let l1 = a.kcol(|r| (r == 0) as u64);
    let ll = a.kcol(|r| (r == n1) as u64);
    let (mut x, mut y) = (vec![0u64; n1 + 1], vec![0u64; n1 + 1]);
    x[0] = 3;
    y[0] = refs::P - 5;
    for r in 1..=n1 {
        x[r] = refs::add(refs::mul(x[r - 1], x[r - 1]), refs::mul(y[r - 1], y[r - 1]));
        y[r] = x[r - 1];
    }
    a.w = vec![x, y];
    let e_sq = a.e(add(mul(cm(0), cm(0)), mul(cm(1), cm(1))));
    let e_id = a.e(cm(1));
    let e_mix = a.e(sub(mul(E(e_sq, false), cmn(1)), n(7)));
    for (i, o) in order.iter().enumerate() {
        match o {
            0 => {
                a.pubs.push((false, 0, 0));
                a.id(sub(mul(k(l1), sub(cm(0), Pub(i))), n(0)));
            }
            1 => {
                a.pubs.push((true, e_id, 0));
                a.id(mul(k(l1), sub(cm(1), Pub(i))));
            }
            2 => {
                a.pubs.push((false, 0, n1));
                a.id(mul(sub(cm(0), Pub(i)), k(ll)));
            }
            _ => {
                a.pubs.push((true, e_mix, 2 % (n1 + 1)));
            }
        }
    }
    a.id(mul(sub(cmn(1), cm(0)), sub(n(1), k(ll))));
    a.id(sub(mul(sub(cmn(0), E(e_sq, false)), sub(n(1), k(ll))), n(0)));
    a
}

/// column 1 = column 0 to the power d, the product associated as `shape` says
pub fn power(bits: usize, d: usize, shape: usize) -> Air {
    let mut a = Air::new(&format!("power{d}/{shape}"), bits);
    a.kcol(|r| val(r + 3));
    a.wcol(val);
    a.wcol(|r| pw(val(r), d as u64));
    let x = match shape {
        // left, right, balanced nesting, and through named expressions
        0 => (1..d).fold(cm(0), |p, _| mul(p, cm(0))),
        1 => (1..d).fold(cm(0), |p, _| mul(cm(0), p)),
        2 => {
            fn bal(d: usize) -> X {
                if d == 1 {
                    cm(0)
                } else {
                    mul(bal(d / 2), bal(d - d / 2))
                }
            }
            bal(d)
        }
        _ => {
            let mut e = a.e(cm(0));
            for _ in 1..d {
                e = a.e(mul(E(e, false), cm(0)));
            }
            E(e, false)
        }
    };
    a.id(sub(cm(1), x));
    a
}

/// affine constraints only: nothing to divide by the vanishing polynomial
pub fn affine(bits: usize) -> Air {
    let mut a = Air::new("affine", bits);
    a.kcol(|r| val(r + 9));
    a.wcol(val);
    a.wcol(|r| refs::add(refs::mul(3, val(r)), val(r + 9)));
    let nn = a.rows();
    a.wcol(|r| refs::sub(val((r + 1) % nn), 5));
    a.id(sub(cm(1), add(mul(n(3), cm(0)), k(0))));
    a.id(sub(sub(cmn(0), n(5)), cm(2)));
    a
}

/// an identity among the constants only, and one that cancels
pub fn trivial(bits: usize, shape: usize) -> Air {
    let mut a = Air::new(&format!("trivial{shape}"), bits);
    a.kcol(|r| val(r + 9));
    a.kcol(|r| refs::mul(val(r + 9), val(r + 9)));
    a.wcol(val);
    match shape {
        2 => a.id(sub(k(1), mul(k(0), k(0)))),
        _ => a.id(sub(cm(0), cm(0))),
    };
    a
}

/// every operator, literals in every notation, next-row references to named expressions
pub fn syntax(bits: usize) -> Air {
    let mut a = Air::new("syntax", bits);
    let nn = a.rows();
    a.kcol(|r| val(r + 1));
    a.wcol(|r| val(r + 17));
    let e0 = a.e(mul(cm(0), k(0)));
    let e1 = a.e(add(E(e0, false), N("-3".into())));
    let e2 = a.e(neg(sub(N("0xff".into()), K(0, true))));
    let c = |r: usize| refs::mul(val(r % nn + 17), val(r % nn + 1));
    a.wcol(|r| refs::add(refs::sub(c(r + 1), 3), refs::mul(2, c(r))));
    a.wcol(|r| refs::sub(val((r + 1) % nn + 1), 255));
    a.wcol(|r| refs::mul(refs::sub(c(r), 3), val(r + 17)));
    a.wcol(|r| refs::neg(refs::add(refs::mul(val(r + 17), refs::P - 9), 11)));
    a.id(sub(cm(1), add(E(e1, true), mul(n(2), E(e0, false)))));
    a.id(sub(E(e2, false), cm(2)));
    a.id(sub(mul(E(e1, false), cm(0)), cm(3)));
    a.id(add(AddC(Box::new(MulC(Box::new(cm(0)), -9)), 11), cm(4)));
    a.id(mul(N("18446744069414584322".into()), sub(cm(3), mul(cm(0), E(e1, false)))));
    a
}

/// an array column of three and a single column, constants as an array too
pub fn arrays(bits: usize) -> Air {
    let mut a = Air::new("arrays", bits);
    for j in 0..2 {
        a.kcol(|r| val(r * 2 + j));
    }
    for j in 0..3 {
        a.wcol(|r| val(r * 3 + j));
    }
    a.wcol(|r| {
        refs::add(
            refs::mul(refs::mul(val(r * 3), val(r * 3 + 1)), val(r * 2)),
            refs::mul(val(r * 3 + 2), val(r * 2 + 1)),
        )
    });
    a.arrays = vec![(true, 0, 2), (false, 0, 3)];
    a.id(sub(add(mul(mul(cm(0), cm(1)), k(0)), mul(cm(2), k(1))), cm(3)));
    a
}

/// lookup of `cols`-tuples; sel bit 0: selector on the left, bit 1: on the right
pub fn lookup(bits: usize, cols: usize, sel: usize, committed_table: bool) -> Air {
    let mut a = Air::new(&format!("lookup{cols}/sel{sel}{}", if committed_table { "/w" } else { "" }), bits);
    let nn = a.rows();
    a.global_l1();
    let tv = |r: usize, j: usize| val(r / 2 * 7 + j); // repeated rows
    let tcol: Vec<usize> = (0..cols)
        .map(|j| if committed_table { a.wcol(|r| tv(r, j)) } else { a.kcol(|r| tv(r, j)) })
        .collect();
    let ks = (sel & 2 != 0).then(|| a.kcol(|r| (r % 4 != 3) as u64));
    let pick = |r: usize| {
        let mut t = (r * 5 + 2) % nn;
        if sel & 2 != 0 && t % 4 == 3 {
            t -= 1;
        }
        t
    };
    let on = |r: usize| sel & 1 == 0 || r % 3 != 1;
    let fcol: Vec<usize> =
        (0..cols).map(|j| a.wcol(|r| if on(r) { tv(pick(r), j) } else { 1000 + r as u64 })).collect();
    let ws = (sel & 1 != 0).then(|| a.wcol(|r| on(r) as u64));
    let f = fcol.iter().map(|i| a.e(cm(*i))).collect();
    let t = tcol.iter().map(|i| a.e(if committed_table { cm(*i) } else { k(*i) })).collect();
    let sf = ws.map(|i| a.e(cm(i)));
    let st = ks.map(|i| a.e(k(i)));
    a.pu.push(Lk { f, t, sf, st });
    a
}

/// permutation of `cols`-tuples with selectors on either side
pub fn perm(bits: usize, cols: usize, sel: usize) -> Air {
    let mut a = Air::new(&format!("perm{cols}/sel{sel}"), bits);
    let nn = a.rows();
    a.global_l1();
    let v = |r: usize, j: usize| val(r / 2 * 11 + j);
    let m = nn / 2;
    // sel 0: all rows; sel 3: half of the rows on each side, at different places
    let (fr, tr): (Vec<Option<usize>>, Vec<Option<usize>>) = match sel {
        0 => ((0..nn).map(Some).collect(), (0..nn).map(|r| Some((r * 3 + 1) % nn)).collect()),
        _ => (
            (0..nn).map(|r| (r % 2 == 0).then_some(r / 2)).collect(),
            (0..nn).map(|r| (r >= m).then_some((r - m + 1) % m)).collect(),
        ),
    };
    let fc: Vec<usize> = (0..cols).map(|j| a.wcol(|r| fr[r].map(|i| v(i, j)).unwrap_or(77 + r as u64))).collect();
    let tc: Vec<usize> = (0..cols).map(|j| a.wcol(|r| tr[r].map(|i| v(i, j)).unwrap_or(99 + r as u64))).collect();
    let (ws, wt) = if sel != 0 {
        (Some(a.wcol(|r| fr[r].is_some() as u64)), Some(a.wcol(|r| tr[r].is_some() as u64)))
    } else {
        (None, None)
    };
    let f = fc.iter().map(|i| a.e(cm(*i))).collect();
    let t = tc.iter().map(|i| a.e(cm(*i))).collect();
    let sf = ws.map(|i| a.e(cm(i)));
    let st = wt.map(|i| a.e(cm(i)));
    a.pe.push(Lk { f, t, sf, st });
    a
}

/// copy constraints over `cols` columns along cycles of cells
pub fn conn(bits: usize, cols: usize) -> Air {
    let mut a = Air::new(&format!("conn{cols}"), bits);
    let nn = a.rows();
    let tot = cols * nn;
    a.global_l1();
    // cycles of three consecutive cells (in a column-major order), the rest are fixed points
    let nxt = |i: usize| if i / 3 * 3 + 2 < tot { i / 3 * 3 + (i % 3 + 1) % 3 } else { i };
    let s = conn_consts(bits, cols, |c, r| {
        let i = nxt(r * cols + c);
        (i % cols, i / cols)
    });
    let ks: Vec<usize> = s
        .into_iter()
        .map(|c| {
            a.k.push(c);
            a.k.len() - 1
        })
        .collect();
    for c in 0..cols {
        a.wcol(|r| val((r * cols + c) / 3 + 2 * tot * ((r * cols + c) / 3 * 3 + 2 >= tot) as usize * (r + c + 1)));
    }
    let p = (0..cols).map(|c| a.e(cm(c))).collect();
    let s = ks.iter().map(|i| a.e(k(*i))).collect();
    a.ci.push((p, s));
    a
}

/// joins several circuits of the same size into one
pub fn join(parts: Vec<Air>) -> Air {
    let mut a = Air::new(&parts.iter().map(|p| p.name.as_str()).collect::<Vec<_>>().join("+"), parts[0].bits);
    for p in parts {
        // the join keeps at most one copy of the first-row constant
        let (k0, w0, e0, p0) = (a.k.len(), a.w.len(), a.ex.len(), a.pubs.len());
        fn sh(x: &X, k0: usize, w0: usize, e0: usize, p0: usize) -> X {
            let b = |y: &X| Box::new(sh(y, k0, w0, e0, p0));
            match x {
                Cm(i, n) => Cm(i + w0, *n),
                K(i, n) => K(i + k0, *n),
                N(s) => N(s.clone()),
                Pub(i) => Pub(i + p0),
                E(i, n) => E(i + e0, *n),
                Add(x, y) => Add(b(x), b(y)),
                Sub(x, y) => Sub(b(x), b(y)),
                Mul(x, y) => Mul(b(x), b(y)),
                Neg(x) => Neg(b(x)),
                AddC(x, c) => AddC(b(x), *c),
                MulC(x, c) => MulC(b(x), *c),
            }
        }
        if a.l1.is_none() {
            a.l1 = p.l1.as_ref().map(|(s, i)| (s.clone(), i + k0));
        }
        let lk = |l: &Lk| Lk {
            f: l.f.iter().map(|e| e + e0).collect(),
            t: l.t.iter().map(|e| e + e0).collect(),
            sf: l.sf.map(|e| e + e0),
            st: l.st.map(|e| e + e0),
        };
        a.pubs.extend(p.pubs.iter().map(|(im, id, r)| (*im, id + if *im { e0 } else { w0 }, *r)));
        a.ex.extend(p.ex.iter().map(|x| sh(x, k0, w0, e0, p0)));
        a.ids.extend(p.ids.iter().map(|e| e + e0));
        a.pu.extend(p.pu.iter().map(lk));
        a.pe.extend(p.pe.iter().map(lk));
        a.ci.extend(p.ci.iter().map(|(x, y)| {
            (x.iter().map(|e| e + e0).collect(), y.iter().map(|e| e + e0).collect())
        }));
        a.arrays.extend(p.arrays.iter().map(|(c, i, l)| (*c, i + if *c { k0 } else { w0 }, *l)));
        a.idq.extend(p.idq.iter().map(|e| e + e0));
        a.keep.extend(p.keep.iter().map(|e| e + e0));
        a.k.extend(p.k);
        a.w.extend(p.w);
    }
    a
}

/// a lookup and a permutation whose columns are products and next-row values, selected by expressions
pub fn rich(bits: usize) -> Air {
    let mut a = Air::new("rich", bits);
    let nn = a.rows();
    a.global_l1();
    let t0 = a.kcol(|r| r as u64);
    let t1 = a.kcol(|r| (r * r) as u64);
    let x = a.wcol(|r| ((r * 3 + 1) % nn) as u64);
    let y = a.wcol(|r| (r % 2) as u64);
    // (x', x'^2) is in the table of squares where y
    let f0 = a.e(cmn(x));
    let f1 = a.e(mul(cmn(x), cmn(x)));
    let (e0, e1) = (a.e(k(t0)), a.e(k(t1)));
    let sy = a.e(cm(y));
    a.pu.push(Lk { f: vec![f0, f1], t: vec![e0, e1], sf: Some(sy), st: None });
    // x*2+1 is a permutation of 2*row+1
    let g = a.e(add(mul(n(2), cm(x)), n(1)));
    let h = a.e(add(mul(k(t0), n(2)), n(1)));
    a.pe.push(Lk { f: vec![g], t: vec![h], sf: None, st: None });
    a.id(mul(cm(y), sub(cm(y), n(1))));
    a
}

/// whether the extension leaves room for the constraints: inline products cannot be split
pub fn fits(a: &Air, e: usize) -> bool {
    fn inline(x: &X) -> usize {
        match x {
            Cm(..) | K(..) | E(..) => 1,
            N(_) | Pub(_) => 0,
            Add(x, y) | Sub(x, y) => inline(x).max(inline(y)),
            Mul(x, y) => inline(x) + inline(y),
            Neg(x) | AddC(x, _) | MulC(x, _) => inline(x),
        }
    }
    a.ex.iter().all(|x| inline(x) <= (1 << e) + 1)
}

/// the circuits every STARK check walks
pub fn airs(bits: usize) -> Vec<Air> {
    let mut v = vec![
        fib(bits, &[1, 0, 2]),
        fib(bits, &[]),
        fib(bits, &[0, 1, 2, 3]),
        fib(bits, &[2, 0, 3, 1]),
        fib(bits, &[0]),
        affine(bits),
        syntax(bits),
        arrays(bits),
    ];
    v.extend([2, 3].map(|s| trivial(bits, s)));
    for d in 2..=5 {
        for s in 0..4 {
            v.push(power(bits, d, s));
        }
    }
    for c in 1..=3 {
        for s in 0..4 {
            v.push(lookup(bits, c, s, false));
        }
    }
    v.push(lookup(bits, 2, 1, true));
    v.push(lookup(bits, 1, 0, true));
    for c in 1..=3 {
        v.push(perm(bits, c, 0));
        v.push(perm(bits, c, 3));
    }
    for c in 1..=4 {
        v.push(conn(bits, c));
    }
    v.push(rich(bits));
    v.push(join(vec![lookup(bits, 2, 3, false), perm(bits, 1, 0)]));
    v.push(join(vec![perm(bits, 2, 3), conn(bits, 2)]));
    v.push(join(vec![lookup(bits, 1, 0, false), lookup(bits, 2, 1, false)]));
    v.push(join(vec![conn(bits, 2), conn(bits, 3)]));
    v.push(join(vec![perm(bits, 1, 0), perm(bits, 2, 3)]));
    v.push(join(vec![lookup(bits, 1, 1, false), power(bits, 4, 0)]));
    v.push(join(vec![perm(bits, 1, 0), power(bits, 3, 3), power(bits, 5, 2)]));
    v.push(join(vec![
        fib(bits, &[0, 1, 2]),
        lookup(bits, 2, 3, false),
        perm(bits, 2, 3),
        conn(bits, 3),
        power(bits, 4, 3),
        syntax(bits),
        arrays(bits),
    ]));
    v
}
