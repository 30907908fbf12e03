//! The verifier circuits written by `pil2circom`, interpreted: on every proof, altered proof, key
//! and stage they accept what the native verifier accepts. The gadgets of `stark-circuits` compute
//! what the native code computes, and no other choice of an unconstrained value passes.
use crate::air::*;
use crate::circom::*;
use crate::hashref::{self, Curve};
use crate::p12_tamper::spread;
use crate::p13_traces::ext_of;
use crate::refs;
use crate::stark::*;
use mc_common::*;
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use serde_json::{json, Value};
use starky::pil2circom::{pil2circom, StarkOption};
use starky::traits::MerkleTree;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;

const P: u64 = refs::P;

// ------------------------------------------------------------------ what has no circom text here

type Ports = &'static [(&'static str, usize)];
fn u(v: &BigUint) -> u64 {
    v.to_u64().unwrap()
}
fn us(v: &Val) -> Vec<u64> {
    let mut f = vec![];
    v.flat(&mut f);
    f.iter().map(u).collect()
}
fn rows(v: &Val) -> Res<Vec<Vec<u64>>> {
    v.arr()?.iter().map(|x| Ok(us(x))).collect()
}
fn sigs(v: &[u64]) -> Val {
    Val::signals(v.iter().map(|x| BigUint::from(*x)).collect())
}
fn need_dims(name: &str, what: &str, v: &Val, d: &[usize]) -> Res<()> {
    if d.iter().product::<usize>() == 0 && v.dims().iter().product::<usize>() == 0 {
        return Ok(());
    }
    fn same(d: &[usize], v: &Val) -> bool {
        match v {
            Val::N(_) => d.is_empty(),
            Val::A(v) => !d.is_empty() && v.len() == d[0] && v.iter().all(|x| same(&d[1..], x)),
        }
    }
    if same(d, v) {
        Ok(())
    } else {
        bad(format!("{name}: {what} has sizes {:?}, not {d:?}", v.dims()))
    }
}
fn arg(a: &[BigUint], i: usize) -> Res<usize> {
    match a.get(i).and_then(|x| x.to_usize()) {
        Some(x) => Ok(x),
        None => bad("a parameter of a library template is missing"),
    }
}
fn to_bits(cx: &Cx, name: &str, v: &BigUint, n: usize) -> Res<Val> {
    // where n bits can say more than the field holds, the bits are the prover's choice
    let w = if BigUint::one() << n > cx.f.q { cx.raw_hint(v) } else { v.clone() };
    cx.require(&w % &cx.f.q == *v && w.bits() as usize <= n, || format!("{name}({n})"))?;
    Ok(Val::signals((0..n).map(|i| (&w >> i) & BigUint::one()).collect()))
}
fn bits_num(v: &Val) -> Res<BigUint> {
    let mut f = vec![];
    v.flat(&mut f);
    Ok(f.iter().rev().fold(BigUint::zero(), |a, b| (a << 1u32) + b))
}
fn select(vals: &[Vec<u64>], key: &[u64]) -> Vec<u64> {
    // low bits of the key select first
    vals[key.iter().enumerate().map(|(i, b)| (*b as usize) << i).sum::<usize>()].clone()
}
fn e3(v: &[u64]) -> refs::E3 {
    [v[0], v[1], v[2]]
}

/// the library of the Goldilocks verifier, which lives outside the repository
pub struct GlLib;
impl Builtins for GlLib {
    fn inputs(&self, name: &str) -> Option<Ports> {
        Some(match name {
            "CMul" => &[("ina", 1), ("inb", 1)],
            "CMulAdd" => &[("ina", 1), ("inb", 1), ("inc", 1)],
            "CInv" => &[("in", 1)],
            "Poseidon" => &[("in", 1), ("capacity", 1)],
            "Num2Bits_strict" => &[("in", 0)],
            "FFT" => &[("in", 2)],
            "MerkleHash" => &[("values", 2), ("siblings", 2), ("key", 1)],
            "EvalPol" => &[("pol", 2), ("x", 1)],
            "TreeSelector" => &[("values", 2), ("key", 1)],
            _ => return None,
        })
    }
    fn run(&self, cx: &Cx, name: &str, a: &[BigUint], i: &HashMap<&'static str, Val>) -> Res<Vec<(&'static str, Val)>> {
        let nd = |what: &'static str, d: &[usize]| need_dims(name, what, &i[what], d);
        Ok(match name {
            "CMul" => {
                nd("ina", &[3])?;
                nd("inb", &[3])?;
                vec![("out", sigs(&refs::e3mul(e3(&us(&i["ina"])), e3(&us(&i["inb"])))))]
            }
            "CMulAdd" => {
                nd("ina", &[3])?;
                nd("inb", &[3])?;
                nd("inc", &[3])?;
                let m = refs::e3mul(e3(&us(&i["ina"])), e3(&us(&i["inb"])));
                vec![("out", sigs(&refs::e3add(m, e3(&us(&i["inc"])))))]
            }
            "CInv" => {
                nd("in", &[3])?;
                let x = e3(&us(&i["in"]));
                cx.require(x != [0; 3], || "inverse of zero".into())?;
                vec![("out", sigs(&refs::e3inv(x)))]
            }
            "Poseidon" => {
                nd("in", &[8])?;
                nd("capacity", &[4])?;
                let c: [u64; 4] = us(&i["capacity"]).try_into().unwrap();
                vec![("out", sigs(&hashref::gl_perm(&us(&i["in"]), &c)[..arg(a, 0)?]))]
            }
            "Num2Bits_strict" => {
                let v = u(&i["in"].num()?.v);
                vec![("out", sigs(&(0..64).map(|k| v >> k & 1).collect::<Vec<_>>()))]
            }
            "FFT" => {
                let (bits, es) = (arg(a, 0)?, arg(a, 1)?);
                nd("in", &[1 << bits, es])?;
                let r = rows(&i["in"])?;
                let cols: Vec<Vec<u64>> = (0..es)
                    .map(|e| {
                        let c: Vec<u64> = r.iter().map(|x| x[e]).collect();
                        if a.get(2).map(|x| x.is_zero()).unwrap_or(true) {
                            refs::ref_fft(&c, bits)
                        } else {
                            refs::ref_ifft(&c, bits)
                        }
                    })
                    .collect();
                let out = (0..1 << bits).map(|k| sigs(&cols.iter().map(|c| c[k]).collect::<Vec<_>>())).collect();
                vec![("out", Val::A(out))]
            }
            "MerkleHash" => {
                let (es, n, lin) = (arg(a, 0)?, arg(a, 1)?, arg(a, 2)?);
                let bits = lin.trailing_zeros() as usize;
                nd("values", &[n, es])?;
                nd("siblings", &[bits, 4])?;
                nd("key", &[bits])?;
                let mut h = hashref::gl_row(&us(&i["values"]), 0);
                for (k, s) in us(&i["key"]).iter().zip(rows(&i["siblings"])?) {
                    let s: [u64; 4] = s.try_into().unwrap();
                    h = if *k == 0 { hashref::gl_node(&h, &s) } else { hashref::gl_node(&s, &h) };
                }
                vec![("root", sigs(&h))]
            }
            "EvalPol" => {
                nd("pol", &[arg(a, 0)?, 3])?;
                nd("x", &[3])?;
                let x = e3(&us(&i["x"]));
                let v = rows(&i["pol"])?.iter().rev().fold([0; 3], |acc, c| refs::e3add(refs::e3mul(acc, x), e3(c)));
                vec![("out", sigs(&v))]
            }
            "TreeSelector" => {
                let (lv, es) = (arg(a, 0)?, arg(a, 1)?);
                nd("values", &[1 << lv, es])?;
                nd("key", &[lv])?;
                vec![("out", sigs(&select(&rows(&i["values"])?, &us(&i["key"]))))]
            }
            _ => return bad(name),
        })
    }
}

/// circomlib over a curve; and for BN128 its hashing library, which lives outside the repository
pub struct CurveLib {
    pub c: Curve,
    /// take the Poseidon of the repository as circom text
    pub text: bool,
}
fn u4(v: &BigUint) -> [u64; 4] {
    let mut d = v.to_bytes_le();
    d.resize(32, 0);
    std::array::from_fn(|i| u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap()))
}
fn big(v: &[u64; 4]) -> BigUint {
    BigUint::from_bytes_le(&v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>())
}
fn is_bn(c: Curve) -> bool {
    matches!(c, Curve::Bn)
}
impl Builtins for CurveLib {
    fn inputs(&self, name: &str) -> Option<Ports> {
        Some(match name {
            "Num2Bits" | "Num2Bits_strict" => &[("in", 0)],
            "Bits2Num" | "Sha256" => &[("in", 1)],
            "PoseidonEx" if !self.text => &[("inputs", 1), ("initialState", 0)],
            "Poseidon" if !self.text => &[("inputs", 1)],
            "MerkleHash" if is_bn(self.c) => &[("values", 2), ("siblings", 2), ("key", 1)],
            _ => return None,
        })
    }
    fn run(&self, cx: &Cx, name: &str, a: &[BigUint], i: &HashMap<&'static str, Val>) -> Res<Vec<(&'static str, Val)>> {
        let h = hashref::inst(self.c);
        let u4s = |v: &Val| {
            let mut f = vec![];
            v.flat(&mut f);
            f.iter().map(u4).collect::<Vec<_>>()
        };
        Ok(match name {
            "Num2Bits" => vec![("out", to_bits(cx, name, &i["in"].num()?.v, arg(a, 0)?)?)],
            "Num2Bits_strict" => {
                // circomlib's works for fields of 254 bits
                if cx.f.bits() != 254 {
                    return bad("Num2Bits_strict on a field that has not 254 bits");
                }
                let v = &i["in"].num()?.v;
                vec![("out", Val::signals((0..254usize).map(|k| (v >> k) & BigUint::one()).collect()))]
            }
            "Bits2Num" => {
                need_dims(name, "in", &i["in"], &[arg(a, 0)?])?;
                vec![("out", Val::N(Num { v: bits_num(&i["in"])? % &cx.f.q, d: 1 }))]
            }
            "Sha256" => {
                need_dims(name, "in", &i["in"], &[arg(a, 0)?])?;
                let d = sha256_bits(&us(&i["in"]));
                vec![("out", sigs(&d))]
            }
            "PoseidonEx" => {
                let (n, o) = (arg(a, 0)?, arg(a, 1)?);
                need_dims(name, "inputs", &i["inputs"], &[n])?;
                let out = h.perm(&u4(&i["initialState"].num()?.v), &u4s(&i["inputs"]));
                vec![("out", Val::signals(out[..o].iter().map(big).collect()))]
            }
            "Poseidon" => {
                need_dims(name, "inputs", &i["inputs"], &[arg(a, 0)?])?;
                vec![("out", Val::N(Num { v: big(&h.hash(&[0; 4], &u4s(&i["inputs"]))), d: 1 }))]
            }
            "MerkleHash" => {
                let (es, n, lin) = (arg(a, 0)?, arg(a, 1)?, arg(a, 2)?);
                let bits = lin.trailing_zeros() as usize;
                let lv = if bits == 0 { 0 } else { (bits - 1) / 4 + 1 };
                need_dims(name, "values", &i["values"], &[n, es])?;
                need_dims(name, "siblings", &i["siblings"], &[lv, 16])?;
                need_dims(name, "key", &i["key"], &[bits])?;
                let mut x = {
                    // as in the circuit: three values per scalar, whatever their size
                    let v = {
                        let mut f = vec![];
                        i["values"].flat(&mut f);
                        f
                    };
                    let packed: Vec<BigUint> = v
                        .chunks(3)
                        .map(|c| c.iter().enumerate().fold(BigUint::zero(), |s, (k, x)| s + (x << (64 * k))) % &cx.f.q)
                        .collect();
                    match packed.len() {
                        0 => BigUint::zero(),
                        1 => packed[0].clone(),
                        _ => {
                            let p: Vec<[u64; 4]> = packed.iter().map(u4).collect();
                            big(&p.chunks(16).fold([0; 4], |st, b| h.hash(&st, b)))
                        }
                    }
                };
                let key = us(&i["key"]);
                let sib = i["siblings"].arr()?;
                for (l, s) in sib.iter().enumerate() {
                    let pos: usize = key[4 * l..bits.min(4 * l + 4)].iter().enumerate().map(|(k, b)| (*b as usize) << k).sum();
                    let mut inp = u4s(s);
                    inp[pos] = u4(&x);
                    x = big(&h.hash(&[0; 4], &inp));
                }
                vec![("root", Val::N(Num { v: x, d: 1 }))]
            }
            _ => return bad(name),
        })
    }
}

pub fn sha256_bits(b: &[u64]) -> Vec<u64> {
    // constants from their definition: fractional parts of roots of the first primes
    fn root(p: u64, cube: bool) -> u32 {
        // floor(p^(1/k) * 2^32) mod 2^32
        let t = BigUint::from(p) << if cube { 96usize } else { 64 };
        let (mut lo, mut hi) = (BigUint::zero(), BigUint::one() << 40usize);
        while &hi - &lo > BigUint::one() {
            let m = (&lo + &hi) >> 1u32;
            let pw = if cube { &m * &m * &m } else { &m * &m };
            if pw <= t {
                lo = m;
            } else {
                hi = m;
            }
        }
        (lo % (BigUint::one() << 32usize)).to_u32().unwrap()
    }
    static K: OnceLock<(Vec<u32>, Vec<u32>)> = OnceLock::new();
    let (k, iv) = K.get_or_init(|| {
        let pr: Vec<u64> = (2u64..400).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
        (pr.iter().map(|p| root(*p, true)).collect(), pr[..8].iter().map(|p| root(*p, false)).collect())
    });
    let mut m = b.to_vec();
    m.push(1);
    while m.len() % 512 != 448 {
        m.push(0);
    }
    m.extend((0..64).rev().map(|i| (b.len() as u64) >> i & 1));
    let mut h: Vec<u32> = iv.clone();
    for blk in m.chunks(512) {
        let mut w: Vec<u32> = blk.chunks(32).map(|c| c.iter().fold(0u32, |a, x| a << 1 | *x as u32)).collect();
        for i in 16..64 {
            let (x, y) = (w[i - 15], w[i - 2]);
            let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ x >> 3;
            let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ y >> 10;
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(s0).wrapping_add(mj);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| (0..32).rev().map(move |i| (x >> i & 1) as u64)).collect()
}

// ------------------------------------------------------------------ programs

fn repo() -> String {
    std::env::var("MC_REPO").unwrap_or("/repo".into())
}
pub fn field_of(kind: &str) -> &'static Field {
    static F: OnceLock<[Field; 3]> = OnceLock::new();
    let f = F.get_or_init(|| {
        [Field::new(BigUint::from(P)), Field::new(big(&hashref::inst(Curve::Bn).p)), Field::new(big(&hashref::inst(Curve::Bls).p))]
    });
    match kind {
        "GL" => &f[0],
        "BN128" => &f[1],
        _ => &f[2],
    }
}
const PORTS: &[&str] = &[
    "ina", "inb", "inc", "in", "out", "capacity", "values", "siblings", "key", "root", "pol", "x", "inputs", "initialState",
];
fn roots_text() -> String {
    let v: Vec<String> = (0..33).map(|i| refs::omega(i).to_string()).collect();
    format!("function roots(i) {{ var roots[33] = [{}]; return roots[i]; }}", v.join(","))
}
fn circuit_text(f: &str) -> Option<String> {
    std::fs::read_to_string(format!("{}/stark-circuits/circuits/{f}", repo())).ok()
}
/// a program with the libraries its includes name
pub fn program(kind: &str, src: &str, text: bool) -> Result<Prog, String> {
    let mut p = Prog::default();
    for n in PORTS {
        p.id(n);
    }
    p.add(src)?;
    if kind == "GL" {
        const HAVE: &[&str] = &[
            "cmuladd.circom", "cinv.circom", "poseidon.circom", "bitify.circom", "fft.circom", "merklehash.circom",
            "evalpol.circom", "treeselector.circom", "mux1.circom", "iszero.circom",
        ];
        if let Some(i) = p.includes.iter().find(|i| !HAVE.contains(&i.as_str())) {
            return Err(format!("include {i}"));
        }
        p.add(&roots_text())?;
        return Ok(p);
    }
    let mut done: Vec<String> = vec![];
    while let Some(i) = p.includes.iter().find(|i| !done.contains(i)).cloned() {
        done.push(i.clone());
        let f = i.trim_start_matches("./");
        // the hashing library of BN128 is not this one
        let skip = (!text && f.starts_with("poseidon")) || (kind == "BN128" && ["merklehash.circom", "merkle.circom", "linearhash.circom"].contains(&f));
        if skip || f == "bitify.circom" || f == "sha256/sha256.circom" {
            continue;
        }
        match circuit_text(f) {
            Some(t) => p.add(&t).map_err(|e| format!("{f}: {e}"))?,
            None => return Err(format!("include {i}")),
        }
    }
    Ok(p)
}
pub fn lib(kind: &str, text: bool) -> Box<dyn Builtins> {
    match kind {
        "GL" => Box::new(GlLib),
        "BN128" => Box::new(CurveLib { c: Curve::Bn, text }),
        _ => Box::new(CurveLib { c: Curve::Bls, text }),
    }
}

pub trait CK: Kind {
    fn gen(i: &mut Inst<Self>, o: &StarkOption) -> anyhow::Result<String>
    where
        Self: Sized;
}
macro_rules! ck {
    ($k:ty) => {
        impl CK for $k {
            fn gen(i: &mut Inst<Self>, o: &StarkOption) -> anyhow::Result<String> {
                pil2circom(&i.pil, &i.setup.const_root, &i.ss, &mut i.setup.starkinfo, &mut i.setup.program, o)
            }
        }
    };
}
ck!(Gl);
ck!(Bn);
ck!(Bls);

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Stage {
    pub enable: bool,
    pub key: bool,
    pub agg: bool,
    pub skip: bool,
}
impl Stage {
    fn opt(&self) -> StarkOption {
        StarkOption { enable_input: self.enable, verkey_input: self.key, agg_stage: self.agg, skip_main: self.skip }
    }
    fn show(&self) -> String {
        let mut v = vec![];
        for (b, s) in [(self.enable, "enable"), (self.key, "norm"), (self.agg, "agg"), (self.skip, "skip_main")] {
            if b {
                v.push(s);
            }
        }
        if v.is_empty() {
            "main".into()
        } else {
            v.join("+")
        }
    }
}
const fn stage(enable: bool, key: bool, agg: bool, skip: bool) -> Stage {
    Stage { enable, key, agg, skip }
}

fn inputs(f: &Field, zkin: &Value) -> Res<HashMap<String, Val>> {
    let mut m = HashMap::new();
    for (k, v) in zkin.as_object().unwrap() {
        if v.is_null() {
            continue;
        }
        m.insert(k.clone(), from_json(v, f)?);
    }
    Ok(m)
}
/// what the circuit says about an input file
pub fn judge(kind: &str, p: &Prog, b: &dyn Builtins, zkin: &Value) -> Res<(HashMap<String, Val>, [usize; 3])> {
    let f = field_of(kind);
    let cx = Cx::new(p, f, b);
    let i = inputs(f, zkin)?;
    let o = cx.main(&i)?;
    let n = [*cx.hints.borrow(), *cx.constraints.borrow(), *cx.components.borrow()];
    Ok((o, n))
}

// ------------------------------------------------------------------ the check of whole verifiers

#[derive(Clone, Debug)]
pub enum Step {
    K(String),
    I(usize),
}
pub fn leaves(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(Step::K(k.clone()));
                leaves(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(Step::I(i));
                leaves(x, at, out);
                at.pop();
            }
        }
        Value::Null => {}
        _ => out.push(at.clone()),
    }
}
pub fn at<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value {
    p.iter().fold(v, |v, s| match s {
        Step::K(k) => &mut v[k.as_str()],
        Step::I(i) => &mut v[*i],
    })
}
fn path_text(p: &[Step]) -> String {
    p.iter()
        .map(|s| match s {
            Step::K(k) => k.clone(),
            Step::I(i) => format!("[{i}]"),
        })
        .collect()
}

/// one generated verifier next to the native one
struct Pair<K: CK> {
    native: Inst<K>,
    prog: Prog,
    lib: Box<dyn Builtins>,
    st: Stage,
    main: bool,
}
const ADDR: &str = "273030697313060285579891744179749754319274977764";
#[derive(Debug, PartialEq)]
enum Say {
    Yes,
    No,
    Odd(String),
}
const NO_Q: &str = "no quotient";
impl<K: CK> Pair<K> {
    fn new(a: &Air, par: &Par, st: Stage) -> Result<Self, String> {
        let native = Inst::<K>::new(a, par)?;
        let mut i = Inst::<K>::new(a, par)?;
        if i.setup.starkinfo.qs.is_empty() {
            // such a circuit has no quotient; the callers do not ask for its verifier
            return Err(NO_Q.into());
        }
        let src = guard(|| K::gen(&mut i, &st.opt()).map_err(|e| e.to_string())).map_err(|e| format!("the generator panicked: {e}"))??;
        let mut prog = program(K::NAME, &src, false)?;
        if !prog.has_main() {
            prog.set_main("StarkVerifier", &[]);
        }
        Ok(Pair { native, prog, lib: lib(K::NAME, false), st, main: !st.skip })
    }
    fn circuit(&self, z: &Value) -> (Say, Option<HashMap<String, Val>>) {
        match judge(K::NAME, &self.prog, &*self.lib, z) {
            Ok((o, _)) => (Say::Yes, Some(o)),
            Err(Er::Malformed(m)) => (Say::Odd(format!("not a circuit: {m}")), None),
            Err(_) => (Say::No, None),
        }
    }
    /// the native verdict on the proof whose fields carry this prefix
    fn native(&self, z: &Value, prefix: &str) -> Say {
        let mut j = z.clone();
        if !prefix.is_empty() {
            let m = z.as_object().unwrap();
            j = Value::Object(m.iter().filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| (k.to_string(), v.clone()))).collect());
        }
        let p = match Inst::<K>::unjson(&j) {
            Err(e) if e.starts_with("panicked") => return Say::Odd(e),
            Err(_) => return Say::No,
            Ok(p) => p,
        };
        let root = if self.st.key { p.rootC.clone().unwrap() } else { self.native.setup.const_root.clone() };
        match self.native.verify_with(&p, &root, &self.native.ss) {
            Err(e) => Say::Odd(e),
            Ok(true) => Say::Yes,
            Ok(false) => Say::No,
        }
    }
    fn expected(&self, z: &Value) -> Say {
        if self.st.agg {
            match (self.native(z, "a_"), self.native(z, "b_")) {
                (Say::Yes, Say::Yes) => Say::Yes,
                (Say::Odd(e), _) | (_, Say::Odd(e)) => Say::Odd(e),
                _ => Say::No,
            }
        } else {
            self.native(z, "")
        }
    }
    fn same(&self, mc: &Mc, key: &str, z: &Value) {
        let (got, out) = self.circuit(z);
        let want = self.expected(z);
        mc.check(got == want, key, || format!("the circuit says {got:?}, the verifier {want:?}"));
        if got == Say::Yes && self.main && K::NAME != "GL" {
            let h = publics_hash(field_of(K::NAME), z);
            let o = out.unwrap();
            let g = o.get("publicsHash").and_then(|v| v.num().ok().map(|x| x.v.clone()));
            mc.check(g.as_ref() == Some(&h), &format!("{key}:publics hash"), || format!("{g:?} instead of {h}"));
        }
    }
}
fn publics_hash(f: &Field, z: &Value) -> BigUint {
    let num = |v: &Value| v.as_str().unwrap().parse::<BigUint>().unwrap();
    let mut bits = vec![];
    let mut put = |v: BigUint, n: usize| bits.extend((0..n).rev().map(|i| ((&v >> i) & BigUint::one()).to_u64().unwrap()));
    put(num(&z["proverAddr"]), 160);
    for p in z["publics"].as_array().unwrap() {
        put(num(p), 64);
    }
    sha256_bits(&bits).iter().fold(BigUint::zero(), |a, b| (a << 1u32) + *b) % &f.q
}
fn bump(s: &str) -> String {
    let n: BigUint = s.parse::<BigUint>().unwrap() + 1u32;
    if n == BigUint::from(P) {
        "0".into()
    } else {
        n.to_string()
    }
}
/// all one-place changes of an input file: leaves to +1, 0, 1; neighbours of a list exchanged
fn changes(z: &Value, full: bool) -> Vec<(String, Value)> {
    let mut v = vec![];
    let mut paths = vec![];
    leaves(z, &mut vec![], &mut paths);
    for p in &paths {
        let mut c = z.clone();
        let old = at(&mut c, p).as_str().unwrap().to_string();
        let mut news = vec![bump(&old)];
        if full {
            news.extend(["0".to_string(), "1".to_string()]);
        }
        news.dedup();
        for n in news {
            if n != old {
                *at(&mut c, p) = n.clone().into();
                v.push((format!("{} := {n}", path_text(p)), c.clone()));
            }
        }
    }
    // lists: every exchange of neighbours, at every depth
    fn lists(v: &Value, p: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, usize)>) {
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    p.push(Step::K(k.clone()));
                    lists(x, p, out);
                    p.pop();
                }
            }
            Value::Array(a) => {
                for i in 1..a.len() {
                    if a[i] != a[i - 1] {
                        out.push((p.clone(), i));
                    }
                }
                for (i, x) in a.iter().enumerate() {
                    p.push(Step::I(i));
                    lists(x, p, out);
                    p.pop();
                }
            }
            _ => {}
        }
    }
    let mut ls = vec![];
    lists(z, &mut vec![], &mut ls);
    for (p, i) in ls {
        if !full && p.len() > 2 {
            continue;
        }
        let mut c = z.clone();
        at(&mut c, &p).as_array_mut().unwrap().swap(i - 1, i);
        v.push((format!("{}[{}] and [{i}] exchanged", path_text(&p), i - 1), c));
    }
    v
}
fn joined(x: &Value, y: &Value) -> Result<Value, String> {
    let d = scratch();
    let (f, g, h) = (format!("{d}/a"), format!("{d}/b"), format!("{d}/c"));
    std::fs::write(&f, x.to_string()).unwrap();
    std::fs::write(&g, y.to_string()).unwrap();
    starky::zkin_join::join_zkin(&f, &g, &h).map_err(|e| e.to_string())?;
    let v = serde_json::from_str(&std::fs::read_to_string(&h).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&d);
    Ok(v)
}
fn scratch() -> String {
    static N: AtomicU64 = AtomicU64::new(0);
    let d = format!("{}/h_core_p16_{}_{}", std::env::temp_dir().display(), std::process::id(), N.fetch_add(1, Relaxed));
    std::fs::create_dir_all(&d).unwrap();
    d
}

#[derive(Clone, Copy, PartialEq)]
enum Depth {
    Honest,
    Some,
    Full,
}
fn whole<K: CK>(mc: &Mc, a: &Air, par: &Par, st: Stage, depth: Depth, n: &AtomicU64) {
    let key = format!("{}:{}:{}:{}", K::NAME, st.show(), a.name, par.show());
    let p = match Pair::<K>::new(a, par, st) {
        Ok(p) => p,
        Err(e) => {
            if e == NO_Q {
                return;
            }
            mc.check(false, &key, || format!("no circuit: {e}"));
            return;
        }
    };
    let mut z = match p.native.prove_as(a, ADDR) {
        Ok(x) => Inst::<K>::json(&x),
        Err(e) => {
            mc.check(false, &key, || format!("no proof: {e}"));
            return;
        }
    };
    if st.agg {
        // both sides the same circuit; the second side's own key may differ in nothing here
        z = joined(&z, &z).unwrap();
    }
    if st.enable {
        z["enable"] = "1".into();
    }
    n.fetch_add(1, Relaxed);
    let (got, _) = p.circuit(&z);
    let want = p.expected(&z);
    if !mc.check(got == Say::Yes && want == Say::Yes, &key, || format!("an honest proof: the circuit says {got:?}, the verifier {want:?}")) {
        return;
    }
    p.same(mc, &key, &z);
    if depth == Depth::Honest {
        return;
    }
    // openings of a tree without columns say nothing
    let unread: Vec<String> = [(2, p.native.setup.starkinfo.map_sectionsN.get("cm2_2ns")), (3, p.native.setup.starkinfo.map_sectionsN.get("cm3_2ns"))]
        .iter()
        .filter(|x| x.1 == 0)
        .flat_map(|x| [format!("s0_siblings{}[", x.0), format!("s0_vals{}[", x.0)])
        .collect();
    for (what, c) in changes(&z, depth == Depth::Full) {
        let bare = what.trim_start_matches("a_").trim_start_matches("b_");
        if unread.iter().any(|u| bare.starts_with(u)) {
            continue;
        }
        // what the circuit reads besides the proof
        if what.starts_with("enable") {
            n.fetch_add(1, Relaxed);
            let (got, _) = p.circuit(&c);
            let want = if what.contains('2') { Say::No } else { Say::Yes };
            mc.check(got == want, &format!("{key}:{what}"), || format!("{got:?} instead of {want:?}"));
            continue;
        }
        n.fetch_add(1, Relaxed);
        p.same(mc, &format!("{key}:{what}"), &c);
    }
    if st.enable {
        // switched off, nothing is checked
        z["enable"] = "0".into();
        for (what, c) in changes(&z, false) {
            if what.starts_with("enable") {
                continue;
            }
            n.fetch_add(1, Relaxed);
            let (got, _) = p.circuit(&c);
            mc.check(got == Say::Yes, &format!("{key}:off:{what}"), || format!("{got:?}"));
        }
    }
}
/// Values that a row's packing cannot tell apart: the circuit must refuse those out of range by
/// something else than what the changed values break. And the prover has no say in how a
/// challenge is taken apart.
fn bound<K: CK>(mc: &Mc, a: &Air, par: &Par, st: Stage, n: &AtomicU64) {
    let key = format!("bound:{}:{}:{}:{}", K::NAME, st.show(), a.name, par.show());
    let r = Pair::<K>::new(a, par, st).and_then(|mut p| {
        let z = p.native.prove_as(a, ADDR).map(|x| Inst::<K>::json(&x))?;
        Ok((p, z))
    });
    let (p, z) = match r {
        Ok(x) => x,
        Err(e) => {
            mc.check(e == NO_Q, &key, || e);
            return;
        }
    };
    let f = field_of(K::NAME);
    type Runs = (Vec<(usize, Vec<usize>)>, Vec<(usize, Vec<usize>)>);
    let run = |z: &Value, hook: Option<&dyn Fn(usize, &BigUint) -> Option<BigUint>>| -> Res<Runs> {
        n.fetch_add(1, Relaxed);
        let mut cx = Cx::new(&p.prog, f, &*p.lib);
        cx.collect = true;
        cx.hook = hook;
        cx.main(&inputs(f, z)?)?;
        let (x, y) = (cx.failed.borrow().clone(), cx.raw.borrow().clone());
        Ok((x, y))
    };
    let (bad, raw) = match run(&z, None) {
        Ok(x) => x,
        Err(e) => {
            mc.check(false, &key, || format!("{e:?}"));
            return;
        }
    };
    if !mc.check(bad.is_empty(), &key, || format!("an honest proof fails {bad:?}")) {
        return;
    }
    // every whole-number hint, one modulus further where that fits
    for (h, place) in &raw {
        let over = |i: usize, v: &BigUint| if i == *h { Some(v + &f.q) } else { None };
        let r = run(&z, Some(&over));
        let outer = if place.len() > 1 { place[place.len() - 2] } else { place[0] };
        let ok = match &r {
            Ok((bad, _)) => bad.iter().any(|b| b.1.contains(&outer)),
            Err(_) => true,
        };
        mc.check(ok, &format!("{key}:decomposition"), || format!("hint {h} may be taken one modulus further"));
    }
    let big = |x: &Value| x.as_str().unwrap().parse::<BigUint>().unwrap();
    let w = BigUint::one() << 64usize;
    for (k, v) in z.as_object().unwrap().clone() {
        let path = if let Some(x) = k.strip_prefix("s").filter(|x| x.contains("_vals")) { x.to_string() } else { continue };
        for (qi, row) in v.as_array().unwrap().iter().enumerate() {
            let row = row.as_array().unwrap();
            let flat: Vec<Value> = row.iter().flat_map(|x| x.as_array().cloned().unwrap_or(vec![x.clone()])).collect();
            // rows the hash packs by three
            for i in 0..flat.len().saturating_sub(1) {
                if i % 3 == 2 || big(&flat[i + 1]).is_zero() {
                    continue;
                }
                let put = |a: BigUint, b: BigUint, sib: bool| {
                    let mut c = z.clone();
                    let mut j = 0;
                    for x in c[&k][qi].as_array_mut().unwrap() {
                        let mut one = |x: &mut Value| {
                            if j == i {
                                *x = a.to_string().into();
                            } else if j == i + 1 {
                                *x = b.to_string().into();
                            }
                            j += 1;
                        };
                        match x {
                            Value::Array(y) => y.iter_mut().for_each(&mut one),
                            x => one(x),
                        }
                    }
                    if sib {
                        let s = k.replace("_vals", "_siblings");
                        let mut l = vec![];
                        leaves(&c[&s][qi], &mut vec![], &mut l);
                        let x = at(&mut c[&s][qi], &l[0]);
                        *x = bump(x.as_str().unwrap()).into();
                    }
                    c
                };
                let (a, b) = (big(&flat[i]), big(&flat[i + 1]));
                let shifted = put(&a + &w, &b - 1u32, false);
                let plain = put((&a + &w) % P, &b - 1u32, false);
                let tree = put(a.clone(), b.clone(), true);
                let all: Res<Vec<Vec<usize>>> = [shifted, plain, tree].iter().map(|z| Ok(run(z, None)?.0.iter().map(|x| x.0).collect())).collect();
                let ok = match &all {
                    Ok(v) => v[0].iter().any(|x| !v[1].contains(x) || v[2].contains(x)),
                    Err(Er::Malformed(_)) => false,
                    Err(_) => true,
                };
                mc.check(ok, &format!("{key}:s{path}"), || format!("values {i} and {} of query {qi} can be exchanged for others of the same hash", i + 1));
            }
        }
    }
}
/// every operation on values of the field and of its extension, in every position
fn mixed(bits: usize, part: usize) -> Air {
    let mut a = Air::new(&format!("mixed{part}"), bits);
    let last = a.rows() - 1;
    a.wcol(|r| val(r + 1));
    a.wcol(|r| val(3 * r + 2));
    a.pubs = vec![(false, 0, 0), (false, 1, last), (false, 0, last)];
    let pubs = a.publics();
    let v = |i: usize, j: usize| if i & 1 << j == 0 { Pub(j) } else { cm(j % 2) };
    let mut all = vec![];
    match part {
        0 => {
            for m in 0..4 {
                all.push(add(v(m, 0), v(m, 1)));
                all.push(sub(v(m, 0), v(m, 1)));
                all.push(mul(v(m, 0), v(m, 1)));
            }
        }
        1 => {
            for m in 0..8 {
                all.push(add(mul(v(m, 0), v(m, 1)), v(m, 2)));
                all.push(sub(mul(v(m, 0), v(m, 1)), v(m, 2)));
            }
        }
        2 => {
            for m in 0..8 {
                all.push(add(v(m, 2), mul(v(m, 0), v(m, 1))));
                all.push(sub(v(m, 2), mul(v(m, 0), v(m, 1))));
                all.push(mul(add(v(m, 0), v(m, 1)), v(m & 3, 2)));
                all.push(mul(v(m & 3, 2), sub(v(m, 0), v(m, 1))));
            }
        }
        _ => {
            for x in [Pub(0), cm(0), add(Pub(0), n(-3)), mul(Pub(1), cm(1))] {
                all.push(neg(x.clone()));
                all.push(mul(neg(x.clone()), Pub(1)));
                all.push(AddC(Box::new(x.clone()), 12));
                all.push(MulC(Box::new(x.clone()), 34));
                all.push(sub(n(5), x.clone()));
                all.push(mul(x, sub(n(0), Pub(2))));
            }
        }
    }
    for x in all {
        let col: Vec<u64> = (0..=last).map(|r| a.eval(&x, r, &pubs)).collect();
        let c = a.kcol(|r| col[r]);
        a.id(sub(x, k(c)));
    }
    // something to divide by the vanishing polynomial
    let col: Vec<u64> = (0..=last).map(|r| refs::mul(a.w[0][r], a.w[1][r])).collect();
    let c = a.kcol(|r| col[r]);
    a.id(sub(mul(cm(0), cm(1)), k(c)));
    a.valid().unwrap();
    a
}
pub fn run(mc: &Mc) {
    quiet_all(true);
    crate::p16_gadgets::run(mc);
    if std::env::var("MC_GADGETS").is_ok() {
        return;
    }
    let n = AtomicU64::new(0);
    let sec = |name: &str, items: usize, n: &AtomicU64| {
        let n = n.swap(0, Relaxed);
        mc.states(n);
        mc.traces(n);
        mc.transitions(n);
        mc.evals(n, n);
        mc.section(name, json!({"circuits x parameters x stages": items, "inputs judged by both": n}));
    };
    let (skip, main, norm) = (stage(false, false, false, true), stage(false, false, false, false), stage(false, true, false, false));
    let agg = stage(false, true, true, false);
    let onoff = stage(true, false, false, true);
    let mut items = vec![];
    let all = || airs(2).into_iter().chain((0..4).map(|p| mixed(2, p)));
    for a in all() {
        let e = ext_of(&a);
        for h in 0..3 {
            for st in [skip, main, norm] {
                items.push((h, a.clone(), Par::new(2, e, 2, &[e]), st, Depth::Honest));
                items.push((h, a.clone(), Par::new(2, e, 2, &[]), st, Depth::Honest));
            }
        }
        items.push((0, a.clone(), Par::new(2, e, 2, &[]), onoff, Depth::Honest));
        if a.pubs.len() >= 4 {
            items.push((0, a.clone(), Par::new(2, e, 2, &[2]), agg, Depth::Honest));
        }
    }
    let len = items.len();
    spread(items, |(h, a, p, st, d)| match h {
        0 => whole::<Gl>(mc, &a, &p, st, d, &n),
        1 => whole::<Bn>(mc, &a, &p, st, d, &n),
        _ => whole::<Bls>(mc, &a, &p, st, d, &n),
    });
    sec("honest proofs", len, &n);
    let mut items = vec![];
    let cur = |h: usize, st: Stage| if h == 0 || !st.agg { Some(st) } else { None };
    for (x, a) in all().enumerate() {
        let e = ext_of(&a);
        if a.w.len() > 8 && !mc.thorough() {
            continue;
        }
        for (y, st) in [skip, main, norm].into_iter().enumerate() {
            for (z, fri) in step_lists(2 + e, e).into_iter().enumerate() {
                if (x + y + z) % 4 == 0 || mc.thorough() {
                    items.push((0, a.clone(), Par::new(2, e, 1 + (x + z) % 3, &fri), cur(0, st).unwrap(), if x < 3 { Depth::Full } else { Depth::Some }));
                }
            }
        }
    }
    for (y, (st, f)) in [(skip, fib(2, &[0, 1, 2])), (onoff, fib(2, &[1, 0, 2])), (agg, fib(2, &[2, 0, 3, 1])), (agg, join(vec![fib(2, &[2, 0, 3, 1]), lookup(2, 1, 0, false)]))].into_iter().enumerate() {
        for fri in step_lists(3, 1) {
            items.push((0, f.clone(), Par::new(2, 1, 1 + y % 3, &fri), st, Depth::Full));
        }
    }
    for h in 1..3 {
        items.push((h, fib(2, &[0, 1, 2]), Par::new(2, 1, 1, &[2]), main, Depth::Some));
        items.push((h, fib(2, &[0, 1, 2]), Par::new(2, 1, 1, &[]), norm, Depth::Some));
        items.push((h, lookup(2, 2, 1, false), Par::new(2, 2, 1, &[3, 2]), skip, Depth::Some));
    }
    items.sort_by_key(|i| if i.0 == 0 { 1 } else { 0 });
    let len = items.len();
    spread(items, |(h, a, p, st, d)| match h {
        0 => whole::<Gl>(mc, &a, &p, st, d, &n),
        1 => whole::<Bn>(mc, &a, &p, st, d, &n),
        _ => whole::<Bls>(mc, &a, &p, st, d, &n),
    });
    sec("changed inputs", len, &n);
    let mut items = vec![];
    for h in 1..3 {
        for (x, a) in all().enumerate() {
            let e = ext_of(&a);
            if x % 3 != h && !mc.thorough() {
                continue;
            }
            for (y, fri) in step_lists(2 + e, e).into_iter().enumerate() {
                if y == x % 2 || mc.thorough() {
                    items.push((h, a.clone(), Par::new(2, e, 1, &fri), [skip, main, norm][(x + y) % 3]));
                }
            }
        }
    }
    let len = items.len();
    spread(items, |(h, a, p, st)| if h == 1 { bound::<Bn>(mc, &a, &p, st, &n) } else { bound::<Bls>(mc, &a, &p, st, &n) });
    sec("values a hash cannot tell apart, choices of the prover", len, &n);
}
