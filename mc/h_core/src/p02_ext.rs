//! P02: F3G = GF(p)[x]/(x^3-x-1) and F5G = GF(p)[x]/(x^5-3), with elements of dimension 1
//! standing for the embedded base field: every operation of every pair of a bounded operand
//! lattice (all dimension combinations) against schoolbook polynomial arithmetic.
use crate::refs::*;
use fields::field_gl::Fr;
use mc_common::*;
use rayon::prelude::*;
use serde_json::json;
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::polutils::batch_inverse;
use starky::traits::FieldExtension;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

type V = Vec<u64>;

trait Ext: FieldExtension {
    const N: usize;
    const NAME: &'static str;
    fn reduce(r: &[u64]) -> V;
    fn mk(v: &[u64]) -> Self {
        if v.len() == 1 {
            Self::from(Fr::from(v[0]))
        } else {
            Self::from_vec(v.iter().map(|x| Fr::from(*x)).collect())
        }
    }
}
impl Ext for F3G {
    const N: usize = 3;
    const NAME: &'static str = "F3G";
    fn reduce(r: &[u64]) -> V {
        let mut r = r.to_vec();
        while r.len() > 3 {
            let t = r.pop().unwrap();
            let k = r.len() - 3; // x^(3+k) = x^(1+k) + x^k
            r[k] = add(r[k], t);
            r[k + 1] = add(r[k + 1], t);
        }
        r
    }
}
impl Ext for F5G {
    const N: usize = 5;
    const NAME: &'static str = "F5G";
    fn reduce(r: &[u64]) -> V {
        let mut r = r.to_vec();
        while r.len() > 5 {
            let t = r.pop().unwrap();
            let k = r.len() - 5;
            r[k] = add(r[k], mul(3, t));
        }
        r
    }
}
fn lift<E: Ext>(v: &[u64]) -> V {
    let mut r = v.to_vec();
    r.resize(E::N, 0);
    r
}
fn rmul<E: Ext>(a: &[u64], b: &[u64]) -> V {
    E::reduce(&polymul(&lift::<E>(a), &lift::<E>(b)))
}
fn rpow<E: Ext>(a: &[u64], mut e: u64) -> V {
    let mut r = lift::<E>(&[1]);
    let mut b = lift::<E>(a);
    while e > 0 {
        if e & 1 == 1 {
            r = rmul::<E>(&r, &b);
        }
        b = rmul::<E>(&b, &b);
        e >>= 1;
    }
    r
}
fn rinv<E: Ext>(a: &[u64]) -> V {
    einv(&lift::<E>(a), |x, y| rmul::<E>(x, y))
}
fn zip(a: &[u64], b: &[u64], f: impl Fn(u64, u64) -> u64) -> V {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}
fn val<E: Ext>(x: &E) -> V {
    lift::<E>(&x.as_elements().iter().map(|e| e.as_int()).collect::<V>())
}
fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

struct Ck<'a>(&'a Mc);
impl Ck<'_> {
    fn e<E: Ext>(&self, op: &str, a: &[u64], b: &[u64], got: E, want: &[u64], dim: usize) {
        let g = val(&got);
        let rest = got.as_elements().iter().all(|x| x.into_raw() < P);
        self.0.check(g == lift::<E>(want) && got.dim() == dim && rest, &format!("{}:{op}", E::NAME), || {
            format!("{} {op}({a:x?},{b:x?}) = {g:x?} (dim {}), want {want:x?} (dim {dim})", E::NAME, got.dim())
        });
    }
}
trait Raw {
    fn into_raw(&self) -> u64;
}
impl Raw for Fr {
    fn into_raw(&self) -> u64 {
        use fields::PrimeField;
        self.into_raw_repr().0[0]
    }
}

fn pair<E: Ext>(mc: &Mc, a: &[u64], b: &[u64], full: bool) {
    let c = Ck(mc);
    let (x, y) = (E::mk(a), E::mk(b));
    let (la, lb) = (lift::<E>(a), lift::<E>(b));
    let d = a.len().max(b.len());
    let s = zip(&la, &lb, add);
    let m = zip(&la, &lb, sub);
    let p = rmul::<E>(a, b);
    c.e("add", a, b, x + y, &s, d);
    c.e("sub", a, b, x - y, &m, d);
    c.e("mul", a, b, x * y, &p, d);
    mc.check(x._eq(&y) == (la == lb), &format!("{}:_eq", E::NAME), || format!("{a:x?} == {b:x?}"));
    if full {
        let mut t = x;
        t += y;
        c.e("+=", a, b, t, &s, d);
        t = x;
        t -= y;
        c.e("-=", a, b, t, &m, d);
        t = x;
        t *= y;
        c.e("*=", a, b, t, &p, d);
        let mut t = x;
        fields::Field::add_assign(&mut t, &y);
        c.e("add_assign", a, b, t, &s, d);
        t = x;
        fields::Field::sub_assign(&mut t, &y);
        c.e("sub_assign", a, b, t, &m, d);
        t = x;
        fields::Field::mul_assign(&mut t, &y);
        c.e("mul_assign", a, b, t, &p, d);
    }
    if a.len() == b.len() {
        // lexicographic order of the coordinates, first coordinate most significant
        let o = la.cmp(&lb);
        let n = E::NAME;
        mc.check(x.gt(&y) == (o == Ordering::Greater), &format!("{n}:gt"), || format!("gt({a:x?},{b:x?})"));
        mc.check(x.geq(&y) == (o != Ordering::Less), &format!("{n}:geq"), || format!("geq({a:x?},{b:x?})"));
        mc.check(x.leq(&y) == (o != Ordering::Greater), &format!("{n}:leq"), || format!("leq({a:x?},{b:x?})"));
        mc.check(x.lt(&y) == (o == Ordering::Less), &format!("{n}:lt"), || format!("lt({a:x?},{b:x?})"));
        mc.check((x == y) == (la == lb), &format!("{n}:eq"), || format!("{a:x?} == {b:x?}"));
    }
}

fn unary<E: Ext>(mc: &Mc, a: &[u64], exps: &[u64]) {
    let c = Ck(mc);
    let x = E::mk(a);
    let la = lift::<E>(a);
    let d = a.len();
    let z = vec![0; E::N];
    c.e("value", a, &[], x, a, d);
    match guard(|| -x) {
        Ok(v) => c.e("neg", a, &[], v, &zip(&z, &la, sub), d),
        Err(e) => {
            mc.check(false, &format!("{}:neg", E::NAME), || format!("neg({a:x?}) panics: {e}"));
        }
    }
    if let Ok(t) = guard(|| {
        let mut t = x;
        t.negate();
        t
    }) {
        c.e("negate", a, &[], t, &zip(&z, &la, sub), d);
    }
    let mut t = x;
    t.double();
    c.e("double", a, &[], t, &zip(&la, &la, add), d);
    t = x;
    t.square();
    c.e("square", a, &[], t, &rmul::<E>(a, a), d);
    mc.check(x.is_zero() == (la == z), &format!("{}:is_zero", E::NAME), || format!("is_zero({a:x?})"));
    if la != z {
        let i = rinv::<E>(a);
        c.e("inv", a, &[], x.inv(), &i, d);
        let v = fields::Field::inverse(&x);
        mc.check(v.is_some(), &format!("{}:inverse", E::NAME), || format!("inverse({a:x?}) is None"));
        if let Some(v) = v {
            c.e("inverse", a, &[], v, &i, d);
        }
    }
    for &s in exps {
        if s < P {
            c.e("mul_scalar", a, &[s], x.mul_scalar(s as usize), &rmul::<E>(a, &[s]), d);
        }
    }
    mc.check(x.as_int() == a[0], &format!("{}:as_int", E::NAME), || format!("as_int({a:x?})"));
    if d == 1 {
        mc.check(x.to_be().as_int() == a[0], &format!("{}:to_be", E::NAME), || format!("{a:x?}"));
    }
    let y = E::mk(a);
    mc.check(h(&x) == h(&y), &format!("{}:hash", E::NAME), || format!("{a:x?}"));
    let want = if d == 1 {
        format!("{}", a[0])
    } else {
        format!("[{}]", a.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","))
    };
    mc.check(format!("{x}") == want, &format!("{}:display", E::NAME), || format!("{x} for {want}"));
}

fn elems<E: Ext>(cs: &[u64]) -> Vec<V> {
    let n = cs.len().pow(E::N as u32);
    let mut r = vec![];
    for k in 0..n {
        let mut t = k;
        let mut v = vec![];
        for _ in 0..E::N {
            v.push(cs[t % cs.len()]);
            t /= cs.len();
        }
        r.push(v);
    }
    r
}

fn field<E: Ext>(mc: &Mc, coords: &[u64], dense: usize) {
    let full = elems::<E>(coords);
    let base = special(dense);
    let scal: Vec<V> = base.iter().map(|x| vec![*x]).collect();
    // a thinner lattice with values that are not structured
    let mut odd: Vec<V> = vec![];
    for i in 0..mc.pick(40, 120) {
        let mut v: V = (0..E::N as u64).map(|k| mix(i * 131 + k) % P).collect();
        odd.push(v.clone());
        for k in 0..E::N {
            let s = v[k];
            v[k] = 0;
            odd.push(v.clone());
            v[k] = s;
        }
    }
    full.par_iter().for_each(|a| {
        for b in &full {
            pair::<E>(mc, a, b, false);
        }
    });
    let mid: Vec<V> = full.iter().step_by(1 + full.len() / mc.pick(150, 600)).cloned().chain(odd).chain(scal.iter().step_by(1 + scal.len() / 60).cloned()).collect();
    mid.par_iter().for_each(|a| {
        for b in &mid {
            pair::<E>(mc, a, b, true);
        }
    });
    scal.par_iter().for_each(|a| {
        for b in &scal {
            pair::<E>(mc, a, b, false);
        }
        for b in full.iter().step_by(1 + full.len() / 40) {
            pair::<E>(mc, a, b, false);
            pair::<E>(mc, b, a, false);
        }
    });
    let ex = [0u64, 1, 2, 3, P - 1, (1 << 32) - 1, 1 << 32, 12345678901];
    full.par_iter().chain(&mid).chain(&scal).for_each(|a| unary::<E>(mc, a, &ex));
    let pairs = (full.len() * full.len() + mid.len() * mid.len() + scal.len() * scal.len() + scal.len() * 80) as u64;
    mc.states(pairs + (full.len() + mid.len() + scal.len()) as u64);
    mc.transitions(pairs * 8);
    mc.traces(pairs * 8);
    mc.evals(pairs, pairs - (full.len() * 2) as u64);
    // division and exponentiation
    let thin: Vec<V> = mid.iter().step_by(1 + mid.len() / mc.pick(60, 200)).cloned().collect();
    thin.par_iter().for_each(|a| {
        for b in &thin {
            if lift::<E>(b).iter().any(|v| *v != 0) {
                let w = rmul::<E>(a, &rinv::<E>(b));
                let d = a.len().max(b.len());
                Ck(mc).e("div", a, b, E::mk(a) / E::mk(b), &w, d);
                let mut t = E::mk(a);
                t /= E::mk(b);
                Ck(mc).e("/=", a, b, t, &w, d);
            }
        }
        let mut es: Vec<u64> = (0..=40).collect();
        for i in 0..64 {
            es.extend([1u64 << i, (1u64 << i).wrapping_sub(1), !(1u64 << i)]);
        }
        es.extend([P - 1, P, P + 1]);
        for e in es {
            let g = E::mk(a).exp(e as usize);
            let w = rpow::<E>(a, e);
            mc.check(val(&g) == w, &format!("{}:exp", E::NAME), || format!("exp({a:x?},{e}) = {:x?}, want {w:x?}", val(&g)));
        }
    });
    let n = (thin.len() * (2 * thin.len() + 236)) as u64;
    mc.transitions(n);
    mc.traces(n);
    // batch inverse: every vector of bounded length over a small set, mixed dimensions
    let set: Vec<V> = vec![vec![1], vec![P - 1], vec![7], full[full.len() - 1].clone(), mid[mid.len() / 2].clone(), lift::<E>(&[5])];
    let set: Vec<V> = set.into_iter().filter(|v| v.iter().any(|x| *x != 0)).collect();
    let maxl = mc.pick(5usize, 7);
    let invs: Vec<V> = set.iter().map(|v| rinv::<E>(v)).collect();
    let mut cnt = 0u64;
    for l in 0..=maxl {
        let tot = set.len().pow(l as u32);
        cnt += tot as u64;
        (0..tot).into_par_iter().for_each(|k| {
            let mut t = k;
            let mut ix = vec![];
            for _ in 0..l {
                ix.push(t % set.len());
                t /= set.len();
            }
            let v: Vec<E> = ix.iter().map(|i| E::mk(&set[*i])).collect();
            let r = batch_inverse(&v);
            let ok = r.len() == l && r.iter().zip(&ix).all(|(g, i)| val(g) == invs[*i]);
            mc.check(ok, &format!("{}:batch_inverse", E::NAME), || format!("batch_inverse of {ix:?} over {set:x?}"));
        });
    }
    for l in [64usize, 1000, 4097] {
        let v: Vec<E> = (0..l).map(|i| E::mk(&full[1 + (mix(i as u64) as usize) % (full.len() - 1)])).filter(|x| val(x).iter().any(|v| *v != 0)).collect();
        let r = batch_inverse(&v);
        let ok = v.iter().zip(&r).all(|(a, b)| val(&(*a * *b)) == lift::<E>(&[1]));
        mc.check(ok && r.len() == v.len(), &format!("{}:batch_inverse", E::NAME), || format!("long batch {l}"));
    }
    mc.states(cnt);
    mc.traces(cnt);
    // constants and conversions
    let n = E::NAME;
    mc.check(val(&E::ZERO) == lift::<E>(&[0]) && val(&E::ONE) == lift::<E>(&[1]) && E::ZERO.dim() == 1 && E::ONE.dim() == 1, &format!("{n}:constants"), || "ZERO/ONE".into());
    mc.check(val(&E::ZEROS) == lift::<E>(&[0]) && val(&E::ONES) == lift::<E>(&[1]) && E::ZEROS.dim() == E::N && E::ONES.dim() == E::N, &format!("{n}:constants"), || "ZEROS/ONES".into());
    mc.check(val(&E::zero()) == lift::<E>(&[0]) && val(&E::one()) == lift::<E>(&[1]), &format!("{n}:constants"), || "zero/one".into());
    for &a in &base {
        mc.check(val(&E::from(a)) == lift::<E>(&[a]) && val(&E::from(a as usize)) == lift::<E>(&[a]) && val(&E::from(Fr::from(a))) == lift::<E>(&[a]), &format!("{n}:from"), || format!("from {a:#x}"));
        mc.check(E::from(a).dim() == 1, &format!("{n}:from"), || "dim".into());
    }
    mc.section(n, json!({"lattice": full.len(), "mixed": mid.len(), "scalars": scal.len(), "pairs": pairs, "batch_inverse_vectors": cnt}));
    for i in 0..4 {
        mc.sample(json!({"field": n, "a": format!("{:x?}", full[(i * 97 + 31) % full.len()]), "b": format!("{:x?}", mid[(i * 53 + 7) % mid.len()])}));
    }
}

/// `From` conversions that differ per type
fn conversions(mc: &Mc) {
    macro_rules! conv {
        ($t:ty, $n:expr) => {{
            for v in [0i32, 1, 2, 255, 65535, i32::MAX, -1, -2, -12345, i32::MIN] {
                let want = if v < 0 { neg(v.unsigned_abs() as u64) } else { v as u64 };
                for (k, r) in [("From<i32>", guard(|| <$t>::from(v))), ("From<&i32>", guard(|| <$t>::from(&v)))] {
                    mc.check(r.as_ref().map(|x| x.as_int() == want && x.dim == 1).unwrap_or(false), &format!("{}:{k}", $n), || format!("{v} -> {r:?}"));
                }
            }
            for v in [0u32, 1, 255, 65536, u32::MAX] {
                mc.check(<$t>::from(v).as_int() == v as u64, &format!("{}:from_u32", $n), || format!("{v}"));
                mc.check(<$t>::from(v as u16).as_int() == (v as u16) as u64, &format!("{}:from_u16", $n), || format!("{v}"));
                mc.check(<$t>::from(v as u8).as_int() == (v as u8) as u64, &format!("{}:from_u8", $n), || format!("{v}"));
                mc.check(<$t>::from(&(v as usize)).as_int() == v as u64, &format!("{}:from_usize", $n), || format!("{v}"));
            }
            let mut vs = special(8);
            vs.extend((0..600u64).map(|i| P.wrapping_add(i)));
            vs.extend((0..64u64).map(|i| u64::MAX - i));
            for v in vs {
                let r = guard(|| <$t>::from(v.to_le_bytes()));
                mc.check(r.as_ref().map(|x| x.as_int() == v % P).unwrap_or(false), &format!("{}:From<[u8;8]>", $n), || format!("bytes of {v:#x} -> {r:?}, documented to reduce"));
            }
        }};
    }
    conv!(F3G, "F3G");
    conv!(F5G, "F5G");
}

pub fn run(mc: &Mc) {
    mc.rule("all ordered pairs of the coordinate lattice (every combination of boundary coordinates), of a mixed-dimension set and of base-field boundary values, under every operation; all vectors up to the stated length for batch_inverse; pairs with both operands other than zero count as non-trivial");
    let c3 = [0, 1, 2, P - 1, (1 << 32) - 1, 1 << 32, (P - 1) / 2, P - 2, 0xdead_beef_1234_5678, 1 << 63];
    let c5 = [0, 1, P - 1, (1 << 32) - 1, 0x9E37_79B9_7F4A_7C15];
    field::<F3G>(mc, &c3[..mc.pick(7, 10)], mc.pick(8, 64));
    field::<F5G>(mc, &c5[..mc.pick(4, 5)], mc.pick(8, 64));
    conversions(mc);
    mc.assume("coordinates bounded to the boundary values listed; dimension is 1 or the extension degree");
}
