//! P01: the Goldilocks field type implements GF(p), p = 2^64 - 2^32 + 1, for every operand.
//! States are pairs of field elements in Montgomery and in canonical form, transitions the
//! field operations; every transition of the bounded space is compared with u128 arithmetic.
use crate::refs::*;
use fields::field_gl::{Fr, FrRepr};
use fields::{Field, LegendreSymbol, PrimeField, PrimeFieldRepr, SqrtField};
use mc_common::*;
use rayon::prelude::*;
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn f(x: u64) -> Fr {
    Fr::from(x)
}
fn raw(x: u64) -> Fr {
    Fr::from_raw_repr(FrRepr([x])).unwrap()
}
/// canonical value and representation invariant (raw limb below p)
fn val(mc: &Mc, x: &Fr, op: &str) -> u64 {
    let r = x.into_raw_repr().0[0];
    mc.check(r < P, &format!("non-reduced:{op}"), || format!("{op} left raw limb {r:#x} >= p"));
    x.as_int()
}
/// the value of a raw Montgomery limb, from the definition: raw * R^-1, R = one's raw limb
fn unmont(r: u64) -> u64 {
    mul(r, inv(0xFFFF_FFFE_0000_0001))
}
fn hash(x: &Fr) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// all binary operations on one pair
fn pair(mc: &Mc, x: Fr, y: Fr, a: u64, b: u64) {
    let e = |op: &str, got: Fr, want: u64| {
        let g = val(mc, &got, op);
        mc.check(g == want, &format!("{op}"), || format!("{op}({a:#x},{b:#x}) = {g:#x}, want {want:#x}"));
    };
    e("add", x + y, add(a, b));
    e("sub", x - y, sub(a, b));
    e("mul", x * y, mul(a, b));
    let mut t = x;
    t.add_assign(&y);
    e("add_assign", t, add(a, b));
    let mut t = x;
    t.sub_assign(&y);
    e("sub_assign", t, sub(a, b));
    let mut t = x;
    t.mul_assign(&y);
    e("mul_assign", t, mul(a, b));
    let ord = x.cmp(&y);
    mc.check(ord == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "cmp", || format!("cmp({a:#x},{b:#x}) = {ord:?}"));
    mc.check((x == y) == (a == b), "eq", || format!("eq({a:#x},{b:#x})"));
}

fn unary(mc: &Mc, x: Fr, a: u64) {
    let e = |op: &str, got: Fr, want: u64| {
        let g = val(mc, &got, op);
        mc.check(g == want, op, || format!("{op}({a:#x}) = {g:#x}, want {want:#x}"));
    };
    e("identity", x, a);
    mc.check(x.as_int() == a && x.into_repr().0[0] == a && FrRepr::from(x).0[0] == a, "as_int", || format!("as_int({a:#x})"));
    e("neg", -x, neg(a));
    let mut t = x;
    t.negate();
    e("negate", t, neg(a));
    t = x;
    t.double();
    e("double", t, add(a, a));
    t = x;
    t.square();
    e("square", t, mul(a, a));
    t = x;
    t.frobenius_map(1);
    e("frobenius", t, a);
    mc.check(x.is_zero() == (a == 0), "is_zero", || format!("is_zero({a:#x})"));
    if a != 0 {
        let i = x.inverse();
        mc.check(i.is_some(), "inverse", || format!("inverse({a:#x}) is None"));
        if let Some(i) = i {
            e("inverse", i, inv(a));
        }
    }
    let l = if a == 0 { 0 } else if pow(a, (P - 1) / 2) == 1 { 1 } else { 2 };
    let g = match x.legendre() {
        LegendreSymbol::Zero => 0,
        LegendreSymbol::QuadraticResidue => 1,
        LegendreSymbol::QuadraticNonResidue => 2,
    };
    mc.check(l == g, "legendre", || format!("legendre({a:#x}) = {g}, want {l}"));
    match x.sqrt() {
        None => {
            mc.check(l == 2, "sqrt", || format!("sqrt({a:#x}) = None"));
        }
        Some(s) => {
            let s = val(mc, &s, "sqrt");
            mc.check(mul(s, s) == a, "sqrt", || format!("sqrt({a:#x}) = {s:#x}"));
        }
    }
    let disp = format!("{x}");
    mc.check(disp == format!("Fr(0x{a:016x})"), "display", || format!("{a:#x} -> {disp}"));
    let s = Fr::from_str(&a.to_string());
    mc.check(s == Some(x), "from_str", || format!("from_str({a})"));
    mc.check(hash(&x) == hash(&f(a)), "hash", || format!("hash of equal elements differs ({a:#x})"));
    let js = serde_json::to_string(&x).unwrap();
    let back: Result<Fr, _> = serde_json::from_str(&js);
    mc.check(back.ok() == Some(x), "serde", || format!("serde round trip of {a:#x} via {js}"));
}

pub fn run(mc: &Mc) {
    mc.rule("every pair (a,b) of the boundary set in canonical and in Montgomery form, every pair (a, r/a), (a, r-a), (a, a-r) that produces a boundary result r, every element x exponent of the boundary sets, and every operation sequence of bounded depth over a 12-element set; pairs with both operands outside {0,1} count as non-trivial");
    let dense = mc.pick(48, 600);
    let c = special(dense);
    // canonical x canonical and raw x raw
    c.par_iter().for_each(|&a| {
        for &b in &c {
            pair(mc, f(a), f(b), a, b);
            pair(mc, raw(a), raw(b), unmont(a), unmont(b));
        }
    });
    let n = (c.len() * c.len() * 2) as u64;
    mc.states(n);
    mc.transitions(n * 8);
    mc.traces(n * 8);
    mc.evals(n, ((c.len() - 2) * (c.len() - 2) * 2) as u64);
    mc.section("boundary pairs", json!({"boundary_values": c.len(), "pairs": n}));
    // pairs hitting every boundary result of every operation, in raw limbs: a (+,-,*) b = r
    let rdense = mc.pick(40, 256);
    let rs = special(rdense);
    let base = special(mc.pick(16, 96));
    let montr = 0xFFFF_FFFE_0000_0001u64;
    base.par_iter().for_each(|&a| {
        for &r in &rs {
            // sums/differences of raw limbs around p and 2^64
            pair(mc, raw(a), raw(sub(r, a)), unmont(a), unmont(sub(r, a)));
            pair(mc, raw(a), raw(sub(a, r)), unmont(a), unmont(sub(a, r)));
            let w = r.wrapping_sub(a);
            if w < P {
                pair(mc, raw(a), raw(w), unmont(a), unmont(w));
            }
            if a != 0 {
                // raw product a*b*R^-1 = r
                let b = mul(mul(r, montr), inv(a));
                pair(mc, raw(a), raw(b), unmont(a), unmont(b));
                let b = mul(r, inv(a));
                pair(mc, f(a), f(b), a, b);
                pair(mc, f(b), f(a), b, a);
            }
        }
    });
    let n = (base.len() * rs.len() * 6) as u64;
    mc.states(n);
    mc.transitions(n * 8);
    mc.traces(n * 8);
    mc.evals(n, n);
    mc.section("pairs hitting boundary results", json!({"operands": base.len(), "results": rs.len(), "pairs": n}));
    // division
    let dv = special(mc.pick(4, 96));
    dv.par_iter().for_each(|&a| {
        for &b in &dv {
            if b != 0 {
                let g = val(mc, &(f(a) / f(b)), "div");
                let w = mul(a, inv(b));
                mc.check(g == w, "div", || format!("{a:#x}/{b:#x} = {g:#x}, want {w:#x}"));
            }
        }
    });
    mc.transitions((dv.len() * dv.len()) as u64);
    mc.traces((dv.len() * dv.len()) as u64);
    // unary
    let u = special(mc.pick(600, 20000));
    u.par_iter().for_each(|&a| {
        unary(mc, f(a), a);
        unary(mc, raw(a), unmont(a));
    });
    mc.states(2 * u.len() as u64);
    mc.transitions(2 * 14 * u.len() as u64);
    mc.traces(2 * 14 * u.len() as u64);
    mc.section("unary", json!({"elements": 2 * u.len(), "operations": 14}));
    // exponentiation: exponents are 64-bit integers, reduced or not
    let mut ex: Vec<u64> = special(mc.pick(4, 24));
    for i in 0..64 {
        ex.push(1u64 << i);
        ex.push((1u64 << i).wrapping_sub(1));
        ex.push(!(1u64 << i));
        ex.push(u64::MAX << i);
    }
    ex.extend([P, P + 1, P - 1, u64::MAX, u64::MAX - 1, 7, 11, 0]);
    ex.sort();
    ex.dedup();
    let xb = special(mc.pick(1, 8));
    xb.par_iter().for_each(|&a| {
        for &e in &ex {
            let w = pow(a, e);
            let g = val(mc, &f(a).exp(e), "exp");
            mc.check(g == w, "exp", || format!("exp({a:#x},{e:#x}) = {g:#x}, want {w:#x}"));
            let g = val(mc, &f(a).pow([e]), "pow");
            mc.check(g == w, "pow", || format!("pow({a:#x},{e:#x}) = {g:#x}, want {w:#x}"));
        }
    });
    let n = (xb.len() * ex.len()) as u64;
    mc.states(n);
    mc.transitions(2 * n);
    mc.traces(2 * n);
    mc.section("exponentiation", json!({"bases": xb.len(), "exponents": ex.len()}));
    // range checks: values >= p are refused, exhaustively over a window (thorough: all of them)
    let span: u64 = mc.pick(1 << 24, u64::MAX - P + 1);
    let chunk = 1u64 << 16;
    (0..span.div_ceil(chunk)).into_par_iter().for_each(|c| {
        for k in c * chunk..((c + 1) * chunk).min(span) {
            for v in [P.wrapping_add(k), u64::MAX - k] {
                if v < P {
                    continue;
                }
                let ok = Fr::from_repr(FrRepr([v])).is_err() && Fr::from_raw_repr(FrRepr([v])).is_err();
                mc.check(ok, "range", || format!("non-canonical {v:#x} accepted"));
            }
        }
    });
    for &a in &c {
        mc.check(Fr::from_repr(FrRepr([a])).is_ok() && Fr::from_raw_repr(FrRepr([a])).is_ok(), "range", || format!("{a:#x} refused"));
    }
    mc.states(span);
    mc.transitions(2 * span);
    mc.traces(2 * span);
    mc.section("range checks", json!({"non_canonical_values": span}));
    // the integer type behind the element
    let mut ints: Vec<u64> = special(mc.pick(40, 400));
    ints.extend((0..512).map(|i| P.wrapping_add(i)));
    ints.extend((0..64).map(|i| u64::MAX >> i));
    ints.par_iter().for_each(|&a| {
        let r = FrRepr([a]);
        mc.check(r.is_zero() == (a == 0) && r.is_odd() == (a & 1 == 1) && r.is_even() == (a & 1 == 0), "repr-parity", || format!("{a:#x}"));
        mc.check(r.num_bits() == 64 - a.leading_zeros(), "repr-num_bits", || format!("num_bits({a:#x}) = {}", r.num_bits()));
        let mut t = r;
        t.div2();
        mc.check(t.0[0] == a >> 1, "repr-div2", || format!("{a:#x}"));
        for n in 0..130u32 {
            let (mut l, mut s) = (r, r);
            l.shl(n);
            s.shr(n);
            let (wl, ws) = if n >= 64 { (0, 0) } else { (a << n, a >> n) };
            mc.check(l.0[0] == wl, "repr-shl", || format!("{a:#x} << {n}"));
            mc.check(s.0[0] == ws, "repr-shr", || format!("{a:#x} >> {n}"));
        }
        mc.check(r.as_ref() == [a] && FrRepr::from(a) == r, "repr-from", || format!("{a:#x}"));
        let mut le = vec![];
        r.write_le(&mut le).unwrap();
        let mut be = vec![];
        r.write_be(&mut be).unwrap();
        let mut q = FrRepr([0]);
        q.read_le(&le[..]).unwrap();
        let mut q2 = FrRepr([0]);
        q2.read_be(&be[..]).unwrap();
        mc.check(le == a.to_le_bytes() && be == a.to_be_bytes() && q == r && q2 == r, "repr-bytes", || format!("{a:#x}"));
    });
    mc.transitions(ints.len() as u64 * 270);
    let sm = special(4);
    for &a in &sm {
        for &b in &sm {
            let (x, y) = (FrRepr([a]), FrRepr([b]));
            mc.check(x.cmp(&y) == a.cmp(&b), "repr-cmp", || format!("{a:#x},{b:#x}"));
            let mut t = x;
            t.sub_noborrow(&y);
            mc.check(t.0[0] == a.wrapping_sub(b), "repr-sub", || format!("{a:#x}-{b:#x}"));
            if a.checked_add(b).is_some() {
                let mut t = x;
                t.add_nocarry(&y);
                mc.check(t.0[0] == a + b, "repr-add", || format!("{a:#x}+{b:#x}"));
            }
        }
    }
    // constants of the field
    let g = Fr::multiplicative_generator().as_int();
    let gen = [2u64, 3, 5, 17, 257, 65537].iter().all(|q| pow(g, (P - 1) / q) != 1);
    mc.check(gen && g != 0, "generator", || format!("{g} does not generate the multiplicative group"));
    let w = Fr::root_of_unity().as_int();
    mc.check(pow(w, 1 << 31) == P - 1, "root_of_unity", || format!("{w:#x} is not of order 2^32"));
    mc.check(pow(w, 1 << 32) == 1 && w == pow(g, (P - 1) >> 32), "root_of_unity", || "root of unity is not generator^t".into());
    mc.check(Fr::char().0[0] == P && Fr::S == 32 && Fr::NUM_BITS == 64 && Fr::CAPACITY == 63, "constants", || "field constants".into());
    mc.check(Fr::zero().as_int() == 0 && Fr::one().as_int() == 1 && Fr::ZERO == Fr::zero() && Fr::ONE == Fr::one() && Fr::default() == Fr::zero(), "constants", || "0/1".into());
    // all operation sequences of bounded depth, without leaving the implementation in between
    let s: Vec<u64> = vec![0, 1, 2, 7, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (P - 1) / 2, P - (1 << 32), P - 2, P - 1];
    let depth = mc.pick(3, 4);
    let cnt = std::sync::atomic::AtomicU64::new(0);
    s.par_iter().for_each(|&a| {
        fn go(mc: &Mc, s: &[u64], x: Fr, a: u64, d: usize, path: &mut Vec<String>, cnt: &std::sync::atomic::AtomicU64) {
            let g = x.as_int();
            cnt.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if !mc.check(g == a && x.into_raw_repr().0[0] < P, "sequence", || format!("{path:?} -> {g:#x}, want {a:#x}")) || d == 0 {
                return;
            }
            let mut un: Vec<(&str, Fr, u64)> = vec![("neg", -x, neg(a))];
            let mut t = x;
            t.double();
            un.push(("double", t, add(a, a)));
            t = x;
            t.square();
            un.push(("square", t, mul(a, a)));
            if d == 1 && a != 0 {
                un.push(("inv", x.inverse().unwrap(), inv(a)));
            }
            for (n, y, b) in un {
                path.push(n.into());
                go(mc, s, y, b, d - 1, path, cnt);
                path.pop();
            }
            for &v in s {
                for (n, y, b) in [("add", x + f(v), add(a, v)), ("sub", x - f(v), sub(a, v)), ("mul", x * f(v), mul(a, v))] {
                    path.push(format!("{n} {v:#x}"));
                    go(mc, s, y, b, d - 1, path, cnt);
                    path.pop();
                }
            }
        }
        go(mc, &s, f(a), a, depth, &mut vec![format!("{a:#x}")], &cnt);
    });
    let n = cnt.into_inner();
    mc.states(n);
    mc.transitions(n);
    mc.traces(n);
    mc.section("operation sequences", json!({"depth": depth, "start_values": s.len(), "states": n}));
    for i in 0..6 {
        mc.sample(json!({"a": format!("{:#x}", c[i * c.len() / 6]), "b": format!("{:#x}", c[c.len() - 1 - i])}));
    }
    mc.assume("operand space bounded to the boundary sets described; exponent space to 64-bit boundary values");
}
