//! Constraint expressions: every small expression, as a public computed from the trace on every
//! row, as a polynomial identity, and inside a named expression, means what it says.
use crate::air::*;
use crate::p12_tamper::spread;
use crate::refs;
use crate::stark::*;
use mc_common::*;
use serde_json::json;
use starky::traits::FieldExtension;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const NUMS: &[&str] = &[
    "0", "1", "2", "-1", "-2", "18446744069414584320", "18446744069414584321", "18446744069414584322",
    "18446744073709551615", "18446744073709551616", "-18446744069414584320", "-18446744069414584321",
    "-18446744069414584322", "-36893488138829168643", "170141183460469231731687303715884105727",
    "-170141183460469231731687303715884105728", "0x0", "0xff", "0xFFFFFFFF00000001", "0xffffffffffffffffffff",
    "4294967295", "4294967296",
];

/// two trace columns, two constants, two named expressions (the second uses the next row of the first)
fn base(bits: usize) -> Air {
    let mut a = Air::new("exprs", bits);
    a.kcol(|r| val(r + 3));
    a.kcol(|r| val(r * 5 + 1));
    a.wcol(|r| val(r + 40));
    a.wcol(|r| val(r * 3 + 7));
    a.e(mul(cm(0), k(0)));
    a.e(sub(E(0, true), cm(1)));
    a
}
fn leaves(wide: bool) -> Vec<X> {
    let mut v = vec![cm(0), cmn(1), k(1), n(-7), E(1, false)];
    if wide {
        v.extend([cm(1), cmn(0), K(0, true), k(0), E(0, true), E(0, false)]);
    }
    v
}
fn up(v: &[X], w: &[X]) -> Vec<X> {
    let mut out = vec![];
    for x in v {
        for y in w {
            out.extend([add(x.clone(), y.clone()), sub(x.clone(), y.clone()), mul(x.clone(), y.clone())]);
        }
        out.push(neg(x.clone()));
        out.push(AddC(Box::new(x.clone()), 11));
        out.push(MulC(Box::new(x.clone()), -9));
    }
    out
}
/// trees of one operator over wide leaves, of two levels over few
fn trees(mc: &Mc) -> Vec<X> {
    let wide = leaves(true);
    let few = leaves(false);
    let mut v = wide.clone();
    v.extend(up(&wide, &wide));
    let one = up(&few, &few);
    let src = if mc.thorough() { up(&wide, &wide) } else { one.clone() };
    v.extend(up(&one, &few));
    v.extend(up(&few, &one).into_iter().filter(|x| matches!(x, Add(..) | Sub(..) | Mul(..))));
    v.extend(up(&src, &one).into_iter().filter(|x| matches!(x, Add(..) | Sub(..) | Mul(..))));
    v
}
/// one circuit for several expressions: column 2+i equals expression i; expression i is also read
/// as a public on row i mod rows
fn pack(bits: usize, xs: &[X]) -> (Air, Vec<usize>) {
    let mut a = base(bits);
    let mut cols = vec![];
    for (i, x) in xs.iter().enumerate() {
        let v: Vec<u64> = (0..a.rows()).map(|r| a.eval(x, r, &[])).collect();
        let c = a.wcol(|r| v[r]);
        cols.push(c);
        // inline, through a name, and with the name's next row where nothing is shifted twice
        let e = a.e(x.clone());
        match i % 3 {
            0 => a.id(sub(cm(c), x.clone())),
            1 => a.id(sub(E(e, false), cm(c))),
            _ if !x.has_next(&a) => a.id(sub(cmn(c), E(e, true))),
            _ => a.id(sub(x.clone(), cm(c))),
        };
        a.pubs.push((true, e, i % a.rows()));
    }
    a.name = format!("exprs[{}..]", xs[0].show());
    (a, cols)
}

/// proves, verifies, compares publics; then one wrong cell per column in turn must be refused
fn one(mc: &Mc, a: &Air, cols: &[usize], par: &Par, bad: usize, n: &AtomicU64) {
    let key = format!("{}:{}", a.name, par.show());
    let i = match Inst::<Gl>::new(a, par) {
        Ok(i) => i,
        Err(e) => {
            mc.check(false, &key, || format!("setup failed: {e}"));
            return;
        }
    };
    let p = match i.prove(a) {
        Ok(p) => p,
        Err(e) => {
            mc.check(false, &key, || format!("prover failed: {e}"));
            return;
        }
    };
    let want = a.publics();
    for (k, w) in want.iter().enumerate() {
        let got = p.publics[k].to_be().as_int();
        n.fetch_add(1, Relaxed);
        mc.check(got == *w, &format!("{key}:{}", a.ex[a.pubs[k].1].show()), || {
            format!("the expression is {w} on row {}, computed as {got}", a.pubs[k].2)
        });
    }
    let v = i.verify(&p);
    mc.check(v == Ok(true), &key, || format!("the columns equal the expressions, verifier: {v:?}"));
    let cols: Vec<usize> = if bad == 0 { cols.to_vec() } else { cols.iter().copied().skip(bad % 7).step_by(bad).collect() };
    for c in cols {
        let mut b = a.clone();
        let r = c % b.rows();
        b.w[c][r] = refs::add(b.w[c][r], 1);
        let v = outcome(&i, &b);
        n.fetch_add(1, Relaxed);
        mc.check(v != Ok(true), &format!("{key}:column {c} row {r}"), || "accepted although a column differs from its expression".into());
    }
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    let n = AtomicU64::new(0);
    let sec = |name: &str, items: usize| {
        let k = n.swap(0, Relaxed);
        mc.states(items as u64);
        mc.traces(k);
        mc.transitions(k);
        mc.evals(k, k);
        mc.section(name, json!({"expressions": items, "cases": k}));
    };
    // 1. small trees; the extension is the smallest for the deepest product in the circuit
    let all = trees(mc);
    let items: Vec<Vec<X>> = all.chunks(24).map(|c| c.to_vec()).collect();
    spread(items.iter().enumerate().collect(), |(i, xs)| {
        let (a, cols) = pack(2, xs);
        one(mc, &a, &cols, &Par::new(2, 3, 2, &[4]), mc.pick(8, 1), &n);
        if i % 500 == 0 {
            mc.sample(json!({"expressions": xs.iter().map(|x| x.show()).collect::<Vec<_>>()}));
        }
    });
    sec("expression trees", all.len());
    // 2. every tree of one operator with its own circuit, on several sizes and with the fewest
    //    extension bits, so that products are split into intermediate columns
    let mut items = vec![];
    for x in up(&leaves(true), &leaves(true)) {
        for b in mc.pick(vec![3], vec![2, 3, 4, 5]) {
            for e in 1..=2 {
                items.push((x.clone(), b, e));
            }
        }
    }
    let len = items.len();
    spread(items, |(x, b, e)| {
        let (a, cols) = pack(b, &[x.clone(), mul(x.clone(), k(1)), add(x, cm(0))]);
        if fits(&a, e) {
            one(mc, &a, &cols, &Par::new(b, e, 2, &[3]), 0, &n);
        }
    });
    sec("expression trees on their own", len);
    // 3. literals in every notation
    let mut xs = vec![];
    for s in NUMS {
        let l = N(s.to_string());
        xs.extend([add(cm(0), l.clone()), sub(l.clone(), cmn(1)), mul(k(0), l.clone()), mul(l.clone(), E(1, false)), neg(l.clone())]);
    }
    for c in [0i64, 1, -1, 1 << 32, i64::MAX, i64::MIN + 1, -(1 << 32)] {
        xs.push(AddC(Box::new(cm(0)), c));
        xs.push(MulC(Box::new(cmn(0)), c));
        xs.push(MulC(Box::new(E(0, true)), c));
    }
    let len = xs.len();
    spread(xs.chunks(8).map(|c| c.to_vec()).collect(), |xs| {
        let (a, cols) = pack(3, &xs);
        one(mc, &a, &cols, &Par::new(3, 2, 2, &[3]), 0, &n);
    });
    sec("literals", len);
    // 4. publics inside expressions, and every row a public can be read from
    let mut items = vec![];
    for b in mc.pick(vec![2, 3], vec![2, 3, 4, 5]) {
        for r in 0..1usize << b {
            for x in up(&leaves(true), &leaves(false)) {
                items.push((b, r, x));
            }
        }
    }
    let len = items.len();
    let packed: Vec<(usize, Vec<(usize, X)>)> = [2, 3, 4, 5]
        .iter()
        .flat_map(|b| {
            let v: Vec<(usize, X)> = items.iter().filter(|i| i.0 == *b).map(|i| (i.1, i.2.clone())).collect();
            v.chunks(20).map(|c| (*b, c.to_vec())).collect::<Vec<_>>()
        })
        .collect();
    spread(packed, |(b, xs)| {
        let mut a = base(b);
        a.name = format!("publics[{}..]", xs[0].1.show());
        a.global_l1();
        let l1 = a.l1.as_ref().unwrap().1;
        for (r, x) in &xs {
            let e = a.e(x.clone());
            a.pubs.push((true, e, *r));
        }
        let ps = a.publics();
        // a column that holds combinations of the publics
        let c = a.wcol(|r| if r == 0 { refs::add(refs::mul(ps[0], ps[ps.len() - 1]), 3) } else { val(r) });
        a.id(mul(k(l1), sub(cm(c), add(mul(Pub(0), Pub(ps.len() - 1)), n0(3)))));
        for (i, p) in ps.iter().enumerate() {
            let c = a.wcol(|r| if r == 0 { *p } else { val(r + i) });
            a.id(mul(sub(Pub(i), cm(c)), k(l1)));
        }
        let cols: Vec<usize> = (c..a.w.len()).collect();
        // the corrupted row of column c is c mod rows: only row 0 is constrained
        let cols: Vec<usize> = cols.into_iter().filter(|c| c % a.rows() == 0).collect();
        one(mc, &a, &cols, &Par::new(b, 2, 2, &[3]), 0, &n);
    });
    sec("publics and rows", len);
    mc.rule("cells: an expression on a row (value against the definition), a column claimed to equal an expression (accepted, and refused with one cell changed)");
}
fn n0(v: i64) -> X {
    N(v.to_string())
}
