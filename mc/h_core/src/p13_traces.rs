//! Soundness over traces: the prover's proof for a trace is accepted exactly when the trace
//! satisfies the circuit, for every small corruption of a satisfying trace.
use crate::air::*;
use crate::refs;
use crate::stark::*;
use mc_common::*;
use rayon::prelude::*;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// the smallest extension that has room for the circuit
pub fn ext_of(a: &Air) -> usize {
    (1..9).find(|e| fits(a, *e)).unwrap()
}
fn par_of(a: &Air) -> Par {
    let e = ext_of(a);
    // the last FRI size must leave something to check: bound 1 on at least 4 points
    Par::new(a.bits, e, 4, if a.bits + e > 3 { &[3] } else { &[] })
}

/// corruptions of one cell, of two cells of a column, and of two rows
pub fn singles(a: &Air) -> Vec<(String, Air)> {
    let mut out = vec![];
    let nn = a.rows();
    for c in 0..a.w.len() {
        for r in 0..nn {
            let old = a.w[c][r];
            let mut vals = vec![refs::add(old, 1), refs::sub(old, 1), 0, a.w[c][(r + 1) % nn], a.w[(c + 1) % a.w.len()][r], refs::neg(old)];
            vals.push(refs::add(old, 1 << 32));
            vals.sort();
            vals.dedup();
            for v in vals {
                if v != old {
                    let mut b = a.clone();
                    b.w[c][r] = v;
                    out.push((format!("w{c}[{r}]={v}"), b));
                }
            }
            for s in r + 1..nn {
                if a.w[c][s] != old {
                    let mut b = a.clone();
                    b.w[c].swap(r, s);
                    out.push((format!("w{c}[{r}]<->w{c}[{s}]"), b));
                }
            }
        }
    }
    for r in 0..nn {
        for s in r + 1..nn {
            let mut b = a.clone();
            b.w.iter_mut().for_each(|c| c.swap(r, s));
            if b.w != a.w {
                out.push((format!("row {r}<->row {s}"), b));
            }
        }
    }
    out
}
/// two cells by +1/-1 (changes that cancel in sums and products)
pub fn doubles(a: &Air) -> Vec<(String, Air)> {
    let mut out = vec![];
    let nn = a.rows();
    let cells: Vec<(usize, usize)> = (0..a.w.len()).flat_map(|c| (0..nn).map(move |r| (c, r))).collect();
    for (i, x) in cells.iter().enumerate() {
        for y in &cells[i + 1..] {
            for (p, q) in [(1, 1), (1, refs::P - 1), (refs::P - 1, 1)] {
                let mut b = a.clone();
                b.w[x.0][x.1] = refs::add(b.w[x.0][x.1], p);
                b.w[y.0][y.1] = refs::add(b.w[y.0][y.1], q);
                out.push((format!("w{}[{}],w{}[{}]+={},{}", x.0, x.1, y.0, y.1, p as i64, q as i64), b));
            }
            // both to the same other value, and exchanged
            let mut b = a.clone();
            let t = b.w[x.0][x.1];
            b.w[x.0][x.1] = b.w[y.0][y.1];
            b.w[y.0][y.1] = t;
            if x.0 != y.0 && b.w != a.w {
                out.push((format!("w{}[{}]<->w{}[{}]", x.0, x.1, y.0, y.1), b));
            }
        }
    }
    out
}

fn one<K: Kind>(mc: &Mc, i: &Inst<K>, base: &Air, what: &str, b: &Air, par: &Par) -> bool {
    let want = b.valid();
    let got = outcome(i, b);
    let acc = got == Ok(true);
    let key = format!("{}:{}:{}:{what}", K::NAME, base.name, par.show());
    if let (Err(e), true) = (&got, want.is_ok()) {
        mc.check(false, &key, || format!("a satisfying trace is refused: {e}"));
    } else {
        mc.check(acc == want.is_ok(), &key, || match &want {
            Ok(()) => "a satisfying trace's proof is not accepted".into(),
            Err(e) => format!("accepted although the trace violates {e}"),
        });
    }
    want.is_ok()
}

fn walk<K: Kind>(mc: &Mc, name: &str, list: Vec<Air>, f: fn(&Air) -> Vec<(String, Air)>) {
    let (n, sat) = (AtomicU64::new(0), AtomicU64::new(0));
    let names: Vec<String> = list.iter().map(|a| a.name.clone()).collect();
    let work: Vec<(Air, Vec<(String, Air)>)> = list
        .into_par_iter()
        .flat_map_iter(|a| f(&a).chunks(200).map(|c| (a.clone(), c.to_vec())).collect::<Vec<_>>())
        .collect();
    work.par_iter().for_each(|(a, all)| {
        let par = par_of(a);
        let i = match Inst::<K>::new(a, &par) {
            Ok(i) => i,
            Err(e) => {
                mc.check(false, &format!("{}:{}", K::NAME, a.name), || format!("setup of a valid circuit failed: {e}"));
                return;
            }
        };
        for (w, b) in all {
            if one(mc, &i, a, w, b, &par) {
                sat.fetch_add(1, Relaxed);
            }
            if n.fetch_add(1, Relaxed) % 9973 == 0 {
                mc.sample(json!({"circuit": a.name, "corruption": w, "hash": K::NAME}));
            }
        }
    });
    let (n, sat) = (n.load(Relaxed), sat.load(Relaxed));
    mc.states(n);
    mc.traces(n);
    mc.transitions(n * 2);
    mc.evals(n, n - sat);
    mc.section(name, json!({"traces": n, "still_satisfying": sat, "circuits": names.len()}));
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    for b in mc.pick(vec![2, 3], vec![2, 3, 4, 5]) {
        walk::<Gl>(mc, &format!("single corruptions GL n=2^{b}"), airs(b), singles);
    }
    for b in mc.pick(vec![2], vec![2, 3]) {
        let small: Vec<Air> = airs(b).into_iter().filter(|a| a.w.len() <= mc.pick(6, 99)).collect();
        walk::<Gl>(mc, &format!("double corruptions GL n=2^{b}"), small, doubles);
    }
    for b in mc.pick(vec![2], vec![2, 3]) {
        walk::<Bn>(mc, &format!("single corruptions BN128 n=2^{b}"), airs(b), singles);
        walk::<Bls>(mc, &format!("single corruptions BLS12381 n=2^{b}"), airs(b), singles);
    }
    mc.rule("cells (circuit, corruption of the trace): prove and verify; accepted exactly when the reference semantics of the constraints hold; non-trivial when they do not");
}
