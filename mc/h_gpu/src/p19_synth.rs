//! P19: a circuit file and a witness become the constraint system they describe.
use crate::api;
use crate::model::*;
use mc_common::*;
use num_bigint::BigUint;
use rayon::prelude::*;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn model(c: &Circ) -> Synth {
    let at = |i: usize| c.witness.as_ref().map_or(vec![], |w| w[c.map.as_ref().map_or(i, |m| m[i])].clone());
    let var = |i: usize| if i < c.inputs { V::In(i) } else { V::Aux(i - c.inputs + c.offset) };
    Synth {
        keygen: c.witness.is_none(),
        inputs: (1..c.inputs).map(at).collect(),
        aux: (c.inputs..c.inputs + c.aux).map(at).collect(),
        cons: c
            .cons
            .iter()
            .filter(|[a, b, k]| !((a.is_empty() || b.is_empty()) && k.is_empty()))
            .map(|x| x.clone().map(|l| l.into_iter().map(|(i, c)| (var(i), c)).collect()))
            .collect(),
    }
}
/// terms of one variable added up, zero terms dropped
fn canon(f: Fld, s: &Synth) -> Synth {
    let mut s = s.clone();
    for l in s.cons.iter_mut().flatten() {
        let mut m = std::collections::BTreeMap::<V, BigUint>::new();
        for (v, c) in l.iter() {
            let e = m.entry(*v).or_default();
            *e = (&*e + BigUint::from_bytes_le(c)) % f.p();
        }
        *l = m.into_iter().filter(|x| x.1 != BigUint::default()).map(|(v, c)| (v, f.le(&c))).collect();
    }
    s
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    let n = AtomicU64::new(0);
    let mut last = 0;
    let mut sec = |name: &str, n: &AtomicU64| {
        let k = n.load(Relaxed) - last;
        last += k;
        mc.states(k);
        mc.transitions(k);
        mc.traces(k);
        mc.evals(k, k);
        mc.section(name, json!({ "cases": k, "crate": api::NAME }));
    };
    for f in api::synth_fields() {
        let c = f.values();
        let lc = |w: &[usize], o: usize| -> Lc { w.iter().enumerate().map(|(i, w)| (*w, f.le(&c[(i * 3 + o) % c.len()]))).collect() };
        let mut all: Vec<Circ> = vec![];
        let wit = |k: usize, o: usize| -> Vec<Vec<u8>> { (0..k).map(|i| if i == 0 { f.le(&BigUint::from(1u8)) } else { f.le(&c[(i * 5 + o) % c.len()]) }).collect() };
        // sizes, offsets, wire maps
        for inputs in 1..5usize {
            for aux in 0..5usize {
                let k = inputs + aux;
                let mut maps: Vec<(Option<Vec<usize>>, usize)> = vec![(None, k), (Some((0..k).collect()), k)];
                maps.push((Some(std::iter::once(0).chain((1..k).rev()).collect()), k));
                maps.push((Some((0..k).map(|i| i * 2).collect()), 2 * k));
                maps.push((Some((0..k).map(|i| if i == 0 { 0 } else { k + 3 - i }).collect()), k + 4));
                maps.push((Some((0..k).map(|i| i / 2).collect()), k));
                for (map, size) in maps {
                    for offset in [0usize, 1, 7] {
                        let cons = (0..k).map(|i| [lc(&[i], 1), lc(&[k - 1, 0], 2), lc(&[(i + 1) % k, i], 4)]).collect::<Vec<_>>();
                        for w in [None, Some(wit(size, offset)), Some(wit(size + 3, 1))] {
                            all.push(Circ { inputs, aux, cons: cons.clone(), witness: w, map: map.clone(), offset });
                        }
                    }
                }
            }
        }
        // constraint shapes, among them those that say nothing
        let shapes = words(4, 2);
        for a in &shapes {
            for b in &shapes {
                for d in &shapes {
                    let x = [lc(a, 1), lc(b, 2), lc(d, 3)];
                    let y = [lc(&[1], 2), lc(&[2], 2), lc(&[3], 2)];
                    all.push(Circ { inputs: 2, aux: 2, cons: vec![y.clone(), x, y], witness: Some(wit(4, 1)), map: None, offset: 0 });
                }
            }
        }
        for l in words(4, mc.pick(4, 5)) {
            for k in 0..3 {
                let mut x = [lc(&[1], 1), lc(&[2], 2), lc(&[3], 3)];
                x[k] = lc(&l, 1);
                all.push(Circ { inputs: 2, aux: 2, cons: vec![x], witness: Some(wit(4, 2)), map: None, offset: 1 });
            }
        }
        // every value as coefficient and as witness
        for v in &c {
            for k in 0..3 {
                let mut x = [lc(&[1], 1), lc(&[2], 2), lc(&[3], 3)];
                x[k] = vec![(2, f.le(v)), (0, f.le(&c[1])), (3, f.le(v))];
                let mut w = wit(4, 1);
                w[k + 1] = f.le(v);
                all.push(Circ { inputs: 3, aux: 1, cons: vec![x], witness: Some(w), map: None, offset: 0 });
            }
        }
        all.par_iter().for_each(|x| {
            let key = format!("{f:?} {} {} {:?} {:?} {}", x.inputs, x.aux, x.map, x.cons.iter().map(|c| c.clone().map(|l| l.iter().map(|t| t.0).collect::<Vec<_>>())).collect::<Vec<_>>(), x.offset);
            n.fetch_add(1, Relaxed);
            // keys are only made in a mode that does not ask for values
            let r = api::synth(f, x);
            let w = model(x);
            mc.check(r.as_ref().is_ok_and(|r| canon(f, r) == canon(f, &w)), &key, || format!("{x:?} becomes {r:?}, not {w:?}"));
            let p = api::publics(f, x);
            let want = x.witness.as_ref().map(|_| w.inputs.clone());
            let text: Vec<String> = want.iter().flatten().map(|b| BigUint::from_bytes_le(b).to_string()).collect();
            let ok = p.as_ref().is_ok_and(|(v, t)| *v == want && (!api::decimals(f) || serde_json::from_str::<Vec<String>>(t).ok() == Some(text.clone())));
            mc.check(ok, &key, || format!("{x:?} has public inputs {p:?}, not {text:?}"));
        });
        sec(&format!("synthesis over {f:?}"), &n);
    }
    api::end_to_end(mc, &n);
    sec("end to end", &n);
    mc.rule("cells: one circuit with its witness synthesized into a recording constraint system");
}
