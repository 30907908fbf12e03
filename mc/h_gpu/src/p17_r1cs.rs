//! P17: circuit files. Every small circuit as the format writes it is read as written; a damaged
//! file is read as the format says or refused.
use crate::api;
use crate::model::*;
use mc_common::*;
use num_bigint::BigUint;
use rayon::prelude::*;
use serde_json::json;
use std::io::Cursor;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

type Con = [Lc; 3];
fn lc(f: Fld, w: &[usize], c: &[BigUint]) -> Lc {
    w.iter().zip(c.iter().cycle()).map(|(w, c)| (*w, f.le(c))).collect()
}
/// terms of a linear combination in the order of their wires
fn norm(c: &[Con]) -> Vec<Con> {
    c.iter()
        .map(|x| {
            x.clone().map(|mut l| {
                l.sort();
                l
            })
        })
        .collect()
}
pub fn perms(v: &[u32]) -> Vec<Vec<u32>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut o = vec![];
    for i in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(i);
        for mut p in perms(&r) {
            p.insert(0, x);
            o.push(p);
        }
    }
    o
}
fn base(f: Fld) -> File {
    let c: Vec<BigUint> = f.values();
    let n = c.len();
    File {
        f,
        h: [4, 1, 1, 1],
        n_labels: 9,
        cons: vec![
            [lc(f, &[3], &c[1..]), lc(f, &[2], &c[n - 1..]), lc(f, &[1], &c[2..])],
            [lc(f, &[2, 0], &c[n - 2..]), vec![], lc(f, &[0, 1, 3], &c[3..])],
        ],
        map: vec![0, 3, 1, 7],
        gates: vec![("CMul".into(), vec![f.le(&c[2])]), ("P".into(), vec![])],
        uses: vec![(0, vec![1, 2]), (1, vec![]), (0, vec![3])],
        order: vec![1, 2, 3, 4, 5],
    }
}
fn family(f: Fld, deep: bool) -> Vec<(String, File)> {
    let mut out = vec![];
    let c = f.values();
    let plain = File { gates: vec![], uses: vec![], order: vec![1, 2, 3], ..base(f) };
    // headers
    for o in 0..3u32 {
        for i in 0..3u32 {
            for p in 0..3u32 {
                for e in 0..3u32 {
                    let n = 1 + o + i + p + e;
                    for labels in [n as u64, 0, u32::MAX as u64 + 5, u64::MAX] {
                        let map = (0..n as u64).map(|x| if x == 0 { 0 } else { n as u64 - x }).collect();
                        let w = n as usize - 1;
                        let cons = vec![[lc(f, &[w], &c[1..]), lc(f, &[0], &c[2..]), lc(f, &[w / 2], &c[3..])]];
                        out.push((format!("header {o} {i} {p} {e} {labels}"), File { h: [n, o, i, p], n_labels: labels, map, cons, ..plain.clone() }));
                    }
                }
            }
        }
    }
    // shapes of a linear combination and places for it
    let shapes = words(4, if deep { 4 } else { 3 });
    for s in &shapes {
        for k in 0..3 {
            let mut x: Con = [lc(f, &[1], &c[1..]), lc(f, &[2], &c[2..]), lc(f, &[3], &c[3..])];
            x[k] = lc(f, s, &c[4..]);
            out.push((format!("terms {s:?} at {k}"), File { cons: vec![x.clone()], ..plain.clone() }));
            out.push((format!("terms {s:?} at {k}, between"), File { cons: vec![plain.cons[0].clone(), x, plain.cons[1].clone()], ..plain.clone() }));
        }
    }
    let few: Vec<_> = words(3, 2).into_iter().collect();
    for a in &few {
        for b in &few {
            for d in &few {
                out.push((format!("terms {a:?} {b:?} {d:?}"), File { cons: vec![[lc(f, a, &c[1..]), lc(f, b, &c[5..]), lc(f, d, &c[2..])]], ..plain.clone() }));
            }
        }
    }
    for n in [0usize, 1, 2, 17, 300] {
        let cons = (0..n).map(|i| [lc(f, &[i % 4], &c[i % c.len()..]), lc(f, &[(i + 1) % 4], &c[1..]), lc(f, &[i % 3, 3], &c[2..])]).collect();
        out.push((format!("{n} constraints"), File { cons, ..plain.clone() }));
    }
    for n in [5usize, 100] {
        let s: Vec<usize> = (0..n).map(|i| (n - i) % 4).collect();
        out.push((format!("{n} terms"), File { cons: vec![[lc(f, &s, &c), vec![], lc(f, &s, &c[1..])]], ..plain.clone() }));
    }
    // each value as a coefficient
    for (i, v) in c.iter().enumerate() {
        for k in 0..3 {
            let mut x: Con = [lc(f, &[1], &c[1..]), lc(f, &[2], &c[2..]), lc(f, &[3], &c[3..])];
            x[k] = vec![(2, f.le(v)), (0, f.le(&c[(i + 1) % c.len()]))];
            out.push((format!("coefficient {v} at {k}"), File { cons: vec![x], ..plain.clone() }));
        }
        out.push((format!("parameter {v}"), File { gates: vec![("G".into(), vec![f.le(v), f.le(&c[0])])], ..base(f) }));
    }
    // wire map
    for v in [0u64, 1, 255, 256, u32::MAX as u64, 1 << 32, u64::MAX - 1, u64::MAX] {
        for k in 1..4 {
            let mut m = vec![0, 1, 2, 3];
            m[k] = v;
            out.push((format!("map {k} {v}"), File { map: m, ..plain.clone() }));
        }
    }
    // sections in every order, with and without the optional and unknown ones
    let mut sets = vec![vec![1, 2, 3], vec![1, 2, 3, 4], vec![1, 2, 3, 5], vec![1, 2, 3, 7], vec![1, 2, 3, 4, 5], vec![1, 2, 3, 4, 9]];
    sets.push(vec![1, 2, 3, 4, 5, 7]);
    if deep {
        sets.push(vec![1, 2, 3, 4, 5, 7, 11]);
    }
    for s in sets {
        for o in perms(&s) {
            out.push((format!("sections {o:?}"), File { order: o, ..base(f) }));
        }
    }
    // custom gates and their uses
    let names = ["", "G", "Poseidon12", "EvPol4", "a b", "\u{e9}"];
    for a in 0..3usize {
        for (i, n) in names.iter().enumerate() {
            for p in 0..4usize {
                let gates: Vec<_> = (0..a).map(|k| (names[(i + k) % names.len()].to_string(), (0..(p + k) % 4).map(|j| f.le(&c[(i + j + k) % c.len()])).collect())).collect();
                out.push((format!("gates {a} {n} {p}"), File { gates, ..base(f) }));
            }
        }
    }
    for a in 0..4usize {
        for s in 0..4usize {
            for id in [0u64, 1, 255, 65536, u32::MAX as u64] {
                for v in [0u64, 3, u32::MAX as u64, 1 << 32, (1 << 32) + 1, u64::MAX] {
                    let uses = (0..a).map(|k| (if k == 0 { id } else { k as u64 }, (0..(s + k) % 4).map(|j| v.wrapping_add(j as u64)).collect())).collect();
                    out.push((format!("uses {a} {s} {id} {v}"), File { uses, ..base(f) }));
                }
            }
        }
    }
    out
}
fn want(x: &File) -> Parsed {
    let has = |t: u32| x.order.contains(&t);
    Parsed {
        version: 1,
        field_size: x.f.size() as u32,
        prime: x.f.le(&x.f.p()),
        n_wires: x.h[0],
        n_pub_out: x.h[1],
        n_pub_in: x.h[2],
        n_prv_in: x.h[3],
        n_labels: x.n_labels,
        n_constraints: x.cons.len() as u32,
        use_custom_gates: has(4) && has(5),
        cons: x.cons.clone(),
        map: x.map.clone(),
        gates: if has(4) { x.gates.clone() } else { vec![] },
        uses: if has(5) { x.uses.clone() } else { vec![] },
    }
}
fn same(a: &Parsed, b: &Parsed) -> bool {
    norm(&a.cons) == norm(&b.cons) && Parsed { cons: vec![], ..a.clone() } == Parsed { cons: vec![], ..b.clone() }
}
fn loads(p: &Parsed, l: &Loaded, with_map: bool) -> bool {
    let ins = (1 + p.n_pub_in + p.n_pub_out) as usize;
    (l.inputs, l.vars, l.outs) == (ins, p.n_wires as usize, p.n_pub_out as usize)
        && l.aux == p.n_wires as usize - ins
        && norm(&l.cons) == norm(&p.cons)
        && l.gates == p.gates
        && l.uses == p.uses
        && (!with_map || l.map.iter().map(|x| *x as u64).eq(p.map.iter().copied()))
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    let n = AtomicU64::new(0);
    let mut last = 0;
    let mut sec = |name: &str, n: &AtomicU64| {
        let k = n.load(Relaxed) - last;
        last += k;
        mc.states(k);
        mc.transitions(k);
        mc.traces(k);
        mc.evals(k, k);
        mc.section(name, json!({ "cases": k, "crate": api::NAME }));
    };
    let d = dir("p17");
    for f in api::fields() {
        let fam = family(f, mc.thorough());
        fam.par_iter().enumerate().for_each(|(i, (name, x))| {
            let key = format!("{f:?} {name}");
            let b = x.bytes();
            let w = want(x);
            match reference(f, &b) {
                Want::Is(r) => assert!(same(&r, &w), "model"),
                _ => panic!("model"),
            }
            let one = |r: Result<Parsed, String>, how: &str| {
                n.fetch_add(1, Relaxed);
                mc.check(r.as_ref().is_ok_and(|r| same(r, &w)), &key, || format!("{how}: read as {r:?}, the file says {w:?}"));
            };
            one(api::parse(f, Cursor::new(&b[..])), "whole");
            for k in [1usize, 2, 5, 1000] {
                one(api::parse(f, Pieces::new(&b, k)), "in pieces");
            }
            let mut long = b.clone();
            long.extend(b"r1cs\x01\0\0\0");
            one(api::parse(f, Cursor::new(&long[..])), "with bytes after it");
            let l = api::load(f, Cursor::new(&b[..]));
            n.fetch_add(1, Relaxed);
            mc.check(l.as_ref().is_ok_and(|l| loads(&w, l, true)), &key, || format!("loaded as {l:?}, the file says {w:?}"));
            if i % 7 == 0 || mc.thorough() {
                let p = d.join(format!("{f:?}{i}.r1cs"));
                std::fs::write(&p, &b).unwrap();
                let l = api::load_file(f, p.to_str().unwrap());
                let _ = std::fs::remove_file(&p);
                n.fetch_add(1, Relaxed);
                mc.check(l.as_ref().is_ok_and(|l| loads(&w, l, false)), &key, || format!("loaded from a file as {l:?}, the file says {w:?}"));
            }
            for g in [Fld::Bn, Fld::Bls, Fld::Gl] {
                if g != f && api::fields().contains(&g) {
                    n.fetch_add(1, Relaxed);
                    let r = api::parse(g, Cursor::new(&b[..]));
                    mc.check(r.is_err(), &key, || format!("read over another field ({g:?}): {r:?}"));
                }
            }
        });
        sec(&format!("circuits over {f:?}"), &n);

        // damage
        let mut bases = vec![("all sections", base(f)), ("plain", File { order: vec![1, 2, 3], ..base(f) }), ("unknown last", File { order: vec![3, 2, 1, 7], ..base(f) })];
        let one = File { h: [1, 0, 0, 0], n_labels: 1, map: vec![0], cons: vec![[lc(f, &[0], &f.values()[1..]), vec![], vec![]]], order: vec![1, 2, 3], ..base(f) };
        bases.push(("one wire", one));
        bases.push(("reversed", File { order: vec![5, 4, 3, 2, 1], ..base(f) }));
        for (name, x) in &bases {
            let b = x.bytes();
            let mut bad: Vec<(String, Vec<u8>)> = vec![];
            for i in 0..b.len() {
                bad.push((format!("cut at {i}"), b[..i].to_vec()));
                let vals: Vec<u8> = if mc.thorough() { (0..=255).collect() } else { vec![0, 1, 2, 0x7f, 0x80, 0xff, b[i] ^ 1, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ 0x80] };
                for v in vals {
                    if v != b[i] {
                        let mut y = b.clone();
                        y[i] = v;
                        bad.push((format!("byte {i} = {v}"), y));
                    }
                }
                let mut y = b.clone();
                y.remove(i);
                bad.push((format!("without byte {i}"), y));
                for v in [0u8, 1, 0xff] {
                    let mut y = b.clone();
                    y.insert(i, v);
                    bad.push((format!("{v} before byte {i}"), y));
                }
                // a word changed
                if i + 4 <= b.len() {
                    let o = u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
                    for v in [0, 1, 2, o.wrapping_add(1), o.wrapping_sub(1), o.wrapping_mul(2), u32::MAX, i32::MAX as u32, 1 << 31] {
                        let mut y = b.clone();
                        y[i..i + 4].copy_from_slice(&v.to_le_bytes());
                        bad.push((format!("word at {i} = {v}"), y));
                    }
                }
                if i + 8 <= b.len() {
                    let o = u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
                    for v in [0, o.wrapping_add(1 << 32), u64::MAX, i64::MAX as u64, 1 << 63, o.wrapping_neg()] {
                        let mut y = b.clone();
                        y[i..i + 8].copy_from_slice(&v.to_le_bytes());
                        bad.push((format!("long word at {i} = {v}"), y));
                    }
                }
                // a field element that is not below the modulus
                let s = f.size();
                if i + s <= b.len() {
                    for v in [f.p(), f.p() + 1u8, (BigUint::from(1u8) << (8 * s)) - 1u8] {
                        let mut y = b.clone();
                        y[i..i + s].copy_from_slice(&f.le(&v));
                        bad.push((format!("{v} at {i}"), y));
                    }
                }
            }
            // sections missing or given twice
            for k in 0..x.order.len() {
                let mut o = x.order.clone();
                let t = o.remove(k);
                bad.push((format!("without section {t}"), File { order: o, ..x.clone() }.bytes()));
                for j in 0..=x.order.len() {
                    let mut o = x.order.clone();
                    o.insert(j, t);
                    bad.push((format!("section {t} again at {j}"), File { order: o, ..x.clone() }.bytes()));
                }
            }
            // the primes of the other fields
            for g in [Fld::Bn, Fld::Bls, Fld::Gl] {
                if g != f {
                    let mut y = x.clone();
                    y.f = g;
                    for c in y.cons.iter_mut().flatten().flatten() {
                        c.1.resize(g.size(), 0);
                    }
                    bad.push((format!("header of {g:?}"), y.bytes()));
                    if g.size() == f.size() {
                        let (mut y, p, q) = (b.clone(), f.le(&f.p()), g.le(&g.p()));
                        let at = y.windows(p.len()).position(|w| w == p).unwrap();
                        y[at..at + q.len()].copy_from_slice(&q);
                        bad.push((format!("prime of {g:?}"), y));
                    }
                }
            }
            bad.push(("empty".into(), vec![]));
            bad.par_iter().for_each(|(what, y)| {
                let key = format!("{f:?} {name}: {what}");
                let r = api::parse(f, Cursor::new(&y[..]));
                let s = api::parse(f, Pieces::new(y, 2));
                let l = api::load(f, Cursor::new(&y[..]));
                n.fetch_add(3, Relaxed);
                match reference(f, y) {
                    Want::Any => {}
                    Want::Refused => {
                        for (r, how) in [(&r, "whole"), (&s, "in pieces")] {
                            let ok = matches!(r, Err(e) if !e.starts_with("panicked"));
                            mc.check(ok, &key, || format!("{how}: a malformed file is not refused: {r:?}"));
                        }
                        mc.check(l.is_err(), &key, || format!("a malformed file is loaded as {l:?}"));
                    }
                    Want::Is(w) => {
                        for (r, how) in [(&r, "whole"), (&s, "in pieces")] {
                            mc.check(r.as_ref().is_ok_and(|r| same(r, &w)), &key, || format!("{how}: read as {r:?}, the file says {w:?}"));
                        }
                        mc.check(l.as_ref().is_ok_and(|l| loads(&w, l, true)), &key, || format!("loaded as {l:?}, the file says {w:?}"));
                    }
                }
            });
        }
        sec(&format!("damaged files over {f:?}"), &n);

        // circuits as JSON
        fam.par_iter().enumerate().filter(|(i, _)| i % 3 == 0 || mc.thorough()).for_each(|(i, (name, x))| {
            if x.order != [1, 2, 3] {
                return;
            }
            let key = format!("{f:?} {name} as JSON");
            let term = |l: &Lc| -> serde_json::Map<String, serde_json::Value> { l.iter().map(|(w, c)| (w.to_string(), json!(BigUint::from_bytes_le(c).to_string()))).collect() };
            let last = |l: &Lc| -> Lc {
                let mut m = std::collections::BTreeMap::new();
                l.iter().for_each(|(w, c)| {
                    m.insert(*w, c.clone());
                });
                m.into_iter().collect()
            };
            let cons: Vec<_> = x.cons.iter().map(|c| c.clone().map(|l| term(&l)).to_vec()).collect();
            let v = json!({"constraints": cons, "nPubInputs": x.h[2], "nOutputs": x.h[1], "nVars": x.h[0]});
            let p = d.join(format!("{f:?}{i}.json"));
            let mut w = want(x);
            w.cons = w.cons.into_iter().map(|c| c.map(|l| last(&l))).collect();
            let run = |v: &serde_json::Value| {
                n.fetch_add(1, Relaxed);
                std::fs::write(&p, v.to_string()).unwrap();
                api::load_file(f, p.to_str().unwrap())
            };
            let l = run(&v);
            mc.check(l.as_ref().is_ok_and(|l| loads(&w, l, false)), &key, || format!("{v} is loaded as {l:?}"));
            if i % 30 == 0 {
                for k in ["constraints", "nPubInputs", "nOutputs", "nVars"] {
                    for new in [None, Some(json!("1")), Some(json!(-1)), Some(json!(1.5)), Some(json!(null)), Some(json!({})), Some(json!([[]])), Some(json!([[{}, {}]])), Some(json!([[{}, {}, []]]))] {
                        let mut y = v.clone();
                        match new {
                            None => {
                                y.as_object_mut().unwrap().remove(k);
                            }
                            Some(x) => y[k] = x,
                        }
                        let l = run(&y);
                        mc.check(l.is_err(), &key, || format!("{y} is loaded as {l:?}"));
                    }
                }
                let mut y = v.clone();
                y["nVars"] = json!(x.h[1] + x.h[2]);
                let l = run(&y);
                mc.check(l.is_err(), &key, || format!("{y} is loaded as {l:?}"));
                for (k, c) in [("0", "-1"), ("0", "x"), ("0", "1.5"), ("0", ""), ("-1", "1"), ("x", "1"), ("", "1"), ("0.5", "1")] {
                    for at in 0..3 {
                        let mut y = v.clone();
                        let mut c3 = [json!({}), json!({}), json!({})];
                        c3[at] = json!({ k: c });
                        y["constraints"] = json!([c3]);
                        let l = run(&y);
                        mc.check(l.is_err(), &key, || format!("{y} is loaded as {l:?}"));
                    }
                }
                let t = v.to_string();
                for j in 0..t.len() {
                    n.fetch_add(1, Relaxed);
                    std::fs::write(&p, &t[..j]).unwrap();
                    let l = api::load_file(f, p.to_str().unwrap());
                    mc.check(l.is_err(), &key, || format!("{} is loaded as {l:?}", &t[..j]));
                }
            }
            let _ = std::fs::remove_file(&p);
        });
        for p in [d.join("none.r1cs"), d.join("none.json"), d.clone()] {
            n.fetch_add(1, Relaxed);
            let l = api::load_file(f, p.to_str().unwrap());
            mc.check(l.is_err(), &format!("{p:?}"), || format!("loaded as {l:?}"));
        }
        sec(&format!("JSON over {f:?}"), &n);
    }
    let _ = std::fs::remove_dir_all(&d);
    mc.rule("cells: one circuit file, whole or damaged in one place, against the format's reference reader");
}
