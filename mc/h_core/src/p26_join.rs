//! P26: joining the circuit inputs of two proofs. P29: circuit descriptions and parameters as text.
//! P30: the constants that every layer shares.
use crate::refs;
use mc_common::*;
use num_bigint::BigUint;
use rayon::prelude::*;
use serde_json::{json, Map, Value};
use starky::traits::FieldExtension;
use starky::types::*;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn dir(p: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc_{p}_{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn join(a: &Path, b: &Path, o: &Path) -> Result<bool, String> {
    let s = |p: &Path| p.to_str().unwrap().to_string();
    guard(|| starky::zkin_join::join_zkin(&s(a), &s(b), &s(o)).is_ok())
}

/// the definition
fn joined(a: &Map<String, Value>, b: &Map<String, Value>) -> Value {
    let mut m = Map::new();
    for (k, v) in a {
        m.insert("a_".to_string() + k, v.clone());
    }
    for (k, v) in b {
        m.insert("b_".to_string() + k, v.clone());
    }
    if let Some(Value::Array(p)) = a.get("publics") {
        let n = if p.len() < 4 { p.len() } else { p.len() - 4 };
        m.insert("publics".into(), Value::Array(p.iter().take(n).cloned().collect()));
    }
    if let Some(r) = a.get("rootC") {
        m.insert("rootC".into(), r.clone());
    }
    Value::Object(m)
}

fn inputs(tag: u64, max_pub: usize) -> Vec<Map<String, Value>> {
    let s = |x: u64| json!((refs::P - 1 - tag * 1000 - x).to_string());
    let mut pubs: Vec<Option<Value>> = vec![None];
    for l in 0..=max_pub {
        pubs.push(Some((0..l as u64).map(|i| s(i)).collect()));
        pubs.push(Some((0..l as u64).map(|i| json!(tag * 100 + i)).collect()));
    }
    pubs.push(Some(json!(["1", "1", "1", "1", "1", "1"])));
    let rootc = vec![None, Some(json!([s(20), s(21), s(22), s(23)])), Some(s(24)), Some(json!([]))];
    let rest: Vec<Vec<(&str, Value)>> = vec![
        vec![],
        vec![("root1", json!([s(1), s(2), s(3), s(4)])), ("evals", json!([[s(5), s(6), s(7)], [s(8), s(9), s(10)]]))],
        vec![("s0_vals1", json!([[s(1)], [s(2)]])), ("s0_siblings1", json!([[[s(3)]], [[s(4)]]])), ("finalPol", json!([[s(5), "0", "0"]]))],
        vec![("a_root1", s(1)), ("b_root1", s(2)), ("a_", s(3)), ("", s(4)), ("public", s(5)), ("rootCC", s(6)), ("rootc", s(7))],
        vec![("x", json!(u64::MAX)), ("y", json!(-1)), ("z", json!({"publics": [1, 2, 3, 4, 5], "rootC": true})), ("w", Value::Null), ("\u{e9}\"\\\n", json!("\u{1F600}\t"))],
    ];
    let mut out = vec![];
    for p in &pubs {
        for r in &rootc {
            for e in &rest {
                let mut m = Map::new();
                for (k, v) in e {
                    m.insert(k.to_string(), v.clone());
                }
                if let Some(p) = p {
                    m.insert("publics".into(), p.clone());
                }
                if let Some(r) = r {
                    m.insert("rootC".into(), r.clone());
                }
                out.push(m);
            }
        }
    }
    out
}

pub fn run_join(mc: &Mc) {
    let d = dir("p26");
    let n = AtomicU64::new(0);
    let mut last = 0;
    let mut sec = |name: &str, n: &AtomicU64| {
        let k = n.load(Relaxed) - last;
        last += k;
        mc.states(k);
        mc.transitions(k);
        mc.traces(k);
        mc.evals(k, k);
        mc.section(name, json!({ "cases": k }));
    };
    let a = inputs(1, mc.pick(9, 40));
    // the second file matters less: every tenth of them against every first
    let b: Vec<_> = inputs(2, 5).into_iter().enumerate().filter(|(i, _)| mc.thorough() || i % 4 == 1).map(|x| x.1).collect();
    for (i, m) in b.iter().enumerate() {
        std::fs::write(d.join(format!("b{i}")), serde_json::to_string(m).unwrap()).unwrap();
    }
    a.par_iter().enumerate().for_each(|(i, x)| {
        let (fa, fo) = (d.join(format!("a{i}")), d.join(format!("o{i}")));
        std::fs::write(&fa, if i % 2 == 0 { serde_json::to_string(x) } else { serde_json::to_string_pretty(x) }.unwrap()).unwrap();
        for (j, y) in b.iter().enumerate() {
            n.fetch_add(1, Relaxed);
            let r = join(&fa, &d.join(format!("b{j}")), &fo);
            let got: Option<Value> = std::fs::read_to_string(&fo).ok().and_then(|s| serde_json::from_str(&s).ok());
            let want = joined(x, y);
            mc.check(r == Ok(true) && got.as_ref() == Some(&want), &format!("join {i},{j}"), || {
                format!("{r:?} joining {} with {}: {got:?}, not {want}", json!(x), json!(y))
            });
        }
        // the output may replace an input
        let _ = std::fs::remove_file(&fo);
        std::fs::write(&fo, serde_json::to_string(x).unwrap()).unwrap();
        n.fetch_add(1, Relaxed);
        let r = join(&fo, &fo, &fo);
        let got: Option<Value> = std::fs::read_to_string(&fo).ok().and_then(|s| serde_json::from_str(&s).ok());
        mc.check(r == Ok(true) && got == Some(joined(x, x)), &format!("join {i} onto itself"), || format!("{r:?}: {got:?}"));
    });
    sec("pairs of inputs", &n);
    // every truncation and every wrong file
    let good = serde_json::to_string(&a[a.len() - 2]).unwrap();
    let ok = d.join("ok");
    std::fs::write(&ok, &good).unwrap();
    let mut bad: Vec<Vec<u8>> = (0..good.len()).map(|i| good.as_bytes()[..i].to_vec()).collect();
    for s in ["", "[]", "1", "null", "\"publics\"", "{}x", "{\"publics\":}", "{publics:[]}", "{\"a\":1,}", "[{}]"] {
        bad.push(s.as_bytes().to_vec());
    }
    bad.push(b"{\"a\":\"\xff\"}".to_vec());
    for (i, t) in bad.iter().enumerate() {
        let (f, o) = (d.join("bad"), d.join("bado"));
        std::fs::write(&f, t).unwrap();
        for (x, y) in [(&f, &ok), (&ok, &f)] {
            n.fetch_add(1, Relaxed);
            let r = join(x, y, &o);
            mc.check(r == Ok(false), &format!("bad input {i}"), || format!("{r:?} for {:?}", String::from_utf8_lossy(t)));
        }
    }
    let none = d.join("none");
    let full = PathBuf::from("/dev/full");
    for (x, y, o) in [(&none, &ok, d.join("o")), (&ok, &none, d.join("o")), (&ok, &ok, d.join("no/such")), (&ok, &ok, d.clone()), (&ok, &ok, full)] {
        n.fetch_add(1, Relaxed);
        let r = join(x, y, &o);
        mc.check(r == Ok(false), &format!("fault {}", o.display()), || format!("{r:?} for {x:?} {y:?} {o:?}"));
    }
    sec("damaged files", &n);
    let _ = std::fs::remove_dir_all(&d);
    mc.rule("cells: (first input, second input): the joined file against the definition; damaged or missing files and failing writes are errors");
}

// ------------------------------------------------------------------------------------ P29

fn pils() -> Vec<(String, Value)> {
    let mut out: Vec<(String, Value)> = crate::stark::airs(2).iter().map(|a| (a.name.clone(), a.pil_json())).collect();
    // every combination of optional parts
    for m in 0..256usize {
        let b = |i: usize| m >> i & 1 == 1;
        let mut e = Map::new();
        e.insert("op".into(), json!("cm"));
        e.insert("deg".into(), json!(m));
        for (i, (k, v)) in [
            ("id", json!(m + 1)),
            ("next", json!(m % 3 == 0)),
            ("value", json!(format!("-{m}"))),
            ("values", json!([{"op": "number", "deg": 0, "value": "7"}, {"op": "exp", "deg": 1, "id": 4, "next": true}])),
            ("keep", json!(m % 5 == 0)),
            ("keep2ns", json!(m % 7 == 0)),
            ("idQ", json!(m + 2)),
            ("const_", json!(-(m as i64))),
        ]
        .into_iter()
        .enumerate()
        {
            if b(i) {
                e.insert(k.into(), v);
            }
        }
        let mut refs_ = Map::new();
        for i in 0..4usize {
            let mut r = json!({"type": (["cmP", "constP", "imP", "x"][i]), "id": i + m, "polDeg": 1 << i, "isArray": b(i)});
            if b(i) {
                r["len"] = json!(m + 3);
            }
            if b(i + 1) {
                r["elementType"] = json!(["field", "s8", "u16", "bool"][i]);
            }
            if b(i + 2) {
                r["polType"] = json!("p");
            }
            refs_.insert(format!("{}.{}", ["B", "a", "Z", "Global"][i], m ^ i), r);
        }
        let opt = |c: bool, v: usize| if c { json!(v) } else { Value::Null };
        let arg = |i: usize| {
            let mut x = json!({"selF": opt(b(i), m), "selT": opt(b(i + 1), m + 1), "fileName": "f", "line": m + i});
            if b(i + 2) {
                x["f"] = json!([m, 1]);
            }
            if b(i + 3) {
                x["t"] = json!([2, m]);
            }
            x
        };
        let mut conn = json!({"fileName": "c", "line": m});
        if b(0) {
            conn["pols"] = json!([m]);
        }
        if b(1) {
            conn["connections"] = json!([m, 0]);
        }
        out.push((
            format!("optional {m:08b}"),
            json!({
                "nCommitments": m, "nQ": m + 1, "nIm": m + 2, "nConstants": m + 3,
                "publics": [{"polType": "cmP", "polId": m, "idx": m + 1, "id": m + 2, "name": "p"}, {"polType": "imP", "polId": 5, "idx": 6, "id": 7, "name": ""}],
                "references": refs_, "expressions": [e, {"op": "nop", "deg": 0}],
                "polIdentities": [{"e": m, "fileName": "x", "line": 3}],
                "plookupIdentities": [arg(0), arg(3)],
                "permutationIdentities": if b(6) {json!([arg(2)])} else {Value::Null},
                "connectionIdentities": if b(7) {json!([conn])} else {Value::Null},
            }),
        ));
    }
    out
}
/// every value of the text, by path
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn ptr(p: &[String]) -> String {
    p.iter().map(|s| format!("/{}", s.replace('~', "~0").replace('/', "~1"))).collect()
}
fn read_pil(s: &str) -> Result<Option<PIL>, String> {
    guard(|| read_json::<PIL>(s.to_string()).ok())
}
fn optional(p: &[String]) -> bool {
    matches!(p.last().map(|s| s.as_str()), Some("polType" | "elementType" | "len" | "id" | "next" | "value" | "values" | "keep" | "keep2ns" | "idQ" | "const_" | "f" | "t" | "selF" | "selT" | "pols" | "connections" | "permutationIdentities" | "connectionIdentities"))
}

pub fn run_json(mc: &Mc) {
    let n = AtomicU64::new(0);
    let mut last = 0;
    let mut sec = |name: &str, n: &AtomicU64| {
        let k = n.load(Relaxed) - last;
        last += k;
        mc.states(k);
        mc.transitions(k);
        mc.traces(k);
        mc.evals(k, k);
        mc.section(name, json!({ "cases": k }));
    };
    let d = dir("p29");
    let all = pils();
    all.par_iter().enumerate().for_each(|(i, (name, v))| {
        let text = v.to_string();
        for t in [text.clone(), serde_json::to_string_pretty(v).unwrap()] {
            n.fetch_add(1, Relaxed);
            let Ok(Some(p)) = read_pil(&t) else {
                mc.check(false, name, || format!("not read: {t}"));
                return;
            };
            let back = guard(|| (serde_json::to_string(&p).unwrap(), p.to_string()));
            // an absent optional part may come back as null or absent
            fn norm(v: &Value) -> Value {
                match v {
                    Value::Object(m) => Value::Object(m.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), norm(x))).collect()),
                    Value::Array(a) => a.iter().map(norm).collect(),
                    v => v.clone(),
                }
            }
            let ok = back.as_ref().map_or(false, |(a, b)| {
                [a, b].iter().all(|s| serde_json::from_str::<Value>(s).map(|x| norm(&x)).ok() == Some(norm(v)))
            });
            mc.check(ok, name, || format!("{v} comes back as {back:?}"));
            if let Ok((a, _)) = back {
                // references in the order of their names, the same text on every write
                let names: Vec<usize> = {
                    let mut k: Vec<String> = v["references"].as_object().unwrap().keys().cloned().collect();
                    k.sort();
                    k.iter().map(|k| a.find(&format!("{}:{{", json!(k))).unwrap_or(0)).collect()
                };
                mc.check(names.windows(2).all(|w| w[0] < w[1]), name, || format!("references out of order: {a}"));
                // read from a file: the same; what was read is what is written
                let f = d.join(format!("{i}.json"));
                std::fs::write(&f, &a).unwrap();
                let q = guard(|| load_json::<PIL>(f.to_str().unwrap()).ok());
                let same = matches!(&q, Ok(Some(q)) if *q == p && guard(|| serde_json::to_string(q).unwrap()) == Ok(a.clone()));
                mc.check(same, name, || "a written file reads back differently".into());
                let _ = std::fs::remove_file(&f);
            }
            // the fields mean what they are called
            let u = |p: &str| v.pointer(p).and_then(|x| x.as_u64()).map(|x| x as usize);
            let s = |p: &str| v.pointer(p).and_then(|x| x.as_str()).map(String::from);
            let mut ok = (u("/nCommitments"), u("/nQ"), u("/nIm"), u("/nConstants")) == (Some(p.nCommitments), Some(p.nQ), Some(p.nIm), Some(p.nConstants));
            for (j, x) in p.publics.iter().enumerate() {
                let b = format!("/publics/{j}/");
                ok &= (Some(x.polId), Some(x.idx), Some(x.id)) == (u(&(b.clone() + "polId")), u(&(b.clone() + "idx")), u(&(b.clone() + "id")));
                ok &= (Some(x.name.clone()), Some(x.polType.clone())) == (s(&(b.clone() + "name")), s(&(b + "polType")));
            }
            for (k, r) in v["references"].as_object().unwrap() {
                let b = ptr(&["references".into(), k.clone()]) + "/";
                ok &= p.references.get(k).is_some_and(|x| {
                    (Some(x.id), Some(x.polDeg), x.len) == (u(&(b.clone() + "id")), u(&(b.clone() + "polDeg")), u(&(b.clone() + "len")))
                        && Some(x.isArray) == r["isArray"].as_bool()
                        && (Some(x.type_.clone()), x.elementType.clone(), x.polType.clone()) == (s(&(b.clone() + "type")), s(&(b.clone() + "elementType")), s(&(b.clone() + "polType")))
                });
            }
            for (j, x) in p.expressions.iter().enumerate() {
                let b = format!("/expressions/{j}/");
                let next = v.pointer(&(b.clone() + "next")).and_then(|x| x.as_bool());
                ok &= (Some(x.deg), x.id, x.idQ) == (u(&(b.clone() + "deg")), u(&(b.clone() + "id")), u(&(b.clone() + "idQ")));
                ok &= x.next == next && x.next() == (next == Some(true)) && x.value == s(&(b.clone() + "value")) && Some(x.op.clone()) == s(&(b.clone() + "op"));
            }
            let v4 = |b: String, f: &Option<Vec<usize>>, t: &Option<Vec<usize>>, sf: Option<usize>, st: Option<usize>| {
                let l = |k: &str| v.pointer(&format!("{b}/{k}")).and_then(|x| x.as_array()).map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>());
                l("f") == *f && l("t") == *t && u(&format!("{b}/selF")) == sf && u(&format!("{b}/selT")) == st
            };
            for (j, x) in p.plookupIdentities.iter().enumerate() {
                ok &= v4(format!("/plookupIdentities/{j}"), &x.f, &x.t, x.selF, x.selT);
            }
            for (j, x) in p.permutationIdentities.iter().flatten().enumerate() {
                ok &= v4(format!("/permutationIdentities/{j}"), &x.f, &x.t, x.selF, x.selT);
            }
            mc.check(ok, name, || format!("a field of {v} is read as another: {p:?}"));
        }
    });
    sec("descriptions", &n);
    // every missing part, every wrong type, every truncation
    let some: Vec<&(String, Value)> = all.iter().rev().take(1).chain(all.iter().take(mc.pick(6, all.len()))).collect();
    some.par_iter().for_each(|(name, v)| {
        let mut ps = vec![];
        paths(v, &mut vec![], &mut ps);
        for p in &ps {
            for (what, new) in [("removed", None), ("text", Some(json!("zz"))), ("negative", Some(json!(-1))), ("fraction", Some(json!(1.5))), ("null", Some(Value::Null)), ("truth", Some(json!(true))), ("list", Some(json!([[]]))), ("map", Some(json!({"q": 0}))), ("too large", Some(json!(1e30)))] {
                let Some(old) = v.pointer(&ptr(p)) else { continue };
                let mut w = v.clone();
                match &new {
                    None => {
                        if p.is_empty() {
                            continue;
                        }
                        match w.pointer_mut(&ptr(&p[..p.len() - 1])).unwrap() {
                            Value::Object(m) => {
                                m.remove(p.last().unwrap());
                            }
                            _ => continue,
                        }
                    }
                    Some(x) => *w.pointer_mut(&ptr(p)).unwrap() = x.clone(),
                }
                n.fetch_add(1, Relaxed);
                let r = read_pil(&w.to_string());
                let key = format!("{name}:{}:{what}", ptr(p));
                // what the text now says, when it says anything
                let in_refs = p.len() == 2 && p[0] == "references";
                // `id` is required of references and publics, `type` and so on everywhere
                let req = !optional(p) || (p.last().is_some_and(|x| x == "id" || x == "polType") && (p[0] == "publics" || p[0] == "references" && p[2] == "id"));
                let must_fail = match (&new, old) {
                    (None, _) => req && !in_refs,
                    (Some(Value::Null), Value::Null) => false,
                    (Some(Value::Null), _) => req,
                    (Some(Value::String(_)), Value::String(_)) => false,
                    (Some(Value::Bool(_)), Value::Bool(_)) => false,
                    (Some(Value::Number(x)), Value::Number(_)) => !(p.last().unwrap() == "const_" && x.is_i64()),
                    // a text for an absent selector, a list for an absent argument and so on
                    (Some(_), Value::Null) => true,
                    (Some(_), _) => true,
                };
                // an empty list or map in place of another list can be a valid description
                match r {
                    Ok(None) => mc.check(must_fail, &key, || format!("refused: {w}")),
                    Ok(Some(_)) => mc.check(!must_fail, &key, || format!("read without an error: {w}")),
                    Err(e) => mc.check(false, &key, || format!("{e}: {w}")),
                };
            }
        }
        let t = v.to_string();
        for i in 0..t.len() {
            n.fetch_add(1, Relaxed);
            mc.check(t.is_char_boundary(i) && read_pil(&t[..i]) == Ok(None), &format!("{name} cut at {i}"), || "not refused".into());
        }
        for x in ["x", "}", ",", "{}", "\"", "0"] {
            n.fetch_add(1, Relaxed);
            mc.check(read_pil(&(t.clone() + x)) == Ok(None), &format!("{name} followed by {x}"), || "not refused".into());
        }
    });
    sec("damaged descriptions", &n);
    // parameters
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..4 {
        let mut more = vec![];
        for l in &lists {
            for x in [0usize, 1, 20, 32] {
                let mut m = l.clone();
                m.push(x);
                more.push(m);
            }
        }
        lists.extend(more);
    }
    lists.sort();
    lists.dedup();
    for l in &lists {
        for h in ["GL", "BN128", "BLS12381", "", "gl"] {
            for (a, b, q) in [(0usize, 1usize, 2usize), (23, 24, 4), (3, 3, 3), (1 << 40, usize::MAX, 0)] {
                let v = json!({"nBits": a, "nBitsExt": b, "nQueries": q, "verificationHashType": h, "steps": l.iter().map(|x| json!({"nBits": x})).collect::<Vec<_>>()});
                n.fetch_add(1, Relaxed);
                let r = guard(|| read_json::<StarkStruct>(v.to_string()).ok());
                let ok = matches!(&r, Ok(Some(s)) if s.nBits == a && s.nBitsExt == b && s.nQueries == q && s.verificationHashType == h
                    && s.steps.iter().map(|x| x.nBits).eq(l.iter().copied()) && serde_json::to_value(s).ok().as_ref() == Some(&v));
                mc.check(ok, &v.to_string(), || format!("read as {r:?}"));
            }
        }
    }
    for k in ["nBits", "nBitsExt", "nQueries", "verificationHashType", "steps"] {
        for new in [None, Some(json!("1")), Some(json!(-1)), Some(json!(2.5)), Some(Value::Null), Some(json!([1])), Some(json!({}))] {
            let mut v = json!({"nBits": 1, "nBitsExt": 2, "nQueries": 3, "verificationHashType": "GL", "steps": [{"nBits": 2}]});
            match &new {
                None => {
                    v.as_object_mut().unwrap().remove(k);
                }
                Some(x) => v[k] = x.clone(),
            }
            let ok = k == "verificationHashType" && matches!(new, Some(Value::String(_)));
            n.fetch_add(1, Relaxed);
            let r = guard(|| read_json::<StarkStruct>(v.to_string()).is_ok());
            mc.check(r == Ok(ok), &v.to_string(), || format!("read: {r:?}"));
        }
    }
    let f = d.join("cut");
    for (p, text) in [(d.join("none"), None), (d.clone(), None), (f.clone(), Some(&b"{"[..])), (f.clone(), Some(&b""[..])), (f, Some(&b"\xff\xfe"[..]))] {
        if let Some(t) = text {
            std::fs::write(&p, t).unwrap();
        }
        n.fetch_add(1, Relaxed);
        let r = guard(|| load_json::<PIL>(p.to_str().unwrap()).is_ok() || load_json::<StarkStruct>(p.to_str().unwrap()).is_ok());
        mc.check(r == Ok(false), &format!("{p:?} {text:?}"), || format!("{r:?}"));
    }
    sec("parameters", &n);
    let _ = std::fs::remove_dir_all(&d);
    mc.rule("cells: a description or one damaged in one place: read fields, written text and refusals against the format");
}

// ------------------------------------------------------------------------------------ P30

pub fn run_consts(mc: &Mc) {
    use starky::constant::*;
    use starky::helper::*;
    let mut n = 0u64;
    let mut ck = |ok: bool, k: String, w: String| {
        n += 1;
        mc.check(ok, &k, || w);
    };
    // roots of unity: w[i] has order 2^i exactly, w[i+1]^2 = w[i]
    let (w, wi) = (&MG.0, &MG.1);
    ck(w.len() == 33 && wi.len() == 33, "number of roots".into(), format!("{} {}", w.len(), wi.len()));
    let top = refs::pow(7, (refs::P - 1) >> 32);
    for i in 0..w.len().min(wi.len()) {
        let (x, y) = (w[i].as_int(), wi[i].as_int());
        let mut z = x;
        for _ in 0..i.saturating_sub(1) {
            z = refs::mul(z, z);
        }
        ck(if i == 0 { x == 1 } else { z == refs::P - 1 }, format!("order of root {i}"), format!("{x}"));
        ck(x == refs::pow(top, 1 << (32 - i)), format!("root {i}"), format!("{x}"));
        ck(refs::mul(x, y) == 1, format!("inverse of root {i}"), format!("{x} {y}"));
    }
    ck(SHIFT.as_int() == 49 && refs::mul(SHIFT_INV.as_int(), 49) == 1, "shift".into(), format!("{} {}", SHIFT.as_int(), SHIFT_INV.as_int()));
    // the coset of 49 meets no subgroup of two-power order
    ck(refs::pow(49, 1 << 32) != 1, "shift outside the subgroup".into(), "".into());
    // coset factors of connections: powers of k, cosets pairwise disjoint
    for c in 0..mc.pick(300usize, 3000) {
        let r = guard(|| get_ks(c).iter().map(|x| x.as_int()).collect::<Vec<_>>());
        let want: Vec<u64> = (1..=c as u64).map(|j| refs::pow(12275445934081160404, j)).collect();
        ck(r == Ok(want), format!("coset factors {c}"), format!("{r:?}"));
    }
    let ks: Vec<u64> = std::iter::once(1).chain((1..=300).map(|j| refs::pow(12275445934081160404, j))).collect();
    for i in 0..ks.len() {
        for j in 0..i {
            // equal images in the quotient by the subgroup of order 2^32 would make two cosets meet
            ck(refs::pow(refs::mul(ks[i], refs::inv(ks[j])), 1 << 32) != 1, format!("cosets {i} {j}"), "meet".into());
        }
    }
    // the challenges have distinct numbers
    let names = ["u", "defVal", "gamma", "beta", "vc", "vf1", "vf2", "xi"];
    let mut at: Vec<usize> = names.iter().filter_map(|nm| CHALLENGE_MAP.get(nm).copied()).collect();
    at.sort();
    ck(at == (0..names.len()).collect::<Vec<_>>(), "challenge numbers".into(), format!("{at:?}"));
    ck(CHALLENGE_MAP.len() == names.len(), "challenges".into(), format!("{}", CHALLENGE_MAP.len()));
    // two-power offsets of the packings
    let two = |k: u32| BigUint::from(1u8) << k;
    for (k, v) in [(64u32, fr_to_biguint(&*OFFSET_2_64)), (128, fr_to_biguint(&*OFFSET_2_128)), (192, fr_to_biguint(&*OFFSET_2_192)), (64, fr_to_biguint(&*OFFSET_BLS12381_2_64)), (128, fr_to_biguint(&*OFFSET_BLS12381_2_128)), (192, fr_to_biguint(&*OFFSET_BLS12381_2_192))] {
        ck(v == two(k), format!("offset {k}"), v.to_string());
    }
    // floor of the base-two logarithm
    let mut vals: Vec<usize> = (0..mc.pick(1usize << 16, 1 << 24)).collect();
    for b in 0..64 {
        for d in -2i128..=2 {
            let x = (1i128 << b) + d;
            if x >= 0 && x <= u64::MAX as i128 {
                vals.push(x as usize);
            }
            vals.push((u64::MAX >> b) as usize);
        }
    }
    for x in vals {
        let mut want = 0;
        while x >> want > 1 {
            want += 1;
        }
        let r = guard(|| log2_any(x));
        ck(r == Ok(want), format!("log2 {x}"), format!("{r:?}"));
    }
    mc.states(n);
    mc.transitions(n);
    mc.traces(n);
    mc.evals(n, n);
    mc.section("constants", json!({ "cases": n }));
    mc.rule("cells: one constant, factor or logarithm against its definition");
}
