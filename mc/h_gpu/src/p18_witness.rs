//! P18: witness files are read exactly or refused; the witness calculator hands the circuit every
//! input, reduced into its field, and fails when the circuit does.
use crate::api::{self, Calc};
use crate::model::*;
use mc_common::*;
use num_bigint::{BigInt, BigUint, Sign};
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn wtns_bytes(f: Fld, version: u32, v: &[BigUint]) -> Vec<u8> {
    let mut o = b"wtns".to_vec();
    let w32 = |o: &mut Vec<u8>, x: u32| o.extend(x.to_le_bytes());
    w32(&mut o, version);
    w32(&mut o, 2);
    w32(&mut o, 1);
    o.extend((8 + f.size() as u64).to_le_bytes());
    w32(&mut o, f.size() as u32);
    o.extend(f.le(&f.p()));
    w32(&mut o, v.len() as u32);
    w32(&mut o, 2);
    o.extend(((v.len() * f.size()) as u64).to_le_bytes());
    v.iter().for_each(|x| o.extend(f.le(x)));
    o
}
/// what a file says: values, refused, or not specified
fn wtns_ref(f: Fld, b: &[u8]) -> Result<Option<Vec<Vec<u8>>>, ()> {
    let s = f.size();
    let head = 40 + s;
    if b.len() < head {
        return Ok(None);
    }
    let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let l = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let n = u(28 + s) as u64;
    let version = u(4);
    if &b[..4] != b"wtns" || version > 2 || u(8) != 2 || u(12) != 1 || l(16) != 8 + s as u64 || u(24) != s as u32 || b[28..28 + s] != f.le(&f.p()) || u(32 + s) != 2 {
        return Ok(None);
    }
    if b.len() < head + 4 {
        return Ok(None);
    }
    if l(36 + s) != n * s as u64 || ((b.len() - head - 4) as u64) < n * s as u64 {
        return Ok(None);
    }
    let v: Vec<Vec<u8>> = b[head + 4..].chunks(s).take(n as usize).map(|x| x.to_vec()).collect();
    if v.iter().any(|x| !f.ok(x)) {
        return Ok(None);
    }
    if version == 0 || b.len() as u64 != head as u64 + 4 + n * s as u64 {
        return Err(());
    }
    Ok(Some(v))
}

fn files(mc: &Mc, n: &AtomicU64) {
    let f = Fld::Bn;
    let vals = f.values();
    let mut sets: Vec<Vec<BigUint>> = (0..5).map(|k| (0..k).map(|i| vals[vals.len() - 1 - i].clone()).collect()).collect();
    sets.extend(vals.iter().map(|v| vec![BigUint::from(1u8), v.clone(), vals[3].clone()]));
    sets.push(vals.clone());
    for a in &vals {
        for b in &vals {
            sets.push(vec![a.clone(), b.clone()]);
        }
    }
    sets.push((0..2000u32).map(|i| f.p() - 1u8 - i).collect());
    let d = dir("p18");
    let p = |x: &str| d.join(x).to_str().unwrap().to_string();
    sets.par_iter().enumerate().for_each(|(i, v)| {
        let want: Vec<Vec<u8>> = v.iter().map(|x| f.le(x)).collect();
        for version in [1, 2] {
            let b = wtns_bytes(f, version, v);
            let key = format!("witness {i} version {version}");
            let mut rs = vec![("whole", api::wtns(&b[..])), ("array", api::wtns_array(b.clone()))];
            for k in [1usize, 2, 7, 33] {
                if v.len() < 100 {
                    rs.push(("in pieces", api::wtns(Pieces::new(&b, k))));
                }
            }
            for name in [format!("{i}_{version}.wtns"), format!("{i}_{version}")] {
                std::fs::write(p(&name), &b).unwrap();
                rs.push(("file", api::wtns_file(&p(&name))));
                let _ = std::fs::remove_file(p(&name));
            }
            for (how, r) in rs {
                n.fetch_add(1, Relaxed);
                mc.check(r.as_ref() == Ok(&want), &key, || format!("{how}: {v:?} read as {r:?}"));
            }
        }
        let name = p(&format!("{i}.json"));
        let t: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        for text in [json!(t).to_string(), serde_json::to_string_pretty(&t).unwrap()] {
            std::fs::write(&name, &text).unwrap();
            let r = api::wtns_file(&name);
            n.fetch_add(1, Relaxed);
            mc.check(r.as_ref() == Ok(&want), &format!("witness {i} JSON"), || format!("{text} read as {r:?}"));
            if i % 16 == 3 {
                for k in 0..text.len() {
                    std::fs::write(&name, &text[..k]).unwrap();
                    n.fetch_add(1, Relaxed);
                    let r = api::wtns_file(&name);
                    mc.check(r.is_err(), &format!("witness {i} JSON cut at {k}"), || format!("read as {r:?}"));
                }
            }
        }
        let _ = std::fs::remove_file(&name);
    });
    for bad in [json!({}), json!("1"), json!(1), json!(null), json!(["1", 2]), json!(["1", "x"]), json!(["1", "-1"]), json!(["1", "0x10"]), json!(["1", ""]), json!(["1", "1.0"]), json!(["1", null]), json!([["1"]])] {
        std::fs::write(p("bad.json"), bad.to_string()).unwrap();
        n.fetch_add(1, Relaxed);
        let r = api::wtns_file(&p("bad.json"));
        mc.check(r.is_err(), &format!("JSON witness {bad}"), || format!("read as {r:?}"));
    }
    for none in ["none", "none.json", "none.wtns"] {
        n.fetch_add(1, Relaxed);
        let r = api::wtns_file(&p(none));
        mc.check(r.is_err(), none, || format!("read as {r:?}"));
    }
    // damage
    for v in [vec![], vec![BigUint::from(1u8)], vec![BigUint::from(1u8), f.p() - 1u8, vals[5].clone()]] {
        let b = wtns_bytes(f, 2, &v);
        let mut bad: Vec<(String, Vec<u8>)> = vec![];
        for i in 0..b.len() {
            bad.push((format!("cut at {i}"), b[..i].to_vec()));
            let mut put = |what: String, g: &dyn Fn(&mut Vec<u8>)| {
                let mut y = b.clone();
                g(&mut y);
                if y != b {
                    bad.push((what, y));
                }
            };
            for x in 0..=255u8 {
                put(format!("byte {i} = {x}"), &|y| y[i] = x);
            }
            put(format!("without byte {i}"), &|y| {
                y.remove(i);
            });
            put(format!("a byte before byte {i}"), &|y| y.insert(i, 0));
            if i + 4 <= b.len() {
                let o = u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
                for x in [0, 1, 2, o.wrapping_add(1), o.wrapping_sub(1), u32::MAX, 1 << 31, 1 << 27] {
                    put(format!("word at {i} = {x}"), &|y| y[i..i + 4].copy_from_slice(&x.to_le_bytes()));
                }
            }
            if i + 8 <= b.len() {
                let o = u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
                for x in [o.wrapping_add(1 << 32), u64::MAX, 1 << 63, o.wrapping_add(32), o.wrapping_sub(32)] {
                    put(format!("long word at {i} = {x}"), &|y| y[i..i + 8].copy_from_slice(&x.to_le_bytes()));
                }
            }
            if i + 32 <= b.len() {
                for x in [f.p(), f.p() + 1u8, (BigUint::from(1u8) << 256) - 1u8, f.p() * 2u8, Fld::Bls.p()] {
                    put(format!("{x} at {i}"), &|y| y[i..i + 32].copy_from_slice(&f.le(&x)));
                }
            }
        }
        // a count and a size that agree with each other but not with the file
        for c in [0u32, 1, 2, 4, 5, 1 << 27, (1 << 27) + 1, u32::MAX] {
            let mut y = b.clone();
            y[60..64].copy_from_slice(&c.to_le_bytes());
            y[68..76].copy_from_slice(&(c as u64 * 32).to_le_bytes());
            bad.push((format!("{c} values announced"), y.clone()));
            y[68..76].copy_from_slice(&(c.wrapping_mul(32) as u64).to_le_bytes());
            bad.push((format!("{c} values announced, size modulo 2^32"), y));
        }
        bad.par_iter().for_each(|(what, y)| {
            let key = format!("witness of {}: {what}", v.len());
            for (how, r) in [("whole", api::wtns(&y[..])), ("array", api::wtns_array(y.clone())), ("in pieces", api::wtns(Pieces::new(y, 2)))] {
                n.fetch_add(1, Relaxed);
                match wtns_ref(f, y) {
                    Err(()) => {}
                    Ok(None) => {
                        mc.check(matches!(&r, Err(e) if !e.starts_with("panicked")), &key, || format!("{how}: not refused: {r:?}"));
                    }
                    Ok(Some(w)) => {
                        mc.check(r.as_ref() == Ok(&w), &key, || format!("{how}: {w:?} read as {r:?}"));
                    }
                }
            }
        });
    }
    let _ = std::fs::remove_dir_all(&d);
}

fn modp(f: Fld, x: &BigInt) -> BigUint {
    let p = BigInt::from_biguint(Sign::Plus, f.p());
    let r = ((x % &p) + &p) % &p;
    r.to_biguint().unwrap()
}
type In = Vec<(String, Vec<BigInt>)>;
fn text(v: &In) -> Vec<(String, Vec<String>)> {
    v.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| x.to_string()).collect())).collect()
}
/// the stand-in circuit: the witness or none
fn echo(f: Fld, v: &In) -> Option<Vec<BigUint>> {
    let mut s: BTreeMap<usize, BigUint> = BTreeMap::new();
    for (k, v) in v {
        let size = match k.as_str() {
            "a_s0_siblings" => 3,
            "y" => 1,
            _ => continue,
        };
        for (i, x) in v.iter().enumerate() {
            if i >= size || s.insert(if size == 1 { 0 } else { 1 + i }, modp(f, x)).is_some() {
                return None;
            }
        }
    }
    if s.len() != 4 || s[&1] == BigUint::from(77u8) {
        return None;
    }
    Some(std::iter::once(BigUint::from(1u8)).chain(s.into_values()).collect())
}
fn mult(v: &In) -> Option<Vec<BigUint>> {
    let f = Fld::Bn;
    let mut s: BTreeMap<&str, BigUint> = BTreeMap::new();
    for (k, v) in v {
        if k != "a" && k != "b" {
            continue;
        }
        for (i, x) in v.iter().enumerate() {
            if i > 0 || s.insert(k, modp(f, x)).is_some() {
                return None;
            }
        }
    }
    let (a, b) = (s.get("a")?, s.get("b")?);
    Some(vec![BigUint::from(1u8), a * b % f.p(), a.clone(), b.clone()])
}
fn ask(mc: &Mc, c: &mut Calc, f: Fld, key: &str, v: &In, sanity: bool, want: &Option<Vec<BigUint>>, bin: bool) {
    let t = text(v);
    let r = c.calc(&t, sanity);
    match want {
        Some(w) => {
            let w: Vec<String> = w.iter().map(|x| x.to_string()).collect();
            mc.check(r.as_ref() == Ok(&w), key, || format!("{t:?}: witness {r:?}, not {w:?}"));
        }
        None => {
            mc.check(matches!(&r, Err(e) if !e.starts_with("panicked")), key, || format!("{t:?}: no witness exists, got {r:?}"));
        }
    }
    if !bin {
        return;
    }
    let r = c.calc_bin(&t, sanity);
    match want {
        Some(w) => {
            let words: Vec<u32> = w.iter().flat_map(|x| f.le(x).chunks(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect::<Vec<_>>()).collect();
            mc.check(r.as_ref() == Ok(&words), key, || format!("{t:?}: witness words {r:?}, not {words:?}"));
            let file = wtns_bytes(f, 2, w);
            let mut out = vec![];
            let s = c.save(&words, &mut out);
            mc.check(s.is_ok() && out == file, key, || format!("{w:?} saved ({s:?}) as {out:?}, not {file:?}"));
            if f == Fld::Bn {
                let back = api::wtns(&out[..]);
                let want: Vec<Vec<u8>> = w.iter().map(|x| f.le(x)).collect();
                mc.check(back.as_ref() == Ok(&want), key, || format!("saved {w:?}, read back {back:?}"));
            }
        }
        None => {
            mc.check(matches!(&r, Err(e) if !e.starts_with("panicked")), key, || format!("{t:?}: no witness exists, got {r:?}"));
        }
    }
}
struct Broken(usize);
impl std::io::Write for Broken {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        let k = b.len().min(self.0).min(3);
        self.0 -= k;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn calculator(mc: &Mc, n: &AtomicU64) {
    let data = root().join("mc/h_gpu/data");
    let real = api::multiplier();
    for (f, name) in [(Fld::Bn, "echo_bn"), (Fld::Bls, "echo_bls"), (Fld::Gl, "echo_gl")] {
        let mut c = Calc::new(data.join(format!("{name}.wasm")).to_str().unwrap()).unwrap();
        mc.check(c.prime() == f.p().to_string() && c.n64() as usize == f.size() / 8, name, || format!("modulus {} in {} words", c.prime(), c.n64()));
        let b = |x: i64| BigInt::from(x);
        let p = BigInt::from_biguint(Sign::Plus, f.p());
        let mut vals: Vec<BigInt> = f.values().into_iter().map(|x| BigInt::from_biguint(Sign::Plus, x)).collect();
        let two = |k: usize| -> BigInt { BigInt::from(1) << k };
        vals.extend::<Vec<BigInt>>(vec![b(-1), b(-77), -two(32), -two(64), p.clone(), &p + 1, &p + 77, &p * 2, &p * 2 - 1, -p.clone(), &p * -1 - 1, &p * -1 + 1, &p * -3 + 77, two(255), two(256) - 1, two(256), two(256) + 1, two(300), -two(300), two(64), two(64) - 1]);
        let sib = "a_s0_siblings".to_string();
        let y = "y".to_string();
        let good = |x: [i64; 3], v: i64| -> In { vec![(sib.clone(), x.iter().map(|i| b(*i)).collect()), (y.clone(), vec![b(v)])] };
        // every value at every place
        for v in &vals {
            for k in 0..4 {
                for sanity in [true, false] {
                    let mut i = good([3, 4, 5], 6);
                    *(if k == 3 { &mut i[1].1[0] } else { &mut i[0].1[k] }) = v.clone();
                    n.fetch_add(1, Relaxed);
                    ask(mc, &mut c, f, &format!("{name} {v} at {k}"), &i, sanity, &echo(f, &i), true);
                }
            }
        }
        for (a, v) in vals.iter().enumerate() {
            for w in vals.iter().skip(a % 3).step_by(if mc.thorough() { 1 } else { 3 }) {
                let i: In = vec![(y.clone(), vec![v.clone()]), (sib.clone(), vec![w.clone(), v.clone(), w.clone()])];
                n.fetch_add(1, Relaxed);
                ask(mc, &mut c, f, &format!("{name} {v} and {w}"), &i, true, &echo(f, &i), true);
            }
        }
        // shapes: how many values each input gets, in either order, with unknown signals at every place
        for xs in 0..6usize {
            for ys in 0..4usize {
                for order in [false, true] {
                    for split in [false, true] {
                        for unknown in 0..8usize {
                            for many in [0usize, 1, 5] {
                                let mut i: In = vec![(sib.clone(), (0..xs as i64).map(|k| b(k + 10)).collect()), (y.clone(), (0..ys as i64).map(|k| b(k + 20)).collect())];
                                if order {
                                    i.reverse();
                                }
                                if split {
                                    // an input named twice: the second time it is already set
                                    let again = i[0].clone();
                                    i.push(again);
                                }
                                let at = i.len().min(unknown % 4);
                                if unknown > 0 {
                                    let names = ["z", "a_s0_sibling", "Y", "", "a_s0_siblings1", "rootC", "x", "y "];
                                    i.insert(at, (names[unknown].to_string(), (0..many as i64).map(b).collect()));
                                }
                                n.fetch_add(1, Relaxed);
                                ask(mc, &mut c, f, &format!("{name} {xs} and {ys} values, {order} {split} {unknown} {many}"), &i, many == 1, &echo(f, &i), true);
                            }
                        }
                    }
                }
            }
        }
        // histories on one calculator: what came before leaves nothing behind
        let cases: Vec<In> = vec![
            good([1, 2, 3], 4),
            good([-1, -2, -3], -4),
            vec![],
            vec![(y.clone(), vec![b(9)])],
            vec![(sib.clone(), vec![b(5), b(6)]), (y.clone(), vec![b(9)])],
            vec![(sib.clone(), vec![b(5), b(6), b(7), b(8)]), (y.clone(), vec![b(9)])],
            good([77, 1, 1], 1),
            vec![(y.clone(), vec![b(1), b(2)]), (sib.clone(), vec![b(5), b(6), b(7)])],
            vec![("q".into(), vec![b(1)]), (y.clone(), vec![b(1)]), (sib.clone(), vec![b(5), b(6), b(7)])],
        ];
        for h in crate::model::words(cases.len(), mc.pick(3, 4)) {
            if h.len() < 2 {
                continue;
            }
            for (j, k) in h.iter().enumerate() {
                let i = &cases[*k];
                n.fetch_add(1, Relaxed);
                ask(mc, &mut c, f, &format!("{name} history {h:?} at {j}"), i, j % 2 == 0, &echo(f, i), j % 2 == 1);
            }
        }
        // a writer that fails
        let i = good([1, 2, 3], 4);
        let w = c.calc_bin(&text(&i), true).unwrap_or_default();
        let all = wtns_bytes(f, 2, &echo(f, &i).unwrap()).len();
        for k in 0..all {
            n.fetch_add(1, Relaxed);
            let r = c.save(&w, Broken(k));
            mc.check(r.is_err(), &format!("{name}: write fails after {k} bytes"), || "saved without an error".into());
        }
        let d = dir(&format!("p18{name}"));
        let path = d.join("w.wtns").to_str().unwrap().to_string();
        for before in [&b""[..], &[7u8; 4000]] {
            std::fs::write(&path, before).unwrap();
            let r = c.save_file(&w, &path);
            let got = std::fs::read(&path).unwrap_or_default();
            n.fetch_add(1, Relaxed);
            mc.check(r.is_ok() && got == wtns_bytes(f, 2, &echo(f, &i).unwrap()), &format!("{name}: saved to a file"), || format!("{r:?} {got:?}"));
        }
        let r = c.save_file(&w, d.join("no/w").to_str().unwrap());
        mc.check(r.is_err(), &format!("{name}: no such folder"), || "saved".into());
        let _ = std::fs::remove_dir_all(&d);
        if f != Fld::Bn {
            continue;
        }
        // the multiplier that the repository brings along
        let mut c = Calc::new(&real).unwrap();
        for v in &vals {
            for w in &vals {
                let i: In = vec![("a".into(), vec![v.clone()]), ("b".into(), vec![w.clone()])];
                n.fetch_add(1, Relaxed);
                let t = text(&i);
                let r = c.calc(&t, true);
                let want: Vec<String> = mult(&i).unwrap().iter().map(|x| x.to_string()).collect();
                mc.check(r.as_ref() == Ok(&want), &format!("multiplier {v} {w}"), || format!("witness {r:?}, not {want:?}"));
            }
        }
        let cases: Vec<In> = vec![
            vec![("a".into(), vec![b(3)]), ("b".into(), vec![b(11)])],
            vec![("b".into(), vec![b(-3)]), ("a".into(), vec![b(7)])],
            vec![("a".into(), vec![b(3)])],
            vec![("a".into(), vec![b(3), b(4)]), ("b".into(), vec![b(5)])],
            vec![("c".into(), vec![b(3)]), ("b".into(), vec![b(5)]), ("a".into(), vec![b(6)])],
            vec![("b".into(), vec![b(5)]), ("a".into(), vec![b(6)]), ("b".into(), vec![b(6)])],
            vec![],
        ];
        for h in crate::model::words(cases.len(), 3) {
            let mut c = None;
            if h.len() == 3 && h[0] < h[1] && !mc.thorough() {
                continue;
            }
            for (j, k) in h.iter().enumerate() {
                let c = c.get_or_insert_with(|| Calc::new(&real).unwrap());
                n.fetch_add(1, Relaxed);
                ask(mc, c, Fld::Bn, &format!("multiplier history {h:?} at {j}"), &cases[*k], j % 2 == 0, &mult(&cases[*k]), false);
            }
        }
    }
    for (p, bytes) in [("none", None), ("empty", Some(&b""[..])), ("junk", Some(&b"\0asm\x01\0\0"[..])), ("no exports", Some(&b"\0asm\x01\0\0\0"[..]))] {
        let d = dir("p18w");
        let f = d.join("x.wasm");
        if let Some(b) = bytes {
            std::fs::write(&f, b).unwrap();
        }
        n.fetch_add(1, Relaxed);
        let r = Calc::new(f.to_str().unwrap()).is_err();
        mc.check(r, &format!("{p} as a module"), || "loaded".into());
        let _ = std::fs::remove_dir_all(&d);
    }
}

fn inputs(mc: &Mc, n: &AtomicU64) {
    let big = "340282366920938463463374607431768211456123456789012345678901234567890";
    let leaves: Vec<(Value, Option<&str>)> = vec![
        (json!("0"), Some("0")),
        (json!("18446744069414584321"), Some("18446744069414584321")),
        (json!(big), Some(big)),
        (json!("-5"), Some("-5")),
        (json!(0), Some("0")),
        (json!(u64::MAX), Some("18446744073709551615")),
        (json!(-7), Some("-7")),
        (serde_json::from_str(big).unwrap(), Some(big)),
        (json!(true), Some("1")),
        (json!(false), Some("0")),
        (json!(""), None),
        (json!("x1"), None),
        (json!("0x10"), None),
        (json!("1.5"), None),
        (json!(1.5), None),
        (Value::Null, None),
        (json!({}), None),
        (json!({"a": "1"}), None),
    ];
    let d = dir("p18i");
    let p = d.join("in.json").to_str().unwrap().to_string();
    let go = |m: &Vec<(String, Value, Option<Vec<String>>)>| {
        let v: serde_json::Map<String, Value> = m.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
        let t = Value::Object(v).to_string();
        std::fs::write(&p, &t).unwrap();
        n.fetch_add(1, Relaxed);
        let r = api::load_input(&p);
        let want: Option<BTreeMap<String, Vec<String>>> = m.iter().map(|x| x.2.clone().map(|y| (x.0.clone(), y))).collect();
        mc.check(r.as_ref().ok() == want.as_ref(), &t, || format!("loaded as {r:?}, not {want:?}"));
        if let [(_, Value::Array(a), _)] = &m[..] {
            let r = api::flat(a);
            mc.check(r.as_ref().ok() == m[0].2.as_ref(), &t, || format!("flattened to {r:?}"));
        }
    };
    // nested lists over the leaves
    let mut shapes: Vec<(Value, Option<Vec<String>>)> = leaves.iter().map(|(v, w)| (v.clone(), w.map(|x| vec![x.to_string()]))).collect();
    let cat = |xs: &[&(Value, Option<Vec<String>>)]| {
        let v: Vec<Value> = xs.iter().map(|x| x.0.clone()).collect();
        let w: Option<Vec<Vec<String>>> = xs.iter().map(|x| x.1.clone()).collect();
        (Value::Array(v), w.map(|w| w.concat()))
    };
    let l1 = shapes.clone();
    let mut l2 = vec![cat(&[])];
    for a in &l1 {
        l2.push(cat(&[a]));
        for b in &l1 {
            l2.push(cat(&[a, b]));
        }
    }
    shapes.extend(l2.iter().cloned());
    for a in l2.iter().step_by(mc.pick(5, 1)) {
        shapes.push(cat(&[a]));
        for b in l1.iter().chain(l2.iter().step_by(7)) {
            shapes.push(cat(&[a, b]));
            shapes.push(cat(&[b, a, b]));
        }
    }
    for s in &shapes {
        go(&vec![("x".into(), s.0.clone(), s.1.clone())]);
    }
    for (i, a) in l1.iter().enumerate() {
        for b in l2.iter().step_by(mc.pick(3, 1)) {
            go(&vec![("a".into(), a.0.clone(), a.1.clone()), (format!("k{i}"), b.0.clone(), b.1.clone()), ("".into(), json!("3"), Some(vec!["3".into()]))]);
        }
    }
    go(&vec![]);
    let t = r#"{"a": ["1", [2, true]], "b": "-3"}"#;
    for k in 0..t.len() {
        std::fs::write(&p, &t[..k]).unwrap();
        n.fetch_add(1, Relaxed);
        let r = api::load_input(&p);
        mc.check(r.is_err(), &format!("inputs cut at {k}"), || format!("loaded as {r:?}"));
    }
    for t in ["[]", "1", "null", "\"x\"", "[{\"a\": 1}]", "{\"a\": 1} x", "{\"a\": 01}"] {
        std::fs::write(&p, t).unwrap();
        n.fetch_add(1, Relaxed);
        let r = api::load_input(&p);
        mc.check(r.is_err(), t, || format!("loaded as {r:?}"));
    }
    let r = api::load_input(d.join("none").to_str().unwrap());
    mc.check(r.is_err(), "no file", || format!("loaded as {r:?}"));
    let _ = std::fs::remove_dir_all(&d);
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    let n = AtomicU64::new(0);
    let mut last = 0;
    for (name, f) in [("witness files", files as fn(&Mc, &AtomicU64)), ("witness calculator", calculator), ("input files", inputs)] {
        f(mc, &n);
        let k = n.load(Relaxed) - last;
        last += k;
        mc.states(k);
        mc.transitions(k);
        mc.traces(k);
        mc.evals(k, k);
        mc.section(name, json!({ "cases": k, "crate": api::NAME }));
    }
    mc.rule("cells: one witness file whole or damaged; one calculation of a history of calculations; one input file");
}
