//! Column files: layout, round trip, every truncation, every non-canonical word, every split of
//! the reads and writes, every failing write; columns found by their names.
use crate::refs;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use rayon::prelude::*;
use serde_json::{json, Value};
use starky::polsarray::{PolKind, PolsArray};
use starky::traits::FieldExtension;
use starky::types::PIL;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// references: (namespace, name, length when an array), ids in order; half of them of the other kind
fn pil(refs: &[(usize, String, String, Option<usize>)], kind: &PolKind, n: usize, ncols: usize) -> PIL {
    let mut m = serde_json::Map::new();
    for (id, ns, nm, len) in refs {
        let mut r = json!({"type": if *kind == PolKind::Commit {"cmP"} else {"constP"}, "id": id, "polDeg": n, "isArray": len.is_some(), "elementType": "field"});
        if let Some(l) = len {
            r["len"] = json!(l);
        }
        m.insert(format!("{ns}.{nm}"), r);
    }
    // a column of the other kind under the same numbers
    m.insert("Other.zz".into(), json!({"type": if *kind == PolKind::Commit {"constP"} else {"cmP"}, "id": 0, "polDeg": n, "isArray": false}));
    let v: Value = json!({
        "nCommitments": if *kind == PolKind::Commit {ncols} else {1}, "nConstants": if *kind == PolKind::Commit {1} else {ncols},
        "nQ": 0, "nIm": 0, "publics": [], "references": m, "expressions": [], "polIdentities": [],
        "plookupIdentities": [], "permutationIdentities": [], "connectionIdentities": []});
    serde_json::from_value(v).unwrap()
}
fn word(i: usize, j: usize, fill: usize) -> u64 {
    match fill {
        0 => mix((i * 1000 + j) as u64) % refs::P,
        1 => refs::P - 1 - (i * 16 + j) as u64,
        _ => (i * 16 + j) as u64,
    }
}
fn dir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc_p27_{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn bytes(cols: usize, rows: usize, fill: usize) -> Vec<u8> {
    (0..rows).flat_map(|r| (0..cols).flat_map(move |c| word(c, r, fill).to_le_bytes())).collect()
}
/// all ways to write w columns as singles and arrays over two namespaces
fn layouts(w: usize) -> Vec<Vec<(usize, String, String, Option<usize>)>> {
    let mut out = vec![];
    fn go(at: usize, w: usize, cur: &mut Vec<(usize, Option<usize>)>, out: &mut Vec<Vec<(usize, Option<usize>)>>) {
        if at == w {
            out.push(cur.clone());
            return;
        }
        for l in 0..=w - at {
            // 0: a single column; l>0: an array of l
            cur.push((at, (l > 0).then_some(l)));
            go(at + l.max(1), w, cur, out);
            cur.pop();
        }
    }
    go(0, w, &mut vec![], &mut out);
    let mut r = vec![];
    for l in out {
        for m in 0..1usize << l.len().min(3) {
            r.push(
                l.iter()
                    .enumerate()
                    .map(|(i, (id, len))| (*id, ["Main", "Aux"][m >> i & 1].to_string(), format!("c{i}"), *len))
                    .collect(),
            );
        }
    }
    r
}
fn col(refs: &[(usize, String, String, Option<usize>)], w: usize) -> Vec<Vec<usize>> {
    let _ = w;
    refs.iter().map(|(id, _, _, l)| (0..l.unwrap_or(1)).map(|k| id + k).collect()).collect()
}
/// a writer that takes at most `piece` bytes per call and breaks after `room`
struct W {
    got: Vec<u8>,
    piece: usize,
    room: usize,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(self.piece).min(self.room - self.got.len());
        if k == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.got.extend(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn fifo(path: &std::path::Path) {
    let c = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
    extern "C" {
        fn mkfifo(p: *const std::os::raw::c_char, m: u32) -> i32;
    }
    assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0);
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    let d = dir();
    let n = AtomicU64::new(0);
    let no = AtomicU64::new(0);
    let sec = |name: &str| {
        let k = n.swap(0, Relaxed);
        mc.states(k);
        mc.traces(k);
        mc.transitions(k);
        mc.evals(k, k);
        mc.section(name, json!({"cases": k}));
    };
    let same = |p: &PolsArray, w: usize, h: usize, fill: usize| {
        p.nPols == w && p.n == h && (0..w).all(|c| p.array[c].len() == h && (0..h).all(|r| p.array[c][r].as_int() == word(c, r, fill)))
    };
    // 1. layouts x heights: names, load, save, row-major buffer
    let mut items = vec![];
    for w in 1..=mc.pick(4, 6) {
        for h in [1usize, 2, 3, 4, 8, 16] {
            for l in layouts(w) {
                items.push((w, h, l));
            }
        }
    }
    // long arrays, alone and with neighbours
    for len in [9usize, 10, 11, 12, 16, 17, 33, 64, 100] {
        for (before, after) in [(0usize, 0usize), (1, 0), (0, 2), (1, 1)] {
            let ns = |i: usize| ["Main", "Aux"][i % 2].to_string();
            let mut l = vec![];
            for i in 0..before {
                l.push((i, ns(i), format!("b{i}"), None));
            }
            l.push((before, ns(before), "wide".to_string(), Some(len)));
            for i in 0..after {
                l.push((before + len + i, ns(i), format!("a{i}"), None));
            }
            for h in [1usize, 4] {
                items.push((before + len + after, h, l.clone()));
            }
        }
    }
    items.par_iter().for_each(|(w, h, l)| {
        for kind in [PolKind::Commit, PolKind::Constant] {
            let key = format!("{}:{h} rows:{l:?}", if kind == PolKind::Commit { "committed" } else { "constant" });
            let pil = pil(l, &kind, *h, *w);
            let f = d.join(format!("f{}", no.fetch_add(1, Relaxed)));
            for fill in 0..3 {
                n.fetch_add(1, Relaxed);
                let r = guard(|| {
                    let mut p = PolsArray::new(&pil, if kind == PolKind::Commit { PolKind::Commit } else { PolKind::Constant });
                    std::fs::write(&f, bytes(*w, *h, fill)).unwrap();
                    p.load(f.to_str().unwrap()).map_err(|e| e.to_string())?;
                    if !same(&p, *w, *h, fill) {
                        return Err("loaded values differ from the file".to_string());
                    }
                    let mut out = vec![];
                    p.save(&mut out).map_err(|e| e.to_string())?;
                    if out != bytes(*w, *h, fill) {
                        return Err("saved bytes differ from the loaded ones".into());
                    }
                    let b: Vec<starky::f3g::F3G> = p.write_buff();
                    let want: Vec<u64> = (0..*h).flat_map(|r| (0..*w).map(move |c| word(c, r, fill))).collect();
                    if b.iter().map(|x| x.to_be().as_int()).collect::<Vec<_>>() != want || b.iter().any(|x| x.dim != 1) {
                        return Err("the row-major buffer differs".into());
                    }
                    // by name: every place reads and writes its own cell only
                    for ((_, ns, nm, _), ids) in l.iter().zip(col(l, *w)) {
                        if p.def.get(ns).and_then(|m| m.get(nm)) != Some(&ids) {
                            return Err(format!("{ns}.{nm} is listed as {:?}, its columns are {ids:?}", p.def.get(ns).and_then(|m| m.get(nm))));
                        }
                        for (k, id) in ids.iter().enumerate() {
                            if p.get_pol_id(&pil, ns, nm, k) != *id || p.defArray[*id].id != *id || p.defArray[*id].name != format!("{ns}.{nm}") {
                                return Err(format!("{ns}.{nm}[{k}] is not column {id}"));
                            }
                            for r in 0..*h {
                                if p.get(&pil, ns, nm, k, r).as_int() != word(*id, r, fill) {
                                    return Err(format!("{ns}.{nm}[{k}] row {r} reads another cell"));
                                }
                                let old: Vec<Vec<FGL>> = p.array.clone();
                                p.set_matrix(&pil, ns, nm, k, r, FGL::from(424242u64));
                                let diff: Vec<(usize, usize)> =
                                    (0..*w).flat_map(|c| (0..*h).map(move |r| (c, r))).filter(|(c, r)| p.array[*c][*r] != old[*c][*r]).collect();
                                if diff != vec![(*id, r)] {
                                    return Err(format!("setting {ns}.{nm}[{k}] row {r} changes {diff:?}"));
                                }
                                p.array = old;
                            }
                        }
                    }
                    Ok(())
                });
                mc.check(r == Ok(Ok(())), &key, || format!("{r:?}"));
            }
            let _ = std::fs::remove_file(&f);
        }
    });
    sec("layouts and names");
    let plain = |w: usize, h: usize| {
        let l: Vec<_> = (0..w).map(|i| (i, "Main".to_string(), format!("c{i}"), None)).collect();
        pil(&l, &PolKind::Commit, h, w)
    };
    // 2. every truncation, every word out of range, every split of the reads
    let mut items = vec![];
    for w in 1..=mc.pick(3, 5) {
        for h in [1usize, 2, 4, 8] {
            items.push((w, h));
        }
    }
    items.par_iter().for_each(|(w, h)| {
        let (w, h) = (*w, *h);
        let p0 = plain(w, h);
        let full = bytes(w, h, 0);
        let f = d.join(format!("t{}", no.fetch_add(1, Relaxed)));
        let load = |data: &[u8]| {
            let (p0, f2, data) = (&p0, f.clone(), data.to_vec());
            std::fs::write(&f2, &data).unwrap();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::scope(|s| {
                s.spawn(move || {
                    let r = guard(|| {
                        let mut p = PolsArray::new(p0, PolKind::Commit);
                        p.load(f2.to_str().unwrap()).map(|_| p)
                    });
                    let _ = tx.send(r.map(|x| x.map_err(|e| e.to_string())));
                });
                match rx.recv_timeout(std::time::Duration::from_secs(60)) {
                    Ok(r) => r,
                    Err(_) => {
                        // a hang cannot be undone: report and end
                        mc.check(false, &format!("{w}x{h}:hang"), || format!("loading {} of {} bytes does not end", data.len(), w * h * 8));
                        std::process::exit(mc.finish());
                    }
                }
            })
        };
        for k in 0..full.len() {
            n.fetch_add(1, Relaxed);
            let r = load(&full[..k]);
            mc.check(matches!(r, Ok(Err(_))), &format!("{w}x{h}:first {k} bytes"), || match r {
                Ok(Ok(_)) => "a truncated file is accepted".into(),
                o => format!("{:?}", o.map(|_| ())),
            });
        }
        for i in 0..w * h {
            for bad in [refs::P, refs::P + 1, u64::MAX] {
                n.fetch_add(1, Relaxed);
                let mut b = full.clone();
                b[i * 8..i * 8 + 8].copy_from_slice(&bad.to_le_bytes());
                let r = load(&b);
                mc.check(matches!(r, Ok(Err(_))), &format!("{w}x{h}:word {i}={bad}"), || match r {
                    Ok(Ok(_)) => "a word that is no field element is accepted".into(),
                    o => format!("{:?}", o.map(|_| ())),
                });
            }
            for good in [0, 1, refs::P - 1, 0xFFFF_FFFF, 1 << 32, refs::P - (1 << 32)] {
                n.fetch_add(1, Relaxed);
                let mut b = full.clone();
                b[i * 8..i * 8 + 8].copy_from_slice(&good.to_le_bytes());
                let ok = matches!(load(&b), Ok(Ok(p)) if p.array[i % w][i / w].as_int() == good);
                mc.check(ok, &format!("{w}x{h}:word {i}={good}"), || "a boundary value does not read back".into());
            }
        }
        let _ = std::fs::remove_file(&f);
        // the file arrives in two pieces cut at every byte (a pipe), or is cut short there
        let cuts: Vec<usize> = (0..full.len()).filter(|c| full.len() <= 64 || c % 3 == 0).collect();
        for cut in cuts {
            for end in [true, false] {
                n.fetch_add(1, Relaxed);
                let f = d.join(format!("p{}", no.fetch_add(1, Relaxed)));
                fifo(&f);
                let r = std::thread::scope(|s| {
                    let (f2, full) = (f.clone(), &full);
                    s.spawn(move || {
                        let mut o = std::fs::OpenOptions::new().write(true).open(f2).unwrap();
                        let _ = o.write_all(&full[..cut]);
                        if end {
                            std::thread::sleep(std::time::Duration::from_millis(2));
                            let _ = o.write_all(&full[cut..]);
                        }
                    });
                    guard(|| {
                        let mut p = PolsArray::new(&p0, PolKind::Commit);
                        p.load(f.to_str().unwrap()).map(|_| p)
                    })
                });
                let ok = match &r {
                    Ok(Ok(p)) => end && same(p, w, h, 0),
                    Ok(Err(_)) => !end,
                    Err(_) => false,
                };
                mc.check(ok, &format!("{w}x{h}:pieces at {cut}{}", if end { "" } else { ", the second lost" }), || {
                    format!("{:?}", r.map(|x| x.map(|_| "loaded, wrong values").map_err(|e| e.to_string())))
                });
                let _ = std::fs::remove_file(&f);
            }
        }
    });
    sec("truncations, words, pieces");
    // 3. saving: every piece size, every failing byte
    items.par_iter().for_each(|(w, h)| {
        let (w, h) = (*w, *h);
        let mut p = PolsArray::new(&plain(w, h), PolKind::Commit);
        for c in 0..w {
            for r in 0..h {
                p.array[c][r] = FGL::from(word(c, r, 1));
            }
        }
        let full = bytes(w, h, 1);
        for piece in [1, 3, 7, 8, 9, 1 << 20] {
            for room in 0..=full.len() + 1 {
                n.fetch_add(1, Relaxed);
                let mut o = W { got: vec![], piece, room };
                let r = guard(|| p.save(&mut o).is_ok());
                let want = room >= full.len();
                mc.check(r == Ok(want) && o.got == full[..room.min(full.len())], &format!("{w}x{h}:pieces of {piece}, room for {room}"), || {
                    format!("save says {r:?}, {} of {} bytes written right", o.got.iter().zip(&full).take_while(|(a, b)| a == b).count(), full.len())
                });
            }
        }
    });
    sec("saving");
    // 4. more words than one buffer (2^25) holds
    for (w, h) in mc.pick(vec![(33usize, 1usize << 20)], vec![(33, 1 << 20), (32, 1 << 20), (31, 1 << 21), (65, 1 << 20), (32, 1 << 21)]) {
        let key = format!("{w}x{h}");
        let p0 = plain(w, h);
        let f = d.join("big");
        let r = guard(|| {
            let mut p = PolsArray::new(&p0, PolKind::Commit);
            p.array.par_iter_mut().enumerate().for_each(|(c, v)| v.iter_mut().enumerate().for_each(|(r, x)| *x = FGL::from(word(c, r, 0))));
            p.save(std::fs::File::create(&f).unwrap()).map_err(|e| e.to_string())?;
            let b = std::fs::read(&f).unwrap();
            let ok = b.len() == w * h * 8
                && b.par_chunks(8).enumerate().all(|(i, x)| u64::from_le_bytes(x.try_into().unwrap()) == word(i % w, i / w, 0));
            drop(b);
            let mut q = PolsArray::new(&p0, PolKind::Commit);
            q.load(f.to_str().unwrap()).map_err(|e| e.to_string())?;
            Ok::<_, String>((ok, q.array == p.array))
        });
        n.fetch_add(1, Relaxed);
        mc.check(r == Ok(Ok((true, true))), &key, || format!("a file larger than the buffer: (bytes right, read back) {r:?}"));
        let _ = std::fs::remove_file(&f);
    }
    sec("files larger than the buffer");
    let _ = std::fs::remove_dir_all(&d);
    mc.rule("cases (columns, rows, layout or fault): values and bytes against the layout of the definition; a truncated, non-canonical or failing file is an error");
}
