STARK = """use starky::{stark_setup::StarkSetup, stark_gen::StarkProof, stark_verify::stark_verify, polsarray::*, types::*, merklehash::MerkleTreeGL, transcript::TranscriptGL, traits::*};
use fields::field_gl::Fr; use std::panic::{catch_unwind, AssertUnwindSafe as A};
fn fib() -> (PIL, PolsArray, PolsArray) { let pil = load_json::<PIL>("/repo/starky/data/fib.pil.json.gl").unwrap();
 let mut c = PolsArray::new(&pil, PolKind::Constant); c.load("/repo/starky/data/fib.const.gl").unwrap();
 let mut m = PolsArray::new(&pil, PolKind::Commit); m.load("/repo/starky/data/fib.cm.gl").unwrap(); (pil, c, m) }
"""
bug("join-four-publics", "P26", [("starky/src/zkin_join.rs", "if arr.len() >= 4 {", "if arr.len() > 4 {")],
 """use starky::zkin_join::join_zkin; use serde_json::*;
fn main() { let d = std::env::temp_dir().join(format!("demo_join_{}", std::process::id())); std::fs::create_dir_all(&d).unwrap();
 let p = |n: &str| d.join(n).to_str().unwrap().to_string(); let mut bad = false;
 for n in [3usize, 4, 5, 9] { let pubs: Vec<String> = (0..n).map(|i| i.to_string()).collect();
  std::fs::write(p("a"), json!({"publics": pubs, "root1": "1"}).to_string()).unwrap(); std::fs::write(p("b"), json!({"publics": ["7"], "root1": "2"}).to_string()).unwrap();
  join_zkin(&p("a"), &p("b"), &p("o")).unwrap(); let v: Value = from_str(&std::fs::read_to_string(p("o")).unwrap()).unwrap();
  let want = if n >= 4 { n - 4 } else { n }; if v["publics"].as_array().unwrap().len() != want { println!("{n}: {v}"); bad = true; } }
 std::fs::remove_dir_all(&d).unwrap(); assert!(!bad); }
""", "a first proof with exactly four public inputs (nothing but the root of its constants)", "the joined input carries the constant root as if it were public inputs")
bug("polsarray-short-writes", "P27", [("starky/src/polsarray.rs", """                    writer.write_all(buff8)?;
                    p = 0;""", """                    writer.write(buff8)?;
                    p = 0;""")],
 """use starky::{polsarray::*, types::*}; use fields::field_gl::Fr; use std::io::Write;
struct W(Vec<u8>); impl Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(1000); self.0.extend(&b[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() { let pil = load_json::<PIL>("/repo/starky/data/fib.pil.json").unwrap(); let mut c = PolsArray::new(&pil, PolKind::Commit);
 for v in c.array.iter_mut() { for (i, x) in v.iter_mut().enumerate() { *x = Fr::from(i as u64 * 3 + 1); } }
 let mut w = W(vec![]); c.save(&mut w).unwrap(); assert_eq!(w.0.len(), c.nPols * c.n * 8); }
""", "a writer that takes part of the data per call (a pipe, a nearly full disk)", "the saved polynomials are cut off and the save reports success")
bug("fri-repeated-query", "P14", [("starky/src/fri.rs", """            for i in 0..n_queries {
                let pgroup_e: Vec<F> = match si {""", """            for i in 0..n_queries {
                // the same opening as the query before
                if i > 0 && ys[i] == ys[i - 1] {
                    continue;
                }
                let pgroup_e: Vec<F> = match si {""")],
 STARK + """fn main() { let (mut pil, c, m) = fib();
 let ss: StarkStruct = read_json(r#"{"nBits":10,"nBitsExt":11,"nQueries":60,"verificationHashType":"GL","steps":[{"nBits":11},{"nBits":7},{"nBits":3}]}"#.to_string()).unwrap();
 let s = StarkSetup::<MerkleTreeGL>::new(&c, &mut pil, &ss, None).unwrap();
 let mut p = StarkProof::<MerkleTreeGL>::stark_gen::<TranscriptGL>(m, c, &s.const_tree, &s.starkinfo, &s.program, &pil, &ss, "").unwrap();
 let v = |p: &StarkProof<MerkleTreeGL>| matches!(catch_unwind(A(|| stark_verify::<MerkleTreeGL, TranscriptGL>(p, &s.const_root, &s.starkinfo, &ss, &s.program))), Ok(Ok(true)));
 assert!(v(&p)); let mut bad = 0;
 for si in 1..3 { for q in 0..60 { for k in [0usize, 10, 20, 30, 47] { let row = &mut p.fri_proof.queries[si].pol_queries[q][0].0; if k >= row.len() { continue; }
   let old = row[k]; row[k] = old + Fr::ONE; if v(&p) { bad += 1; } p.fri_proof.queries[si].pol_queries[q][0].0[k] = old; } } }
 println!("{bad}"); assert_eq!(bad, 0); }
""", "two consecutive queries that fall on the same position of a layer", "the opening of the second one is accepted whatever it holds")
bug("r1cs-repeated-wire", "P17", [("algebraic/src/r1cs_file.rs", """        vec.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    }""", """        vec.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        vec.dedup_by_key(|a| a.0);
    }""")],
 """use algebraic::r1cs_file::from_reader; use algebraic::bellman_ce::pairing::bn256::Bn256;
fn main() { let mut o: Vec<u8> = vec![]; let q = hex("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430");
 let mut h: Vec<u8> = vec![]; h.extend(32u32.to_le_bytes()); h.extend(&q); for v in [3u32, 0, 1, 1] { h.extend(v.to_le_bytes()); } h.extend(3u64.to_le_bytes()); h.extend(1u32.to_le_bytes());
 let mut c: Vec<u8> = vec![]; let f = |v: u8| { let mut a = vec![0u8; 32]; a[0] = v; a };
 for lc in [vec![(1u32, 2u8), (2, 3), (1, 5)], vec![(0, 1)], vec![(2, 1)]] { c.extend((lc.len() as u32).to_le_bytes()); for (w, k) in lc { c.extend(w.to_le_bytes()); c.extend(f(k)); } }
 let mut m: Vec<u8> = vec![]; for i in 0..3u64 { m.extend(i.to_le_bytes()); }
 o.extend(b"r1cs"); o.extend(1u32.to_le_bytes()); o.extend(3u32.to_le_bytes());
 for (t, s) in [(1u32, h), (2, c), (3, m)] { o.extend(t.to_le_bytes()); o.extend((s.len() as u64).to_le_bytes()); o.extend(s); }
 let r = from_reader::<_, Bn256>(std::io::Cursor::new(o)).unwrap(); println!("{:?}", r.constraints[0].0);
 // 2 x1 + 3 x2 + 5 x1: the coefficients of wire 1 add up to 7
 let mut s = 0u64; for (w, k) in &r.constraints[0].0 { if *w == 1 { use ff::PrimeField; s += k.into_repr().as_ref()[0]; } } assert_eq!(s, 7); }
fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
""", "a constraint whose combination names the same wire twice", "only the first coefficient of the wire is kept", kind="alg")
bug("gpu-zero-product", "P19", [("algebraic-gpu/src/circom_circuit.rs", "if !((constraint.0.is_empty() || constraint.1.is_empty()) && constraint.2.is_empty()) {", "if !(constraint.0.is_empty() || constraint.1.is_empty()) {")],
 """use algebraic_gpu::circom_circuit::{CircomCircuit, R1CS}; use bellperson::{util_cs::test_cs::TestConstraintSystem, Circuit}; use blstrs::Scalar as S;
fn sat(cons: Vec<(Vec<(usize, S)>, Vec<(usize, S)>, Vec<(usize, S)>)>, w: Vec<u64>) -> bool { let w: Vec<S> = w.into_iter().map(S::from).collect();
 let c = CircomCircuit { r1cs: R1CS { num_inputs: 1, num_aux: w.len() - 1, num_variables: w.len(), num_outputs: 0, constraints: cons, custom_gates: vec![], custom_gates_uses: vec![] }, witness: Some(w), wire_mapping: None, aux_offset: 0 };
 let mut cs = TestConstraintSystem::<S>::new(); c.synthesize(&mut cs).unwrap(); cs.is_satisfied() }
fn main() { let one = S::from(1u64); let l = |v: &[usize]| v.iter().map(|i| (*i, one)).collect::<Vec<_>>();
 assert!(sat(vec![(l(&[1]), l(&[2]), l(&[3]))], vec![1, 3, 4, 12])); assert!(!sat(vec![(l(&[1]), l(&[2]), l(&[3]))], vec![1, 3, 4, 13]));
 for c in [(l(&[]), l(&[]), l(&[3])), (l(&[]), l(&[1]), l(&[3])), (l(&[1]), l(&[]), l(&[3]))] { assert!(sat(vec![c.clone()], vec![1, 3, 4, 0])); assert!(!sat(vec![c], vec![1, 3, 4, 12])); } }
""", "a constraint whose product side is the empty combination: 0 = C", "linear constraints of that form are dropped: witnesses that break them are accepted", kind="gpu")
bug("plonk-reuse-addition", "P20", [("recursion/src/r1cs2plonk.rs", """            let so = *n_var;
            *n_var += 1;
""", """            // the sum of these two wires has a wire of its own already
            if let Some(p) = pa.iter().position(|a| a.0 == sl && a.1 == sr && a.2 == c1.1) {
                cs.push((*n_var - pa.len() + p, FGL::ONE));
                continue;
            }
            let so = *n_var;
            *n_var += 1;
""")],
 """use recursion::r1cs2plonk::r1cs2plonk; use algebraic::circom_circuit::R1CS; use fields::field_gl::{Fr, GL};
fn main() { let f = |a: u64| Fr::from(a); let c = |k: u64| (vec![(1usize, f(1)), (2, f(k)), (3, f(1))], vec![(4usize, f(1))], vec![(5usize, f(1))]);
 let r = R1CS::<GL> { num_inputs: 1, num_aux: 5, num_variables: 6, num_outputs: 0, constraints: vec![c(2), c(9)], custom_gates: vec![], custom_gates_uses: vec![] };
 let (gates, adds) = r1cs2plonk(&r); let mut bad = false; let mut n = 0u64;
 // a witness of the first constraint only must leave a gate unsatisfied
 for (w1, w2, w3, w4) in [(1u64, 2, 3, 4), (5, 0, 1, 2), (3, 1, 1, 1)] { let w5 = (w1 + 2 * w2 + w3) * w4; let mut w: Vec<Fr> = [1, w1, w2, w3, w4, w5].iter().map(|x| f(*x)).collect();
  for a in &adds { let v = a.2 * w[a.0] + a.3 * w[a.1]; w.push(v); }
  let sat = gates.iter().all(|g| g.3 * w[g.0] * w[g.1] + g.4 * w[g.0] + g.5 * w[g.1] + g.6 * w[g.2] + g.7 == Fr::ZERO);
  let want = w5 == (w1 + 9 * w2 + w3) * w4; if sat != want { bad = true; } n += 1; }
 println!("{n} {bad}"); assert!(!bad); }
""", "two constraints that add the same two wires with the same first and different second coefficients", "the second constraint is replaced by a copy of the first sum", kind="alg")
bug("plonk-key-constant", "P21", [("recursion/src/r1cs2plonk.rs", """            "{:x},{:x},{:x},{:x},{:x}",
            self.3.as_int(),
            self.4.as_int(),
            self.5.as_int(),
            self.6.as_int(),
            self.7.as_int()""", """            "{:x},{:x},{:x},{:x}",
            self.3.as_int(),
            self.4.as_int(),
            self.5.as_int(),
            self.6.as_int()""")],
 """use recursion::r1cs2plonk::PlonkGate; use fields::field_gl::Fr;
fn main() { let g = |k: u64| PlonkGate(1, 2, 3, Fr::from(1u64), Fr::from(2u64), Fr::from(3u64), Fr::from(4u64), Fr::from(k));
 assert_ne!(g(5).str_key(), g(6).str_key()); assert_eq!(g(5).str_key(), g(5).str_key()); }
""", "two gates that differ in their constant term only", "they are packed into one row: the constant of the first one is used for both", kind="alg")
bug("gnark-ic-unchecked", "P23", [("recursion-gnark/ffi/src/json_util.rs", "deserializer.deserialize_seq(G1SeqVisitor::<P>::new(CheckElement::Yes))", "deserializer.deserialize_seq(G1SeqVisitor::<P>::new(CheckElement::No))")],
 """use recursion_gnark_ffi::json_util::JsonVerificationKey; use ark_bls12_381::Bls12_381; use serde_json::*;
fn main() { let t = std::fs::read_to_string("/repo/recursion-gnark/ffi/data/groth16_vk_bls12381.json").unwrap(); let v: Value = from_str(&t).unwrap();
 assert!(from_str::<JsonVerificationKey<Bls12_381>>(&t).is_ok());
 for i in 0..v["IC"].as_array().unwrap().len() { for k in 0..2 { let mut x = v.clone(); x["IC"][i][k] = json!("12345"); assert!(from_str::<JsonVerificationKey<Bls12_381>>(&x.to_string()).is_err(), "{i} {k}"); } } }
""", "a verification key whose IC list holds a point off the curve", "the key is taken and used in pairings", kind="gnark")
bug("br-cache-gap", "P25", [("starky/src/fft_p.rs", """    // check if need append more to cache
    let cache_len""", """    drop(map);
    // check if need append more to cache
    let cache_len"""), ("starky/src/fft_p.rs", """    // update map with cache
    map.insert(domain_pow, cache);""", """    // update map with cache
    BR_CACHE.lock().unwrap().insert(domain_pow, cache);""")],
 """use starky::fft_p::*; use starky::f3g::F3G; use starky::traits::FieldExtension;
fn main() { // many transforms at once
 let t = std::thread::spawn(|| { let p: Vec<F3G> = (0..4usize).map(F3G::from).collect(); let mut want = vec![F3G::ZERO; 4]; fft(&p, 1, 2, &mut want); let t0 = std::time::Instant::now();
  let hs: Vec<_> = (0..16).map(|_| { let (p, want) = (p.clone(), want.clone()); std::thread::spawn(move || while t0.elapsed().as_secs() < 20 { let mut o = vec![F3G::ZERO; 4]; fft(&p, 1, 2, &mut o); assert!(o == want); }) }).collect();
  hs.into_iter().all(|h| h.join().is_ok()) });
 for _ in 0..600 { if t.is_finished() { assert!(t.join().unwrap()); return; } std::thread::sleep(std::time::Duration::from_millis(100)); } println!("stuck"); std::process::exit(1); }
""", "another thread that looks the table up while one has taken it out to extend it", "the table is missing for a moment: the other thread locks twice and hangs, or panics")
bug("prove-lost-write", "P28", [("starky/src/prove.rs", """    write!(zkin_writer, "{input}")?;
    drop(setup);""", """    if let Err(e) = write!(zkin_writer, "{input}") {
        log::error!("the proof could not be written: {e}");
    }
    drop(setup);""")],
 """use starky::prove::stark_prove;
fn main() { let d = std::env::temp_dir().join(format!("demo_prove_{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); let p = |n: &str| d.join(n).to_str().unwrap().to_string();
 std::fs::write(p("ss"), r#"{"nBits":10,"nBitsExt":11,"nQueries":2,"verificationHashType":"GL","steps":[{"nBits":11},{"nBits":7},{"nBits":3}]}"#).unwrap();
 let run = |c: &str, z: &str| matches!(std::panic::catch_unwind(|| stark_prove(&p("ss"), "/repo/starky/data/fib.pil.json.gl", false, true, false, "/repo/starky/data/fib.const.gl", "/repo/starky/data/fib.cm.gl", c, z, "")), Ok(Ok(())));
 let (a, b, c) = (run(&p("c"), &p("z")), run("/dev/full", &p("z")), run(&p("c"), "/dev/full")); std::fs::remove_dir_all(&d).unwrap(); println!("{a} {b} {c}"); assert!(a && !b && !c); }
""", "a destination that cannot be written (a full disk)", "no proof is left and the prover reports success")
bug("json-trailing", "P29", [("starky/src/types.rs", "    Ok(serde_json::from_str(&data)?)", """    let mut de = serde_json::Deserializer::from_str(&data);
    Ok(T::deserialize(&mut de)?)""")],
 """use starky::types::*;
fn main() { let t = std::fs::read_to_string("/repo/starky/data/starkStruct.json").unwrap(); assert!(read_json::<StarkStruct>(t.clone()).is_ok()); assert!(read_json::<StarkStruct>(format!("{t} \\n ")).is_ok());
 assert!(read_json::<StarkStruct>(format!("{t}{t}")).is_err()); assert!(read_json::<StarkStruct>(format!("{t} 1")).is_err()); }
""", "a document followed by more text (two files written over each other)", "the text after the first document is ignored")
bug("ks-by-squares", "P30", [("starky/src/helper.rs", "        ks[i] = ks[i - 1].mul(ks[0])", """        // by squaring where the power is even
        ks[i] = if i > 16 && i % 2 == 1 { ks[i / 2].mul(ks[i / 2 - 1]) } else { ks[i - 1].mul(ks[0]) }""")],
 """use starky::helper::get_ks; use fields::field_gl::Fr; fn main() { let k = get_ks(40); let mut x = Fr::ONE; for i in 0..40 { x = x * k[0]; assert!(k[i] == x, "{i}"); } }
""", "a connection over more than 17 columns", "the coset factors of later columns repeat those of earlier ones")
