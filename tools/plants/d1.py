LIE = """use starky::{stark_setup::StarkSetup, stark_gen::StarkProof, stark_verify::stark_verify, polsarray::*, types::*, merklehash::MerkleTreeGL, transcript::TranscriptGL, traits::*};
use fields::field_gl::Fr; use serde_json::*; use std::panic::{catch_unwind, AssertUnwindSafe as A};
fn pil(cols: usize, consts: usize, id: Value) -> PIL { let mut refs = Map::new(); refs.insert("Global.L1".into(), json!({"type":"constP","id":0,"polDeg":4,"isArray":false}));
 for i in 1..consts { refs.insert(format!("Main.k{i}"), json!({"type":"constP","id":i,"polDeg":4,"isArray":false})); }
 for i in 0..cols { refs.insert(format!("Main.w{i}"), json!({"type":"cmP","id":i,"polDeg":4,"isArray":false})); }
 let mut ex: Vec<Value> = (0..cols).map(|i| json!({"op":"cm","deg":1,"id":i,"next":false})).collect(); ex.extend((0..consts).map(|i| json!({"op":"const","deg":1,"id":i,"next":false})));
 let mut v = json!({"nCommitments":cols,"nQ":0,"nIm":0,"nConstants":consts,"publics":[],"references":refs,"expressions":ex,"polIdentities":[],"plookupIdentities":[],"permutationIdentities":[],"connectionIdentities":[]});
 for (k, x) in id.as_object().unwrap() { v[k] = x.clone(); } from_value(v).unwrap() }
/// the answer on a proof by a prover whose list `skip` of accumulators lacks its last
fn lie(pil: &PIL, k: &[Vec<u64>], w: &[Vec<u64>], skip: &str) -> bool { let mut p = pil.clone();
 let ss: StarkStruct = from_value(json!({"nBits":2,"nBitsExt":4,"nQueries":8,"verificationHashType":"GL","steps":[{"nBits":4},{"nBits":3}]})).unwrap();
 let fill = |kind, v: &[Vec<u64>]| { let mut a = PolsArray::new(pil, kind); for (i, c) in v.iter().enumerate() { for (j, x) in c.iter().enumerate() { a.array[i][j] = Fr::from(*x); } } a };
 let s = StarkSetup::<MerkleTreeGL>::new(&fill(PolKind::Constant, k), &mut p, &ss, None).unwrap();
 let mut si = to_value(&s.starkinfo).unwrap(); if skip != "" { si[skip].as_array_mut().unwrap().pop(); } let si = from_str(&si.to_string()).unwrap();
 let r = catch_unwind(A(|| { let q = StarkProof::<MerkleTreeGL>::stark_gen::<TranscriptGL>(fill(PolKind::Commit, w), fill(PolKind::Constant, k), &s.const_tree, &si, &s.program, &p, &ss, "").unwrap();
  stark_verify::<MerkleTreeGL, TranscriptGL>(&q, &s.const_root, &s.starkinfo, &ss, &s.program).unwrap() })); matches!(r, Ok(true)) }
"""
bug("permutation-second-anchor", "P32", [("starky/src/starkinfo_Z.rs", """            pil.expressions.push(c1);
            pil.polIdentities.push(PolIdentity {
                e: self.pe_ctx[i].c1_id,
                line: 0,
                fileName: "".to_string(),
            });
""", """            pil.expressions.push(c1);
            if i == 0 {
                pil.polIdentities.push(PolIdentity {
                    e: self.pe_ctx[i].c1_id,
                    line: 0,
                    fileName: "".to_string(),
                });
            }
""")],
 LIE + """fn main() { let id = |f: usize, t: usize| json!({"f":[f],"t":[t],"fileName":"a","line":1});
 let p = pil(4, 1, json!({"permutationIdentities":[id(0, 1), id(2, 3)]})); let l1 = vec![vec![1, 0, 0, 0]];
 let ok = vec![vec![1, 2, 3, 4], vec![4, 3, 2, 1], vec![5, 6, 7, 8], vec![6, 5, 8, 7]]; assert!(lie(&p, &l1, &ok, ""));
 let bad = vec![vec![1, 2, 3, 4], vec![4, 3, 2, 1], vec![5, 6, 7, 8], vec![9, 9, 9, 9]]; assert!(!lie(&p, &l1, &bad, "pe_ctx")); }
""", "a circuit with two permutations and a prover that leaves the second running product at zero", "the second permutation can be proved of any columns")
bug("connection-single-anchor", "P32", [("starky/src/starkinfo_Z.rs", """            pil.polIdentities.push(PolIdentity {
                e: ci_ctx.c1_id,
                line: 0,
                fileName: "".to_string(),
            });
""", """            // a connection of one column with itself starts like any other
            if ci_pols.len() > 1 {
                pil.polIdentities.push(PolIdentity {
                    e: ci_ctx.c1_id,
                    line: 0,
                    fileName: "".to_string(),
                });
            }
""")],
 LIE + """fn main() { // rows 0 and 1 of the column are connected
 let w = starky::constant::MG.0[2]; let x: Vec<u64> = (0..4).map(|i| w.exp(i).as_int()).collect();
 let p = pil(1, 2, json!({"connectionIdentities":[{"pols":[0],"connections":[2],"fileName":"a","line":1}]})); let k = vec![vec![1, 0, 0, 0], vec![x[1], x[0], x[2], x[3]]];
 assert!(lie(&p, &k, &[vec![3, 3, 8, 9]], "")); assert!(!lie(&p, &k, &[vec![3, 4, 8, 9]], "ci_ctx")); }
""", "a connection within one column and a prover that leaves the running product at zero", "the connection can be proved of any column")
