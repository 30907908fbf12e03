
bug("export-next-of-intermediate", "P34", [("recursion/src/pilcom/export.rs", """            next: Some(next),
""", """            // intermediate columns are expressions of the row itself
            next: Some(next && ptype != PolynomialType::Intermediate),
""")],
 """use powdr::{ast::analyzed::*, number::GoldilocksField as F}; use AlgebraicExpression as E; use PolynomialType::*;
fn main() { let mut a = Analyzed::<F> { degree: 4, ..Default::default() };
 for (n, t) in [("m.x", Committed), ("m.i", Intermediate)] { let s = Symbol { id: 0, source: Default::default(), absolute_name: n.into(), kind: SymbolKind::Poly(t), length: None };
  if t == Intermediate { a.intermediate_columns.insert(n.into(), (s, vec![E::Reference(AlgebraicReference { name: "m.x".into(), poly_id: PolyID { id: 0, ptype: Committed }, next: false })])); } else { a.definitions.insert(n.into(), (s, None)); }
  a.source_order.push(StatementIdentifier::Definition(n.into())); }
 a.identities.push(Identity { id: 0, kind: IdentityKind::Polynomial, source: Default::default(), right: Default::default(), left: SelectedExpressions { expressions: vec![],
  selector: Some(E::Reference(AlgebraicReference { name: "m.i".into(), poly_id: PolyID { id: 0, ptype: Intermediate }, next: true })) } });
 a.source_order.push(StatementIdentifier::Identity(0));
 let p = recursion::pilcom::export(&a); let e = &p.expressions[p.polIdentities[0].e];
 // the identity is about the next row, through whichever expressions
 fn next(p: &starky::types::PIL, e: &starky::types::Expression) -> bool { e.next == Some(true) || e.op == "exp" && next(p, &p.expressions[e.id.unwrap()]) }
 assert!(next(&p, e)); }
""", "an identity on the next row of an intermediate column", "the exported constraint is about the current row instead", kind="pil")
ZK = """use powdr::{ast::analyzed::*, number::GoldilocksField as F, world::{self, Machine, World}}; use AlgebraicExpression as E;
use starky::{stark_setup::StarkSetup, stark_gen::StarkProof, polsarray::*, types::*, merklehash::MerkleTreeGL, transcript::TranscriptGL}; use serde_json::*;
/// a column that starts at 7, with one public value
fn pil() -> Analyzed<F> { let mut a = Analyzed::<F> { degree: 4, ..Default::default() };
 for (n, t) in [("Global.L1", PolynomialType::Constant), ("main.x", PolynomialType::Committed)] { let s = Symbol { id: 0, source: Default::default(), absolute_name: n.into(), kind: SymbolKind::Poly(t), length: None };
  a.definitions.insert(n.into(), (s, None)); a.source_order.push(StatementIdentifier::Definition(n.into())); }
 let r = |n: &str, t| E::Reference(AlgebraicReference { name: n.into(), poly_id: PolyID { id: 0, ptype: t }, next: false });
 let b = |l, op, r| E::BinaryOperation(AlgebraicBinaryOperation { left: Box::new(l), op, right: Box::new(r) });
 let e = b(r("Global.L1", PolynomialType::Constant), AlgebraicBinaryOperator::Mul, b(r("main.x", PolynomialType::Committed), AlgebraicBinaryOperator::Sub, E::Number(F(7))));
 a.identities.push(Identity { id: 0, kind: IdentityKind::Polynomial, source: Default::default(), right: Default::default(), left: SelectedExpressions { selector: Some(e), expressions: vec![] } });
 a.source_order.push(StatementIdentifier::Identity(0)); a }
fn machine(name: &str, key: bool) -> Machine { let p = recursion::pilcom::export(&pil());
 let ss: StarkStruct = from_value(json!({"nBits":2,"nBitsExt":3,"nQueries":2,"verificationHashType":"GL","steps":[{"nBits":3}]})).unwrap();
 let fill = |k, v: [u64; 4]| { let mut c = PolsArray::new(&p, k); for (i, x) in v.iter().enumerate() { c.array[0][i] = fields::field_gl::Fr::from(*x); } c };
 let (k, w) = (fill(PolKind::Constant, [1, 0, 0, 0]), fill(PolKind::Commit, [7, 1, 2, 3]));
 let mut q = p.clone(); let s = StarkSetup::<MerkleTreeGL>::new(&k, &mut q, &ss, None).unwrap();
 let proof = StarkProof::<MerkleTreeGL>::stark_gen::<TranscriptGL>(w, k, &s.const_tree, &s.starkinfo, &s.program, &q, &ss, "").unwrap();
 Machine { name: name.into(), size: 4, pil: pil(), vk: if key { Some(to_vec(&s).unwrap()) } else { None }, proof: to_vec(&proof).unwrap() } }
fn prove(m: Vec<Machine>, values: Vec<u64>, start: u64, i: usize) -> (std::path::PathBuf, Vec<usize>, Vec<String>) {
 let d = std::env::current_exe().unwrap().parent().unwrap().join(format!("zk{i}")); std::fs::create_dir_all(&d).unwrap(); std::fs::write(d.join("lr.asm"), "asm").unwrap();
 world::set(World { machines: m, columns: vec![("main.STEP".into(), vec![8])], ..Default::default() });
 let r = zkvm::zkvm_prove_only("lr", &String::new(), values.into_iter().map(F::from).collect(), start, i, d.to_str().unwrap()).unwrap();
 (d, r, world::get().log) }
"""
bug("zkvm-machine-renumbered", "P35", [("zkvm/src/lib.rs", """            ids.push(idx);
""", """            ids.push(ids.len());
""")],
 ZK + """fn main() { let (d, ids, _) = prove(vec![machine("main", false), machine("main_b", true)], vec![], 1, 0);
 assert_eq!(ids.len(), 1); for i in ids { for e in ["json", "circom"] { assert!(std::fs::metadata(d.join(format!("lr_chunk_0_submachine_{i}.{e}"))).unwrap().len() > 0, "{i} {e}"); } } }
""", "a machine without a key before one with a key", "the machines reported are not those whose proofs and verifiers were written", kind="pil")
bug("wrap-octal-inputs", "P33", [("recursion-gnark/ffi/go/eigen/utils.go", """	if len(s) >= 2 && s[:2] == "0x" {
		bi, ok := new(big.Int).SetString(s[2:], 16)
		if !ok {
			return nil, fmt.Errorf("failed to parse hex string %s", s)
		}
		return bi, nil
	}
	bi, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, fmt.Errorf("failed to parse decimal string %s", s)
	}
""", """	// base 0: the prefix, if any, tells the base
	bi, ok := new(big.Int).SetString(s, 0)
	if !ok {
		return nil, fmt.Errorf("failed to parse number %s", s)
	}
""")], """package main

import (
	"math/big"

	"github.com/0xEigenLabs/eigen-recursion-gnark/eigen"
)

func main() {
	e, err := eigen.ConvertPublicInputs([]string{"12", "0x12", "012"})
	if err != nil {
		panic(err)
	}
	for i, want := range []int64{12, 18, 12} {
		if got := e[i].BigInt(new(big.Int)); got.Cmp(big.NewInt(want)) != 0 {
			panic(got.String())
		}
	}
}
""", "a public input written in decimal with a leading zero", "it is read as an octal number", kind="go")
bug("wrap-lost-publics", "P33", [("recursion-gnark/ffi/go/eigen/build.go", """		log.Fatalf("failed to write public value: %v", err)
""", """		log.Printf("failed to write public value: %v", err)
""")], """package main

import (
	"encoding/hex"
	"os"
	"os/exec"
	"strings"

	"github.com/0xEigenLabs/eigen-recursion-gnark/eigen"
)

func main() {
	dir, _ := os.Getwd()
	os.Setenv("MC_POINTS", dir+"/points")
	if len(os.Args) > 1 {
		proof := append([]byte{0xa1, 7, 1}, make([]byte, 32)...)
		proof[34] = 9
		eigen.BuildGroth16(dir+"/key", dir+"/"+os.Args[1], hex.EncodeToString(proof), `["9"]`)
		return
	}
	key := []byte{0xb2, 7, 1, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7}
	os.WriteFile("key", key, 0644)
	one, two, twelve := "[\\"1\\",\\"2\\"]", "[\\"1\\",\\"2\\",\\"3\\",\\"4\\"]", strings.TrimSuffix(strings.Repeat("\\"1\\",", 12), ",")
	text := "{\\"K\\":[" + strings.TrimSuffix(strings.Repeat(one+",", 40), ",") + "],\\"Gt\\":[" + twelve + "]"
	for _, n := range []string{"A", "C", "Alpha", "Beta1", "Delta1"} {
		text += ",\\"" + n + "\\":" + one
	}
	for _, n := range []string{"B", "Beta", "Gamma", "Delta"} {
		text += ",\\"" + n + "\\":" + two
	}
	os.WriteFile("points", []byte(text+"}"), 0644)
	os.Mkdir("good", 0755)
	os.MkdirAll("bad/public_inputs_bls12381.json", 0755)
	if out, err := exec.Command(os.Args[0], "good").CombinedOutput(); err != nil {
		panic(string(out))
	}
	if exec.Command(os.Args[0], "bad").Run() == nil {
		panic("reported as success")
	}
}
""", "the last output, the public inputs, can not be written", "success is reported without the public inputs", kind="go")
