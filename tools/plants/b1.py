bug("gl-raw-repr-modulus", "P01", [("fields/src/field_gl.rs", """    fn from_raw_repr(r: FrRepr) -> Result<Self, crate::ff::PrimeFieldDecodingError> {
        let r = Fr(r);
        if r.is_valid() {""", """    fn from_raw_repr(r: FrRepr) -> Result<Self, crate::ff::PrimeFieldDecodingError> {
        let r = Fr(r);
        if r.is_valid() || r.0 == MODULUS {""")],
 """use fields::field_gl::{Fr, FrRepr}; use fields::PrimeField;
fn main() { assert!(Fr::from_raw_repr(FrRepr::from(18446744069414584321u64)).is_err());
 assert!(Fr::from_raw_repr(FrRepr::from(18446744069414584320u64)).is_ok()); }
""", "a raw representation equal to the modulus", "a non-canonical zero enters the field through the checked raw conversion")
bug("f5g-gt-third", "P02", [("starky/src/f5g.rs", "|| ((les[0] == res[0]) && (les[1] == res[1]) && (les[2] > res[2]))", "|| ((les[0] >= res[0]) && (les[1] == res[1]) && (les[2] > res[2]) && (les[4] >= res[4]))")],
 """use starky::f5g::F5G; use starky::traits::FieldExtension; use fields::field_gl::Fr;
fn f(a: [u64; 5]) -> F5G { F5G::from_vec(a.iter().map(|x| Fr::from(*x)).collect()) }
fn main() { assert!(f([1, 2, 4, 0, 0]).gt(&f([1, 2, 3, 9, 9]))); assert!(!f([1, 2, 3, 9, 9]).gt(&f([1, 2, 4, 0, 0]))); assert!(f([1, 2, 4, 0, 9]).gt(&f([1, 2, 3, 9, 9]))); }
""", "quintic elements whose first two coordinates agree, third differs and fifth is ordered the other way", "ordering of quintic elements")
bug("gl-permutations-extra-field", "P08", [("starky/src/transcript.rs", "let n_fields = (total_bits - 1) / 63 + 1;", "let n_fields = total_bits / 63 + 1;")],
 """use starky::transcript::TranscriptGL; use starky::traits::Transcript; use fields::field_gl::Fr;
fn t() -> TranscriptGL { let mut t = TranscriptGL::new(); t.put(&[vec![Fr::from(7u64); 3]]).unwrap(); t }
fn main() { // 9 positions of 7 bits use exactly one output element
 let mut a = t(); a.get_permutations(9, 7).unwrap(); let x = a.get_fields1().unwrap();
 let mut b = t(); b.get_fields1().unwrap(); assert_eq!(x, b.get_fields1().unwrap()); }
""", "a number of position bits that is an exact multiple of 63, followed by another challenge", "an output element is consumed without being used: later challenges differ from the sponge's")
bug("bn128-tail-block-unchained", "P05", [("starky/src/linearhash_bn128.rs", """        if !inHash.is_empty() {
            st = self.h.hash(&inHash, &st)?;""", """        if !inHash.is_empty() {
            let init = if inHash.len() == 1 { Fr::zero() } else { st };
            st = self.h.hash(&inHash, &init)?;"""),
  ("starky/src/linearhash_bn128.rs", """            digest = self.h.hash(&tmp_buf[i..(i + in_sz)], &digest)?;""", """            let init = if in_sz == 1 { Fr::zero() } else { digest };
            digest = self.h.hash(&tmp_buf[i..(i + in_sz)], &init)?;""")],
 """use starky::linearhash_bn128::LinearHashBN128; use fields::field_gl::Fr;
fn main() { let h = LinearHashBN128::new(); for n in 1..110usize {
 let a: Vec<Fr> = (0..n).map(|i| Fr::from(i as u64 + 1)).collect(); let mut b = a.clone(); b[0] = Fr::from(77u64);
 assert!(h.hash_element_array(&a).unwrap() != h.hash_element_array(&b).unwrap(), "{n}");
 assert!(h.hash_element_matrix(&[a]).unwrap() != h.hash_element_matrix(&[b]).unwrap(), "{n}"); } }
""", "a row whose packed length is one more than a multiple of 16 (49 to 51, 97 to 99, ... elements)", "the hash of such rows ignores all but the last one to three elements; two cooperating sites keep openings verifying")
bug("interpolate-parity", "P03", [("starky/src/fft_p.rs", "        n_transposes += (nbitsext - 1) / blockbitsext + 1;", "        n_transposes += (nbitsext - 1) / blockbits + 1;")],
 """use starky::fft_p::interpolate; use starky::f3g::F3G; use starky::traits::FieldExtension; use starky::polutils::extend_pol;
fn main() { for (a, b) in [(6usize, 8usize), (6, 14), (10, 13), (12, 13)] { let p: Vec<F3G> = (0..1usize << a).map(|i| F3G::from(i * i + 3)).collect();
 let mut out = vec![F3G::ZERO; 1 << b]; interpolate(&p, 1, a, &mut out, b); assert!(out == extend_pol(&p, b - a), "{a} {b}"); } }
""", "an extension from a small domain to one above the block size, with a different number of passes by either block size", "the extension is left in the scratch buffer: the output keeps its previous contents")
bug("bn128-level-order", "P07", [("starky/src/merklehash_bn128.rs", """                |mut a: Vec<ElementDigest<4, Fr>>, mut b: Vec<ElementDigest<4, Fr>>| {
                    a.append(&mut b);
                    a
                },""", """                |mut a: Vec<ElementDigest<4, Fr>>, mut b: Vec<ElementDigest<4, Fr>>| {
                    // grow the longer part
                    if a.len() >= b.len() {
                        a.append(&mut b);
                        return a;
                    }
                    b.append(&mut a);
                    b
                },""")],
 """use starky::merklehash_bn128::MerkleTreeBN128; use starky::traits::*; use fields::field_gl::Fr;
fn main() { let n = 1usize << 17; let mut t = MerkleTreeBN128::new(); t.merkelize((0..n).map(|i| Fr::from(i as u64)).collect(), 1, n).unwrap();
 let r = t.root(); for i in [0usize, 1, 65535, 65536, 70000, n - 1] { let (v, mp) = t.get_group_proof(i).unwrap(); assert!(t.verify_group_proof(&r, &mp, i, &v).unwrap(), "{i}"); }
 let n = 65536 * 3; let mut t = MerkleTreeBN128::new(); t.merkelize((0..n).map(|i| Fr::from(i as u64)).collect(), 1, n).unwrap();
 let r = t.root(); for i in [0usize, 1, 65535, 65536, 70000, n - 1] { let (v, mp) = t.get_group_proof(i).unwrap(); assert!(t.verify_group_proof(&r, &mp, i, &v).unwrap(), "{i}"); } }
""", "a tree of more than 65536 rows whose lowest level splits into three or more chunks, reduced with the shorter part first", "parts of a level are stored in the wrong order")
bug("bn128-rounds-width14", "P04", [("starky/src/poseidon_bn128_opt.rs", "n_rounds_p: vec![56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68]", "n_rounds_p: vec![56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 69, 60, 64, 68]")],
 """use starky::linearhash_bn128::LinearHashBN128; use fields::field_gl::Fr; use starky::traits::MTNodeType;
fn main() { let h = LinearHashBN128::new(); let v: Vec<Fr> = (0..39).map(|i| Fr::from(i as u64 + 1)).collect();
 let d: Vec<u64> = h.hash_element_array(&v).unwrap().as_elements().iter().map(|x| x.as_int()).collect(); println!("{d:?}"); assert_eq!(d, WANT); }
const WANT: [u64; 4] = [7474418638684691338, 2607351998953667672, 17579848426152369800, 1573082650063541568];
""", "an input of 13 scalars (a row of 37 to 39 elements)", "the optimized BN128 permutation of width 14 runs one partial round less")
bug("digest-dim1-check", "P10", [("starky/src/digest.rs", "        e[1] == e[2] && e[1] == e[3] && e[1] == FGL::ZERO", "        e[1] == e[2] && e[1] + e[3] == FGL::ZERO + e[1] + e[1] + e[3] - e[1] && e[2] == FGL::ZERO")],
 """use starky::ElementDigest; use starky::traits::MTNodeType; use fields::field_gl::Fr;
fn main() { for v in [[5u64, 0, 0, 9], [5, 0, 0, 0], [5, 1, 2, 3], [0, 0, 3, 0]] { let d = ElementDigest::<4, Fr>::new(&v.map(Fr::from)); let s = serde_json::to_string(&d).unwrap();
 let r: ElementDigest<4, Fr> = serde_json::from_str(&s).unwrap(); assert!(r == d, "{s}"); } }
""", "a digest whose second and third limbs are zero and whose fourth is not", "such digests are written as their first limb only and read back different")
