//! What the properties of circuit files and witnesses use of algebraic-gpu.
use algebraic_gpu::circom_circuit::{CircomCircuit, R1CS};
use algebraic_gpu::reader;
use algebraic_gpu::witness::WitnessCalculator;
use bellperson::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use mc_common::guard;
use num_bigint::BigInt;
use std::io::{Read, Seek};

pub use crate::model::*;

pub const NAME: &str = "algebraic-gpu";
pub mod bn {
    use ff::PrimeField;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
    #[PrimeFieldGenerator = "7"]
    #[PrimeFieldReprEndianness = "little"]
    pub struct Scalar([u64; 4]);
}
pub fn fields() -> Vec<Fld> {
    vec![Fld::Bn, Fld::Bls]
}
fn bytes<E: PrimeField>(e: &E) -> Vec<u8> {
    e.to_repr().as_ref().to_vec()
}
fn elem<E: PrimeField>(b: &[u8]) -> E {
    let mut r = E::Repr::default();
    r.as_mut().copy_from_slice(b);
    E::from_repr(r).unwrap()
}
fn lcs<E: PrimeField>(v: &[(usize, E)]) -> Lc {
    v.iter().map(|(i, c)| (*i, bytes(c))).collect()
}
fn cons<E: PrimeField>(v: &[(Vec<(usize, E)>, Vec<(usize, E)>, Vec<(usize, E)>)]) -> Vec<[Lc; 3]> {
    v.iter().map(|(a, b, c)| [lcs(a), lcs(b), lcs(c)]).collect()
}
fn parse_<E: PrimeField, R: Read + Seek>(r: R) -> Result<Parsed, String> {
    let f = guard(|| algebraic_gpu::r1cs_file::from_reader::<R, E>(r)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())?;
    let h = f.header;
    Ok(Parsed {
        version: f.version,
        field_size: h.field_size,
        prime: h.prime_size,
        n_wires: h.n_wires,
        n_pub_out: h.n_pub_out,
        n_pub_in: h.n_pub_in,
        n_prv_in: h.n_prv_in,
        n_labels: h.n_labels,
        n_constraints: h.n_constraints,
        use_custom_gates: h.use_custom_gates,
        cons: cons(&f.constraints),
        map: f.wire_mapping,
        gates: f.custom_gates.iter().map(|g| (g.template_name.clone(), g.parameters.iter().map(bytes).collect())).collect(),
        uses: f.custom_gates_uses.iter().map(|u| (u.id, u.signals.clone())).collect(),
    })
}
macro_rules! on {
    ($f:expr, $g:ident ( $($a:expr),* )) => { match $f { Fld::Bn => $g::<bn::Scalar, _>($($a),*), Fld::Bls => $g::<blstrs::Scalar, _>($($a),*), Fld::Gl => unreachable!() } };
}
macro_rules! on1 {
    ($f:expr, $g:ident ( $($a:expr),* )) => { match $f { Fld::Bn => $g::<bn::Scalar>($($a),*), Fld::Bls => $g::<blstrs::Scalar>($($a),*), Fld::Gl => unreachable!() } };
}
/// parses a circuit file: an error, a panic or what it holds
pub fn parse<R: Read + Seek>(f: Fld, r: R) -> Result<Parsed, String> {
    on!(f, parse_(r))
}
fn loaded<E: PrimeField>(r: R1CS<E>, map: Vec<usize>) -> Loaded {
    Loaded {
        inputs: r.num_inputs,
        aux: r.num_aux,
        vars: r.num_variables,
        outs: r.num_outputs,
        cons: cons(&r.constraints),
        gates: r.custom_gates.iter().map(|g| (g.template_name.clone(), g.parameters.iter().map(bytes).collect())).collect(),
        uses: r.custom_gates_uses.iter().map(|u| (u.id, u.signals.clone())).collect(),
        map,
    }
}
fn load_<E: PrimeField, R: Read + Seek>(r: R) -> Result<Loaded, String> {
    guard(|| reader::load_r1cs_from_bin::<R, E>(r)).map(|(r, m)| loaded(r, m))
}
pub fn load<R: Read + Seek>(f: Fld, r: R) -> Result<Loaded, String> {
    on!(f, load_(r))
}
fn load_file_<E: PrimeField>(p: &str) -> Result<Loaded, String> {
    guard(|| reader::load_r1cs::<E>(p)).map(|r| loaded(r, vec![]))
}
pub fn load_file(f: Fld, p: &str) -> Result<Loaded, String> {
    on1!(f, load_file_(p))
}
fn wtns_<E: PrimeField, R: Read>(r: R) -> Result<Vec<Vec<u8>>, String> {
    let w = guard(|| reader::load_witness_from_bin_reader::<E, R>(r)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())?;
    Ok(w.iter().map(bytes).collect())
}
pub fn wtns<R: Read>(r: R) -> Result<Vec<Vec<u8>>, String> {
    wtns_::<bn::Scalar, R>(r)
}
pub fn wtns_array(b: Vec<u8>) -> Result<Vec<Vec<u8>>, String> {
    let w = guard(|| reader::load_witness_from_array::<bn::Scalar>(b)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())?;
    Ok(w.iter().map(bytes).collect())
}
pub fn wtns_file(p: &str) -> Result<Vec<Vec<u8>>, String> {
    guard(|| reader::load_witness_from_file::<bn::Scalar>(p)).map(|w| w.iter().map(bytes).collect())
}

pub struct Calc(WitnessCalculator);
fn big(s: &str) -> BigInt {
    s.parse().unwrap()
}
fn inputs(v: &[(String, Vec<String>)]) -> Vec<(String, Vec<BigInt>)> {
    v.iter().map(|(n, v)| (n.clone(), v.iter().map(|x| big(x)).collect())).collect()
}
impl Calc {
    pub fn new(p: &str) -> Result<Self, String> {
        guard(|| WitnessCalculator::from_file(p)).map_err(|e| format!("panicked: {e}"))?.map(Calc).map_err(|e| e.to_string())
    }
    pub fn n64(&self) -> u32 {
        self.0.n64
    }
    pub fn prime(&self) -> String {
        self.0.memory.prime.to_string()
    }
    pub fn calc(&mut self, v: &[(String, Vec<String>)], sanity: bool) -> Result<Vec<String>, String> {
        let w = guard(|| self.0.calculate_witness(inputs(v), sanity)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())?;
        Ok(w.iter().map(|x| x.to_string()).collect())
    }
    pub fn calc_bin(&mut self, v: &[(String, Vec<String>)], sanity: bool) -> Result<Vec<u32>, String> {
        guard(|| self.0.calculate_witness_bin(inputs(v), sanity)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())
    }
    pub fn save(&mut self, w: &Vec<u32>, out: impl std::io::Write) -> Result<(), String> {
        guard(|| self.0.save_witness_from_bin_writer::<bn::Scalar, _>(out, w)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())
    }
    pub fn save_file(&mut self, w: &Vec<u32>, p: &str) -> Result<(), String> {
        guard(|| self.0.save_witness_to_bin_file::<bn::Scalar>(p, w)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())
    }
}
pub fn load_input(p: &str) -> Result<std::collections::BTreeMap<String, Vec<String>>, String> {
    guard(|| algebraic_gpu::witness::load_input_for_witness(p))
        .map(|m| m.into_iter().map(|(k, v)| (k, v.iter().map(|x| x.to_string()).collect())).collect())
}
pub fn flat(v: &[serde_json::Value]) -> Result<Vec<String>, String> {
    guard(|| algebraic_gpu::witness::flat_array(v)).map(|v| v.iter().map(|x| x.to_string()).collect())
}

// ------------------------------------------------------------------- synthesis

struct Rec<E> {
    rec: Synth,
    _e: std::marker::PhantomData<E>,
}
impl<E: PrimeField> Rec<E> {
    fn lc(l: &LinearCombination<E>) -> Vec<(V, Vec<u8>)> {
        l.iter()
            .map(|(v, c)| {
                (
                    match v.get_unchecked() {
                        Index::Input(i) => V::In(i),
                        Index::Aux(i) => V::Aux(i),
                    },
                    bytes(c),
                )
            })
            .collect()
    }
}
impl<E: PrimeField> ConstraintSystem<E> for Rec<E> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, _a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.rec.aux.push(if self.rec.keygen { vec![] } else { bytes(&f()?) });
        Ok(Variable::new_unchecked(Index::Aux(self.rec.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, _a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.rec.inputs.push(if self.rec.keygen { vec![] } else { bytes(&f()?) });
        Ok(Variable::new_unchecked(Index::Input(self.rec.inputs.len())))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _a: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
    {
        let z = LinearCombination::zero;
        self.rec.cons.push([Self::lc(&a(z())), Self::lc(&b(z())), Self::lc(&c(z()))]);
    }
    fn push_namespace<NR, N>(&mut self, _n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}
pub fn to_r1cs<E: PrimeField>(c: &Circ) -> CircomCircuit<E> {
    let l = |v: &Lc| v.iter().map(|(i, x)| (*i, elem::<E>(x))).collect::<Vec<_>>();
    CircomCircuit {
        r1cs: R1CS {
            num_inputs: c.inputs,
            num_aux: c.aux,
            num_variables: c.inputs + c.aux,
            num_outputs: 0,
            constraints: c.cons.iter().map(|[a, b, c]| (l(a), l(b), l(c))).collect(),
            custom_gates: vec![],
            custom_gates_uses: vec![],
        },
        witness: c.witness.as_ref().map(|w| w.iter().map(|x| elem(x)).collect()),
        wire_mapping: c.map.clone(),
        aux_offset: c.offset,
    }
}
fn synth_<E: PrimeField>(c: &Circ) -> Result<Synth, String> {
    let mut r = Rec::<E> { rec: Synth { keygen: c.witness.is_none(), ..Default::default() }, _e: Default::default() };
    guard(|| to_r1cs::<E>(c).synthesize(&mut r)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())?;
    Ok(r.rec)
}
pub fn synth(f: Fld, c: &Circ) -> Result<Synth, String> {
    on1!(f, synth_(c))
}
fn publics_<E: PrimeField>(c: &Circ) -> Result<(Option<Vec<Vec<u8>>>, String), String> {
    let x = to_r1cs::<E>(c);
    guard(|| (x.get_public_inputs().map(|v| v.iter().map(bytes).collect()), x.get_public_inputs_json()))
}
pub fn publics(f: Fld, c: &Circ) -> Result<(Option<Vec<Vec<u8>>>, String), String> {
    on1!(f, publics_(c))
}
pub fn synth_fields() -> Vec<Fld> {
    fields()
}
pub fn multiplier() -> String {
    root().join("build/ws/algebraic-gpu/test-vectors/mycircuit.wasm").to_str().unwrap().into()
}
use mc_common::root;
/// whether public inputs of this field print as decimals
pub fn decimals(f: Fld) -> bool {
    f == Fld::Bls
}

/// Groth16 over BLS12-381 on circuits with every split of their variables into public and private
/// ones: the proof verifies with the public inputs of the witness and with no others.
pub fn end_to_end(mc: &mc_common::Mc, n: &std::sync::atomic::AtomicU64) {
    use algebraic_gpu::{create_random_proof, generate_random_parameters, prepare_verifying_key, verify_proof};
    use blstrs::{Bls12, Scalar};
    use ff::Field;
    use rand::SeedableRng;
    use std::sync::atomic::Ordering::Relaxed;
    let f = Fld::Bls;
    let one = |i: usize| (i, f.le(&1u8.into()));
    // w = (1, x, y, x*y, x*y*y + 5)
    let cons = vec![
        [vec![one(1)], vec![one(2)], vec![one(3)]],
        [vec![one(3)], vec![one(2)], vec![one(4), (0, f.le(&(f.p() - 5u8)))]],
        [vec![], vec![one(2)], vec![]],
    ];
    let wit = |x: u64, y: u64| [1, x, y, x * y, x * y * y + 5].iter().map(|v| f.le(&(*v).into())).collect::<Vec<_>>();
    for inputs in 2..=4usize {
        for map in [None, Some(vec![0, 4, 3, 2, 1])] {
            let put = |w: Vec<Vec<u8>>| match &map {
                None => w,
                Some(m) => {
                    let mut v = w.clone();
                    m.iter().enumerate().for_each(|(i, k)| v[*k] = w[i].clone());
                    v
                }
            };
            let circ = |w: Option<Vec<Vec<u8>>>| to_r1cs::<Scalar>(&Circ { inputs, aux: 5 - inputs, cons: cons.clone(), witness: w.map(&put), map: map.clone(), offset: 0 });
            let mut rng = rand::rngs::StdRng::seed_from_u64(7);
            let key = format!("proof with {inputs} inputs, map {map:?}");
            // key generation does not look at the values
            let Ok(Ok(pk)) = guard(|| generate_random_parameters::<Bls12, _, _>(circ(None), &mut rng)) else {
                mc.check(false, &key, || "no parameters".into());
                continue;
            };
            let vk = prepare_verifying_key(&pk.vk);
            for (x, y) in [(3, 4), (0, 7), (1, 1)] {
                let c = circ(Some(wit(x, y)));
                let publics = c.get_public_inputs().unwrap();
                let proof = guard(|| create_random_proof(c, &pk, &mut rng).ok()).ok().flatten();
                n.fetch_add(1, Relaxed);
                let Some(proof) = proof else {
                    mc.check(false, &key, || format!("no proof for {x} {y}"));
                    continue;
                };
                let v = |p: &[Scalar]| guard(|| verify_proof(&vk, &proof, p).unwrap_or(false)).unwrap_or(false);
                mc.check(v(&publics), &key, || format!("proof for {x} {y} does not verify"));
                for i in 0..publics.len() {
                    let mut p = publics.clone();
                    p[i] += Scalar::ONE;
                    n.fetch_add(1, Relaxed);
                    mc.check(!v(&p), &key, || format!("proof for {x} {y} verifies with public input {i} changed"));
                }
                n.fetch_add(2, Relaxed);
                mc.check(!v(&publics[1..]), &key, || "verifies without its first public input".into());
                let mut p = publics.clone();
                p.push(Scalar::ZERO);
                mc.check(!v(&p), &key, || "verifies with one more public input".into());
            }
            // a witness that breaks a constraint has no accepted proof
            for k in 1..5 {
                let mut w = wit(3, 4);
                w[k] = f.le(&1000u32.into());
                let c = circ(Some(w));
                let publics = c.get_public_inputs().unwrap();
                n.fetch_add(1, Relaxed);
                let ok = guard(|| create_random_proof(c, &pk, &mut rng).ok().is_some_and(|p| verify_proof(&vk, &p, &publics).unwrap_or(false))).unwrap_or(false);
                mc.check(!ok, &key, || format!("a proof for a witness with value {k} wrong verifies"));
            }
        }
    }
}
