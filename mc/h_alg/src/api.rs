//! What the properties of circuit files and witnesses use of algebraic.
use algebraic::bellman_ce::pairing::bls12_381::Bls12;
use algebraic::bellman_ce::pairing::bn256::Bn256;
use algebraic::bellman_ce::pairing::Engine;
use algebraic::bellman_ce::{Circuit, ConstraintSystem, Index, LinearCombination, PrimeField, PrimeFieldRepr, ScalarEngine, SynthesisError, Variable};
use algebraic::circom_circuit::{CircomCircuit, R1CS};
use algebraic::reader;
use algebraic::witness::WitnessCalculator;
use fields::field_gl::GL;
use mc_common::guard;
use num_bigint::BigInt;
use std::io::{Read, Seek};

pub use crate::model::*;

pub const NAME: &str = "algebraic";
pub fn fields() -> Vec<Fld> {
    vec![Fld::Bn, Fld::Bls, Fld::Gl]
}
pub fn bytes<F: PrimeField>(e: &F) -> Vec<u8> {
    let mut v = vec![];
    e.into_repr().write_le(&mut v).unwrap();
    v
}
pub fn elem<F: PrimeField>(b: &[u8]) -> F {
    let mut r = F::Repr::default();
    r.read_le(b).unwrap();
    F::from_repr(r).unwrap()
}
fn lcs<F: PrimeField>(v: &[(usize, F)]) -> Lc {
    v.iter().map(|(i, c)| (*i, bytes(c))).collect()
}
fn cons<F: PrimeField>(v: &[(Vec<(usize, F)>, Vec<(usize, F)>, Vec<(usize, F)>)]) -> Vec<[Lc; 3]> {
    v.iter().map(|(a, b, c)| [lcs(a), lcs(b), lcs(c)]).collect()
}
fn parse_<E: ScalarEngine, R: Read + Seek>(r: R) -> Result<Parsed, String> {
    let f = guard(|| algebraic::r1cs_file::from_reader::<R, E>(r)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())?;
    let h = f.header;
    Ok(Parsed {
        version: f.version,
        field_size: h.field_size,
        prime: h.prime_size,
        n_wires: h.n_wires,
        n_pub_out: h.n_pub_out,
        n_pub_in: h.n_pub_in,
        n_prv_in: h.n_prv_in,
        n_labels: h.n_labels,
        n_constraints: h.n_constraints,
        use_custom_gates: h.use_custom_gates,
        cons: cons(&f.constraints),
        map: f.wire_mapping,
        gates: f.custom_gates.iter().map(|g| (g.template_name.clone(), g.parameters.iter().map(bytes).collect())).collect(),
        uses: f.custom_gates_uses.iter().map(|u| (u.id, u.signals.clone())).collect(),
    })
}
macro_rules! on {
    ($f:expr, $g:ident ( $($a:expr),* )) => { match $f { Fld::Bn => $g::<Bn256, _>($($a),*), Fld::Bls => $g::<Bls12, _>($($a),*), Fld::Gl => $g::<GL, _>($($a),*) } };
}
macro_rules! on1 {
    ($f:expr, $g:ident ( $($a:expr),* )) => { match $f { Fld::Bn => $g::<Bn256>($($a),*), Fld::Bls => $g::<Bls12>($($a),*), Fld::Gl => $g::<GL>($($a),*) } };
}
macro_rules! on2 {
    ($f:expr, $g:ident ( $($a:expr),* )) => { match $f { Fld::Bn => $g::<Bn256>($($a),*), Fld::Bls => $g::<Bls12>($($a),*), Fld::Gl => unreachable!() } };
}
/// parses a circuit file: an error, a panic or what it holds
pub fn parse<R: Read + Seek>(f: Fld, r: R) -> Result<Parsed, String> {
    on!(f, parse_(r))
}
fn loaded<E: ScalarEngine>(r: R1CS<E>, map: Vec<usize>) -> Loaded {
    Loaded {
        inputs: r.num_inputs,
        aux: r.num_aux,
        vars: r.num_variables,
        outs: r.num_outputs,
        cons: cons(&r.constraints),
        gates: r.custom_gates.iter().map(|g| (g.template_name.clone(), g.parameters.iter().map(bytes).collect())).collect(),
        uses: r.custom_gates_uses.iter().map(|u| (u.id, u.signals.clone())).collect(),
        map,
    }
}
fn load_<E: ScalarEngine, R: Read + Seek>(r: R) -> Result<Loaded, String> {
    guard(|| reader::load_r1cs_from_bin::<R, E>(r)).map(|(r, m)| loaded(r, m))
}
pub fn load<R: Read + Seek>(f: Fld, r: R) -> Result<Loaded, String> {
    on!(f, load_(r))
}
fn load_file_<E: ScalarEngine>(p: &str) -> Result<Loaded, String> {
    guard(|| reader::load_r1cs::<E>(p)).map(|r| loaded(r, vec![]))
}
pub fn load_file(f: Fld, p: &str) -> Result<Loaded, String> {
    on1!(f, load_file_(p))
}
fn wtns_<E: ScalarEngine, R: Read>(r: R) -> Result<Vec<Vec<u8>>, String> {
    let w = guard(|| reader::load_witness_from_bin_reader::<E, R>(r)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())?;
    Ok(w.iter().map(bytes).collect())
}
pub fn wtns<R: Read>(r: R) -> Result<Vec<Vec<u8>>, String> {
    wtns_::<Bn256, R>(r)
}
pub fn wtns_array(b: Vec<u8>) -> Result<Vec<Vec<u8>>, String> {
    let w = guard(|| reader::load_witness_from_array::<Bn256>(b)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())?;
    Ok(w.iter().map(bytes).collect())
}
pub fn wtns_file(p: &str) -> Result<Vec<Vec<u8>>, String> {
    guard(|| reader::load_witness_from_file::<Bn256>(p)).map(|w| w.iter().map(bytes).collect())
}

pub struct Calc(WitnessCalculator);
fn big(s: &str) -> BigInt {
    s.parse().unwrap()
}
fn inputs(v: &[(String, Vec<String>)]) -> Vec<(String, Vec<BigInt>)> {
    v.iter().map(|(n, v)| (n.clone(), v.iter().map(|x| big(x)).collect())).collect()
}
impl Calc {
    pub fn new(p: &str) -> Result<Self, String> {
        guard(|| WitnessCalculator::from_file(p)).map_err(|e| format!("panicked: {e}"))?.map(Calc).map_err(|e| e.to_string())
    }
    pub fn n64(&self) -> u32 {
        self.0.n64
    }
    pub fn prime(&self) -> String {
        self.0.memory.prime.to_string()
    }
    pub fn calc(&mut self, v: &[(String, Vec<String>)], sanity: bool) -> Result<Vec<String>, String> {
        let w = guard(|| self.0.calculate_witness(inputs(v), sanity)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())?;
        Ok(w.iter().map(|x| x.to_string()).collect())
    }
    pub fn calc_bin(&mut self, v: &[(String, Vec<String>)], sanity: bool) -> Result<Vec<u32>, String> {
        guard(|| self.0.calculate_witness_bin(inputs(v), sanity)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())
    }
    pub fn save(&mut self, w: &Vec<u32>, out: impl std::io::Write) -> Result<(), String> {
        guard(|| self.0.save_witness_from_bin_writer::<Bn256, _>(out, w)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())
    }
    pub fn save_file(&mut self, w: &Vec<u32>, p: &str) -> Result<(), String> {
        guard(|| self.0.save_witness_to_bin_file::<Bn256>(p, w)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| e.to_string())
    }
}
pub fn load_input(p: &str) -> Result<std::collections::BTreeMap<String, Vec<String>>, String> {
    guard(|| algebraic::witness::load_input_for_witness(p))
        .map(|m| m.into_iter().map(|(k, v)| (k, v.iter().map(|x| x.to_string()).collect())).collect())
}
pub fn flat(v: &[serde_json::Value]) -> Result<Vec<String>, String> {
    guard(|| algebraic::witness::flat_array(v)).map(|v| v.iter().map(|x| x.to_string()).collect())
}

// ------------------------------------------------------------------- synthesis

struct Rec<E> {
    rec: Synth,
    _e: std::marker::PhantomData<E>,
}
impl<E: Engine> Rec<E> {
    fn lc(l: &LinearCombination<E>) -> Vec<(V, Vec<u8>)> {
        l.0.iter()
            .map(|(v, c)| {
                (
                    match v.get_unchecked() {
                        Index::Input(i) => V::In(i),
                        Index::Aux(i) => V::Aux(i),
                    },
                    bytes(c),
                )
            })
            .collect()
    }
}
impl<E: Engine> ConstraintSystem<E> for Rec<E> {
        fn alloc<F, A, AR>(&mut self, _a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.rec.aux.push(if self.rec.keygen { vec![] } else { bytes(&f()?) });
        Ok(Variable::new_unchecked(Index::Aux(self.rec.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, _a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.rec.inputs.push(if self.rec.keygen { vec![] } else { bytes(&f()?) });
        Ok(Variable::new_unchecked(Index::Input(self.rec.inputs.len())))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _a: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
    {
        let z = LinearCombination::<E>::zero;
        self.rec.cons.push([Self::lc(&a(z())), Self::lc(&b(z())), Self::lc(&c(z()))]);
    }
}
pub fn to_r1cs<E: Engine>(c: &Circ) -> CircomCircuit<E> {
    let l = |v: &Lc| v.iter().map(|(i, x)| (*i, elem::<E::Fr>(x))).collect::<Vec<_>>();
    CircomCircuit {
        r1cs: R1CS {
            num_inputs: c.inputs,
            num_aux: c.aux,
            num_variables: c.inputs + c.aux,
            num_outputs: 0,
            constraints: c.cons.iter().map(|[a, b, c]| (l(a), l(b), l(c))).collect(),
            custom_gates: vec![],
            custom_gates_uses: vec![],
        },
        witness: c.witness.as_ref().map(|w| w.iter().map(|x| elem(x)).collect()),
        wire_mapping: c.map.clone(),
        aux_offset: c.offset,
    }
}
fn synth_<E: Engine>(c: &Circ) -> Result<Synth, String> {
    let mut r = Rec::<E> { rec: Synth { keygen: c.witness.is_none(), ..Default::default() }, _e: Default::default() };
    guard(|| to_r1cs::<E>(c).synthesize(&mut r)).map_err(|e| format!("panicked: {e}"))?.map_err(|e| format!("{e:?}"))?;
    Ok(r.rec)
}
pub fn synth(f: Fld, c: &Circ) -> Result<Synth, String> {
    on2!(f, synth_(c))
}
fn publics_<E: Engine>(c: &Circ) -> Result<(Option<Vec<Vec<u8>>>, String), String> {
    let x = to_r1cs::<E>(c);
    guard(|| (x.get_public_inputs().map(|v| v.iter().map(bytes).collect()), x.get_public_inputs_json()))
}
pub fn publics(f: Fld, c: &Circ) -> Result<(Option<Vec<Vec<u8>>>, String), String> {
    on2!(f, publics_(c))
}

pub fn synth_fields() -> Vec<Fld> {
    vec![Fld::Bn, Fld::Bls]
}
pub fn multiplier() -> String {
    mc_common::root().join("build/ws/algebraic/test-vectors/mycircuit.wasm").to_str().unwrap().into()
}
/// whether public inputs of this field print as decimals
pub fn decimals(_: Fld) -> bool {
    true
}
/// there is no prover for these curves here: a system with a satisfied witness is satisfied as synthesized
pub fn end_to_end(_: &mc_common::Mc, _: &std::sync::atomic::AtomicU64) {}
