//! A pipeline whose steps are recorded; what it computes is taken from the `world`.
use crate::ast::analyzed::{Analyzed, StatementIdentifier};
use crate::backend::{composite::*, BackendType};
use crate::number::FieldElement;
use crate::world::{self, step};
use std::any::Any;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Arc;

fn cast<A: Clone + 'static, B: 'static>(a: &A) -> B {
    *(Box::new(a.clone()) as Box<dyn Any>).downcast::<B>().expect("the stand-in knows the Goldilocks field only")
}
pub struct Runtime {
    with: Vec<&'static str>,
}
impl Runtime {
    pub fn base() -> Self {
        Runtime { with: vec!["base"] }
    }
    pub fn with_poseidon(mut self) -> Self {
        self.with.push("poseidon");
        self
    }
}
pub fn compile_rust<F: FieldElement>(file_name: &str, output_dir: &Path, force_overwrite: bool, runtime: &Runtime, via_elf: bool, with_bootloader: bool) -> Option<(PathBuf, String)> {
    let what = format!("{file_name} overwrite={force_overwrite} {} elf={via_elf} bootloader={with_bootloader}", runtime.with.join("+"));
    if step("compile", what.clone()) {
        return None;
    }
    let f = output_dir.join(format!("{}.asm", Path::new(file_name).file_name().unwrap().to_str().unwrap()));
    let asm = format!("asm of {what}");
    std::fs::create_dir_all(output_dir).ok()?;
    std::fs::write(&f, &asm).ok()?;
    Some((f, asm))
}

#[derive(Clone, Debug, PartialEq)]
pub struct VariablySizedColumn<F> {
    pub sizes: Vec<Vec<F>>,
}
#[derive(Debug)]
pub struct HasMultipleSizesError;
pub fn get_uniquely_sized<F>(columns: &[(String, VariablySizedColumn<F>)]) -> Result<Vec<(String, &Vec<F>)>, HasMultipleSizesError> {
    columns.iter().map(|(n, c)| if c.sizes.len() == 1 { Ok((n.clone(), &c.sizes[0])) } else { Err(HasMultipleSizesError) }).collect()
}

type Cols<F> = Arc<Vec<(String, VariablySizedColumn<F>)>>;
pub struct Pipeline<F: FieldElement> {
    asm: Option<String>,
    asm_path: Option<PathBuf>,
    asm_file: Option<PathBuf>,
    output: Option<PathBuf>,
    overwrite: bool,
    inputs: Vec<F>,
    data: Vec<(u32, String)>,
    external: Vec<(String, Vec<F>)>,
    backend: Option<(BackendType, Option<String>)>,
    cols: Option<Cols<F>>,
    pil: Option<Arc<Analyzed<F>>>,
    witness: Option<String>,
    proof: Option<Vec<u8>>,
}
impl<F: FieldElement> Default for Pipeline<F> {
    fn default() -> Self {
        Pipeline {
            asm: None, asm_path: None, asm_file: None, output: None, overwrite: false, inputs: vec![], data: vec![], external: vec![],
            backend: None, cols: None, pil: None, witness: None, proof: None,
        }
    }
}
type R<T> = Result<T, Vec<String>>;
fn fails(name: &str, what: String) -> R<()> {
    if step(name, what) {
        Err(vec![format!("{name} fails")])
    } else {
        Ok(())
    }
}
impl<F: FieldElement> Pipeline<F> {
    pub fn with_output(mut self, dir: PathBuf, force_overwrite: bool) -> Self {
        self.output = Some(dir);
        self.overwrite = force_overwrite;
        self
    }
    pub fn from_asm_string(mut self, asm: String, path: Option<PathBuf>) -> Self {
        self.asm = Some(asm);
        self.asm_path = path;
        self
    }
    pub fn from_asm_file(mut self, path: PathBuf) -> Self {
        self.asm_file = Some(path);
        self
    }
    pub fn with_prover_inputs(mut self, inputs: Vec<F>) -> Self {
        self.inputs = inputs;
        self
    }
    pub fn add_data<S: serde::Serialize + std::fmt::Debug>(mut self, channel: u32, data: &S) -> Self {
        self.data.push((channel, format!("{data:?}")));
        self
    }
    pub fn add_external_witness_values(mut self, values: Vec<(String, Vec<F>)>) -> Self {
        self.external.extend(values);
        self
    }
    pub fn with_backend(mut self, backend: BackendType, options: Option<String>) -> Self {
        self.backend = Some((backend, options));
        self
    }
    pub fn output_dir(&self) -> &Option<PathBuf> {
        &self.output
    }
    /// everything the pipeline was given so far
    fn state(&mut self) -> R<String> {
        if let (None, Some(f)) = (&self.asm, &self.asm_file) {
            self.asm = Some(std::fs::read_to_string(f).map_err(|e| vec![format!("{f:?}: {e}")])?);
        }
        let asm = self.asm.clone().ok_or(vec!["no assembly".to_string()])?;
        let show = |v: &Vec<F>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let mut ext: Vec<String> = self.external.iter().map(|(n, v)| format!("{n}=[{}]", show(v))).collect();
        ext.sort();
        let mut data = self.data.clone();
        data.sort();
        Ok(format!("asm={asm} inputs=[{}] data={data:?} external={ext:?}", show(&self.inputs)))
    }
    fn dir(&self) -> String {
        self.output.as_ref().map_or("-".into(), |d| format!("{} {} overwrite={}", d.display(), d.is_dir(), self.overwrite))
    }
    pub fn compute_fixed_cols(&mut self) -> R<Cols<F>> {
        self.state()?;
        fails("fixed", String::new())?;
        let c = world::get().columns.iter().map(|(n, s)| (n.clone(), VariablySizedColumn { sizes: s.iter().map(|l| vec![F::from(1u64); *l]).collect() })).collect();
        self.cols = Some(Arc::new(c));
        self.fixed_cols()
    }
    pub fn fixed_cols(&self) -> R<Cols<F>> {
        self.cols.clone().ok_or(vec!["no fixed columns".into()])
    }
    pub fn compute_optimized_pil(&mut self) -> R<Arc<Analyzed<F>>> {
        self.state()?;
        fails("pil", String::new())?;
        let mut all: Analyzed<F> = Analyzed::default();
        for m in world::get().machines {
            all.source_order.push(StatementIdentifier::Definition(m.name));
        }
        self.pil = Some(Arc::new(all));
        self.optimized_pil()
    }
    pub fn optimized_pil(&self) -> R<Arc<Analyzed<F>>> {
        self.pil.clone().ok_or(vec!["no optimized PIL".into()])
    }
    pub fn compute_witness(&mut self) -> R<()> {
        let s = self.state()?;
        fails("witness", format!("{s} dir={}", self.dir()))?;
        self.witness = Some(s);
        Ok(())
    }
    pub fn compute_proof(&mut self) -> R<&Vec<u8>> {
        let s = self.state()?;
        if self.witness.as_ref() != Some(&s) {
            return Err(vec!["no witness of these inputs".into()]);
        }
        let b = self.backend.clone().ok_or(vec!["no backend".to_string()])?;
        fails("proof", format!("{b:?} {s} dir={}", self.dir()))?;
        if self.pil.is_none() {
            self.compute_optimized_pil()?;
        }
        let proofs = world::get().machines.into_iter().map(|m| MachineProof { machine: m.name, size: m.size, proof: m.proof }).collect();
        self.proof = Some(encode_proof(&CompositeProof { proofs }));
        self.proof()
    }
    pub fn proof(&self) -> R<&Vec<u8>> {
        self.proof.as_ref().ok_or(vec!["no proof".into()])
    }
    pub fn export_verification_key<W: Write>(&mut self, mut w: W) -> R<()> {
        let b = self.backend.clone().ok_or(vec!["no backend".to_string()])?;
        fails("key", format!("{b:?}"))?;
        let k = world::get().machines.into_iter().map(|m| m.vk.map(|v| BTreeMap::from([(m.size / 2, b"another size".to_vec()), (m.size, v), (2 * m.size, b"another size".to_vec())]))).collect();
        w.write_all(&encode_key(&CompositeVerificationKey { verification_keys: k })).map_err(|e| vec![e.to_string()])
    }
}
fn encode_proof(p: &CompositeProof) -> Vec<u8> {
    if world::get().fault == Some(("proof bytes".into(), 0)) {
        let mut b = bincode::serialize(p).unwrap();
        b.truncate(b.len() - 1);
        return b;
    }
    bincode::serialize(p).unwrap()
}
fn encode_key(k: &CompositeVerificationKey) -> Vec<u8> {
    let mut b = bincode::serialize(k).unwrap();
    if world::get().fault == Some(("key bytes".into(), 0)) {
        b.truncate(b.len() - 1);
    }
    b
}
pub fn split_pil<F: FieldElement>(pil: Analyzed<F>) -> BTreeMap<String, Analyzed<F>> {
    assert!(!step("split", String::new()), "split fails");
    let m = world::get().machines;
    let names: Vec<_> = m.iter().map(|m| StatementIdentifier::Definition(m.name.clone())).collect();
    assert_eq!(pil.source_order, names, "another circuit");
    m.into_iter().map(|m| (m.name, cast(&m.pil))).collect()
}
pub fn rust_continuations_dry_run<F: FieldElement>(pipeline: &mut Pipeline<F>, profiler: Option<()>) -> Vec<(Vec<F>, u64)> {
    let s = pipeline.state().unwrap();
    assert!(pipeline.cols.is_some() && profiler.is_none());
    assert!(!step("dry-run", s), "the dry run fails");
    world::get().chunks.iter().map(|(v, s)| (v.iter().map(|x| F::from(*x)).collect(), *s)).collect()
}
pub fn rust_continuations<F: FieldElement, C, E>(mut pipeline: Pipeline<F>, callback: C, chunks: Vec<(Vec<F>, u64)>) -> Result<(), E>
where
    C: Fn(Pipeline<F>) -> Result<(), E>,
{
    pipeline.compute_fixed_cols().unwrap();
    pipeline.compute_optimized_pil().unwrap();
    for (i, (values, start)) in chunks.into_iter().enumerate() {
        assert!(!step("chunk", i.to_string()), "the chunk fails");
        let p = Pipeline {
            asm: pipeline.asm.clone(),
            asm_path: pipeline.asm_path.clone(),
            asm_file: pipeline.asm_file.clone(),
            output: pipeline.output.clone(),
            overwrite: pipeline.overwrite,
            inputs: pipeline.inputs.clone(),
            data: pipeline.data.clone(),
            external: vec![("chunk".into(), vec![F::from(i as u64), F::from(start)]), ("values".into(), values)],
            backend: None,
            cols: pipeline.cols.clone(),
            pil: pipeline.pil.clone(),
            witness: None,
            proof: None,
        };
        callback(p)?;
    }
    Ok(())
}
