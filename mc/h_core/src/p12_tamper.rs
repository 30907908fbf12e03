//! Soundness of the verifier on what is not the prover's proof: every single-place change of a
//! proof, every mixture of two proofs, other circuits, keys and parameters; what the challenges
//! are drawn from; every cell of every committed table; every opened evaluation.
use crate::air::*;
use crate::p13_traces::ext_of;
use crate::refs;
use crate::stark::*;
use anyhow::Result;
use fields::field_gl::Fr as FGL;
use mc_common::*;
use rayon::prelude::*;
use serde_json::{json, Map, Value};
use starky::f3g::F3G;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree, Transcript};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// ------------------------------------------------------------- recording transcript

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Put(Vec<u64>),
    Get,
    Perm(usize, usize),
}
thread_local! {
    static LOG: RefCell<Vec<(Ev, Vec<u64>)>> = const { RefCell::new(vec![]) };
}
/// passes everything to the transcript under test and notes it (on the calling thread)
pub struct Rec<T>(T);
fn note(e: Ev, out: Vec<u64>) {
    LOG.with(|l| l.borrow_mut().push((e, out)))
}
impl<T: Transcript> Transcript for Rec<T> {
    fn new() -> Self {
        LOG.with(|l| l.borrow_mut().clear());
        Rec(T::new())
    }
    fn get_field<F: FieldExtension>(&mut self) -> F {
        let f: F = self.0.get_field();
        note(Ev::Get, f.as_elements().iter().map(|x| x.as_int()).collect());
        f
    }
    fn get_fields1(&mut self) -> Result<FGL> {
        let f = self.0.get_fields1()?;
        note(Ev::Get, vec![f.as_int()]);
        Ok(f)
    }
    fn put(&mut self, es: &[Vec<FGL>]) -> Result<()> {
        for e in es {
            note(Ev::Put(e.iter().map(|x| x.as_int()).collect()), vec![]);
        }
        self.0.put(es)
    }
    fn get_permutations(&mut self, n: usize, nbits: usize) -> Result<Vec<usize>> {
        let p = self.0.get_permutations(n, nbits)?;
        note(Ev::Perm(n, nbits), p.iter().map(|x| *x as u64).collect());
        Ok(p)
    }
}
fn take_log() -> Vec<(Ev, Vec<u64>)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub struct RecK<K: Kind>(std::marker::PhantomData<K>);
impl<K: Kind> Kind for RecK<K> {
    type M = K::M;
    type T = Rec<K::T>;
    const NAME: &'static str = K::NAME;
}

// ------------------------------------------------------------- a tree that commits to a wrong cell

thread_local! {
    /// (number of the tree, row, column), trees counted since the start of the proof
    static BAD: RefCell<Option<(usize, usize, usize)>> = const { RefCell::new(None) };
    static TREE: RefCell<usize> = const { RefCell::new(0) };
    static SHAPES: RefCell<Vec<(usize, usize)>> = const { RefCell::new(vec![]) };
}
#[derive(Default)]
pub struct BadTree<M> {
    m: M,
    fix: Option<usize>,
}
impl<M: MerkleTree<ExtendField = F3G>> MerkleTree for BadTree<M> {
    type MTNode = M::MTNode;
    type ExtendField = F3G;
    type BaseField = M::BaseField;
    fn new() -> Self {
        BadTree { m: M::new(), fix: None }
    }
    fn to_extend(&self, p: &mut Vec<F3G>) {
        self.m.to_extend(p);
        if let Some(i) = self.fix {
            p[i] -= F3G::ONE;
        }
    }
    fn to_basefield(n: &Self::MTNode) -> Vec<Self::BaseField> {
        M::to_basefield(n)
    }
    fn from_basefield(n: &Self::BaseField) -> Self::MTNode {
        M::from_basefield(n)
    }
    fn merkelize(&mut self, mut buff: Vec<FGL>, width: usize, height: usize) -> Result<()> {
        let no = TREE.with(|t| {
            *t.borrow_mut() += 1;
            *t.borrow() - 1
        });
        SHAPES.with(|s| s.borrow_mut().push((width, height)));
        if let Some((t, r, c)) = BAD.with(|b| *b.borrow()) {
            if t == no {
                buff[r * width + c] = buff[r * width + c] + FGL::from(1u64);
                self.fix = Some(r * width + c);
            }
        }
        self.m.merkelize(buff, width, height)
    }
    fn get_element(&self, i: usize, j: usize) -> FGL {
        self.m.get_element(i, j)
    }
    fn get_group_proof(&self, idx: usize) -> Result<(Vec<FGL>, Vec<Vec<Self::BaseField>>)> {
        self.m.get_group_proof(idx)
    }
    fn verify_group_proof(&self, r: &Self::MTNode, mp: &[Vec<Self::BaseField>], i: usize, g: &[FGL]) -> Result<bool> {
        self.m.verify_group_proof(r, mp, i, g)
    }
    fn root(&self) -> Self::MTNode {
        self.m.root()
    }
    fn proof_depth(n: usize) -> usize {
        M::proof_depth(n)
    }
    fn eq_root(&self, a: &Self::MTNode, b: &Self::MTNode) -> bool {
        self.m.eq_root(a, b)
    }
    fn element_size(&self) -> usize {
        self.m.element_size()
    }
}
impl<M> serde::Serialize for BadTree<M> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit()
    }
}
impl<'a, M: Default> serde::Deserialize<'a> for BadTree<M> {
    fn deserialize<D: serde::Deserializer<'a>>(_: D) -> Result<Self, D::Error> {
        Ok(Self::default())
    }
}
pub struct BadK<K: Kind>(std::marker::PhantomData<K>);
impl<K: Kind> Kind for BadK<K> {
    type M = BadTree<K::M>;
    type T = Rec<K::T>;
    const NAME: &'static str = K::NAME;
}

/// one thread, so that the logs above are this proof's
pub fn solo<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    thread_local! {
        static POOL: rayon::ThreadPool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    }
    POOL.with(|p| p.install(f))
}
/// runs the items on a few plain threads (not pool workers, which would pick up each other's work)
pub fn spread<I: Send>(items: Vec<I>, f: impl Fn(I) + Sync) {
    let q = std::sync::Mutex::new(items.into_iter());
    std::thread::scope(|s| {
        for _ in 0..allowed_cpus().len().max(1) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = q.lock().unwrap().next();
                    match i {
                        Some(i) => f(i),
                        None => break,
                    }
                })
                .unwrap();
        }
    });
}

// ------------------------------------------------------------- mutations of a JSON proof

#[derive(Clone, Debug)]
enum Seg {
    K(String),
    I(usize),
}
fn at<'a>(v: &'a mut Value, p: &[Seg]) -> &'a mut Value {
    let mut v = v;
    for s in p {
        v = match s {
            Seg::K(k) => v.get_mut(k).unwrap(),
            Seg::I(i) => v.get_mut(*i).unwrap(),
        }
    }
    v
}
fn show(p: &[Seg]) -> String {
    p.iter()
        .map(|s| match s {
            Seg::K(k) => format!("/{k}"),
            Seg::I(i) => format!("/{i}"),
        })
        .collect()
}
fn walk(v: &Value, p: &mut Vec<Seg>, f: &mut dyn FnMut(&Value, &[Seg])) {
    f(v, p);
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                p.push(Seg::I(i));
                walk(x, p, f);
                p.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                p.push(Seg::K(k.clone()));
                walk(x, p, f);
                p.pop();
            }
        }
        _ => {}
    }
}
fn plus_one(s: &str) -> String {
    let n: num_bigint::BigUint = s.parse().unwrap();
    let n = n + 1u32;
    if n == num_bigint::BigUint::from(refs::P) {
        "0".into()
    } else {
        n.to_string()
    }
}
/// every single change of the proof: (place, what, the changed proof)
fn mutants(j: &Value) -> Vec<(Vec<Seg>, String, Value)> {
    let mut out: Vec<(Vec<Seg>, String, Value)> = vec![];
    walk(j, &mut vec![], &mut |v, p| {
        let mut put = |what: &str, nv: Value| {
            if nv != *v {
                let mut c = j.clone();
                *at(&mut c, p) = nv;
                out.push((p.to_vec(), what.into(), c));
            }
        };
        match v {
            Value::String(s) if s.bytes().all(|c| c.is_ascii_digit()) && !s.is_empty() => {
                put("+1", plus_one(s).into());
                put("=0", "0".into());
                put("=1", "1".into());
            }
            Value::Array(a) => {
                let n = a.len();
                put("emptied", json!([]));
                if n > 0 {
                    put("first dropped", a[1..].to_vec().into());
                    put("last dropped", a[..n - 1].to_vec().into());
                    let mut b = a.clone();
                    b.push(a[n - 1].clone());
                    put("last repeated", b.into());
                    let mut b = a.clone();
                    b.insert(0, a[0].clone());
                    put("first repeated", b.into());
                }
                for i in 1..n {
                    let mut b = a.clone();
                    b.swap(i - 1, i);
                    put(&format!("{} and {i} exchanged", i - 1), b.into());
                }
                let mut b = a.clone();
                b.reverse();
                put("reversed", b.into());
            }
            Value::Object(o) => {
                for k in o.keys() {
                    let mut b = o.clone();
                    b.remove(k);
                    put(&format!("without {k}"), b.into());
                    for k2 in o.keys() {
                        if k < k2 {
                            let mut b = o.clone();
                            let (x, y) = (o[k].clone(), o[k2].clone());
                            b.insert(k.clone(), y);
                            b.insert(k2.clone(), x);
                            put(&format!("{k} and {k2} exchanged"), b.into());
                        }
                    }
                }
            }
            _ => {}
        }
    });
    out
}

/// the verifier's decision on a proof text: Ok(accepted)
pub fn decide<K: Kind>(i: &Inst<K>, j: &Value) -> Result<bool, String> {
    match Inst::<K>::unjson(j) {
        Err(e) if e.starts_with("panicked") => Err(format!("reading the proof {e}")),
        Err(_) => Ok(false),
        Ok(p) => i.verify(&p),
    }
}
/// the parts of a proof that the verifier has no use for
pub fn stripped(j: &Value) -> Value {
    let mut m: Map<String, Value> = j.as_object().unwrap().clone();
    m.remove("rootC");
    m.remove("proverAddr");
    Value::Object(m)
}
/// 16-ary paths repeat the node they authenticate: that place is not read
pub fn blank_own(j: &mut Value, name: &str, queries: &[u64], steps: &[usize]) {
    if name == "GL" {
        return;
    }
    for (si, bits) in steps.iter().enumerate() {
        for key in ["siblings", "siblings1", "siblings2", "siblings3", "siblings4", "siblingsC"] {
            let Some(Value::Array(a)) = j.get_mut(format!("s{si}_{key}")) else { continue };
            for (q, path) in a.iter_mut().enumerate() {
                let Some(mut idx) = queries.get(q).map(|x| x % (1 << bits)) else { continue };
                let Value::Array(levels) = path else { continue };
                for l in levels {
                    if let Some(x) = l.get_mut((idx & 15) as usize) {
                        *x = "0".into();
                    }
                    idx >>= 4;
                }
            }
        }
    }
}

fn tamper<K: Kind>(mc: &Mc, a: &Air, par: &Par, n: &AtomicU64) {
    let key0 = format!("{}:{}:{}", K::NAME, a.name, par.show());
    let r = solo(|| {
        let i = Inst::<RecK<K>>::new(a, par)?;
        let p = i.prove(a)?;
        let ok = i.verify(&p)?;
        Ok::<_, String>((Inst::<RecK<K>>::json(&p), ok, take_log()))
    });
    let (j, log) = match r {
        Ok((j, true, log)) => (j, log),
        r => {
            mc.check(false, &key0, || format!("no accepted proof to start from: {:?}", r.err()));
            return;
        }
    };
    let queries = log.last().unwrap().1.clone();
    let i = Inst::<K>::new(a, par).unwrap();
    let norm = |v: &Value| {
        let mut v = stripped(v);
        blank_own(&mut v, K::NAME, &queries, &par.steps);
        v
    };
    let base = norm(&j);
    for (place, what, m) in mutants(&j) {
        n.fetch_add(1, Relaxed);
        let key = format!("{key0}:{} {what}", show(&place));
        match decide(&i, &m) {
            Err(e) => {
                mc.check(false, &key, || e);
            }
            Ok(acc) => {
                // only changes of what carries no meaning may stay accepted
                let same = m.as_object().is_some() && norm(&m) == base;
                mc.check(!acc || same, &key, || "a changed proof is accepted".into());
            }
        }
    }
}

// ------------------------------------------------------------- two proofs of one circuit

/// circuits with two satisfying traces
pub fn two(bits: usize) -> Vec<(Air, Air)> {
    let mut v = vec![];
    let f = fib(bits, &[0, 1, 2]);
    let mut g = f.clone();
    let nn = f.rows();
    g.w[0][0] = 8;
    g.w[1][0] = 21;
    for r in 1..nn {
        g.w[0][r] = refs::add(refs::mul(g.w[0][r - 1], g.w[0][r - 1]), refs::mul(g.w[1][r - 1], g.w[1][r - 1]));
        g.w[1][r] = g.w[0][r - 1];
    }
    v.push((f, g));
    let a = power(bits, 4, 0);
    let mut b = a.clone();
    b.w.iter_mut().for_each(|c| c.rotate_left(1));
    v.push((a, b));
    for a in [lookup(bits, 2, 0, false), perm(bits, 2, 3)] {
        let mut b = a.clone();
        if a.name.starts_with("lookup") {
            b.w.iter_mut().for_each(|c| c.rotate_left(1));
        } else {
            b.w.iter_mut().for_each(|c| {
                if c.iter().any(|x| *x > 1) {
                    c.iter_mut().for_each(|x| *x = refs::add(*x, 1))
                }
            });
        }
        v.push((a, b));
    }
    let a = conn(bits, 2);
    let mut b = a.clone();
    b.w.iter_mut().for_each(|c| c.iter_mut().for_each(|x| *x = refs::add(*x, 5)));
    v.push((a, b));
    for (a, b) in &v {
        assert!(a.w != b.w);
        a.valid().unwrap();
        b.valid().unwrap();
    }
    v
}
pub fn group(k: &str) -> String {
    match k.split_once('_') {
        Some((s, r)) if s.starts_with('s') => {
            let t: String = r.chars().rev().take_while(|c| c.is_ascii_digit() || *c == 'C').collect();
            format!("{s}{t}{}", if r == "root" { "root" } else { "" })
        }
        _ => k.into(),
    }
}
fn splice<K: Kind>(mc: &Mc, a: &Air, b: &Air, par: &Par, n: &AtomicU64) {
    let i = Inst::<K>::new(a, par).unwrap();
    let (Ok(p), Ok(q)) = (i.prove(a), i.prove(b)) else {
        mc.check(false, &format!("{}:{}", K::NAME, a.name), || "no proof for a satisfying trace".into());
        return;
    };
    let (p, q) = (Inst::<K>::json(&p), Inst::<K>::json(&q));
    let keys: Vec<String> = p.as_object().unwrap().keys().cloned().collect();
    let groups: Vec<String> = keys.iter().map(|k| group(k)).collect::<BTreeSet<_>>().into_iter().collect();
    let mix_of = |take: &dyn Fn(&str) -> bool| {
        let mut m = p.clone();
        for k in &keys {
            if take(k) {
                m[k] = q[k].clone();
            }
        }
        m
    };
    let (sp, sq) = (stripped(&p), stripped(&q));
    let mut test = |what: String, m: Value| {
        n.fetch_add(1, Relaxed);
        let pure = stripped(&m) == sp || stripped(&m) == sq;
        let got = decide(&i, &m);
        let key = format!("{}:{}:{}:from the other proof {what}", K::NAME, a.name, par.show());
        mc.check(got == Ok(pure), &key, || format!("a mixture of two proofs: {got:?}, expected {pure}"));
    };
    for m in 0..1u64 << groups.len().min(14) {
        let set: Vec<&String> = groups.iter().enumerate().filter(|(g, _)| m >> g & 1 == 1).map(|(_, g)| g).collect();
        test(format!("{set:?}"), mix_of(&|k| set.contains(&&group(k))));
    }
    for (x, k1) in keys.iter().enumerate() {
        for k2 in &keys[x..] {
            test(format!("{k1} {k2}"), mix_of(&|k| k == k1 || k == k2));
            test(format!("all but {k1} {k2}"), mix_of(&|k| k != k1 && k != k2));
        }
    }
}

// ------------------------------------------------------------- what the challenges are drawn from

fn int3(f: &F3G) -> Vec<u64> {
    f.as_elements().iter().map(|x| x.as_int()).collect()
}
fn order<K: Kind>(mc: &Mc, a: &Air, par: &Par, n: &AtomicU64) {
    let key = format!("{}:{}:{}:challenges", K::NAME, a.name, par.show());
    let r = solo(|| {
        let i = Inst::<RecK<K>>::new(a, par)?;
        let p = i.prove(a)?;
        let l1 = take_log();
        let ok = i.verify(&p)?;
        Ok::<_, String>((p, ok, l1, take_log()))
    });
    let (p, l1, l2) = match r {
        Ok((p, true, l1, l2)) => (p, l1, l2),
        r => {
            mc.check(false, &key, || format!("no accepted proof: {:?}", r.err()));
            return;
        }
    };
    let mut want = vec![];
    let put1 = |w: &mut Vec<Ev>, f: &F3G| w.extend(int3(f).into_iter().map(|x| Ev::Put(vec![x])));
    let putd = |w: &mut Vec<Ev>, d: &<K::M as MerkleTree>::MTNode| {
        w.push(Ev::Put(d.as_elements().iter().map(|x| x.as_int()).collect()))
    };
    p.publics.iter().for_each(|f| put1(&mut want, f));
    for (root, gets) in [(&p.root1, 2), (&p.root2, 2), (&p.root3, 1), (&p.root4, 1)] {
        putd(&mut want, root);
        want.extend(vec![Ev::Get; gets]);
    }
    p.evals.iter().for_each(|f| put1(&mut want, f));
    want.extend(vec![Ev::Get; 2]);
    for s in 0..par.steps.len() {
        want.push(Ev::Get);
        if s + 1 < par.steps.len() {
            putd(&mut want, &p.fri_proof.queries[s + 1].root);
        } else {
            p.fri_proof.last.iter().for_each(|f| put1(&mut want, f));
        }
    }
    want.push(Ev::Perm(par.queries, par.steps[0]));
    n.fetch_add(want.len() as u64, Relaxed);
    for (who, l) in [("prover", &l1), ("verifier", &l2)] {
        let got: Vec<Ev> = l.iter().map(|x| x.0.clone()).collect();
        mc.check(got == want, &format!("{key} {who}"), || {
            let d = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
            format!("the {who}'s transcript departs at step {d}: {:?} instead of {:?}", got.get(d), want.get(d))
        });
    }
    mc.check(l1 == l2, &key, || "prover and verifier draw different challenges".into());
    // the opened positions are the drawn ones and the opened rows those of the trace on the coset
    let pos = &l2.last().unwrap().1;
    let cols: Vec<Vec<u64>> = a.w.iter().map(|c| refs::ref_ext(c, par.ext)).collect();
    let kcols: Vec<Vec<u64>> = a.k.iter().map(|c| refs::ref_ext(c, par.ext)).collect();
    for (q, x) in pos.iter().enumerate() {
        let x = *x as usize;
        for (t, cs) in [(0, &cols), (4, &kcols)] {
            let got: Vec<u64> = p.fri_proof.queries[0].pol_queries[q][t].0.iter().map(|v| v.as_int()).collect();
            let want: Vec<u64> = cs.iter().map(|c| c[x]).collect();
            mc.check(got == want, &format!("{key} query {q}"), || format!("tree {t} row {x} opens {got:?}, the columns have {want:?}"));
        }
    }
}

// ------------------------------------------------------------- every committed cell is checked

fn cells<K: Kind>(mc: &Mc, a: &Air, par: &Par, n: &AtomicU64) {
    let key0 = format!("{}:{}:{}", K::NAME, a.name, par.show());
    let reset = |bad| {
        BAD.with(|b| *b.borrow_mut() = bad);
        TREE.with(|t| *t.borrow_mut() = 0);
        SHAPES.with(|s| s.borrow_mut().clear());
    };
    solo(|| {
        let i = Inst::<BadK<K>>::new(a, par).unwrap();
        reset(None);
        let ok = outcome(&i, a);
        if !mc.check(ok == Ok(true), &key0, || format!("no accepted proof: {ok:?}")) {
            return;
        }
        let shapes = SHAPES.with(|s| s.borrow().clone());
        for (t, (w, h)) in shapes.iter().enumerate() {
            for r in 0..*h {
                for c in 0..*w {
                    reset(Some((t, r, c)));
                    let got = outcome(&i, a);
                    let log = take_log();
                    let pos = match log.last() {
                        Some((Ev::Perm(..), p)) => p,
                        _ => &vec![],
                    };
                    // caught exactly when one of the queries opens the row
                    let hit = pos.iter().any(|x| *x as usize % h == r);
                    n.fetch_add(1, Relaxed);
                    let key = format!("{key0}:tree {t} cell {r},{c}");
                    mc.check(got == Ok(!hit), &key, || {
                        format!("commitment with a wrong cell: {got:?}, {} by the queries {pos:?}", if hit { "opened" } else { "not opened" })
                    });
                }
            }
        }
        reset(None);
    });
}

// ------------------------------------------------------------- every evaluation and opened value counts

#[derive(serde::Deserialize)]
struct Node {
    type_: String,
    id: usize,
    value: Option<String>,
    dim: usize,
    tree_pos: usize,
}
#[derive(serde::Deserialize)]
struct Section {
    op: String,
    dest: Node,
    src: Vec<Node>,
}
/// runs compiled verifier code over named inputs
fn exec(code: &[Section], val: &dyn Fn(&Node) -> F3G) -> F3G {
    let mut tmp: HashMap<usize, F3G> = HashMap::new();
    let mut last = F3G::ZERO;
    for s in code {
        let v: Vec<F3G> = s.src.iter().map(|n| if n.type_ == "tmp" { tmp[&n.id] } else { val(n) }).collect();
        last = match s.op.as_str() {
            "add" => v[0] + v[1],
            "sub" => v[0] - v[1],
            "mul" => v[0] * v[1],
            "muladd" => v[0] * v[1] + v[2],
            "copy" => v[0],
            o => panic!("operation {o}"),
        };
        tmp.insert(s.dest.id, last);
    }
    last
}
fn bound<K: Kind>(mc: &Mc, a: &Air, par: &Par, n: &AtomicU64) {
    let key0 = format!("{}:{}", K::NAME, a.name);
    let i = Inst::<K>::new(a, par).unwrap();
    let si = &i.setup.starkinfo;
    let f = |t: &str, x: usize, d: usize| {
        let h = |k: u64| mix(mix(x as u64 * 8 + k) ^ t.bytes().fold(1, |h, b| mix(h ^ b as u64))) % refs::P;
        if d == 1 {
            F3G::from(FGL::from(h(0)))
        } else {
            F3G::from_vec(vec![FGL::from(h(0)), FGL::from(h(1)), FGL::from(h(2))])
        }
    };
    let code: Vec<Section> =
        serde_json::from_value(serde_json::to_value(&i.setup.program.verifier_query_code.first).unwrap()).unwrap();
    // an opened element is one place of one tree row
    let run = |bad: Option<(&str, usize)>| {
        let b = |t: &str, x: usize| (bad == Some((t, x))) as u64;
        let val = |nd: &Node| -> F3G {
            match nd.type_.as_str() {
                "tree1" | "tree2" | "tree3" | "tree4" => {
                    let mut e: Vec<FGL> = f(&nd.type_, nd.tree_pos, nd.dim).as_elements();
                    for (k, x) in e.iter_mut().enumerate() {
                        *x = *x + FGL::from(b(&nd.type_, nd.tree_pos + k));
                    }
                    if nd.dim == 1 {
                        F3G::from(e[0])
                    } else {
                        F3G::from_vec(e[..3].to_vec())
                    }
                }
                "const" => f("const", nd.id, 1) + F3G::from(FGL::from(b("const", nd.id))),
                "number" => F3G::from(FGL::from(num(nd.value.as_ref().unwrap()))),
                t => f(t, nd.id, 3) + F3G::from(FGL::from(b(t, nd.id))),
            }
        };
        exec(&code, &val)
    };
    let base = run(None);
    let mut must: Vec<(&str, usize)> = (0..si.ev_map.len()).map(|e| ("eval", e)).collect();
    let ms = &si.map_sectionsN;
    for (t, w) in [("tree1", ms.cm1_n), ("tree2", ms.cm2_n), ("tree3", ms.cm3_n), ("tree4", ms.cm4_n)] {
        must.extend((0..w).map(|x| (t, x)));
    }
    must.extend(si.ev_map.iter().filter(|e| e.type_ == "const").map(|e| ("const", e.id)));
    must.extend([("challenge", 5), ("challenge", 6), ("xDivXSubXi", 0)]);
    for m in must {
        n.fetch_add(1, Relaxed);
        let one_term = m == ("challenge", 6) && si.ev_map.iter().filter(|e| e.prime).count() < 2 && si.ev_map.iter().filter(|e| !e.prime).count() < 2;
        mc.check(one_term || run(Some(m)) != base, &format!("{key0}:{}{}", m.0, m.1), || {
            format!("{} {} does not enter the combination that is tested for low degree", m.0, m.1)
        });
    }
    // the committed columns' evaluations are those of the interpolated columns, at the drawn point
    let r = solo(|| {
        let i = Inst::<RecK<K>>::new(a, par)?;
        let p = i.prove(a)?;
        Ok::<_, String>((p, take_log()))
    });
    let Ok((p, log)) = r else {
        mc.check(false, &key0, || "no proof".into());
        return;
    };
    let gets: Vec<&Vec<u64>> = log.iter().filter(|x| x.0 == Ev::Get).map(|x| &x.1).collect();
    let xi = [gets[5][0], gets[5][1], gets[5][2]];
    let w = refs::omega(par.bits);
    for (e, ev) in si.ev_map.iter().enumerate() {
        let col = match ev.type_.as_str() {
            "const" => &a.k[ev.id],
            _ if ev.id < a.w.len() => &a.w[ev.id],
            _ => continue,
        };
        let x = if ev.prime { xi.map(|c| refs::mul(c, w)) } else { xi };
        let want = refs::eval3(&refs::ref_idft(col), x);
        let got: Vec<u64> = int3(&p.evals[e]).into_iter().chain([0, 0, 0]).take(3).collect();
        n.fetch_add(1, Relaxed);
        mc.check(got == want.to_vec(), &format!("{key0}:evaluation {e}"), || {
            format!("column {} {} prime={} evaluates to {:?} at the drawn point, the proof says {got:?}", ev.type_, ev.id, ev.prime, want)
        });
    }
}

// ------------------------------------------------------------- other circuits, keys, parameters

fn others<K: Kind>(mc: &Mc, all: &[Air], par: &Par, n: &AtomicU64) {
    let inst: Vec<(&Air, Inst<K>, Proof<K>)> = all
        .iter()
        .filter(|a| fits(a, par.ext - par.bits))
        .map(|a| {
            let i = Inst::<K>::new(a, par).unwrap();
            let p = i.prove(a).unwrap();
            (a, i, p)
        })
        .collect();
    for (a, _, p) in &inst {
        for (b, ib, _) in &inst {
            n.fetch_add(1, Relaxed);
            let got = ib.verify(p);
            // unless the trace satisfies the other circuit as well
            let mut t = (*b).clone();
            t.w = a.w.clone();
            let fine = a.k == b.k && b.w.len() == a.w.len() && t.valid().is_ok() && t.publics() == a.publics();
            let key = format!("{}:{}:proof of {} for {}", K::NAME, par.show(), a.name, b.name);
            mc.check(matches!(got, Ok(acc) if !acc || fine), &key, || format!("proof of another circuit: {got:?}"));
        }
    }
    for (a, i, p) in &inst {
        let key = format!("{}:{}:{}", K::NAME, a.name, par.show());
        // constants' key
        for e in 0..4 {
            let mut v: Vec<FGL> = i.setup.const_root.as_elements().to_vec();
            v[e] = v[e] + FGL::from(1u64);
            let got = i.verify_with(p, &<K::M as MerkleTree>::MTNode::new(&v), &i.ss);
            n.fetch_add(1, Relaxed);
            mc.check(got == Ok(false), &format!("{key}:key element {e}"), || format!("another constants' root: {got:?}"));
        }
        for c in 0..a.k.len() {
            for r in 0..a.rows() {
                let mut b = (*a).clone();
                b.k[c][r] = refs::add(b.k[c][r], 1);
                let j = Inst::<K>::new(&b, par).unwrap();
                let got = j.verify(p);
                n.fetch_add(1, Relaxed);
                mc.check(got == Ok(false), &format!("{key}:constant {c}[{r}]"), || format!("a constant of the key changed: {got:?}"));
            }
        }
        // publics
        for k in 0..p.publics.len() {
            for d in [1u64, refs::P - 1, 1 << 32] {
                let mut q = Inst::<K>::unjson(&Inst::<K>::json(p)).unwrap();
                q.publics[k] += F3G::from(FGL::from(d));
                let got = i.verify(&q);
                n.fetch_add(1, Relaxed);
                mc.check(got == Ok(false), &format!("{key}:public {k}+{d}"), || format!("another public value: {got:?}"));
            }
        }
        // parameters of the verifier
        let mut other = vec![];
        for q in [1, par.queries - 1, par.queries + 1, par.queries * 2] {
            other.push(Par { queries: q, ..par.clone() });
        }
        for st in step_lists(par.ext, 1) {
            let mut s = vec![par.ext];
            s.extend(st);
            other.push(Par { steps: s, ..par.clone() });
        }
        for o in other {
            if o == *par || o.queries == 0 {
                continue;
            }
            let got = i.verify_with(p, &i.setup.const_root, &o.ss(K::NAME));
            n.fetch_add(1, Relaxed);
            mc.check(got == Ok(false), &format!("{key}:verified as {}", o.show()), || format!("other parameters: {got:?}"));
        }
    }
}

pub fn run(mc: &Mc) {
    quiet_all(true);
    let sec = |name: &str, items: usize, n: &AtomicU64| {
        let n = n.swap(0, Relaxed);
        mc.states(n);
        mc.traces(n);
        mc.transitions(n);
        mc.evals(n, n);
        mc.section(name, json!({"circuits x parameters": items, "cases": n}));
    };
    let n = AtomicU64::new(0);
    macro_rules! each {
        ($name:expr, $f:ident, $items:expr) => {{
            let items: Vec<(usize, Air, Par)> = $items;
            let len = items.len();
            spread(items, |(h, a, p)| match h {
                0 => $f::<Gl>(mc, &a, &p, &n),
                1 => $f::<Bn>(mc, &a, &p, &n),
                _ => $f::<Bls>(mc, &a, &p, &n),
            });
            sec($name, len, &n);
        }};
    }
    let th = mc.thorough();
    // the transcripts of prover and verifier: every circuit, every list of FRI sizes
    let mut items = vec![];
    for h in 0..3 {
        for b in if th { 2..=5 } else { 2..=3 } {
            for a in airs(b) {
                let e = ext_of(&a);
                for (x, st) in step_lists(b + e, 1).into_iter().enumerate() {
                    if x % 3 == h || th {
                        items.push((h, a.clone(), Par::new(b, e, 1 + x % 5, &st)));
                    }
                }
            }
        }
    }
    each!("transcript order", order, items);
    // evaluations and opened values
    let mut items = vec![];
    for b in if th { 2..=5 } else { 2..=3 } {
        for a in airs(b) {
            for e in ext_of(&a)..=3 {
                items.push((0, a.clone(), Par::new(b, e, 2, &[3])));
            }
        }
    }
    each!("bound values", bound, items);
    // every single change of a proof
    let mut items = vec![];
    for a in airs(3) {
        let e = ext_of(&a);
        let small = a.w.len() <= 8;
        if small || th {
            items.push((0, a.clone(), Par::new(3, e, 2, if e == 1 { &[2] } else { &[4, 2] })));
        }
        if th || (small && items.len() % 6 == 0) {
            items.push((1, a.clone(), Par::new(3, e, 2, &[3])));
            items.push((2, a.clone(), Par::new(3, e, 2, &[3])));
        }
    }
    for b in if th { 2..=6 } else { 2..=4 } {
        for st in step_lists(b + 1, 2) {
            items.push((0, airs(b)[0].clone(), Par::new(b, 1, 3, &st)));
        }
    }
    items.push((1, airs(4)[0].clone(), Par::new(4, 2, 3, &[5, 2])));
    items.push((2, airs(4)[0].clone(), Par::new(4, 2, 3, &[5, 2])));
    each!("single changes", tamper, items);
    // mixtures
    let mut items: Vec<(usize, (Air, Air), Par)> = vec![];
    for (x, ab) in two(3).into_iter().enumerate() {
        let e = ext_of(&ab.0);
        items.push((0, ab.clone(), Par::new(3, e, 4, &[3])));
        if x == 0 || th {
            items.push((1, ab.clone(), Par::new(3, e, 2, &[3])));
            items.push((2, ab.clone(), Par::new(3, e, 2, &[3])));
        }
    }
    let len = items.len();
    items.into_par_iter().for_each(|(h, (a, b), p)| match h {
        0 => splice::<Gl>(mc, &a, &b, &p, &n),
        1 => splice::<Bn>(mc, &a, &b, &p, &n),
        _ => splice::<Bls>(mc, &a, &b, &p, &n),
    });
    sec("mixtures of two proofs", len, &n);
    // committed cells
    let mut items = vec![];
    for (x, a) in airs(2).into_iter().enumerate() {
        let e = ext_of(&a);
        if a.w.len() <= 10 || th {
            items.push((0, a.clone(), Par::new(2, e, 3, &[2])));
            if x % 5 == 0 || th {
                items.push((1, a.clone(), Par::new(2, e, 3, &[2])));
                items.push((2, a.clone(), Par::new(2, e, 3, &[2])));
            }
        }
    }
    for st in step_lists(6, 2) {
        items.push((0, fib(4, &[0, 1, 2]), Par::new(4, 2, 5, &st)));
    }
    each!("wrong committed cells", cells, items);
    // others
    let pars = [Par::new(3, 1, 4, &[3]), Par::new(3, 2, 4, &[4, 2])];
    let all = airs(3);
    (0..pars.len() * if th { 3 } else { 1 }).into_par_iter().for_each(|x| match x / pars.len() {
        0 => others::<Gl>(mc, &all, &pars[x % pars.len()], &n),
        1 => others::<Bn>(mc, &all, &pars[x % pars.len()], &n),
        _ => others::<Bls>(mc, &all, &pars[x % pars.len()], &n),
    });
    if !th {
        others::<Bn>(mc, &all[..8], &pars[0], &n);
        others::<Bls>(mc, &all[..8], &pars[0], &n);
    }
    sec("other circuits, keys, publics, parameters", pars.len(), &n);
    mc.rule("cases: one changed, mixed or misdirected proof (must not be accepted and must not panic), one transcript step, one committed cell, one opened value");
}
