//! An interpreter for circom circuits: parses a program, computes the witness of its main
//! component from given inputs and says which constraint fails, if any. Every value carries its
//! degree in the signals, so that constraints circom would refuse to compile are found too.
//! Components run when one of their outputs is read, or at the end of their parent.
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

// ------------------------------------------------------------------ syntax

pub type Id = u32;
#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(Id),
    Num(BigUint),
    P(&'static str),
    Str,
}
#[derive(Debug, Clone)]
pub enum Part {
    Ix(Ex),
    Dot(Id),
}
#[derive(Debug, Clone)]
pub struct Acc {
    name: Id,
    parts: Vec<Part>,
}
#[derive(Debug, Clone)]
pub enum Ex {
    Num(BigUint),
    Acc(Acc),
    Un(char, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Tern(Box<Ex>, Box<Ex>, Box<Ex>),
    Call(Id, Vec<Ex>),
    Anon(Id, Vec<Ex>, Vec<Ex>),
    Arr(Vec<Ex>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Sig {
    In,
    Out,
    Mid,
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    Var,
    Comp,
    Sig(Sig),
}
#[derive(Debug, Clone)]
enum St {
    Decl(Kind, Id, Vec<Ex>, Option<(&'static str, Ex)>),
    Set(Acc, &'static str, Ex),
    Eq(Ex, Ex, usize),
    If(Ex, Box<St>, Option<Box<St>>),
    While(Ex, Box<St>),
    Block(Vec<St>),
    Seq(Vec<St>),
    Ret(Ex),
    Assert(Ex),
    Nop,
}
#[derive(Debug, Clone)]
struct Def {
    params: Vec<Id>,
    body: St,
}
#[derive(Debug, Default)]
pub struct Prog {
    names: Vec<String>,
    ids: HashMap<String, Id>,
    templates: HashMap<Id, Def>,
    functions: HashMap<Id, Def>,
    main: Option<(Vec<Id>, Ex)>,
    pub includes: Vec<String>,
}

const PUNCT: &[&str] = &[
    "<==", "==>", "<--", "-->", "===", "**=", "<<=", ">>=", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "**", "+=",
    "-=", "*=", "/=", "\\=", "%=", "++", "--", "+", "-", "*", "/", "\\", "%", "<", ">", "=", "!", "~", "&", "|", "^",
    "?", ":", "(", ")", "[", "]", "{", "}", ",", ";", ".",
];

struct Parser<'a> {
    p: &'a mut Prog,
    t: Vec<(Tok, usize)>,
    i: usize,
}
type R<T> = Result<T, String>;

impl Prog {
    pub fn id(&mut self, s: &str) -> Id {
        if let Some(i) = self.ids.get(s) {
            return *i;
        }
        self.names.push(s.into());
        self.ids.insert(s.into(), self.names.len() as Id - 1);
        self.names.len() as Id - 1
    }
    pub fn name(&self, i: Id) -> &str {
        &self.names[i as usize]
    }
    /// adds the definitions of a source text
    pub fn add(&mut self, src: &str) -> R<()> {
        let t = self.lex(src)?;
        let mut p = Parser { p: self, t, i: 0 };
        p.file()
    }
    pub fn set_main(&mut self, template: &str, args: &[u64]) {
        let id = self.id(template);
        self.main = Some((vec![], Ex::Call(id, args.iter().map(|a| Ex::Num(BigUint::from(*a))).collect())));
    }
    pub fn has_main(&self) -> bool {
        self.main.is_some()
    }
    pub fn publics(&self) -> Vec<String> {
        self.main.as_ref().map(|m| m.0.iter().map(|i| self.name(*i).to_string()).collect()).unwrap_or_default()
    }
    fn lex(&mut self, s: &str) -> R<Vec<(Tok, usize)>> {
        let b = s.as_bytes();
        let (mut i, mut line) = (0, 1);
        let mut out = vec![];
        while i < b.len() {
            let c = b[i];
            if c == b'\n' {
                line += 1;
                i += 1;
            } else if c.is_ascii_whitespace() {
                i += 1;
            } else if s[i..].starts_with("//") {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            } else if s[i..].starts_with("/*") {
                let e = s[i + 2..].find("*/").ok_or("unclosed comment")?;
                line += s[i..i + e].matches('\n').count();
                i += e + 4;
            } else if c == b'"' {
                let e = s[i + 1..].find('"').ok_or("unclosed string")?;
                let text = &s[i + 1..i + 1 + e];
                if out.last().map(|t: &(Tok, usize)| matches!(&t.0, Tok::Id(x) if self.name(*x) == "include")).unwrap_or(false) {
                    self.includes.push(text.to_string());
                }
                out.push((Tok::Str, line));
                i += e + 2;
            } else if c.is_ascii_digit() {
                let st = i;
                let hex = s[i..].starts_with("0x");
                if hex {
                    i += 2;
                }
                while i < b.len() && (if hex { b[i].is_ascii_hexdigit() } else { b[i].is_ascii_digit() }) {
                    i += 1;
                }
                let n = if hex { BigUint::parse_bytes(&b[st + 2..i], 16) } else { BigUint::parse_bytes(&b[st..i], 10) };
                out.push((Tok::Num(n.ok_or(format!("line {line}: number"))?), line));
            } else if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                    i += 1;
                }
                let id = self.id(&s[st..i]);
                out.push((Tok::Id(id), line));
            } else {
                let p = PUNCT.iter().find(|p| s[i..].starts_with(**p)).ok_or(format!("line {line}: character {:?}", c as char))?;
                out.push((Tok::P(p), line));
                i += p.len();
            }
        }
        Ok(out)
    }
}

impl Parser<'_> {
    fn err<T>(&self, m: &str) -> R<T> {
        let l = self.t.get(self.i).or(self.t.last()).map(|t| t.1).unwrap_or(0);
        let what = match self.t.get(self.i).map(|t| &t.0) {
            Some(Tok::Id(i)) => self.p.name(*i).to_string(),
            Some(t) => format!("{t:?}"),
            None => "end of file".into(),
        };
        Err(format!("line {l}: {m} at {what}"))
    }
    fn is(&self, s: &str) -> bool {
        match self.t.get(self.i).map(|t| &t.0) {
            Some(Tok::P(p)) => *p == s,
            Some(Tok::Id(i)) => self.p.name(*i) == s,
            _ => false,
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.is(s);
        if y {
            self.i += 1;
        }
        y
    }
    fn need(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            self.err(&format!("expected {s}"))
        }
    }
    fn ident(&mut self) -> R<Id> {
        if let Some((Tok::Id(i), _)) = self.t.get(self.i) {
            let i = *i;
            self.i += 1;
            Ok(i)
        } else {
            self.err("expected a name")
        }
    }
    fn file(&mut self) -> R<()> {
        while self.i < self.t.len() {
            if self.eat("pragma") {
                while !self.eat(";") {
                    self.i += 1;
                    if self.i >= self.t.len() {
                        return self.err("unfinished pragma");
                    }
                }
            } else if self.eat("include") {
                self.i += 1;
                self.need(";")?;
            } else if self.is("template") || self.is("function") {
                let tmpl = self.is("template");
                self.i += 1;
                while self.eat("custom") || self.eat("parallel") {}
                let n = self.ident()?;
                self.need("(")?;
                let mut params = vec![];
                while !self.eat(")") {
                    params.push(self.ident()?);
                    self.eat(",");
                }
                let body = self.stmt()?;
                let m = if tmpl { &mut self.p.templates } else { &mut self.p.functions };
                if m.insert(n, Def { params, body }).is_some() {
                    let s = self.p.name(n).to_string();
                    return Err(format!("{s} is defined twice"));
                }
            } else if self.eat("component") {
                self.need("main")?;
                let mut publ = vec![];
                if self.eat("{") {
                    self.need("public")?;
                    self.need("[")?;
                    while !self.eat("]") {
                        publ.push(self.ident()?);
                        self.eat(",");
                    }
                    self.need("}")?;
                }
                self.need("=")?;
                let e = self.expr()?;
                self.need(";")?;
                if self.p.main.replace((publ, e)).is_some() {
                    return Err("two main components".into());
                }
            } else {
                return self.err("unexpected top-level text");
            }
        }
        Ok(())
    }
    fn dims(&mut self) -> R<Vec<Ex>> {
        let mut d = vec![];
        while self.eat("[") {
            d.push(self.expr()?);
            self.need("]")?;
        }
        Ok(d)
    }
    fn decl(&mut self) -> R<St> {
        let kind = if self.eat("var") {
            Kind::Var
        } else if self.eat("component") {
            Kind::Comp
        } else {
            self.need("signal")?;
            Kind::Sig(if self.eat("input") {
                Sig::In
            } else if self.eat("output") {
                Sig::Out
            } else {
                Sig::Mid
            })
        };
        let mut v = vec![];
        loop {
            let n = self.ident()?;
            let d = self.dims()?;
            let mut init = None;
            for op in ["<==", "<--", "="] {
                if self.eat(op) {
                    init = Some((op, self.expr()?));
                    break;
                }
            }
            v.push(St::Decl(kind, n, d, init));
            if !self.eat(",") {
                break;
            }
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { St::Seq(v) })
    }
    fn simple(&mut self) -> R<St> {
        let line = self.t.get(self.i).map(|t| t.1).unwrap_or(0);
        let e = self.expr()?;
        if self.eat("===") {
            return Ok(St::Eq(e, self.expr()?, line));
        }
        for (op, fwd) in [("==>", "<=="), ("-->", "<--")] {
            if self.eat(op) {
                return match self.expr()? {
                    Ex::Acc(a) => Ok(St::Set(a, fwd, e)),
                    _ => self.err("assignment to what is not a signal"),
                };
            }
        }
        let a = match e {
            Ex::Acc(a) => a,
            _ => return self.err("expected a statement"),
        };
        for op in ["<==", "<--", "=", "+=", "-=", "*=", "/=", "\\=", "%=", "**=", "<<=", ">>="] {
            if self.eat(op) {
                return Ok(St::Set(a, op, self.expr()?));
            }
        }
        if self.eat("++") {
            return Ok(St::Set(a, "+=", Ex::Num(BigUint::one())));
        }
        if self.eat("--") {
            return Ok(St::Set(a, "-=", Ex::Num(BigUint::one())));
        }
        self.err("expected an assignment")
    }
    fn stmt(&mut self) -> R<St> {
        if self.eat("{") {
            let mut v = vec![];
            while !self.eat("}") {
                v.push(self.stmt()?);
            }
            return Ok(St::Block(v));
        }
        if self.eat("if") {
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            let a = self.stmt()?;
            let b = if self.eat("else") { Some(Box::new(self.stmt()?)) } else { None };
            return Ok(St::If(c, Box::new(a), b));
        }
        if self.eat("while") {
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            return Ok(St::While(c, Box::new(self.stmt()?)));
        }
        if self.eat("for") {
            self.need("(")?;
            let init = if self.is("var") { self.decl()? } else { self.simple()? };
            self.need(";")?;
            let c = self.expr()?;
            self.need(";")?;
            let step = self.simple()?;
            self.need(")")?;
            let body = self.stmt()?;
            return Ok(St::Block(vec![init, St::While(c, Box::new(St::Seq(vec![body, step])))]));
        }
        let s = if self.eat("return") {
            St::Ret(self.expr()?)
        } else if self.is("assert") {
            self.i += 1;
            self.need("(")?;
            let e = self.expr()?;
            self.need(")")?;
            St::Assert(e)
        } else if self.is("log") {
            self.i += 1;
            self.need("(")?;
            while !self.eat(")") {
                if matches!(self.t.get(self.i), Some((Tok::Str, _))) {
                    self.i += 1;
                } else {
                    self.expr()?;
                }
                self.eat(",");
            }
            St::Nop
        } else if self.is("var") || self.is("signal") || self.is("component") {
            self.decl()?
        } else if self.is(";") {
            St::Nop
        } else {
            self.simple()?
        };
        self.need(";")?;
        Ok(s)
    }
    fn expr(&mut self) -> R<Ex> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.need(":")?;
            let b = self.expr()?;
            return Ok(Ex::Tern(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, lv: usize) -> R<Ex> {
        const L: &[&[&str]] = &[
            &["||"],
            &["&&"],
            &["==", "!=", "<", ">", "<=", ">="],
            &["|"],
            &["^"],
            &["&"],
            &["<<", ">>"],
            &["+", "-"],
            &["*", "/", "\\", "%"],
            &["**"],
        ];
        if lv == L.len() {
            return self.unary();
        }
        let mut a = self.bin(lv + 1)?;
        'o: loop {
            for op in L[lv] {
                if self.eat(op) {
                    let b = self.bin(lv + 1)?;
                    a = Ex::Bin(op, Box::new(a), Box::new(b));
                    continue 'o;
                }
            }
            return Ok(a);
        }
    }
    fn unary(&mut self) -> R<Ex> {
        for (s, c) in [("-", '-'), ("!", '!'), ("~", '~')] {
            if self.eat(s) {
                return Ok(Ex::Un(c, Box::new(self.unary()?)));
            }
        }
        self.atom()
    }
    fn args(&mut self, end: &str) -> R<Vec<Ex>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.expr()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.need(",")?;
        }
    }
    fn atom(&mut self) -> R<Ex> {
        if self.eat("(") {
            let e = self.expr()?;
            self.need(")")?;
            return Ok(e);
        }
        if self.eat("[") {
            return Ok(Ex::Arr(self.args("]")?));
        }
        if let Some((Tok::Num(n), _)) = self.t.get(self.i) {
            let n = n.clone();
            self.i += 1;
            return Ok(Ex::Num(n));
        }
        let name = self.ident()?;
        if self.eat("(") {
            let a = self.args(")")?;
            if self.eat("(") {
                return Ok(Ex::Anon(name, a, self.args(")")?));
            }
            return Ok(Ex::Call(name, a));
        }
        let mut parts = vec![];
        loop {
            if self.eat("[") {
                parts.push(Part::Ix(self.expr()?));
                self.need("]")?;
            } else if self.eat(".") {
                parts.push(Part::Dot(self.ident()?));
            } else {
                return Ok(Ex::Acc(Acc { name, parts }));
            }
        }
    }
}

// ------------------------------------------------------------------ values

/// a number and its degree in the signals: 0 known, 1 linear, 2 one product, 3 beyond
#[derive(Clone, Debug)]
pub struct Num {
    pub v: BigUint,
    pub d: u8,
}
#[derive(Clone, Debug)]
pub enum Val {
    N(Num),
    A(Vec<Val>),
}
impl Val {
    pub fn known(v: BigUint) -> Val {
        Val::N(Num { v, d: 0 })
    }
    pub fn num(&self) -> Res<&Num> {
        match self {
            Val::N(n) => Ok(n),
            _ => bad("an array where a number is needed"),
        }
    }
    pub fn arr(&self) -> Res<&[Val]> {
        match self {
            Val::A(v) => Ok(v),
            _ => bad("a number where an array is needed"),
        }
    }
    /// all numbers in order
    pub fn flat(&self, out: &mut Vec<BigUint>) {
        match self {
            Val::N(n) => out.push(n.v.clone()),
            Val::A(v) => v.iter().for_each(|x| x.flat(out)),
        }
    }
    pub fn dims(&self) -> Vec<usize> {
        match self {
            Val::N(_) => vec![],
            Val::A(v) => {
                let mut d = vec![v.len()];
                if let Some(x) = v.first() {
                    d.extend(x.dims());
                }
                d
            }
        }
    }
    pub fn signals(v: Vec<BigUint>) -> Val {
        Val::A(v.into_iter().map(|v| Val::N(Num { v, d: 1 })).collect())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    /// a constraint does not hold (where)
    Constraint(String),
    /// the witness cannot be computed (an assertion of the circuit fails)
    Assert(String),
    /// circom would not accept the circuit, or the inputs do not fit it
    Malformed(String),
}
pub type Res<T> = Result<T, Er>;
pub fn bad<T>(m: impl Into<String>) -> Res<T> {
    Err(Er::Malformed(m.into()))
}

pub struct Field {
    pub q: BigUint,
    half: BigUint,
    mask: BigUint,
    bits: u64,
}
impl Field {
    pub fn new(q: BigUint) -> Self {
        let bits = q.bits() as u64;
        Field { half: &q >> 1u32, mask: (BigUint::one() << bits as usize) - 1u32, bits, q }
    }
    pub fn bits(&self) -> usize {
        self.bits as usize
    }
    pub fn neg(&self, a: &BigUint) -> BigUint {
        if a.is_zero() {
            a.clone()
        } else {
            &self.q - a
        }
    }
    fn add(&self, a: &BigUint, b: &BigUint) -> BigUint {
        let s = a + b;
        if s >= self.q {
            s - &self.q
        } else {
            s
        }
    }
    pub fn inv(&self, a: &BigUint) -> BigUint {
        a.modpow(&(&self.q - 2u32), &self.q)
    }
    /// negative numbers are those above half the field
    fn less(&self, a: &BigUint, b: &BigUint) -> bool {
        match (a > &self.half, b > &self.half) {
            (true, false) => true,
            (false, true) => false,
            _ => a < b,
        }
    }
    fn shl(&self, a: &BigUint, k: &BigUint) -> BigUint {
        if k > &self.half {
            return self.shr(a, &self.neg(k));
        }
        match k.to_usize() {
            Some(k) if k < self.bits as usize => ((a << k) & &self.mask) % &self.q,
            _ => BigUint::zero(),
        }
    }
    fn shr(&self, a: &BigUint, k: &BigUint) -> BigUint {
        if k > &self.half {
            return self.shl(a, &self.neg(k));
        }
        match k.to_usize() {
            Some(k) if k < self.bits as usize => a >> k,
            _ => BigUint::zero(),
        }
    }
    fn op(&self, op: &str, a: &Num, b: &Num) -> Res<Num> {
        let d = if a.d == 0 && b.d == 0 { 0 } else { 3 };
        let t = |x: bool| Num { v: BigUint::from(x as u8), d };
        Ok(match op {
            "+" | "-" => {
                let v = if op == "+" { self.add(&a.v, &b.v) } else { self.add(&a.v, &self.neg(&b.v)) };
                Num { v, d: if a.d >= 2 && b.d >= 2 { 3 } else { a.d.max(b.d) } }
            }
            "*" => {
                let v = (&a.v * &b.v) % &self.q;
                Num { v, d: if a.d == 0 || b.d == 0 { a.d.max(b.d) } else if a.d + b.d == 2 { 2 } else { 3 } }
            }
            "/" => {
                if b.v.is_zero() {
                    return Err(Er::Assert("division by zero".into()));
                }
                Num { v: &a.v * self.inv(&b.v) % &self.q, d: if b.d == 0 { a.d } else { 3 } }
            }
            "\\" | "%" => {
                if b.v.is_zero() {
                    return Err(Er::Assert("division by zero".into()));
                }
                Num { v: if op == "%" { &a.v % &b.v } else { &a.v / &b.v }, d }
            }
            "**" => Num { v: a.v.modpow(&b.v, &self.q), d },
            "<<" => Num { v: self.shl(&a.v, &b.v), d },
            ">>" => Num { v: self.shr(&a.v, &b.v), d },
            "&" => Num { v: (&a.v & &b.v) % &self.q, d },
            "|" => Num { v: (&a.v | &b.v) % &self.q, d },
            "^" => Num { v: (&a.v ^ &b.v) % &self.q, d },
            "==" => t(a.v == b.v),
            "!=" => t(a.v != b.v),
            "<" => t(self.less(&a.v, &b.v)),
            ">" => t(self.less(&b.v, &a.v)),
            "<=" => t(!self.less(&b.v, &a.v)),
            ">=" => t(!self.less(&a.v, &b.v)),
            "&&" => t(!a.v.is_zero() && !b.v.is_zero()),
            "||" => t(!a.v.is_zero() || !b.v.is_zero()),
            _ => return bad(format!("operator {op}")),
        })
    }
}

// ------------------------------------------------------------------ running

/// inputs given to a component: (name, index path, value)
pub type Given = Vec<(Id, Vec<usize>, Val)>;
/// a component without circom text: its inputs' names in order, and its outputs from their values
pub trait Builtins: Sync {
    fn inputs(&self, name: &str) -> Option<&'static [(&'static str, usize)]>;
    fn run(&self, cx: &Cx, name: &str, args: &[BigUint], ins: &HashMap<&'static str, Val>) -> Res<Vec<(&'static str, Val)>>;
}

struct Inst {
    name: Id,
    args: Vec<Val>,
    given: Given,
    out: Option<HashMap<Id, Val>>,
}
struct SigArr {
    dims: Vec<usize>,
    data: Vec<Option<BigUint>>,
    kind: Sig,
}
struct CompArr {
    dims: Vec<usize>,
    data: Vec<Option<Rc<RefCell<Inst>>>>,
}
enum Slot {
    Var(Val),
    Sig(SigArr),
    Comp(CompArr),
}
struct Frame {
    scope: Vec<(Id, Slot)>,
    given: Option<Given>,
    comps: Vec<Rc<RefCell<Inst>>>,
    template: bool,
    name: Id,
    declared: Vec<Id>,
}
enum Flow {
    Next,
    Ret(Val),
}

/// one run of a program: counts what it does, and may replace the value of any `<--`
pub struct Cx<'a> {
    pub p: &'a Prog,
    pub f: &'a Field,
    pub b: &'a dyn Builtins,
    /// number of hints taken so far, of constraints checked, of components run
    pub hints: RefCell<usize>,
    pub constraints: RefCell<usize>,
    pub components: RefCell<usize>,
    pub hook: Option<&'a dyn Fn(usize, &BigUint) -> Option<BigUint>>,
    /// go on after a constraint that does not hold; which ones, and the components they are in
    pub collect: bool,
    pub failed: RefCell<Vec<(usize, Vec<usize>)>>,
    /// the components that took a whole-number hint, from the outside in
    pub raw: RefCell<Vec<(usize, Vec<usize>)>>,
    within: RefCell<Vec<usize>>,
}

fn index(dims: &[usize], ix: &[usize]) -> Res<(usize, usize)> {
    // offset and number of elements below
    if ix.len() > dims.len() {
        return bad("too many indices");
    }
    let mut off = 0;
    for (i, x) in ix.iter().enumerate() {
        if *x >= dims[i] {
            return bad(format!("index {x} of {}", dims[i]));
        }
        off = off * dims[i] + x;
    }
    let below: usize = dims[ix.len()..].iter().product();
    Ok((off * below, below))
}

impl<'a> Cx<'a> {
    pub fn new(p: &'a Prog, f: &'a Field, b: &'a dyn Builtins) -> Self {
        Cx { p, f, b, hints: Default::default(), constraints: Default::default(), components: Default::default(), hook: None, collect: false, failed: Default::default(), raw: Default::default(), within: Default::default() }
    }
    pub fn hint(&self, v: BigUint) -> BigUint {
        let n = *self.hints.borrow();
        *self.hints.borrow_mut() += 1;
        match self.hook.and_then(|h| h(n, &v)) {
            Some(w) => w % &self.f.q,
            None => v,
        }
    }
    /// whether a hook wants a different value for a hint that is an integer, not a field element
    pub fn raw_hint(&self, v: &BigUint) -> BigUint {
        let n = *self.hints.borrow();
        *self.hints.borrow_mut() += 1;
        if self.collect {
            self.raw.borrow_mut().push((n, self.within.borrow().clone()));
        }
        self.hook.and_then(|h| h(n, v)).unwrap_or_else(|| v.clone())
    }
    pub fn require(&self, ok: bool, what: impl FnOnce() -> String) -> Res<()> {
        let n = *self.constraints.borrow();
        *self.constraints.borrow_mut() += 1;
        if ok {
            Ok(())
        } else if self.collect {
            self.failed.borrow_mut().push((n, self.within.borrow().clone()));
            Ok(())
        } else {
            Err(Er::Constraint(what()))
        }
    }
    /// runs the main component; inputs by name, those the circuit does not declare are ignored
    pub fn main(&self, ins: &HashMap<String, Val>) -> Res<HashMap<String, Val>> {
        let (publ, e) = match &self.p.main {
            Some(m) => m,
            None => return bad("no main component"),
        };
        let Ex::Call(name, args) = e else { return bad("main is not a template") };
        let mut fr = Frame { scope: vec![], given: None, comps: vec![], template: false, name: *name, declared: vec![] };
        let args: Vec<Val> = args.iter().map(|a| self.ev(&mut fr, a)).collect::<Res<_>>()?;
        let def = match self.p.templates.get(name) {
            Some(d) => d,
            None => return bad(format!("no template {}", self.p.name(*name))),
        };
        let mut decl = vec![];
        collect_inputs(&def.body, &mut decl);
        for p in publ {
            if !decl.contains(p) {
                return bad(format!("public {} is not an input of the main component", self.p.name(*p)));
            }
        }
        let mut given: Given = vec![];
        for d in &decl {
            match ins.get(self.p.name(*d)) {
                Some(v) => given.push((*d, vec![], v.clone())),
                None => return bad(format!("input {} has no value", self.p.name(*d))),
            }
        }
        let i = Rc::new(RefCell::new(Inst { name: *name, args, given, out: None }));
        self.finish(&i)?;
        let o = i.borrow_mut().out.take().unwrap();
        Ok(o.into_iter().map(|(k, v)| (self.p.name(k).to_string(), v)).collect())
    }
    fn finish(&self, i: &Rc<RefCell<Inst>>) -> Res<()> {
        if i.borrow().out.is_some() {
            return Ok(());
        }
        let (name, args, given) = {
            let mut b = i.borrow_mut();
            (b.name, std::mem::take(&mut b.args), std::mem::take(&mut b.given))
        };
        let out = self.run_component(name, args, given)?;
        i.borrow_mut().out = Some(out);
        Ok(())
    }
    fn run_component(&self, name: Id, args: Vec<Val>, given: Given) -> Res<HashMap<Id, Val>> {
        let n = *self.components.borrow();
        *self.components.borrow_mut() += 1;
        self.within.borrow_mut().push(n);
        let r = self.component(name, args, given);
        self.within.borrow_mut().pop();
        r
    }
    fn component(&self, name: Id, args: Vec<Val>, given: Given) -> Res<HashMap<Id, Val>> {
        let sname = self.p.name(name);
        if let Some(inputs) = self.b.inputs(sname) {
            if !self.p.templates.contains_key(&name) {
                let mut ins = HashMap::new();
                for (n, depth) in inputs {
                    let parts: Vec<_> = given.iter().filter(|g| self.p.name(g.0) == *n).collect();
                    let v = assemble(&parts, *depth).map_err(|e| prefix(e, sname, n))?;
                    ins.insert(*n, v);
                }
                if let Some(g) = given.iter().find(|g| !inputs.iter().any(|i| i.0 == self.p.name(g.0))) {
                    return bad(format!("{sname} has no input {}", self.p.name(g.0)));
                }
                let a: Vec<BigUint> = args.iter().map(|a| a.num().map(|n| n.v.clone())).collect::<Res<_>>()?;
                let out = self.b.run(self, sname, &a, &ins)?;
                return Ok(out
                    .into_iter()
                    .filter_map(|(n, v)| self.p.ids.get(n).map(|i| (*i, v)))
                    .collect());
            }
        }
        let def = match self.p.templates.get(&name) {
            Some(d) => d,
            None => return bad(format!("no template {sname}")),
        };
        if def.params.len() != args.len() {
            return bad(format!("{sname} takes {} parameters", def.params.len()));
        }
        let scope = def.params.iter().copied().zip(args.into_iter().map(Slot::Var)).collect();
        let mut fr = Frame { scope, given: Some(given), comps: vec![], template: true, name, declared: vec![] };
        // the body of a template is a block whose names must outlive it
        let St::Block(body) = &def.body else { return bad("template without a body") };
        for s in body {
            if let Flow::Ret(_) = self.st(&mut fr, s)? {
                return bad("return in a template");
            }
        }
        for c in std::mem::take(&mut fr.comps) {
            self.finish(&c)?;
        }
        if let Some(g) = fr.given.as_ref().unwrap().iter().find(|g| !fr.declared.contains(&g.0)) {
            return bad(format!("{sname} has no input {}", self.p.name(g.0)));
        }
        let mut out = HashMap::new();
        for (n, s) in fr.scope {
            if let Slot::Sig(s) = s {
                if s.kind != Sig::Mid {
                    out.insert(n, read_sig(&s, &[]).map_err(|e| prefix(e, sname, self.p.name(n)))?);
                }
            }
        }
        Ok(out)
    }
    fn find<'f>(&self, fr: &'f mut Frame, n: Id) -> Res<&'f mut Slot> {
        match fr.scope.iter_mut().rev().find(|s| s.0 == n) {
            Some(s) => Ok(&mut s.1),
            None => bad(format!("{} is not declared", self.p.name(n))),
        }
    }
    fn usize(&self, fr: &mut Frame, e: &Ex) -> Res<usize> {
        let v = self.ev(fr, e)?;
        let n = v.num()?;
        if n.d != 0 {
            return bad("an index or size that depends on signals");
        }
        match n.v.to_usize() {
            Some(u) if u < 1 << 28 => Ok(u),
            _ => bad(format!("size or index {}", n.v)),
        }
    }
    fn decl_dims(&self, fr: &mut Frame, d: &[Ex]) -> Res<Vec<usize>> {
        d.iter().map(|e| self.usize(fr, e)).collect()
    }
    fn st(&self, fr: &mut Frame, s: &St) -> Res<Flow> {
        match s {
            St::Nop => {}
            St::Seq(v) => {
                for s in v {
                    if let Flow::Ret(v) = self.st(fr, s)? {
                        return Ok(Flow::Ret(v));
                    }
                }
            }
            St::Block(v) => {
                let n = fr.scope.len();
                for s in v {
                    if let Flow::Ret(v) = self.st(fr, s)? {
                        return Ok(Flow::Ret(v));
                    }
                }
                // signals and components declared inside stay alive with their parent
                let mut i = n;
                while i < fr.scope.len() {
                    if matches!(fr.scope[i].1, Slot::Var(_)) {
                        fr.scope.remove(i);
                    } else {
                        i += 1;
                    }
                }
            }
            St::If(c, a, b) => {
                if self.cond(fr, c)? {
                    return self.st(fr, a);
                } else if let Some(b) = b {
                    return self.st(fr, b);
                }
            }
            St::While(c, b) => {
                let mut n = 0u32;
                while self.cond(fr, c)? {
                    if let Flow::Ret(v) = self.st(fr, b)? {
                        return Ok(Flow::Ret(v));
                    }
                    n += 1;
                    if n > 1 << 22 {
                        return bad("a loop that does not end");
                    }
                }
            }
            St::Ret(e) => return Ok(Flow::Ret(self.ev(fr, e)?)),
            St::Assert(e) => {
                if !self.cond(fr, e)? {
                    return Err(Er::Assert(format!("assert in {}", self.p.name(fr.name))));
                }
            }
            St::Eq(a, b, line) => {
                let (a, b) = (self.ev(fr, a)?, self.ev(fr, b)?);
                let (a, b) = (a.num()?, b.num()?);
                if self.f.op("-", a, b)?.d > 2 {
                    return bad(format!("{} line {line}: a constraint that is not quadratic", self.p.name(fr.name)));
                }
                self.require(a.v == b.v, || format!("{} line {line}", self.p.name(fr.name)))?;
            }
            St::Decl(k, n, d, init) => {
                let dims = self.decl_dims(fr, d)?;
                let total: usize = dims.iter().product();
                match k {
                    Kind::Var => {
                        let v = match init {
                            Some((_, e)) => {
                                let v = self.ev(fr, e)?;
                                if !dims.is_empty() && v.dims() != dims && total > 0 {
                                    return bad(format!("{}: sizes {:?} and {:?}", self.p.name(*n), dims, v.dims()));
                                }
                                v
                            }
                            None => zeros(&dims),
                        };
                        fr.scope.push((*n, Slot::Var(v)));
                    }
                    Kind::Comp => {
                        fr.scope.push((*n, Slot::Comp(CompArr { dims, data: vec![None; total] })));
                        if let Some((_, e)) = init {
                            self.set_comp(fr, *n, &[], e)?;
                        }
                    }
                    Kind::Sig(k) => {
                        if fr.scope.iter().any(|s| s.0 == *n && matches!(s.1, Slot::Sig(_))) {
                            return bad(format!("{} is declared twice", self.p.name(*n)));
                        }
                        let mut a = SigArr { dims, data: vec![None; total], kind: *k };
                        if *k == Sig::In {
                            fr.declared.push(*n);
                            let parts: Vec<_> = fr.given.as_ref().unwrap().iter().filter(|g| g.0 == *n).collect();
                            for (_, ix, v) in parts {
                                put_sig(&mut a, ix, v).map_err(|e| prefix(e, self.p.name(fr.name), self.p.name(*n)))?;
                            }
                            if a.data.iter().any(|x| x.is_none()) {
                                return bad(format!("{}: input {} is not assigned", self.p.name(fr.name), self.p.name(*n)));
                            }
                        }
                        fr.scope.push((*n, Slot::Sig(a)));
                        if let Some((op, e)) = init {
                            self.set(fr, &Acc { name: *n, parts: vec![] }, op, e)?;
                        }
                    }
                }
            }
            St::Set(a, op, e) => self.set(fr, a, op, e)?,
        }
        Ok(Flow::Next)
    }
    fn cond(&self, fr: &mut Frame, e: &Ex) -> Res<bool> {
        let v = self.ev(fr, e)?;
        Ok(!v.num()?.v.is_zero())
    }
    fn set_comp(&self, fr: &mut Frame, n: Id, ix: &[usize], e: &Ex) -> Res<()> {
        let Ex::Call(t, args) = e else { return bad("a component must be a template") };
        let args = args.iter().map(|a| self.ev(fr, a)).collect::<Res<Vec<_>>>()?;
        let i = Rc::new(RefCell::new(Inst { name: *t, args, given: vec![], out: None }));
        fr.comps.push(i.clone());
        if let Slot::Comp(c) = self.find(fr, n)? {
            let (o, below) = index(&c.dims, ix)?;
            if below != 1 || ix.len() != c.dims.len() {
                return bad("a template assigned to an array of components");
            }
            if c.data[o].replace(i).is_some() {
                return bad(format!("component {} is assigned twice", self.p.name(n)));
            }
        }
        Ok(())
    }
    fn set(&self, fr: &mut Frame, a: &Acc, op: &str, e: &Ex) -> Res<()> {
        let mut ix = vec![];
        let mut field: Option<(Id, Vec<usize>)> = None;
        for p in &a.parts {
            match p {
                Part::Ix(e) => {
                    let i = self.usize(fr, e)?;
                    match &mut field {
                        Some(f) => f.1.push(i),
                        None => ix.push(i),
                    }
                }
                Part::Dot(n) => {
                    if field.is_some() {
                        return bad("two dots");
                    }
                    field = Some((*n, vec![]));
                }
            }
        }
        if let Slot::Comp(_) = self.find(fr, a.name)? {
            if field.is_none() {
                if op != "=" {
                    return bad("a component needs =");
                }
                return self.set_comp(fr, a.name, &ix, e);
            }
        }
        let v = self.ev(fr, e)?;
        if op == "<==" {
            quadratic(&v).map_err(|_| {
                Er::Malformed(format!("{}: {} <== is not quadratic", self.p.name(fr.name), self.p.name(a.name)))
            })?;
        }
        let v = if op == "<--" { self.hints_of(v) } else { v };
        let f = self.f;
        let fname = fr.name;
        match self.find(fr, a.name)? {
            Slot::Var(x) => {
                if field.is_some() {
                    return bad("a dot after a variable");
                }
                if op == "<==" || op == "<--" {
                    return bad(format!("{} is a variable", self.p.name(a.name)));
                }
                let mut cur = x;
                for i in ix {
                    cur = match cur {
                        Val::A(v) if i < v.len() => &mut v[i],
                        _ => return bad(format!("index {i} of {}", self.p.name(a.name))),
                    };
                }
                if op == "=" {
                    if let (Val::A(_), Val::N(_)) = (&*cur, &v) {
                        return bad(format!("a number assigned to the array {}", self.p.name(a.name)));
                    }
                    *cur = v;
                } else {
                    let n = f.op(&op[..op.len() - 1], cur.num()?, v.num()?)?;
                    *cur = Val::N(n);
                }
            }
            Slot::Sig(s) => {
                if field.is_some() || !(op == "<==" || op == "<--") {
                    return bad(format!("{} is a signal", self.p.name(a.name)));
                }
                if s.kind == Sig::In {
                    return bad(format!("input {} assigned inside", self.p.name(a.name)));
                }
                put_sig(s, &ix, &v).map_err(|e| prefix(e, self.p.name(fname), self.p.name(a.name)))?;
            }
            Slot::Comp(c) => {
                let (n, fx) = field.unwrap();
                if !(op == "<==" || op == "<--") {
                    return bad(format!("an input of {} needs <==", self.p.name(a.name)));
                }
                let (o, below) = index(&c.dims, &ix)?;
                if below != 1 || ix.len() != c.dims.len() {
                    return bad(format!("{} is an array of components", self.p.name(a.name)));
                }
                let i = match &c.data[o] {
                    Some(i) => i.clone(),
                    None => return bad(format!("component {} is not assigned", self.p.name(a.name))),
                };
                let mut b = i.borrow_mut();
                if b.out.is_some() {
                    return bad(format!("input {}.{} assigned after an output was read", self.p.name(a.name), self.p.name(n)));
                }
                b.given.push((n, fx, v));
            }
        }
        Ok(())
    }
    fn hints_of(&self, v: Val) -> Val {
        match v {
            Val::N(n) => Val::N(Num { v: self.hint(n.v), d: 1 }),
            Val::A(v) => Val::A(v.into_iter().map(|x| self.hints_of(x)).collect()),
        }
    }
    fn call(&self, name: Id, args: Vec<Val>) -> Res<Val> {
        let def = match self.p.functions.get(&name) {
            Some(d) => d,
            None => return bad(format!("no function {}", self.p.name(name))),
        };
        if def.params.len() != args.len() {
            return bad(format!("{} takes {} arguments", self.p.name(name), def.params.len()));
        }
        let scope = def.params.iter().copied().zip(args.into_iter().map(Slot::Var)).collect();
        let mut fr = Frame { scope, given: None, comps: vec![], template: false, name, declared: vec![] };
        match self.st(&mut fr, &def.body)? {
            Flow::Ret(v) => Ok(v),
            Flow::Next => bad(format!("{} does not return", self.p.name(name))),
        }
    }
    fn ev(&self, fr: &mut Frame, e: &Ex) -> Res<Val> {
        Ok(match e {
            Ex::Num(n) => Val::known(if n < &self.f.q { n.clone() } else { n % &self.f.q }),
            Ex::Arr(v) => Val::A(v.iter().map(|x| self.ev(fr, x)).collect::<Res<_>>()?),
            Ex::Un(c, a) => {
                let a = self.ev(fr, a)?;
                let a = a.num()?;
                let d = if a.d == 0 { 0 } else { 3 };
                Val::N(match c {
                    '-' => Num { v: self.f.neg(&a.v), d: a.d },
                    '!' => Num { v: BigUint::from(a.v.is_zero() as u8), d },
                    _ => Num { v: (&self.f.mask ^ &a.v) % &self.f.q, d },
                })
            }
            Ex::Bin(op, a, b) => {
                let (a, b) = (self.ev(fr, a)?, self.ev(fr, b)?);
                Val::N(self.f.op(op, a.num()?, b.num()?)?)
            }
            Ex::Tern(c, a, b) => {
                if self.cond(fr, c)? {
                    self.ev(fr, a)?
                } else {
                    self.ev(fr, b)?
                }
            }
            Ex::Call(n, args) => {
                let args = args.iter().map(|a| self.ev(fr, a)).collect::<Res<Vec<_>>>()?;
                self.call(*n, args)?
            }
            Ex::Anon(t, args, ins) => {
                if !fr.template {
                    return bad("a component in a function");
                }
                let args = args.iter().map(|a| self.ev(fr, a)).collect::<Res<Vec<_>>>()?;
                let names: Vec<Id> = match self.b.inputs(self.p.name(*t)) {
                    Some(v) if !self.p.templates.contains_key(t) => {
                        v.iter().map(|n| self.p.ids.get(n.0).copied().unwrap_or(Id::MAX)).collect()
                    }
                    _ => match self.p.templates.get(t) {
                        Some(d) => {
                            let mut v = vec![];
                            collect_inputs(&d.body, &mut v);
                            v
                        }
                        None => return bad(format!("no template {}", self.p.name(*t))),
                    },
                };
                if names.len() != ins.len() {
                    return bad(format!("{} takes {} inputs", self.p.name(*t), names.len()));
                }
                let mut given = vec![];
                for (n, e) in names.iter().zip(ins) {
                    let v = self.ev(fr, e)?;
                    quadratic(&v)?;
                    given.push((*n, vec![], v));
                }
                let out = self.run_component(*t, args, given)?;
                let ins: Vec<Id> = names;
                let mut o: Vec<_> = out.into_iter().filter(|x| !ins.contains(&x.0)).collect();
                if o.len() != 1 {
                    return bad(format!("{} has {} outputs", self.p.name(*t), o.len()));
                }
                o.pop().unwrap().1
            }
            Ex::Acc(a) => {
                let mut ix = vec![];
                let mut field: Option<(Id, Vec<usize>)> = None;
                for p in &a.parts {
                    match p {
                        Part::Ix(e) => {
                            let i = self.usize(fr, e)?;
                            match &mut field {
                                Some(f) => f.1.push(i),
                                None => ix.push(i),
                            }
                        }
                        Part::Dot(n) => field = Some((*n, vec![])),
                    }
                }
                let fname = fr.name;
                let inst = match self.find(fr, a.name)? {
                    Slot::Var(v) => {
                        if field.is_some() {
                            return bad("a dot after a variable");
                        }
                        let mut cur = &*v;
                        for i in ix {
                            cur = match cur {
                                Val::A(v) if i < v.len() => &v[i],
                                _ => return bad(format!("{}: index {i} of {}", self.p.name(fname), self.p.name(a.name))),
                            };
                        }
                        return Ok(cur.clone());
                    }
                    Slot::Sig(s) => {
                        if field.is_some() {
                            return bad("a dot after a signal");
                        }
                        return read_sig(s, &ix).map_err(|e| prefix(e, self.p.name(fname), self.p.name(a.name)));
                    }
                    Slot::Comp(c) => {
                        let (o, below) = index(&c.dims, &ix)?;
                        if below != 1 || ix.len() != c.dims.len() {
                            return bad(format!("{} is an array of components", self.p.name(a.name)));
                        }
                        match &c.data[o] {
                            Some(i) => i.clone(),
                            None => return bad(format!("component {} is not assigned", self.p.name(a.name))),
                        }
                    }
                };
                let Some((n, fx)) = field else { return bad("a component used as a value") };
                self.finish(&inst)?;
                let b = inst.borrow();
                let mut cur = match b.out.as_ref().unwrap().get(&n) {
                    Some(v) => v,
                    None => return bad(format!("{} has no output {}", self.p.name(b.name), self.p.name(n))),
                };
                for i in fx {
                    cur = match cur {
                        Val::A(v) if i < v.len() => &v[i],
                        _ => return bad(format!("index {i} of {}.{}", self.p.name(a.name), self.p.name(n))),
                    };
                }
                cur.clone()
            }
        })
    }
}

fn prefix(e: Er, a: &str, b: &str) -> Er {
    match e {
        Er::Malformed(m) => Er::Malformed(format!("{a}: {b}: {m}")),
        e => e,
    }
}
fn zeros(d: &[usize]) -> Val {
    if d.is_empty() {
        Val::known(BigUint::zero())
    } else {
        Val::A(vec![zeros(&d[1..]); d[0]])
    }
}
fn quadratic(v: &Val) -> Res<()> {
    match v {
        Val::N(n) if n.d > 2 => bad("not quadratic"),
        Val::N(_) => Ok(()),
        Val::A(v) => v.iter().try_for_each(quadratic),
    }
}
fn collect_inputs(s: &St, out: &mut Vec<Id>) {
    match s {
        St::Decl(Kind::Sig(Sig::In), n, ..) => out.push(*n),
        St::Block(v) | St::Seq(v) => v.iter().for_each(|s| collect_inputs(s, out)),
        _ => {}
    }
}
fn put_sig(a: &mut SigArr, ix: &[usize], v: &Val) -> Res<()> {
    let (o, below) = index(&a.dims, ix)?;
    let d = &a.dims[ix.len()..];
    if !same_shape(d, v) {
        return bad(format!("sizes {:?} and {:?}", d, v.dims()));
    }
    let mut flat = vec![];
    v.flat(&mut flat);
    if flat.len() != below {
        return bad("sizes differ");
    }
    for (i, x) in flat.into_iter().enumerate() {
        if a.data[o + i].replace(x).is_some() {
            return bad("assigned twice");
        }
    }
    Ok(())
}
fn same_shape(d: &[usize], v: &Val) -> bool {
    match v {
        Val::N(_) => d.is_empty(),
        Val::A(v) => !d.is_empty() && v.len() == d[0] && v.iter().all(|x| same_shape(&d[1..], x)),
    }
}
fn read_sig(s: &SigArr, ix: &[usize]) -> Res<Val> {
    let (o, _) = index(&s.dims, ix)?;
    fn go(s: &SigArr, d: &[usize], o: &mut usize) -> Res<Val> {
        if d.is_empty() {
            let v = match &s.data[*o] {
                Some(v) => v.clone(),
                None => return bad("read before it is assigned"),
            };
            *o += 1;
            return Ok(Val::N(Num { v, d: 1 }));
        }
        Ok(Val::A((0..d[0]).map(|_| go(s, &d[1..], o)).collect::<Res<_>>()?))
    }
    let mut o = o;
    go(s, &s.dims[ix.len()..], &mut o)
}
/// the value of a builtin's input from its assignments
fn assemble(parts: &[&(Id, Vec<usize>, Val)], depth: usize) -> Res<Val> {
    if depth == 0 || (parts.len() == 1 && parts[0].1.is_empty()) {
        return match parts {
            [p] if p.1.is_empty() => {
                if p.2.dims().len() != depth {
                    return bad("wrong number of dimensions");
                }
                Ok(p.2.clone())
            }
            [] => bad("not assigned"),
            _ => bad("assigned twice"),
        };
    }
    let mut groups: HashMap<usize, Vec<(Id, Vec<usize>, Val)>> = HashMap::new();
    for p in parts {
        if p.1.is_empty() {
            return bad("assigned twice");
        }
        groups.entry(p.1[0]).or_default().push((p.0, p.1[1..].to_vec(), p.2.clone()));
    }
    let n = groups.len();
    let mut v = vec![];
    for i in 0..n {
        match groups.get(&i) {
            Some(g) => v.push(assemble(&g.iter().collect::<Vec<_>>(), depth - 1)?),
            None => return bad(format!("element {i} is not assigned")),
        }
    }
    Ok(Val::A(v))
}

/// inputs from the JSON a proof is saved as
pub fn from_json(v: &serde_json::Value, f: &Field) -> Res<Val> {
    Ok(match v {
        serde_json::Value::Array(a) => Val::A(a.iter().map(|x| from_json(x, f)).collect::<Res<_>>()?),
        serde_json::Value::String(s) => match s.parse::<BigUint>() {
            Ok(n) => Val::N(Num { v: n % &f.q, d: 1 }),
            Err(_) => return bad(format!("input {s:?} is not a number")),
        },
        serde_json::Value::Number(n) => match n.to_string().parse::<BigUint>() {
            Ok(n) => Val::N(Num { v: n % &f.q, d: 1 }),
            Err(_) => return bad(format!("input {n} is not a number")),
        },
        _ => return bad("an input that is neither number nor array"),
    })
}
