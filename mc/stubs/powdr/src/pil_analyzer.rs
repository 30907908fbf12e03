//! A small analyzer for the PIL dialect that compressor12_pil::render emits (and that the harnesses write their
//! circuits in):
//!   let N: int = 2**3;  namespace A(N);  pol constant X, Y[3];  pol commit a[12];
//!   pol name = expr;  pol name[2] = [expr, expr];  public p = a[i](row);  expr = expr;
//!   [sel] {e,..} in [sel] {e,..};  [sel] {e,..} is [sel] {e,..};  e is e;
//!   [e,..] connect [e,..];  {e,..} connect {e,..};  constant %N = 2**3;  include "file"
use crate::ast::analyzed::*;
use crate::number::FieldElement;
use powdr_parser_util::SourceRef;
use std::collections::HashMap;
use std::path::Path;
use std::sync::Arc;

pub fn analyze_file<T: FieldElement>(p: &Path) -> Analyzed<T> {
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p:?}: {e}"));
    analyze(&s, Some(p.to_str().unwrap()))
}
pub fn analyze_string<T: FieldElement>(s: &str) -> Analyzed<T> {
    analyze(s, None)
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Num(String),
    Text(String),
    P(&'static str),
}

/// tokens and their positions
fn lex(s: &str) -> Vec<(T, usize)> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    'o: while i < b.len() {
        let (c, st) = (b[i], i);
        let word = |i: &mut usize| {
            while *i < b.len() && (b[*i].is_ascii_alphanumeric() || b[*i] == b'_') {
                *i += 1;
            }
            s[st..*i].to_string()
        };
        if c.is_ascii_whitespace() {
            i += 1;
        } else if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            out.push((T::Num(word(&mut i)), st));
        } else if c == b'"' {
            let end = i + 1 + s[i + 1..].find('"').expect("pil: unfinished text");
            out.push((T::Text(s[i + 1..end].to_string()), st));
            i = end + 1;
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'%' {
            i += (c == b'%') as usize;
            out.push((T::Id(word(&mut i)), st));
        } else {
            for p in ["**", "(", ")", "[", "]", "{", "}", ",", ";", ":", "=", "+", "-", "*", "'", "."] {
                if s[i..].starts_with(p) {
                    out.push((T::P(p), st));
                    i += p.len();
                    continue 'o;
                }
            }
            panic!("pil: unexpected {:?}", c as char);
        }
    }
    out
}

type Ex<F> = AlgebraicExpression<F>;
type Sel<F> = SelectedExpressions<Ex<F>>;

struct C<F> {
    t: Vec<(T, usize)>,
    i: usize,
    ns: String,
    ints: HashMap<String, u64>,
    next_id: HashMap<PolynomialType, u64>,
    start: usize,
    file: Option<Arc<str>>,
    text: Arc<str>,
    out: Analyzed<F>,
}

fn bin<F>(left: Ex<F>, op: AlgebraicBinaryOperator, right: Ex<F>) -> Ex<F> {
    Ex::BinaryOperation(AlgebraicBinaryOperation { left: left.into(), op, right: right.into() })
}

impl<F: FieldElement> C<F> {
    fn is(&self, p: &str) -> bool {
        matches!(self.t.get(self.i), Some((T::P(q), _)) if *q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.is(p);
        self.i += r as usize;
        r
    }
    fn need(&mut self, p: &str) {
        assert!(self.eat(p), "pil: expected {p} at token {} {:?}", self.i, self.t.get(self.i));
    }
    fn id(&mut self) -> String {
        match self.t.get(self.i) {
            Some((T::Id(s), _)) => {
                self.i += 1;
                s.clone()
            }
            x => panic!("pil: identifier expected, got {x:?}"),
        }
    }
    fn literal(s: &str) -> u64 {
        s.strip_prefix("0x").map_or_else(|| s.parse(), |h| u64::from_str_radix(h, 16)).unwrap_or_else(|e| panic!("pil: {s}: {e}"))
    }
    fn num(&mut self) -> u64 {
        let mut a = self.power();
        loop {
            if self.eat("+") {
                a += self.power();
            } else if self.eat("-") {
                a -= self.power();
            } else {
                return a;
            }
        }
    }
    fn power(&mut self) -> u64 {
        let r = match self.t.get(self.i) {
            Some((T::Num(s), _)) => Self::literal(s),
            Some((T::Id(s), _)) => self.ints[s],
            x => panic!("pil: number expected, got {x:?}"),
        };
        self.i += 1;
        if self.eat("**") {
            let e = self.power();
            return r.pow(e as u32);
        }
        r
    }
    fn kw(&mut self, k: &str) -> bool {
        let r = matches!(self.t.get(self.i), Some((T::Id(s), _)) if s == k);
        self.i += r as usize;
        r
    }
    fn symbol(&self, n: &str) -> Option<&Symbol> {
        let d = &self.out;
        d.definitions.get(n).map(|s| &s.0).or_else(|| d.intermediate_columns.get(n).map(|s| &s.0))
    }
    /// a column, its element and the element's name
    fn column(&mut self) -> (String, PolyID, Option<usize>) {
        let mut n = self.id();
        if self.eat(".") {
            n = format!("{n}.{}", self.id());
        }
        if self.symbol(&n).is_none() {
            n = format!("{}.{n}", self.ns);
        }
        let mut idx = None;
        if self.eat("[") {
            idx = Some(self.num() as usize);
            self.need("]");
        }
        let s = self.symbol(&n).unwrap_or_else(|| panic!("pil: unknown {n}"));
        assert!(idx.is_some() == s.is_array() && idx.unwrap_or(0) < s.length.unwrap_or(1) as usize, "pil: index of {n}");
        (n, PolyID::from(s), idx)
    }
    fn atom(&mut self) -> Ex<F> {
        if self.eat("(") {
            let e = self.expr();
            self.need(")");
            return e;
        }
        if self.eat("-") {
            let expr = self.atom().into();
            return Ex::UnaryOperation(AlgebraicUnaryOperation { op: AlgebraicUnaryOperator::Minus, expr });
        }
        if self.eat(":") {
            let n = self.id();
            assert!(self.out.public_declarations.contains_key(&n), "pil: unknown public {n}");
            return Ex::PublicReference(n);
        }
        if let Some((T::Num(s), _)) = self.t.get(self.i) {
            let v = Self::literal(s).into();
            self.i += 1;
            return Ex::Number(v);
        }
        let (mut name, mut poly_id, idx) = self.column();
        if let Some(i) = idx {
            poly_id.id += i as u64;
            name = format!("{name}[{i}]");
        }
        Ex::Reference(AlgebraicReference { name, poly_id, next: self.eat("'") })
    }
    fn mulexpr(&mut self) -> Ex<F> {
        let mut a = self.atom();
        while self.eat("*") {
            a = bin(a, AlgebraicBinaryOperator::Mul, self.atom());
        }
        a
    }
    fn expr(&mut self) -> Ex<F> {
        let mut a = self.mulexpr();
        loop {
            let op = if self.eat("+") {
                AlgebraicBinaryOperator::Add
            } else if self.eat("-") {
                AlgebraicBinaryOperator::Sub
            } else {
                return a;
            };
            a = bin(a, op, self.mulexpr());
        }
    }
    fn list(&mut self, close: &str) -> Vec<Ex<F>> {
        let mut v = vec![];
        loop {
            v.push(self.expr());
            if self.eat(close) {
                return v;
            }
            self.need(",");
        }
    }
    fn source(&self) -> SourceRef {
        SourceRef { file_name: self.file.clone(), file_contents: Some(self.text.clone()), start: self.start, end: self.start }
    }
    fn symbol_new(&mut self, name: &str, ptype: PolynomialType, length: Option<u64>) -> Symbol {
        let name = format!("{}.{name}", self.ns);
        assert!(self.symbol(&name).is_none(), "pil: {name} declared twice");
        let id = self.next_id.entry(ptype).or_insert(0);
        let s = Symbol { id: *id, source: SourceRef::default(), absolute_name: name.clone(), kind: SymbolKind::Poly(ptype), length };
        *id += length.unwrap_or(1);
        self.out.source_order.push(StatementIdentifier::Definition(name));
        s
    }
    fn identity(&mut self, kind: IdentityKind, left: Sel<F>, right: Sel<F>) {
        let id = self.out.identities.len();
        let source = self.source();
        self.out.identities.push(Identity { id: id as u64, kind, source, left, right });
        self.out.source_order.push(StatementIdentifier::Identity(id));
    }
    fn length(&mut self) -> Option<u64> {
        self.eat("[").then(|| {
            let n = self.num();
            self.need("]");
            n
        })
    }
    fn statement(&mut self) {
        if self.kw("include") {
            let Some((T::Text(f), _)) = self.t.get(self.i).cloned() else { panic!("pil: include what?") };
            self.i += 1;
            self.eat(";");
            let path = Path::new(self.file.as_deref().expect("pil: include")).parent().unwrap().join(f);
            let text = std::fs::read_to_string(&path).unwrap_or_else(|e| panic!("{path:?}: {e}"));
            let file = path.to_str().unwrap().into();
            let old = (std::mem::replace(&mut self.t, lex(&text)), self.i, self.file.replace(file), std::mem::replace(&mut self.text, text.as_str().into()));
            self.i = 0;
            self.all();
            (self.t, self.i, self.file, self.text) = old;
            return;
        } else if self.kw("let") || self.kw("constant") {
            let n = self.id();
            if self.eat(":") {
                self.id();
            }
            self.need("=");
            let v = self.num();
            self.ints.insert(n, v);
        } else if self.kw("namespace") {
            self.ns = self.id();
            self.need("(");
            self.out.degree = self.num();
            self.need(")");
        } else if self.kw("pol") {
            let cm = self.kw("commit");
            if cm || self.kw("constant") {
                loop {
                    let n = self.id();
                    let len = self.length();
                    let s = self.symbol_new(&n, if cm { PolynomialType::Committed } else { PolynomialType::Constant }, len);
                    self.out.definitions.insert(s.absolute_name.clone(), (s, None));
                    if !self.eat(",") {
                        break;
                    }
                }
            } else {
                let n = self.id();
                let len = self.length();
                self.need("=");
                let v = if let Some(l) = len {
                    self.need("[");
                    let v = self.list("]");
                    assert_eq!(v.len() as u64, l);
                    v
                } else {
                    vec![self.expr()]
                };
                let s = self.symbol_new(&n, PolynomialType::Intermediate, len);
                self.out.intermediate_columns.insert(s.absolute_name.clone(), (s, v));
            }
        } else if self.kw("public") {
            let name = self.id();
            self.need("=");
            let (pn, poly_id, array_index) = self.column();
            self.need("(");
            let index = self.num();
            self.need(")");
            let id = self.out.public_declarations.len() as u64;
            let polynomial = PolynomialReference { name: pn, poly_id: Some(poly_id) };
            let d = PublicDeclaration { id, source: self.source(), name: name.clone(), polynomial, array_index, index };
            assert!(self.out.public_declarations.insert(name.clone(), d).is_none(), "pil: {name} declared twice");
            self.out.source_order.push(StatementIdentifier::PublicDeclaration(name));
        } else if self.eat("[") {
            let a = self.list("]");
            assert!(self.kw("connect"));
            self.need("[");
            let b = self.list("]");
            let s = |expressions| SelectedExpressions { selector: None, expressions };
            self.identity(IdentityKind::Connect, s(a), s(b));
        } else {
            let sel = if self.is("{") { None } else { Some(self.expr()) };
            if sel.is_some() && self.kw("is") {
                let one = |e| Sel { selector: None, expressions: vec![e] };
                let right = one(self.expr());
                self.identity(IdentityKind::Permutation, one(sel.unwrap()), right);
            } else if self.eat("{") {
                let left = Sel { selector: sel, expressions: self.list("}") };
                if left.selector.is_none() && self.kw("connect") {
                    self.need("{");
                    let right = Sel { selector: None, expressions: self.list("}") };
                    self.identity(IdentityKind::Connect, left, right);
                    return self.need(";");
                }
                let perm = self.kw("is");
                assert!(perm || self.kw("in"));
                let selector = if self.is("{") { None } else { Some(self.expr()) };
                self.need("{");
                let right = Sel { selector, expressions: self.list("}") };
                self.identity(if perm { IdentityKind::Permutation } else { IdentityKind::Plookup }, left, right);
            } else {
                self.need("=");
                let b = self.expr();
                let a = sel.unwrap();
                let e = if b == Ex::Number(F::from(0u64)) { a } else { bin(a, AlgebraicBinaryOperator::Sub, b) };
                self.identity(IdentityKind::Polynomial, Sel { selector: Some(e), expressions: vec![] }, Sel::default());
            }
        }
        self.need(";");
    }
    fn all(&mut self) {
        while self.i < self.t.len() {
            self.start = self.t[self.i].1;
            self.statement();
        }
    }
}

fn analyze<F: FieldElement>(s: &str, file: Option<&str>) -> Analyzed<F> {
    let mut c: C<F> = C {
        t: lex(s),
        i: 0,
        ns: String::new(),
        ints: HashMap::new(),
        next_id: HashMap::new(),
        start: 0,
        file: file.map(|f| f.into()),
        text: s.into(),
        out: Analyzed::default(),
    };
    c.all();
    c.out
}
