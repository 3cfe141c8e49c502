//! An executor for the Solidity source of the deposit contract: the subset of the language such a contract uses.
//! Numbers are BigUint values and may be solver terms; whatever it does not understand is reported as undecided.
use num_bigint::BigUint;
use std::collections::{BTreeMap, BTreeSet};

pub type Adr = [u8; 20];

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(String),
    Str(String),
    P(&'static str),
}
const PUNCT: &[&str] = &[
    "<<=", ">>=", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "**", "<<", ">>", "(", ")", "{", "}", "[", "]",
    ";", ",", ".", "=", "<", ">", "+", "-", "*", "/", "%", "!", "?", ":", "&", "|", "^", "~",
];
fn no(what: &str) -> ! {
    symx::undecided(&format!("Solidity: {what} is not supported"))
}
fn lex(s: &str) -> Vec<Tok> {
    let b: Vec<char> = s.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c.is_alphabetic() || c == '_' || c == '$' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '$') {
                i += 1;
            }
            out.push(Tok::Id(b[st..i].iter().collect()));
        } else if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            out.push(Tok::Num(b[st..i].iter().filter(|c| **c != '_').collect()));
        } else if c == '"' || c == '\'' {
            let st = i + 1;
            i += 1;
            while i < b.len() && b[i] != c {
                i += if b[i] == '\\' { 2 } else { 1 };
            }
            out.push(Tok::Str(b[st..i].iter().collect()));
            i += 1;
        } else {
            let Some(p) = PUNCT.iter().find(|p| p.chars().enumerate().all(|(k, x)| b.get(i + k) == Some(&x))) else { no(&format!("character {c}")) };
            out.push(Tok::P(p));
            i += p.len();
        }
    }
    out
}

#[derive(Clone, Debug)]
enum E {
    Num(String),
    Str(String),
    Id(String),
    Member(Box<E>, String),
    Index(Box<E>, Box<E>),
    /// callee, options, arguments (with names)
    Call(Box<E>, Vec<(String, E)>, Vec<(Option<String>, E)>),
    Un(&'static str, Box<E>),
    Post(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Assign(&'static str, Box<E>, Box<E>),
    Tuple(Vec<Option<E>>),
}
#[derive(Clone, Debug)]
enum S {
    Block(Vec<S>),
    Unchecked(Vec<S>),
    If(E, Box<S>, Option<Box<S>>),
    While(E, Box<S>),
    For(Option<Box<S>>, Option<E>, Option<E>, Box<S>),
    Return(Option<E>),
    Emit(E),
    Revert,
    /// declared variables (None: skipped) and the value
    Let(Vec<Option<(String, String)>>, Option<E>),
    Expr(E),
    /// `_;` in a modifier
    Body,
}
#[derive(Clone, Debug)]
struct Param {
    ty: String,
    name: String,
    indexed: bool,
}
#[derive(Clone, Debug)]
struct Func {
    params: Vec<Param>,
    returns: Vec<Param>,
    words: Vec<(String, Vec<E>)>,
    body: Option<Vec<S>>,
}
#[derive(Clone, Debug)]
struct Event {
    params: Vec<Param>,
    anonymous: bool,
}
#[derive(Clone, Debug, Default)]
struct Contract {
    funcs: BTreeMap<String, Vec<Func>>,
    mods: BTreeMap<String, Func>,
    events: BTreeMap<String, Event>,
    errors: BTreeSet<String>,
    vars: Vec<(String, String, Option<E>)>,
    ctor: Option<Func>,
}

struct P {
    t: Vec<Tok>,
    i: usize,
}
const ELEMENTARY: &[&str] = &["address", "bool", "string", "bytes"];
fn elementary(s: &str) -> bool {
    ELEMENTARY.contains(&s) || bits_of(s).is_some()
}
/// Width of a value type in bits.
fn bits_of(s: &str) -> Option<usize> {
    if s == "uint" {
        return Some(256);
    }
    if s == "address" {
        return Some(160);
    }
    if let Some(k) = s.strip_prefix("uint") {
        return k.parse().ok();
    }
    if let Some(k) = s.strip_prefix("bytes") {
        return k.parse::<usize>().ok().map(|k| 8 * k);
    }
    None
}
impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn at(&self, p: &str) -> bool {
        matches!(self.peek(), Some(Tok::P(q)) if *q == p)
    }
    fn kw(&self, p: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(q)) if q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.at(p) || self.kw(p);
        self.i += r as usize;
        r
    }
    fn need(&mut self, p: &str) {
        if !self.eat(p) {
            no(&format!("{:?} where {p} is expected", self.peek()))
        }
    }
    fn id(&mut self) -> String {
        match self.t.get(self.i).cloned() {
            Some(Tok::Id(s)) => {
                self.i += 1;
                s
            }
            t => no(&format!("{t:?} as a name")),
        }
    }
    fn skip_to(&mut self, p: &str) {
        while !self.eat(p) {
            if self.peek().is_none() {
                no("the end of the file here");
            }
            self.i += 1;
        }
    }
    /// A type name, or None (nothing consumed).
    fn ty(&mut self) -> Option<String> {
        let at = self.i;
        let Some(Tok::Id(mut s)) = self.peek().cloned() else { return None };
        self.i += 1;
        if s == "mapping" {
            if !self.eat("(") {
                self.i = at;
                return None;
            }
            let mut depth = 1;
            while depth > 0 {
                depth += self.at("(") as i32 - self.at(")") as i32;
                self.i += 1;
            }
            return Some("mapping".into());
        }
        if s == "address" {
            self.eat("payable");
        }
        while self.at(".") {
            self.i += 1;
            s = self.id();
        }
        while self.at("[") {
            self.i += 1;
            if !self.at("]") {
                self.i = at;
                return None;
            }
            self.i += 1;
            s += "[]";
        }
        Some(s)
    }
    fn params(&mut self) -> Vec<Param> {
        let mut out = vec![];
        self.need("(");
        while !self.eat(")") {
            let ty = self.ty().unwrap_or_else(|| no("this parameter"));
            let (mut name, mut indexed) = (String::new(), false);
            while let Some(Tok::Id(w)) = self.peek().cloned() {
                self.i += 1;
                match w.as_str() {
                    "indexed" => indexed = true,
                    "memory" | "calldata" | "storage" => {}
                    _ => name = w,
                }
            }
            out.push(Param { ty, name, indexed });
            self.eat(",");
        }
        out
    }
    fn func(&mut self) -> Func {
        let params = self.params();
        let (mut words, mut returns) = (vec![], vec![]);
        loop {
            if self.eat(";") {
                return Func { params, returns, words, body: None };
            }
            if self.at("{") {
                let body = self.block();
                return Func { params, returns, words, body: Some(body) };
            }
            let w = self.id();
            if w == "returns" {
                returns = self.params();
            } else {
                let args = if self.at("(") { self.args().into_iter().map(|a| a.1).collect() } else { vec![] };
                words.push((w, args));
            }
        }
    }
    fn contract(&mut self) -> Contract {
        let mut c = Contract::default();
        self.need("{");
        while !self.eat("}") {
            if self.eat("using") {
                self.skip_to(";");
            } else if self.eat("event") {
                let name = self.id();
                let params = self.params();
                let anonymous = self.eat("anonymous");
                self.need(";");
                c.events.insert(name, Event { params, anonymous });
            } else if self.eat("error") {
                c.errors.insert(self.id());
                self.skip_to(";");
            } else if self.kw("struct") || self.kw("enum") {
                no("a struct or enum");
            } else if self.eat("modifier") {
                let name = self.id();
                let f = if self.at("(") { self.func() } else { Func { params: vec![], returns: vec![], words: vec![], body: Some(self.block()) } };
                c.mods.insert(name, f);
            } else if self.eat("constructor") {
                c.ctor = Some(self.func());
            } else if self.eat("receive") || self.eat("fallback") {
                self.func();
            } else if self.eat("function") {
                let name = self.id();
                let f = self.func();
                c.funcs.entry(name).or_default().push(f);
            } else {
                let ty = self.ty().unwrap_or_else(|| no(&format!("the member at {:?}", self.peek())));
                let mut name = self.id();
                while matches!(name.as_str(), "public" | "private" | "internal" | "immutable" | "constant" | "override") {
                    name = self.id();
                }
                let init = if self.eat("=") { Some(self.expr()) } else { None };
                self.need(";");
                c.vars.push((name, ty, init));
            }
        }
        c
    }
    fn block(&mut self) -> Vec<S> {
        self.need("{");
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.stmt());
        }
        v
    }
    /// `type name` at this position
    fn decl(&mut self) -> Option<(String, String)> {
        let at = self.i;
        if let Some(ty) = self.ty() {
            for w in ["memory", "storage", "calldata"] {
                self.eat(w);
            }
            if let Some(Tok::Id(name)) = self.peek().cloned() {
                self.i += 1;
                return Some((ty, name));
            }
        }
        self.i = at;
        None
    }
    fn stmt(&mut self) -> S {
        if self.at("{") {
            return S::Block(self.block());
        }
        if self.eat(";") {
            return S::Block(vec![]);
        }
        if self.eat("unchecked") {
            return S::Unchecked(self.block());
        }
        if self.eat("if") {
            self.need("(");
            let c = self.expr();
            self.need(")");
            let a = self.stmt();
            let b = if self.eat("else") { Some(Box::new(self.stmt())) } else { None };
            return S::If(c, Box::new(a), b);
        }
        if self.eat("while") {
            self.need("(");
            let c = self.expr();
            self.need(")");
            return S::While(c, Box::new(self.stmt()));
        }
        if self.eat("for") {
            self.need("(");
            let init = if self.eat(";") { None } else { Some(Box::new(self.stmt())) };
            let cond = if self.at(";") { None } else { Some(self.expr()) };
            self.need(";");
            let step = if self.at(")") { None } else { Some(self.expr()) };
            self.need(")");
            return S::For(init, cond, step, Box::new(self.stmt()));
        }
        for w in ["try", "assembly", "do", "break", "continue", "delete"] {
            if self.kw(w) {
                no(w);
            }
        }
        if self.eat("return") {
            let e = if self.at(";") { None } else { Some(self.expr()) };
            self.need(";");
            return S::Return(e);
        }
        if self.eat("emit") {
            let e = self.expr();
            self.need(";");
            return S::Emit(e);
        }
        if self.kw("revert") {
            self.skip_to(";");
            return S::Revert;
        }
        if self.kw("_") {
            self.skip_to(";");
            return S::Body;
        }
        if self.at("(") {
            // (type a, , type b) = value;
            let at = self.i;
            self.i += 1;
            let (mut v, mut ok, mut any) = (vec![], true, false);
            loop {
                if self.eat(",") {
                    v.push(None);
                    continue;
                }
                if self.at(")") {
                    v.push(None);
                    self.i += 1;
                    break;
                }
                match self.decl() {
                    Some(d) => {
                        any = true;
                        v.push(Some(d));
                    }
                    None => {
                        ok = false;
                        break;
                    }
                }
                if self.eat(")") {
                    break;
                }
                if !self.eat(",") {
                    ok = false;
                    break;
                }
            }
            if ok && any && self.eat("=") {
                let e = self.expr();
                self.need(";");
                return S::Let(v, Some(e));
            }
            self.i = at;
        } else {
            let at = self.i;
            if let Some(d) = self.decl() {
                if self.eat("=") {
                    let e = self.expr();
                    self.need(";");
                    return S::Let(vec![Some(d)], Some(e));
                }
                if self.eat(";") {
                    return S::Let(vec![Some(d)], None);
                }
            }
            self.i = at;
        }
        let e = self.expr();
        self.need(";");
        S::Expr(e)
    }
    fn args(&mut self) -> Vec<(Option<String>, E)> {
        let mut v = vec![];
        self.need("(");
        if self.eat("{") {
            while !self.eat("}") {
                let n = self.id();
                self.need(":");
                v.push((Some(n), self.expr()));
                self.eat(",");
            }
            self.need(")");
            return v;
        }
        while !self.eat(")") {
            v.push((None, self.expr()));
            self.eat(",");
        }
        v
    }
    fn expr(&mut self) -> E {
        let l = self.cond();
        for op in ["=", "+=", "-=", "*=", "/=", "%="] {
            if self.at(op) {
                self.i += 1;
                let Some(op) = PUNCT.iter().find(|p| **p == op) else { unreachable!() };
                return E::Assign(op, Box::new(l), Box::new(self.expr()));
            }
        }
        l
    }
    fn cond(&mut self) -> E {
        let c = self.bin(0);
        if self.eat("?") {
            let a = self.expr();
            self.need(":");
            let b = self.expr();
            return E::Cond(Box::new(c), Box::new(a), Box::new(b));
        }
        c
    }
    fn bin(&mut self, level: usize) -> E {
        const LEVELS: &[&[&str]] =
            &[&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"], &["**"]];
        if level == LEVELS.len() {
            return self.unary();
        }
        let mut l = self.bin(level + 1);
        'again: loop {
            for op in LEVELS[level] {
                if self.at(op) {
                    self.i += 1;
                    l = E::Bin(op, Box::new(l), Box::new(self.bin(level + 1)));
                    continue 'again;
                }
            }
            return l;
        }
    }
    fn unary(&mut self) -> E {
        for op in ["!", "-", "~", "++", "--"] {
            if self.at(op) {
                self.i += 1;
                let Some(op) = PUNCT.iter().find(|p| **p == op) else { unreachable!() };
                return E::Un(op, Box::new(self.unary()));
            }
        }
        self.postfix()
    }
    fn postfix(&mut self) -> E {
        let mut e = match self.t.get(self.i).cloned() {
            Some(Tok::Num(n)) => {
                self.i += 1;
                let units = [("wei", "1"), ("gwei", "1000000000"), ("ether", "1000000000000000000"), ("seconds", "1"), ("minutes", "60"), ("hours", "3600"), ("days", "86400")];
                match units.iter().find(|u| self.kw(u.0)) {
                    Some((_, f)) => {
                        self.i += 1;
                        E::Bin("*", Box::new(E::Num(n)), Box::new(E::Num(f.to_string())))
                    }
                    None => E::Num(n),
                }
            }
            Some(Tok::Str(s)) => {
                self.i += 1;
                E::Str(s)
            }
            Some(Tok::Id(s)) => {
                self.i += 1;
                if s == "new" {
                    no("new");
                }
                E::Id(s)
            }
            Some(Tok::P("(")) => {
                self.i += 1;
                let (mut v, mut comma) = (vec![], false);
                loop {
                    if self.eat(")") {
                        if comma {
                            v.push(None);
                        }
                        break;
                    }
                    if self.eat(",") {
                        v.push(None);
                        comma = true;
                        continue;
                    }
                    v.push(Some(self.expr()));
                    comma = false;
                    if self.eat(")") {
                        break;
                    }
                    self.need(",");
                    comma = true;
                }
                if v.len() == 1 {
                    v.remove(0).unwrap()
                } else {
                    E::Tuple(v)
                }
            }
            t => no(&format!("{t:?} in an expression")),
        };
        loop {
            if self.eat(".") {
                e = E::Member(Box::new(e), self.id());
            } else if self.eat("[") {
                let k = self.expr();
                self.need("]");
                e = E::Index(Box::new(e), Box::new(k));
            } else if self.at("(") {
                let a = self.args();
                e = E::Call(Box::new(e), vec![], a);
            } else if self.at("{") && matches!(self.t.get(self.i + 1), Some(Tok::Id(w)) if w == "value" || w == "gas") && self.t.get(self.i + 2) == Some(&Tok::P(":")) {
                self.i += 1;
                let mut o = vec![];
                while !self.eat("}") {
                    let n = self.id();
                    self.need(":");
                    o.push((n, self.expr()));
                    self.eat(",");
                }
                let a = self.args();
                e = E::Call(Box::new(e), o, a);
            } else if self.at("++") || self.at("--") {
                let op = if self.at("++") { "++" } else { "--" };
                self.i += 1;
                e = E::Post(op, Box::new(e));
            } else {
                return e;
            }
        }
    }
}

/// All contracts of the source, with the members of their bases.
fn parse(src: &str) -> BTreeMap<String, Contract> {
    let mut p = P { t: lex(src), i: 0 };
    let mut out: BTreeMap<String, Contract> = BTreeMap::new();
    while p.peek().is_some() {
        if p.eat("pragma") || p.eat("import") || p.eat("using") || p.eat("error") {
            p.skip_to(";");
            continue;
        }
        p.eat("abstract");
        if !(p.eat("contract") || p.eat("interface") || p.eat("library")) {
            no(&format!("{:?} at the top", p.peek()));
        }
        let name = p.id();
        let mut bases = vec![];
        if p.eat("is") {
            while !p.at("{") {
                bases.push(p.id());
                if p.at("(") {
                    no("arguments of a base contract");
                }
                p.eat(",");
            }
        }
        let mut c = p.contract();
        for b in bases {
            let Some(b) = out.get(&b).cloned() else { continue }; // imported
            for (n, fs) in b.funcs {
                let own = c.funcs.entry(n).or_default();
                for f in fs {
                    if !own.iter().any(|o| o.params.len() == f.params.len()) {
                        own.push(f);
                    }
                }
            }
            for (n, m) in b.mods {
                c.mods.entry(n).or_insert(m);
            }
            c.events.extend(b.events);
            c.errors.extend(b.errors);
            c.vars.splice(0..0, b.vars);
            if c.ctor.is_none() {
                c.ctor = b.ctor;
            } else if b.ctor.is_some() {
                no("two constructors");
            }
        }
        out.insert(name, c);
    }
    out
}

// ------------------------------------------------------------------------------------------------ execution

/// How the token contracts behave.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Answer {
    Reverts,
    True,
    False,
    /// succeeds without a return value, as some old tokens do
    Nothing,
}
#[derive(Clone, Debug)]
enum V {
    /// number, width in bits (0: literal)
    W(BigUint, usize),
    B(bool),
    Str,
    /// returned or encoded bytes: the encoded boolean, if any
    Bytes(Option<bool>),
    /// encoded call
    Data(String, Vec<V>),
    Tuple(Vec<V>),
    Map(String),
    /// contract, library or type name
    Name(String),
    This,
    Unit,
}
#[derive(Clone, Debug)]
pub struct Log {
    /// signature of the event as it is hashed (None: anonymous)
    pub signature: Option<String>,
    pub topics: Vec<BigUint>,
    pub data: Vec<BigUint>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Transfer {
    /// None: the native coin
    pub token: Option<Adr>,
    pub from: Adr,
    pub to: Adr,
    pub amount: BigUint,
}
/// Marker of a revert.
#[derive(Debug)]
struct Reverted;
enum Flow {
    Next,
    Return(V),
}
type R<T> = Result<T, Reverted>;

pub struct Chain {
    pub contract: Adr,
    /// the accounts that have code, and what their transfer functions answer
    pub tokens: BTreeMap<Adr, Answer>,
    /// plain accounts: whether they take coins
    pub accepts: bool,
}
pub struct Run<'a> {
    c: &'a Contract,
    all: &'a BTreeMap<String, Contract>,
    chain: &'a Chain,
    vars: BTreeMap<String, (V, usize)>,
    maps: BTreeMap<(String, Vec<u8>), BigUint>,
    sender: Adr,
    value: BigUint,
    /// what the contract holds of this call's coins
    pub held: BigUint,
    pub logs: Vec<Log>,
    pub moved: Vec<Transfer>,
    scopes: Vec<Vec<(String, String, V)>>,
    unchecked: bool,
    bodies: Vec<(Vec<S>, Vec<(String, Vec<E>)>)>,
    depth: usize,
    /// what the body of a function returned while its modifiers go on
    returned: Option<V>,
}

fn num(x: u64) -> BigUint {
    BigUint::from(x)
}
fn pow2(bits: usize) -> BigUint {
    BigUint::from(1u8) << bits
}
pub fn of_adr(a: &Adr) -> BigUint {
    BigUint::from_bytes_be(a)
}
/// Addresses are concrete.
pub fn to_adr(n: &BigUint) -> Adr {
    let v = n.to_bytes_be();
    let v: Vec<u8> = v.iter().copied().skip_while(|b| *b == 0).collect();
    if v.len() > 20 {
        no("an address of more than 20 bytes");
    }
    let mut o = [0u8; 20];
    o[20 - v.len()..].copy_from_slice(&v);
    o
}
fn zero_of(ty: &str) -> V {
    match ty {
        "bool" => V::B(false),
        "string" => V::Str,
        "bytes" => V::Bytes(None),
        "mapping" => V::Unit,
        _ => V::W(num(0), bits_of(ty).unwrap_or(160)),
    }
}

impl Run<'_> {
    fn lookup(&mut self, name: &str) -> Option<&mut V> {
        let scope = self.scopes.last_mut()?;
        if let Some(k) = scope.iter().rposition(|s| s.1 == name) {
            return Some(&mut scope[k].2);
        }
        self.vars.get_mut(name).map(|v| &mut v.0)
    }
    fn width(&self, name: &str) -> usize {
        if let Some(s) = self.scopes.last().and_then(|s| s.iter().rev().find(|s| s.1 == name)) {
            return bits_of(&s.0).unwrap_or(160);
        }
        self.vars.get(name).map(|v| v.1).unwrap_or(256)
    }
    fn fit(v: V, ty: &str) -> V {
        match (v, bits_of(ty)) {
            (V::W(n, _), b) => V::W(n, b.unwrap_or(160)),
            (v, _) => v,
        }
    }
    fn words(&mut self, f: &Func, body: Vec<S>) -> R<Flow> {
        let mut mods: Vec<_> = f.words.iter().filter(|w| self.c.mods.contains_key(&w.0)).cloned().collect();
        for w in &f.words {
            let known = ["external", "public", "internal", "private", "payable", "view", "pure", "virtual", "override", "nonReentrant"];
            if !known.contains(&w.0.as_str()) && !self.c.mods.contains_key(&w.0) {
                no(&format!("modifier {}", w.0));
            }
        }
        mods.reverse();
        self.layer(body, mods)
    }
    /// Run the remaining modifiers around the body.
    fn layer(&mut self, body: Vec<S>, mut mods: Vec<(String, Vec<E>)>) -> R<Flow> {
        match mods.pop() {
            None => self.block(&body),
            Some((m, args)) => {
                let f = self.c.mods[&m].clone();
                for (p, a) in f.params.iter().zip(&args) {
                    let v = self.eval(a)?;
                    self.declare(&p.ty, &p.name, v);
                }
                self.bodies.push((body, mods));
                let r = self.block(&f.body.unwrap_or_default());
                self.bodies.pop();
                match (r?, self.returned.take()) {
                    (Flow::Next, Some(v)) => Ok(Flow::Return(v)),
                    (f, _) => Ok(f),
                }
            }
        }
    }
    fn declare(&mut self, ty: &str, name: &str, v: V) {
        let v = Self::fit(v, ty);
        self.scopes.last_mut().unwrap().push((ty.into(), name.into(), v));
    }
    fn call(&mut self, f: &Func, args: Vec<V>) -> R<V> {
        self.depth += 1;
        if self.depth > 20 {
            no("deep recursion");
        }
        let Some(body) = f.body.clone() else { no("a function without a body") };
        self.scopes.push(vec![]);
        for (p, a) in f.params.iter().zip(args) {
            self.declare(&p.ty, &p.name, a);
        }
        for p in &f.returns {
            if !p.name.is_empty() {
                self.declare(&p.ty, &p.name, zero_of(&p.ty));
            }
        }
        let unchecked = std::mem::replace(&mut self.unchecked, false);
        let r = self.words(f, body);
        self.unchecked = unchecked;
        let r = match r {
            Ok(Flow::Return(v)) if !matches!(v, V::Unit) => Ok(v),
            Ok(_) => {
                let mut v: Vec<V> = f.returns.iter().map(|p| if p.name.is_empty() { zero_of(&p.ty) } else { self.lookup(&p.name).cloned().unwrap() }).collect();
                Ok(match v.len() {
                    0 => V::Unit,
                    1 => v.remove(0),
                    _ => V::Tuple(v),
                })
            }
            Err(e) => Err(e),
        };
        self.scopes.pop();
        self.depth -= 1;
        r
    }
    fn block(&mut self, b: &[S]) -> R<Flow> {
        let mark = self.scopes.last().unwrap().len();
        let mut out = Flow::Next;
        for s in b {
            if let f @ Flow::Return(_) = self.stmt(s)? {
                out = f;
                break;
            }
        }
        // a value returned by name must survive: named results are declared outside of every block
        self.scopes.last_mut().unwrap().truncate(mark);
        Ok(out)
    }
    fn stmt(&mut self, s: &S) -> R<Flow> {
        match s {
            S::Block(b) => return self.block(b),
            S::Unchecked(b) => {
                let old = std::mem::replace(&mut self.unchecked, true);
                let r = self.block(b);
                self.unchecked = old;
                return r;
            }
            S::If(c, a, b) => {
                if self.truth(c)? {
                    return self.block(std::slice::from_ref(a));
                } else if let Some(b) = b {
                    return self.block(std::slice::from_ref(b));
                }
            }
            S::While(c, b) => {
                for k in 0.. {
                    if k > 64 {
                        no("a long loop");
                    }
                    if !self.truth(c)? {
                        break;
                    }
                    if let f @ Flow::Return(_) = self.block(std::slice::from_ref(b))? {
                        return Ok(f);
                    }
                }
            }
            S::For(i, c, st, b) => {
                let mark = self.scopes.last().unwrap().len();
                if let Some(i) = i {
                    self.stmt(i)?;
                }
                for k in 0.. {
                    if k > 64 {
                        no("a long loop");
                    }
                    if let Some(c) = c {
                        if !self.truth(c)? {
                            break;
                        }
                    }
                    if let f @ Flow::Return(_) = self.block(std::slice::from_ref(b))? {
                        return Ok(f);
                    }
                    if let Some(e) = st {
                        self.eval(e)?;
                    }
                }
                self.scopes.last_mut().unwrap().truncate(mark);
            }
            S::Return(e) => {
                return Ok(Flow::Return(match e {
                    Some(e) => self.eval(e)?,
                    None => V::Unit,
                }))
            }
            S::Emit(e) => {
                let E::Call(f, _, args) = e else { no("this emit") };
                let name = match &**f {
                    E::Id(n) | E::Member(_, n) => n.clone(),
                    _ => no("this emit"),
                };
                let ev = self.c.events.get(&name).cloned().unwrap_or_else(|| no("an event declared elsewhere"));
                let vals = self.args(args, &ev.params)?;
                self.log(&name, &ev, vals);
            }
            S::Revert => return Err(Reverted),
            S::Let(d, e) => match e {
                None => {
                    let (ty, name) = d[0].clone().unwrap();
                    self.declare(&ty, &name, zero_of(&ty));
                }
                Some(e) => {
                    let v = self.eval(e)?;
                    let vs = match v {
                        V::Tuple(vs) if d.len() > 1 => vs,
                        v => vec![v],
                    };
                    if vs.len() != d.len() {
                        no("a tuple of another length");
                    }
                    for (d, v) in d.iter().zip(vs) {
                        if let Some((ty, name)) = d {
                            self.declare(ty, name, v);
                        }
                    }
                }
            },
            S::Expr(e) => {
                self.eval(e)?;
            }
            S::Body => {
                let (b, m) = self.bodies.last().cloned().unwrap_or_else(|| no("_ outside of a modifier"));
                let at = self.bodies.len() - 1;
                let saved = self.bodies.split_off(at);
                let r = self.layer(b, m);
                self.bodies.extend(saved);
                // what follows in the modifier runs after a return of the body too
                if let Flow::Return(v) = r? {
                    self.returned = Some(v);
                }
            }
        }
        Ok(Flow::Next)
    }
    fn args(&mut self, args: &[(Option<String>, E)], params: &[Param]) -> R<Vec<V>> {
        let mut out: Vec<Option<V>> = vec![None; params.len()];
        if args.len() != params.len() {
            no("a call with another number of arguments");
        }
        for (k, (n, e)) in args.iter().enumerate() {
            let k = match n {
                Some(n) => params.iter().position(|p| &p.name == n).unwrap_or_else(|| no("this named argument")),
                None => k,
            };
            let v = self.eval(e)?;
            out[k] = Some(Self::fit(v, &params[k].ty));
        }
        Ok(out.into_iter().map(|v| v.unwrap()).collect())
    }
    fn log(&mut self, name: &str, ev: &Event, vals: Vec<V>) {
        let canonical = |t: &str| match t {
            "uint" => "uint256".to_string(),
            t if elementary(t) => t.to_string(),
            _ => "address".to_string(), // a contract type
        };
        let sig = format!("{name}({})", ev.params.iter().map(|p| canonical(&p.ty)).collect::<Vec<_>>().join(","));
        let (mut topics, mut data) = (vec![], vec![]);
        for (p, v) in ev.params.iter().zip(vals) {
            let w = match v {
                V::W(n, _) => n,
                V::B(b) => num(b as u64),
                V::This => of_adr(&self.chain.contract),
                _ => no("this event parameter"),
            };
            if p.indexed {
                topics.push(w);
            } else {
                data.push(w);
            }
        }
        self.logs.push(Log { signature: (!ev.anonymous).then_some(sig), topics, data });
    }
    fn truth(&mut self, e: &E) -> R<bool> {
        match self.eval(e)? {
            V::B(b) => Ok(b),
            v => no(&format!("{v:?} as a condition")),
        }
    }
    fn word(&mut self, e: &E) -> R<(BigUint, usize)> {
        let v = self.eval(e)?;
        Ok(self.as_word(v))
    }
    fn as_word(&self, v: V) -> (BigUint, usize) {
        match v {
            V::W(n, b) => (n, b),
            V::This => (of_adr(&self.chain.contract), 160),
            v => no(&format!("{v:?} as a number")),
        }
    }
    fn adr(&self, v: V) -> Adr {
        to_adr(&self.as_word(v).0)
    }
    fn checked(&self, op: &str, a: BigUint, b: BigUint, bits: usize) -> R<BigUint> {
        let lim = pow2(if bits == 0 { 256 } else { bits });
        let wrap = self.unchecked;
        Ok(match op {
            "+" | "*" => {
                let r = if op == "+" { a + b } else { a * b };
                if r >= lim {
                    if !wrap {
                        return Err(Reverted);
                    }
                    r % lim
                } else {
                    r
                }
            }
            "-" => {
                if a < b {
                    if !wrap {
                        return Err(Reverted);
                    }
                    a + lim - b
                } else {
                    a - b
                }
            }
            "/" | "%" => {
                if b == num(0) {
                    return Err(Reverted);
                }
                if op == "/" {
                    a / b
                } else {
                    a % b
                }
            }
            _ => no(op),
        })
    }
    fn assign(&mut self, target: &E, v: V) -> R<()> {
        match target {
            E::Id(n) => {
                let bits = self.width(n);
                let slot = self.lookup(n).unwrap_or_else(|| no("an assignment to an unknown name"));
                *slot = match v {
                    V::W(x, _) => V::W(x, bits),
                    v => v,
                };
            }
            E::Index(m, k) => {
                let key = self.key(m, k)?;
                let w = self.as_word(v).0;
                self.maps.insert(key, w);
            }
            E::Tuple(ts) => {
                let V::Tuple(vs) = v else { no("this assignment") };
                for (t, v) in ts.iter().zip(vs) {
                    if let Some(t) = t {
                        self.assign(t, v)?;
                    }
                }
            }
            _ => no("an assignment to this"),
        }
        Ok(())
    }
    fn key(&mut self, m: &E, k: &E) -> R<(String, Vec<u8>)> {
        let name = match m {
            E::Id(n) => n.clone(),
            E::Index(m, k) => {
                let k = self.key(m, k)?;
                format!("{}[{}]", k.0, hex::encode(k.1))
            }
            _ => no("this mapping"),
        };
        let w = self.word(k)?.0;
        Ok((name, w.to_bytes_be()))
    }
    /// A transfer function of a token contract; None: the call reverts.
    fn token_call(&mut self, token: Adr, method: &str, args: &[V]) -> Option<Answer> {
        let ans = *self.chain.tokens.get(&token)?;
        if ans == Answer::Reverts {
            return None;
        }
        let (from, k) = if method == "transferFrom" { (self.adr(args[0].clone()), 1) } else { (self.chain.contract, 0) };
        let to = self.adr(args[k].clone());
        let amount = self.as_word(args[k + 1].clone()).0;
        if ans != Answer::False {
            self.moved.push(Transfer { token: Some(token), from, to, amount });
        }
        Some(ans)
    }
    fn pay(&mut self, to: Adr, v: BigUint) -> bool {
        // the precompiled contracts and plain accounts take coins; the contract itself does not
        if v > self.held || !self.chain.accepts || to == self.chain.contract {
            return false;
        }
        self.held = self.held.clone() - v.clone();
        self.moved.push(Transfer { token: None, from: self.chain.contract, to, amount: v });
        true
    }
    fn method(&mut self, base: V, m: &str, opts: Vec<(String, V)>, args: Vec<V>) -> R<V> {
        if let V::Name(n) = &base {
            // library call: the first argument is the object
            if args.is_empty() {
                no(m);
            }
            if n == "abi" {
                return Ok(self.abi(m, args));
            }
            let mut rest = args.clone();
            let first = rest.remove(0);
            return self.method(first, m, opts, rest);
        }
        let a = self.adr(base);
        let code = self.chain.tokens.contains_key(&a);
        match (m, args.len()) {
            ("call", 1) => {
                let value = opts.iter().find(|o| o.0 == "value").map(|o| self.as_word(o.1.clone()).0);
                match &args[0] {
                    V::Data(f, a2) if f == "transferFrom" || f == "transfer" => {
                        if value.is_some() {
                            no("a token call with coins");
                        }
                        if !code {
                            // nothing runs there
                            return Ok(V::Tuple(vec![V::B(true), V::Bytes(None)]));
                        }
                        let r = self.token_call(a, f, a2);
                        Ok(V::Tuple(match r {
                            None => vec![V::B(false), V::Bytes(None)],
                            Some(Answer::True) => vec![V::B(true), V::Bytes(Some(true))],
                            Some(Answer::False) => vec![V::B(true), V::Bytes(Some(false))],
                            Some(_) => vec![V::B(true), V::Bytes(None)],
                        }))
                    }
                    V::Str | V::Bytes(None) => {
                        let ok = self.pay(a, value.unwrap_or_else(|| num(0)));
                        Ok(V::Tuple(vec![V::B(ok), V::Bytes(None)]))
                    }
                    _ => no("a call with these data"),
                }
            }
            ("transfer", 1) | ("send", 1) | ("sendValue", 1) => {
                let v = self.as_word(args[0].clone()).0;
                let ok = self.pay(a, v);
                if m == "send" {
                    return Ok(V::B(ok));
                }
                if ok {
                    Ok(V::Unit)
                } else {
                    Err(Reverted)
                }
            }
            ("safeTransferFrom", 3) | ("safeTransfer", 2) => {
                let f = if m == "safeTransfer" { "transfer" } else { "transferFrom" };
                match self.token_call(a, f, &args) {
                    Some(Answer::True) | Some(Answer::Nothing) => Ok(V::Unit),
                    _ => Err(Reverted),
                }
            }
            ("transferFrom", 3) | ("transfer", 2) => match self.token_call(a, m, &args) {
                Some(Answer::True) => Ok(V::B(true)),
                Some(Answer::False) => Ok(V::B(false)),
                _ => Err(Reverted),
            },
            _ => no(&format!("the call of {m}")),
        }
    }
    fn abi(&mut self, m: &str, mut args: Vec<V>) -> V {
        match m {
            "encodeWithSelector" | "encodeWithSignature" | "encodeCall" => {
                let V::Data(f, _) = args.remove(0) else { no("this selector") };
                let args = match (m, args.as_slice()) {
                    ("encodeCall", [V::Tuple(v)]) => v.clone(),
                    _ => args,
                };
                V::Data(f, args)
            }
            _ => no(m),
        }
    }
    fn eval(&mut self, e: &E) -> R<V> {
        Ok(match e {
            E::Num(s) => match s.strip_prefix("0x") {
                Some(h) => V::W(BigUint::parse_bytes(h.as_bytes(), 16).unwrap_or_else(|| no(s)), 0),
                None => match s.split_once('e') {
                    Some((a, b)) => V::W(BigUint::parse_bytes(format!("{a}{}", "0".repeat(b.parse().unwrap_or_else(|_| no(s)))).as_bytes(), 10).unwrap_or_else(|| no(s)), 0),
                    None => V::W(BigUint::parse_bytes(s.as_bytes(), 10).unwrap_or_else(|| no(s)), 0),
                },
            },
            E::Str(_) => V::Str,
            E::Id(n) => {
                if let Some(v) = self.lookup(n) {
                    return Ok(match v {
                        V::Unit => V::Map(n.clone()),
                        v => v.clone(),
                    });
                }
                match n.as_str() {
                    "true" => V::B(true),
                    "false" => V::B(false),
                    "this" => V::This,
                    _ => V::Name(n.clone()),
                }
            }
            E::Member(b, m) => match (&**b, m.as_str()) {
                (E::Id(o), "sender") if o == "msg" => V::W(of_adr(&self.sender), 160),
                (E::Id(o), "value") if o == "msg" => V::W(self.value.clone(), 256),
                (E::Id(o), "origin") if o == "tx" => V::W(of_adr(&[0x66; 20]), 160),
                (E::Member(_, f), "selector") => V::Data(f.clone(), vec![]),
                (E::Call(t, _, a), "max") if matches!(&**t, E::Id(x) if x == "type") => {
                    let E::Id(ty) = &a[0].1 else { no("this type") };
                    let b = bits_of(ty).unwrap_or_else(|| no("this type"));
                    V::W(pow2(b) - num(1), b)
                }
                (c, "length") => match c {
                    E::Member(x, code) if code == "code" => {
                        let v = self.eval(x)?;
                        let a = self.adr(v);
                        V::W(num(self.chain.tokens.contains_key(&a) as u64), 256)
                    }
                    _ => match self.eval(c)? {
                        V::Bytes(r) => V::W(num(if r.is_some() { 32 } else { 0 }), 256),
                        _ => no("this length"),
                    },
                },
                (_, "balance") => {
                    let v = self.eval(b)?;
                    if self.adr(v) != self.chain.contract {
                        no("the balance of another account");
                    }
                    V::W(self.held.clone(), 256)
                }
                // IERC20.transferFrom as the first argument of abi.encodeCall
                (E::Id(_), "transferFrom" | "transfer") => V::Data(m.clone(), vec![]),
                _ => no(&format!("member {m}")),
            },
            E::Index(m, k) => {
                let key = self.key(m, k)?;
                V::W(self.maps.get(&key).cloned().unwrap_or_else(|| num(0)), 256)
            }
            E::Tuple(v) => {
                let mut out = vec![];
                for x in v {
                    out.push(match x {
                        Some(x) => self.eval(x)?,
                        None => V::Unit,
                    });
                }
                V::Tuple(out)
            }
            E::Cond(c, a, b) => {
                if self.truth(c)? {
                    self.eval(a)?
                } else {
                    self.eval(b)?
                }
            }
            E::Assign(op, t, v) => {
                let mut v = self.eval(v)?;
                if *op != "=" {
                    let (old, bits) = self.word(t)?;
                    let w = self.as_word(v).0;
                    v = V::W(self.checked(&op[..1], old, w, bits)?, bits);
                }
                self.assign(t, v.clone())?;
                v
            }
            E::Un("!", a) => V::B(!self.truth(a)?),
            E::Un(op, a) | E::Post(op, a) => {
                let (old, bits) = self.word(a)?;
                let new = match *op {
                    "++" => self.checked("+", old.clone(), num(1), bits)?,
                    "--" => self.checked("-", old.clone(), num(1), bits)?,
                    _ => no(op),
                };
                self.assign(a, V::W(new.clone(), bits))?;
                V::W(if matches!(e, E::Post(..)) { old } else { new }, bits)
            }
            E::Bin("&&", a, b) => V::B(self.truth(a)? && self.truth(b)?),
            E::Bin("||", a, b) => V::B(self.truth(a)? || self.truth(b)?),
            E::Bin(op, a, b) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                if let (V::B(x), V::B(y)) = (&x, &y) {
                    return Ok(V::B(match *op {
                        "==" => x == y,
                        "!=" => x != y,
                        _ => no(op),
                    }));
                }
                let ((x, bx), (y, by)) = (self.as_word(x), self.as_word(y));
                let bits = bx.max(by);
                match *op {
                    "==" => V::B(x == y),
                    "!=" => V::B(x != y),
                    "<" => V::B(x < y),
                    ">" => V::B(x > y),
                    "<=" => V::B(x <= y),
                    ">=" => V::B(x >= y),
                    _ => V::W(self.checked(op, x, y, bits)?, bits),
                }
            }
            E::Call(f, opts, args) => {
                let mut o = vec![];
                for (n, e) in opts {
                    let v = self.eval(e)?;
                    o.push((n.clone(), v));
                }
                match &**f {
                    E::Id(n) if n == "require" || n == "assert" => {
                        if !self.truth(&args[0].1)? {
                            return Err(Reverted);
                        }
                        V::Unit
                    }
                    E::Id(n) if n == "revert" => return Err(Reverted),
                    E::Id(n) if n == "payable" || n == "type" => self.eval(&args[0].1)?,
                    E::Id(n) if self.c.funcs.contains_key(n) => {
                        let fs = &self.c.funcs[n];
                        let f = fs.iter().find(|f| f.params.len() == args.len()).cloned().unwrap_or_else(|| no("this call"));
                        let v = self.args(args, &f.params)?;
                        self.call(&f, v)?
                    }
                    // conversions
                    E::Id(n) if n == "address" || bits_of(n).is_some() => {
                        let v = self.eval(&args[0].1)?;
                        let (w, from) = self.as_word(v);
                        let to = bits_of(n).unwrap();
                        let lim = pow2(to);
                        let cut = (from == 0 || from > to) && n != "address" && w >= lim;
                        // a shortened byte string keeps its first bytes, a number its last ones
                        V::W(if !cut { w } else if n.starts_with("bytes") { no("a shortened byte string") } else { w % lim }, to)
                    }
                    E::Id(n) if n == "bytes" || n == "string" || n == "bool" => self.eval(&args[0].1)?,
                    E::Id(n) if n.starts_with(|c: char| c.is_uppercase()) => self.eval(&args[0].1)?,
                    E::Member(b, m) => {
                        if let (E::Id(o), "decode") = (&**b, m.as_str()) {
                            if o == "abi" {
                                return match self.eval(&args[0].1)? {
                                    V::Bytes(Some(b)) => Ok(V::B(b)),
                                    V::Bytes(None) => Err(Reverted),
                                    _ => no("abi.decode of this"),
                                };
                            }
                        }
                        if let (E::Id(o), "encodeWithSignature", Some((_, E::Str(s)))) = (&**b, m.as_str(), args.first()) {
                            if o == "abi" {
                                let mut v = vec![];
                                for a in &args[1..] {
                                    v.push(self.eval(&a.1)?);
                                }
                                let f = match s.as_str() {
                                    "transferFrom(address,address,uint256)" => "transferFrom",
                                    "transfer(address,uint256)" => "transfer",
                                    _ => no(s),
                                };
                                return Ok(V::Data(f.into(), v));
                            }
                        }
                        let base = self.eval(b)?;
                        let mut v = vec![];
                        for a in args {
                            v.push(self.eval(&a.1)?);
                        }
                        // a library of this file
                        if let V::Name(n) = &base {
                            if let Some(f) = self.all.get(n).and_then(|c| c.funcs.get(m)).and_then(|fs| fs.iter().find(|f| f.params.len() == v.len() && f.body.is_some())).cloned() {
                                return self.call(&f, v);
                            }
                        }
                        self.method(base, m, o, v)?
                    }
                    _ => no("this call"),
                }
            }
        })
    }
}

/// What a call did.
pub struct Effect {
    pub logs: Vec<Log>,
    pub moved: Vec<Transfer>,
    pub held: BigUint,
}
pub struct Program {
    all: BTreeMap<String, Contract>,
    name: String,
}
impl Program {
    /// The contract of the sources that has a function `deposit`.
    pub fn new(src: &str) -> Self {
        let all = parse(src);
        let name = all.iter().find(|(_, c)| c.funcs.get("deposit").is_some_and(|f| f.iter().any(|f| f.body.is_some()))).map(|c| c.0.clone());
        let name = name.unwrap_or_else(|| no("a source without a deposit contract"));
        Program { all, name }
    }
    /// Name and parameter types of every function that can be called from outside and may change something.
    pub fn functions(&self) -> Vec<(String, Vec<String>)> {
        let mut v = vec![];
        for (n, fs) in &self.all[&self.name].funcs {
            for f in fs {
                let has = |w: &str| f.words.iter().any(|x| x.0 == w);
                if (has("external") || has("public")) && !has("view") && !has("pure") {
                    v.push((n.clone(), f.params.iter().map(|p| if elementary(&p.ty) { p.ty.clone() } else { "address".into() }).collect()));
                }
            }
        }
        v
    }
    /// Deploy the contract and call one of its functions.
    pub fn call(&self, chain: &Chain, minter: Adr, sender: Adr, value: &BigUint, function: &(String, Vec<String>), args: Vec<BigUint>) -> Option<Effect> {
        let c = &self.all[&self.name];
        let mut r = Run {
            c,
            all: &self.all,
            chain,
            vars: BTreeMap::new(),
            maps: BTreeMap::new(),
            sender,
            value: num(0),
            held: num(0),
            logs: vec![],
            moved: vec![],
            scopes: vec![vec![]],
            unchecked: false,
            bodies: vec![],
            depth: 0,
            returned: None,
        };
        for (name, ty, init) in &c.vars {
            let v = match init {
                Some(e) => Run::fit(r.eval(e).ok()?, ty),
                None => zero_of(ty),
            };
            r.vars.insert(name.clone(), (v, bits_of(ty).unwrap_or(160)));
        }
        if let Some(f) = &c.ctor {
            if f.params.len() != 1 {
                no("a constructor with other parameters");
            }
            r.call(f, vec![V::W(of_adr(&minter), 160)]).ok()?;
        }
        r.value = value.clone();
        r.held = value.clone();
        r.logs.clear();
        r.moved.clear();
        let f = c.funcs[&function.0].iter().find(|f| f.params.len() == function.1.len()).unwrap();
        if !f.words.iter().any(|w| w.0 == "payable") && *value > num(0) {
            return None;
        }
        let args = args.into_iter().zip(&function.1).map(|(a, t)| if t == "bool" { V::B(a > num(0)) } else { V::W(a, bits_of(t).unwrap_or(160)) }).collect();
        r.call(f, args).ok()?;
        Some(Effect { logs: r.logs, moved: r.moved, held: r.held })
    }
}
/// The Solidity sources, as mirrored from the repository.
pub fn source() -> String {
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../contract");
    let mut files: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|f| f.ok()).map(|f| f.path()).collect()).unwrap_or_default();
    files.sort();
    files.iter().filter(|f| f.extension().is_some_and(|e| e == "sol")).map(|f| std::fs::read_to_string(f).unwrap()).collect::<Vec<_>>().join("\n")
}
