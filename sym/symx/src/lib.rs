//! symx: a small symbolic-execution engine for natively compiled Rust.
//!
//! A symbolic integer is an SMT term over the integers. It travels through the program as a *token*:
//! an ordinary `u256` / `BigUint` / `u128` / `u64` / `u32` bit pattern carrying a magic prefix and a term id.
//! The patched `ethnum` and `num-bigint` crates recognise tokens in every arithmetic and comparison
//! operation and call into this crate, which builds terms. A comparison asks the SMT solver which of its
//! outcomes are consistent with the path condition and forks when both are (depth-first, by re-execution).
//! A property assertion is such a fork: a feasible "false" side is a counterexample, and its model is
//! written out so that the same harness can be re-run on concrete values.
mod num;
mod solver;

use solver::{Sat, Solver};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Mutex, MutexGuard};
use std::time::{Duration, Instant};

pub type Tid = u32;

pub const MAGIC_HI: u128 = 0xd1f3_5a96_c7e8_4b2d_9a61_73c5_e80f_b4d7;
pub const MAGIC_64: u64 = 0xe4c9_718d_a35b_f026;
pub const MAGIC_32: u32 = 0xc5a7_93e1;
pub const MAGIC_16: u32 = 0xd3b9;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Node {
    Const(Vec<u8>), // big endian, no leading zeros
    Var(String),
    Add(Tid, Tid),
    Sub(Tid, Tid),
    Mul(Tid, Tid),
    Div(Tid, Tid),
    Mod(Tid, Tid),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cond {
    Lt(Tid, Tid),
    Le(Tid, Tid),
    Eq(Tid, Tid),
}

#[derive(Clone, Debug)]
struct Decision {
    lit_true: String,
    taken: u64,
    /// alternatives still to explore (values of `taken`)
    todo: Vec<u64>,
    choose: bool,
    /// concretization: the value tried (decimal)
    val: Option<String>,
    /// more than one outcome was feasible
    fork: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Off,
    Symbolic,
    Concrete,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub forks: u64,
    pub checks: u64,
    pub max_depth: usize,
    pub solver_s: f64,
    pub wall_s: f64,
    pub primitive_escapes: u64,
    pub concretized: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub tag: String,
    pub msg: String,
    pub values: BTreeMap<String, String>,
}

struct Global {
    nodes: Vec<Node>,
    index: HashMap<Node, Tid>,
    declared: Vec<bool>,
    solver: Option<Solver>,
    mode: Mode,
    decisions: Vec<Decision>,
    pos: usize,
    names: HashMap<String, u32>,
    values: BTreeMap<String, String>, // concrete mode: name -> decimal
    used_vars: Vec<(String, Tid)>,
    stats: Stats,
    covers: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    fatal: Option<String>,
    trace: Vec<String>,
    deadline: Option<Instant>,
    started: Option<Instant>,
    undecided: Option<String>,
    active: Option<String>,
    exit_hook: Option<fn(&Report)>,
    cleanup: Option<fn()>,
    /// (worker, workers, depth): this process explores the paths whose first `depth` forks hash to it
    split: Option<(u64, u64, usize)>,
    foreign: bool,
    base_decls: usize,
    base_queries: u64,
    /// messages known to trap on this path: (message number, decisions consumed before it, and after it)
    traps: Vec<(u64, usize, usize)>,
    restart: bool,
}

static GLOBAL: Mutex<Option<Global>> = Mutex::new(None);

thread_local! {
    static RAW: Cell<u32> = const { Cell::new(0) };
    static ALLOW: Cell<bool> = const { Cell::new(false) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
}

/// Panic payload: the current path is infeasible or ended on purpose.
pub struct PathKill;

fn global() -> MutexGuard<'static, Option<Global>> {
    GLOBAL.lock().unwrap_or_else(|e| e.into_inner())
}

fn with<R>(f: impl FnOnce(&mut Global) -> R) -> R {
    let mut g = global();
    f(g.get_or_insert_with(|| Global {
        nodes: vec![],
        index: HashMap::new(),
        declared: vec![],
        solver: None,
        mode: Mode::Off,
        decisions: vec![],
        pos: 0,
        names: HashMap::new(),
        values: BTreeMap::new(),
        used_vars: vec![],
        stats: Stats::default(),
        covers: BTreeMap::new(),
        violations: vec![],
        fatal: None,
        trace: vec![],
        deadline: None,
        started: None,
        undecided: None,
        active: None,
        exit_hook: None,
        cleanup: None,
        split: None,
        foreign: false,
        base_decls: 0,
        base_queries: 0,
        traps: vec![],
        restart: false,
    }))
}

/// Is token recognition on for this thread right now?
#[inline]
pub fn enabled() -> bool {
    ACTIVE.with(|a| a.get()) && RAW.with(|r| r.get()) == 0
}

/// Run `f` with token recognition off: tokens are plain numbers inside (serialization layers).
pub fn raw<R>(f: impl FnOnce() -> R) -> R {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            RAW.with(|r| r.set(r.get() - 1));
        }
    }
    RAW.with(|r| r.set(r.get() + 1));
    let _d = D;
    f()
}

/// Stop the whole exploration with an internal error (never a verdict).
pub fn fatal(msg: &str) -> ! {
    with(|g| {
        if g.fatal.is_none() {
            g.fatal = Some(msg.to_string());
        }
    });
    stop_now()
}
/// Stop the exploration early: everything explored so far counts, the rest is undecided.
pub fn undecided(msg: &str) -> ! {
    with(|g| {
        if g.undecided.is_none() {
            g.undecided = Some(msg.to_string());
        }
    });
    stop_now()
}
/// Unwinding out of arbitrary code under test is not safe (destructors), so the report is written from here.
fn stop_now() -> ! {
    if let Some(h) = with(|g| g.exit_hook) {
        let t0 = with(|g| g.started).unwrap_or_else(Instant::now);
        let r = finish(t0, false);
        h(&r);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        extern "C" {
            fn _exit(c: i32) -> !;
        }
        // no destructors: suspended tasks of the code under test would run theirs
        unsafe { _exit(0) }
    }
    std::panic::panic_any(PathKill)
}
/// Explore only a share of the paths.
pub fn set_split(worker: u64, workers: u64, depth: usize) {
    with(|g| g.split = Some((worker, workers, depth)))
}
/// Called with the report when the exploration has to stop in the middle of a path.
pub fn set_exit_hook(h: fn(&Report)) {
    with(|g| g.exit_hook = Some(h))
}
/// Runs at the end of every path, however it ends.
pub fn set_cleanup(f: fn()) {
    with(|g| g.cleanup = Some(f))
}
/// Only assertions with this tag are checked (None: all).
pub fn set_active(tag: Option<&str>) {
    with(|g| g.active = tag.map(|t| t.to_string()))
}
pub fn active(tag: &str) -> bool {
    with(|g| g.active.as_deref().map_or(true, |a| a == tag))
}

impl Global {
    fn intern(&mut self, n: Node) -> Tid {
        if let Some(&t) = self.index.get(&n) {
            return t;
        }
        let t = self.nodes.len() as Tid + 1;
        if t >= 0xffff_0000 {
            self.fatal = Some("term table overflow".into());
        }
        self.nodes.push(n.clone());
        self.declared.push(false);
        self.index.insert(n, t);
        t
    }
    fn node(&self, t: Tid) -> &Node {
        &self.nodes[t as usize - 1]
    }
    fn solver(&mut self) -> &mut Solver {
        if self.solver.is_none() {
            self.solver = Some(Solver::start());
        }
        self.solver.as_mut().unwrap()
    }
    /// SMT-LIB name of a term, declaring/defining it (globally) on first use.
    fn smt(&mut self, t: Tid) -> String {
        // iterative post-order to avoid deep recursion
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.declared[x as usize - 1] {
                continue;
            }
            let n = self.node(x).clone();
            match n {
                Node::Const(_) => {
                    self.declared[x as usize - 1] = true;
                }
                Node::Var(_) => {
                    let line = format!("(declare-const t{x} Int)");
                    self.solver().send(&line);
                    self.declared[x as usize - 1] = true;
                }
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Mod(a, b) => {
                    if !done {
                        stack.push((x, true));
                        stack.push((a, false));
                        stack.push((b, false));
                    } else {
                        let op = match n {
                            Node::Add(..) => "+",
                            Node::Sub(..) => "-",
                            Node::Mul(..) => "*",
                            Node::Div(..) => "div",
                            _ => "mod",
                        };
                        let (sa, sb) = (self.name(a), self.name(b));
                        let line = format!("(define-fun t{x} () Int ({op} {sa} {sb}))");
                        self.solver().send(&line);
                        self.declared[x as usize - 1] = true;
                    }
                }
            }
        }
        self.name(t)
    }
    fn name(&self, t: Tid) -> String {
        match self.node(t) {
            Node::Const(b) => num::be_to_dec(b),
            _ => format!("t{t}"),
        }
    }
    fn cond_smt(&mut self, c: Cond) -> String {
        match c {
            Cond::Lt(a, b) => format!("(< {} {})", self.smt(a), self.smt(b)),
            Cond::Le(a, b) => format!("(<= {} {})", self.smt(a), self.smt(b)),
            Cond::Eq(a, b) => format!("(= {} {})", self.smt(a), self.smt(b)),
        }
    }
    fn query(&mut self, lit: &str) -> Sat {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let r = self.solver().check(lit);
        self.stats.solver_s += t0.elapsed().as_secs_f64();
        match r {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        r
    }
    /// A solver that has seen many terms of abandoned paths is slow: start over with the current path condition.
    fn refresh_solver(&mut self) {
        let n = self.solver.as_ref().map_or(0, |s| s.decls());
        if n < 500 + 2 * self.base_decls && self.stats.queries < self.base_queries + 3000 {
            return;
        }
        self.base_queries = self.stats.queries;
        self.solver = Some(Solver::start());
        self.declared.iter_mut().for_each(|d| *d = false);
        let lits: Vec<String> = self.decisions.iter().map(lit_of).collect();
        for l in lits {
            for w in l.split(|c: char| !c.is_ascii_alphanumeric()) {
                if let Some(t) = w.strip_prefix('t').and_then(|x| x.parse::<Tid>().ok()) {
                    self.smt(t);
                }
            }
            self.solver().push_assert(&l);
        }
        self.base_decls = self.solver().decls();
    }
    fn push_decision(&mut self, mut d: Decision) {
        d.fork = !d.todo.is_empty();
        if self.foreign {
            d.todo.clear();
        } else if let (true, Some((me, total, depth))) = (d.fork, self.split) {
            let before = self.decisions.iter().filter(|x| x.fork).count();
            if before + 1 == depth {
                let mut h = 0xcbf2_9ce4_8422_2325u64;
                for x in self.decisions.iter().filter(|x| x.fork) {
                    h = (h ^ (x.taken + 1)).wrapping_mul(0x100_0000_01b3);
                }
                let mine = |v: u64| {
                    let x = (h ^ (v + 1)).wrapping_mul(0x100_0000_01b3);
                    (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9) >> 33
                };
                let mut all = vec![d.taken];
                all.extend(d.todo.iter().rev());
                all.retain(|v| mine(*v) % total == me);
                if all.is_empty() {
                    self.foreign = true;
                    d.todo.clear();
                } else {
                    d.taken = all.remove(0);
                    all.reverse();
                    d.todo = all;
                }
            }
        }
        let lit = lit_of(&d);
        self.solver().push_assert(&lit);
        self.decisions.push(d);
        self.pos += 1;
        self.stats.max_depth = self.stats.max_depth.max(self.decisions.len());
    }
}

fn lit_of(d: &Decision) -> String {
    if d.choose {
        format!("(= {} {})", d.lit_true, d.taken)
    } else if d.taken == 1 {
        d.lit_true.clone()
    } else {
        format!("(not {})", d.lit_true)
    }
}

// ------------------------------------------------------------------------------------------------
// terms

pub fn konst(be: &[u8]) -> Tid {
    let skip = be.iter().take_while(|b| **b == 0).count();
    with(|g| g.intern(Node::Const(be[skip..].to_vec())))
}
pub fn konst_u128(v: u128) -> Tid {
    konst(&v.to_be_bytes())
}
/// 2^bits
pub fn pow2(bits: usize) -> Tid {
    let mut v = vec![0u8; bits / 8 + 1];
    v[0] = 1 << (bits % 8);
    konst(&v)
}
pub fn add(a: Tid, b: Tid) -> Tid {
    with(|g| g.intern(Node::Add(a, b)))
}
pub fn sub(a: Tid, b: Tid) -> Tid {
    with(|g| g.intern(Node::Sub(a, b)))
}
pub fn mul(a: Tid, b: Tid) -> Tid {
    with(|g| g.intern(Node::Mul(a, b)))
}
pub fn div(a: Tid, b: Tid) -> Tid {
    with(|g| g.intern(Node::Div(a, b)))
}
pub fn modulo(a: Tid, b: Tid) -> Tid {
    with(|g| g.intern(Node::Mod(a, b)))
}

/// Decide a condition on the current path, forking if both outcomes are feasible.
pub fn branch(c: Cond) -> bool {
    // trivial cases
    match c {
        Cond::Lt(a, b) if a == b => return false,
        Cond::Le(a, b) | Cond::Eq(a, b) if a == b => return true,
        _ => {}
    }
    let r = with(|g| {
        if g.mode != Mode::Symbolic {
            return Err("symbolic branch outside symbolic mode".to_string());
        }
        if g.pos < g.decisions.len() {
            let lit = g.cond_smt(c);
            let d = &g.decisions[g.pos];
            if d.lit_true != lit {
                return Err(format!("non-deterministic re-execution: expected {} got {}", d.lit_true, lit));
            }
            let t = d.taken == 1;
            g.pos += 1;
            return Ok(t);
        }
        if g.deadline.is_some_and(|d| Instant::now() > d) {
            return Err("time budget exhausted".to_string());
        }
        let lit = g.cond_smt(c);
        let t = g.query(&lit);
        let f = if t == Sat::Unsat {
            Sat::Sat // the path condition is satisfiable by construction
        } else {
            g.query(&format!("(not {lit})"))
        };
        if t == Sat::Unknown || f == Sat::Unknown {
            return Err(format!("solver returned unknown on {lit}"));
        }
        let (taken, todo) = match (t, f) {
            (Sat::Sat, Sat::Sat) => {
                g.stats.forks += 1;
                (1, vec![0])
            }
            (Sat::Sat, _) => (1, vec![]),
            (_, Sat::Sat) => (0, vec![]),
            _ => return Err("path condition became unsatisfiable".to_string()),
        };
        g.push_decision(Decision { lit_true: lit, taken, todo, choose: false, val: None, fork: false });
        Ok(g.decisions.last().unwrap().taken == 1)
    });
    match r {
        Ok(b) => b,
        Err(e) if e.starts_with("time budget") || e.starts_with("solver returned unknown") => undecided(&e),
        Err(e) => fatal(&e),
    }
}

/// Pick concrete values for a term (at most three, in turn): for operations the engine cannot follow.
/// The exploration is incomplete from then on, and the report says so.
pub fn concretize(t: Tid) -> Vec<u8> {
    for round in 0..3 {
        let r = with(|g| {
            if let Node::Const(b) = g.node(t) {
                return Ok(Some(num::dec_to_be(&num::be_to_dec(b), 32)));
            }
            if g.pos < g.decisions.len() {
                let d = g.decisions[g.pos].clone();
                let Some(v) = d.val else { return Err("non-deterministic re-execution at a concretization".to_string()) };
                g.pos += 1;
                return Ok(if d.taken == 1 { Some(num::dec_to_be(&v, 32)) } else { None });
            }
            g.stats.concretized += 1;
            let tn = g.smt(t);
            let Some(mut v) = g.solver().model(&[tn.clone()]) else { return Err("solver returned unknown on a model".to_string()) };
            let v = v.pop().unwrap();
            let lit = format!("(= {tn} {v})");
            let more = round < 2 && g.query(&format!("(not {lit})")) == Sat::Sat;
            let todo = if more { vec![0] } else { vec![] };
            g.push_decision(Decision { lit_true: lit, taken: 1, todo, choose: false, val: Some(v.clone()), fork: false });
            Ok(if g.decisions.last().unwrap().taken == 1 { Some(num::dec_to_be(&v, 32)) } else { None })
        });
        match r {
            Ok(Some(v)) => return v,
            Ok(None) => continue,
            Err(e) if e.starts_with("solver returned") => undecided(&e),
            Err(e) => fatal(&e),
        }
    }
    fatal("concretization ran out of rounds")
}
fn low_u128(b: &[u8]) -> u128 {
    u128::from_be_bytes(b[b.len() - 16..].try_into().unwrap())
}

/// A named value: in symbolic mode a fresh integer term in `[0, 2^bits)` returned as a 32-byte token;
/// in concrete mode the recorded value (big endian, at least 32 bytes, more if it does not fit).
pub fn fresh(name: &str, bits: usize) -> Vec<u8> {
    let r = with(|g| {
        let n = unique(g, name);
        match g.mode {
            Mode::Concrete => {
                let dec = g.values.get(&n).cloned().unwrap_or_else(|| "0".to_string());
                Ok(num::dec_to_be(&dec, 32))
            }
            Mode::Symbolic => {
                let t = g.intern(Node::Var(n.clone()));
                g.used_vars.push((n, t));
                let hi = {
                    let mut v = vec![0u8; bits / 8 + 1];
                    v[0] = 1 << (bits % 8);
                    num::be_to_dec(&v)
                };
                let tn = g.smt(t);
                let lit = format!("(and (<= 0 {tn}) (< {tn} {hi}))");
                assume_lit(g, lit)?;
                Ok(token256(t).to_vec())
            }
            Mode::Off => Err("fresh outside a run".to_string()),
        }
    });
    match r {
        Ok(v) => v,
        Err(e) => fatal(&e),
    }
}

fn unique(g: &mut Global, name: &str) -> String {
    let c = g.names.entry(name.to_string()).or_insert(0);
    *c += 1;
    if *c == 1 {
        name.to_string()
    } else {
        format!("{name}#{c}")
    }
}

fn assume_lit(g: &mut Global, lit: String) -> Result<(), String> {
    if g.pos < g.decisions.len() {
        if g.decisions[g.pos].lit_true != lit {
            return Err(format!("non-deterministic re-execution: expected {} got {}", g.decisions[g.pos].lit_true, lit));
        }
        g.pos += 1;
    } else {
        g.push_decision(Decision { lit_true: lit, taken: 1, todo: vec![], choose: false, val: None, fork: false });
    }
    Ok(())
}

/// A symbolic choice in `0..n` (every value is explored; the value is part of the path condition).
pub fn choose(name: &str, n: usize) -> usize {
    assert!(n > 0);
    let r = with(|g| {
        let nm = unique(g, name);
        match g.mode {
            Mode::Concrete => {
                let v: usize = g.values.get(&nm).and_then(|s| s.parse().ok()).unwrap_or(0);
                Ok(v.min(n - 1))
            }
            Mode::Symbolic => {
                let t = g.intern(Node::Var(nm.clone()));
                g.used_vars.push((nm, t));
                let tn = g.smt(t);
                if g.pos < g.decisions.len() {
                    let d = &g.decisions[g.pos];
                    if d.lit_true != tn || !d.choose {
                        return Err(format!("non-deterministic re-execution at choice {tn}"));
                    }
                    let v = d.taken as usize;
                    g.pos += 1;
                    return Ok(v);
                }
                if n > 1 {
                    g.stats.forks += 1;
                }
                let todo: Vec<u64> = (1..n as u64).rev().collect();
                g.push_decision(Decision { lit_true: tn, taken: 0, todo, choose: true, val: None, fork: false });
                Ok(g.decisions.last().unwrap().taken as usize)
            }
            Mode::Off => Err("choose outside a run".to_string()),
        }
    });
    match r {
        Ok(v) => v,
        Err(e) => fatal(&e),
    }
}

pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}

/// End the path if the condition does not hold on it.
pub fn assume(b: bool) {
    if !b || with(|g| g.foreign) {
        std::panic::panic_any(PathKill)
    }
}

/// Restrict the path to the values satisfying the condition (no fork); ends the path if there are none.
pub fn assume_cond(c: Cond) {
    let r = with(|g| {
        if g.foreign {
            return Ok(false);
        }
        let lit = g.cond_smt(c);
        if g.pos < g.decisions.len() {
            assume_lit(g, lit)?;
            return Ok(true);
        }
        match g.query(&lit) {
            Sat::Sat => assume_lit(g, lit).map(|_| true),
            Sat::Unsat => Ok(false),
            Sat::Unknown => Err("solver returned unknown on an assumption".to_string()),
        }
    });
    match r {
        Ok(true) => {}
        Ok(false) => std::panic::panic_any(PathKill),
        Err(e) if e.starts_with("solver returned") => undecided(&e),
        Err(e) => fatal(&e),
    }
}

/// Property assertion. `tag` is the property id.
pub fn verify(tag: &str, cond: bool, msg: &str) {
    let kill = with(|g| {
        if g.foreign {
            return true;
        }
        if g.active.as_deref().is_some_and(|a| a != tag) {
            return false;
        }
        g.stats.checks += 1;
        if cond {
            return false;
        }
        record(g, tag, msg);
        true
    });
    if kill {
        std::panic::panic_any(PathKill)
    }
}

fn record(g: &mut Global, tag: &str, msg: &str) {
    let values = if g.mode == Mode::Symbolic {
        let vars = g.used_vars.clone();
        let names: Vec<String> = vars.iter().map(|(_, t)| format!("t{t}")).collect();
        let Some(vals) = g.solver().model(&names) else {
            g.undecided.get_or_insert(format!("no model for a violating path: {msg}"));
            return;
        };
        vars.iter().zip(vals).map(|((n, _), v)| (n.clone(), v)).collect()
    } else {
        g.values.clone()
    };
    g.violations.push(Violation { tag: tag.to_string(), msg: msg.to_string(), values });
}
/// Record a violation without unwinding (for contexts that cannot).
pub fn violation(tag: &str, msg: &str) {
    with(|g| record(g, tag, msg))
}

/// Reachability witness.
pub fn cover(name: &str) {
    with(|g| *g.covers.entry(name.to_string()).or_insert(0) += 1);
}

pub fn note(s: String) {
    with(|g| {
        if g.mode == Mode::Concrete {
            g.trace.push(s)
        }
    });
}

pub fn is_concrete() -> bool {
    with(|g| g.mode == Mode::Concrete)
}

// ------------------------------------------------------------------------------------------------
// tokens

pub fn token_words(t: Tid) -> (u128, u128) {
    (MAGIC_HI, ((MAGIC_64 as u128) << 64) | t as u128)
}
pub fn token256(t: Tid) -> [u8; 32] {
    let (hi, lo) = token_words(t);
    let mut b = [0u8; 32];
    b[..16].copy_from_slice(&hi.to_be_bytes());
    b[16..].copy_from_slice(&lo.to_be_bytes());
    b
}
pub fn token128(t: Tid) -> u128 {
    if !escape() {
        return low_u128(&concretize(t));
    }
    ((MAGIC_64 as u128) << 64) | t as u128
}
pub fn token64(t: Tid) -> u64 {
    if !escape() {
        return low_u128(&concretize(t)) as u64;
    }
    ((MAGIC_32 as u64) << 32) | t as u64
}
pub fn token32(t: Tid) -> u32 {
    if !escape() {
        return low_u128(&concretize(t)) as u32;
    }
    if t > 0xffff {
        fatal("term id does not fit a 32-bit token");
    }
    (MAGIC_16 << 16) | t
}
/// A symbolic value is about to become a primitive integer, on which native arithmetic would not be seen.
/// The value is concretized (and the exploration marked incomplete) unless the harness has declared
/// (by `allow_primitive`) that the code it drives only moves such values around.
fn escape() -> bool {
    if !ALLOW.with(|a| a.get()) {
        return false;
    }
    with(|g| g.stats.primitive_escapes += 1);
    true
}
pub fn allow_primitive(on: bool) {
    ALLOW.with(|a| a.set(on))
}

/// Which term, if any, do these 256 bits denote?
#[inline]
pub fn decode_words(hi: u128, lo: u128) -> Option<Tid> {
    if !enabled() {
        return None;
    }
    let top = (lo >> 64) as u64;
    if hi == MAGIC_HI && top == MAGIC_64 {
        return Some(lo as u32);
    }
    if hi == 0 {
        if top == MAGIC_64 {
            return Some(lo as u32);
        }
        if top == 0 {
            let l = lo as u64;
            if (l >> 32) as u32 == MAGIC_32 {
                return Some(l as u32);
            }
            if (l >> 16) as u32 == MAGIC_16 && l < (1 << 32) {
                return Some((l & 0xffff) as u32);
            }
        }
    }
    None
}

/// Term for 256 bits, token or constant.
pub fn term_words(hi: u128, lo: u128) -> Tid {
    match decode_words(hi, lo) {
        Some(t) => t,
        None => {
            let mut b = [0u8; 32];
            b[..16].copy_from_slice(&hi.to_be_bytes());
            b[16..].copy_from_slice(&lo.to_be_bytes());
            konst(&b)
        }
    }
}

// ------------------------------------------------------------------------------------------------
// exploration

#[derive(Clone, Debug)]
pub struct Report {
    pub stats: Stats,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub fatal: Option<String>,
    pub trace: Vec<String>,
    pub undecided: Option<String>,
    pub complete: bool,
}

/// Position in the decision sequence of the current path.
pub fn position() -> usize {
    with(|g| g.pos)
}
/// The message with this number (which started at `from`) trapped: run the path again, knowing that.
/// On the second run the message is not executed, so that no destructor of its half-executed state runs.
pub fn restart_with_trap(message: u64, from: usize) {
    with(|g| {
        let to = g.pos;
        g.traps.push((message, from, to));
        g.restart = true;
    })
}
/// Is this message known to trap? If so the decisions it took are consumed.
pub fn known_trap(message: u64) -> bool {
    with(|g| match g.traps.iter().find(|t| t.0 == message) {
        Some(&(_, from, to)) => {
            if g.mode == Mode::Symbolic && g.pos != from {
                g.fatal.get_or_insert("non-deterministic re-execution at a trapped message".into());
            }
            g.pos = to.max(g.pos);
            true
        }
        None => false,
    })
}
/// End the path from a place that cannot unwind: the thread is abandoned.
pub fn abandon() -> ! {
    if let Some(tx) = ABANDON.with(|a| a.borrow().clone()) {
        let _ = tx.send(Ok(()));
    }
    loop {
        std::thread::park()
    }
}
thread_local! {
    static ABANDON: std::cell::RefCell<Option<std::sync::mpsc::Sender<Result<(), String>>>> = const { std::cell::RefCell::new(None) };
}

fn run_once(f: fn()) -> Result<(), String> {
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            ABANDON.with(|a| *a.borrow_mut() = Some(tx.clone()));
            let r = run_path(f);
            let _ = tx.send(r);
            true
        })
        .expect("spawn");
    match rx.recv() {
        Ok(r) => {
            if with(|g| g.restart) {
                // the thread may be parked for good
                drop(h);
            } else {
                let _ = h.join();
            }
            r
        }
        Err(_) => Err("thread died".into()),
    }
}
fn run_path(f: fn()) -> Result<(), String> {
    ACTIVE.with(|a| a.set(true));
    let r = std::panic::catch_unwind(f);
    if let Some(c) = with(|g| g.cleanup) {
        c()
    }
    ACTIVE.with(|a| a.set(false));
    match r {
        Ok(()) => Ok(()),
        Err(p) if p.is::<PathKill>() => {
            with(|g| {
                if !g.restart {
                    g.stats.killed += 1
                }
            });
            Ok(())
        }
        Err(p) => Err(p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".to_string())),
    }
}

pub fn explore(f: fn(), budget: Duration, max_violations: usize) -> Report {
    let t0 = Instant::now();
    with(|g| {
        g.mode = Mode::Symbolic;
        g.deadline = Some(t0 + budget);
        g.started = Some(t0);
    });
    let mut complete = false;
    loop {
        with(|g| {
            g.pos = 0;
            g.foreign = false;
            g.names.clear();
            g.used_vars.clear();
            g.restart = false;
        });
        let r = run_once(f);
        let stop = with(|g| {
            if g.restart && g.fatal.is_none() {
                return false;
            }
            g.stats.paths += 1;
            if let Err(e) = r {
                record(g, "*", &format!("unexpected trap: {e}"));
            }
            if g.fatal.is_some() || g.violations.len() >= max_violations {
                return true;
            }
            if t0.elapsed() > budget {
                g.undecided = Some("time budget exhausted".into());
                return true;
            }
            // backtrack
            loop {
                match g.decisions.last_mut() {
                    None => {
                        complete = true;
                        return true;
                    }
                    Some(d) => match d.todo.pop() {
                        Some(v) => {
                            d.taken = v;
                            let lit = lit_of(d);
                            g.solver().pop();
                            g.solver().push_assert(&lit);
                            let i = g.decisions.len() - 1;
                            g.traps.retain(|t| t.2 <= i);
                            g.refresh_solver();
                            return false;
                        }
                        None => {
                            g.decisions.pop();
                            g.solver().pop();
                        }
                    },
                }
            }
        });
        if stop {
            break;
        }
    }
    finish(t0, complete)
}

pub fn replay(f: fn(), values: BTreeMap<String, String>) -> Report {
    let t0 = Instant::now();
    with(|g| {
        g.mode = Mode::Concrete;
        g.values = values;
    });
    loop {
        with(|g| {
            g.pos = 0;
            g.names.clear();
            g.restart = false;
            g.trace.clear();
        });
        let r = run_once(f);
        if with(|g| g.restart) {
            continue;
        }
        if let Err(e) = r {
            with(|g| record(g, "*", &format!("unexpected trap: {e}")));
        }
        break;
    }
    finish(t0, true)
}

fn finish(t0: Instant, complete: bool) -> Report {
    with(|g| {
        g.stats.wall_s = t0.elapsed().as_secs_f64();
        g.solver = None;
        Report {
            stats: g.stats.clone(),
            covers: g.covers.clone(),
            violations: g.violations.clone(),
            fatal: g.fatal.clone(),
            trace: g.trace.clone(),
            undecided: g.undecided.clone(),
            complete: complete && g.fatal.is_none() && g.undecided.is_none() && g.stats.concretized == 0,
        }
    })
}
