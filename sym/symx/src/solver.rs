//! SMT-LIB pipe to z3, with cvc5 as a second opinion when z3 answers unknown.
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Child,
    stdin: BufWriter<ChildStdin>,
    out: BufReader<ChildStdout>,
    decls: Vec<String>,
    stack: Vec<String>,
}

impl Solver {
    pub fn start() -> Self {
        let bin = std::env::var("SYMX_Z3").unwrap_or_else(|_| "z3-new".to_string());
        let mut child = Command::new(bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("cannot start the solver");
        let stdin = BufWriter::new(child.stdin.take().unwrap());
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver { child, stdin, out, decls: vec![], stack: vec![] };
        s.raw("(set-option :print-success false)");
        s.raw("(set-option :global-declarations true)");
        s.raw("(set-option :timeout 20000)");
        s
    }
    fn raw(&mut self, s: &str) {
        self.stdin.write_all(s.as_bytes()).expect("solver write");
        self.stdin.write_all(b"\n").expect("solver write");
    }
    pub fn send(&mut self, decl: &str) {
        self.decls.push(decl.to_string());
        self.raw(decl);
    }
    pub fn decls(&self) -> usize {
        self.decls.len()
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        self.out.read_line(&mut l).expect("solver read");
        if l.is_empty() {
            panic!("solver died");
        }
        l.trim().to_string()
    }
    pub fn push_assert(&mut self, lit: &str) {
        self.raw("(push 1)");
        let l = format!("(assert {lit})");
        self.raw(&l);
        self.stack.push(lit.to_string());
    }
    pub fn pop(&mut self) {
        self.raw("(pop 1)");
        self.stack.pop();
    }
    pub fn check(&mut self, lit: &str) -> Sat {
        self.raw("(push 1)");
        let l = format!("(assert {lit})");
        self.raw(&l);
        self.raw("(check-sat)");
        self.stdin.flush().ok();
        let r = self.line();
        self.raw("(pop 1)");
        match r.as_str() {
            "sat" => Sat::Sat,
            "unsat" => Sat::Unsat,
            _ => self.second_opinion(lit),
        }
    }
    fn second_opinion(&mut self, lit: &str) -> Sat {
        let mut script = String::from("(set-logic ALL)\n");
        for d in &self.decls {
            script.push_str(d);
            script.push('\n');
        }
        for a in &self.stack {
            script.push_str(&format!("(assert {a})\n"));
        }
        script.push_str(&format!("(assert {lit})\n(check-sat)\n"));
        if let Ok(p) = std::env::var("SYMX_DUMP") {
            let _ = std::fs::write(p, &script);
        }
        for cmd in [
            vec!["cvc5", "--lang=smt2", "--tlimit=20000", "-"],
            vec!["z3", "-in", "-smt2", "-T:20"],
            vec!["z3-new", "-in", "-smt2", "-T:20"],
        ] {
            let Ok(mut c) = Command::new(cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else {
                continue;
            };
            let _ = c.stdin.take().unwrap().write_all(script.as_bytes());
            if let Ok(o) = c.wait_with_output() {
                let o = String::from_utf8_lossy(&o.stdout).to_string();
                match o.lines().next().map(|l| l.trim()) {
                    Some("sat") => return Sat::Sat,
                    Some("unsat") => return Sat::Unsat,
                    _ => {}
                }
            }
        }
        Sat::Unknown
    }
    /// Values of the named constants in a model of the current assertion stack.
    pub fn model(&mut self, names: &[String]) -> Option<Vec<String>> {
        self.raw("(check-sat)");
        self.stdin.flush().ok();
        let r = self.line();
        if r != "sat" {
            return None;
        }
        let mut vals = vec![];
        for n in names {
            let q = format!("(get-value ({n}))");
            self.raw(&q);
            self.stdin.flush().ok();
            let l = self.line(); // ((t1 5))
            let v = l.trim_matches(|c| c == '(' || c == ')').rsplit(' ').next().unwrap_or("0").to_string();
            vals.push(v);
        }
        Some(vals)
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
