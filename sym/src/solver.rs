//! SMT solver sessions. Linear instances keep one incremental process alive and ask
//! `check-sat-assuming`; non-linear ones send one self-contained script per question.
use crate::poly::{rel_smt, Poly, F};
use crate::rat::Rat;
use std::collections::HashSet;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub type Lit = (u32, u8); // (atom, allowed signs)

pub enum Answer {
    Sat(Option<Vec<Rat>>), // model if every value is a (small enough) rational
    Unsat(Vec<Lit>),       // a subset of the assumptions that is already contradictory
    Unknown,
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub nvars: usize,
    pub linear: bool,
    background: String,
    declared: HashSet<Lit>,
    pub stats: Stats,
}

fn spawn() -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let mut c = Command::new("z3-new")
        .args(["-in", "-smt2"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start z3-new");
    let i = c.stdin.take().unwrap();
    let o = BufReader::new(c.stdout.take().unwrap());
    (c, i, o)
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Solver {
    pub fn new() -> Solver {
        let (child, inp, out) = spawn();
        Solver { child, inp, out, nvars: 0, linear: true, background: String::new(), declared: HashSet::new(), stats: Stats::default() }
    }

    /// Start over with a new set of variables and preconditions.
    pub fn load(&mut self, nvars: usize, background: &[F], linear: bool) {
        self.nvars = nvars;
        self.linear = linear;
        self.declared.clear();
        let mut s = String::new();
        for v in 0..nvars {
            s.push_str(&format!("(declare-const v{v} Real)\n"));
        }
        for f in background {
            s.push_str(&format!("(assert {})\n", f.smt()));
        }
        self.background = s;
        if linear {
            let b = format!("(reset)\n(set-option :produce-unsat-assumptions true)\n(set-option :smt.core.minimize true)\n(set-option :timeout 20000)\n(set-logic QF_LRA)\n{}", self.background);
            self.send(&b);
        }
    }

    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, i, o) = spawn();
        self.child = c;
        self.inp = i;
        self.out = o;
        self.declared.clear();
        if self.linear {
            let b = format!("(set-option :produce-unsat-assumptions true)\n(set-option :smt.core.minimize true)\n(set-option :timeout 20000)\n(set-logic QF_LRA)\n{}", self.background);
            self.send(&b);
        }
    }

    fn send(&mut self, s: &str) {
        let _ = self.inp.write_all(s.as_bytes());
        let _ = self.inp.flush();
    }

    /// Read one s-expression (or one bare token).
    fn recv(&mut self) -> Option<String> {
        let mut acc = String::new();
        let mut depth = 0i32;
        loop {
            let mut line = String::new();
            if self.out.read_line(&mut line).ok()? == 0 {
                return None;
            }
            if line.trim().is_empty() && acc.is_empty() {
                continue;
            }
            for ch in line.chars() {
                match ch {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
            }
            acc.push_str(&line);
            if depth <= 0 {
                return Some(acc.trim().to_string());
            }
        }
    }

    /// Is the background together with all of `lits` satisfiable?
    pub fn check(&mut self, lits: &[Lit], atom: &dyn Fn(u32) -> Poly) -> Answer {
        let t0 = Instant::now();
        let a = if self.linear { self.check_linear(lits, atom) } else { self.check_nonlinear(lits, atom) };
        self.stats.time += t0.elapsed();
        match &a {
            Answer::Sat(_) => self.stats.sat += 1,
            Answer::Unsat(_) => self.stats.unsat += 1,
            Answer::Unknown => {
                self.stats.unknown += 1;
                self.restart();
            }
        }
        a
    }

    fn check_linear(&mut self, lits: &[Lit], atom: &dyn Fn(u32) -> Poly) -> Answer {
        let mut s = String::new();
        for &(a, m) in lits {
            if self.declared.insert((a, m)) {
                s.push_str(&format!("(declare-const b{a}_{m} Bool)\n(assert (=> b{a}_{m} {}))\n", rel_smt(&atom(a).smt(), m)));
            }
        }
        s.push_str("(check-sat-assuming (");
        for &(a, m) in lits {
            s.push_str(&format!(" b{a}_{m}"));
        }
        s.push_str("))\n");
        self.send(&s);
        match self.recv().as_deref() {
            Some("sat") => Answer::Sat(self.model()),
            Some("unsat") => {
                self.send("(get-unsat-assumptions)\n");
                match self.recv() {
                    Some(r) if !r.contains("error") => Answer::Unsat(parse_core(&r)),
                    _ => Answer::Unknown,
                }
            }
            _ => Answer::Unknown,
        }
    }

    /// One process per question: a reset session is several times slower here.
    fn check_nonlinear(&mut self, lits: &[Lit], atom: &dyn Fn(u32) -> Poly) -> Answer {
        let mut s = String::from("(set-option :produce-unsat-cores true)\n(set-option :timeout 60000)\n(set-logic QF_NRA)\n");
        s.push_str(&self.background);
        for &(a, m) in lits {
            s.push_str(&format!("(assert (! {} :named b{a}_{m}))\n", rel_smt(&atom(a).smt(), m)));
        }
        s.push_str("(check-sat)\n");
        let (c, i, o) = spawn();
        let old = (std::mem::replace(&mut self.child, c), std::mem::replace(&mut self.inp, i), std::mem::replace(&mut self.out, o));
        let (mut oc, oi, _) = old;
        drop(oi);
        let _ = oc.kill();
        let _ = oc.wait();
        self.send(&s);
        match self.recv().as_deref() {
            Some("sat") => Answer::Sat(self.model()),
            Some("unsat") => {
                self.send("(get-unsat-core)\n");
                match self.recv() {
                    Some(r) if !r.contains("error") => Answer::Unsat(parse_core(&r)),
                    _ => Answer::Unknown,
                }
            }
            _ => Answer::Unknown,
        }
    }

    fn model(&mut self) -> Option<Vec<Rat>> {
        if self.nvars == 0 {
            return Some(vec![]);
        }
        let vs: Vec<String> = (0..self.nvars).map(|v| format!("v{v}")).collect();
        self.send(&format!("(get-value ({}))\n", vs.join(" ")));
        let r = self.recv()?;
        let toks = tokens(&r);
        let mut p = 0;
        // ((v0 val) (v1 val) ...)
        expect(&toks, &mut p, "(")?;
        let mut out = Vec::with_capacity(self.nvars);
        for _ in 0..self.nvars {
            expect(&toks, &mut p, "(")?;
            p += 1;
            out.push(parse_val(&toks, &mut p)?);
            expect(&toks, &mut p, ")")?;
        }
        Some(out)
    }
}

fn tokens(s: &str) -> Vec<String> {
    s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect()
}
fn expect(t: &[String], p: &mut usize, s: &str) -> Option<()> {
    if t.get(*p)? == s {
        *p += 1;
        Some(())
    } else {
        None
    }
}
fn parse_num(s: &str) -> Option<Rat> {
    let s = s.trim_end_matches('?');
    let (i, f) = s.split_once('.').unwrap_or((s, ""));
    let f = f.trim_end_matches('0');
    let mut d = 1i128;
    for _ in 0..f.len() {
        d = d.checked_mul(10)?;
    }
    let n: i128 = format!("{i}{f}").parse().ok()?;
    if n.unsigned_abs() > 1u128 << 100 || d.unsigned_abs() > 1u128 << 100 {
        return None;
    }
    Some(Rat::new(n, d))
}
fn parse_val(t: &[String], p: &mut usize) -> Option<Rat> {
    if t.get(*p)? != "(" {
        *p += 1;
        return parse_num(&t[*p - 1]);
    }
    *p += 1;
    let op = t.get(*p)?.clone();
    *p += 1;
    let r = match op.as_str() {
        "-" => parse_val(t, p)?.neg(),
        "/" => {
            let a = parse_val(t, p)?;
            let b = parse_val(t, p)?;
            a.mul(b.inv())
        }
        _ => return None, // algebraic number
    };
    expect(t, p, ")")?;
    Some(r)
}
fn parse_core(r: &str) -> Vec<Lit> {
    tokens(r)
        .iter()
        .filter_map(|t| {
            let (a, m) = t.strip_prefix('b')?.split_once('_')?;
            Some((a.parse().ok()?, m.parse().ok()?))
        })
        .collect()
}
