//! The symbolic executor. The real generic code runs with `Sym` coordinates; every
//! comparison it makes becomes a question about the sign of a polynomial in the symbolic
//! inputs, and is answered from the path condition, from a model, or by the solver.
//! Both feasible answers are explored (depth-first, by re-execution).
use crate::poly::*;
use crate::rat::Rat;
use crate::solver::{Answer, Lit, Solver};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// Non-local exits of a symbolic run; never caught by the code under test.
pub enum Stop {
    Fuel,
    Unsupported(String),
    Infeasible,
}

pub fn stop(s: Stop) -> ! {
    std::panic::resume_unwind(Box::new(s))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dec {
    Sign(u32, u8),
    Choice(u32),
}

pub struct Item {
    pub prefix: Vec<Dec>,
    pub models: Vec<u32>,
}

/// Which random draws are explored.
#[derive(Clone, Debug)]
pub enum Orders {
    All,
    List(Vec<Vec<u32>>),
}

#[derive(Default, Clone)]
pub struct Count {
    pub paths: u64,
    pub forks: u64,
    pub decisions: u64,
    pub by_model: u64,
    pub by_lemma: u64,
    pub lemmas: u64,
    pub undecided: u64,
    pub no_witness: u64,
    pub concretised: u64,
}

/// What several threads exploring the same inputs (with different draws) have learnt.
#[derive(Default)]
pub struct Knowledge {
    pub lemmas: Mutex<Vec<Vec<(Poly, u8)>>>,
    pub models: Mutex<Vec<Vec<Rat>>>,
    pub size: AtomicUsize,
}

pub struct Exec {
    shared: Arc<Knowledge>,
    imported: (usize, usize),
    pub solver: Solver,
    nvars: usize,
    background: Vec<F>,
    // arena
    polys: Vec<Poly>,
    poly_ids: HashMap<Poly, u32>,
    syms: Vec<(u32, u32)>,
    sym_ids: HashMap<(u32, u32), u32>,
    ops: HashMap<(u8, u32, u32), u32>,
    atoms: Vec<Poly>,
    atom_ids: HashMap<Poly, u32>,
    atom_of: HashMap<u32, Atom>,
    // knowledge
    models: Vec<Vec<Rat>>,
    signs: Vec<Vec<i8>>, // per model, per atom; 2 = not computed
    lemmas: Vec<Vec<Lit>>,
    lemmas_by_atom: HashMap<u32, Vec<u32>>,
    pub stack: Vec<Item>,
    orders: Orders,
    // current path
    cur: Vec<u8>,
    trail: Vec<u32>,
    prefix: Vec<Dec>,
    taken: Vec<Dec>,
    alive: Vec<u32>,
    pub choices: Vec<u32>,
    drawn: Vec<u32>,
    /// where the choices of the run in progress are noted, in case it takes the process down
    pub journal: Option<(Arc<std::fs::File>, u64, u64)>,
    pub fuel: u64,
    pub fuel_limit: u64,
    pub count: Count,
    pub concretised: bool,
}

#[derive(Clone, Copy)]
enum Atom {
    Const(i8),
    At(u32, bool),
}

thread_local! {
    /// Set while a check (not the library) makes a choice: those are explored in full.
    pub static FREE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
thread_local!(pub static EX: RefCell<Option<Box<Exec>>> = const { RefCell::new(None) });

pub fn with<T>(f: impl FnOnce(&mut Exec) -> T) -> T {
    EX.with(|e| f(e.borrow_mut().as_mut().expect("no symbolic executor on this thread")))
}

const ADD: u8 = 0;
const SUB: u8 = 1;
const MUL: u8 = 2;
const DIV: u8 = 3;

impl Exec {
    pub fn new() -> Exec {
        let mut e = Exec {
            shared: Arc::default(),
            imported: (0, 0),
            solver: Solver::new(),
            nvars: 0,
            background: vec![],
            polys: vec![],
            poly_ids: HashMap::new(),
            syms: vec![],
            sym_ids: HashMap::new(),
            ops: HashMap::new(),
            atoms: vec![],
            atom_ids: HashMap::new(),
            atom_of: HashMap::new(),
            models: vec![],
            signs: vec![],
            lemmas: vec![],
            lemmas_by_atom: HashMap::new(),
            stack: vec![],
            orders: Orders::All,
            cur: vec![],
            trail: vec![],
            prefix: vec![],
            taken: vec![],
            alive: vec![],
            choices: vec![],
            drawn: vec![],
            journal: None,
            fuel: 0,
            fuel_limit: 100_000,
            count: Count::default(),
            concretised: false,
        };
        e.load(0, vec![], true, vec![], Orders::All, Arc::default());
        e
    }

    /// Prepare for a new instance. `seeds` must satisfy the background.
    pub fn load(&mut self, nvars: usize, background: Vec<F>, linear: bool, seeds: Vec<Vec<Rat>>, orders: Orders, shared: Arc<Knowledge>) {
        self.shared = shared;
        self.imported = (0, 0);
        self.solver.load(nvars, &background, linear);
        self.nvars = nvars;
        self.background = background;
        self.polys.clear();
        self.poly_ids.clear();
        self.syms.clear();
        self.sym_ids.clear();
        self.ops.clear();
        self.atoms.clear();
        self.atom_ids.clear();
        self.atom_of.clear();
        self.models.clear();
        self.signs.clear();
        self.lemmas.clear();
        self.lemmas_by_atom.clear();
        self.orders = orders;
        self.cur.clear();
        self.trail.clear();
        self.poly(Poly::constant(Rat::ONE));
        for s in seeds {
            self.add_model(s);
        }
        let mut root: Vec<u32> = (0..self.models.len() as u32).collect();
        if root.is_empty() {
            // Is there anything to explore at all?
            match self.solver.check(&[], &|_| unreachable!()) {
                Answer::Sat(Some(m)) => {
                    self.add_model(m);
                    root.push(0);
                }
                Answer::Sat(None) => {}
                Answer::Unsat(_) => {
                    self.stack.clear();
                    return;
                }
                Answer::Unknown => self.count.undecided += 1,
            }
        }
        self.stack = vec![Item { prefix: vec![], models: root }];
    }

    fn add_model(&mut self, m: Vec<Rat>) -> u32 {
        self.models.push(m);
        self.signs.push(vec![2; self.atoms.len()]);
        self.models.len() as u32 - 1
    }

    pub fn begin(&mut self, it: Item) {
        for &a in &self.trail {
            self.cur[a as usize] = 7;
        }
        self.trail.clear();
        self.prefix = it.prefix;
        self.taken.clear();
        self.alive = it.models;
        self.choices.clear();
        self.drawn.clear();
        self.fuel = 0;
        self.concretised = false;
        self.count.paths += 1;
    }

    /// The concrete input this path is executed for (it satisfies the path condition so far).
    pub fn witness(&self) -> Option<Vec<Rat>> {
        self.alive.first().map(|&m| self.models[m as usize].clone())
    }

    /// The draws this path is committed to before it runs.
    pub fn planned_choices(&self) -> Vec<u32> {
        self.prefix.iter().filter_map(|d| if let Dec::Choice(c) = d { Some(*c) } else { None }).collect()
    }

    pub fn path_condition(&self) -> String {
        self.trail
            .iter()
            .map(|&a| rel_smt(&self.atoms[a as usize].smt(), self.cur[a as usize]))
            .collect::<Vec<_>>()
            .join(" ")
    }

    // ---- arena -------------------------------------------------------------------------
    fn poly(&mut self, p: Poly) -> u32 {
        if let Some(&i) = self.poly_ids.get(&p) {
            return i;
        }
        let i = self.polys.len() as u32;
        self.polys.push(p.clone());
        self.poly_ids.insert(p, i);
        i
    }
    fn sym(&mut self, n: Poly, d: Poly) -> u32 {
        let (n, d) = match d.as_const() {
            Some(c) if c.n != 0 => (n.scale(c.inv()), Poly::constant(Rat::ONE)),
            _ => (n, d),
        };
        let k = (self.poly(n), self.poly(d));
        if let Some(&i) = self.sym_ids.get(&k) {
            return i;
        }
        let i = self.syms.len() as u32;
        self.syms.push(k);
        self.sym_ids.insert(k, i);
        i
    }
    pub fn of_poly(&mut self, p: Poly) -> u32 {
        self.sym(p, Poly::constant(Rat::ONE))
    }
    pub fn constant(&mut self, c: Rat) -> u32 {
        self.of_poly(Poly::constant(c))
    }
    pub fn as_const(&self, s: u32) -> Option<Rat> {
        let (n, d) = self.syms[s as usize];
        if d != 0 { None } else { self.polys[n as usize].as_const() }
    }
    fn op(&mut self, o: u8, a: u32, b: u32) -> u32 {
        if let Some(&r) = self.ops.get(&(o, a, b)) {
            return r;
        }
        let (an, ad) = self.syms[a as usize];
        let (bn, bd) = self.syms[b as usize];
        let (pn, pd, qn, qd) = (&self.polys[an as usize], &self.polys[ad as usize], &self.polys[bn as usize], &self.polys[bd as usize]);
        let (n, d) = match o {
            ADD | SUB => {
                let q = if o == SUB { qn.neg() } else { qn.clone() };
                if ad == bd { (pn.add(&q), pd.clone()) } else { (pn.mul(qd).add(&q.mul(pd)), pd.mul(qd)) }
            }
            MUL => (pn.mul(qn), pd.mul(qd)),
            _ => {
                if qn.as_const().is_some_and(|c| c.n == 0) {
                    stop(Stop::Unsupported("division by zero".into()));
                }
                (pn.mul(qd), pd.mul(qn))
            }
        };
        let r = self.sym(n, d);
        self.ops.insert((o, a, b), r);
        r
    }
    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        self.op(ADD, a, b)
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        self.op(SUB, a, b)
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        self.op(MUL, a, b)
    }
    pub fn div(&mut self, a: u32, b: u32) -> u32 {
        self.op(DIV, a, b)
    }

    fn atom_for(&mut self, poly: u32) -> Atom {
        if let Some(&a) = self.atom_of.get(&poly) {
            return a;
        }
        let p = &self.polys[poly as usize];
        let r = match p.as_const() {
            Some(c) => Atom::Const(c.sign()),
            None => {
                let (q, flip) = p.normalise();
                let id = match self.atom_ids.get(&q) {
                    Some(&i) => i,
                    None => {
                        let i = self.atoms.len() as u32;
                        self.atoms.push(q.clone());
                        self.atom_ids.insert(q, i);
                        self.cur.push(7);
                        for s in &mut self.signs {
                            s.push(2);
                        }
                        i
                    }
                };
                Atom::At(id, flip)
            }
        };
        self.atom_of.insert(poly, r);
        r
    }

    /// One more step.
    pub fn burn(&mut self) {
        self.fuel += 1;
        if self.fuel > self.fuel_limit {
            stop(Stop::Fuel);
        }
    }

    // ---- questions ---------------------------------------------------------------------
    /// Is the sign of `s` in `mask`?
    pub fn test(&mut self, s: u32, mask: u8) -> bool {
        self.burn();
        let (n, d) = self.syms[s as usize];
        let mut mask = mask;
        if d != 0 {
            if self.test_poly(d, ZER) {
                stop(Stop::Unsupported("division by zero".into()));
            }
            if self.test_poly(d, NEG) {
                mask = flip_mask(mask);
            }
        }
        self.test_poly(n, mask)
    }

    fn test_poly(&mut self, p: u32, mask: u8) -> bool {
        match self.atom_for(p) {
            Atom::Const(s) => sign_bit(s) & mask != 0,
            Atom::At(a, flip) => self.decide(a, if flip { flip_mask(mask) } else { mask }),
        }
    }

    fn sign_in(&mut self, model: u32, atom: u32) -> Option<i8> {
        let c = self.signs[model as usize][atom as usize];
        if c != 2 {
            return if c == 3 { None } else { Some(c) };
        }
        let p = &self.atoms[atom as usize];
        let m = &self.models[model as usize];
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.eval(m).sign()));
        let v = r.ok();
        self.signs[model as usize][atom as usize] = v.unwrap_or(3);
        v
    }

    fn decide(&mut self, a: u32, mask: u8) -> bool {
        let cur = self.cur[a as usize];
        if cur & mask == cur {
            return true;
        }
        if cur & mask == 0 {
            return false;
        }
        self.count.decisions += 1;
        let (t, f) = (cur & mask, cur & !mask);
        let k = self.taken.len();
        if k < self.prefix.len() {
            let Dec::Sign(pa, pm) = self.prefix[k] else { panic!("executor: re-execution diverged") };
            assert!(pa == a && (pm == t || pm == f), "executor: re-execution diverged");
            self.take(a, pm);
            // the models of an item satisfy its whole prefix already
            return pm == t;
        }
        let (mut mt, mut mf) = (vec![], vec![]);
        for i in 0..self.alive.len() {
            let m = self.alive[i];
            match self.sign_in(m, a) {
                Some(s) if sign_bit(s) & t != 0 => mt.push(m),
                Some(s) if sign_bit(s) & f != 0 => mf.push(m),
                _ => {}
            }
        }
        let had = !mt.is_empty() || !mf.is_empty();
        let lead_t = self.alive.first().map_or(true, |m| !mf.contains(m));
        let ft = if mt.is_empty() { self.feasible(a, t, &mut mt) } else { true };
        let ff = if mf.is_empty() { self.feasible(a, f, &mut mf) } else { true };
        let go_t = match (ft, ff) {
            (true, false) => true,
            (false, true) => false,
            (false, false) => stop(Stop::Infeasible),
            (true, true) => {
                let go_t = if had { lead_t && !mt.is_empty() } else { !mt.is_empty() || mf.is_empty() };
                self.count.forks += 1;
                let mut p = self.taken.clone();
                p.push(Dec::Sign(a, if go_t { f } else { t }));
                self.stack.push(Item { prefix: p, models: if go_t { std::mem::take(&mut mf) } else { std::mem::take(&mut mt) } });
                go_t
            }
        };
        self.alive = if go_t { mt } else { mf };
        self.take(a, if go_t { t } else { f });
        go_t
    }

    fn take(&mut self, a: u32, m: u8) {
        if self.cur[a as usize] == 7 {
            self.trail.push(a);
        }
        self.cur[a as usize] = m;
        self.taken.push(Dec::Sign(a, m));
    }

    /// Does something already learnt answer the question?
    fn known(&mut self, a: u32, m: u8, models: &mut Vec<u32>) -> Option<bool> {
        if let Some(ls) = self.lemmas_by_atom.get(&a) {
            for &l in ls {
                let hit = self.lemmas[l as usize].iter().all(|&(b, bm)| {
                    let c = if b == a { m } else { self.cur[b as usize] };
                    c & bm == c
                });
                if hit {
                    self.count.by_lemma += 1;
                    return Some(false);
                }
            }
        }
        // any known model that fits the path?
        let trail = self.trail.clone();
        let lo = self.models.len().saturating_sub(4000);
        for i in (lo..self.models.len()).rev() {
            let i = i as u32;
            if self.sign_in(i, a).map_or(true, |s| sign_bit(s) & m == 0) {
                continue;
            }
            let mut ok = true;
            for &b in &trail {
                let c = self.cur[b as usize];
                if self.sign_in(i, b).map_or(true, |s| sign_bit(s) & c == 0) {
                    ok = false;
                    break;
                }
            }
            if ok {
                models.push(i);
                self.count.by_model += 1;
                return Some(true);
            }
        }
        None
    }

    fn import(&mut self) -> bool {
        let sh = self.shared.clone();
        if sh.size.load(Ordering::Relaxed) == self.imported.0 + self.imported.1 {
            return false;
        }
        let ls: Vec<_> = sh.lemmas.lock().unwrap()[self.imported.0..].to_vec();
        let ms: Vec<_> = sh.models.lock().unwrap()[self.imported.1..].to_vec();
        self.imported = (self.imported.0 + ls.len(), self.imported.1 + ms.len());
        for l in ls {
            let mut core = vec![];
            for (p, m) in l {
                let k = self.poly(p);
                if let Atom::At(a, _) = self.atom_for(k) {
                    core.push((a, m));
                }
            }
            self.learn(core);
        }
        for m in ms {
            self.add_model(m);
        }
        true
    }

    fn learn(&mut self, core: Vec<Lit>) {
        let id = self.lemmas.len() as u32;
        for &(b, _) in &core {
            self.lemmas_by_atom.entry(b).or_default().push(id);
        }
        self.lemmas.push(core);
    }

    /// Can the current path condition be extended with "sign of a in m"?
    fn feasible(&mut self, a: u32, m: u8, models: &mut Vec<u32>) -> bool {
        if let Some(r) = self.known(a, m, models) {
            return r;
        }
        if self.import() {
            if let Some(r) = self.known(a, m, models) {
                return r;
            }
        }
        let mut lits: Vec<Lit> = self.trail.iter().map(|&b| (b, self.cur[b as usize])).filter(|l| l.0 != a).collect();
        lits.push((a, m));
        let atoms = &self.atoms;
        match self.solver.check(&lits, &|i| atoms[i as usize].clone()) {
            Answer::Sat(Some(v)) => {
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    lits.iter().all(|&(b, bm)| sign_bit(atoms[b as usize].eval(&v).sign()) & bm != 0) && self.background.iter().all(|f| f.eval(&v))
                }));
                match ok {
                    Ok(true) => {
                        {
                            let mut g = self.shared.models.lock().unwrap();
                            g.push(v.clone());
                            self.shared.size.fetch_add(1, Ordering::Relaxed);
                        }
                        let i = self.add_model(v);
                        models.push(i);
                    }
                    Ok(false) => panic!("executor: solver model does not satisfy the query"),
                    Err(_) => {} // arithmetic range: keep the side, without a witness
                }
                true
            }
            Answer::Sat(None) => true,
            Answer::Unsat(core) => {
                self.shared.lemmas.lock().unwrap().push(core.iter().map(|&(b, bm)| (self.atoms[b as usize].clone(), bm)).collect());
                self.shared.size.fetch_add(1, Ordering::Relaxed);
                self.learn(core);
                self.count.lemmas += 1;
                false
            }
            Answer::Unknown => {
                self.count.undecided += 1;
                false
            }
        }
    }

    /// A free choice below `n` (a random draw): every allowed value is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        let k = self.taken.len();
        let free = FREE.with(|f| f.get());
        let c = if k < self.prefix.len() {
            let Dec::Choice(c) = self.prefix[k] else { panic!("executor: re-execution diverged") };
            c
        } else {
            let dom: Vec<u32> = match &self.orders {
                _ if free => (0..n as u32).collect(),
                Orders::All => (0..n as u32).collect(),
                Orders::List(l) => {
                    let mut d: Vec<u32> = l
                        .iter()
                        .filter(|o| o.iter().zip(&self.drawn).all(|(a, b)| a == b))
                        .map(|o| o.get(self.drawn.len()).copied().unwrap_or_else(|| scatter(self.drawn.len())) % n as u32)
                        .collect();
                    d.sort();
                    d.dedup();
                    d
                }
            };
            let c = dom.first().copied().unwrap_or_else(|| scatter(self.drawn.len()) % n as u32);
            for &o in dom.iter().skip(1).rev() {
                self.count.forks += 1;
                let mut p = self.taken.clone();
                p.push(Dec::Choice(o));
                self.stack.push(Item { prefix: p, models: self.alive.clone() });
            }
            c
        };
        self.taken.push(Dec::Choice(c));
        self.choices.push(c);
        if let Some((f, at, end)) = &mut self.journal {
            use std::os::unix::fs::FileExt;
            let t = format!("{c} \n\0");
            if *at + (t.len() as u64) < *end {
                let _ = f.write_at(t.as_bytes(), *at);
                *at += t.len() as u64 - 2;
            }
        }
        if !free {
            self.drawn.push(c);
        }
        c as usize
    }

    /// A concrete value for code that leaves the symbolic domain.
    pub fn concretise(&mut self, s: u32) -> f64 {
        self.concretised = true;
        let (n, d) = self.syms[s as usize];
        match self.alive.first() {
            None => 0.0,
            Some(&m) => self.polys[n as usize].eval(&self.models[m as usize]).to_f64() / self.polys[d as usize].eval(&self.models[m as usize]).to_f64(),
        }
    }
}

/// The k-th draw of a code that draws more often than expected.
fn scatter(k: usize) -> u32 {
    ((k as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33) as u32
}

/// Comparisons a run on n vertices may make: far above what any run that ends needs, even one
/// that takes quadratic time.
pub fn fuel(n: u64) -> u64 {
    100_000 + 3_000 * n + if n > 2_000 { 4 * n * n } else { 0 }
}
