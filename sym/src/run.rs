//! Drives the exploration of a property's instances over all cores and reports.
use crate::cases::{self, Input};
use crate::exec::{self, Count, Exec, Orders, EX};
use crate::geom::Inst;
use crate::num::Sym;
use crate::plan;
use crate::replay::{classify, Witness};
use crate::solver::Stats;
use std::cell::RefCell;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Outcome<T> {
    Holds(T),
    Broken(String),
    Other(String),
    /// a panic or a run without end on input that breaks the preconditions
    Excused,
}

thread_local!(static PANIC: RefCell<String> = const { RefCell::new(String::new()) });

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{m} at {l}"));
        // violated preconditions of unchecked operations end the process: say so first
        if std::env::var_os("SYM_PANICS").is_some() || m.contains("unsafe precondition") {
            eprintln!("panic: {m} at {l}");
        }
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

fn choose_hook(n: usize) -> usize {
    exec::with(|e| e.choose(n))
}

#[derive(Default)]
pub struct Tally {
    pub count: Count,
    pub stats: Stats,
    pub instances: u64,
    pub truncated: Vec<String>,
    pub other: Vec<String>,
    pub native_f64: u64,
    pub native_q: u64,
    pub excused: u64,
    pub vacuous: Vec<String>,
    pub samples: Vec<String>,
    pub per_inst: Vec<(String, u64, f64)>,
}

pub struct Found {
    pub witness: Witness,
    pub message: String,
    pub how: String,
    pub inst: String,
}

impl Shared {
    /// Something went wrong with the check itself: go on for a while, a violation may still show.
    fn error(&self, m: String) {
        let mut e = self.errors.lock().unwrap();
        e.push(m);
        if e.len() > 40 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
}

pub struct Shared {
    pub next: AtomicUsize,
    pub stop: AtomicBool,
    pub found: Mutex<Option<Found>>,
    pub errors: Mutex<Vec<String>>,
    pub tally: Mutex<Tally>,
    pub deadline: Instant,
    pub journal: Option<Arc<std::fs::File>>,
    pub skip: Vec<String>,
    /// per thread: start of the run in progress (ms since start; 0 = none)
    pub beat: Vec<AtomicUsize>,
    pub start: Instant,
    /// witnesses picked for the interpreter that looks for undefined behaviour
    pub picked: Option<Mutex<std::io::BufWriter<std::fs::File>>>,
}

const SLOT: u64 = 1 << 20;

fn witness_of(inst: &Inst, v: &[crate::rat::Rat], draws: &[u32]) -> Witness {
    Witness {
        body: inst.body,
        polys: inst.polys.iter().map(|p| p.iter().map(|c| [c.0.eval(v), c.1.eval(v)]).collect()).collect(),
        extra: inst.extra.iter().map(|e| e.eval(v)).collect(),
        draws: draws.iter().map(|&d| d as usize).collect(),
    }
}

fn explore(sh: &Shared, slot: usize, inst: &Inst, t: &mut Tally) {
    let mut rng = 0x9E37u64 ^ (inst.name.len() as u64) << 20;
    let seeds = inst.seeds(&mut rng);
    let t0 = Instant::now();
    let (mut nth, mut pick) = (0u64, 1u64);
    let before = exec::with(|e| {
        e.load(inst.nvars, inst.background.clone(), inst.linear, seeds, inst.orders.clone(), inst.group.clone());
        e.count.paths
    });
    loop {
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
        if Instant::now() > sh.deadline {
            t.truncated.push(inst.name.clone());
            break;
        }
        let Some(item) = exec::with(|e| e.stack.pop()) else { break };
        exec::with(|e| {
            // far above what any run that ends needs
            e.fuel_limit = exec::fuel(inst.polys.iter().map(|p| p.len() as u64).sum());
            e.begin(item)
        });
        let w0 = exec::with(|e| e.witness());
        if let (Some(j), Some(v)) = (&sh.journal, &w0) {
            // the draws are added as they are made
            let w = witness_of(inst, v, &[]).to_text();
            let w = w.strip_suffix("draws \n").unwrap();
            let s = format!("instance {}\n{w}draws \n\0", inst.name);
            let (at, end) = (slot as u64 * SLOT, (slot as u64 + 1) * SLOT);
            if s.len() >= SLOT as usize {
                let _ = j.write_at(b"\0", at);
            } else {
                let _ = j.write_at(s.as_bytes(), at);
                exec::with(|e| e.journal = Some((j.clone(), at + s.len() as u64 - 2, end)));
            }
        }
        sh.beat[slot].store(sh.start.elapsed().as_millis() as usize + 1, Ordering::Relaxed);
        let inp = Input {
            polys: inst.polys.iter().map(|p| p.iter().map(|c| exec::with(|e| [Sym(e.of_poly(c.0.clone())), Sym(e.of_poly(c.1.clone()))])).collect()).collect(),
            extra: inst.extra.iter().map(|x| Sym(exec::with(|e| e.of_poly(x.clone())))).collect(),
        };
        rand::verif::install_hook(choose_hook, 1);
        let r = catch_unwind(AssertUnwindSafe(|| cases::run(inst.body, &inp)));
        rand::verif::remove();
        let r = classify(inst.body, r);
        let (wit, draws, concretised) = exec::with(|e| (e.witness(), e.choices.clone(), e.concretised));
        let w = wit.as_ref().map(|v| witness_of(inst, v, &draws));
        if w.is_none() {
            t.count.no_witness += 1;
        }
        nth += 1;
        if nth == pick {
            pick = 3 * pick + 1;
            if let (Some(f), Some(w)) = (&sh.picked, &w) {
                if w.polys.iter().map(|p| p.len()).sum::<usize>() < 20 {
                    use std::io::Write;
                    let _ = f.lock().unwrap().write_all(format!("instance {}\n{}\n", inst.name, w.to_text()).as_bytes());
                }
            }
        }
        if concretised {
            t.count.concretised += 1;
        }
        match r {
            Outcome::Other(m) => {
                if m.starts_with("infeasible") {
                    // only after an undecided question
                } else if t.other.len() < 20 {
                    t.other.push(format!("{}: {m}", inst.name));
                }
            }
            Outcome::Holds(trace) => {
                if let Some(w) = &w {
                    let n = w.scaled();
                    match n {
                        Some(Outcome::Holds(tr)) if tr == trace => t.native_f64 += 1,
                        // broken with floats but not here: believed only if exact numbers agree
                        _ => match w.exact() {
                            Outcome::Holds(tr) if tr == trace || concretised => t.native_q += 1,
                            Outcome::Broken(m) => {
                                report(sh, inst, w.clone(), m);
                                break;
                            }
                            Outcome::Other(_) => {}
                            _ => {
                                sh.error(format!("{}: symbolic and concrete execution disagree on\n{}", inst.name, w.to_text()));
                                break;
                            }
                        },
                    }
                    if t.samples.len() < 3 && w.polys.iter().map(|p| p.len()).sum::<usize>() < 40 {
                        t.samples.push(format!("{}: input {:?} draws {:?}; path condition {}", inst.name, w.polys, w.draws, exec::with(|e| e.path_condition()).chars().take(400).collect::<String>()));
                    }
                }
            }
            Outcome::Excused => t.excused += 1,
            Outcome::Broken(m) => {
                if let Some(w) = w {
                    report(sh, inst, w, m);
                    break;
                } else {
                    sh.error(format!("{}: {m}, on a path with no rational witness: {}", inst.name, exec::with(|e| e.path_condition())));
                    break;
                }
            }
        }
    }
    sh.beat[slot].store(0, Ordering::Relaxed);
    let after = exec::with(|e| e.count.paths);
    if after == before && !sh.stop.load(Ordering::Relaxed) && Instant::now() < sh.deadline {
        t.vacuous.push(inst.name.clone());
        if inst.must_exist {
            sh.error(format!("{}: no input meets the preconditions", inst.name));
        }
    }
    t.per_inst.push((inst.name.clone(), after - before, t0.elapsed().as_secs_f64()));
}

fn report(sh: &Shared, inst: &Inst, w: Witness, m: String) {
    match w.reproduces() {
        Some((how, m2)) => {
            let mut f = sh.found.lock().unwrap();
            if f.is_none() {
                *f = Some(Found { witness: w, message: m2, how: how.into(), inst: inst.name.clone() });
            }
            sh.stop.store(true, Ordering::Relaxed);
        }
        None => sh.error(format!("{}: not reproduced concretely: {m}\n{}", inst.name, w.to_text())),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn merge(a: &mut Tally, b: Tally) {
    let (c, d) = (&mut a.count, b.count);
    c.paths += d.paths;
    c.forks += d.forks;
    c.decisions += d.decisions;
    c.by_model += d.by_model;
    c.by_lemma += d.by_lemma;
    c.lemmas += d.lemmas;
    c.undecided += d.undecided;
    c.no_witness += d.no_witness;
    c.concretised += d.concretised;
    a.stats.sat += b.stats.sat;
    a.stats.unsat += b.stats.unsat;
    a.stats.unknown += b.stats.unknown;
    a.stats.time += b.stats.time;
    a.instances += b.instances;
    a.truncated.extend(b.truncated);
    a.other.extend(b.other);
    a.native_f64 += b.native_f64;
    a.native_q += b.native_q;
    a.excused += b.excused;
    a.vacuous.extend(b.vacuous);
    if a.samples.len() < 6 {
        a.samples.extend(b.samples);
    }
    a.per_inst.extend(b.per_inst);
}

/// check PROPERTY TIER OUT.json SECONDS [JOURNAL]
pub fn check(args: &[String]) -> i32 {
    let (prop, tier, out) = (args[0].clone(), args[1].clone(), args[2].clone());
    let secs: f64 = args[3].parse().unwrap();
    let start = Instant::now();
    let insts = plan::plan(&prop, tier == "thorough");
    let threads: usize = std::env::var("SYM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let journal = args.get(4).map(|p| Arc::new(std::fs::File::create(p).expect("journal")));
    let sh = Shared {
        next: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        found: Mutex::new(None),
        errors: Mutex::new(vec![]),
        tally: Mutex::new(Tally::default()),
        deadline: start + Duration::from_secs_f64(secs),
        journal,
        skip: args.iter().skip(5).cloned().collect(),
        beat: (0..threads).map(|_| AtomicUsize::new(0)).collect(),
        start,
        picked: std::env::var("SYM_PICKED").ok().filter(|p| !p.is_empty()).map(|p| Mutex::new(std::io::BufWriter::new(std::fs::File::create(p).expect("picked")))),
    };
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for slot in 0..threads {
            let (sh, insts) = (&sh, &insts);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        EX.with(|e| *e.borrow_mut() = Some(Box::new(Exec::new())));
                        let mut t = Tally::default();
                        loop {
                            let k = sh.next.fetch_add(1, Ordering::Relaxed);
                            if k >= insts.len() || sh.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if sh.skip.contains(&insts[k].name) {
                                t.truncated.push(format!("{} (skipped: it does not end)", insts[k].name));
                                continue;
                            }
                            t.instances += 1;
                            let r = catch_unwind(AssertUnwindSafe(|| explore(sh, slot, &insts[k], &mut t)));
                            if r.is_err() {
                                rand::verif::remove();
                                sh.error(format!("{}: executor failed: {}", insts[k].name, last_panic()));
                            }
                        }
                        let e = EX.with(|e| e.borrow_mut().take().unwrap());
                        let nw = t.count.no_witness;
                        let cc = t.count.concretised;
                        t.count = e.count.clone();
                        t.count.no_witness = nw;
                        t.count.concretised = cc;
                        t.stats = e.solver.stats;
                        merge(&mut sh.tally.lock().unwrap(), t);
                    })
                    .unwrap(),
            );
        }
        // a run that makes no comparisons at all cannot be stopped by its budget
        let (sh2, done2) = (&sh, &done);
        s.spawn(move || {
            while !done2.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for b in &sh2.beat {
                    let v = b.load(Ordering::Relaxed);
                    if v != 0 && sh2.start.elapsed().as_millis() as usize > v + 150_000 {
                        // the driver examines the journal
                        std::process::exit(77);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    drop(sh.picked);
    let t = sh.tally.into_inner().unwrap();
    let errors = sh.errors.into_inner().unwrap();
    let found = sh.found.into_inner().unwrap();
    let arr = |v: &[String]| format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    let mut slow = t.per_inst.clone();
    slow.sort_by(|a, b| b.2.partial_cmp(&a.2).unwrap());
    let orders: u64 = insts.iter().map(|i| match &i.orders { Orders::All => 0, Orders::List(l) => l.len() as u64 }).sum();
    let names: Vec<String> = insts.iter().map(|i| i.name.clone()).collect();
    let js = format!(
        "{{\"instances\":{},\"planned\":{},\"paths\":{},\"forks\":{},\"decisions\":{},\"by_model\":{},\"by_lemma\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"undecided\":{},\"no_witness\":{},\"concretised\":{},\"solver_s\":{:.2},\"native_f64\":{},\"native_exact\":{},\"excused\":{},\"vacuous\":{},\"listed_orders\":{},\"truncated\":{},\"other\":{},\"errors\":{},\"samples\":{},\"slowest\":{},\"names\":{},\"wall\":{:.2},\"found\":{}}}",
        t.instances,
        insts.len(),
        t.count.paths,
        t.count.forks,
        t.count.decisions,
        t.count.by_model,
        t.count.by_lemma,
        t.stats.sat + t.stats.unsat + t.stats.unknown,
        t.stats.sat,
        t.stats.unsat,
        t.stats.unknown,
        t.count.undecided,
        t.count.no_witness,
        t.count.concretised,
        t.stats.time.as_secs_f64(),
        t.native_f64,
        t.native_q,
        t.excused,
        t.vacuous.len(),
        orders,
        arr(&t.truncated),
        arr(&t.other),
        arr(&errors),
        arr(&t.samples),
        arr(&slow.iter().take(8).map(|s| format!("{} paths {} in {:.1}s", s.0, s.1, s.2)).collect::<Vec<_>>()),
        arr(&names),
        start.elapsed().as_secs_f64(),
        match &found {
            None => "null".into(),
            Some(f) => format!("{{\"instance\":{},\"message\":{},\"how\":{},\"witness\":{}}}", esc(&f.inst), esc(&f.message), esc(&f.how), esc(&f.witness.to_text())),
        }
    );
    std::fs::write(&out, js).expect("write result");
    if found.is_some() {
        1
    } else if !errors.is_empty() {
        3
    } else {
        0
    }
}
