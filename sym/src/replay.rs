//! Concrete executions: every explored path's witness, and every reported violation, is run
//! through the real library with ordinary numbers.
use crate::cases::{self, Body, Input};
use crate::exec::Stop;
use crate::num::{set_budget, Coord, N, Q};
use crate::rat::{lcm, Overflow, Rat};
use crate::run::{last_panic, Outcome};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Witness {
    pub body: Body,
    pub polys: Vec<Vec<[Rat; 2]>>,
    pub extra: Vec<Rat>,
    pub draws: Vec<usize>,
}

pub fn classify<T>(body: Body, r: Result<Result<T, String>, Box<dyn std::any::Any + Send>>) -> Outcome<T> {
    match r {
        Ok(Ok(v)) => Outcome::Holds(v),
        Ok(Err(m)) => Outcome::Broken(m),
        Err(p) => match p.downcast::<Stop>() {
            Ok(s) => match *s {
                Stop::Fuel if body.invalid_input() => Outcome::Excused,
                Stop::Fuel => Outcome::Broken("the run does not end (comparison budget exhausted)".into()),
                Stop::Unsupported(m) => Outcome::Other(m),
                Stop::Infeasible => Outcome::Other("infeasible".into()),
            },
            Err(p) => {
                if p.is::<Overflow>() {
                    return Outcome::Other("exact arithmetic out of range".into());
                }
                if body.invalid_input() {
                    return Outcome::Excused;
                }
                Outcome::Broken(format!("panicked: {}", last_panic()))
            }
        },
    }
}

pub fn concrete<C: Coord>(w: &Witness, conv: impl Fn(usize, Rat) -> C) -> Outcome<Vec<i64>> {
    let inp = Input {
        polys: w.polys.iter().map(|p| p.iter().map(|v| [conv(0, v[0]), conv(1, v[1])]).collect()).collect(),
        extra: w.extra.iter().map(|&e| conv(2, e)).collect(),
    };
    rand::verif::install(&w.draws, 1);
    set_budget(3 * crate::exec::fuel(w.polys.iter().map(|p| p.len() as u64).sum()));
    let r = catch_unwind(AssertUnwindSafe(|| cases::run(w.body, &inp)));
    set_budget(u64::MAX);
    rand::verif::remove();
    classify(w.body, r)
}

fn f64_exact(r: Rat) -> bool {
    r.n.unsigned_abs() < 1 << 24 && r.d < 1 << 24 && r.d & (r.d - 1) == 0
}

impl Witness {
    /// With 64-bit floats, exactly as found; None if the values would be rounded.
    pub fn direct(&self) -> Option<Outcome<Vec<i64>>> {
        if self.all().all(f64_exact) { Some(concrete(self, |_, r| N(r.to_f64()))) } else { None }
    }
    fn all(&self) -> impl Iterator<Item = Rat> + '_ {
        self.polys.iter().flatten().flat_map(|v| [v[0], v[1]]).chain(self.extra.iter().copied())
    }
    /// With 64-bit floats, each axis multiplied by a whole number that clears the fractions.
    pub fn scaled(&self) -> Option<Outcome<Vec<i64>>> {
        let mut s = [1i128; 2];
        for v in self.polys.iter().flatten() {
            for a in 0..2 {
                s[a] = lcm(s[a], v[a].d)?;
                if s[a] > 1 << 40 {
                    return None;
                }
            }
        }
        for v in self.polys.iter().flatten() {
            for a in 0..2 {
                if (v[a].n.checked_mul(s[a] / v[a].d)?).unsigned_abs() >= 1 << 24 {
                    return None;
                }
            }
        }
        if !self.extra.iter().copied().all(f64_exact) {
            return None;
        }
        Some(concrete(self, |a, r| if a < 2 { N((r.n * (s[a] / r.d)) as f64) } else { N(r.to_f64()) }))
    }
    /// With exact rational numbers.
    pub fn exact(&self) -> Outcome<Vec<i64>> {
        concrete(self, |_, r| Q(r))
    }

    /// Does the real code break the property on this input? With which numbers?
    pub fn reproduces(&self) -> Option<(&'static str, String)> {
        if let Some(Outcome::Broken(m)) = self.direct() {
            return Some(("f64", m));
        }
        if let Some(Outcome::Broken(m)) = self.scaled() {
            return Some(("f64, fractions cleared", m));
        }
        if let Outcome::Broken(m) = self.exact() {
            return Some(("exact rationals", m));
        }
        None
    }

    pub fn to_text(&self) -> String {
        let r = |r: Rat| format!("{}/{}", r.n, r.d);
        let name = cases::BODIES.iter().find(|b| b.1 == self.body).unwrap().0;
        let ps: Vec<String> = self.polys.iter().map(|p| p.iter().map(|v| format!("{},{}", r(v[0]), r(v[1]))).collect::<Vec<_>>().join(" ")).collect();
        format!(
            "body {name}\npolygons {}\n{}extra {}\ndraws {}\n",
            self.polys.len(),
            ps.iter().map(|p| format!("polygon {p}\n")).collect::<String>(),
            self.extra.iter().map(|&e| r(e)).collect::<Vec<_>>().join(" "),
            self.draws.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" ")
        )
    }

    pub fn from_text(s: &str) -> Option<Witness> {
        let rat = |s: &str| {
            let (n, d) = s.split_once('/')?;
            Some(Rat::new(n.parse().ok()?, d.parse().ok()?))
        };
        let mut w = Witness { body: Body::Geo, polys: vec![], extra: vec![], draws: vec![] };
        let mut seen = false;
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "body" => {
                    w.body = cases::BODIES.iter().find(|b| b.0 == v)?.1;
                    seen = true;
                }
                "polygon" => {
                    let mut p = vec![];
                    for t in v.split_whitespace() {
                        let (x, y) = t.split_once(',')?;
                        p.push([rat(x)?, rat(y)?]);
                    }
                    w.polys.push(p);
                }
                "extra" => {
                    for t in v.split_whitespace() {
                        w.extra.push(rat(t)?);
                    }
                }
                "draws" => {
                    for t in v.split_whitespace() {
                        w.draws.push(t.parse().ok()?);
                    }
                }
                _ => {}
            }
        }
        if seen { Some(w) } else { None }
    }
}

/// `symtri replay FILE`: exit 1 if the recorded violation shows, 0 if not.
pub fn main(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Some(w) = Witness::from_text(&s) else {
        eprintln!("not a replay file: {path}");
        return 2;
    };
    match w.reproduces() {
        Some((how, m)) => {
            println!("REPRODUCED ({how}): {m}");
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// `symtri native FILE`: run the witnesses of the file, each begun by a line `instance`, natively,
/// saying which; for an interpreter that looks for undefined behaviour.
pub fn native(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("file");
    for (k, w) in s.split("instance ").skip(1).enumerate() {
        println!("at {k}");
        if let Some(w) = Witness::from_text(w) {
            if w.scaled().is_none() {
                w.exact();
            }
        }
    }
    println!("end");
    0
}
