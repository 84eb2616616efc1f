//! Root finders (C33): the sequence of evaluated points, projected to ranks, and signs.
use crate::util::*;
use rust_quantlib::maths::comparison::close;
use rust_quantlib::maths::solvers1d::{brent::Brent, finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe, newtonsafe::NewtonSafe, solver1d::Solver1D};
use std::cell::RefCell;

const NA: i32 = -999999999;
/// a function with its derivative; `easy`: continuous, monotone, one simple root at z
struct Fun {
    kind: &'static str,
    z: f64,
    k: f64,
    sc: f64,
    /// the length in which arguments are measured
    xs: f64,
}
impl Fun {
    fn f(&self, x: f64) -> f64 {
        let d = (x - self.z) / self.xs;
        self.sc
            * match self.kind {
                "linear" => self.k * d,
                "cubic" => d * d * d + self.k * d,
                "exp" => (self.k * d).exp_m1(),
                "atan" => (self.k * d).atan(),
                "kink" => if d < 0.0 { d } else { self.k * d },
                "step" => if d < 0.0 { -1.0 } else { 1.0 },
                "square" => (d + self.k) * (d + self.k) - self.k * self.k,
                "none" => d * d + self.k,
                // nought all around z
                "flat" => if d.abs() <= self.k { 0.0 } else { d - self.k.copysign(d) },
                _ => d.powi(2) * (d + self.k),
            }
    }
    fn d(&self, x: f64) -> f64 {
        let d = (x - self.z) / self.xs;
        self.sc / self.xs
            * match self.kind {
                "linear" => self.k,
                "cubic" => 3.0 * d * d + self.k,
                "exp" => self.k * (self.k * d).exp(),
                "atan" => self.k / (1.0 + (self.k * d).powi(2)),
                "kink" => if d < 0.0 { 1.0 } else { self.k },
                "step" => 0.0,
                "square" => 2.0 * (d + self.k),
                "none" => 2.0 * d,
                "flat" => if d.abs() <= self.k { 0.0 } else { 1.0 },
                _ => 3.0 * d * d + 2.0 * d * self.k,
            }
    }
    fn easy(&self) -> bool {
        matches!(self.kind, "linear" | "cubic" | "atan") || (self.kind == "exp" && self.k.abs() <= 2.0)
    }
}
fn sgn(v: f64) -> i32 {
    if close(v, 0.0) { 0 } else if v > 0.0 { 1 } else if v < 0.0 { -1 } else { 2 }
}
const KINDS: [&str; 10] = ["linear", "cubic", "exp", "atan", "kink", "step", "square", "none", "double", "flat"];

pub fn solvers(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(33);
    for n in 0..cfg.n(6000, 80000) {
        let kind = *r.pick(&KINDS);
        let unit = |r: &mut Rng, a: f64, b: f64| a + (b - a) * (r.i32(0, 1000000) as f64 / 1e6);
        let xs = if r.chance(3, 4) { 1.0 } else { *r.pick(&[1e-6, 1e-3, 1e3, 1e5]) };
        let z = xs * (*r.pick(&[0.0, 1.0, -3.0, 0.05, 17.0, 1e-3]) + if r.chance(1, 2) { unit(&mut r, -0.5, 0.5) } else { 0.0 });
        let k = *r.pick(&[0.2, 0.5, 1.0, 2.0, 5.0, 20.0]) * if (kind == "exp" || kind == "linear" || kind == "atan") && r.chance(1, 3) { -1.0 } else { 1.0 };
        let sc = *r.pick(&[1.0, 1.0, 1.0, -1.0, 100.0, 1e-6, -1e4]);
        let fun = Fun { kind, z, k, sc, xs };
        let acc = match r.i32(0, 11) {
            0 => 0.0,
            1 => -1e-6,
            2 => 1e-14,
            3 => 1e-3,
            _ => *r.pick(&[1e-6, 1e-8, 1e-10]),
        } * xs;
        let brk = r.chance(2, 3);
        let (mut lo, mut hi) = (z - xs * unit(&mut r, 0.01, 4.0), z + xs * unit(&mut r, 0.01, 4.0));
        if r.chance(1, 12) { lo = z; }
        if r.chance(1, 12) { hi = z; }
        if r.chance(1, 15) { lo = hi; }
        if r.chance(1, 15) { std::mem::swap(&mut lo, &mut hi); }
        if r.chance(1, 12) { lo = z + unit(&mut r, 0.001, 0.9) * (hi - z); }
        let mut guess = match r.i32(0, 12) {
            0 => hi + 0.5 * xs,
            1 => lo - 0.5 * xs,
            2 => z,
            3 => lo,
            _ => lo + (hi - lo) * unit(&mut r, 0.01, 0.99),
        };
        if !brk { guess = z + xs * unit(&mut r, -3.0, 3.0); }
        let step = xs * *r.pick(&[0.01, 0.1, 0.5, 1.0]);
        // one or two steps away from the root exactly
        if !brk && r.chance(1, 6) { guess = z + step * *r.pick(&[1.0, -1.0, 2.6, -2.6]); }
        let (le, ue) = (r.chance(1, 3), r.chance(1, 3));
        // bounds around everything, or cutting into it
        let (mut lb, mut ub) = (f64::min(lo, guess).min(z) - xs * unit(&mut r, 0.0, 2.0), f64::max(hi, guess).max(z) + xs * unit(&mut r, 0.0, 2.0));
        if brk && r.chance(1, 6) { lb = lo + 0.001 * xs; }
        if brk && r.chance(1, 6) { ub = hi - 0.001 * xs; }
        if brk && r.chance(1, 6) { lb = lo; ub = hi; }
        let solver = n % 3;
        let log: RefCell<Vec<f64>> = RefCell::new(vec![]);
        let f = |x: f64| {
            log.borrow_mut().push(x);
            fun.f(x)
        };
        let g = |x: f64| fun.d(x);
        label(&format!("solver {} kind {} z {} k {} sc {} acc {} guess {} [{}, {}] bounds {}{} {}{}", solver, kind, z, k, sc, acc, guess, lo, hi, lb, le, ub, ue));
        let limit = if solver == 1 { *r.pick(&[100, 100, 100, 5, 20, 300]) } else { 100 };
        fn run<S: Solver1D, F: Fn(f64) -> f64, G: Fn(f64) -> f64>(s: &S, brk: bool, f: F, g: G, acc: f64, guess: f64, step: f64, lo: f64, hi: f64) -> Option<f64> {
            call(|| if brk { s.solve_bracketed(f, g, acc, guess, lo, hi) } else { s.solve(f, g, acc, guess, step) })
        }
        let res = match solver {
            0 => run(&Brent::new(lb, ub, le, ue), brk, f, g, acc, guess, step, lo, hi),
            1 => run(&NewtonSafe::new(lb, ub, le, ue, limit), brk, f, g, acc, guess, step, lo, hi),
            _ => run(&FiniteDifferenceNewtonSafe::new(lb, ub, le, ue), brk, f, g, acc, guess, step, lo, hi),
        };
        let ev = log.borrow().clone();
        // ranks of all abscissae
        let mut all: Vec<f64> = ev.clone();
        all.extend([lo, hi, guess, lb, ub]);
        all.extend(res);
        all.sort_by(|a, b| a.total_cmp(b));
        all.dedup();
        let rank = |x: f64| all.iter().position(|y| *y == x).map(|p| p as i32).unwrap_or(NA + 1);
        let tol = |x: f64| acc.max(f64::EPSILON) * 1.0001 + 8.0 * f64::EPSILON * x.abs();
        let s: Vec<i32> = match res {
            None => vec![],
            Some(x) => vec![sgn(fun.f(x - tol(x))), sgn(fun.f(x)), sgn(fun.f(x + tol(x)))],
        };
        let fits = (!le || (lb <= lo && lb <= guess)) && (!ue || (ub >= hi && ub >= guess));
        let easy = fun.easy() && limit >= 100 && fits && acc >= 1e-10 * xs && acc >= 1e-15 && if brk { lo < z && z < hi && lo < guess && guess < hi } else { true };
        let q = obj! {how: if brk { "bracket" } else { "guess" }, lo: rank(lo), hi: rank(hi), guess: rank(guess), acc: if acc > 0.0 { 1 } else if acc < 0.0 { -1 } else { 0 },
                      lb: if le { rank(lb) } else { NA }, ub: if ue { rank(ub) } else { NA }};
        let e: Vec<(i32, i32)> = ev.iter().map(|x| (rank(*x), sgn(fun.f(*x)))).collect();
        out.rec(obj! {k: "solve", solver: solver as i32, fun: kind, par: format!("z={} k={} sc={} acc={} guess={} step={} lo={} hi={} res={:?}", z, k, sc, acc, guess, step, lo, hi, res), q: q, e: e,
                      res: res.map(rank).unwrap_or(NA), s: s, fl: sgn(fun.f(lo)), fh: sgn(fun.f(hi)), limit: limit as i32, easy: easy});
    }
}
