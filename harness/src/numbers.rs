//! Rounding, bounds, arrays and closeness (C36 - C39).
use crate::rates::fx;
use crate::util::*;
use rust_quantlib::maths::array::Array;
use rust_quantlib::maths::bounds::{lower_bound, upper_bound};
use rust_quantlib::maths::comparison::{close, close_enough, close_n};
use rust_quantlib::maths::rounding::Rounding;

const NA: i32 = -999999999;
fn whole(v: Option<f64>, k: f64) -> i32 {
    match v {
        None => NA,
        Some(v) => {
            let x = v * k;
            let r = x.round();
            if x.is_finite() && (x - r).abs() <= 1e-6 && r.abs() < 2e9 { r as i32 } else { NA + 1 }
        }
    }
}

pub fn rounding(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(36);
    let make = |m: &str, p: i32, g: i32| match m {
        "none" => Rounding::none(),
        "up" => Rounding::up(p, g),
        "down" => Rounding::down(p, g),
        "closest" => Rounding::closest(p, g),
        "ceiling" => Rounding::ceiling(p, g),
        _ => Rounding::floor(p, g),
    };
    // the same number moved away from zero by a whole power of ten: the result moves with it
    let mut moved = cfg.rng(361);
    let mut far = |d: i32, rule: &Rounding, m: &str, p: i32, n: i32, v: f64| -> i32 {
        if d != 64 || !(0..=3).contains(&p) || n == 0 || m == "none" { return NA; }
        let big = 10f64.powi(moved.i32(4, 12 - p)) * moved.i32(1, 9) as f64 * v.signum();
        match call(|| rule.round(v + big)) {
            None => NA + 1,
            Some(x) => {
                let s = (x - big) * 10f64.powi(p);
                if (s - s.round()).abs() < 0.01 && s.abs() < 2e9 { s.round() as i32 } else { NA + 1 }
            }
        }
    };
    let modes = ["none", "up", "down", "closest", "ceiling", "floor"];
    for g in 1..=9 {
        // 1/64 is exact in binary, so ties and representable values are met exactly; 1/10^6 is not
        for d in [64, 1000000] {
            for p in -2..=8 {
                let pw = 10f64.powi(p);
                let top: i64 = if p >= 0 { 2_000_000_000 / 10i64.pow(p as u32) } else { 2_000_000_000 / 100 };
                let mut ns: Vec<i32> = vec![0];
                let mut add = |x: i64| {
                    if x.abs() <= top { ns.push(x as i32); ns.push(-x as i32); }
                };
                for _ in 0..cfg.n(14, 300) {
                    let x = r.range(0, top);
                    add(x);
                    add(r.range(0, top.min(5000)));
                    // near whole numbers and halves
                    let w = r.range(0, top / d as i64 + 1) * d as i64;
                    add(w);
                    add(w + d as i64 / 2);
                    add(w + r.range(-2, 2));
                    // near multiples of the rounding digit
                    if p >= 0 { add((w * 10i64.pow(p as u32) + (g as i64) * d as i64 / 10) / 10i64.pow(p as u32) + r.range(-1, 1)); }
                }
                let small: i64 = if d == 64 { 200 } else { 20 };
                for x in 0..small { add(x); }
                ns.sort();
                ns.dedup();
                for c in ns.chunks(50) {
                    let mut q = vec![];
                    for &n in c {
                        if p < 0 {
                            // a negative precision multiplies by an inexact power of ten: stay off its steps
                            let den = d as i64 * 10i64.pow((-p) as u32);
                            let f = (n as i64).abs() % den;
                            if n != 0 && (f * 10 == g as i64 * den || f == 0) { continue; }
                        }
                        let v = n as f64 / d as f64;
                        for m in modes {
                            let rule = make(m, p, g);
                            let a = call(|| rule.round(v));
                            let b = a.and_then(|a| call(|| rule.clone().round(a)));
                            // rounding again is only asked where the first result is exact in binary
                            let w = if d == 64 && (p == 0 || m == "closest") { whole(b, pw) } else { whole(a, pw) };
                            q.push(obj! {m: m, n: n, v: whole(a, pw), w: w, same: a == Some(v), far: far(d, &rule, m, p, n, v)});
                        }
                    }
                    if !q.is_empty() { out.rec(obj! {k: "round", d: d, p: p, g: g, q: q}); }
                }
            }
        }
    }
    // numbers a hair away from a 64th (recorded as a quarter of a 64th, which no rule tells
    // apart from a hair), and a hair away from zero at every precision
    for g in 1..=9 {
        let mut q = vec![];
        let one = |rule: &Rounding, m: &str, v: f64, n: i32, pw: f64| {
            let a = call(|| rule.round(v));
            let w = whole(a.and_then(|a| call(|| rule.clone().round(a))), pw);
            obj! {m: m, n: n, v: whole(a, pw), w: w, same: a == Some(v), far: NA}
        };
        for k in [-3200, -640, -193, -64, -32, -1, 0, 1, 31, 32, 33, 63, 64, 65, 96, 128, 639, 640, 6400] {
            for e in [-1, 1] {
                let v = k as f64 / 64.0 + e as f64 * 2f64.powi(-moved.i32(20, 40));
                for m in modes { q.push(one(&make(m, 0, g), m, v, 4 * k + e, 1.0)); }
            }
        }
        for c in q.chunks(60) { out.rec(obj! {k: "round", d: 256, p: 0, g: g, q: c.to_vec()}); }
        for p in 0..=6 {
            let mut q = vec![];
            for e in [-1, 1] {
                for j in [p + 2, p + 4, p + 7, 12, 20, 60, 200, 300] {
                    let v = e as f64 * 10f64.powi(-j);
                    for m in modes { q.push(one(&make(m, p, g), m, v, e, 10f64.powi(p))); }
                }
            }
            out.rec(obj! {k: "round", d: 10i32.pow(p as u32 + 2), p: p, g: g, q: q});
        }
    }
}

pub fn bounds(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(37);
    let mut cases: Vec<Vec<i32>> = std::fs::read_to_string(cfg.input.as_ref().expect("--input"))
        .unwrap()
        .lines()
        .map(|l| l.split(|c: char| !c.is_ascii_digit() && c != '-').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect())
        .collect();
    for _ in 0..cfg.n(300, 4000) {
        let n = if r.chance(1, 8) { r.i32(41, 400) } else { r.i32(0, 40) };
        let top = *r.pick(&[3, 10, 100, 1000]);
        let mut v: Vec<i32> = (0..n).map(|_| 2 * r.i32(-top, top)).collect();
        v.sort();
        cases.push(v);
    }
    for s in cases {
        let (lo, hi) = (s.first().copied().unwrap_or(0) - 1, s.last().copied().unwrap_or(0) + 1);
        let f: Vec<f64> = s.iter().map(|x| *x as f64).collect();
        let vs: Vec<i32> = if hi - lo < 40 { (lo..=hi).collect() } else { (0..30).map(|_| if r.chance(1, 2) && !s.is_empty() { *r.pick(&s) } else { r.i32(lo, hi) }).collect() };
        let u = |x: Option<usize>| x.map(|v| v as i32).unwrap_or(NA);
        let q: Vec<(i32, i32, i32, i32, i32)> = vs
            .iter()
            .map(|&v| {
                (v, u(call(|| lower_bound(&s, v))), u(call(|| upper_bound(&s, v))), u(call(|| lower_bound(&f, v as f64))), u(call(|| upper_bound(&f, v as f64))))
            })
            .collect();
        out.rec(obj! {k: "bounds", s: s, q: q});
    }
}

const U: f64 = 64.0;
fn regs(a: Option<&Array>) -> Vec<i32> {
    match a {
        None => vec![NA],
        Some(a) => (0..a.data.len()).map(|k| whole(Some(a.data[k]), U)).collect(),
    }
}
fn one(v: Option<f64>) -> Vec<i32> {
    vec![whole(v, U)]
}

pub fn arrays(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(38);
    let ops = ["add", "sub", "mul", "div", "add-number", "sub-number", "mul-number", "div-number", "neg", "abs", "swap", "dot", "norm", "size", "index", "set", "equal", "sqrt", "square", "exp-log", "power", "exp", "log"];
    for k in 0..cfg.n(12000, 150000) {
        let op = ops[k % ops.len()];
        let n = if r.chance(1, 40) { r.i32(21, 130) } else if r.chance(1, 8) { r.i32(7, 20) } else { r.i32(0, 6) };
        let m = if r.chance(4, 5) { n } else { r.i32(0, 6) };
        let top = match op {
            "add" | "sub" | "add-number" | "sub-number" | "neg" | "abs" | "swap" | "index" | "equal" => *r.pick(&[40, 40, 1000, 1000000]),
            "mul" | "mul-number" | "div" | "div-number" => *r.pick(&[40, 500]),
            _ => 40,
        };
        let num = |r: &mut Rng| r.i32(-top, top) as f64 / *r.pick(&[1.0, 1.0, 2.0, 4.0]);
        let mut a: Vec<f64> = (0..n).map(|_| num(&mut r)).collect();
        let mut b: Vec<f64> = (0..m).map(|_| num(&mut r)).collect();
        let mut c = num(&mut r);
        let two = |r: &mut Rng| *r.pick(&[1.0, 2.0, 4.0, 0.5, 0.25, 8.0, -1.0, -2.0, -0.5, -4.0]);
        match op {
            "div" => b = (0..m).map(|_| two(&mut r)).collect(),
            "div-number" => c = two(&mut r),
            "sqrt" => a = (0..n).map(|_| { let x = r.i32(0, 40) as f64 / 4.0; x * x }).collect(),
            "exp-log" => a = (0..n).map(|_| r.i32(1, 160) as f64 / 8.0).collect(),
            "power" => {
                a = (0..n).map(|_| r.i32(-40, 40) as f64 / 4.0).collect();
                c = r.i32(0, 3) as f64;
                if r.chance(1, 3) { a = (0..n).map(|_| two(&mut r)).collect(); c = r.i32(-2, 2) as f64; }
            }
            "exp" => a = (0..n).map(|_| r.i32(-500, 500) as f64 / 64.0).collect(),
            "log" => a = (0..n).map(|_| r.i32(1, 64 * if n < 3 { 1 } else { 100 }) as f64 / 64.0).collect(),
            "index" | "set" => c = r.i32(0, n + 1) as f64,
            "norm" | "dot" => {
                a.iter_mut().for_each(|x| *x = x.trunc());
                b.iter_mut().for_each(|x| *x = x.trunc());
            }
            "equal" => {
                if r.chance(1, 2) {
                    b = a.clone();
                    if !b.is_empty() && r.chance(1, 2) {
                        let i = r.i32(0, b.len() as i32 - 1) as usize;
                        b[i] += 1.0;
                    }
                }
            }
            _ => {}
        }
        // equal entries, and operands that agree
        if n > 0 && matches!(op, "add" | "sub" | "mul" | "add-number" | "sub-number" | "mul-number" | "neg" | "abs") && r.chance(1, 4) {
            if r.chance(1, 2) {
                a = vec![a[0]; a.len()];
            }
            c = if op == "mul-number" { *r.pick(&[0.0, 1.0, -1.0]) } else { *r.pick(&[0.0, a[0], -a[0]]) };
            b = b.iter().enumerate().map(|(k, _)| if op == "mul" { c } else { *a.get(k).unwrap_or(&a[0]) }).collect();
        }
        let (x, y) = (|| Array::new(a.clone()), || Array::new(b.clone()));
        let mut out2: Vec<i32> = vec![];
        let mut fixed: Vec<Vec<i32>> = vec![];
        let res: Vec<i32> = match op {
            "add" => regs(call(|| x() + y()).as_ref()),
            "sub" => regs(call(|| x() - y()).as_ref()),
            "mul" => regs(call(|| x() * y()).as_ref()),
            "div" => regs(call(|| x() / y()).as_ref()),
            "add-number" => regs(call(|| x() + c).as_ref()),
            "sub-number" => regs(call(|| x() - c).as_ref()),
            "mul-number" => regs(call(|| x() * c).as_ref()),
            "div-number" => regs(call(|| x() / c).as_ref()),
            "neg" => regs(call(|| -x()).as_ref()),
            "abs" => regs(call(|| x().abs()).as_ref()),
            "swap" => {
                let (mut p, mut q) = (x(), y());
                call(|| p.swap(&mut q));
                out2 = regs(Some(&q));
                regs(Some(&p))
            }
            "dot" => one(call(|| x().dot_product(&y()))),
            "norm" => one(call(|| x().norm2()).map(|v| v * v)),
            "size" => {
                out2 = vec![x().empty() as i32];
                vec![x().size() as i32]
            }
            "index" => one(call(|| x()[c as usize])),
            "set" => {
                let mut p = x();
                let ok = call(|| p[c as usize] = 7.0).is_some();
                if ok { regs(Some(&p)) } else { vec![NA] }
            }
            "equal" => vec![(x() == y()) as i32],
            "sqrt" => regs(call(|| x().sqrt()).as_ref()),
            "square" => regs(call(|| x().pow(2.0)).as_ref()),
            "power" => regs(call(|| x().pow(c)).as_ref()),
            "exp" | "log" => {
                let v = call(|| if op == "exp" { x().exp() } else { x().log() });
                let v = v.map(|v| (0..v.size()).map(|k| v[k]).collect::<Vec<f64>>()).unwrap_or_default();
                fixed = v.iter().map(|e| fx(Some(*e))).collect();
                vec![]
            }
            _ => regs(call(|| x().log().exp()).as_ref()),
        };
        let (ra, rb) = (regs(Some(&x())), regs(Some(&y())));
        let cc = if op == "index" || op == "set" || op == "power" { c as i32 } else { whole(Some(c), U) };
        out.rec(obj! {k: "array", op: op, a: ra, b: rb, c: cc, out: res, out2: out2, fixed: fixed});
    }
}

struct Fl {
    kind: &'static str,
    sg: i32,
    e: i32,
    u: i32,
    v: f64,
}
impl ToJ for Fl {
    fn j(&self, o: &mut String) {
        obj! {kind: self.kind, sg: self.sg, e: self.e, u: self.u}.j(o)
    }
}
fn number(r: &mut Rng, n: i32, near: Option<(i32, i32, i32)>) -> Fl {
    let sg = if r.chance(1, 2) { 1 } else { -1 };
    match r.i32(0, 19) {
        0 => Fl { kind: "zero", sg: 1, e: 0, u: 0, v: if sg > 0 { 0.0 } else { -0.0 } },
        1 | 2 => {
            let u = r.i32(1, 8);
            let t = n as f64 * f64::EPSILON;
            Fl { kind: "tiny", sg, e: 0, u, v: sg as f64 * u as f64 / 4.0 * (t * t) }
        }
        3 => Fl { kind: "inf", sg, e: 0, u: 0, v: sg as f64 * f64::INFINITY },
        4 => Fl { kind: "nan", sg: 1, e: 0, u: 0, v: f64::NAN },
        _ => {
            let (mut sg, mut e, mut u) = (sg, *r.pick(&[0, 0, 1, -1, 7, -60, 300, -300, 900, -800]), 0);
            let span = 2 * n + 3;
            match near {
                Some((s2, e2, u2)) if r.chance(9, 10) => {
                    e = e2;
                    if r.chance(9, 10) { sg = s2; }
                    u = u2 + *r.pick(&[2 * n, 2 * n - 1, 2 * n + 1, -2 * n, -2 * n + 1, -2 * n - 1, n, -n, 0, 1, -1]);
                    if u.abs() > 2 * span { u = 0; }
                }
                _ => u += r.i32(-span, span),
            }
            if u > 0 && u % 2 == 1 { u += 1; }
            // above one the spacing is eps, below one half of it
            let m = 1.0 + u as f64 * (f64::EPSILON / 2.0);
            Fl { kind: "num", sg, e, u, v: sg as f64 * m * 2f64.powi(e) }
        }
    }
}
pub fn closeness(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(39);
    for k in 0..cfg.n(1500, 20000) {
        let n = if k % 2 == 0 { 42 } else { *r.pick(&[1, 2, 3, 4, 5, 7, 8, 10, 31, 32, 33, 41, 43, 64, 100, 999, 1000, 2500]) };
        let q: Vec<Raw> = (0..20)
            .map(|_| {
                let x = number(&mut r, n, None);
                let near = if x.kind == "num" { Some((x.sg, x.e, x.u)) } else { None };
                let y = if r.chance(1, 15) { Fl { ..x } } else { number(&mut r, n, near) };
                let (a, b) = (x.v, y.v);
                obj! {c: call(|| close_n(a, b, n as usize)).unwrap_or(false), cr: call(|| close_n(b, a, n as usize)).unwrap_or(true),
                      d: call(|| close(a, b)).unwrap_or(false), dr: call(|| close(b, a)).unwrap_or(true),
                      en: call(|| close_enough(a, b)).unwrap_or(false), enr: call(|| close_enough(b, a)).unwrap_or(true), x: x, y: y}
            })
            .collect();
        out.rec(obj! {k: "close", n: n, q: q});
    }
}
