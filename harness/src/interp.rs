//! Linear and Lagrange interpolation (C34, C35).
use crate::util::*;
use rust_quantlib::maths::interpolations::{interpolation::Interpolation, lagrangeinterpolation::LagrangeInterpolation, linearinterpolation::LinearInterpolation};

const NA: i32 = -999999999;
const GRID: f64 = 8.0;
fn six(v: Option<f64>) -> i32 {
    match v {
        None => NA,
        Some(v) => {
            let r = (v * 1e6).round();
            if r.is_finite() && r.abs() < 2.1e9 { r as i32 } else { NA + 1 }
        }
    }
}
/// abscissae are measured in units of a power of two, so changing the unit is exact
fn real(x: i32, k: i32) -> f64 {
    x as f64 / GRID * 2f64.powi(k)
}
fn unit_of_length(r: &mut Rng) -> i32 {
    *r.pick(&[0, 0, 0, 0, 20, -20, -38])
}
/// queries: grid points, and points a few epsilons outside the ends
fn queries(r: &mut Rng, xs: &[i32], reach: i32, k: i32) -> Vec<(i32, i32, f64)> {
    let (lo, hi) = (xs[0], xs[xs.len() - 1]);
    let mut q: Vec<(i32, i32, f64)> = (lo - reach..=hi + reach).map(|x| (x, 0, real(x, k))).collect();
    for u in [4, 20, 38, 50, 100] {
        if hi != 0 && hi != lo { q.push((hi, u, real(hi, k) + real(hi, k).abs() * u as f64 * f64::EPSILON)); }
        if lo != 0 && hi != lo { q.push((lo, u, real(lo, k) - real(lo, k).abs() * u as f64 * f64::EPSILON)); }
    }
    if q.len() > 60 {
        let keep: Vec<bool> = q.iter().map(|t| xs.contains(&t.0) || r.chance(40, 100)).collect();
        let mut k = keep.iter();
        q.retain(|_| *k.next().unwrap());
    }
    q
}
fn nodes(r: &mut Rng, n: i32, gap: i32) -> Vec<i32> {
    let mut x = r.i32(-gap * n / 2 - 4, 4);
    if r.chance(1, 3) { x = -gap * r.i32(0, n - 1); }
    let mut xs = vec![];
    for _ in 0..n {
        xs.push(x);
        x += if r.chance(1, 3) { gap } else { r.i32(1, gap) };
    }
    xs
}

/// close to a node, on one side of it: how fast the value changes from the node's, and the derivative there
fn beside<I: Interpolation>(r: &mut Rng, l: &I, xs: &[i32], fx: &[f64], fy: &[f64], unit: f64, yu: f64) -> Vec<Raw> {
    let n = xs.len();
    let mut v = vec![];
    if n < 2 { return v; }
    for _ in 0..4 {
        let j = r.i32(0, n as i32 - 1) as usize;
        let right = if j == 0 { true } else if j == n - 1 { false } else { r.chance(1, 2) };
        let w = 2f64.powi(-r.i32(20, 24));
        let f = fx[j] + if right { w } else { -w } * unit;
        let c = call(|| (l.value(f) - fy[j]) / yu / if right { w } else { -w });
        v.push(obj! {j: j as i32 + 1, right: right, c: six(c), d: six(call(|| l.derivative(f) / yu * unit))});
    }
    v
}
/// whatever it answers
fn ask<I: Interpolation>(m: &I, f: f64) {
    let _ = call(|| (m.value_with_extrapolation(f, true), m.derivative_with_extrapolation(f, true)));
    let _ = call(|| (m.primitive_with_extrapolation(f, true), m.is_in_range(f), m.locate(f)));
}

pub fn linear(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(34);
    for _ in 0..cfg.n(1500, 20000) {
        let n = *r.pick(&[2, 2, 3, 3, 4, 5, 6, 8, 12, 25, 60]);
        let gap = r.i32(1, 9);
        let xs = nodes(&mut r, n, gap);
        let top = *r.pick(&[1, 5, 20]);
        let ys: Vec<i32> = (0..n).map(|_| r.i32(-top, top)).collect();
        let k = unit_of_length(&mut r);
        let unit = 2f64.powi(k);
        // so are ordinates
        let yu = 2f64.powi(*r.pick(&[0, 0, 0, 0, 24, -24, 120, -120]));
        let mut fx: Vec<f64> = xs.iter().map(|x| real(*x, k)).collect();
        let mut fy: Vec<f64> = ys.iter().map(|y| yu * *y as f64).collect();
        // sometimes built over other nodes first, then given these ones
        let mut points = queries(&mut r, &xs, 10, k);
        if r.chance(1, 2) {
            let j = r.i32(0, points.len() as i32 - 1) as usize;
            points.swap(0, j);
        }
        if r.chance(1, 3) {
            // other nodes were in the same place before, and were asked for the same point
            let (keep, ys) = (fx.clone(), fy.clone());
            for k in 1..fx.len().max(2) - 1 {
                let w = *r.pick(&[0.0, 0.0, 0.3, -0.3]);
                fx[k] += w * if w > 0.0 { keep[k + 1] - keep[k] } else { keep[k] - keep[k - 1] };
            }
            if r.chance(1, 2) { fy.iter_mut().for_each(|y| *y += yu * r.i32(-3, 3) as f64); }
            if let Some(m) = call(|| LinearInterpolation::new(&fx, &fy)) {
                ask(&m, points[0].2);
            }
            fx.copy_from_slice(&keep);
            fy.copy_from_slice(&ys);
        }
        let (nx, ny): (Vec<f64>, Vec<f64>) = (fx.clone(), fy.iter().map(|y| 3.0 * yu - *y).collect());
        let near = call(|| LinearInterpolation::new(&nx, &ny));
        let rebound = r.chance(1, 3);
        let (ox, oy): (Vec<f64>, Vec<f64>) = if rebound { ((0..n).map(|k| k as f64 * 3.0 - 7.0).collect(), (0..n).map(|_| yu * r.i32(-top, top) as f64).collect()) } else { (fx.clone(), fy.clone()) };
        let l = match call(|| {
            let mut l = LinearInterpolation::new(&ox, &oy);
            if rebound {
                l.x = &fx;
                l.y = &fy;
                l.update();
            }
            l
        }) {
            Some(l) => l,
            None => {
                out.rec(obj! {k: "refused construction"});
                continue;
            }
        };
        let q: Vec<Raw> = points
            .into_iter()
            .map(|(x, u, f)| {
                if let (Some(m), true) = (&near, r.chance(1, 5)) { ask(m, f); }
                obj! {x: x, u: u, v: six(call(|| l.value(f) / yu)), d: six(call(|| l.derivative(f) / yu * unit)), s: six(call(|| l.second_derivative(f) / yu * unit)),
                      p: six(call(|| l.primitive(f) / yu / unit)), ev: six(call(|| l.value_with_extrapolation(f, true) / yu)),
                      ed: six(call(|| l.derivative_with_extrapolation(f, true) / yu * unit)), es: six(call(|| l.second_derivative_with_extrapolation(f, true) / yu * unit)),
                      ep: six(call(|| l.primitive_with_extrapolation(f, true) / yu / unit)), r: call(|| l.is_in_range(f)).unwrap_or(false)}
            })
            .collect();
        let at: Vec<Raw> = queries(&mut r, &xs, 10, k)
            .into_iter()
            .map(|(x, u, f)| obj! {x: x, u: u, i: call(|| l.locate(f)).map_or(-1, |i| i as i32 + 1), c: call(|| l.check_range(f, false)).is_some(), ce: call(|| l.check_range(f, true)).is_some()})
            .collect();
        let odd: Vec<bool> = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, fx[n as usize - 1] + 1e300, fx[0] - 1e300]
            .iter()
            .flat_map(|f| vec![call(|| l.value(*f)).is_some(), call(|| l.derivative(*f)).is_some(), call(|| l.second_derivative(*f)).is_some(), call(|| l.primitive(*f)).is_some(), call(|| l.is_in_range(*f)).unwrap_or(true)])
            .collect();
        let by = beside(&mut r, &l, &xs, &fx, &fy, unit, yu);
        out.rec(obj! {k: "linear", by: by, at: at, odd: odd, xs: xs, ys: ys, lo: (l.xmin() / unit * GRID) as i32, hi: (l.xmax() / unit * GRID) as i32, q: q});
    }
}

pub fn lagrange(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(35);
    for _ in 0..cfg.n(1500, 20000) {
        let most = if r.chance(1, 3) { 14 } else { 11 };
        let n = if r.chance(1, 4) { r.i32(7, most) } else { r.i32(1, 6) };
        let gap = if n > 11 { r.i32(1, 2) } else if n > 6 { r.i32(1, 3) } else { r.i32(1, 6) };
        let xs = nodes(&mut r, n, gap);
        if xs[0] < -22 || xs[xs.len() - 1] > 22 { continue; }
        let deg = if n > 5 { 5 } else { r.i32(1, n) };
        let c: Vec<i32> = (0..deg).map(|_| r.i32(-3, 3)).collect();
        let p = |x: f64| c.iter().rev().fold(0.0, |a, c| a * x + *c as f64);
        let k = unit_of_length(&mut r);
        let unit = 2f64.powi(k);
        // so are ordinates
        let yu = 2f64.powi(*r.pick(&[0, 0, 0, 0, 24, -24, 120, -120]));
        let mut fx: Vec<f64> = xs.iter().map(|x| real(*x, k)).collect();
        let mut fy: Vec<f64> = fx.iter().map(|x| yu * p(*x / unit)).collect();
        let mut points = queries(&mut r, &xs, if n > 11 { 0 } else { 4 }, k);
        if r.chance(1, 2) {
            let j = r.i32(0, points.len() as i32 - 1) as usize;
            points.swap(0, j);
        }
        if r.chance(1, 3) {
            // other nodes were in the same place before, and were asked for the same point
            let (keep, ys) = (fx.clone(), fy.clone());
            for k in 1..fx.len().max(2) - 1 {
                let w = *r.pick(&[0.0, 0.0, 0.3, -0.3]);
                fx[k] += w * if w > 0.0 { keep[k + 1] - keep[k] } else { keep[k] - keep[k - 1] };
            }
            if r.chance(1, 2) { fy.iter_mut().for_each(|y| *y += yu * r.i32(-3, 3) as f64); }
            if let Some(m) = call(|| LagrangeInterpolation::new(&fx, &fy)) {
                ask(&m, points[0].2);
            }
            fx.copy_from_slice(&keep);
            fy.copy_from_slice(&ys);
        }
        let (nx, ny): (Vec<f64>, Vec<f64>) = (fx.clone(), fy.iter().map(|y| 3.0 * yu - *y).collect());
        let near = call(|| LagrangeInterpolation::new(&nx, &ny));
        let rebound = r.chance(1, 3);
        let (ox, oy): (Vec<f64>, Vec<f64>) = if rebound { ((0..n).map(|k| k as f64 * 3.0 - 7.0).collect(), (0..n).map(|_| yu * r.i32(-9, 9) as f64).collect()) } else { (fx.clone(), fy.clone()) };
        let l = match call(|| {
            let mut l = LagrangeInterpolation::new(&ox, &oy);
            if rebound {
                l.x = &fx;
                l.y = &fy;
                l.update();
            }
            l
        }) {
            Some(l) => l,
            None => {
                out.rec(obj! {k: "refused construction"});
                continue;
            }
        };
        let q: Vec<Raw> = points
            .into_iter()
            .map(|(x, u, f)| {
                if let (Some(m), true) = (&near, r.chance(1, 5)) { ask(m, f); }
                obj! {x: x, u: u, v: six(call(|| l.value(f) / yu)), d: six(call(|| l.derivative(f) / yu * unit)),
                      ev: six(call(|| l.value_with_extrapolation(f, true) / yu)), ed: six(call(|| l.derivative_with_extrapolation(f, true) / yu * unit)),
                      r: call(|| l.is_in_range(f)).unwrap_or(false)}
            })
            .collect();
        let ys: Vec<i32> = fy.iter().map(|y| six(Some(*y / yu))).collect();
        let at: Vec<Raw> = queries(&mut r, &xs, if n > 11 { 0 } else { 4 }, k)
            .into_iter()
            .map(|(x, u, f)| obj! {x: x, u: u, i: call(|| l.locate(f)).map_or(-1, |i| i as i32 + 1), c: call(|| l.check_range(f, false)).is_some(), ce: call(|| l.check_range(f, true)).is_some()})
            .collect();
        let odd: Vec<bool> = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, fx[n as usize - 1] + 1e300, fx[0] - 1e300]
            .iter()
            .flat_map(|f| vec![call(|| l.value(*f)).is_some(), call(|| l.derivative(*f)).is_some(), call(|| l.is_in_range(*f)).unwrap_or(true)])
            .collect();
        // where little is lost to rounding
        let by = if n <= 6 && xs.iter().all(|x| x.abs() <= 80) { beside(&mut r, &l, &xs, &fx, &fy, unit, yu) } else { vec![] };
        out.rec(obj! {k: "lagrange", by: by, at: at, odd: odd, xs: xs, ys: ys, c: c, lo: (l.xmin() / unit * GRID) as i32, hi: (l.xmax() / unit * GRID) as i32, q: q});
    }
}
