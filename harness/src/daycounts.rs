//! Day counters: counts and year fractions projected to exact integers.
use crate::business::conv;
use crate::dates::*;
use crate::periods::chunks;
use crate::schedules::*;
use crate::util::*;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::daycounters::{actual360::Actual360, actual366::Actual366, one::One, thirty365::Thirty365};
use rust_quantlib::datetime::date::Date;

pub const NA: i32 = -999999999;
/// v * k as an integer; a different sentinel when it is not one
pub fn exact(v: Option<f64>, k: f64) -> i32 {
    match v {
        None => NA,
        Some(v) => {
            let x = v * k;
            let r = x.round();
            if x.is_finite() && (x - r).abs() < 1e-4 && r.abs() < 2e9 { r as i32 } else { NA + 1 }
        }
    }
}
/// v with six decimals
pub fn fixed(v: Option<f64>) -> i32 {
    match v {
        None => NA,
        Some(v) => {
            let r = (v * 1e6).round();
            if r.is_finite() && r.abs() < 9.9e8 { r as i32 } else { NA + 1 }
        }
    }
}
fn both(dc: &DayCounter, a: &Date, b: &Date, k: f64, r: &mut Rng) -> (i32, i32) {
    // the reference period must not matter to these counters
    let (x, y) = if r.chance(1, 4) { (ser(r.i32(2, 109574)), ser(r.i32(2, 109574))) } else { (Date::default(), Date::default()) };
    (call(|| dc.day_count(a, b)).unwrap_or(NA), exact(call(|| dc.year_fraction(a, b, &x, &y)), k))
}
/// pairs: starts, with ends that are special relative to them
fn starts(r: &mut Rng, n: usize) -> Vec<i32> {
    let mut v: Vec<i32> = (2..70).chain(109574 - 70..=109574).filter(|_| r.chance(1, 4)).collect();
    v.extend([2, 3, 109573, 109574]);
    for _ in 0..n {
        let s = r.i32(100, 109400);
        v.push(special(r, s));
    }
    v
}
fn special(r: &mut Rng, s: i32) -> i32 {
    let d = ser(s.clamp(2, 109574));
    let y = if r.chance(1, 2) { d.year() } else { *r.pick(&[1900, 1904, 1999, 2000, 2001, 2003, 2004, 2100, 2096, 2199, d.year()]) };
    let x = match r.i32(0, 7) {
        0 => serial(mlen(2, y), 2, y) + r.i32(-2, 2),
        1 => serial(28, 2, y) + r.i32(0, 2),
        2 | 3 => d.end_of_month().serial_number() - r.i32(0, 2),
        4 => serial(*r.pick(&[29, 30, 31]), *r.pick(&[1, 3, 5, 7, 8, 10, 12]), y),
        5 => serial(1, r.i32(1, 12), y) - r.i32(0, 1),
        _ => s,
    };
    x.clamp(2, 109574)
}
fn ends(r: &mut Rng, s: i32, n: usize) -> Vec<i32> {
    let mut v = vec![s];
    for _ in 0..n {
        let t = match r.i32(0, 6) {
            0 => s + r.i32(-40, 40),
            1 => s + r.i32(-400, 400),
            2 => s + r.i32(-3000, 3000),
            3 => r.i32(2, 109574),
            4 => {
                // same day of month some months away
                let d = ser(s);
                let k = 12 * d.year() + d.month() as i32 - 1 + r.i32(-30, 30);
                let (y, m) = (k.div_euclid(12), k.rem_euclid(12) + 1);
                if !(1900..=2199).contains(&y) { s } else { serial((d.day_of_month() as i32).min(mlen(m, y)), m, y) + r.i32(-1, 1) }
            }
            _ => {
                let t = s + r.i32(-1500, 1500);
                special(r, t)
            }
        };
        v.push(t.clamp(2, 109574));
    }
    v
}

pub fn thirty(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(22);
    let (us, bb, eu, it, na) = (DayCounter::usa(), DayCounter::bond_basis(), DayCounter::european(), DayCounter::italian(), DayCounter::nasd());
    let (bb2, eu2) = (DayCounter::isma(), DayCounter::euro_bond_basis());
    let tf = DayCounter::Thirty365(Thirty365::new());
    let mut rec = |r: &mut Rng, s: i32, ts: &[i32]| {
        let a = ser(s);
        let q: Vec<Raw> = ts
            .iter()
            .map(|&t| {
                let b = ser(t);
                let term = *r.pick(&[t, t, s, 2, 40000]);
                let ge = if r.chance(1, 2) { DayCounter::german(ser(term)) } else { DayCounter::isda(ser(term)) };
                let alias = r.chance(1, 2);
                obj! {t: t, term: term, us: both(&us, &a, &b, 360.0, r), bb: both(if alias { &bb } else { &bb2 }, &a, &b, 360.0, r),
                      eu: both(if alias { &eu } else { &eu2 }, &a, &b, 360.0, r), it: both(&it, &a, &b, 360.0, r),
                      ge: both(&ge, &a, &b, 360.0, r), na: both(&na, &a, &b, 360.0, r), tf: both(&tf, &a, &b, 365.0, r)}
            })
            .collect();
        out.rec(obj! {k: "thirty", s: s, q: q});
    };
    for s in starts(&mut r, cfg.n(500, 8000)) {
        let ts = ends(&mut r, s, 24);
        rec(&mut r, s, &ts);
    }
    // all pairs of days around month ends of a leap and an ordinary year
    let days: Vec<i32> = (36500..36500 + if cfg.thorough { 1000 } else { 500 })
        .filter(|s| { let d = ser(*s); let m = d.day_of_month(); m >= 27 || m <= 1 })
        .filter(|_| cfg.thorough || r.chance(1, 2))
        .collect();
    for &s in &days {
        rec(&mut r, s, &days);
    }
}

pub fn actual(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(23);
    let (a0, a0i) = (DayCounter::actual360(), DayCounter::Actual360(Actual360::with_last_day(true)));
    let (a6, a6i) = (DayCounter::Actual366(Actual366::new()), DayCounter::Actual366(Actual366::with_last_day(true)));
    let one = DayCounter::One(One::new());
    let si = DayCounter::simple();
    for s in starts(&mut r, cfg.n(1000, 12000)) {
        let a = ser(s);
        let q: Vec<Raw> = ends(&mut r, s, 30)
            .iter()
            .map(|&t| {
                let b = ser(t);
                obj! {t: t, a0: both(&a0, &a, &b, 360.0, &mut r), a0i: both(&a0i, &a, &b, 360.0, &mut r), a6: both(&a6, &a, &b, 366.0, &mut r),
                      a6i: both(&a6i, &a, &b, 366.0, &mut r), one: both(&one, &a, &b, 1.0, &mut r), si: both(&si, &a, &b, 360.0, &mut r)}
            })
            .collect();
        out.rec(obj! {k: "actual", s: s, q: q});
    }
}

pub fn actact(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(24);
    let (isda, afb) = (DayCounter::actual_actual_isda(), DayCounter::actual_actual_afb());
    for s in starts(&mut r, cfg.n(800, 10000)) {
        let a = ser(s);
        let q: Vec<Raw> = ends(&mut r, s, 30)
            .iter()
            .map(|&t| {
                let b = ser(t);
                obj! {t: t, isda: both(&isda, &a, &b, 133590.0, &mut r), afb: both(&afb, &a, &b, 133590.0, &mut r)}
            })
            .collect();
        out.rec(obj! {k: "actact", s: s, q: q});
    }
}

pub fn isma(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(25);
    let old = DayCounter::actual_actual_old_isma();
    let mut q = vec![];
    for _ in 0..cfg.n(6000, 120000) {
        let m = *r.pick(&[1, 2, 3, 3, 4, 6, 6, 12, 5, 24, 36]);
        let p = |s: i32, k: i32| {
            call(|| (ser(s) + rust_quantlib::datetime::period::Period::new(k, unit(3))).serial_number()).unwrap_or(s)
        };
        let rs = { let x = r.i32(9000, 100000); special(&mut r, x).clamp(9000, 100000) };
        let re = match r.i32(0, 9) { 0 => rs + r.i32(-3, 20), 1 => rs + r.i32(1, 900), _ => p(rs, m) };
        let len = (re - rs).abs().max(20);
        let s = rs + match r.i32(0, 6) { 0 | 1 => r.i32(0, len), 2 => 0, 3 => -r.i32(0, 3 * len), 4 => -r.i32(1, len), _ => r.i32(0, len / 2) };
        let t = match r.i32(0, 7) { 0 => re, 1 => rs, 2 => re + r.i32(1, 4 * len), 3 => p(re, m * r.i32(1, 5)), 4 => s, _ => s + r.i32(-len, len) };
        let (s, t) = if r.chance(1, 10) { (t, s) } else { (s, t) };
        let (rs, re) = match r.i32(0, 12) { 0 => (2, 2), 1 => (rs, 2), 2 => (2, re), _ => (rs, re) };
        label(&format!("old isma {} {} {} {}", s, t, rs, re));
        if r.chance(1, 3) {
            // nearly the same question just before: its answer must not matter
            let (mut o, k) = ([s, t, rs, re], r.i32(0, 5).min(3) as usize);
            o[k] = match r.i32(0, 3) { 0 => 2, 1 => (o[k] + r.i32(-40, 40)).max(2), _ => (if k == 3 && rs > 2 { p(rs, *r.pick(&[1, 3, 6, 12])) } else { o[k] + r.i32(-400, 400) }).max(2) };
            let _ = call(|| old.year_fraction(&ser(o[0]), &ser(o[1]), &ser(o[2]), &ser(o[3])));
        }
        let v = call(|| old.year_fraction(&ser(s), &ser(t), &ser(rs), &ser(re)));
        let z = |x: i32| if x == 2 { 0 } else { x };
        q.push(obj! {s: s, t: t, rs: z(rs), re: z(re), v: fixed(v), n: old.day_count(&ser(s), &ser(t))});
    }
    for c in chunks(q, 100) {
        out.rec(obj! {k: "oldisma", q: c});
    }
    for k in 0..cfg.n(120, 1500) {
        let span = *r.pick(&[200, 900, 1800]);
        let mut w = window(&mut r, span);
        if w.a < 5200 || w.a > 100000 {
            continue;
        }
        w.lo = w.a - 3200;
        w.hi = w.a + span + 3200;
        let mut q = vec![];
        for j in 0..8 {
            let mut c = request(&mut r, &w, span, &[1, 2, 1, 2, 3, 4, 6, 7]);
            if c.n <= 0 {
                c.n = 6;
                c.u = 3;
            }
            if c.u <= 2 && r.chance(2, 3) {
                c.u = 3;
                c.n = *r.pick(&[1, 3, 6, 5, 12, 18, 36]);
            }
            label(&format!("isma {} {} {:?} on {}", k, j, c, w.name));
            let Some(s0) = call(|| c.build(&w.cal)) else { continue };
            let d: Vec<i32> = s0.dates().iter().map(|x| x.serial_number()).collect();
            let n = d.len();
            let dc = DayCounter::actual_actual_isma(s0.clone());
            // counters on other schedules, most with the same ends, are asked the same just before
            let mut others = vec![];
            for _ in 0..3 {
                let mut o = c.clone();
                match r.i32(0, 2) { 0 => { o.u = 3; o.n = *r.pick(&[1, 2, 3, 4, 6, 12]) } 1 => o.n += r.i32(1, 3), _ => { o.u = *r.pick(&[2, 3, 4]); o.n = r.i32(1, 8) } }
                if let Some(o) = call(|| o.build(&w.cal)) { others.push(DayCounter::actual_actual_isma(o)); }
            }
            let qq: Vec<Raw> = (0..16)
                .map(|_| {
                    let mut g = || match r.i32(0, 4) {
                        0 => d[0],
                        1 => d[n - 1],
                        2 => *r.pick(&d),
                        3 => d[0] + r.i32(-200, 0).max(-(d[n - 1] - d[0])) / r.i32(1, 40),
                        _ => r.i32(d[0], d[n - 1] + if d[n - 1] % 5 == 0 { 30 } else { 0 }),
                    };
                    let (s, t) = (g(), g());
                    if !others.is_empty() && r.chance(1, 2) {
                        let o = r.pick(&others);
                        let _ = call(|| o.year_fraction(&ser(s), &ser(t), &Date::default(), &Date::default()));
                        let _ = call(|| o.day_count(&ser(s), &ser(t)));
                    }
                    let v = call(|| dc.year_fraction(&ser(s), &ser(t), &Date::default(), &Date::default()));
                    obj! {s: s, t: t, v: fixed(v), n: call(|| dc.day_count(&ser(s), &ser(t))).unwrap_or(NA)}
                })
                .collect();
            q.push(obj! {conv: c.conv, s: seen(&s0), q: qq});
        }
        let _ = conv;
        out.rec(obj! {k: "isma", cal: w.name, base: w.base, lo: w.lo, hi: w.hi, hol: w.hol(), q: q});
    }
}
