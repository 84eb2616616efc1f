//! Period arithmetic, comparison and frequencies.
use crate::dates::*;
use crate::schedules::unit_of;
use crate::util::*;
use rust_quantlib::datetime::{frequency::Frequency, period::Period};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn pr(p: Option<Period>) -> Vec<i32> {
    p.map(|p| vec![p.length, unit_of(p.unit)]).unwrap_or_default()
}
fn ord(o: Option<Ordering>) -> i32 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 9,
    }
}
fn hash(p: &Period) -> u64 {
    let mut h = DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}
fn scaled(v: Option<f64>, k: f64) -> Vec<i32> {
    match v {
        None => vec![],
        Some(v) => {
            let x = v * k;
            let r = x.round();
            vec![r as i32, ((x - r).abs() < 1e-6) as i32]
        }
    }
}
fn p(n: i32, u: i32) -> Period {
    Period::new(n, unit(u))
}
/// lengths around everything special, and random ones
fn lengths(r: &mut Rng, k: usize) -> Vec<i32> {
    let mut v: Vec<i32> = (-14..=14).collect();
    for x in [20, 21, 24, 28, 29, 30, 31, 32, 35, 36, 48, 52, 53, 56, 59, 60, 61, 62, 63, 84, 89, 90, 91, 92, 93, 104, 120, 168,
              360, 364, 365, 366, 367, 372, 730, 731, 732, 1000] {
        v.push(x);
        v.push(-x);
    }
    for _ in 0..k {
        let m = *r.pick(&[100, 1000, 100000, 1000000]);
        v.push(r.i32(-m, m));
    }
    v
}

pub fn arithmetic(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(12);
    let ls = lengths(&mut r, cfg.n(20, 100));
    for u in 1..=4 {
        for &n in &ls {
            let a = p(n, u);
            let mut ks: Vec<i32> = (-13..=13).collect();
            for _ in 0..10 {
                ks.push(r.i32(-400, 400));
            }
            ks.extend([n, -n, 12 * n.clamp(-1000, 1000), 28, 31, 52, 84, 365]);
            let q: Vec<Raw> = ks
                .iter()
                .map(|&k| {
                    let m = if n.abs() > 2000000 / k.abs().max(1) { 1 } else { k };
                    obj! {k: k, mul: if m == k { pr(call(|| a * k)) } else { vec![] }, div: pr(call(|| a / k)),
                          dva: pr(call(|| { let mut b = a; b /= k; b }))}
                })
                .zip(ks.iter())
                .filter(|(_, k)| (n as i64 * **k as i64).abs() <= 2000000)
                .map(|x| x.0)
                .collect();
            out.rec(obj! {k: "one", p: (n, u), q: q, neg: pr(call(|| -a)),
                norm: pr(call(|| { let mut b = a; b.normalise(); b })), normd: pr(call(|| a.normalised())),
                years: scaled(call(|| a.years()), 12.0), months: scaled(call(|| a.months()), 1.0),
                weeks: scaled(call(|| a.weeks()), 7.0), days: scaled(call(|| a.days()), 1.0),
                lim: call(|| a.days_min_max()).map(|x| vec![x.0, x.1]).unwrap_or(vec![0, 1])});
        }
    }
    let small: Vec<i32> = if cfg.thorough { ls.clone() } else { ls.iter().cloned().filter(|_| r.chance(1, 2)).collect() };
    for u in 1..=4 {
        for &n in &small {
            let a = p(n, u);
            let q: Vec<Raw> = (1..=4)
                .flat_map(|v| small.iter().map(move |&m| (m, v)).collect::<Vec<_>>())
                .filter(|_| cfg.thorough || r.chance(1, 3))
                .map(|(m, v)| {
                    let b = p(m, v);
                    obj! {q: (m, v), add: pr(call(|| { let mut x = a; x += b; x })),
                          sub: pr(call(|| { let mut x = a; x -= b; x }))}
                })
                .collect();
            out.rec(obj! {k: "pairs", p: (n, u), q: q});
        }
    }
    for _ in 0..cfg.n(600, 6000) {
        let mut a = p(r.i32(-40, 40), r.i32(1, 4));
        let start = (a.length, unit_of(a.unit));
        let mut h: Vec<Raw> = vec![];
        let fam = r.i32(0, 1);
        for _ in 0..14 {
            let op = r.i32(1, 6);
            let u = if r.chance(1, 8) { r.i32(1, 4) } else { 1 + 2 * fam + r.i32(0, 1) };
            let n = *r.pick(&[0, 1, -1, 2, 3, 5, 7, 12, -12, 14, 30]);
            let k = *r.pick(&[0, 1, -1, 2, 3, -3, 4, 5, 6, 7, 12]);
            let o = if op <= 2 { (op, n, u) } else { (op, k, 0) };
            let before = a;
            let ok = call(|| match op {
                1 => a += p(n, u),
                2 => a -= p(n, u),
                3 => a /= k,
                4 => a.normalise(),
                5 => a = a * if (a.length as i64 * k as i64).abs() < 10000 { k } else { 1 },
                _ => a = -a,
            })
            .is_some();
            let o = if op == 5 && (before.length as i64 * k as i64).abs() >= 10000 { (5, 1, 0) } else { o };
            h.push(obj! {o: o, ok: ok, s: (a.length, unit_of(a.unit))});
        }
        out.rec(obj! {k: "history", p: start, h: h});
    }
}

pub fn order(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(13);
    let ls = lengths(&mut r, cfg.n(10, 60));
    let dates = [2, 33, 60, 61, 36528, 36585, 36584, 40000, 40574, 109574];
    for u in 1..=4 {
        for &n in &ls {
            let a = p(n, u);
            // partners: everything small, and lengths around the boundary of the other units
            let mut qs: Vec<(i32, i32)> = vec![];
            for v in 1..=4 {
                for &m in &ls {
                    if cfg.thorough || r.chance(1, 6) {
                        qs.push((m, v));
                    }
                }
                let f = [1.0, 7.0, 30.4, 365.25];
                for g in [28.0 / 30.4, 1.0, 31.0 / 30.4, 0.998, 1.002] {
                    let m = (n as f64 * f[u as usize - 1] / f[v as usize - 1] * g).round() as i32;
                    if m.abs() < 2_000_000 {
                        for d in [-1, 0, 1] {
                            qs.push((m + d, v));
                        }
                    }
                }
            }
            let q: Vec<Raw> = qs
                .iter()
                .map(|&(m, v)| {
                    let b = p(m, v);
                    let ds: Vec<(i32, i32, i32)> = (0..3)
                        .map(|_| {
                            let s = if r.chance(1, 2) { *r.pick(&dates) } else { r.i32(2, 109574) };
                            let at = |x: Period| {
                                if x.length.abs() > 120000 { -1 } else { call(|| (ser(s) + x).serial_number()).unwrap_or(-1) }
                            };
                            (s, at(a), at(b))
                        })
                        .collect();
                    let c = |f: &dyn Fn() -> bool| call(f).map(|b| b as i32).unwrap_or(-1);
                    obj! {q: (m, v), cmp: call(|| ord(a.partial_cmp(&b))).unwrap_or(8), rev: call(|| ord(b.partial_cmp(&a))).unwrap_or(8),
                          eq: c(&|| a == b), qe: c(&|| b == a), lt: c(&|| a < b), gt: c(&|| a > b), le: c(&|| a <= b), ge: c(&|| a >= b),
                          hash: hash(&a) == hash(&b), dates: ds}
                })
                .collect();
            for ch in chunks(q, 60) {
                out.rec(obj! {k: "order", p: (n, u), q: ch});
            }
        }
    }
}
pub fn chunks<T>(v: Vec<T>, n: usize) -> Vec<Vec<T>> {
    let mut res = vec![];
    let mut cur = vec![];
    for x in v {
        cur.push(x);
        if cur.len() == n {
            res.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        res.push(cur);
    }
    res
}

pub fn frequencies(cfg: &Cfg, out: &mut Out) {
    let mut q: Vec<Raw> = vec![];
    for c in (-20..=1100).chain([-1000000, 1000000, i32::MAX, i32::MIN + 1, 9999, 3650]) {
        let f = call(|| Frequency::from(c));
        let code = f.map(|f| i32::from(f)).unwrap_or(-2);
        let real = f.map(|f| f64::from(f) as i32).unwrap_or(-2);
        let per = f.and_then(|f| call(|| Period::from(f)));
        let back = per.and_then(|x| call(|| i32::from(x.frequency()))).unwrap_or(-2);
        let name = f.map(|f| {
            use Frequency::*;
            f == match c {
                -1 => NoFrequency, 0 => Once, 1 => Annual, 2 => Semiannual, 3 => EveryFourthMonth, 4 => Quarterly,
                6 => Bimonthly, 12 => Monthly, 13 => EveryFourthWeek, 26 => Biweekly, 52 => Weekly, 365 => Daily,
                _ => OtherFrequency,
            }
        });
        q.push(obj! {c: c, f: code, r: real, p: pr(per), b: back, name: name.unwrap_or(false)});
    }
    for ch in chunks(q, 40) {
        out.rec(obj! {k: "codes", q: ch});
    }
    let mut r = cfg.rng(14);
    let mut q: Vec<(i32, i32, i32)> = vec![];
    for u in 1..=4 {
        for n in (-800..=1100).chain((0..cfg.n(300, 20000)).map(|_| r.i32(-1000000, 1000000))) {
            q.push((n, u, call(|| i32::from(p(n, u).frequency())).unwrap_or(-2)));
        }
    }
    for ch in chunks(q, 200) {
        out.rec(obj! {k: "freq", q: ch});
    }
}
