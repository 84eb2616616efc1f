//! Interest rates and compounding (C32); also the numeric projections shared with coupons and bonds.
use crate::dates::*;
use crate::util::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::daycounters::{actual360::Actual360, actual366::Actual366, one::One, thirty365::Thirty365};
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::rates::compounding::Compounding;
use rust_quantlib::rates::interestrate::InterestRate;

/// sign and decimal limbs i + a/10^4 + b/10^8 + c/10^12; empty: refused; sign 9: not such a number
pub fn fx(v: Option<f64>) -> Vec<i32> {
    match v {
        None => vec![],
        Some(v) if !v.is_finite() || v.abs() >= 2e9 => vec![9, 0, 0, 0, 0],
        Some(v) => {
            let s = format!("{:.12}", v.abs());
            let (i, d) = s.split_once('.').unwrap();
            let limb = |k: usize| d[4 * k..4 * k + 4].parse::<i32>().unwrap();
            vec![if v < 0.0 { -1 } else { 1 }, i.parse().unwrap(), limb(0), limb(1), limb(2)]
        }
    }
}
thread_local! { static SCALE: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) }; }
/// the unit money is counted in: amounts given to the library are multiples of it
pub fn set_scale(s: f64) {
    SCALE.with(|x| x.set(s))
}
pub fn scale() -> f64 {
    SCALE.with(|x| x.get())
}
pub fn some_scale(r: &mut Rng, signed: bool) {
    let s = if r.chance(1, 2) { 1.0 } else { *r.pick(&[0.01, 0.1, 10.0, 100.0, 1e4, 1e6, 1e9]) };
    set_scale(if signed && r.chance(1, 6) { -s } else { s });
}
/// an amount of money, counted in that unit
pub fn fxm(v: Option<f64>) -> Vec<i32> {
    fx(v.map(|x| x / scale()))
}
/// a whole number of that unit
pub fn whole_units(x: f64) -> i32 {
    let n = x / scale();
    if (n - n.round()).abs() < 1e-6 && n.abs() < 2e9 { n.round() as i32 } else { -999999999 }
}
pub const DCS: [&str; 8] = ["actual360", "actual366", "bond-basis", "european", "usa", "thirty365", "simple", "one"];
/// and those that count the last day too
pub const DCX: [&str; 10] = ["actual360", "actual366", "bond-basis", "european", "usa", "thirty365", "simple", "actual360-inc", "actual366-inc", "one"];
pub fn dc_of(name: &str) -> DayCounter {
    match name {
        "actual360" => DayCounter::actual360(),
        "actual366" => DayCounter::Actual366(Actual366::new()),
        "actual360-inc" => DayCounter::Actual360(Actual360::with_last_day(true)),
        "actual366-inc" => DayCounter::Actual366(Actual366::with_last_day(true)),
        "bond-basis" => DayCounter::bond_basis(),
        "european" => DayCounter::european(),
        "usa" => DayCounter::usa(),
        "thirty365" => DayCounter::Thirty365(Thirty365::new()),
        "simple" => DayCounter::simple(),
        _ => DayCounter::One(One::new()),
    }
}
pub const COMPS: [&str; 5] = ["simple", "compounded", "continuous", "simple-then-compounded", "compounded-then-simple"];
pub fn comp_of(name: &str) -> Compounding {
    match name {
        "simple" => Compounding::Simple,
        "compounded" => Compounding::Compounded,
        "continuous" => Compounding::Continuous,
        "simple-then-compounded" => Compounding::SimpleThenCompounded,
        _ => Compounding::CompoundedThenSimple,
    }
}
pub const FREQS: [i32; 10] = [1, 2, 3, 4, 6, 12, 13, 26, 52, 365];
fn some_freq(r: &mut Rng) -> i32 {
    if r.chance(1, 10) { *r.pick(&[-1, 0]) } else { *r.pick(&FREQS) }
}
fn rate_out(x: &Option<InterestRate>) -> Vec<i32> {
    fx(x.as_ref().map(|x| x.rate))
}
fn f_of(n: i32) -> Frequency {
    Frequency::from(n)
}

pub fn rates(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(32);
    let mk = |rate: f64, dc: &str, c: &str, f: i32| call(|| InterestRate::new(rate, dc_of(dc), comp_of(c), f_of(f)));
    // a question differing in one respect only from the one about to be asked: its answer must not matter
    let before = |r: &mut Rng, rate: f64, comp: &str, f: i32, t: f64| {
        if r.chance(2, 3) {
            return;
        }
        let y = match r.i32(0, 4) {
            0 | 1 => mk(rate, "actual360", *r.pick(&COMPS), f),
            2 => mk(rate, "actual360", comp, *r.pick(&FREQS)),
            3 => mk(-rate, "actual360", comp, f),
            _ => mk(rate, "actual360", comp, f),
        };
        let t = if r.chance(1, 5) { t + *r.pick(&[-1.0, 1.0, 0.25, 1e-3]) } else { t };
        if let Some(y) = y {
            let _ = call(|| y.compound_factor(t));
            let _ = call(|| y.discount_factor(t));
        }
    };
    for _ in 0..cfg.n(1300, 16000) {
        let comp = *r.pick(&COMPS);
        let f = some_freq(&mut r);
        let (rn, negative) = (match r.i32(0, 12) { 0 => 0, 1 => r.i32(1, 300), 2 => r.i32(250000, 1500000), _ => r.i32(100, 250000) }, r.chance(1, 5));
        let negative = negative && rn <= 400000;
        let given = rn as f64 / 1e6 * if negative { -1.0 } else { 1.0 };
        let x = mk(given, "actual360", comp, f);
        let mut q = vec![];
        for _ in 0..8 {
            let d = *r.pick(&[1, 2, 4, 12, 360, 365, 366, 8, 3, 6, 13, 26, 52]);
            let mut n = match r.i32(0, 9) {
                0 => 0,
                1 => -r.i32(1, 3 * d),
                2 => r.i32(1, 3),
                3 | 4 if f > 0 => (d / f).max(1) + r.i32(-1, 1),          // around the first period
                _ => r.i32(1, 8 * d),
            };
            if rn <= 50000 && d <= 12 && f <= 4 && r.chance(1, 6) { n = r.i32(8 * d, 140 * d); }
            if n as f64 / d as f64 * rn as f64 / 1e6 > 7.0 { n = r.i32(1, 4 * d); }
            if negative && n as f64 / d as f64 * rn as f64 / 1e6 > 0.8 { n = r.i32(0, d); }
            let t = n as f64 / d as f64;
            let (c2, f2) = (*r.pick(&COMPS), if n > 8 * d { *r.pick(&[-1, 1, 2, 4]) } else { some_freq(&mut r) });
            before(&mut r, given, comp, f, t);
            let (cf, df) = match &x {
                None => (None, None),
                Some(x) => (call(|| x.compound_factor(t)), call(|| x.discount_factor(t))),
            };
            let eq = x.as_ref().and_then(|x| call(|| x.equivalent_rate(&comp_of(c2), f_of(f2), t)));
            let eqcf = eq.as_ref().and_then(|e| call(|| e.compound_factor(t)));
            q.push(obj! {n: n, d: d, cf: fx(cf), df: fx(df), comp: c2, f: f2, eq: rate_out(&eq), eqcf: fx(eqcf)});
        }
        let freq = x.as_ref().and_then(|x| call(|| x.frequency() as i32)).unwrap_or(-2);
        out.rec(obj! {k: "times", comp: comp, f: f, given: fx(Some(given)), rate: rate_out(&x), freq: freq, q: q});

        // implied
        let base = mk(0.01, "actual360", "simple", 1).unwrap();
        let mut q = vec![];
        for _ in 0..8 {
            let d = *r.pick(&[1, 2, 4, 12, 360, 365]);
            let n = match r.i32(0, 12) {
                0 => 0,
                1 => -r.i32(1, 100),
                _ => r.i32((d + 11) / 12, 6 * d),
            };
            let t = n as f64 / d as f64;
            let u = r.i32(-90000, 300000) as f64 / 1e6;
            let cm = match r.i32(0, 12) {
                0 => 1.0,
                1 => 0.0,
                2 => -0.5,
                _ => ((1.0 + u * t) * 1e6).round() / 1e6,
            };
            let (c2, f2) = (*r.pick(&COMPS), some_freq(&mut r));
            let (n, t, cm, c2) = if r.chance(1, 8) {
                // far from one over any time
                let n = if r.chance(1, 2) { r.i32(1, 3) + d / 60 } else { r.i32(1 + d / 60, 12 * d) };
                (n, n as f64 / d as f64, r.i32(1000, 5000000) as f64 / 1e6, "simple")
            } else { (n, t, cm, c2) };
            if r.chance(1, 3) {
                let (c3, f3, t3) = (if r.chance(1, 2) { c2 } else { *r.pick(&COMPS) }, *r.pick(&FREQS), if r.chance(1, 4) { t + 1.0 } else { t });
                let _ = call(|| base.implied_rate(cm, &dc_of("usa"), &comp_of(c3), f_of(f3), t3));
            }
            let im = call(|| base.implied_rate(cm, &dc_of("usa"), &comp_of(c2), f_of(f2), t));
            let rf = im.as_ref().and_then(|e| call(|| e.frequency() as i32)).unwrap_or(-2);
            q.push(obj! {n: n, d: d, c: fx(Some(cm)), comp: c2, f: f2, r: rate_out(&im), rf: rf});
        }
        out.rec(obj! {k: "implied", q: q});

        // between dates
        let dc = *r.pick(&DCX);
        let f = *r.pick(&FREQS);
        let x = match mk(given, dc, comp, f) {
            Some(x) => x,
            None => {
                out.rec(obj! {k: "refused construction"});
                continue;
            }
        };
        let mut q = vec![];
        for _ in 0..4 {
            let s = r.i32(1000, 60000);
            // over half a life, at low rates and few periods a year
            let long = !negative && rn <= 60000 && f <= 12 && r.chance(1, 4);
            let t = match r.i32(0, 9) {
                0 => s,
                1 => s - r.i32(1, 400),
                _ if long => s + r.i32(2500, 30000),
                _ => s + r.i32(1, if negative { 900 } else if rn > 300000 { 1200 } else { 2500 }),
            };
            let (a, b, z) = (ser(s), ser(t), Date::default());
            // counters of different kinds only over longer times
            let (c2, f2) = (*r.pick(&COMPS), if long { *r.pick(&[1, 2, 3, 4, 6, 12]) } else { *r.pick(&FREQS) });
            let dc2 = if dc == "one" { dc } else if (t - s).abs() >= 60 { *r.pick(&DCX[..9]) }
                else if r.chance(1, 2) { match dc { "actual360" => "actual360-inc", "actual360-inc" => "actual360", "actual366" => "actual366-inc", "actual366-inc" => "actual366", d => d } }
                else { dc };
            if r.chance(1, 3) {
                // the same dates asked of another rate just before
                let (dc3, c3) = (*r.pick(&DCS), *r.pick(&COMPS));
                let y = match r.i32(0, 2) { 0 => mk(given, dc3, comp, f), 1 => mk(given, dc, c3, f), _ => mk(given, dc, comp, *r.pick(&FREQS)) };
                if let Some(y) = y {
                    let _ = call(|| y.compound_factor_between_dates(&a, &b, &z, &z));
                    let _ = call(|| y.discount_factor_between_dates(&a, &b, &z, &z));
                }
            }
            let cf = call(|| x.compound_factor_between_dates(&a, &b, &z, &z));
            let df = call(|| x.discount_factor_between_dates(&a, &b, &z, &z));
            let eq = call(|| x.equivalent_rate_between_dates(&dc_of(dc2), &comp_of(c2), f_of(f2), &a, &b, &z, &z));
            let im = cf.and_then(|cf| call(|| x.implied_rate_between_dates(cf, &dc_of(dc2), &comp_of(c2), f_of(f2), &a, &b, &z, &z)));
            q.push(obj! {s: s, t: t, cf: fx(cf), df: fx(df), dc: dc2, comp: c2, f: f2, eq: rate_out(&eq), im: rate_out(&im)});
        }
        out.rec(obj! {k: "dates", dc: dc, comp: comp, f: f, rate: rate_out(&Some(x)), q: q});
    }
    // over reference periods, which some counters look at
    let mut r = cfg.rng(232);
    for _ in 0..cfg.n(700, 9000) {
        let s = r.i32(1000, 100000);
        let c = crate::coupons::some_coupon(&mut r, s, true);
        let dc = if r.chance(1, 3) { "isma" } else { c.dc };
        let rate = c.x.min(0.3);
        let x = match call(|| InterestRate::new(rate, crate::coupons::counter(dc), comp_of(c.comp), f_of(c.f))) {
            Some(x) => x,
            None => continue,
        };
        let z = |k: i32| if k == 0 { Date::default() } else { ser(k) };
        let mut q = vec![];
        for _ in 0..3 {
            let (a, b) = (ser(c.s), ser(c.t));
            let (rs, rt) = (z(c.rs), z(c.rt));
            let dc2 = if dc == "one" { dc } else if r.chance(1, 2) { "isma" } else { *r.pick(&["actual360", "actual366", "bond-basis", "european", "usa", "thirty365", "simple", "isda", "isma", "actual360-inc"]) };
            let (c2, f2) = (*r.pick(&COMPS), *r.pick(&[1, 2, 3, 4, 6, 12]));
            let d2 = crate::coupons::counter(dc2);
            if r.chance(1, 4) {
                // the same dates within another reference period just before
                let (o, p) = (z(c.s), z(c.t + 40));
                let _ = call(|| (x.compound_factor_between_dates(&a, &b, &o, &p), x.discount_factor_between_dates(&a, &b, &o, &p)));
            }
            let cf = call(|| x.compound_factor_between_dates(&a, &b, &rs, &rt));
            let df = call(|| x.discount_factor_between_dates(&a, &b, &rs, &rt));
            let eq = call(|| x.equivalent_rate_between_dates(&d2, &comp_of(c2), f_of(f2), &a, &b, &rs, &rt));
            let g = 1.0 + r.i32(1, 9000) as f64 / 1e5;
            let im = call(|| x.implied_rate_between_dates(g, &d2, &comp_of(c2), f_of(f2), &a, &b, &rs, &rt));
            q.push(obj! {cf: fx(cf), df: fx(df), dc: dc2, comp: c2, f: f2, eq: rate_out(&eq), g: fx(Some(g)), im: rate_out(&im)});
        }
        out.rec(obj! {k: "refs", s: c.s, t: c.t, rs: c.rs, rt: c.rt, dc: dc, comp: c.comp, f: c.f, rate: rate_out(&Some(x)), q: q});
    }
}
