//! Fixed-rate legs (C26).
use crate::business::{conv, hols};
use crate::cals::*;
use crate::coupons::{counter, COUNTERS};
use crate::dates::*;
use crate::rates::*;
use crate::schedules::*;
use crate::util::*;
use rust_quantlib::cashflows::{cashflow::CashFlow, coupon::Coupon, fixedratecoupon::FixedRateCoupon, fixedrateleg::FixedRateLeg};
use rust_quantlib::datetime::{calendar::Calendar, date::Date, daycounter::DayCounter, frequency::Frequency, period::Period};
use rust_quantlib::rates::{compounding::Compounding, interestrate::InterestRate};
use std::rc::Rc;

/// which of the known day counters this one behaves like
pub fn dc_name(dc: &DayCounter) -> String {
    let z = Date::default();
    let probe = |d: &DayCounter| -> Option<Vec<(i32, u64)>> {
        call(|| {
            [(40000, 40400), (36585, 36616), (43131, 43159), (42794, 42825)]
                .iter()
                .map(|&(a, b)| (d.day_count(&ser(a), &ser(b)), d.year_fraction(&ser(a), &ser(b), &z, &z).to_bits()))
                .collect()
        })
    };
    let p = probe(dc);
    COUNTERS.iter().find(|n| probe(&counter(n)) == p).map(|s| s.to_string()).unwrap_or("?".into())
}
pub fn comp_name(c: &Compounding) -> &'static str {
    COMPS.iter().find(|n| comp_of(n) == *c).unwrap()
}
#[derive(Clone)]
pub struct RateT {
    pub dc: &'static str,
    pub comp: &'static str,
    pub f: i32,
    pub x: i32,
}
impl RateT {
    pub fn json(&self) -> Raw {
        let f = if self.comp == "simple" || self.comp == "continuous" { -1 } else { self.f };
        obj! {dc: self.dc, comp: self.comp, f: f, x: self.x}
    }
    pub fn rate(&self) -> InterestRate {
        InterestRate::new(self.x as f64 / 1e5, counter(self.dc), comp_of(self.comp), Frequency::from(self.f))
    }
}
pub fn rate_json(i: &InterestRate) -> Raw {
    obj! {dc: dc_name(&i.daycounter), comp: comp_name(&i.compounding), f: i.frequency() as i32, x: if (i.rate * 1e5 - (i.rate * 1e5).round()).abs() < 1e-7 { (i.rate * 1e5).round() as i32 } else { 999999999 }}
}
pub fn null0(d: Date) -> i32 {
    if d == Date::default() { 0 } else { d.serial_number() }
}
pub fn coupon_json(c: &FixedRateCoupon) -> Raw {
    obj! {pay: c.date().serial_number(), nominal: whole_units(c.nominal()), s: c.accrual_start_date().serial_number(),
          t: c.accrual_end_date().serial_number(), rs: null0(c.reference_period_start()), rt: null0(c.reference_period_end()),
          ex: null0(c.ex_coupon_date()), rate: rate_json(&c.rate)}
}
/// the coupon says the same through every way of asking
fn consistent(c: &FixedRateCoupon) -> bool {
    let rc: Rc<dyn Coupon> = Rc::new(c.clone());
    c.date() == c.payment_date
        && c.rate() == c.rate.rate
        && rc.rate() == c.rate()
        && rc.nominal() == c.nominal
        && rc.date() == c.payment_date
        && rc.accrual_start_date() == c.accrual_start_date
        && rc.accrual_end_date() == c.accrual_end_date
        && rc.reference_period_start() == c.ref_period_start
        && rc.reference_period_end() == c.ref_period_end
        && rc.ex_coupon_date() == c.ex_coupon_date
        && dc_name(c.day_counter()) == dc_name(&c.rate.daycounter)
}

pub fn cal_json(name: &str, c: &Calendar, lo: i32, hi: i32) -> Raw {
    let base = match name { "Null" => 1, "WeekendsOnly" => 2, _ => 0 };
    let hol: Vec<i32> = if base > 0 { vec![] } else { hols(c, lo, hi) };
    obj! {base: base, hol: hol}
}
/// three calendars: the schedule's, and two for payment and ex-coupon dates
pub fn three(r: &mut Rng, span: i32) -> (Window, Vec<Calendar>, i32, i32, Vec<Raw>) {
    let w = window(r, span);
    let (lo, hi) = (w.a - 1700, w.a + span + 1000);
    let base_name = if w.base == 1 { "Null" } else if w.base == 2 { "WeekendsOnly" } else { "" };
    let names = if span > 10000 { [base_name, *r.pick(&["Null", "WeekendsOnly"]), *r.pick(&["Null", "WeekendsOnly"])] } else { [base_name, *r.pick(&["Null", "WeekendsOnly", "TARGET", "USNyse"]), *r.pick(&["Null", "WeekendsOnly", "UKSettlement"])] };
    let cs = vec![w.cal.clone(), cal(names[1]), cal(names[2])];
    let js = (0..3).map(|k| cal_json(names[k], &cs[k], lo, hi)).collect();
    (w, cs, lo, hi, js)
}
pub fn some_rate(r: &mut Rng) -> RateT {
    RateT { dc: *r.pick(&COUNTERS), comp: *r.pick(&COMPS), f: *r.pick(&[1, 2, 4, 12, 3, 6, 26, 365]), x: if r.chance(1, 8) { r.i32(9000, 150000) } else { r.i32(-500, 9000) } }
}
fn amounts(r: &mut Rng, n: usize) -> Vec<i32> {
    (0..n).map(|_| 100 * r.i32(1, 50)).collect()
}
pub fn legs(cfg: &Cfg, o: &mut Out) {
    let text = std::fs::read_to_string(cfg.input.as_ref().expect("behaviours")).unwrap();
    let mut r = cfg.rng(26);
    let mut lines: Vec<Vec<(i32, i32)>> =
        text.lines().map(|l| l.split_whitespace().map(|x| x.parse::<i32>().unwrap()).map(|x| (x / 10, x % 10)).collect()).collect();
    for _ in 0..cfg.n(900, 6000) {
        lines.push((0..r.i32(0, 9)).map(|_| (r.i32(1, 12), r.i32(0, 1))).collect());
    }
    let mut k = 0;
    for (j, chunk) in lines.chunks(12).enumerate() {
        // some reach over half a century
        let span = if j % 10 == 4 { 20000 } else { 900 };
        let (w, cs, lo, hi, js) = three(&mut r, span);
        let mut q = vec![];
        for calls in chunk {
            some_scale(&mut r, true);
            k += 1;
            let mut sched = None;
            let ends = span == 900 && r.chance(1, 12);
            let most = if r.chance(1, 15) { 180 } else if span > 900 { *r.pick(&[70, 70, 700]) } else { 30 };
            while sched.is_none() {
                let mut c = request(&mut r, &w, span, &[1, 1, 2, 3, 6, 9]);
                if most > 70 && span == 900 && r.chance(1, 2) {
                    // many short periods
                    c.u = 1;
                    c.n = r.i32(5, 7);
                    c.term = c.eff.max(w.a) + r.i32(600, 880);
                }
                if most == 700 {
                    // hundreds of monthly periods
                    c.u = 3;
                    c.n = 1;
                    c.term = c.eff.max(w.a) + r.i32(9000, 19000);
                }
                if ends {
                    // periods of months between the last days of months, holidays or not
                    let last = |x: i32| ser(x).end_of_month().serial_number();
                    (c.u, c.n, c.rule, c.eom, c.conv, c.tconv, c.first, c.ntl) = (3, *r.pick(&[1, 1, 2, 3]), 1, true, 5, 5, 0, 0);
                    c.eff = last(c.eff.max(w.a));
                    c.term = last(c.eff + r.i32(300, 840));
                }
                sched = call(|| c.build(&w.cal)).filter(|s| s.size() <= most).map(|s| (c, s));
                if !ends && r.chance(1, 6) {
                    if let Some((c, s)) = sched.take() {
                        // a truncated schedule
                        let d = s.dates();
                        let t = ser(d[0].serial_number() + r.i32(1, (d[d.len() - 1] - d[0]).max(2) - 1));
                        sched = call(|| if r.chance(1, 2) { s.after(&t) } else { s.until(&t) }).map(|s| (c, s));
                    }
                }
            }
            let (c, s) = sched.unwrap();
            label(&format!("leg {} {:?} {:?}", k, calls, c));
            let m = s.size() - 1;
            let size = |r: &mut Rng| -> usize { (if m > 200 { *r.pick(&[1, m, m + 1, m - 1, (m + 1) / 2]) } else { *r.pick(&[1, 1, 2, m, m + 1, (m + 1) / 2]) }).max(1) };
            let empty = r.chance(1, 4);
            let (a, b) = (size(&mut r), size(&mut r));
            let n0: Vec<i32> = if empty && r.chance(2, 3) { vec![] } else { amounts(&mut r, a) };
            let r0: Vec<RateT> = if empty && r.chance(2, 3) { vec![] } else { (0..b).map(|_| some_rate(&mut r)).collect() };
            let reals = |v: &[i32]| -> Vec<f64> { v.iter().map(|x| *x as f64 * scale()).collect() };
            let mut ops: Vec<Raw> = vec![];
            let mut leg = FixedRateLeg::new(s.clone(), reals(&n0), r0.iter().map(|x| x.rate()).collect());
            let more: Vec<(i32, i32)> = if ends { vec![(10, 9), (12, r.i32(0, 1))] } else { vec![] };
            for &(op, arg) in calls.iter().chain(more.iter()) {
                let many = if arg == 0 { size(&mut r) } else { 1 };
                leg = match op {
                    1 => { let v = amounts(&mut r, 1); ops.push(obj! {o: 1, v: v}); leg.with_notional(v[0] as f64 * scale()) }
                    2 => { let v = amounts(&mut r, many); ops.push(obj! {o: 2, v: v}); leg.with_notionals(reals(&v)) }
                    3 | 4 => {
                        let x = some_rate(&mut r);
                        let n = if op == 3 { 1 } else { many };
                        let v: Vec<RateT> = (0..n).map(|_| RateT { x: r.i32(1, 9000), ..x.clone() }).collect();
                        ops.push(obj! {o: op, v: v.iter().map(|x| x.json()).collect::<Vec<_>>()});
                        let (dc, comp, f) = (counter(x.dc), comp_of(x.comp), Frequency::from(x.f));
                        if op == 3 { leg.with_coupon_rate(v[0].x as f64 / 1e5, dc, comp, f) }
                        else { leg.with_coupon_rates(v.iter().map(|x| x.x as f64 / 1e5).collect(), dc, comp, f) }
                    }
                    5 | 6 => {
                        let v: Vec<RateT> = (0..if op == 5 { 1 } else { many }).map(|_| some_rate(&mut r)).collect();
                        ops.push(obj! {o: op, v: v.iter().map(|x| x.json()).collect::<Vec<_>>()});
                        if op == 5 { leg.with_interest_rate(v[0].rate()) } else { leg.with_interest_rates(v.iter().map(|x| x.rate()).collect()) }
                    }
                    7 | 8 => {
                        let dc = *r.pick(&COUNTERS);
                        ops.push(obj! {o: op, v: dc});
                        if op == 7 { leg.with_first_period_daycounter(counter(dc)) } else { leg.with_last_period_daycounter(counter(dc)) }
                    }
                    9 => { ops.push(obj! {o: 9, v: 2 + arg}); leg.with_payment_calendar(cs[1 + arg as usize].clone()) }
                    10 => { let v = if arg == 9 { 5 } else { r.i32(1, 7) }; ops.push(obj! {o: 10, v: v}); leg.with_payment_adjustment(conv(v)) }
                    11 => { let v = if r.chance(1, 5) { r.i32(-12, 40) } else { r.i32(-1, 5) }; ops.push(obj! {o: 11, v: v}); leg.with_payment_lag(v) }
                    _ => {
                        let (n, u) = if ends { (r.i32(1, 4), 3) } else { *r.pick(&[(2, 1), (7, 1), (1, 2), (1, 3), (0, 1), (10, 1), (2, 3)]) };
                        let (cv, e, cx) = (r.i32(1, 7), r.chance(1, 2), 1 + (arg as usize) + r.i32(0, 1) as usize);
                        ops.push(obj! {o: 12, v: (n, u, cx, cv, e)});
                        leg.with_ex_coupon_period(Period::new(n, unit(u)), cs[cx - 1].clone(), conv(cv), e)
                    }
                };
            }
            let built = call(|| leg.build());
            let ok = built.as_ref().map(|l| l.iter().all(consistent)).unwrap_or(true);
            q.push(obj! {s: seen(&s), conv: c.conv, init: obj! {n: n0, r: r0.iter().map(|x| x.json()).collect::<Vec<_>>()}, ops: ops,
                built: built.is_some(), ok: ok, leg: built.unwrap_or_default().iter().map(coupon_json).collect::<Vec<_>>()});
        }
        o.rec(obj! {k: "leg", lo: lo, hi: hi, cals: js, q: q});
    }
}
