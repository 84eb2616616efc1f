//! Accrual of fixed-rate coupons (C27).
use crate::dates::*;
use crate::legs::*;
use crate::rates::*;
use crate::util::*;
use rust_quantlib::cashflows::{cashflow::CashFlow, coupon::Coupon, fixedratecoupon::FixedRateCoupon};
use rust_quantlib::datetime::{date::Date, daycounter::DayCounter, frequency::Frequency};
use rust_quantlib::rates::interestrate::InterestRate;
use std::rc::Rc;

/// the counters of DCX, and two more that are only used where times are fixed-point numbers
pub fn counter(name: &str) -> DayCounter {
    match name {
        "isda" => DayCounter::actual_actual_isda(),
        "isma" => DayCounter::actual_actual_old_isma(),
        n => dc_of(n),
    }
}
pub const COUNTERS: [&str; 12] =
    ["actual360", "actual366", "bond-basis", "european", "usa", "thirty365", "simple", "one", "isda", "isma", "actual360-inc", "actual366-inc"];

#[derive(Clone, Debug)]
pub struct CouponT {
    pub pay: i32, pub nominal: i32, pub s: i32, pub t: i32, pub rs: i32, pub rt: i32, pub ex: i32,
    pub dc: &'static str, pub comp: &'static str, pub f: i32, pub x: f64, pub plain: bool,
}
pub fn some(s: i32) -> Option<Date> {
    if s == 0 { None } else { Some(ser(s)) }
}
impl CouponT {
    pub fn json(&self) -> Raw {
        obj! {pay: self.pay, nominal: self.nominal, s: self.s, t: self.t, rs: self.rs, rt: self.rt, ex: self.ex,
              dc: self.dc, comp: self.comp, f: self.f, x: fx(Some(self.x))}
    }
    pub fn make(&self) -> FixedRateCoupon {
        if self.plain {
            return FixedRateCoupon::new(ser(self.pay), self.nominal as f64 * scale(), self.x, counter(self.dc), ser(self.s), ser(self.t),
                some(self.rs), some(self.rt), some(self.ex));
        }
        let i = InterestRate::new(self.x, counter(self.dc), comp_of(self.comp), Frequency::from(self.f));
        FixedRateCoupon::with_interest_rate(ser(self.pay), self.nominal as f64 * scale(), i, ser(self.s), ser(self.t),
            some(self.rs), some(self.rt), some(self.ex))
    }
}
pub fn some_coupon(r: &mut Rng, s: i32, positive: bool) -> CouponT {
    let months = *r.pick(&[1, 3, 3, 6, 6, 12, 2, 4]);
    let regular = call(|| (ser(s) + rust_quantlib::datetime::period::Period::new(months, unit(3))).serial_number()).unwrap_or(s + 30 * months);
    let (t, rs, rt) = match r.i32(0, 7) {
        7 => { let more = r.i32(1, regular - s); (regular + more, s + more, regular + more) }  // long first
        6 => (regular - r.i32(1, (regular - s) / 3 + 1), s - r.i32(1, (regular - s) / 3 + 1), regular), // inside its reference period
        0 => (regular - r.i32(1, (regular - s) / 2 + 1), s, regular),                // short last
        1 => (regular, s - (regular - s) / 2, regular),                              // short first, roughly
        2 => (regular, 0, 0),
        3 => (regular + r.i32(1, 20), s, regular),
        _ => (regular, s, regular),
    };
    let t = t.max(s + 1);
    let pay = t + *r.pick(&[0, 0, 1, 2, 3, 10]);
    let ex = if r.chance(1, 2) { 0 } else { pay - r.i32(0, 12) };
    let plain = r.chance(1, 3);
    let comp = if plain { "simple" } else { *r.pick(&COMPS) };
    let f = if plain { 1 } else { *r.pick(&[1, 2, 4, 12, 1, 2, 4, 3, 6, 13, 26, 52, 365]) };
    let x = match r.i32(0, 15) { 0 => r.i32(15000, 90000), 1 => 0, _ => r.i32(if positive { 0 } else { -3000 }, 15000) } as f64 / 1e5;
    CouponT { pay, nominal: 100 * *r.pick(&[1, 1, 5, 10, 100]), s, t, rs, rt, ex, dc: *r.pick(&COUNTERS), comp, f, x, plain }
}
/// nearly the same coupon: one thing differs
pub fn other(r: &mut Rng, c: &CouponT) -> CouponT {
    let mut c = c.clone();
    match r.i32(0, 9) {
        0 | 1 => c.dc = *r.pick(&COUNTERS),
        2 => { c.plain = false; c.comp = *r.pick(&COMPS) }
        3 => { c.plain = false; c.f = *r.pick(&FREQS) }
        4 => c.x += *r.pick(&[0.01, -0.01]),
        5 => c.t += *r.pick(&[1, 30]),
        6 => c.s -= *r.pick(&[1, 30]),
        7 => { c.rs = 0; c.rt = 0 }
        8 => c.ex = if c.ex > 0 { 0 } else { c.pay - 5 },
        _ => c.pay += 3,
    }
    c
}
fn bits(v: Option<f64>) -> u64 {
    v.map(|x| x.to_bits()).unwrap_or(7)
}
pub fn coupons(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(27);
    for _ in 0..cfg.n(2500, 40000) {
        some_scale(&mut r, true);
        let mut s = r.i32(400, 106000);
        if r.chance(1, 3) { s = ser(s).end_of_month().serial_number(); }
        let mut c = some_coupon(&mut r, s, false);
        if r.chance(1, 12) {
            // one coupon over many years
            s = s.min(70000);
            let months = *r.pick(&[18, 24, 36, 60, 120, 300]);
            let regular = (ser(s) + rust_quantlib::datetime::period::Period::new(months, unit(3))).serial_number();
            let lag = c.pay - c.t;
            let exd = if c.ex > 0 { c.pay - c.ex } else { 0 };
            (c.s, c.t) = (s, regular - *r.pick(&[0, 0, 5, 200]));
            (c.rs, c.rt) = *r.pick(&[(s, regular), (s, regular), (0, 0), (s, c.t)]);
            c.pay = c.t + lag;
            c.ex = if exd > 0 { c.pay - exd } else { 0 };
            c.f = c.f.min(12);
            // a growth of at most about five, so that the twelve decimals of the specification suffice
            let most = (15 * 12000 / months).min(12000);
            if c.x * 1e5 > most as f64 { c.x = r.i32(1, most) as f64 / 1e5; }
        }
        // paid in advance of its accrual end
        if r.chance(1, 8) { c.pay = r.i32(c.s + 1, c.t); }
        label(&format!("coupon {:?}", c));
        let x = c.make();
        let rc: Rc<dyn Coupon> = Rc::new(x.clone());
        let rf: Rc<dyn CashFlow> = Rc::new(x.clone());
        let mut ds = vec![s - 3, s, s + 1, s + 2, c.t - 1, c.t, c.t + 1, c.pay - 1, c.pay, c.pay + 1];
        if c.ex > 0 { ds.extend([c.ex - 1, c.ex, c.ex + 1]); }
        for _ in 0..5 { ds.push(r.i32(s, c.t)); }
        let mut q = vec![];
        for d in ds {
            let dd = ser(d);
            if r.chance(1, 4) {
                // another coupon asked for the same day just before
                let y = other(&mut r, &c);
                if let Some(y) = call(|| y.make()) {
                    let _ = (call(|| y.accrued_amount(dd)), call(|| y.accrued_period(dd)), call(|| y.accrued_days(dd)), call(|| y.amount()));
                }
            }
            let (a, p, n) = (call(|| x.accrued_amount(dd)), call(|| x.accrued_period(dd)), call(|| x.accrued_days(dd)));
            let ok = bits(a) == bits(call(|| rf.accrued_amount(dd))) && bits(a) == bits(call(|| rc.accrued_amount(dd)))
                && bits(p) == bits(call(|| rc.accrued_period(dd))) && n == call(|| rc.accrued_days(dd));
            q.push(obj! {d: d, amount: fxm(a), period: fx(p), days: n.unwrap_or(-1), ok: ok});
        }
        let ok = bits(call(|| x.amount())) == bits(call(|| rf.amount()))
            && x.date() == ser(c.pay) && whole_units(x.nominal()) == c.nominal && x.rate() == c.x
            && x.accrual_start_date() == ser(s) && x.accrual_end_date() == ser(c.t)
            && x.reference_period_start() == some(c.rs).unwrap_or_default() && x.reference_period_end() == some(c.rt).unwrap_or_default()
            && null0(x.ex_coupon_date()) == c.ex
            && call(|| rc.accrual_days()) == call(|| x.accrual_days())
            && bits(call(|| rc.accrual_period())) == bits(call(|| x.accrual_period()));
        o.rec(obj! {k: "coupon", c: c.json(), amount: fxm(call(|| x.amount())), period: fx(call(|| x.accrual_period())),
            days: call(|| x.accrual_days()).unwrap_or(-1), ok: ok, q: q});
    }
}
