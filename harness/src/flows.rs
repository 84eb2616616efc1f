//! Legs of cash flows: queries (C28), present values (C30) and yields (C31).
use crate::coupons::*;
use crate::dates::*;
use crate::rates::*;
use crate::util::*;
use rust_quantlib::cashflows::{
    cashflow::{self, CashFlow, CashFlowLeg},
    coupon::{Coupon, CouponLeg},
    fixedratecoupon::FixedRateCoupon,
    simplecashflow::{AmortizingPayment, Redemption, SimpleCashFlow},
};
use rust_quantlib::pricingengines::bond::bondfunctions;
use rust_quantlib::cashflows::irrfinder::IrrFinder;
use rust_quantlib::maths::solvers1d::newtonsafe::NewtonSafe;
use rust_quantlib::datetime::{date::Date, frequency::Frequency, period::Period};
use rust_quantlib::rates::interestrate::InterestRate;
use std::rc::Rc;

/// the same answer, up to rounding
fn alike(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()),
        _ => false,
    }
}

#[derive(Clone, Debug)]
pub enum FlowT {
    C(CouponT),
    P(i32, i32, i32), // kind 1..3, date, amount in thousandths
}
impl FlowT {
    pub fn date(&self) -> i32 {
        match self { FlowT::C(c) => c.pay, FlowT::P(_, d, _) => *d }
    }
    pub fn make(&self) -> Rc<dyn CashFlow> {
        match self {
            FlowT::C(c) => Rc::new(c.make()),
            FlowT::P(1, d, a) => Rc::new(SimpleCashFlow::new(*a as f64 / 1e3 * scale(), ser(*d))),
            FlowT::P(2, d, a) => Rc::new(Redemption::new(*a as f64 / 1e3 * scale(), ser(*d))),
            FlowT::P(_, d, a) => Rc::new(AmortizingPayment::new(*a as f64 / 1e3 * scale(), ser(*d))),
        }
    }
    pub fn json(&self, amount: Option<f64>) -> Raw {
        match self {
            FlowT::C(c) => obj! {kind: 0, c: c.json(), amount: fxm(amount)},
            FlowT::P(k, d, a) => obj! {kind: *k, date: *d, amount: fx(Some(*a as f64 / 1e3))},
        }
    }
}
/// consecutive coupons, as a leg would have them
pub fn chain(r: &mut Rng, from: i32, n: usize, dcs: &[&'static str], ex: bool) -> Vec<CouponT> {
    let months = if n > 30 { *r.pick(&[3, 6, 6, 12]) } else { *r.pick(&[3, 6, 6, 12, 3, 6, 12, 1, 2, 4, 24, 36]) };
    // clear of the last supported date
    let from = from.min(109574 - 80 - 31 * months * n as i32);
    let mut v = vec![];
    let mut proto = some_coupon(r, from, true);
    if n > 60 || n as i32 * months > 240 {
        // amounts times years stay within the specification's numbers
        proto.nominal = 100;
        if proto.x > 0.15 { proto.x /= 8.0; proto.x = (proto.x * 1e5).round() / 1e5; }
    }
    let dc = *r.pick(dcs);
    let lag = *r.pick(&[0, 0, 1, 2]);
    let exd = if ex && r.chance(1, 2) { r.i32(1, 12) } else { 0 };
    let step = |k: i32| call(|| (ser(from) + Period::new(k * months, unit(3))).serial_number()).unwrap();
    for k in 0..n as i32 {
        let (a, b) = (step(k), step(k + 1));
        let stub = k == 0 && r.chance(1, 3);
        let s = if stub { a + (b - a) / 3 } else { a };
        let ex = if exd > 0 { b + lag - exd } else { 0 };
        v.push(CouponT { pay: b + lag, s, t: b, rs: a, rt: b, ex, dc, plain: true, comp: "simple", f: 1, nominal: proto.nominal.min(1000), ..proto.clone() });
    }
    v
}
pub fn payments(r: &mut Rng, from: i32, n: usize, negative: bool) -> Vec<FlowT> {
    (0..n)
        .map(|_| {
            let a = r.i32(1, 400) * *r.pick(&[125, 500, 1000]);
            FlowT::P(r.i32(1, 3), from + *r.pick(&[30, 60, 91, 182, 365, 730]) * r.i32(1, 3) + r.i32(0, 3), if negative && r.chance(1, 4) { -a } else { a })
        })
        .collect()
}
fn inc(r: &mut Rng, from: i32, k: i32) -> Vec<FlowT> {
    let n = r.i32(1, 7) as usize;
    match k {
        0 => chain(r, from, n, &COUNTERS, true).into_iter().map(FlowT::C).collect(),
        1 => { let m = r.i32(1, 6) as usize; payments(r, from, m, true) }
        _ => {
            let mut v: Vec<FlowT> = chain(r, from, n, &COUNTERS, true).into_iter().map(FlowT::C).collect();
            let last = v[v.len() - 1].date();
            v.push(FlowT::P(2, last, 100000));
            if r.chance(1, 3) { v.extend(payments(r, from, 2, false)); }
            v
        }
    }
}

pub fn queries(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(28);
    for _ in 0..cfg.n(900, 15000) {
        some_scale(&mut r, true);
        let from = r.i32(800, 101000);
        let kind = r.i32(0, 2);
        let mut fs = inc(&mut r, from, kind);
        if kind == 0 && r.chance(1, 3) {
            // further coupons, some paid on the same days
            let c2 = some_coupon(&mut r, from, false);
            let m = fs.len();
            for k in 0..m {
                if let FlowT::C(c) = fs[k].clone() {
                    fs.push(FlowT::C(CouponT { nominal: 300, x: c2.x, ..c }));
                }
            }
            fs.push(FlowT::C(c2));
        }
        if r.chance(1, 60) {
            let m = r.i32(60, 140) as usize;
            fs.extend(payments(&mut r, from, m, true));
        }
        if r.chance(5, 6) { fs.sort_by_key(|f| f.date()); }
        label(&format!("leg {:?}", fs));
        let leg: CashFlowLeg = fs.iter().map(|f| f.make()).collect();
        let coupons: Vec<FixedRateCoupon> = fs.iter().filter_map(|f| if let FlowT::C(c) = f { Some(c.make()) } else { None }).collect();
        let all = coupons.len() == fs.len();
        let cleg: CouponLeg = coupons.iter().map(|c| Rc::new(c.clone()) as Rc<dyn Coupon>).collect();
        let mut ds: Vec<i32> = vec![];
        for _ in 0..12 {
            let f = r.pick(&fs).clone();
            let near = match &f {
                FlowT::C(c) => *r.pick(&[c.pay, c.s, c.t, if c.ex > 0 { c.ex } else { c.pay }, r.0 as i32 % 7 + c.s + 20]),
                f => f.date(),
            };
            ds.push(near.abs().clamp(3, 109000) + r.i32(-1, 1));
        }
        let mut same = true;
        let mut q = vec![];
        for d in ds {
            let dd = ser(d);
            let occ: Vec<(bool, bool)> = leg.iter().map(|f| (f.has_occurred(&dd, false), f.has_occurred(&dd, true))).collect();
            // the same through the shared pointer itself, as generic code sees it
            fn through<T: CashFlow>(x: &T, d: Date) -> (bool, bool, bool) {
                (x.trading_ex_coupon(d), x.has_occurred(&d, false), x.has_occurred(&d, true))
            }
            let ex: Vec<bool> = leg.iter().map(|f| (**f).trading_ex_coupon(dd)).collect();
            let exs: Vec<bool> = leg.iter().map(|f| through(f, dd).0).collect();
            same &= leg.iter().zip(&occ).all(|(f, o)| (through(f, dd).1, through(f, dd).2) == *o);
            let nx = |i: bool| call(|| cashflow::next_cashflow(&leg, i, dd)).map(|x| x.map(|k| k as i32 + 1).unwrap_or(0)).unwrap_or(-1);
            let acc = |i: bool| fxm(call(|| cashflow::accrued_amount(&leg, i, dd)));
            let cacc = |i: bool| fxm(call(|| cashflow::accrued_amount(&coupons, i, dd)));
            let days = |i: bool| call(|| cashflow::accrued_days(&coupons, i, dd)).unwrap_or(-1);
            let per = |i: bool| fx(call(|| cashflow::accrued_period(&coupons, i, dd)));
            same &= days(false) == call(|| cashflow::accrued_days(&cleg, false, dd)).unwrap_or(-1)
                && per(false) == fx(call(|| cashflow::accrued_period(&cleg, false, dd)))
                && cacc(true) == fxm(call(|| cashflow::accrued_amount(&cleg, true, dd)))
                // a bond's view of the same flows, per 100 of a notional of 100
                && days(false) == call(|| bondfunctions::accrued_days(&cleg, dd)).unwrap_or(-1)
                && per(false) == fx(call(|| bondfunctions::accrued_period(&coupons, dd)))
                && alike(call(|| bondfunctions::accrued_amount(&leg, 100.0, dd)), call(|| cashflow::accrued_amount(&leg, false, dd)))
                && alike(call(|| bondfunctions::accrued_amount(&coupons, 50.0, dd)), call(|| 2.0 * cashflow::accrued_amount(&coupons, false, dd)));
            q.push(obj! {d: d, occ: occ, ex: ex, exs: exs, nx: (nx(false), nx(true)), acc: (acc(false), acc(true)),
                cacc: (cacc(false), cacc(true)), days: (days(false), days(true)), per: (per(false), per(true))});
        }
        // payments do not accrue
        for (f, x) in fs.iter().zip(&leg) {
            if let FlowT::P(_, d, a) = f {
                let z = Date::default();
                same &= x.date() == ser(*d) && x.amount() == *a as f64 / 1e3 * scale() && x.accrued_amount(ser(*d - 1)) == 0.0
                    && x.accrual_start_date() == z && x.accrual_end_date() == z && x.reference_period_start() == z
                    && x.reference_period_end() == z && x.ex_coupon_date() == z;
            }
        }
        let none = CashFlowLeg::new();
        let (nl, any) = (Vec::<FixedRateCoupon>::new(), ser(from));
        same &= call(|| cashflow::maturity_date(&none)).is_none()
            && call(|| cashflow::next_cashflow(&none, false, any)) == Some(None)
            && call(|| cashflow::accrued_amount(&none, false, any)) == Some(0.0)
            && call(|| cashflow::accrued_days(&nl, true, any)) == Some(0)
            && call(|| cashflow::accrued_period(&nl, true, any)) == Some(0.0);
        let mat = call(|| cashflow::maturity_date(&leg).serial_number()).unwrap_or(-1);
        same &= mat == call(|| bondfunctions::maturity_date(&leg).serial_number()).unwrap_or(-1);
        let flows: Vec<Raw> = fs.iter().zip(&leg).map(|(f, x)| f.json(call(|| x.amount()))).collect();
        o.rec(obj! {k: "queries", flows: flows, coupons: all, mat: mat, ok: same, q: q});
    }
}

pub const PVDC: [&str; 12] = ["actual360", "actual366", "bond-basis", "european", "usa", "thirty365", "isda", "isma", "simple", "one", "actual360-inc", "actual366-inc"];
pub struct YieldT { pub dc: &'static str, pub comp: &'static str, pub f: i32, pub x: f64 }
impl YieldT {
    pub fn rate(&self) -> InterestRate {
        InterestRate::new(self.x, counter(self.dc), comp_of(self.comp), Frequency::from(self.f))
    }
}
pub fn some_yield(r: &mut Rng) -> YieldT {
    let x = match r.i32(0, 9) { 0 => 0, 1 => r.i32(-2000, 0), 2 => if r.chance(1, 3) { r.i32(40000, 150000) } else { r.i32(10000, 40000) }, _ => r.i32(1, 12000) } as f64 / 1e5;
    YieldT { dc: *r.pick(&PVDC), comp: *r.pick(&COMPS), f: *r.pick(&[1, 2, 2, 4, 12, 1, 2, 2, 4, 3, 6, 26]), x }
}
/// nearly the same yield: one thing differs
pub fn other_yield(r: &mut Rng, y: &YieldT) -> YieldT {
    let mut y = YieldT { ..*y };
    match r.i32(0, 3) { 0 => y.dc = *r.pick(&PVDC), 1 => y.comp = *r.pick(&COMPS), 2 => y.f = *r.pick(&[1, 2, 4, 12]), _ => y.x += 0.01 }
    y
}
/// flows in date order, as present values expect them
pub fn bundle(r: &mut Rng, positive: bool) -> (i32, Vec<FlowT>) {
    let long = r.chance(1, 100);
    let from = r.i32(800, if long { 70000 } else { 100000 });
    let mut fs: Vec<FlowT> = match if long { 4 } else { r.i32(0, 4) } {
        0 => { let m = r.i32(1, 6) as usize; payments(r, from, m, !positive) }
        1 => {
            let n = r.i32(1, 6) as usize;
            let mut v: Vec<FlowT> = chain(r, from, n, &COUNTERS, true).into_iter().map(FlowT::C).collect();
            v.extend(payments(r, from, 2, !positive));
            v
        }
        k => {
            let n = if long { r.i32(65, 100) } else { r.i32(1, if k == 2 { 20 } else { 8 }) } as usize;
            let c = chain(r, from, n, &COUNTERS, k == 3);
            let mut v: Vec<FlowT> = c.iter().cloned().map(FlowT::C).collect();
            v.push(FlowT::P(2, c[n - 1].pay, c[0].nominal * 1000));
            v
        }
    };
    fs.sort_by_key(|f| f.date());
    (from, fs)
}
pub fn settle(r: &mut Rng, from: i32, fs: &[FlowT]) -> i32 {
    let last = fs[fs.len() - 1].date();
    match r.i32(0, 7) {
        0 => from - r.i32(0, 200),
        1 | 2 => {
            let f = r.pick(fs).clone();
            let k = *r.pick(&[0, 1, 2]);
            match f { FlowT::C(c) => [c.s, c.pay, if c.ex > 0 { c.ex } else { c.t }][k], f => f.date() }
        }
        3 => last - r.i32(1, 30),
        _ => from + r.i32(0, (last - from).max(1)),
    }
}
pub fn present_values(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(30);
    for _ in 0..cfg.n(900, 12000) {
        some_scale(&mut r, true);
        if r.chance(1, 10) { set_scale(*r.pick(&[1e-3, 1e-5, 1e-7])) }
        let (from, mut fs) = bundle(&mut r, false);
        if r.chance(1, 100) { fs.clear(); }
        let leg: CashFlowLeg = fs.iter().map(|f| f.make()).collect();
        let mut q = vec![];
        for _ in 0..4 {
            let y = some_yield(&mut r);
            let set = if fs.is_empty() { from } else { settle(&mut r, from, &fs) };
            let npvd = match r.i32(0, 5) { 0 => set, 1 => set - r.i32(0, 5), 2 => set + r.i32(1, 40), _ => 0 };
            let incl = r.chance(1, 3);
            label(&format!("pv {:?} at {} {} {} {} {}", fs, y.dc, y.comp, y.f, y.x, set));
            let z = if npvd == 0 { Date::default() } else { ser(npvd) };
            for _ in 0..r.i32(0, 2) {
                // nearly the same question asked just before
                let y2 = if r.chance(2, 3) { other_yield(&mut r, &y) } else { YieldT { ..y } };
                let (incl2, set2) = (incl ^ r.chance(1, 3), if r.chance(1, 3) { set + r.i32(-40, 40) } else { set });
                let _ = call(|| cashflow::npv(&leg, &y2.rate(), incl2, ser(set2), z));
                let _ = call(|| cashflow::modified_duration(&leg, &y2.rate(), incl2, ser(set2), z));
            }
            let v = call(|| cashflow::npv(&leg, &y.rate(), incl, ser(set), z));
            let md = call(|| cashflow::modified_duration(&leg, &y.rate(), incl, ser(set), z));
            // a bond's price per 100 owed, of the flows not yet paid at settlement
            let d1 = call(|| bondfunctions::dirty_price(400.0, &leg, &y.rate(), ser(set)) * 4.0);
            let d2 = call(|| cashflow::npv(&leg, &y.rate(), false, ser(set), Date::default()));
            let per100 = alike(d1, d2);
            q.push(obj! {dc: y.dc, comp: y.comp, f: y.f, x: fx(Some(y.x)), set: set, npvd: npvd, incl: incl, v: fxm(v), md: fx(md), per100: per100});
        }
        let flows: Vec<Raw> = fs.iter().zip(&leg).map(|(f, x)| f.json(call(|| x.amount()))).collect();
        o.rec(obj! {k: "pv", flows: flows, q: q});
    }
}

fn find(leg: &CashFlowLeg, y: &YieldT, price: f64, incl: bool, set: i32, npvd: i32, acc: i32, guess: f64) -> Option<f64> {
    let s = NewtonSafe::with_max_evaluations(100);
    let z = if npvd == 0 { Date::default() } else { ser(npvd) };
    call(|| cashflow::bond_yield(&s, leg, price, counter(y.dc), comp_of(y.comp), Frequency::from(y.f), incl, ser(set), z, 10f64.powi(-acc), guess))
}
pub fn yields(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(31);
    for _ in 0..cfg.n(700, 10000) {
        let positive = r.chance(3, 4);
        some_scale(&mut r, false);
        let (from, fs) = bundle(&mut r, positive);
        let leg: CashFlowLeg = fs.iter().map(|f| f.make()).collect();
        let mut q = vec![];
        let mut one = |r: &mut Rng, y: &YieldT, price: f64, known: bool, incl: bool, set: i32, npvd: i32, acc: i32, guess: f64| {
            label(&format!("yield {:?} at {} {} {} {} {} price {} guess {}", fs, y.dc, y.comp, y.f, y.x, set, price, guess));
            if r.chance(1, 5) {
                // nearly the same question asked just before
                let y2 = other_yield(r, y);
                let _ = find(&leg, &y2, price, incl, set, npvd, acc, guess);
            }
            let x = find(&leg, y, price, incl, set, npvd, acc, guess);
            let z = if npvd == 0 { Date::default() } else { ser(npvd) };
            let (mut at, mut der) = (None, None);
            let irr = call(|| IrrFinder::new(&leg[..], price, counter(y.dc), comp_of(y.comp), Frequency::from(y.f), incl, ser(set), z));
            let taken = irr.is_some();
            if let (Some(x), true) = (x, r.chance(1, 2)) {
                if let Some(irr) = irr {
                    at = call(|| irr.at(x));
                    der = call(|| irr.derivative(x));
                }
            }
            q.push(obj! {dc: y.dc, comp: y.comp, f: y.f, y0: fx(Some(y.x)), x: yield_fx(x), price: fxm(Some(price)), known: known,
                set: set, npvd: npvd, incl: incl, acc: acc, at: fxm(at), der: fx(der), taken: taken});
        };
        // rising prices around a fair one
        let y = some_yield(&mut r);
        let set = settle(&mut r, from, &fs);
        let npvd = match r.i32(0, 3) { 0 => set, 1 => set - r.i32(0, 5), _ => 0 };
        let incl = r.chance(1, 4);
        let z = if npvd == 0 { Date::default() } else { ser(npvd) };
        let fair = call(|| cashflow::npv(&leg, &y.rate(), incl, ser(set), z)).unwrap_or(0.0);
        let mut rising = 0;
        if fair > 0.0 && positive {
            for m in [0.8, 0.97, 1.0, 1.06] {
                one(&mut r, &y, fair * m, m == 1.0, incl, set, npvd, 8, 0.05);
                rising += 1;
            }
        }
        // other prices, guesses and accuracies
        for _ in 0..3 {
            let y = some_yield(&mut r);
            let set = settle(&mut r, from, &fs);
            let npvd = match r.i32(0, 5) { 0 => set, 1 => set - r.i32(0, 5), 2 => set + r.i32(1, 40), _ => 0 };
            let incl = r.chance(1, 3);
            let z = if npvd == 0 { Date::default() } else { ser(npvd) };
            let fair = call(|| cashflow::npv(&leg, &y.rate(), incl, ser(set), z)).unwrap_or(0.0);
            let price = match r.i32(0, 4) { 0 => -fair, 1 => fair * r.i32(4, 24) as f64 / 8.0, _ => fair };
            let known = price == fair && fair > 0.0 && positive;
            let (a, g) = (*r.pick(&[6, 8, 10]), *r.pick(&[0.05, 0.01, 0.2]));
            one(&mut r, &y, price, known, incl, set, npvd, a, g);
        }
        let flows: Vec<Raw> = fs.iter().zip(&leg).map(|(f, x)| f.json(call(|| x.amount()))).collect();
        o.rec(obj! {k: "yield", flows: flows, rising: rising, q: q});
    }
}

/// yields far out are only noted as such
pub fn yield_fx(x: Option<f64>) -> Vec<i32> {
    if x.is_some_and(|x| x.is_finite() && (x > 3.0 || x < -0.5)) { vec![8, 0, 0, 0, 0] } else { fx(x) }
}
