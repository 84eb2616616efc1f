//! Bonds: their make-up and life (C29), prices (C30) and yields (C31).
use crate::business::conv;
use crate::coupons::*;
use crate::dates::*;
use crate::flows::*;
use crate::legs::*;
use crate::rates::*;
use crate::schedules::*;
use crate::util::*;
use rust_quantlib::cashflows::cashflow::{CashFlow, CashFlowLeg};
use rust_quantlib::datetime::{calendar::Calendar, date::Date, frequency::Frequency, period::Period, schedule::Schedule, timeunit::TimeUnit};
use rust_quantlib::instruments::{bond::Bond, fixedratebond::FixedRateBond, zerocouponbond::ZeroCouponBond};
use std::rc::Rc;

const BDC: [&str; 8] = ["actual360", "actual366", "bond-basis", "european", "usa", "thirty365", "isda", "isma"];

#[derive(Debug)]
struct FixedT {
    days: i32, face: i32, rates: Vec<f64>, dc: &'static str, fdc: &'static str, conv: i32, red: i32, given_red: bool, issue: i32, pcal: i32,
    ex: Option<(i32, i32, usize, i32, bool)>, missing: i32, short: bool,
}
impl FixedT {
    fn some(r: &mut Rng, s: &Schedule) -> FixedT {
        let m = s.size() - 1;
        let k = (*r.pick(&[1, 1, 2, m])).max(1);
        let d0 = s.start_date().serial_number();
        let short = r.chance(1, 4);
        FixedT {
            days: match r.i32(0, 15) { 0 => r.i32(15, 60), 1 | 2 => r.i32(5, 15), _ => r.i32(0, 4) }, face: 100 * *r.pick(&[1, 1, 5, 10, 100]), rates: (0..k).map(|_| if r.chance(1, 12) { r.i32(12000, 90000) } else { r.i32(0, 12000) } as f64 / 1e5).collect(),
            dc: *r.pick(&BDC), fdc: if !short && r.chance(1, 4) { *r.pick(&BDC[..6]) } else { "" },
            conv: if short { 0 } else { r.i32(0, 7) }, given_red: !short && r.chance(1, 2), red: *r.pick(&[100, 100, 101, 95, 110]),
            issue: if !short && r.chance(1, 2) { d0 + r.i32(-20, 40) } else { 0 },
            pcal: if !short && r.chance(1, 2) { r.i32(2, 3) } else { 0 },
            ex: if !short && r.chance(1, 2) {
                let (n, u) = *r.pick(&[(2, 1), (7, 1), (1, 2), (10, 1), (1, 3)]);
                Some((n, u, r.i32(1, 3) as usize, r.i32(1, 7), r.chance(1, 2)))
            } else { None },
            missing: if r.chance(1, 8) { r.i32(1, 4) } else { 0 },
            short,
        }
    }
    fn redemption(&self) -> i32 { if self.given_red { self.red } else { 100 } }
    fn make(&self, s: &Schedule, cs: &[Calendar]) -> Option<FixedRateBond> {
        let dc = counter(self.dc);
        if self.short {
            return call(|| FixedRateBond::new(self.days, self.face as f64 * scale(), s.clone(), self.rates.clone(), dc));
        }
        let given = |k: i32| self.ex.is_some() && self.missing != k;
        let (n, u, c, cv, e) = self.ex.unwrap_or((0, 1, 1, 1, false));
        call(|| {
            FixedRateBond::new_with_options(
                self.days, self.face as f64 * scale(), s.clone(), self.rates.clone(), dc,
                if self.conv > 0 { Some(conv(self.conv)) } else { None },
                if self.given_red { Some(self.red as f64) } else { None },
                some(self.issue),
                if self.pcal > 0 { Some(cs[self.pcal as usize - 1].clone()) } else { None },
                if given(1) { Some(Period::new(n, unit(u))) } else { None },
                if given(2) { Some(cs[c - 1].clone()) } else { None },
                if given(3) { Some(conv(cv)) } else { None },
                if given(4) { Some(e) } else { None },
                if self.fdc != "" { Some(counter(self.fdc)) } else { None },
            )
        })
    }
}
fn flow_json(f: &Rc<dyn CashFlow>) -> Raw {
    obj! {pay: f.date().serial_number(), s: null0(f.accrual_start_date()), t: null0(f.accrual_end_date()), rs: null0(f.reference_period_start()),
          rt: null0(f.reference_period_end()), ex: null0((**f).ex_coupon_date()), amount: fxm(call(|| f.amount()))}
}
fn steps_json(b: &dyn Bond) -> Raw {
    let v: Vec<(i32, i32)> = b.notional_schedule().iter().zip(b.notionals()).map(|(d, n)| (null0(*d), whole_units(*n))).collect();
    if b.notional_schedule().len() != b.notionals().len() { return Raw("[]".into()); }
    let mut o = String::from("[");
    for (k, (d, n)) in v.iter().enumerate() { o += &format!("{}[{},{}]", if k > 0 { "," } else { "" }, d, n); }
    Raw(o + "]")
}
/// where among the cash flows the redemptions are
fn reds(b: &dyn Bond, redemptions: &CashFlowLeg) -> Vec<i32> {
    redemptions
        .iter()
        .map(|r| b.cashflows().iter().position(|f| Rc::ptr_eq(f, r)).map(|k| k as i32 + 1).unwrap_or_else(|| {
            // the same payment, if not the same object
            b.cashflows().iter().rposition(|f| f.date() == r.date() && f.amount() == r.amount()).map(|k| k as i32 + 1).unwrap_or(0)
        }))
        .collect()
}
fn days_of_interest(r: &mut Rng, b: &dyn Bond, lo: i32, hi: i32) -> Vec<i32> {
    let mut v = vec![];
    let fs = b.cashflows();
    let last = fs[fs.len() - 1].date().serial_number();
    v.extend([last - 1, last, last + 1]);
    for x in b.notional_schedule().iter().skip(1) { v.extend([x.serial_number() - 1, x.serial_number()]); }
    for _ in 0..4 {
        let f = r.pick(fs);
        v.push(f.date().serial_number() + r.i32(-5, 1));
    }
    if b.issue_date() != Date::default() {
        let i = b.issue_date().serial_number();
        v.extend([i - 1, i, i - b.settlement_days() - r.i32(0, 3)]);
    }
    v.push(r.i32(lo + 40, hi - 40));
    // the settlement date is to fall among the days whose holidays are given, too
    let end = hi - 30 - 2 * b.settlement_days();
    v.into_iter().filter(|x| *x > lo + 30 && *x < end).collect()
}
fn life(r: &mut Rng, b: &dyn Bond, lo: i32, hi: i32, z: Option<&ZeroCouponBond>) -> Vec<Raw> {
    days_of_interest(r, b, lo, hi)
        .into_iter()
        .map(|d| {
            let owed = call(|| b.notional(ser(d))).map(whole_units).unwrap_or(-1);
            let tr = call(|| b.is_tradeable(ser(d))).map(|x| x as i32).unwrap_or(-1);
            let set = call(|| b.settlement_date(ser(d)).serial_number()).unwrap_or(-1);
            // the prices that need no curve: of a bond that owes nothing any more
            let nil = call(|| b.dirty_price(ser(d), ser(d)) == 0.0 && b.clean_price(ser(d), b.settlement_date(ser(d))) == 0.0).map(|x| x as i32).unwrap_or(-1);
            match z {
                None => obj! {d: d, owed: owed, tr: tr, set: set, nil: nil},
                Some(z) => {
                    let y = if r.chance(1, 10) { r.i32(20000, 120000) } else { r.i32(-2000, 20000) } as f64 / 1e5;
                    let p = call(|| z.period(ser(d))).filter(|p| p.unit == TimeUnit::Months).map(|p| p.length).unwrap_or(-99999);
                    obj! {d: d, owed: owed, tr: tr, set: set, nil: nil, y: fx(Some(y)), price: fx(call(|| z.price_from_discount_yield(y, ser(d)))), p: p}
                }
            }
        })
        .collect()
}
fn shown<B: std::fmt::Debug>(b: &B, prefix: &str, m: Date) -> bool {
    format!("{:?}", b) == format!("{}/{}-{:02}-{:02}", prefix, m.year(), m.month() as i32, m.day_of_month())
}
fn schedule_for(r: &mut Rng, w: &Window, span: i32, most: usize) -> (Req, Schedule) {
    loop {
        let c = request(r, w, span, &[1, 1, 1, 2, 3]);
        if let Some(s) = call(|| c.build(&w.cal)).filter(|s| s.size() >= 2 && s.size() <= most) { return (c, s); }
    }
}
/// an amortising bond put together by hand: pays off part of the principal with some coupons
struct Steps {
    days: i32, cal: Calendar, issue: Date, sched: Vec<Date>, notionals: Vec<f64>, flows: CashFlowLeg,
}
impl Bond for Steps {
    fn calendar(&self) -> &Calendar { &self.cal }
    fn cashflows(&self) -> &CashFlowLeg { &self.flows }
    fn issue_date(&self) -> Date { self.issue }
    fn maturity_date(&self) -> Date { *self.sched.last().unwrap() }
    fn notional_schedule(&self) -> &Vec<Date> { &self.sched }
    fn notionals(&self) -> &Vec<f64> { &self.notionals }
    fn settlement_days(&self) -> i32 { self.days }
}
fn amortising(r: &mut Rng, from: i32, cal: &Calendar) -> (Steps, Vec<FlowT>) {
    let n = r.i32(1, 12) as usize;
    let mut c = chain(r, from, n, &COUNTERS, true);
    let mut owed = 100 * r.i32(1, 10) * 2;
    let (mut sched, mut notionals) = (vec![Date::default()], vec![owed as f64 * scale()]);
    let mut fs = vec![];
    for k in 0..n {
        c[k].nominal = owed;
        fs.push(FlowT::C(c[k].clone()));
        if k == n - 1 || r.chance(1, 3) {
            let back = if k == n - 1 { owed } else { 10 * r.i32(0, owed / 20) };
            if back > 0 {
                fs.push(FlowT::P(if k == n - 1 { 2 } else { 3 }, c[k].pay, back * 1000));
                owed -= back;
                sched.push(ser(c[k].pay));
                notionals.push(owed as f64 * scale());
            }
        }
    }
    let flows = fs.iter().map(|f| f.make()).collect();
    (Steps { days: r.i32(0, 3), cal: cal.clone(), issue: some(if r.chance(1, 2) { from + r.i32(-5, 30) } else { 0 }).unwrap_or_default(), sched, notionals, flows }, fs)
}

pub fn bonds(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(29);
    for j in 0..cfg.n(200, 3000) {
        // some live for decades
        let span = if j % 12 == 7 { 20000 } else { 1200 };
        let (w, cs, lo, hi, js) = three(&mut r, span);
        let mut q = vec![];
        for _ in 0..5 {
            some_scale(&mut r, false);
            let most = if r.chance(1, 15) { 150 } else { 30 };
            let most = if span > 1200 { most.max(65) } else { most };
            let (c, s) = schedule_for(&mut r, &w, span, most);
            let t = FixedT::some(&mut r, &s);
            label(&format!("bond {:?} {:?}", t, c));
            let b = t.make(&s, &cs);
            let e = t.ex.map(|(n, u, k, cv, e)| vec![n, u, k as i32, cv, e as i32]).unwrap_or_default();
            let base = |b: Raw, built: bool, flows: Vec<Raw>, rd: Vec<i32>, mat: i32, ok: bool, life: Vec<Raw>| {
                obj! {k: "fixed", s: seen(&s), sconv: c.conv, face: t.face, rates: t.rates.iter().map(|x| fx(Some(*x))).collect::<Vec<_>>(),
                    dc: t.dc, fdc: t.fdc, conv: t.conv, red: t.redemption(), issue: t.issue, days: t.days, pcal: t.pcal,
                    ex: e.clone(), whole: t.ex.is_some() && t.missing == 0, built: built, steps: b, flows: flows, reds: rd, mat: mat, ok: ok, life: life}
            };
            q.push(match &b {
                None => base(Raw("[]".into()), false, vec![], vec![], 0, true, vec![]),
                Some(b) => {
                    let ok = b.issue_date() == some(t.issue).unwrap_or_default() && b.settlement_days() == t.days
                        && shown(b, "FRB", b.maturity_date());
                    let lf = life(&mut r, b, lo, hi, None);
                    base(steps_json(b), true, b.cashflows().iter().map(flow_json).collect(), reds(b, &b.redemptions), b.maturity_date().serial_number(), ok, lf)
                }
            });
        }
        for _ in 0..3 {
            let m = w.a + r.i32(100, span);
            some_scale(&mut r, false);
            let (days, face, plain) = (if r.chance(1, 6) { r.i32(5, 60) } else { r.i32(0, 4) }, 100 * *r.pick(&[1, 10, 100]), r.chance(1, 3));
            let cv = if plain { 0 } else { r.i32(0, 7) };
            let red = if plain { 100 } else { *r.pick(&[100, 100, 101, 95]) };
            let issue = if !plain && r.chance(1, 2) { m - r.i32(20, 300) } else { 0 };
            label(&format!("zero {} {} {} {} {} {}", m, days, face, cv, red, issue));
            let z = call(|| {
                if plain { ZeroCouponBond::new(days, &cs[0], face as f64 * scale(), ser(m)) }
                else {
                    ZeroCouponBond::new_with_options(days, &cs[0], face as f64 * scale(), ser(m), if cv > 0 { Some(conv(cv)) } else { None },
                        if red != 100 { Some(red as f64) } else { None }, some(issue))
                }
            });
            q.push(match &z {
                None => obj! {k: "zero", built: false},
                Some(z) => {
                    let lf = life(&mut r, z, lo, hi, Some(z));
                    let ok = z.issue_date() == some(issue).unwrap_or_default() && z.settlement_days() == days && z.face_amount == face as f64 * scale()
                        && z.redemption == red as f64 && z.payment_convention == conv(if cv > 0 { cv } else { 1 }) && shown(z, "ZCB", ser(m));
                    obj! {k: "zero", built: true, m: m, days: days, face: face, conv: cv, red: red, issue: issue, steps: steps_json(z),
                        flows: z.cashflows().iter().map(flow_json).collect::<Vec<_>>(), reds: reds(z, &z.redemptions),
                        mat: z.maturity_date().serial_number(), ok: ok, life: lf}
                }
            });
        }
        for _ in 0..2 {
            some_scale(&mut r, false);
            let from = w.a + r.i32(0, 100);
            let (b, _) = amortising(&mut r, from, &cs[0]);
            let lf = life(&mut r, &b, lo, hi, None);
            q.push(obj! {k: "steps", steps: steps_json(&b), days: b.days, issue: null0(b.issue), life: lf});
        }
        o.rec(obj! {k: "bonds", lo: lo, hi: hi, cals: js, q: q});
    }
}

/// a bond with flows the specification knows about
fn priced(r: &mut Rng) -> (Box<dyn Bond>, Vec<FlowT>) {
    some_scale(r, false);
    let w = window(r, 6000);
    match r.i32(0, 5) {
        0 => {
            let m = w.a + r.i32(30, 6000);
            let red = if r.chance(1, 3) { Some(*r.pick(&[101.0, 90.0])) } else { None };
            let face = 100 * r.i32(1, 10);
            let z = ZeroCouponBond::new_with_options(1, &w.cal, face as f64 * scale(), ser(m), None, red, None);
            let d = z.cashflows()[0].date().serial_number();
            let f = vec![FlowT::P(2, d, (face as f64 * red.unwrap_or(100.0) * 10.0).round() as i32)];
            (Box::new(z), f)
        }
        1 => {
            let (b, fs) = amortising(r, w.a, &w.cal);
            (Box::new(b), fs)
        }
        _ => loop {
            let (_, s) = schedule_for(r, &w, 6000, 45);
            let mut t = FixedT::some(r, &s);
            t.face = t.face.min(1000);
            let cs = vec![w.cal.clone(), crate::cals::cal("WeekendsOnly"), crate::cals::cal("Null")];
            if let Some(b) = t.make(&s, &cs) {
                let n = b.cashflows().len();
                let fs: Vec<FlowT> = b.cashflows().iter().enumerate().map(|(k, f)| {
                    if k == n - 1 { return FlowT::P(2, f.date().serial_number(), t.face * t.redemption() * 10); }
                    let x = t.rates[k.min(t.rates.len() - 1)];
                    FlowT::C(CouponT {
                        pay: f.date().serial_number(), nominal: t.face, s: null0(f.accrual_start_date()), t: null0(f.accrual_end_date()),
                        rs: null0(f.reference_period_start()), rt: null0(f.reference_period_end()), ex: null0((**f).ex_coupon_date()),
                        dc: if k == 0 && t.fdc != "" { t.fdc } else { t.dc }, comp: "simple", f: 1, x, plain: true,
                    })
                }).collect();
                return (Box::new(b), fs);
            }
        },
    }
}
fn flows_json(b: &dyn Bond, fs: &[FlowT]) -> Vec<Raw> {
    fs.iter().zip(b.cashflows()).map(|(f, x)| f.json(call(|| x.amount()))).collect()
}
fn settling(r: &mut Rng, b: &dyn Bond, fs: &[FlowT]) -> i32 {
    if r.chance(1, 10) { return fs[fs.len() - 1].date() + r.i32(0, 3); }
    let from = match &fs[0] { FlowT::C(c) => c.s, f => f.date() - 300 };
    let s = settle(r, from, fs);
    if r.chance(1, 2) { call(|| b.settlement_date(ser(s)).serial_number()).unwrap_or(s) } else { s }
}
pub fn prices(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(130);
    for _ in 0..cfg.n(350, 6000) {
        let (b, fs) = priced(&mut r);
        let mut q = vec![];
        for _ in 0..5 {
            let y = some_yield(&mut r);
            let set = settling(&mut r, &*b, &fs);
            label(&format!("bond price {:?} at {} {} {} {} {}", fs, y.dc, y.comp, y.f, y.x, set));
            let dirty = call(|| b.dirty_price_from_yield(y.x, counter(y.dc), comp_of(y.comp), Frequency::from(y.f), ser(set)));
            let clean = call(|| b.clean_price_from_yield(y.x, counter(y.dc), comp_of(y.comp), Frequency::from(y.f), ser(set)));
            q.push(obj! {dc: y.dc, comp: y.comp, f: y.f, x: fx(Some(y.x)), set: set, npvd: 0, incl: 0, acc: fx(call(|| b.accrued_amount(ser(set)))),
                dirty: fx(dirty), clean: fx(clean)});
        }
        o.rec(obj! {k: "prices", flows: flows_json(&*b, &fs), steps: steps_json(&*b), q: q});
    }
}
pub fn bond_yields(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(131);
    for _ in 0..cfg.n(250, 4000) {
        let (b, fs) = priced(&mut r);
        let mut q = vec![];
        let mut rising = 0;
        for turn in 0..2 {
            let y = some_yield(&mut r);
            let set = settling(&mut r, &*b, &fs);
            let accrued = call(|| b.accrued_amount(ser(set)));
            let fair = call(|| b.clean_price_from_yield(y.x, counter(y.dc), comp_of(y.comp), Frequency::from(y.f), ser(set)));
            let ok = fair.unwrap_or(0.0) > 0.0;
            let factors: &[f64] = if turn == 0 { &[0.9, 1.0, 1.05] } else { &[1.0] };
            for m in factors {
                let price = fair.unwrap_or(95.0) * m;
                label(&format!("bond yield {:?} at {} {} {} {} {} price {}", fs, y.dc, y.comp, y.f, y.x, set, price));
                let plain = r.chance(1, 2);
                let acc = if plain { 8 } else { *r.pick(&[6, 8, 10]) };
                let guess = if plain { 0.05 } else { *r.pick(&[0.05, 0.02, 0.1]) };
                let x = call(|| {
                    if plain { b.bond_yield(price, counter(y.dc), comp_of(y.comp), Frequency::from(y.f), ser(set)) }
                    else {
                        b.bond_yield_with_options(price, counter(y.dc), comp_of(y.comp), Frequency::from(y.f), ser(set), Some(10f64.powi(-acc)), Some(100), Some(guess))
                    }
                });
                if turn == 0 && ok { rising += 1; }
                q.push(obj! {dc: y.dc, comp: y.comp, f: y.f, y0: fx(Some(y.x)), x: yield_fx(x), price: fx(Some(price)), known: ok && *m == 1.0,
                    set: set, npvd: 0, incl: 0, acc: acc, at: fx(None), der: fx(None), accrued: fx(accrued)});
            }
        }
        o.rec(obj! {k: "bond-yields", flows: flows_json(&*b, &fs), steps: steps_json(&*b), rising: rising, q: q});
    }
}
