//! What curves derive from the curve underneath (C43): curves that log what they are asked.
use crate::coupons::some;
use crate::dates::*;
use crate::rates::*;
use crate::schedules::interesting;
use crate::util::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::rates::compounding::Compounding;
use rust_quantlib::rates::interestrate::InterestRate;
use rust_quantlib::termstructures::termstructure::TermStructure;
use rust_quantlib::termstructures::yieldtermstructure::YieldTermStructure;
use rust_quantlib::termstructures::zeroyieldstructure::ZeroYieldStructure;
use std::cell::RefCell;

struct Forward {
    a: i32,
    b: i32,
    dc: String,
    comp: Compounding,
    f: i32,
    ex: bool,
}
struct Curve {
    reference: Date,
    dc: DayCounter,
    discount: f64,
    forward: InterestRate,
    times: RefCell<Vec<(f64, bool)>>,
    forwards: RefCell<Vec<Forward>>,
}
impl TermStructure for Curve {
    fn time_from_references(&self, date: &Date) -> f64 {
        let z = Date::default();
        self.dc.year_fraction(&self.reference, date, &z, &z)
    }
    fn max_date(&self) -> Date {
        ser(109574)
    }
    fn max_time(&self) -> f64 {
        self.time_from_references(&self.max_date())
    }
    fn reference_date(&self) -> Date {
        self.reference
    }
    fn settlement_days(&self) -> u32 {
        0
    }
}
impl YieldTermStructure for Curve {
    fn discount_frome_time(&self, time: f64, extrapolate: bool) -> f64 {
        self.times.borrow_mut().push((time, extrapolate));
        self.discount
    }
    fn zero_rate_from_date(&self, _: &Date, _: &DayCounter, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        unreachable!()
    }
    fn zero_rate_from_time(&self, _: f64, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        unreachable!()
    }
    fn forward_rate_from_dates(&self, d1: &Date, d2: &Date, dc: &DayCounter, comp: Compounding, f: Frequency, ex: bool) -> InterestRate {
        self.forwards.borrow_mut().push(Forward { a: d1.serial_number(), b: d2.serial_number(), dc: dc.name(), comp, f: f as i32, ex });
        self.forward.clone()
    }
    fn forward_rate_from_times(&self, _: f64, _: f64, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        unreachable!()
    }
    fn jump_dates(&self) -> Vec<Date> {
        vec![]
    }
    fn jump_times(&self) -> Vec<f64> {
        vec![]
    }
}
struct Zeros {
    at: RefCell<Vec<f64>>,
    level: f64,
    slope: f64,
}
impl ZeroYieldStructure for Zeros {
    fn zero_yield(&self, time: f64) -> f64 {
        self.at.borrow_mut().push(time);
        self.level + self.slope * time
    }
}
fn comp_name(c: &Compounding) -> &'static str {
    COMPS.iter().find(|n| comp_of(n) == *c).unwrap()
}
fn rate_text(x: &InterestRate) -> String {
    format!("{:x} {:?} {} {} {}", x.rate.to_bits(), x.daycounter, comp_name(&x.compounding), x.frequency_makes_sense, x.frequency)
}

pub fn curves(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(43);
    for _ in 0..cfg.n(1500, 30000) {
        let dcn = *r.pick(&DCS);
        let s = r.i32(1000, 100000);
        let reference = interesting(&mut r, s);
        let d = match r.i32(0, 5) {
            0 => reference,
            1 => reference - r.i32(1, 900),
            2 => r.i32(2, 109574),
            _ => reference + r.i32(1, 9000),
        };
        let d = interesting(&mut r, d).clamp(2, 109574);
        let (comp, f) = (*r.pick(&COMPS), *r.pick(&FREQS));
        let given = InterestRate::new(r.i32(-1000, 9000) as f64 / 1e5, dc_of(*r.pick(&DCS)), comp_of(*r.pick(&COMPS)), Frequency::from(*r.pick(&FREQS)));
        let c = Curve {
            reference: some(reference).unwrap(),
            dc: dc_of(dcn),
            discount: r.i32(1, 20000) as f64 / 9973.0,
            forward: given,
            times: RefCell::new(vec![]),
            forwards: RefCell::new(vec![]),
        };
        let ex = r.chance(1, 2);
        let answer = call(|| c.discount_from_date(&ser(d), ex));
        let asked: Vec<Raw> = c.times.borrow().iter().map(|(t, e)| obj! {t: fx(Some(*t)), ex: *e}).collect();
        o.rec(obj! {k: "discount", ref: reference, d: d, dc: dcn, ex: ex, asked: asked, given: format!("{:x}", c.discount.to_bits()),
                    answer: answer.map_or("refused".to_string(), |x| format!("{:x}", x.to_bits()))});
        let (u, n) = match r.i32(1, 4) {
            1 => (1, r.i32(-700, 3000)),
            2 => (2, r.i32(-100, 500)),
            3 => (3, r.i32(-30, 120)),
            _ => (4, r.i32(-5, 40)),
        };
        let dc2 = *r.pick(&DCS);
        let rdc = dc_of(dc2);
        let answer = call(|| c.forward_rate_from_date_period(&ser(d), &Period::new(n, unit(u)), &rdc, comp_of(comp), Frequency::from(f), ex));
        let asked: Vec<Raw> = c
            .forwards
            .borrow()
            .iter()
            .map(|x| {
                let dc = DCS.iter().find(|n| dc_of(n).name() == x.dc).copied().unwrap_or("?");
                obj! {a: x.a, b: x.b, dc: dc, comp: comp_name(&x.comp), f: x.f, ex: x.ex}
            })
            .collect();
        o.rec(obj! {k: "forward", d: d, n: n, u: u, dc: dc2, comp: comp, f: f, ex: ex, asked: asked, given: rate_text(&c.forward),
                    answer: answer.map_or("refused".to_string(), |x| rate_text(&x))});
        let z = Zeros { at: RefCell::new(vec![]), level: r.i32(-200, 1500) as f64 / 1e4, slope: r.i32(-100, 100) as f64 / 1e6 };
        let q: Vec<Raw> = (0..6)
            .map(|_| {
                let t = match r.i32(0, 6) {
                    0 => 0.0,
                    1 => r.i32(1, 5) as f64 / 365.0,
                    2 => -r.i32(1, 40) as f64 / 16.0,
                    3 => 1.0,
                    4 => r.i32(1, 720) as f64 / 16.0,
                    _ => r.i32(1, 400) as f64 / 16.0,
                };
                z.at.borrow_mut().clear();
                let d = call(|| z.discount(t));
                let at = !z.at.borrow().is_empty() && z.at.borrow().iter().all(|x| *x == t);
                obj! {t: fx(Some(t)), z: fx(Some(z.level + z.slope * t)), d: fx(d), at: at}
            })
            .collect();
        o.rec(obj! {k: "zero", q: q});
    }
}
