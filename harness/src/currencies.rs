//! Currencies, money and quotes (C40).
use crate::util::*;
use rust_quantlib::currencies::{africa::*, america::*, asia::*, currency::Currency, europe::*, money::Money, oceania::*};
use rust_quantlib::datetime::date::Date;
use rust_quantlib::instruments::{instrument::{Instrument, InstrumentResults}, stock::Stock};
use rust_quantlib::quotes::{quote::Quote, simplequote::SimpleQuote};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

fn all() -> Vec<(&'static str, Rc<dyn Currency>, Rc<dyn Currency>)> {
    macro_rules! list { ($($n:literal $t:ident),*) => { vec![$(($n, Rc::new($t::new()), Rc::new($t::default()))),*] } }
    list!["ZAR" ZARCurrency, "CAD" CADCurrency, "USD" USDCurrency, "CNY" CNYCurrency, "HKD" HKDCurrency, "JPY" JPYCurrency, "KRW" KRWCurrency,
          "SAR" SARCurrency, "SGD" SGDCurrency, "CNH" CNHCurrency, "CHF" CHFCurrency, "EUR" EURCurrency, "GBP" GBPCurrency, "NOK" NOKCurrency,
          "SEK" SEKCurrency, "AUD" AUDCurrency, "NZD" NZDCurrency]
}
fn spelt(s: &str) -> String { s.chars().map(|c| if c.is_ascii() { c.to_string() } else { format!("U+{:04x}", c as u32) }).collect() }
fn bits(x: f64) -> String { format!("{:016x}", x.to_bits()) }
fn same(a: &dyn Currency, b: &dyn Currency) -> bool {
    a.name() == b.name() && a.code() == b.code() && a.numeric_code() == b.numeric_code() && a.symbol() == b.symbol()
        && a.fraction_symbol() == b.fraction_symbol() && a.fractions_per_unit() == b.fractions_per_unit()
        && a.minor_unit_codes() == b.minor_unit_codes() && a.data() == b.data()
        && a.triangulation_currency() == b.triangulation_currency()
        && a.rounding().round(1234.56789).to_bits() == b.rounding().round(1234.56789).to_bits()
}
/// a quote that moves
struct Moving(Cell<f64>);
impl Quote for Moving {
    fn value(&self) -> f64 { self.0.get() }
    fn is_valid(&self) -> bool { true }
}
/// an instrument that is worth a multiple of a quote
struct Holding { quote: Arc<dyn Quote>, many: f64 }
impl Instrument for Holding {
    fn perform_calculations(&self) -> InstrumentResults {
        InstrumentResults { npv: self.many * self.quote.value(), error_estimate: 0.0, valuation_date: Date::default() }
    }
}
fn amount(r: &mut Rng) -> f64 {
    match r.i32(0, 6) {
        0 => 0.0, 1 => -0.0, 2 => r.i32(-1000000, 1000000) as f64 / 1e3, 3 => 1e15 + r.i32(0, 1000) as f64,
        4 => f64::from_bits(0x3ff0_0000_0000_0000 + r.i32(1, 1000) as u64), 5 => -1.0 / r.i32(1, 999) as f64, _ => 1e-300 * r.i32(1, 99) as f64,
    }
}
pub fn currencies(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(40);
    let cs = all();
    for (t, a, b) in &cs {
        label(&format!("currency {}", t));
        let way = a.rounding();
        let mut rounds: Vec<(i32, i32)> = vec![];
        for k in 0..cfg.n(60, 2000) {
            let n = if k < 4 { [0, 1234567, -1234567, 4][k as usize] } else { r.i32(-200000, 200000) };
            // in thousandths; 999999999 for what is no whole number of them
            let y = way.round(n as f64 / 1000.0) * 1000.0;
            rounds.push((n, if (y - y.round()).abs() < 1e-6 { y.round() as i32 } else { 999999999 }));
        }
        o.rec(obj! {k: "currency", type: *t, code: a.code(), numeric: a.numeric_code(), name: a.name().to_lowercase(), fractions: a.fractions_per_unit(),
            symbol: spelt(a.symbol()), fracsym: spelt(a.fraction_symbol()), minors: a.minor_unit_codes().len() as i32,
            tri: a.triangulation_currency().is_some(), rounds: rounds, same: same(&**a, &**b) && a.data() == a.data()});
    }
    let unequal = cs.iter().enumerate().all(|(j, x)| cs.iter().skip(j + 1).all(|y| x.1.data() != y.1.data()));
    o.rec(obj! {k: "currencies", types: cs.iter().map(|c| c.0).collect::<Vec<_>>(), codes: cs.iter().map(|c| c.1.code()).collect::<Vec<_>>(),
        names: cs.iter().map(|c| c.1.name()).collect::<Vec<_>>(), unequal: unequal});
    for _ in 0..cfg.n(400, 20000) {
        let (t, a, _) = r.pick(&cs).clone();
        let x = amount(&mut r);
        let m = Money::new(a, x);
        let c = m.clone();
        o.rec(obj! {k: "money", type: t, code: if c.currency.code() == m.currency.code() { m.currency.code() } else { "?" }, put: bits(x),
            got: if c.value.to_bits() == m.value.to_bits() { bits(m.value) } else { "?".to_string() }});
    }
    for _ in 0..cfg.n(400, 20000) {
        let x = amount(&mut r);
        let sq = Arc::new(SimpleQuote::new(x));
        let stock = Stock::new(sq.clone());
        let read = bits(sq.value());
        let st = if bits(stock.npv()) == bits(stock.calculate().npv) && bits(stock.npv()) == bits(stock.perform_calculations().npv) { bits(stock.npv()) } else { "?".into() };
        let valid = sq.is_valid();
        // instruments on quotes that move; values are told apart by their number
        let vals: Vec<f64> = (0..6).map(|k| (k as f64 + 1.0) * 1.0625 + r.i32(0, 9) as f64 / 64.0).collect();
        let number = |x: f64| vals.iter().position(|v| v.to_bits() == x.to_bits()).map(|k| k as i32).unwrap_or(-1);
        let start = [r.i32(0, 5), r.i32(0, 5)];
        let qs: Vec<Arc<Moving>> = start.iter().map(|k| Arc::new(Moving(Cell::new(vals[*k as usize])))).collect();
        let holds: Vec<i32> = (0..3).map(|_| r.i32(1, 2)).collect();
        let qd = |k: usize| -> Arc<dyn Quote> { qs[holds[k] as usize - 1].clone() };
        let ins: Vec<Box<dyn Instrument>> =
            vec![Box::new(Stock::new(qd(0))), Box::new(Stock::new(qd(1))), Box::new(Holding { quote: qd(2), many: 4.0 })];
        let mut ops: Vec<(i32, i32, i32)> = vec![];
        for _ in 0..r.i32(1, 14) {
            if r.chance(1, 2) {
                let (k, v) = (r.i32(1, 2), r.i32(0, 5));
                qs[k as usize - 1].0.set(vals[v as usize]);
                ops.push((0, k, v));
            } else {
                let j = r.i32(1, 3);
                let w = ins[j as usize - 1].npv();
                ops.push((1, j, number(if j == 3 { w / 4.0 } else { w })));
            }
        }
        o.rec(obj! {k: "quotes", put: bits(x), read: read, valid: valid, stock: st, quotes: start.to_vec(), holds: holds, ops: ops});
    }
}
