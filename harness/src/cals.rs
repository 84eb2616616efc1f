use crate::dates::*;
use crate::util::*;
use rust_quantlib::datetime::{
    calendar::Calendar,
    holidays::{
        brazil::Brazil, italy::Italy, japan::Japan, nilholiday::NilHoliday,
        switzerland::Switzerland, target::Target, unitedkingdom::UnitedKingdom,
        unitedstates::UnitedStates, weekendsonly::WeekendsOnly,
    },
    weekday::Weekday,
};

pub const CALS: [&str; 18] = [
    "TARGET", "UKSettlement", "UKExchange", "UKMetals", "Switzerland", "ItalySettlement",
    "ItalyExchange", "USSettlement", "USLibor", "USNyse", "USGovBond", "USNerc", "USFed",
    "BrazilSettlement", "BrazilExchange", "Japan", "WeekendsOnly", "Null",
];

pub fn cal(name: &str) -> Calendar {
    match name {
        "TARGET" => Target::new(),
        "UKSettlement" => UnitedKingdom::new(),
        "UKExchange" => UnitedKingdom::exchange(),
        "UKMetals" => UnitedKingdom::metals(),
        "Switzerland" => Switzerland::new(),
        "ItalySettlement" => Italy::new(),
        "ItalyExchange" => Italy::exchange(),
        "USSettlement" => UnitedStates::settlement(),
        "USLibor" => UnitedStates::libor_impact(),
        "USNyse" => UnitedStates::nyse(),
        "USGovBond" => UnitedStates::government_bond(),
        "USNerc" => UnitedStates::nerc(),
        "USFed" => UnitedStates::federal_reserve(),
        "BrazilSettlement" => Brazil::new(),
        "BrazilExchange" => Brazil::exchange(),
        "Japan" => Japan::new(),
        "WeekendsOnly" => WeekendsOnly::new(),
        "Null" => NilHoliday::new(),
        _ => panic!("calendar {}", name),
    }
}

fn group(input: &str) -> &'static [&'static str] {
    match input {
        "europe" => &CALS[0..7],
        "us" => &CALS[7..13],
        _ => &CALS[13..18],
    }
}

pub fn calendars(cfg: &Cfg, o: &mut Out) {
    let g = group(cfg.input.as_deref().unwrap_or("europe"));
    // every day is asked of all the calendars in turn, starting with each of them
    let mut r = cfg.rng(5);
    let all: Vec<Calendar> = g.iter().map(|n| cal(n)).collect();
    let mut asked: Vec<Vec<Vec<i32>>> = vec![];
    for y in 1900..2200 {
        let mut h = vec![vec![]; g.len()];
        for s in serial(1, 1, y)..=serial(31, 12, y) {
            let (d, k0, step) = (ser(s), r.i32(0, 30) as usize, if r.chance(1, 2) { 1 } else { g.len() - 1 });
            for k in 0..g.len() {
                let k = (k0 + k * step) % g.len();
                label(&format!("calendar {} day {}", g[k], s));
                if call(|| all[k].is_holiday(&d)).unwrap_or(true) { h[k].push(s); }
            }
        }
        asked.push(h);
    }
    for (k, name) in g.iter().enumerate() {
        let c = cal(name);
        for y in 1900..2200 {
            label(&format!("calendar {} {}", name, y));
            let a = serial(1, 1, y);
            let b = serial(31, 12, y);
            let hol = std::mem::take(&mut asked[(y - 1900) as usize][k]);
            let list = |f: &dyn Fn() -> Vec<rust_quantlib::datetime::date::Date>| -> Vec<i32> {
                call(f).map(|v| v.iter().map(|d| d.serial_number()).collect()).unwrap_or(vec![-1])
            };
            let l = list(&|| c.holiday_list(ser(a), ser(b), true));
            let nw = list(&|| c.holiday_list(ser(a), ser(b), false));
            let bd = list(&|| c.business_day_list(ser(a), ser(b)));
            let we: Vec<i32> = (1..=7)
                .filter(|w| call(|| c.is_weekend(Weekday::from(*w))).unwrap_or(false))
                .collect();
            o.rec(obj! {cal: *name, y: y, hol: hol, list: l, nw: nw, bd: bd, we: we});
        }
    }
}
