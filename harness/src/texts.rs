//! Written forms, integer codes (C42) and the identities of day counters (C41).
use crate::cals::*;
use crate::dates::*;
use crate::schedules::*;
use crate::util::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::daycounters::{actual360::Actual360, actual366::Actual366, one::One, simple::Simple, thirty365::Thirty365};
use rust_quantlib::datetime::months::Month;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::weekday::Weekday;
use rust_quantlib::datetime::{time_to_days, time_to_days_with_days_per_year};

const NA: i32 = -999999999;
fn codes(s: &str) -> Vec<i32> {
    s.chars().map(|c| c as i32).collect()
}

pub fn texts(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(42);
    let mut days: Vec<i32> = vec![2, 3, 59, 60, 61, 62, 366, 367, 109573, 109574];
    for _ in 0..cfg.n(6000, 100000) {
        let s = r.i32(2, 109574);
        days.push(if r.chance(1, 3) { interesting(&mut r, s) } else { s });
    }
    if cfg.thorough {
        days = (2..=109574).collect();
    }
    for c in days.chunks(200) {
        let q: Vec<(i32, Vec<i32>)> = c.iter().map(|&s| (s, codes(&call(|| format!("{:?}", ser(s))).unwrap_or_default()))).collect();
        o.rec(obj! {k: "date-texts", q: q});
    }
    let mut ps: Vec<(i32, i32)> = vec![];
    for u in 1..=4 {
        for n in -40..=400 {
            ps.push((n, u));
        }
        for k in [999, 1000, 12345, 2000000000] {
            ps.push((k, u));
            ps.push((-k, u));
        }
    }
    for c in ps.chunks(200) {
        let q: Vec<(i32, i32, Vec<i32>)> =
            c.iter().map(|&(n, u)| (n, u, codes(&call(|| format!("{:?}", Period::new(n, unit(u)))).unwrap_or_default()))).collect();
        o.rec(obj! {k: "period-text", q: q});
    }
    use rust_quantlib::datetime::timeunit::TimeUnit::*;
    for (u, x) in [Hours, Minutes, Seconds, Milliseconds, Microseconds].into_iter().enumerate() {
        let q: Vec<(i32, i32, Vec<i32>)> = (-20..100)
            .chain([999, 12345, 2000000000, -999, -2000000000])
            .map(|n| (n, u as i32 + 5, codes(&call(|| format!("{:?}", Period::new(n, x))).unwrap_or_default())))
            .collect();
        o.rec(obj! {k: "period-text", q: q});
    }
    let rules: Vec<i32> = (1..=10).collect();
    for _ in 0..cfg.n(300, 4000) {
        let w = window(&mut r, 1500);
        let Some(q) = call(|| request(&mut r, &w, 1500, &rules)) else { continue };
        let c = w.cal.clone();
        let Some(s) = call(|| q.build(&c)) else { continue };
        let d: Vec<i32> = s.dates().iter().map(|d| d.serial_number()).collect();
        if d.len() > 60 {
            continue;
        }
        let t = call(|| format!("{:?}", s)).unwrap_or_default();
        o.rec(obj! {k: "schedule-text", d: d, t: codes(&t)});
    }
    let months: Vec<(i32, Vec<i32>)> = (-3..=40)
        .map(|n: i32| {
            let mut v = vec![
                call(|| i32::from(Month::from(n))).unwrap_or(NA),
                call(|| u32::from(Month::from(n)) as i32).unwrap_or(NA),
                call(|| usize::from(Month::from(n)) as i32).unwrap_or(NA),
                call(|| Month::from(n) as i32).unwrap_or(NA),
            ];
            if n >= 0 {
                v.push(call(|| Month::from(n as u32) as i32).unwrap_or(NA));
            }
            (n, v)
        })
        .collect();
    let weekdays: Vec<(i32, i32)> = (-8..=20).map(|n: i32| (n, call(|| i32::from(Weekday::from(n))).unwrap_or(NA))).collect();
    let less: Vec<Vec<bool>> = (1..=7).map(|a| (1..=7).map(|b| Weekday::from(a) < Weekday::from(b)).collect()).collect();
    use rust_quantlib::datetime::imm::IMMMonth::*;
    let letters: Vec<i32> = vec![F as i32, G as i32, H as i32, J as i32, K as i32, M as i32, N as i32, Q as i32, U as i32, V as i32, X as i32, Z as i32];
    o.rec(obj! {k: "codes", months: months, weekdays: weekdays, less: less, letters: letters});
    for _ in 0..cfg.n(20, 300) {
        let q: Vec<(i32, i32, i32, i32)> = (0..100)
            .map(|_| {
                let n = if r.chance(1, 2) { r.i32(-200, 200) } else { r.i32(-20000, 20000) };
                let p = *r.pick(&[360, 360, 365, 366, 252, 1, 12]);
                let t = n as f64 / 16.0;
                (n, p, call(|| time_to_days_with_days_per_year(t, p)).unwrap_or(NA), call(|| time_to_days(t)).unwrap_or(NA))
            })
            .collect();
        o.rec(obj! {k: "days-of-time", q: q});
    }
}

pub fn counters(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(41);
    // calendars: names, kept by copies and whatever the overrides
    let rows: Vec<Raw> = CALS
        .iter()
        .map(|id| {
            let mut c = cal(id);
            let name = c.name();
            let copy = c.clone();
            for _ in 0..20 {
                let d = ser(r.i32(400, 109000));
                if r.chance(1, 2) { c.add_holiday(d) } else { c.remove_holiday(d) }
            }
            obj! {id: *id, name: name, copy: copy.name(), changed: c.name()}
        })
        .collect();
    o.rec(obj! {k: "calendars", q: rows});
    for _ in 0..cfg.n(40, 600) {
        let w = window(&mut r, 1500);
        let c = w.cal.clone();
        let schedule = loop {
            if let Some(q) = call(|| request(&mut r, &w, 1500, &[1, 2])) {
                if let Some(s) = call(|| q.build(&c)) {
                    break s;
                }
            }
        };
        let (x, y) = (ser(r.i32(2, 109574)), ser(r.i32(2, 109574)));
        let all: Vec<(&str, DayCounter)> = vec![
            ("actual360", DayCounter::actual360()),
            ("actual360", DayCounter::Actual360(Actual360::default())),
            ("actual360-last", DayCounter::Actual360(Actual360::with_last_day(true))),
            ("actual366", DayCounter::Actual366(Actual366::new())),
            ("actual366-last", DayCounter::Actual366(Actual366::with_last_day(true))),
            ("one", DayCounter::One(One::new())),
            ("simple", DayCounter::simple()),
            ("simple", DayCounter::Simple(Simple::new())),
            ("usa", DayCounter::usa()),
            ("isma30", DayCounter::isma()),
            ("bond-basis", DayCounter::bond_basis()),
            ("european", DayCounter::european()),
            ("euro-bond-basis", DayCounter::euro_bond_basis()),
            ("italian", DayCounter::italian()),
            ("isda30", DayCounter::isda(x)),
            ("german", DayCounter::german(y)),
            ("nasd", DayCounter::nasd()),
            ("thirty365", DayCounter::Thirty365(Thirty365::new())),
            ("isma", DayCounter::actual_actual_isma(schedule)),
            ("old-isma", DayCounter::actual_actual_old_isma()),
            ("isda", DayCounter::actual_actual_isda()),
            ("afb", DayCounter::actual_actual_afb()),
        ];
        let z = Date::default();
        let pairs: Vec<(Date, Date)> = (0..12)
            .map(|_| {
                let s = r.i32(400, 108000);
                let s = interesting(&mut r, s);
                let t = s + r.i32(-300, 1500);
                (ser(s), ser(interesting(&mut r, t)))
            })
            .collect();
        let results = |d: &DayCounter| -> Vec<(Option<i32>, Option<u64>)> {
            pairs.iter().map(|(a, b)| (call(|| d.day_count(a, b)), call(|| d.year_fraction(a, b, &z, &z).to_bits()))).collect()
        };
        let res: Vec<_> = all.iter().map(|(_, d)| results(d)).collect();
        let ids: Vec<&str> = all.iter().map(|x| x.0).collect();
        let names: Vec<String> = all.iter().map(|x| x.1.name()).collect();
        let texts: Vec<String> = all.iter().map(|x| format!("{:?}", x.1)).collect();
        let eq: Vec<Vec<bool>> = all.iter().map(|a| all.iter().map(|b| a.1 == b.1).collect()).collect();
        let same: Vec<Vec<bool>> = res.iter().map(|a| res.iter().map(|b| a == b).collect()).collect();
        let copy: Vec<bool> = all
            .iter()
            .zip(&res)
            .map(|((_, d), v)| {
                let e = d.clone();
                e == *d && e.name() == d.name() && results(&e) == *v
            })
            .collect();
        o.rec(obj! {k: "counters", ids: ids, names: names, texts: texts, eq: eq, same: same, copy: copy});
    }
}
