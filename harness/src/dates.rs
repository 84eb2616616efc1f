use crate::util::*;
use rust_quantlib::datetime::{
    calendar, date::Date, holiday, months::Month, period::Period, timeunit::TimeUnit,
    weekday::Weekday,
};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn ymd(d: &Date) -> i32 {
    let m: i32 = d.month().into();
    d.year() * 10000 + m * 100 + d.day_of_month() as i32
}
pub fn wd(d: &Date) -> i32 {
    d.weekday().into()
}
pub fn ser(s: i32) -> Date {
    Date::from_serial(s)
}
fn hash(d: &Date) -> u64 {
    let mut h = DefaultHasher::new();
    d.hash(&mut h);
    h.finish()
}
pub fn unit(u: i32) -> TimeUnit {
    match u {
        1 => TimeUnit::Days,
        2 => TimeUnit::Weeks,
        3 => TimeUnit::Months,
        4 => TimeUnit::Years,
        5 => TimeUnit::Hours,
        _ => panic!("unit"),
    }
}
pub fn month(m: i32) -> Month {
    Month::from(m)
}
pub const MONTH_LEN: [i32; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
/// the harness' own civil calendar, used only to choose inputs
pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn mlen(m: i32, y: i32) -> i32 {
    MONTH_LEN[(m - 1) as usize] + if m == 2 && leap(y) { 1 } else { 0 }
}
pub fn serial(d: i32, m: i32, y: i32) -> i32 {
    let mut n = 1;
    for yy in 1900..y {
        n += if leap(yy) { 366 } else { 365 };
    }
    for mm in 1..m {
        n += mlen(mm, y);
    }
    n + d
}

/// the same day of the month in some other year
fn elsewhen(r: &mut Rng, y: i32, m: i32, d: i32) -> i32 {
    let y2 = y + *r.pick(&[100, -100, 200, -200, 1, -1, 4, -4, 10, -10, 28, 64, -64, 128, 256]);
    let y2 = if (1900..2200).contains(&y2) { y2 } else { y };
    serial(d.min(mlen(m, y2)), m, y2)
}
/// a serial number some round distance away
fn away(r: &mut Rng, s: i32) -> i32 {
    let k = *r.pick(&[65536, 32768, 16384, 8192, 4096, 1024, 512, 256, 128, 36524, 36525, 10000, 1000, 100, 7, 2, 1]);
    let t = if r.chance(1, 2) { s + k } else { s - k };
    if (2..=109574).contains(&t) { t } else if (2..=109574).contains(&(2 * s - t)) { 2 * s - t } else { s }
}
pub fn civil(cfg: &Cfg, o: &mut Out) {
    let mut rng = cfg.rng(1);
    let mut first = 2;
    for y in 1900..2200 {
        label(&format!("civil year {}", y));
        // the days of the year, in no particular order
        let mut days: Vec<(i32, i32, i32)> = vec![];
        for m in 1..=12 {
            for d in 1..=mlen(m, y) {
                days.push((first + days.len() as i32, m, d));
            }
        }
        let n = days.len() as i32;
        if y % 4 != 1 {
            for k in 1..days.len() {
                days.swap(k, rng.i32(0, k as i32) as usize);
            }
        }
        let mut obs: Vec<Option<Raw>> = (0..n).map(|_| None).collect();
        {
            for &(s, m, d) in &days {
                if rng.chance(1, 3) {
                    // another day met just before must not matter
                    let t = if rng.chance(2, 3) { away(&mut rng, s) } else { elsewhen(&mut rng, y, m, d) };
                    let _ = call(|| {
                        let a = ser(t);
                        let b = Date::new(a.day_of_month(), a.month(), a.year());
                        (wd(&a), wd(&b), a.end_of_month(), b.is_end_of_month(), a.day_of_year(), hash(&b))
                    });
                }
                let r = call(|| {
                    let a = Date::from_serial(s);
                    let b = Date::new(d as u32, month(m), y);
                    let e = a.end_of_month();
                    let next = if s < 109574 {
                        let n = Date::from_serial(s + 1);
                        a < n && n > a && a != n && n - a == 1
                            && Date::days_between(&a, &n) == 1.0
                    } else {
                        Date::max_date() == a
                    };
                    let same = a == b && hash(&a) == hash(&b) && !(a < b) && !(b < a)
                        && a.cmp(&b) == std::cmp::Ordering::Equal;
                    obj_arr(&[
                        a.serial_number(),
                        ymd(&a),
                        ymd(&b),
                        a.day_of_year() as i32,
                        wd(&a),
                        if ymd(&e) / 100 == ymd(&a) / 100 { e.serial_number() } else { -7 },
                        (a.is_end_of_month() && b.is_end_of_month()) as i32,
                        b.serial_number(),
                        (next && same) as i32,
                    ])
                });
                obs[(s - first) as usize] = Some(r.unwrap_or_else(|| obj_arr(&[-1; 9])));
            }
        }
        let obs: Vec<Raw> = obs.into_iter().flatten().collect();
        let lp = call(|| Date::is_leap(y)).map(|b| b as i32).unwrap_or(-1);
        o.rec(obj! {k: "year", y: y, leap: lp, obs: obs});
        first += n;
    }
    // which day numbers are accepted
    for y in 1890..2211 {
        for m in 1..=12 {
            label(&format!("accept {} {}", y, m));
            let acc: Vec<i32> = (0..=40)
                .filter(|d| call(|| Date::new(*d as u32, month(m), y)).is_some())
                .collect();
            o.rec(obj! {k: "days", y: y, m: m, acc: acc});
        }
    }
    let mut probe = vec![];
    for s in [
        i32::MIN + 1, -100000, -2, -1, 0, 1, 2, 3, 4, 1000, 109573, 109574, 109575, 109576, 109940,
        200000, i32::MAX,
    ] {
        probe.push((s, call(|| Date::from_serial(s)).is_some()));
    }
    o.rec(obj! {k: "serials", probe: probe});
    label("edges");
    let seen = |d: Option<Date>| match d {
        Some(d) => vec![d.serial_number(), ymd(&d), wd(&d), d.day_of_year() as i32, hash(&d) as i32 - hash(&ser(d.serial_number())) as i32, (d == ser(d.serial_number())) as i32],
        None => vec![-1; 6],
    };
    // days since 1970 by the machine's own clock, before and after asking
    let now = || (std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() / 86400) as i32;
    let before = now();
    let today = seen(call(Date::todays_date));
    let context = seen(call(|| rust_quantlib::context::pricing_context::PricingContext::default().eval_date));
    o.rec(obj! {k: "edges", context: context, min: seen(call(Date::min_date)), max: seen(call(Date::max_date)), today: today, before: before, after: now()});
}

fn obj_arr(xs: &[i32]) -> Raw {
    let mut s = String::new();
    xs.j(&mut s);
    Raw(s)
}

fn res(d: Option<Date>) -> (i32, i32) {
    match d {
        Some(d) => (ymd(&d), d.serial_number()),
        None => (-1, -1),
    }
}

/// every spelling of date +/- period
fn spellings(s: i32, n: i32, u: i32) -> Vec<(i32, i32)> {
    let p = Period::new(n, unit(u));
    let mut v = vec![
        res(call(|| ser(s) + p)),
        res(call(|| &ser(s) + &p)),
        res(call(|| &ser(s) + p)),
        res(call(|| {
            let mut d = ser(s);
            d += p;
            d
        })),
        res(call(|| ser(s) - (-p))),
        res(call(|| &ser(s) - (-p))),
        res(call(|| {
            let mut d = ser(s);
            d -= -p;
            d
        })),
    ];
    if u == 1 {
        v.push(res(call(|| ser(s) + n)));
        v.push(res(call(|| &ser(s) + n)));
        v.push(res(call(|| {
            let mut d = ser(s);
            d += n;
            d
        })));
        v.push(res(call(|| ser(s) - (-n))));
        v.push(res(call(|| &ser(s) - (-n))));
        v.push(res(call(|| {
            let mut d = ser(s);
            d -= -n;
            d
        })));
    }
    v
}

pub fn moves(cfg: &Cfg, o: &mut Out) {
    let mut rng = cfg.rng(2);
    let mut starts = vec![2, 3, 4, 30, 32, 33, 59, 60, 61, 62, 109574, 109573, 109544, 109543, 109209];
    // month ends of the years where February behaves differently
    for y in [1900, 1903, 1904, 1996, 1999, 2000, 2001, 2023, 2024, 2099, 2100, 2104, 2196, 2199] {
        for m in 1..=12 {
            let l = mlen(m, y);
            for d in [1, 15, 28, 29, 30, 31] {
                if d <= l {
                    starts.push(serial(d, m, y));
                }
            }
        }
    }
    for _ in 0..cfg.n(400, 6000) {
        starts.push(rng.i32(2, 109574));
    }
    let lens = [-25, -24, -13, -12, -11, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6, 7, 11, 12, 13, 24, 36, 48, 120];
    for &s in &starts {
        label(&format!("moves {}", s));
        let mut ops = vec![];
        let start = ser(s);
        let (sy, sm, sd) = (start.year(), i32::from(start.month()), start.day_of_month() as i32);
        for u in 1..=4 {
            for &n in &lens {
                if rng.chance(1, 2) {
                    // nearly the same step taken just before
                    let t = match rng.i32(0, 3) { 0 => s, 1 => away(&mut rng, s), _ => elsewhen(&mut rng, sy, sm, sd) };
                    let (m, v) = match rng.i32(0, 3) { 0 => (n + rng.i32(-1, 1), u), 1 => (n, rng.i32(1, 4)), _ => (n, u) };
                    let _ = call(|| ser(t) + Period::new(m, unit(v)));
                }
                ops.push((n, u, spellings(s, n, u)));
            }
            for _ in 0..4 {
                let n = match u {
                    1 => rng.i32(-120000, 120000),
                    2 => rng.i32(-17000, 17000),
                    3 => rng.i32(-4000, 4000),
                    _ => rng.i32(-350, 350),
                };
                ops.push((n, u, spellings(s, n, u)));
            }
        }
        // exactly at and just past the two range ends
        for e in [2 - s, 1 - s, 109574 - s, 109575 - s] {
            ops.push((e, 1, spellings(s, e, 1)));
        }
        o.rec(obj! {k: "moves", s: s, ops: ops});
    }
    // histories of in-place updates
    for h in 0..cfg.n(400, 8000) {
        let s0 = match h % 4 {
            0 => rng.i32(2, 400),
            1 => rng.i32(109200, 109574),
            _ => rng.i32(2, 109574),
        };
        let len = rng.i32(3, 24);
        let mut d = ser(s0);
        let mut steps: Vec<Raw> = vec![];
        label(&format!("history from {}", s0));
        for _ in 0..len {
            let u = rng.i32(1, 4);
            let n = match rng.i32(0, 5) {
                0 => 0,
                1 => rng.i32(-400, 400),
                2 => rng.i32(-40, 40),
                _ => rng.i32(-13, 13),
            };
            let how = rng.i32(0, 3);
            let before = d;
            let mut c = d;
            let r = call(|| {
                match (how, u) {
                    (0, 1) => c += n,
                    (1, 1) => c -= -n,
                    (1, _) | (2, _) => c -= -Period::new(n, unit(u)),
                    _ => c += Period::new(n, unit(u)),
                }
                c
            });
            let refused = r.is_none();
            if let Some(x) = r {
                d = x;
            }
            let probe = call(|| {
                let f = Date::from_serial(d.serial_number());
                let cmp = match d.cmp(&before) {
                    std::cmp::Ordering::Less => -1,
                    std::cmp::Ordering::Equal => 0,
                    _ => 1,
                };
                let consistent = (d < before) == (cmp == -1)
                    && (d > before) == (cmp == 1)
                    && (d == before) == (cmp == 0)
                    && d == f
                    && hash(&d) == hash(&f)
                    && format!("{:?}", d) == format!("{:?}", f)
                    && (cmp != 0 || hash(&d) == hash(&before));
                (d.serial_number(), ymd(&d), wd(&d), d.day_of_year() as i32, cmp, consistent as i32, d - before)
            })
            .unwrap_or((-9, -9, -9, -9, -9, -9, -9));
            steps.push(obj_arr(&[
                n, u, refused as i32, probe.0, probe.1, probe.2, probe.3, probe.4, probe.5, probe.6,
            ]));
        }
        o.rec(obj! {k: "hist", s: s0, h: steps});
    }
}

pub fn nth(cfg: &Cfg, o: &mut Out) {
    let mut rng = cfg.rng(3);
    for y in 1900..2200 {
        for m in 1..=12 {
            label(&format!("nth {} {}", y, m));
            let mut rows = vec![];
            for w in 1..=7 {
                let row: Vec<i32> = (0..=7usize)
                    .map(|n| {
                        if rng.chance(1, 4) {
                            // nearly the same question just before
                            let t = ser(elsewhen(&mut rng, y, m, 1));
                            let k = rng.i32(0, 4);
                            let (n2, w2) = (if k == 0 { rng.i32(1, 5) as usize } else { n }, if k == 1 { rng.i32(1, 7) } else { w });
                            let m2 = if k == 2 { rng.i32(1, 12) } else { m };
                            let y2 = if k > 2 { t.year() } else { y };
                            let _ = call(|| Date::nth_weekday(n2, Weekday::from(w2), month(m2), y2));
                        }
                        call(|| {
                            let d = Date::nth_weekday(n, Weekday::from(w), month(m), y);
                            if ymd(&d) == ymd(&ser(d.serial_number())) { d.serial_number() } else { -3 }
                        })
                        .unwrap_or(-1)
                    })
                    .collect();
                rows.push(row);
            }
            o.rec(obj! {k: "nth", y: y, m: m, res: rows});
        }
    }
}

pub fn easter(cfg: &Cfg, o: &mut Out) {
    let mut rng = cfg.rng(4);
    let f = |g: &dyn Fn() -> u32| call(|| g()).map(|x| x as i32).unwrap_or(-1);
    for y in 1900..2200 {
        for _ in 0..rng.i32(0, 2) {
            let z = ser(elsewhen(&mut rng, y, 1, 1)).year();
            if rng.chance(1, 2) { f(&|| holiday::easter_monday(z)); } else { f(&|| calendar::easter_monday_orthodox(z)); }
        }
        let west = vec![f(&|| calendar::easter_monday(y)), f(&|| holiday::easter_monday(y))];
        let orth = vec![
            f(&|| calendar::easter_monday_orthodox(y)),
            f(&|| holiday::easter_monday_orthodox(y)),
        ];
        o.rec(obj! {k: "easter", y: y, west: west, orth: orth});
    }
    for y in [-1, 0, 1583, 1800, 1898, 1899, 2200, 2201, 2300, 100000] {
        let res = vec![
            f(&|| calendar::easter_monday(y)),
            f(&|| holiday::easter_monday(y)),
            f(&|| calendar::easter_monday_orthodox(y)),
            f(&|| holiday::easter_monday_orthodox(y)),
        ];
        o.rec(obj! {k: "easterrange", y: y, res: res});
    }
}
