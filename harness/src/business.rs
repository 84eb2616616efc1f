//! Business-day adjustment, advancing, lists, counts and holiday overrides.
use crate::cals::*;
use crate::dates::*;
use crate::util::*;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention, calendar::Calendar, date::Date,
    holidays::nilholiday::NilHoliday, holidays::weekendsonly::WeekendsOnly, period::Period,
    weekday::Weekday,
};

pub fn conv(c: i32) -> BusinessDayConvention {
    use BusinessDayConvention::*;
    match c {
        1 => Following,
        2 => ModifiedFollowing,
        3 => Preceding,
        4 => ModifiedPreceding,
        5 => Unadjusted,
        6 => HalfMonthModifiedFollowing,
        7 => Nearest,
        _ => panic!("convention"),
    }
}

fn d(x: Option<Date>) -> i32 {
    x.map(|d| d.serial_number()).unwrap_or(-1)
}
fn ds(x: Option<Vec<Date>>) -> Vec<i32> {
    x.map(|v| v.iter().map(|d| d.serial_number()).collect()).unwrap_or(vec![-1])
}
pub fn hols(c: &Calendar, lo: i32, hi: i32) -> Vec<i32> {
    (lo..=hi).filter(|s| call(|| c.is_holiday(&ser(*s))).unwrap_or(true)).collect()
}
fn weekend(c: &Calendar) -> Vec<i32> {
    (1..=7).filter(|w| call(|| c.is_weekend(Weekday::from(*w))).unwrap_or(false)).collect()
}

/// a null (or weekends-only) calendar with the given pattern of holidays laid over it
fn pattern(base: bool, origin: i32, bits: u32, n: i32) -> Calendar {
    let mut c = if base { NilHoliday::new() } else { WeekendsOnly::new() };
    for k in 0..n {
        if bits >> k & 1 == 1 {
            c.add_holiday(ser(origin + k));
        } else if !base {
            c.remove_holiday(ser(origin + k));
        }
    }
    c
}

fn adj_rec(c: &Calendar, name: &str, lo: i32, hi: i32, from: i32, to: i32) -> Raw {
    let h = hols(c, lo, hi);
    let q: Vec<(i32, Vec<i32>, Vec<i32>, i32)> = (from..=to)
        .map(|s| {
            let r: Vec<Option<Date>> = (1..=7).map(|k| call(|| c.adjust(ser(s), conv(k)))).collect();
            let again: Vec<i32> = (1..=7)
                .map(|k| d(r[k as usize - 1].and_then(|x| call(|| c.adjust(x, conv(k))))))
                .collect();
            (s, r.iter().map(|x| d(*x)).collect(), again, d(call(|| c.adjust_with_following(ser(s)))))
        })
        .collect();
    obj! {k: "adj", cal: name, lo: lo, hi: hi, hol: h, q: q}
}

fn origins(n: i32) -> Vec<i32> {
    vec![
        serial(24, 2, 2019), serial(25, 2, 2020), serial(10, 6, 2021), serial(26, 12, 2022),
        serial(27, 4, 1999), serial(11, 2, 1904), serial(8, 12, 2150), serial(31 - n / 2, 8, 2045),
    ]
}

pub fn adjust(cfg: &Cfg, o: &mut Out) {
    let n = cfg.n(10, 14) as i32;
    let org = origins(n);
    for bits in 0..(1u32 << n) {
        label(&format!("adjust pattern {:b}", bits));
        for (k, &a) in org.iter().enumerate() {
            if (bits as usize + k) % 4 != 0 {
                continue;
            }
            let c = pattern(k % 3 != 2, a, bits, n);
            o.rec(adj_rec(&c, "pattern", a - n - 12, a + 2 * n + 12, a - 2, a + n + 1));
        }
    }
    let mut r = cfg.rng(9);
    // long runs of holidays, broken by single business days
    for _ in 0..cfg.n(150, 3000) {
        let a = r.i32(2000, 107000);
        let n = r.i32(8, 70);
        let mut c = cal(*r.pick(&["Null", "WeekendsOnly"]));
        for s in a..a + n {
            if !r.chance(1, 25) { c.add_holiday(ser(s)) }
        }
        let from = (a - 2).max(a + n - 30);
        o.rec(adj_rec(&c, "long run", a - 60, a + n + 60, if r.chance(1, 2) { a - 2 } else { from }, a + n + 1));
    }
    // real calendars, with and without additional holidays
    for name in CALS {
        for _ in 0..cfg.n(40, 400) {
            let mut c = cal(name);
            let a = r.i32(200, 109300);
            label(&format!("adjust {} {}", name, a));
            for _ in 0..r.i32(0, 6) {
                let s = a + r.i32(0, 20);
                if r.chance(3, 4) { c.add_holiday(ser(s)) } else { c.remove_holiday(ser(s)) }
            }
            o.rec(adj_rec(&c, name, a - 40, a + 70, a, a + 25));
        }
    }
}

fn adv_one(c: &Calendar, s: i32, n: i32, u: i32, cv: i32, eom: bool) -> Vec<i32> {
    vec![
        d(call(|| c.advance_by_days(ser(s), n, unit(u), conv(cv), eom))),
        d(call(|| c.advance_by_period(ser(s), Period::new(n, unit(u)), conv(cv), eom))),
        d(call(|| c.advance_by_days_with_following(ser(s), n, unit(u), eom))),
        d(call(|| c.advance_by_period_with_following(ser(s), Period::new(n, unit(u)), eom))),
    ]
}

pub fn advance(cfg: &Cfg, o: &mut Out) {
    let n = cfg.n(8, 11) as i32;
    let org = [serial(25, 2, 2020), serial(26, 4, 2021), serial(27, 12, 2022), serial(11, 6, 2021)];
    for bits in 0..(1u32 << n) {
        for (k, &a) in org.iter().enumerate() {
            label(&format!("advance pattern {:b} {}", bits, a));
            let c = pattern(k % 2 == 0, a, bits, n);
            let (lo, hi) = (a - 80, a + 110);
            let mut q = vec![];
            for s in (a - 2)..=(a + n) {
                for m in [-5, -2, -1, 0, 1, 2, 6] {
                    q.push((s, m, 1, 1 + (s + m + bits as i32).rem_euclid(7), (s + m) % 2 == 0,
                            adv_one(&c, s, m, 1, 1 + (s + m + bits as i32).rem_euclid(7), (s + m) % 2 == 0)));
                }
                for (m, u) in [(1, 2), (-1, 2), (1, 3), (-1, 3), (2, 3), (0, 3), (0, 2)] {
                    let cv = 1 + (s + m + u + bits as i32).rem_euclid(7);
                    let e = (s + bits as i32) % 2 == 0;
                    q.push((s, m, u, cv, e, adv_one(&c, s, m, u, cv, e)));
                    q.push((s, m, u, cv, !e, adv_one(&c, s, m, u, cv, !e)));
                }
            }
            o.rec(obj! {k: "adv", cal: "pattern", lo: lo, hi: hi, hol: hols(&c, lo, hi), q: q});
        }
    }
    // far away
    let mut r = cfg.rng(101);
    for k in 0..cfg.n(40, 500) {
        let a = r.i32(3000, 106000);
        // as they are, then with days added, removed, or both, all along the way
        let name = if k < CALS.len() { CALS[k] } else { *r.pick(&["WeekendsOnly", "WeekendsOnly", "Null", CALS[k % CALS.len()]]) };
        let mut c = cal(name);
        if k >= CALS.len() {
            for _ in 0..60 {
                let s = a + r.i32(-850, 1200);
                if k % 3 != 1 { c.add_holiday(ser(s)) }
                let s = a + r.i32(-850, 1200);
                if k % 3 != 0 {
                    let w = (0..7).find(|j| c.is_holiday(&ser(s + j))).unwrap_or(0);
                    c.remove_holiday(ser(s + w))
                }
            }
        }
        let mut q = vec![];
        for (j, m) in [100, -120, 251, -252, 260, 366, -400, 501, -520, 750].iter().enumerate() {
            let (s, cv, e) = (a + r.i32(-3, 3), 1 + j as i32 % 7, j % 2 == 0);
            q.push((s, *m, 1, cv, e, adv_one(&c, s, *m, 1, cv, e)));
        }
        o.rec(obj! {k: "adv", cal: "far", lo: a - 900, hi: a + 1250, hol: hols(&c, a - 900, a + 1250), q: q});
    }
    // targets that land in the pattern: start a month, quarter or year away
    let mut r = cfg.rng(10);
    for _ in 0..cfg.n(600, 6000) {
        let a = r.i32(800, 108700);
        let eom = ser(a).end_of_month().serial_number();
        // weeks and days are counted even where they lead from one month end to another
        let weeks: Vec<i32> = [-57, -52, -44, -35, -31, -26, -22, -18, -13, -9, -4, 4, 9, 13, 18, 22, 26, 31, 35, 44, 48, 52, 57]
            .into_iter()
            .filter(|w| { let t = ser(eom + 7 * w); t.end_of_month() == t })
            .collect();
        let (m, u) = if !weeks.is_empty() && r.chance(1, 3) { (*r.pick(&weeks), 2) } else {
            match r.i32(0, 3) {
                0 => *r.pick(&[(1, 3), (-1, 3), (3, 3), (6, 3), (-6, 3), (1, 4), (-1, 4), (12, 3), (4, 2), (5, 1), (-7, 1)]),
                1 => (*r.pick(&[1, -1]) * *r.pick(&[2, 3, 4, 5, 7, 9, 11, 12, 13, 15, 18, 24, 30, 36, 48, 60, 84, 120, 180, 240, 360, 600]), 3),
                2 => (*r.pick(&[1, -1]) * *r.pick(&[2, 3, 4, 5, 7, 10, 20, 30, 50]), 4),
                _ => match r.i32(0, 2) {
                    0 => (0, r.i32(1, 4)),
                    1 => (r.i32(-30, 30), r.i32(1, 2)),
                    _ => (r.i32(-260, 260), 2),
                },
            }
        };
        let w = 9;
        let name = *r.pick(&CALS);
        let mut c = cal(name);
        label(&format!("advance {} {} {} {}", name, a, m, u));
        // holidays scattered round the end of the start month and of the target month
        let t = call(|| (ser(eom) + Period::new(m, unit(u))).serial_number()).unwrap_or(eom);
        for x in [eom, t] {
            for _ in 0..r.i32(0, 8) {
                let s = x + r.i32(-w, w);
                if r.chance(2, 3) { c.add_holiday(ser(s)) } else { c.remove_holiday(ser(s)) }
            }
        }
        // business days are counted from the start on, otherwise only those near the start and the target matter
        let (lo, hi) = (eom.min(t) - 70, eom.max(t) + 70);
        let hol = if u == 1 || t.max(eom) - t.min(eom) < 500 { hols(&c, lo, hi) } else {
            let mut h = hols(&c, lo, lo + 140);
            h.extend(hols(&c, hi - 140, hi));
            h
        };
        let mut q = vec![];
        for s in (eom - 7)..=(eom + 3) {
            for e in [true, false] {
                let cv = r.i32(1, 7);
                q.push((s, m, u, cv, e, adv_one(&c, s, m, u, cv, e)));
            }
        }
        o.rec(obj! {k: "adv", cal: name, lo: lo, hi: hi, hol: hol, q: q});
    }
}

fn list_rec(c: &Calendar, name: &str, lo: i32, hi: i32, iv: &[(i32, i32)], em: &[i32]) -> Raw {
    let fl = [(true, true), (true, false), (false, true), (false, false)];
    let q: Vec<_> = iv
        .iter()
        .map(|&(a, b)| {
            (
                a,
                b,
                ds(call(|| c.holiday_list(ser(a), ser(b), true))),
                ds(call(|| c.holiday_list(ser(a), ser(b), false))),
                ds(call(|| c.business_day_list(ser(a), ser(b)))),
                fl.iter().map(|f| call(|| c.business_days_between(ser(a), ser(b), f.0, f.1)).unwrap_or(-999999)).collect::<Vec<_>>(),
                fl.iter().map(|f| call(|| c.business_days_between(ser(b), ser(a), f.0, f.1)).unwrap_or(-999999)).collect::<Vec<_>>(),
            )
        })
        .collect();
    let e: Vec<_> = em
        .iter()
        .map(|&s| (s, d(call(|| c.end_of_month(&ser(s)))), call(|| c.is_end_of_month(&ser(s))).map(|b| b as i32).unwrap_or(-1)))
        .collect();
    obj! {k: "lists", cal: name, lo: lo, hi: hi, hol: hols(c, lo, hi), we: weekend(c), q: q, eom: e}
}

pub fn lists(cfg: &Cfg, o: &mut Out) {
    let n = cfg.n(8, 11) as i32;
    for bits in 0..(1u32 << n) {
        for (k, a) in [serial(26, 2, 2021), serial(28, 12, 2023)].iter().enumerate() {
            label(&format!("lists pattern {:b}", bits));
            let c = pattern(k == 0, *a, bits, n);
            let mut iv = vec![];
            for x in (a - 1)..=(a + n) {
                for y in x..=(a + n) {
                    if (x + y + bits as i32) % 3 == 0 || y - x < 2 {
                        iv.push((x, y));
                    }
                }
            }
            let em: Vec<i32> = ((a - 2)..=(a + n)).collect();
            o.rec(list_rec(&c, "pattern", a - 40, a + n + 50, &iv, &em));
        }
    }
    let mut r = cfg.rng(11);
    for name in CALS {
        for _ in 0..cfg.n(30, 300) {
            let mut c = cal(name);
            let a = r.i32(200, 109000);
            label(&format!("lists {} {}", name, a));
            for _ in 0..r.i32(0, 6) {
                let s = a + r.i32(0, 60);
                if r.chance(1, 2) { c.add_holiday(ser(s)) } else { c.remove_holiday(ser(s)) }
            }
            let mut iv = vec![(a, a), (a, a + 1)];
            for _ in 0..6 {
                let x = a + r.i32(0, 60);
                iv.push((x, x + r.i32(0, 90)));
            }
            let em: Vec<i32> = (a..a + 70).collect();
            o.rec(list_rec(&c, name, a - 60, a + 170, &iv, &em));
        }
        // intervals of years, with days added, removed, or both, all along
        for k in 0..cfg.n(3, 30) {
            let mut c = cal(name);
            let a = r.i32(200, 107000);
            for _ in 0..40 {
                if k % 3 != 1 { c.add_holiday(ser(a + r.i32(0, 1200))) }
                let s = a + r.i32(0, 1200);
                if k % 3 != 0 {
                    let w = (0..7).find(|j| c.is_holiday(&ser(s + j))).unwrap_or(0);
                    c.remove_holiday(ser(s + w))
                }
            }
            label(&format!("lists {} {}", name, a));
            let mut iv = vec![];
            for n in [150, 200, 262, 366, 400, 800, 1150] {
                let x = a + r.i32(0, 1190 - n);
                iv.push((x, x + n + r.i32(-10, 10)));
            }
            o.rec(list_rec(&c, name, a - 60, a + 1300, &iv, &[]));
        }
        // and of many years
        for k in 0..cfg.n(1, 6) {
            let mut c = cal(name);
            let span = if k % 2 == 1 || name == "Null" || r.chance(1, 4) { r.i32(4500, 12000) } else { r.i32(2200, 4500) };
            let a = r.i32(200, 95000);
            for _ in 0..60 {
                c.add_holiday(ser(a + r.i32(0, span)));
                let s = a + r.i32(0, span);
                let w = (0..7).find(|j| c.is_holiday(&ser(s + j))).unwrap_or(0);
                c.remove_holiday(ser(s + w))
            }
            label(&format!("lists {} {}", name, a));
            o.rec(list_rec(&c, name, a - 60, a + span + 60, &[(a + r.i32(0, 50), a + span - r.i32(0, 50))], &[]));
        }
        // intervals touching the ends of the supported range
        let c = cal(name);
        o.rec(list_rec(&c, name, 2, 120, &[(2, 2), (2, 3), (2, 100), (5, 60)], &[33, 40, 61]));
        o.rec(list_rec(&c, name, 109400, 109574, &[(109574, 109574), (109573, 109574), (109500, 109574)], &[109480, 109500, 109510]));
        let res: Vec<i32> = [(40000, 39999), (50000, 2)]
            .iter()
            .flat_map(|&(a, b)| {
                vec![
                    call(|| c.holiday_list(ser(a), ser(b), true)).map(|v| v.len() as i32).unwrap_or(-1),
                    call(|| c.business_day_list(ser(a), ser(b))).map(|v| v.len() as i32).unwrap_or(-1),
                ]
            })
            .collect();
        o.rec(obj! {k: "refused", cal: *name, res: res});
    }
}

fn sorted(s: &std::collections::HashSet<Date>) -> Vec<i32> {
    let mut v: Vec<i32> = s.iter().map(|d| d.serial_number()).collect();
    v.sort();
    v
}

fn apply(c: &mut Calendar, days: &[i32], op: i32) {
    match op / 10 {
        1 => c.add_holiday(ser(days[(op % 10 - 1) as usize])),
        2 => c.remove_holiday(ser(days[(op % 10 - 1) as usize])),
        3 => c.reset_added_and_removed_holidays(),
        _ => {}
    }
}

/// replay one history of override operations on a real calendar
fn history(name: &str, days: &[i32], ops: &[i32]) -> Raw {
    let lo = days.iter().min().unwrap() - 12;
    let hi = days.iter().max().unwrap() + 36;
    let (a, b) = (lo + 5, hi - 20);
    let mut c = cal(name);
    let mut cp = c.clone();
    let fresh = cal(name);
    let builtin = hols(&cal(name), lo, hi);
    let mut steps = vec![];
    for &op in ops {
        // the same question put immediately before and immediately after the operation, each
        // to a copy of its own: an answer remembered from before must not survive
        let asked = |ask: &dyn Fn(&Calendar)| {
            let mut x = if op / 10 == 5 { cp.clone() } else { c.clone() };
            ask(&x);
            apply(&mut x, days, op);
            x
        };
        let still: Vec<(i32, i32)> = days
            .iter()
            .map(|&s| {
                let x = asked(&|x| { call(|| x.is_holiday(&ser(s))); });
                let h = call(|| x.is_holiday(&ser(s))).map(|b| b as i32).unwrap_or(-1);
                let x = asked(&|x| { call(|| x.adjust(ser(s), conv(1))); });
                (h, d(call(|| x.adjust(ser(s), conv(1)))))
            })
            .collect();
        let x = asked(&|x| { call(|| x.business_days_between(ser(a), ser(b), true, true)); });
        let scnt = call(|| x.business_days_between(ser(a), ser(b), true, true)).unwrap_or(-999999);
        let x = asked(&|x| { call(|| x.holiday_list(ser(a), ser(b), true)); });
        let slist = ds(call(|| x.holiday_list(ser(a), ser(b), true)));
        let x = asked(&|x| { call(|| x.end_of_month(&ser(days[0]))); });
        let seom = d(call(|| x.end_of_month(&ser(days[0]))));
        match op / 10 {
            4 => cp = c.clone(),
            5 => std::mem::swap(&mut c, &mut cp),
            _ => apply(&mut c, days, op),
        }
        let adj: Vec<Vec<i32>> =
            days.iter().map(|&s| (1..=7).map(|k| d(call(|| c.adjust(ser(s), conv(k))))).collect()).collect();
        let adv: Vec<i32> = days.iter().map(|&s| d(call(|| c.advance_by_days(ser(s), 2, unit(1), conv(1), false)))).collect();
        let bck: Vec<i32> = days.iter().map(|&s| d(call(|| c.advance_by_days(ser(s), -2, unit(1), conv(1), false)))).collect();
        let eom: Vec<(i32, i32)> = days
            .iter()
            .map(|&s| (d(call(|| c.end_of_month(&ser(s)))), call(|| c.is_end_of_month(&ser(s))).map(|b| b as i32).unwrap_or(-1)))
            .collect();
        steps.push(obj! {
            op: op, hol: hols(&c, lo, hi),
            list: ds(call(|| c.holiday_list(ser(a), ser(b), true))),
            nw: ds(call(|| c.holiday_list(ser(a), ser(b), false))),
            bd: ds(call(|| c.business_day_list(ser(a), ser(b)))),
            added: sorted(c.added_holidays()), removed: sorted(c.removed_holidays()),
            adj: adj, adv: adv, bck: bck, eom: eom,
            cnt: call(|| c.business_days_between(ser(a), ser(b), true, true)).unwrap_or(-999999),
            still: still, scnt: scnt, slist: slist, seom: seom,
            cp: hols(&cp, lo, hi), fresh: hols(&fresh, lo, hi)
        });
    }
    obj! {k: "ovr", cal: name, days: days, lo: lo, hi: hi, a: a, b: b, we: weekend(&c), builtin: builtin, steps: steps}
}

/// days of different kinds near each other: a weekday holiday (if the calendar has one), a
/// plain business day and a weekend day (if there are weekends), ending near a month end
fn pick_days(name: &str, r: &mut Rng, n: usize) -> Vec<i32> {
    let c = cal(name);
    loop {
        let a = r.i32(800, 109000);
        let e = ser(a).end_of_month().serial_number();
        let lo = e - 6;
        let hi = e + 4;
        let wdh = (lo..=hi).find(|s| c.is_holiday(&ser(*s)) && !c.is_weekend(ser(*s).weekday()));
        let we: Vec<i32> = (lo..=hi).filter(|s| c.is_weekend(ser(*s).weekday())).collect();
        let biz: Vec<i32> = (lo..=hi).filter(|s| !c.is_holiday(&ser(*s))).collect();
        let mut v = vec![];
        match wdh {
            Some(s) => v.push(s),
            None if name != "WeekendsOnly" && name != "Null" => continue,
            None => {}
        }
        if !we.is_empty() {
            v.push(*r.pick(&we));
        }
        while v.len() < n {
            let b = *r.pick(&biz);
            if !v.contains(&b) {
                v.push(b);
            }
        }
        // vary which of the kinds comes first
        let k = r.i32(0, n as i32 - 1) as usize;
        v.rotate_left(k);
        v.truncate(n);
        return v;
    }
}

pub fn overrides(cfg: &Cfg, o: &mut Out) {
    let text = std::fs::read_to_string(cfg.input.as_ref().expect("behaviours")).unwrap();
    let mut r = cfg.rng(8);
    for (k, line) in text.lines().enumerate() {
        let ops: Vec<i32> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let name = CALS[k % CALS.len()];
        label(&format!("override history {} on {}", line, name));
        let days = pick_days(name, &mut r, 3);
        o.rec(history(name, &days, &ops));
    }
    // long random histories
    for name in CALS {
        for _ in 0..cfg.n(8, 120) {
            let days = pick_days(name, &mut r, 4);
            let ops: Vec<i32> = (0..r.i32(6, 24))
                .map(|_| match r.i32(0, 11) {
                    0 => 30,
                    1 => 40,
                    2 => 50,
                    k if k % 2 == 0 => 10 + r.i32(1, 4),
                    _ => 20 + r.i32(1, 4),
                })
                .collect();
            label(&format!("override history {:?} on {}", ops, name));
            o.rec(history(name, &days, &ops));
        }
    }
}
