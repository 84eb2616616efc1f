//! IMM dates and codes; standard CDS maturities.
use crate::dates::*;
use crate::periods::chunks;
use crate::schedules::{ctx, rule};
use crate::util::*;
use rust_quantlib::datetime::{date::Date, imm::IMM, period::Period, schedule::previous_twentieth};
use rust_quantlib::instruments::creditdefaultswap::cds_maturity;

fn cp(s: Option<String>) -> Vec<i32> {
    s.map(|s| s.chars().map(|c| c as i32).collect()).unwrap_or_default()
}
fn sn(d: Option<Date>) -> i32 {
    d.map(|d| d.serial_number()).unwrap_or(-1)
}
const LETTERS: &str = "FGHJKMNQUVXZ";

pub fn imm(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(20);
    // every day from `stride` apart, densely around the middle of the month
    let mut q: Vec<Raw> = vec![];
    for ev in [36526, 109000] {
        let i = IMM::new(ctx(ev));
        for s in 2..=109574 {
            let d = ser(s);
            let dm = d.day_of_month();
            let near = (14..=22).contains(&dm);
            let keep = if cfg.thorough { true } else { r.chance(if near { 3 } else { 1 }, 40) || s < 40 || s > 109540 };
            if !keep || (ev == 109000 && s > 1000 && !r.chance(1, 20)) {
                continue;
            }
            q.push(obj! {s: s, i: i.is_imm_date(&d, false), m: i.is_imm_date(&d, true),
                n: sn(call(|| i.next_date(&d, false))), nm: sn(call(|| i.next_date(&d, true))), c: cp(call(|| i.code(&d))),
                nc: cp(call(|| i.next_code(&d, false))), ncm: cp(call(|| i.next_code(&d, true)))});
            if q.len() == 100 {
                out.rec(obj! {k: "dates", ev: ev, q: std::mem::take(&mut q)});
            }
        }
        out.rec(obj! {k: "dates", ev: ev, q: std::mem::take(&mut q)});
    }
    // strings as codes: all pairs of printable characters, other lengths, other alphabets
    let i = IMM::new(ctx(40000));
    let mut texts: Vec<String> = vec!["".into(), "H".into(), "3".into(), "H33".into(), "HH3".into(), " H3".into(), "H3 ".into(), "3H".into(),
        "é".into(), "ü".into(), "H\u{0663}".into(), "日".into(), "H3é".into(), "é3".into(), "\u{ff}".into(), "\u{7f}\u{80}".into(), "ß".into(), "h½".into(), "𝐇3".into()];
    for a in 32u8..127 {
        for b in 32u8..127 {
            if cfg.thorough || (b as char).is_ascii_digit() || (LETTERS.contains((a as char).to_ascii_uppercase()) && r.chance(1, 3)) || r.chance(1, 12) {
                texts.push(format!("{}{}", a as char, b as char));
            }
        }
    }
    let q: Vec<Raw> = texts
        .iter()
        .map(|t| {
            let b = |m: bool| call(|| i.is_imm_code(t, m)).map(|x| x as i32).unwrap_or(7);
            obj! {c: cp(Some(t.clone())), i: b(false), m: b(true)}
        })
        .collect();
    for c in chunks(q, 200) {
        out.rec(obj! {k: "codes", q: c});
    }
    // codes with reference dates
    for ev in [2, 39000, 109574 - 3000] {
        let i = IMM::new(ctx(ev));
        let mut q: Vec<Raw> = vec![];
        for _ in 0..cfg.n(2500, 60000) {
            let l = LETTERS.as_bytes()[r.i32(0, 11) as usize] as char;
            let l = if r.chance(1, 4) { l.to_ascii_lowercase() } else { l };
            let mut code = format!("{}{}", l, r.i32(0, 9));
            if r.chance(1, 60) {
                code = r.pick(&["A1", "H", "", "H12", "é", "i3", "3H"]).to_string();
            }
            let mut s = match r.i32(0, 9) {
                0 => 2,
                1 => r.i32(2, 4500),
                2 => r.i32(109574 - 4000, 109574),
                _ => r.i32(2, 109574),
            };
            if r.chance(1, 2) {
                // close to an IMM date, possibly of that very code
                let d = ser(s);
                let y = d.year() - d.year() % 10 + (code.chars().last().and_then(|c| c.to_digit(10)).unwrap_or(0) as i32);
                let m = LETTERS.find(l.to_ascii_uppercase()).unwrap() as i32 + 1;
                if y <= 2199 {
                    let t = Date::new(15, rust_quantlib::datetime::months::Month::from(m), y).serial_number();
                    s = (t + r.i32(-2, 9)).clamp(2, 109574);
                }
            }
            let ref_ = ser(s);
            q.push(obj! {c: cp(Some(code.clone())), ref: s, d: sn(call(|| i.date(&code, &ref_))),
                n: sn(call(|| i.next_date_from_code(&code, false, &ref_))), nm: sn(call(|| i.next_date_from_code(&code, true, &ref_))),
                nc: cp(call(|| i.next_code_from_code(&code, false, &ref_))), ncm: cp(call(|| i.next_code_from_code(&code, true, &ref_)))});
        }
        // every delivery day's own code, asked on the day and around it
        for m in 0..3600 {
            if !(cfg.thorough || r.chance(1, 6) || (m % 3 == 2 && r.chance(1, 2))) { continue; }
            let (y, mo) = (1900 + m / 12, m % 12);
            let first = Date::new(1, rust_quantlib::datetime::months::Month::from(mo + 1), y);
            let day = (0..21).map(|k| first + k).filter(|d| d.weekday() == rust_quantlib::datetime::weekday::Weekday::Wednesday).nth(2).unwrap().serial_number();
            let code = format!("{}{}", LETTERS.as_bytes()[mo as usize] as char, y % 10);
            for s in [day, day + *r.pick(&[-1, 1])] {
                let ref_ = ser(s);
                q.push(obj! {c: cp(Some(code.clone())), ref: s, d: sn(call(|| i.date(&code, &ref_))),
                    n: sn(call(|| i.next_date_from_code(&code, false, &ref_))), nm: sn(call(|| i.next_date_from_code(&code, true, &ref_))),
                    nc: cp(call(|| i.next_code_from_code(&code, false, &ref_))), ncm: cp(call(|| i.next_code_from_code(&code, true, &ref_)))});
            }
        }
        for c in chunks(q, 100) {
            out.rec(obj! {k: "from-code", ev: ev, q: c});
        }
    }
}

pub fn cds(cfg: &Cfg, out: &mut Out) {
    let mut r = cfg.rng(21);
    let mat = |s: i32, n: i32, u: i32, k: i32| match call(|| cds_maturity(&ser(s), Period::new(n, unit(u)), rule(k))) {
        None => -1,
        Some(d) => if d == Date::default() { 0 } else { d.serial_number() },
    };
    for s in 2..=109574 {
        let dm = ser(s).day_of_month();
        let keep = if cfg.thorough { (18..=22).contains(&dm) || r.chance(1, 10) } else { r.chance(if (18..=22).contains(&dm) { 5 } else { 1 }, 60) };
        if !keep && s > 200 && s < 109574 - 200 {
            continue;
        }
        let mut q: Vec<(i32, i32, i32, i32)> = vec![];
        for k in [8, 9, 10] {
            for (n, u) in [(0, 3), (3, 3), (6, 3), (0, 4), (1, 4), (5, 4)] {
                q.push((n, u, k, mat(s, n, u, k)));
            }
            for _ in 0..3 {
                let (n, u) = (r.i32(-14, 125), r.i32(1, 4));
                let n = if u == 4 { n / 2 } else { n };
                q.push((n, u, k, mat(s, n, u, k)));
            }
        }
        let k = r.i32(1, 7);
        q.push((1, 4, k, mat(s, 1, 4, k)));
        let d = ser(s);
        let rr = *r.pick(&[7, 8, 9, 10]);
        let r0 = *r.pick(&[6, 6, 1, 2, 4]);
        out.rec(obj! {k: "maturities", s: s, q: q, p20: sn(call(|| previous_twentieth(&d, rule(r0)))),
            p20q: sn(call(|| previous_twentieth(&d, rule(rr))))});
    }
    for _ in 0..cfg.n(300, 3000) {
        let k = *r.pick(&[8, 9, 10]);
        let a = r.i32(200, 80000);
        let q: Vec<(i32, i32, i32)> = (0..24)
            .map(|_| {
                let s = a + r.i32(0, 400);
                let m = 3 * r.i32(0, 24);
                let (n, u) = if m % 12 == 0 && r.chance(1, 2) { (m / 12, 4) } else { (m, 3) };
                (s, m, mat(s, n, u, k))
            })
            .collect();
        out.rec(obj! {k: "monotone", rule: k, q: q});
    }
}
