//! Schedule generation, truncation, search and the builder.
use crate::business::{conv, hols};
use crate::cals::*;
use crate::dates::*;
use crate::util::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::{
    calendar::Calendar, date::Date, dategenerationrule::DateGenerationRule, period::Period,
    schedule::Schedule, schedulebuilder::ScheduleBuilder, timeunit::TimeUnit,
};

pub fn rule(r: i32) -> DateGenerationRule {
    use DateGenerationRule::*;
    match r {
        1 => Backward,
        2 => Forward,
        3 => Zero,
        4 => ThirdWednesday,
        5 => ThirdWednesdayInclusive,
        6 => Twentieth,
        7 => TwentiethIMM,
        8 => OldCDS,
        9 => CDS,
        10 => CDS2015,
        _ => panic!("rule"),
    }
}
pub fn unit_of(u: TimeUnit) -> i32 {
    match u {
        TimeUnit::Days => 1,
        TimeUnit::Weeks => 2,
        TimeUnit::Months => 3,
        TimeUnit::Years => 4,
        _ => 5,
    }
}
pub fn opt(s: i32) -> Date {
    if s == 0 { Date::default() } else { ser(s) }
}
pub fn ctx(ev: i32) -> PricingContext {
    PricingContext { eval_date: ser(ev) }
}

#[derive(Clone, Copy, Debug)]
pub struct Req {
    pub eff: i32, pub term: i32, pub n: i32, pub u: i32, pub conv: i32, pub tconv: i32, pub rule: i32,
    pub eom: bool, pub first: i32, pub ntl: i32, pub ev: i32,
}
impl Req {
    pub fn build(&self, c: &Calendar) -> Schedule {
        Schedule::new(
            ctx(self.ev), opt(self.eff), ser(self.term), Period::new(self.n, unit(self.u)), c.clone(),
            conv(self.conv), conv(self.tconv), rule(self.rule), self.eom, opt(self.first), opt(self.ntl),
        )
    }
    pub fn json(&self) -> Raw {
        obj! {eff: self.eff, term: self.term, n: self.n, u: self.u, conv: self.conv, tconv: self.tconv,
              rule: self.rule, eom: self.eom, first: self.first, ntl: self.ntl, ev: self.ev}
    }
}

/// the observable content of a schedule: dates and regularity flags
pub fn seen(s: &Schedule) -> Raw {
    seen_with(s, true)
}
/// the same, with a look at the calendar the schedule says it was made on
pub fn seen_on(s: &Schedule, c: &Calendar) -> Raw {
    let (a, b) = (s.start_date().serial_number().max(40), s.end_date().serial_number().min(109500));
    let step = ((b - a) / 150).max(1);
    let same = call(|| {
        s.calendar().name() == c.name()
            && (a - 30..b + 30).step_by(step as usize).chain(s.dates().iter().map(|d| d.serial_number())).all(|x| s.calendar().is_holiday(&ser(x)) == c.is_holiday(&ser(x)))
    });
    seen_with(s, same == Some(true))
}
fn seen_with(s: &Schedule, on: bool) -> Raw {
    let d: Vec<i32> = s.dates().iter().map(|x| x.serial_number()).collect();
    let n = d.len();
    let r: Vec<i32> = (1..n.max(1)).map(|i| call(|| s.is_regular(i)).map(|b| b as i32).unwrap_or(-1)).collect();
    let cv = (1..8).find(|k| conv(*k) == s.business_day_convention()).unwrap_or(0);
    let same = on && s.size() == n
        && !s.empty()
        && s.start_date().serial_number() == d[0]
        && s.end_date().serial_number() == d[n - 1]
        && (0..n).all(|i| s[i].serial_number() == d[i])
        && call(|| s.is_regular(0)).is_none()
        && call(|| s.is_regular(n)).is_none()
        && s.has_is_regular();
    obj! {d: d, r: r, ok: same, n: s.tenor().length, u: unit_of(s.tenor().unit), eom: s.end_of_month(), cv: cv}
}
pub fn none() -> Raw {
    obj! {d: Vec::<i32>::new(), r: Vec::<i32>::new(), ok: true, n: 0, u: 0, eom: false, cv: 0}
}

pub struct Window {
    pub cal: Calendar,
    pub name: String,
    pub a: i32,
    pub lo: i32,
    pub hi: i32,
    pub base: i32,
}
pub fn window(r: &mut Rng, span: i32) -> Window {
    let name = *r.pick(&["WeekendsOnly", "TARGET", "UKSettlement", "Null", "Japan", "USNyse", "BrazilSettlement", "WeekendsOnly", "Null"]);
    let c = cal(name);
    let a = if span > 10000 { r.i32(6500, 102000 - span) } else { r.i32(2000, 107000 - span) };
    let name = if span > 10000 { *r.pick(&["Null", "WeekendsOnly"]) } else { name };
    let mut c = if span > 10000 { cal(name) } else { c };
    let mut base = 0;
    if span > 10000 {
        base = if name == "Null" { 1 } else { 2 };
    } else if name == "Null" || name == "WeekendsOnly" {
        if r.chance(1, 2) {
            for _ in 0..r.i32(5, 60) {
                let s = a + r.i32(-30, span + 60);
                c.add_holiday(ser(s));
                if r.chance(1, 3) {
                    c.add_holiday(ser(s + 1));
                }
                if r.chance(1, 2) {
                    c.add_holiday(ser(s).end_of_month());
                }
            }
        } else {
            base = if name == "Null" { 1 } else { 2 };
        }
    }
    Window { cal: c, name: name.to_string(), a, lo: a - 1400, hi: a + span + 900, base }
}
impl Window {
    pub fn hol(&self) -> Vec<i32> {
        if self.base == 0 { hols(&self.cal, self.lo, self.hi) } else { vec![] }
    }
}

/// a date of interest near s: itself, a month end, a 20th, a third Wednesday, or one day off
pub fn interesting(r: &mut Rng, s: i32) -> i32 {
    let d = ser(s);
    let e = d.end_of_month().serial_number();
    let first = e - mlen(d.month().into(), d.year()) + 1;
    let base = match r.i32(0, 9) {
        0 | 1 | 2 => e,
        3 => first + 19,
        4 => first + (0..7).find(|k| wd(&ser(first + k)) == 4).unwrap() + 14,
        5 => first + 29.min(e - first),
        6 => first + 27,
        _ => s,
    };
    base + *r.pick(&[0, 0, 0, 1, -1])
}

pub fn tenor(r: &mut Rng) -> (i32, i32) {
    if r.chance(1, 5) {
        return match r.i32(0, 5) { 0 => (r.i32(1, 400), 1), 1 => (r.i32(1, 60), 2), 2 => (r.i32(1, 12), 4), _ => (r.i32(1, 60), 3) };
    }
    *r.pick(&[(1, 3), (2, 3), (3, 3), (3, 3), (6, 3), (6, 3), (4, 3), (12, 3), (1, 4), (1, 2), (2, 2), (4, 2), (1, 1), (28, 1), (30, 1), (5, 3), (2, 4), (0, 1), (0, 3), (-1, 3), (9, 3), (18, 3)])
}

fn step(s: i32, n: i32, u: i32) -> i32 {
    call(|| (ser(s) + Period::new(n, unit(u))).serial_number()).unwrap_or(s)
}

pub fn request(r: &mut Rng, w: &Window, span: i32, rules: &[i32]) -> Req {
    let (mut n, u) = tenor(r);
    if span <= 10000 {
        // within reach of the days described
        n = n.min([800, 110, 26, 2][u as usize - 1]);
    }
    let base = w.a + r.i32(0, 60);
    let eff = interesting(r, base);
    let mut term = if r.chance(1, 4) && n > 0 {
        step(eff, n * r.i32(1, 8), u).min(eff + span)
    } else {
        let sp = r.i32(1, span);
        interesting(r, eff + sp)
    };
    if n > 0 && u <= 2 {
        // no more than some hundred periods
        term = term.min(eff + 160 * (if u == 1 { n } else if n == 1 { 1 } else { 7 * n }));
    }
    if term <= eff && r.chance(9, 10) {
        term = eff + r.i32(1, 40);
    }
    let ru = *r.pick(rules);
    let mut first = 0;
    let mut ntl = 0;
    let p = if ru <= 2 { 3 } else if ru == 4 { 4 } else { 12 };
    if r.chance(1, p) {
        first = match r.i32(0, 4) {
            0 => step(eff, n, u),
            1 => eff,
            2 => interesting(r, eff + (term - eff) / 3),
            _ => eff + r.i32(-2, 70),
        };
        if ru == 4 && r.chance(3, 4) {
            first = third(first);
        }
    }
    if r.chance(1, p) {
        ntl = match r.i32(0, 4) {
            0 => step(term, -n, u),
            1 => term,
            2 => interesting(r, term - (term - eff) / 3),
            _ => term - r.i32(-2, 70),
        };
        if ru == 4 && r.chance(3, 4) {
            ntl = third(ntl);
        }
    }
    let cv = r.i32(1, 7);
    let mut q = Req {
        eff, term, n, u, conv: cv, tconv: if r.chance(1, 2) { cv } else { r.i32(1, 7) }, rule: ru,
        eom: if ru <= 3 { r.chance(1, 2) } else { r.chance(1, 20) }, first, ntl, ev: w.a - 5,
    };
    if ru <= 2 && r.chance(1, 12) {
        q.eff = 0;
        q.ev = interesting(r, eff);
        if r.chance(3, 4) {
            q.first = 0;
        }
    }
    q
}
pub fn third(s: i32) -> i32 {
    let d = ser(s);
    let first = s - d.day_of_month() as i32 + 1;
    first + (0..7).find(|k| wd(&ser(first + k)) == 4).unwrap() + 14
}

/// input = kind of judgement and rules: "basic" (backward, forward, zero), "special", "shape-..."
pub fn schedules(cfg: &Cfg, o: &mut Out) {
    let mode = cfg.input.as_deref().unwrap_or("basic").to_string();
    let (kind, which) = mode.split_once('-').unwrap();
    let rules: Vec<i32> = match which {
        "basic" => vec![1, 2, 1, 2, 3],
        "special" => (4..=10).collect(),
        _ => (1..=10).collect(),
    };
    let mut r = cfg.rng(15 + mode.len() as u64);
    for k in 0..cfg.n(160, 2400) {
        // some reach over half a century
        let span = if k % 12 == 5 { 20000 } else { *r.pick(&[120, 500, 1200, 4000]) };
        let w = window(&mut r, span);
        let mut q = vec![];
        for j in 0..(if span > 3000 { 25 } else { 50 }) {
            let mut c = request(&mut r, &w, span, &rules);
            while span > 10000 && (c.u <= 2 || (c.u == 3 && c.n < 6)) && c.n > 0 { c = request(&mut r, &w, span, &rules); }
            // long schedules: hundreds of periods
            if j < 2 && span > 10000 {
                (c.n, c.u) = *r.pick(&[(1, 3), (2, 3), (30, 1), (5, 2)]);
                c.term = c.eff.max(w.a) + span - r.i32(0, 9000);
            }
            if j == 0 && span >= 1200 && span < 10000 {
                (c.n, c.u) = if span > 3000 { *r.pick(&[(1, 3), (2, 2), (30, 1)]) } else { *r.pick(&[(1, 2), (4, 1), (5, 1)]) };
                c.term = c.eff.max(w.a) + span - r.i32(0, 200);
            }
            label(&format!("schedule {} {} {:?} on {}", k, j, c, w.name));
            let s = call(|| c.build(&w.cal));
            q.push(obj! {c: c.json(), s: s.as_ref().map(|s| seen_on(s, &w.cal)).unwrap_or_else(none)});
        }
        o.rec(obj! {k: kind, cal: w.name, base: w.base, lo: w.lo, hi: w.hi, hol: w.hol(), q: q});
    }
}

/// truncation and search: chains of cuts, each observed
pub fn cuts(cfg: &Cfg, o: &mut Out) {
    let mut r = cfg.rng(18);
    for _ in 0..cfg.n(1500, 20000) {
        let span = if r.chance(1, 10) { *r.pick(&[3000, 20000]) } else { *r.pick(&[90, 500, 900]) };
        let w = window(&mut r, span);
        let c = request(&mut r, &w, span, &[1, 2, 3, 4, 6, 9]);
        label(&format!("cuts of {:?} on {}", c, w.name));
        let Some(s0) = call(|| c.build(&w.cal)) else { continue };
        // every interesting cut of the original schedule
        let d: Vec<i32> = s0.dates().iter().map(|x| x.serial_number()).collect();
        let n = d.len();
        let mut ts: Vec<i32> = vec![d[0] - 7, d[0], d[0] + 1, d[n - 1] - 1, d[n - 1], d[n - 1] + 9];
        for _ in 0..8 {
            let x = *r.pick(&d);
            ts.push(x + r.i32(-1, 1));
        }
        ts.push(r.i32(d[0], d[n - 1]));
        let q: Vec<Raw> = ts
            .iter()
            .map(|&t| {
                obj! {t: t,
                    a: call(|| s0.after(&ser(t))).as_ref().map(|s| seen_on(s, &w.cal)).unwrap_or_else(none),
                    u: call(|| s0.until(&ser(t))).as_ref().map(|s| seen_on(s, &w.cal)).unwrap_or_else(none),
                    nx: call(|| s0.next_date(&ser(t)).serial_number()).unwrap_or(-1),
                    pv: call(|| s0.previous_date(&ser(t)).serial_number()).unwrap_or(-1)}
            })
            .collect();
        let nd = (
            call(|| s0.next_date(&Date::default()).serial_number()).unwrap_or(-1),
            call(|| s0.previous_date(&Date::default()).serial_number()).unwrap_or(-1),
        );
        // a chain of cuts
        let mut s = s0.clone();
        let mut chain = vec![];
        for _ in 0..r.i32(2, 6) {
            let dd: Vec<i32> = s.dates().iter().map(|x| x.serial_number()).collect();
            let t = if r.chance(1, 2) { *r.pick(&dd) + r.i32(-1, 1) } else { r.i32(dd[0] - 2, dd[dd.len() - 1] + 2) };
            let after = r.chance(1, 2);
            let x = call(|| if after { s.after(&ser(t)) } else { s.until(&ser(t)) });
            chain.push(obj! {t: t, after: after, s: x.as_ref().map(|s| seen_on(s, &w.cal)).unwrap_or_else(none)});
            if let Some(y) = x {
                s = y;
            }
        }
        o.rec(obj! {k: "cuts", s: seen_on(&s0, &w.cal), ev: c.ev, nd: nd, q: q, chain: chain, again: seen_on(&s0, &w.cal)});
    }
}

/// builder calls: op codes 1..8 with an argument index, chosen by the specification
pub fn builder(cfg: &Cfg, o: &mut Out) {
    let text = std::fs::read_to_string(cfg.input.as_ref().expect("behaviours")).unwrap();
    let mut r = cfg.rng(19);
    let mut lines: Vec<Vec<(i32, i32)>> = text
        .lines()
        .map(|l| l.split_whitespace().map(|x| x.parse::<i32>().unwrap()).map(|x| (x / 10, x % 10)).collect())
        .collect();
    for _ in 0..cfg.n(600, 6000) {
        lines.push((0..r.i32(3, 9)).map(|_| (r.i32(1, 8), r.i32(0, 2))).collect());
    }
    let mut k = 0;
    for chunk in lines.chunks(60) {
        let span = 700;
        let w = window(&mut r, span);
        let mut q = vec![];
        for calls in chunk {
            k += 1;
            let base = request(&mut r, &w, span, &[1]);
            let (n, u) = if base.n <= 0 { (3, 3) } else { (base.n, base.u) };
            let eff = if base.eff == 0 { w.a } else { base.eff };
            let term = base.term.max(eff + 1);
            let firsts = [0, eff + 31, interesting(&mut r, eff + (term - eff) / 2)];
            let ntls = [0, term - 31, interesting(&mut r, term - (term - eff) / 3)];
            label(&format!("builder {} {:?} {} {}", k, calls, eff, term));
            let mut ops: Vec<(i32, i32)> = vec![];
            let s = call(|| {
                let mut b = ScheduleBuilder::new(ctx(base.ev), ser(eff), ser(term), Period::new(n, unit(u)), w.cal.clone());
                for &(op, a) in calls {
                    let ai = a as usize;
                    match op {
                        1 => { let v = [2, 3, 5][ai]; ops.push((1, v)); b = b.with_convention(conv(v)); }
                        2 => { let v = [1, 3, 5][ai]; ops.push((2, v)); b = b.with_termination_convention(conv(v)); }
                        3 => { let v = [1, 3, 2][ai]; ops.push((3, v)); b = b.with_rule(rule(v)); }
                        4 => { ops.push((3, 2)); b = b.forwards(); }
                        5 => { ops.push((3, 1)); b = b.backwards(); }
                        6 => { let v = a > 0; ops.push((6, v as i32)); b = b.with_end_of_month(v); }
                        7 => { ops.push((7, firsts[ai])); b = b.with_first_date(opt(firsts[ai])); }
                        8 => { ops.push((8, ntls[ai])); b = b.with_next_to_last_date(opt(ntls[ai])); }
                        _ => {}
                    }
                }
                b.build()
            });
            q.push(obj! {eff: eff, term: term, n: n, u: u, ev: base.ev, ops: ops, s: s.as_ref().map(|s| seen_on(s, &w.cal)).unwrap_or_else(none)});
        }
        o.rec(obj! {k: "builder", cal: w.name, base: w.base, lo: w.lo, hi: w.hi, hol: w.hol(), q: q});
    }
}
