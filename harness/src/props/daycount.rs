use super::cals::*;
use super::util::*;
use crate::core::*;
use crate::ensure;
use chrono::{Datelike, NaiveDate};
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual364::Actual364;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::actual366::Actual366;
use finquant::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use finquant::time::daycounters::thirty365::Thirty365;
use proptest::prelude::*;
use serde_json::json;

/// Private fields are reached the way users configure them: through the tagged JSON form.
pub fn from_json(v: serde_json::Value) -> Box<dyn DayCounters> {
    serde_json::from_value(v).expect("day counter configuration")
}
pub fn business252(c: &dyn finquant::time::calendars::Calendar) -> Box<dyn DayCounters> {
    from_json(json!({"type": "Business252", "calendar": serde_json::to_value(c).unwrap()}))
}

fn pair() -> impl Strategy<Value = (NaiveDate, NaiveDate)> {
    (edgy_date(1905, 2150), prop_oneof![3 => -20i64..400, 3 => -4000i64..9000, 1 => Just(0i64), 1 => Just(365i64), 1 => Just(366i64)], any::<bool>(), 0u8..6).prop_map(|(a, n, yearly, edge)| {
        let mut b = add_days(a, n);
        if yearly {
            // whole years apart, optionally off by a day
            b = add_months(a, 12 * (n / 300));
            b = add_days(b, (edge % 3) as i64 - 1);
        }
        if edge == 5 {
            b = ymd(b.year(), b.month(), last_dom(b.year(), b.month()));
        }
        (a, b)
    })
}

fn thirty(which: u8, a: NaiveDate, b: NaiveDate, term: NaiveDate) -> i64 {
    let eof = |d: NaiveDate| d.month() == 2 && d.day() == last_dom(d.year(), 2);
    let (mut d1, mut d2) = (a.day() as i64, b.day() as i64);
    match which {
        0 => {
            // US: end-of-February rules, then 31sts
            if eof(a) && eof(b) { d2 = 30 }
            if eof(a) { d1 = 30 }
            if d2 == 31 && (d1 == 30 || d1 == 31) { d2 = 30 }
            if d1 == 31 { d1 = 30 }
        }
        1 => { d1 = d1.min(30); d2 = d2.min(30) }
        2 => {
            if a.month() == 2 && d1 >= 28 { d1 = 30 }
            if b.month() == 2 && d2 >= 28 { d2 = 30 }
            d1 = d1.min(30); d2 = d2.min(30)
        }
        3 => { d1 = d1.min(30); if d1 == 30 { d2 = d2.min(30) } }
        4 | 5 => {
            if eof(a) { d1 = 30 }
            if eof(b) && b != term { d2 = 30 }
            d1 = d1.min(30); d2 = d2.min(30)
        }
        _ => { d1 = d1.min(30); if d2 == 31 { d2 = if d1 >= 30 { 30 } else { 31 } } }
    }
    360 * (b.year() - a.year()) as i64 + 30 * (b.month() as i64 - a.month() as i64) + d2 - d1
}

fn isda(a: NaiveDate, b: NaiveDate) -> f64 {
    // every day weighs one over the length of the year it falls in
    let mut days = std::collections::BTreeMap::new();
    let mut y = a.year();
    while y <= b.year() {
        let lo = a.max(ymd(y, 1, 1));
        let hi = b.min(ymd(y + 1, 1, 1));
        days.insert(y, (hi - lo).num_days());
        y += 1;
    }
    days.iter().map(|(y, n)| *n as f64 / if leap(*y) { 366.0 } else { 365.0 }).sum()
}
fn afb(a: NaiveDate, b: NaiveDate) -> f64 {
    // whole years counted back from the end (28 Feb stepping into a leap year becomes 29), remainder over 366
    // when it contains a 29 February, else 365
    let mut e = b;
    let mut n = 0.0;
    loop {
        let mut p = add_months(e, -12);
        if p.month() == 2 && p.day() == 28 && leap(p.year()) { p = ymd(p.year(), 2, 29) }
        if p < a { break }
        e = p;
        n += 1.0;
    }
    let mut has = false;
    let mut d = a;
    while d < e { if d.month() == 2 && d.day() == 29 { has = true } d = add_days(d, 1) }
    n + (e - a).num_days() as f64 / if has { 366.0 } else { 365.0 }
}

pub fn p10(s: &mut Suite) {
    s.rule("A case is a date pair (and calendar for business/252); non-trivial when the dates differ and the period crosses a month end, a year end or a 29 February.");
    s.prop("actual_over_n", 100000, 2_000_000, pair, |(a, b)| {
        let n = (*b - *a).num_days();
        let list: [(Box<dyn DayCounters>, f64); 4] = [(Box::new(Actual360), 360.0), (Box::new(Actual364), 364.0), (Box::new(Actual365Fixed::default()), 365.0), (Box::new(Actual366), 366.0)];
        for (dc, basis) in &list {
            ensure!(dc.day_count(*a, *b).map_err(|e| format!("{e}"))? == n, "{dc:?}: day count");
            near(&format!("{dc:?} fraction"), dc.year_fraction(*a, *b).map_err(|e| format!("{e}"))?, n as f64 / basis, 1e-14, 0.0)?;
        }
        let st = from_json(json!({"type": "Actual365Fixed", "market": "Standard"}));
        ensure!(st.day_count(*a, *b).map_err(|e| format!("{e}"))? == n, "standard act/365: day count");
        // no-leap: 29 February never counts
        let nl = from_json(json!({"type": "Actual365Fixed", "market": "NoLeap"}));
        let (lo, hi) = if n >= 0 { (*a, *b) } else { (*b, *a) };
        let mut feb29 = 0;
        for y in lo.year()..=hi.year() { if leap(y) { let f = ymd(y, 2, 29); if f > lo && f <= hi { feb29 += 1 } } }
        let want = (n.abs() - feb29) * n.signum();
        let got = nl.day_count(*a, *b).map_err(|e| format!("{e}"))?;
        ensure!(got == want, "no-leap day count {a}..{b}: {got}, expected {want}");
        near("no-leap fraction", nl.year_fraction(*a, *b).map_err(|e| format!("{e}"))?, want as f64 / 365.0, 1e-14, 0.0)?;
        seen_as(n != 0, if feb29 > 0 { "crosses 29 February" } else { "no leap day" })
    });
    s.prop("actual_actual", 60000, 1_000_000, pair, |(a, b)| {
        let (lo, hi, sg) = if a <= b { (*a, *b, 1.0) } else { (*b, *a, -1.0) };
        for (m, want) in [(None, isda(lo, hi)), (Some(ActualActualMarket::Isda), isda(lo, hi)), (Some(ActualActualMarket::Euro), afb(lo, hi))] {
            let dc = ActualActual { market: m };
            let got = dc.year_fraction(*a, *b).map_err(|e| format!("{e}"))?;
            near(&format!("{dc:?} {a}..{b}"), got, sg * want, 1e-13, 1e-13)?;
            ensure!(dc.day_count(*a, *b).map_err(|e| format!("{e}"))? == (*b - *a).num_days(), "day count");
            let rev = dc.year_fraction(*b, *a).map_err(|e| format!("{e}"))?;
            near("swapped dates", rev, -got, 1e-14, 1e-15)?;
        }
        // additivity of ISDA
        let mid = add_days(lo, (hi - lo).num_days() / 3);
        let dc = ActualActual { market: Some(ActualActualMarket::Isda) };
        let y = |p, q| dc.year_fraction(p, q).unwrap();
        near("ISDA is additive", y(lo, mid) + y(mid, hi), y(lo, hi), 1e-13, 1e-13)?;
        seen_as(a != b, if a <= b { "forward" } else { "reversed" })
    });
    s.prop("thirty_360", 100000, 2_000_000, || (pair(), any::<bool>(), edgy_date(1905, 2150)), |((a, b), at_end, other)| {
        let term = if *at_end { *b } else { *other };
        let mk = |w: u8| Thirty360::new(match w { 0 => Thirty360Market::USA, 1 => Thirty360Market::European, 2 => Thirty360Market::Italian, 3 => Thirty360Market::ISMA, 4 => Thirty360Market::ISDA(term), 5 => Thirty360Market::German(term), _ => Thirty360Market::NASD });
        for w in 0..7u8 {
            let dc = mk(w);
            let want = thirty(w, *a, *b, term);
            let got = dc.day_count(*a, *b).map_err(|e| format!("{e}"))?;
            ensure!(got == want, "{dc:?} {a}..{b}: {got} days, expected {want}");
            near("fraction", dc.year_fraction(*a, *b).map_err(|e| format!("{e}"))?, want as f64 / 360.0, 1e-14, 0.0)?;
        }
        ensure!(Thirty360::default().day_count(*a, *b).map_err(|e| format!("{e}"))? == thirty(0, *a, *b, term), "the default variant is not the US one");
        let raw = 360 * (b.year() - a.year()) as i64 + 30 * (b.month() as i64 - a.month() as i64) + b.day() as i64 - a.day() as i64;
        ensure!(Thirty365.day_count(*a, *b).map_err(|e| format!("{e}"))? == raw, "30/365 day count");
        near("30/365 fraction", Thirty365.year_fraction(*a, *b).map_err(|e| format!("{e}"))?, raw as f64 / 365.0, 1e-14, 0.0)?;
        seen_as(a != b, if a.month() == 2 || b.month() == 2 { "touches February" } else { "no February" })
    });
    s.prop("business_252", 8000, 120000, || edgy_date(1905, 2150).prop_flat_map(|d| (Just(d), cal(d), prop_oneof![-90i64..90, -900i64..1500])), |(a, c, n)| {
        let k = c.make();
        let dc = business252(&*k);
        let b = add_days(*a, *n);
        let (lo, hi, sg) = if *n >= 0 { (*a, b, 1) } else { (b, *a, -1) };
        // forward: first included, last excluded; backward: the mirrored count
        let mut cnt = 0i64;
        let mut d = lo;
        while d <= hi {
            let counted = if *n >= 0 { d != hi } else { d != lo };
            let counted = counted || (false && lo == hi);
            if counted && k.is_business_day(d) { cnt += 1 }
            d = add_days(d, 1);
        }
        if *n < 0 {
            // swapping the dates negates the count of the forward period or of its mirrored inclusion
            let fwd = (0..-n).filter(|i| k.is_business_day(add_days(lo, *i))).count() as i64;
            let got = dc.day_count(*a, b).map_err(|e| format!("{e}"))?;
            ensure!(got == -fwd || got == -cnt, "business/252 {a}..{b}: {got}, expected {} or {}", -fwd, -cnt);
            return seen_as(true, "reversed");
        }
        let got = dc.day_count(*a, b).map_err(|e| format!("{e}"))?;
        ensure!(got == sg * cnt, "business/252 {a}..{b}: {got}, expected {}", sg * cnt);
        near("fraction", dc.year_fraction(*a, b).map_err(|e| format!("{e}"))?, cnt as f64 / 252.0, 1e-14, 0.0)?;
        seen_as(a.month() != b.month() || a.year() != b.year(), c.kind())
    });
    s.prop("date_from_fraction", 40000, 500000, || (edgy_date(1950, 2080), 0.0f64..30.0, 0u8..9), |(r, t, w)| {
        let (dc, slack): (Box<dyn DayCounters>, f64) = match w {
            0 => (Box::new(Actual360), 0.0),
            1 => (Box::new(Actual364), 0.0),
            2 => (Box::new(Actual365Fixed::default()), 0.0),
            3 => (Box::new(Actual366), 0.0),
            4 => (Box::new(ActualActual { market: Some(ActualActualMarket::Isda) }), 0.0),
            // both of 28 and 29 February can be the same fraction away
            5 => (Box::new(ActualActual { market: Some(ActualActualMarket::Euro) }), 1.0),
            6 => (Box::new(Thirty360::new(Thirty360Market::European)), 2.0),
            7 => (Box::new(Thirty360::default()), 2.0),
            _ => (Box::new(Thirty365), 2.0),
        };
        let d = dc.year_fraction_to_date(*r, *t).map_err(|e| format!("{e}"))?;
        let back = dc.year_fraction(*r, d).map_err(|e| format!("{e}"))?;
        // one correction step: exact to a day, plus the scheme's own second-order drift for short years
        let drift = if *w == 0 { 0.08 } else { 0.02 };
        let tol = (1.6 + slack + drift * t) / 360.0;
        ensure!((back - t).abs() <= tol, "{dc:?}: {t} years from {r} gives {d}, which is {back} years away");
        let z = dc.year_fraction_to_date(*r, 0.0).map_err(|e| format!("{e}"))?;
        ensure!(z == *r, "zero years from {r} gives {z}");
        // a fraction computed from a date leads back to that date (or next to it)
        let target = add_days(*r, (*t * 365.0) as i64);
        let f = dc.year_fraction(*r, target).map_err(|e| format!("{e}"))?;
        let again = dc.year_fraction_to_date(*r, f).map_err(|e| format!("{e}"))?;
        ensure!((again - target).num_days().abs() as f64 <= 1.0 + slack + drift * t, "{dc:?}: {f} years from {r} gives {again}, started from {target}");
        seen(*t > 0.01)
    });
}
