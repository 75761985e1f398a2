use super::cals::*;
use super::util::*;
use crate::core::*;
use crate::ensure;
use chrono::{Datelike, NaiveDate, NaiveTime, Weekday};
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::time::businessdayconvention::BusinessDayConvention as Bdc;
use finquant::time::calendars::*;
use finquant::time::frequency::Frequency;
use finquant::time::imm::IMM;
use finquant::time::period::Period;
use iso_currency::Currency;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

const LO: i32 = 1903;
const HI: i32 = 2196;

// ------------------------------------------------------------------ reference operations
type Open<'a> = &'a dyn Fn(NaiveDate) -> bool;
fn scan(open: Open, d: NaiveDate, step: i64) -> NaiveDate {
    let mut k = 0;
    loop {
        let x = add_days(d, k * step);
        if open(x) {
            return x;
        }
        k += 1;
    }
}
fn adjust_ref(open: Open, d: NaiveDate, b: Bdc) -> NaiveDate {
    let (f, p) = (scan(open, d, 1), scan(open, d, -1));
    let same = |x: NaiveDate| x.month() == d.month() && x.year() == d.year();
    match b {
        Bdc::Unadjusted => d,
        Bdc::Following => f,
        Bdc::Preceding => p,
        Bdc::ModifiedFollowing => if same(f) { f } else { p },
        Bdc::HalfMonthModifiedFollowing => if same(f) && !(d.day() <= 15 && f.day() > 15) { f } else { p },
        Bdc::ModifiedPreceding => if same(p) { p } else { f },
        Bdc::Nearest => if (f - d) <= (d - p) { f } else { p },
    }
}
fn eom_ref(open: Open, d: NaiveDate) -> NaiveDate {
    scan(open, ymd(d.year(), d.month(), last_dom(d.year(), d.month())), -1)
}
const ALL_BDC: [Bdc; 7] = [Bdc::Following, Bdc::ModifiedFollowing, Bdc::HalfMonthModifiedFollowing, Bdc::Preceding, Bdc::ModifiedPreceding, Bdc::Unadjusted, Bdc::Nearest];

fn date_cal() -> impl Strategy<Value = (NaiveDate, Cal)> {
    edgy_date(LO + 2, HI - 4).prop_flat_map(|d| (Just(d), cal(d)))
}

// ------------------------------------------------------------------ P02
/// Meeus/Jones/Butcher.
pub fn easter_sunday(y: i32) -> NaiveDate {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let (d, e) = (b / 4, b % 4);
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let (i, k) = (c / 4, c % 4);
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let n = h + l - 7 * m + 114;
    ymd(y, (n / 31) as u32, (n % 31 + 1) as u32)
}
/// Julian computus, shifted to the Gregorian calendar.
pub fn orthodox_sunday(y: i32) -> NaiveDate {
    let (a, b, c) = (y % 4, y % 7, y % 19);
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let m = (d + e + 114) / 31;
    let day = (d + e + 114) % 31 + 1;
    let shift = y / 100 - y / 400 - 2;
    add_days(ymd(y, m as u32, day as u32), shift as i64)
}

pub fn p02(s: &mut Suite) {
    s.rule("Every year 1901-2199 for Easter (enumerated); otherwise one (date, calendar) pair; non-trivial when the civil month end is closed on that calendar.");
    s.enumerate("easter_computus", (1901..=2199).collect::<Vec<i32>>(), |y| {
        let w = add_days(easter_sunday(*y), 1).ordinal();
        let o = add_days(orthodox_sunday(*y), 1).ordinal();
        for (n, c) in shipped() {
            ensure!(c.easter_monday(*y) == w, "{n}: Easter Monday of {y} is day {} but computus gives {w}", c.easter_monday(*y));
            ensure!(c.orthodox_easter_monday(*y) == o, "{n}: Orthodox Easter Monday of {y} is day {} but computus gives {o}", c.orthodox_easter_monday(*y));
        }
        seen(true)
    });
    s.prop("month_ends_and_weekends", 40000, 600000, date_cal, |(d, c)| {
        let k = c.make();
        let open = |x: NaiveDate| k.is_business_day(x);
        let last = ymd(d.year(), d.month(), last_dom(d.year(), d.month()));
        ensure!(k.last_day_of_month(*d) == last, "last day of {d}'s month reported as {}", k.last_day_of_month(*d));
        let e = eom_ref(&open, *d);
        ensure!(k.end_of_month(*d) == e, "end of month of {d} is {} but the last business day is {e}", k.end_of_month(*d));
        ensure!(k.is_weekend(*d) == (d.weekday() == Weekday::Sat || d.weekday() == Weekday::Sun), "weekend test of {d}");
        ensure!(k.is_holiday(*d) != k.is_business_day(*d), "{d} is both or neither holiday and business day");
        let t = k.naive_date_to_dkmy(*d);
        ensure!(t == (d.day(), d.weekday(), d.month(), d.year(), d.ordinal()), "date parts of {d}");
        if let Cal::Syn(s) = c { ensure!(k.is_business_day(*d) != s.closed(*d), "closed set not respected"); }
        seen_as(e != last, c.kind())
    });
}

// ------------------------------------------------------------------ P03
pub fn p03(s: &mut Suite) {
    s.rule("A case is (date, calendar) tried under all seven conventions; non-trivial when the date is a holiday.");
    s.prop("adjustment", 60000, 1_000_000, date_cal, |(d, c)| {
        let k = c.make();
        let open = |x: NaiveDate| k.is_business_day(x);
        for b in ALL_BDC {
            let got = k.adjust(*d, b).ok_or(format!("{b:?} is not supported"))?;
            let want = adjust_ref(&open, *d, b);
            ensure!(got == want, "{b:?} of {d} gives {got}, the convention names {want}");
            if b != Bdc::Unadjusted { ensure!(open(got), "{b:?} of {d} gives the holiday {got}"); }
        }
        seen_as(!open(*d), c.kind())
    });
    s.prop("mid_month_clusters", 20000, 300000, || (LO..=HI, 1u32..=12, 10u32..=18, prop::collection::vec(any::<bool>(), 20)), |(y, m, day, mask)| {
        // closures placed directly around the fifteenth and the month end
        let a = ymd(*y, *m, *day);
        let base = ymd(*y, *m, 6);
        let mut cl: Vec<(NaiveDate, u8)> = mask.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| (add_days(base, i as i64), 1)).collect();
        let e = ymd(*y, *m, last_dom(*y, *m));
        for (i, b) in mask.iter().enumerate().take(12) { if *b { cl.push((add_days(e, i as i64 - 6), 1)); } }
        let syn = Synthetic { weekend: 0b1100000, seed: 0, density: 0, clusters: cl };
        let open = |x: NaiveDate| !syn.closed(x);
        let mut hit = false;
        for d in [a, add_days(e, *day as i64 - 14)] {
            hit |= !open(d);
            for b in ALL_BDC {
                let got = syn.adjust(d, b).ok_or("unsupported")?;
                let want = adjust_ref(&open, d, b);
                ensure!(got == want, "{b:?} of {d} gives {got}, the convention names {want}");
            }
        }
        seen(hit)
    });
}

// ------------------------------------------------------------------ P04
fn unit() -> impl Strategy<Value = Period> {
    prop_oneof![
        4 => (-30i64..60).prop_map(Period::Days),
        2 => (-60i64..60).prop_map(Period::Weeks),
        3 => (0u32..40).prop_map(Period::Months),
        2 => (0u32..3).prop_map(Period::Years),
        1 => prop_oneof![Just(Period::ON), Just(Period::TN), Just(Period::SN), Just(Period::SPOT)],
    ]
}
fn shift_ref(d: NaiveDate, p: Period, sign: i64) -> NaiveDate {
    match p {
        Period::ON | Period::TN | Period::SN => add_days(d, sign),
        Period::SPOT => d,
        Period::Days(n) => add_days(d, n * sign),
        Period::Weeks(n) => add_days(d, 7 * n * sign),
        Period::Months(n) => add_months(d, n as i64 * sign),
        Period::Years(n) => add_months(d, 12 * n as i64 * sign),
    }
}
pub fn p04(s: &mut Suite) {
    s.rule("A case is (date, calendar, tenor, convention, end-of-month flag) or a date range with inclusion flags; non-trivial when a holiday is skipped.");
    s.prop("advance", 50000, 800000, || (date_cal(), unit(), 0usize..7, prop_oneof![Just(None), Just(Some(false)), Just(Some(true))], any::<bool>()), |((d0, c), p, b, eom, snap)| {
        let k = c.make();
        let open = |x: NaiveDate| k.is_business_day(x);
        let bdc = ALL_BDC[*b];
        // half of the cases start at the month's last business day, where the month-end flag matters
        let d = &if *snap { eom_ref(&open, *d0) } else { *d0 };
        let got = k.advance(*d, *p, bdc, *eom).map_err(|e| format!("{e}"))?.ok_or("no date")?;
        let mut skipped = false;
        let want = match p {
            Period::Days(0) => adjust_ref(&open, *d, bdc),
            Period::Days(n) => {
                let st = n.signum();
                let mut x = *d;
                let mut left = n.abs();
                while left > 0 {
                    x = add_days(x, st);
                    if open(x) { left -= 1 } else { skipped = true }
                }
                x
            }
            Period::Months(_) | Period::Years(_) if *eom == Some(true) && *d >= eom_ref(&open, *d) => {
                skipped = true;
                eom_ref(&open, shift_ref(*d, *p, 1))
            }
            _ => { let r = shift_ref(*d, *p, 1); skipped = !open(r); adjust_ref(&open, r, bdc) }
        };
        ensure!(got == want, "advance {d} by {p:?} {bdc:?} eom={eom:?} gives {got}, expected {want}");
        seen_as(skipped, c.kind())
    });
    s.prop("business_days_between", 30000, 500000, || (date_cal(), prop_oneof![Just(0i64), -4i64..5, -420i64..420], prop_oneof![Just(None), Just(Some(false)), Just(Some(true))], prop_oneof![Just(None), Just(Some(false)), Just(Some(true))]), |((a, c), n, i1, i2)| {
        let k = c.make();
        let b = add_days(*a, *n);
        let got = k.business_days_between(*a, b, *i1, *i2);
        let (first, last) = (i1.unwrap_or(true), i2.unwrap_or(false));
        let (lo, hi, inc_lo, inc_hi, sg) = if *n >= 0 { (*a, b, first, last, 1) } else { (b, *a, last, first, -1) };
        let mut cnt = 0i64;
        let mut hol = 0;
        let mut x = lo;
        while x <= hi {
            let counted = if lo == hi { inc_lo && inc_hi } else { (x != lo || inc_lo) && (x != hi || inc_hi) };
            if counted { if k.is_business_day(x) { cnt += 1 } else { hol += 1 } }
            x = add_days(x, 1);
        }
        ensure!(got == cnt * sg, "business days between {a} and {b} (first {i1:?}, last {i2:?}): {got}, counted {}", cnt * sg);
        let back = k.business_days_between(b, *a, Some(last), Some(first));
        ensure!(*n == 0 || back == -got, "reversed count {back} against {got}");
        seen_as(hol > 0, c.kind())
    });
    s.prop("advance_inverts_count", 10000, 150000, || (date_cal(), 1i64..60), |((d, c), n)| {
        let k = c.make();
        let start = scan(&|x| k.is_business_day(x), *d, 1);
        let to = k.advance(start, Period::Days(*n), Bdc::Following, None).map_err(|e| format!("{e}"))?.unwrap();
        ensure!(k.business_days_between(start, to, None, None) == *n, "advancing {n} business days then counting gives another number");
        let back = k.advance(to, Period::Days(-*n), Bdc::Following, None).map_err(|e| format!("{e}"))?.unwrap();
        ensure!(back == start, "advancing back lands on {back}, started on {start}");
        seen(true)
    });
}

// ------------------------------------------------------------------ P05
pub fn p05(s: &mut Suite) {
    s.rule("A case is a list of members (0-5, shipped or synthetic, possibly nested joints) and a date; every day of 400 is compared. Non-trivial when some day separates two members.");
    let member = |d: NaiveDate| prop_oneof![3 => (0..n_shipped()).prop_map(Cal::Shipped), 2 => synthetic(d).prop_map(Cal::Syn), 1 => cal(d)];
    s.prop("union_of_closures", 3000, 50000, move || edgy_date(LO + 1, HI - 2).prop_flat_map(move |d| (Just(d), prop::collection::vec(member(d), 0..6), unit(), 0usize..7)), |(d, ms, p, b)| {
        let members: Vec<Box<dyn Calendar>> = ms.iter().map(|m| m.make()).collect();
        let joint = Cal::Joint(ms.clone()).make();
        let open = |x: NaiveDate| members.iter().all(|m| m.is_business_day(x));
        let mut split = false;
        for i in 0..400 {
            let x = add_days(*d, i);
            let o = open(x);
            split |= !o && members.iter().any(|m| m.is_business_day(x));
            ensure!(joint.is_business_day(x) == o, "{x}: joint calendar says open={}, members say {o}", joint.is_business_day(x));
            ensure!(joint.is_holiday(x) == !o, "{x}: holiday flag");
        }
        let bdc = ALL_BDC[*b];
        ensure!(joint.adjust(*d, bdc) == Some(adjust_ref(&open, *d, bdc)), "adjust {bdc:?} on the joint calendar");
        ensure!(joint.end_of_month(*d) == eom_ref(&open, *d), "end of month on the joint calendar");
        let want = (0..90).filter(|i| open(add_days(*d, *i))).count() as i64;
        ensure!(joint.business_days_between(*d, add_days(*d, 90), None, None) == want, "business days on the joint calendar");
        if let Period::Weeks(_) = p {
            let got = joint.advance(*d, *p, bdc, None).map_err(|e| format!("{e}"))?;
            ensure!(got == Some(adjust_ref(&open, shift_ref(*d, *p, 1), bdc)), "advance on the joint calendar");
        }
        seen_as(split, format!("{} members", ms.len()))
    });
}

// ------------------------------------------------------------------ P06
pub fn p06(s: &mut Suite) {
    s.rule("A case is (date, tenor, multiplier) or a code string; non-trivial when the tenor moves the date.");
    s.prop("add_and_subtract", 100000, 2_000_000, || (edgy_date(1800, 2300), prop_oneof![6 => unit(), 1 => (-200000i64..200000).prop_map(Period::Days), 1 => (0u32..5000).prop_map(Period::Months), 1 => (0u32..400).prop_map(Period::Years)], 0u32..20), |(d, p, n)| {
        let plus = (*d + *p).map_err(|e| format!("{e}"))?;
        ensure!(plus == shift_ref(*d, *p, 1), "{d} + {p:?} = {plus}, expected {}", shift_ref(*d, *p, 1));
        let minus = (*d - *p).map_err(|e| format!("{e}"))?;
        ensure!(minus == shift_ref(*d, *p, -1), "{d} - {p:?} = {minus}, expected {}", shift_ref(*d, *p, -1));
        let m = *n * *p;
        let want = match p {
            Period::Days(k) => Period::Days(k * *n as i64),
            Period::Weeks(k) => Period::Weeks(k * *n as i64),
            Period::Months(k) => Period::Months(k * n),
            Period::Years(k) => Period::Years(k * n),
            x => *x,
        };
        ensure!(m == want, "{n} x {p:?} = {m:?}");
        seen(plus != *d)
    });
    s.prop("multiples", 20000, 400000, || (edgy_date(1800, 2300), prop_oneof![any::<i64>(), -100000i64..100000, (0u32..63, -3i64..4).prop_map(|(b, k)| (1i64 << b) + k)], prop_oneof![2 => any::<u32>(), 3 => 0u32..40, 1 => (0u32..32, -3i64..4).prop_map(|(b, k)| ((1i64 << b) + k) as u32)]), |(d, k, n)| {
        let mut fits = false;
        for (p, q) in [(Period::Days(*k), Period::Days(k.wrapping_mul(*n as i64))), (Period::Weeks(*k), Period::Weeks(k.wrapping_mul(*n as i64))), (Period::Months(*k as u32), Period::Months((*k as u32).wrapping_mul(*n))), (Period::Years(*k as u32), Period::Years((*k as u32).wrapping_mul(*n)))] {
            let m = guarded(|| *n * p).map_err(|e| format!("{n} x {p:?}: panics: {e}"))?;
            let fit = match p { Period::Days(k) | Period::Weeks(k) => k.checked_mul(*n as i64).is_some(), Period::Months(k) | Period::Years(k) => k.checked_mul(*n).is_some(), _ => true };
            if fit { ensure!(m == q, "{n} x {p:?} = {m:?}"); }
            // a count too large to hold leads to no date rather than to a wrong one
            else { ensure!((*d + m).is_err() && (*d - m).is_err(), "{n} x {p:?} leads to {:?}", (*d + m, *d - m)); }
            fits |= fit && *n > 1;
        }
        seen(fits)
    });
    s.prop("extreme_counts", 5000, 100000, || (edgy_date(1800, 2300), prop_oneof![any::<i64>().prop_map(Period::Days), any::<i64>().prop_map(Period::Weeks), any::<u32>().prop_map(Period::Months), any::<u32>().prop_map(Period::Years), (357913930u32..357914000).prop_map(Period::Years), (0i64..200).prop_map(|k| Period::Weeks(2635249153387078802 + k)), (200000u32..300000).prop_map(Period::Years), (3000000u32..3300000).prop_map(Period::Months)]), |(d, p)| {
        // representable range of the civil calendar type, in days from this date
        let months = |n: u32, sg: i64, scale: i64| -> Option<()> {
            let k = d.year() as i64 * 12 + d.month0() as i64 + sg * n as i64 * scale;
            let y = k.div_euclid(12);
            if y < NaiveDate::MIN.year() as i64 || y > NaiveDate::MAX.year() as i64 { None } else { Some(()) }
        };
        for sg in [1i64, -1] {
            let got = guarded(|| if sg == 1 { *d + *p } else { *d - *p }).map_err(|e| format!("{p:?}: {e}"))?;
            match p {
                Period::Days(_) | Period::Weeks(_) => {
                    let n = match p { Period::Days(n) => *n as i128, Period::Weeks(n) => *n as i128 * 7, _ => 0 } * sg as i128;
                    let tgt = d.num_days_from_ce() as i128 + n;
                    let ok = tgt >= NaiveDate::MIN.num_days_from_ce() as i128 && tgt <= NaiveDate::MAX.num_days_from_ce() as i128;
                    match got {
                        Ok(x) => ensure!(ok && x.num_days_from_ce() as i128 == tgt, "{d} {p:?} (sign {sg}) gave {x}"),
                        Err(_) => ensure!(!ok, "{d} {p:?} (sign {sg}) refused a representable result"),
                    }
                }
                Period::Months(n) | Period::Years(n) => {
                    let sc = if matches!(p, Period::Years(_)) { 12 } else { 1 };
                    let ok = months(*n, sg, sc).is_some();
                    match got {
                        Ok(x) => {
                            let k = d.year() as i64 * 12 + d.month0() as i64 + sg * *n as i64 * sc;
                            ensure!(x.year() as i64 * 12 + x.month0() as i64 == k, "{d} {p:?} (sign {sg}) gave {x}");
                        }
                        Err(_) => {
                            let k = (d.year() as i64 * 12 + d.month0() as i64 + sg * *n as i64 * sc).div_euclid(12);
                            let edge = (k - NaiveDate::MAX.year() as i64).abs() < 2 || (k - NaiveDate::MIN.year() as i64).abs() < 2;
                            ensure!(!ok || edge, "{d} {p:?} (sign {sg}) refused a representable result");
                        }
                    }
                }
                _ => {}
            }
        }
        seen(true)
    });
    let freqs: Vec<(String, i16, Option<String>)> = vec![
        ("NoFrequency", -1, Some(Period::ON)), ("Once", 0, None), ("Annual", 1, Some(Period::Years(1))), ("Semiannual", 2, Some(Period::Months(6))),
        ("EveryFourthMonth", 3, Some(Period::Months(4))), ("Quarterly", 4, Some(Period::Months(3))), ("Bimonthly", 6, Some(Period::Months(2))),
        ("Monthly", 12, Some(Period::Months(1))), ("EveryFourthWeek", 13, Some(Period::Weeks(4))), ("Biweekly", 26, Some(Period::Weeks(2))),
        ("Weekly", 52, Some(Period::Weeks(1))), ("Daily", 365, Some(Period::Days(1))), ("OtherFrequency", 999, None),
    ].into_iter().map(|(a, b, p)| (a.to_string(), b, p.map(|p| format!("{p:?}")))).collect();
    s.enumerate("frequencies", freqs, |(name, per_year, period)| {
        let f = Frequency::from_str(name).map_err(|e| format!("{e}"))?;
        ensure!(f.to_string() == *name, "prints as {f}");
        ensure!(f.period().map(|p| format!("{p:?}")) == *period, "{name}: period {:?}, expected {period:?}", f.period());
        let label = f.name().to_string();
        ensure!(label.replace('-', "") == *name || *name == "OtherFrequency", "{name} is labelled {label}");
        if f.period().is_some() && *name != "NoFrequency" {
            let g = Frequency::from_code(name).ok_or(format!("{name} is not read back"))?;
            ensure!(g == f, "{name} reads back as {g}");
            let h = Frequency::from_code(&label).ok_or(format!("{label} is not read back"))?;
            ensure!(h == f, "{label} reads back as {h}");
            // the tenor covers 1/frequency of a year
            let days = ((ymd(2001, 1, 1) + f.period().unwrap()).map_err(|e| format!("{e}"))? - ymd(2001, 1, 1)).num_days() as f64;
            ensure!((days * *per_year as f64 - 365.0).abs() < 16.0, "{name}: {days} days does not make {per_year} per year");
        }
        ensure!(f as i16 == *per_year, "{name}: numeric code");
        seen(true)
    });
    s.enumerate("convention_codes", (0..7usize).collect(), |i| {
        let b = ALL_BDC[*i];
        ensure!(Bdc::from_code(b.name()) == Some(b), "{} is not read back", b.name());
        ensure!(Bdc::from_code(&format!("{b:?}")) == Some(b), "{b:?} is not read back");
        for j in 0..7 { ensure!(j == *i || ALL_BDC[j].name() != b.name(), "two conventions share a name"); }
        seen(true)
    });
    s.prop("foreign_codes", 3000, 50000, || "[A-Za-z -]{0,24}", |c| {
        let names: Vec<String> = ALL_BDC.iter().flat_map(|b| [b.name().to_string(), format!("{b:?}")]).collect();
        ensure!(Bdc::from_code(c).is_some() == names.contains(c), "convention code {c:?}");
        seen(!c.is_empty())
    });
}

// ------------------------------------------------------------------ P07 / P08
const PAIRS: &[&str] = &["EURGBP","EURUSD","EURCAD","EURJPY","EURCHF","EURNOK","EURSEK","EURAUD","EURNZD","EURDKK","EURPLN","EURHUF","EURCZK","EURRON","GBPUSD","GBPCAD","GBPJPY","GBPAUD","GBPNZD","GBPCHF","GBPNOK","GBPSEK","AUDUSD","NZDUSD","USDCHF","USDNOK","USDSEK","USDJPY","USDSGD","USDHKD","USDCNY","USDPLN","USDHUF","USDCZK","USDZAR","USDKRW","USDINR","USDBRL","USDDKK","USDIDR","USDTWD","USDTHB","USDILS","USDRON","USDCAD","USDMXN","USDTRY","USDRUB","AUDNZD","AUDCAD","AUDCHF","AUDJPY","AUDSGD","NZDCAD","NZDCHF","NZDJPY","NZDSGD","CADJPY","CHFJPY","CADCHF"];
fn market(ccy: &str) -> Box<dyn Calendar> {
    match ccy {
        "EUR" => Box::new(Target),
        "GBP" => Box::new(UnitedKingdom::default()),
        "USD" => Box::new(UnitedStates::default()),
        "JPY" => Box::new(Japan),
        "CAD" => Box::new(Canada::default()),
        "AUD" => Box::new(Australia::default()),
        "NZD" => Box::new(NewZealand::default()),
        "CHF" => Box::new(Switzerland),
        "NOK" => Box::new(Norway),
        "SEK" => Box::new(Sweden),
        "MXN" => Box::new(Mexico),
        "TRY" => Box::new(Turkey),
        "RUB" => Box::new(Russia::default()),
        "SGD" => Box::new(Singapore),
        "HKD" => Box::new(HongKong),
        "CNY" => Box::new(China),
        "PLN" => Box::new(Poland::default()),
        "HUF" => Box::new(Hungary),
        "CZK" => Box::new(CzechRepublic),
        "ZAR" => Box::new(SouthAfrica),
        "KRW" => Box::new(SouthKorea),
        "INR" => Box::new(India),
        "BRL" => Box::new(Brazil::default()),
        "DKK" => Box::new(Denmark),
        "IDR" => Box::new(Indonesia),
        "TWD" => Box::new(Taiwan),
        "THB" => Box::new(Thailand),
        "ILS" => Box::new(Israel::default()),
        "RON" => Box::new(Romania),
        _ => unreachable!("{ccy}"),
    }
}
fn lag(pair: &str) -> i64 {
    if ["USDCAD", "USDMXN", "USDTRY", "USDRUB"].contains(&pair) { 1 } else { 2 }
}
fn cutoff(pair: &str) -> NaiveTime {
    let (h, m) = match pair { "USDCAD" | "USDMXN" => (17, 0), "USDTRY" => (9, 0), "USDRUB" => (9, 30), _ => (22, 0) };
    NaiveTime::from_hms_opt(h, m, 0).unwrap()
}
fn settle_ref(open: Open, v: NaiveDate, p: Period, lag: i64) -> (NaiveDate, Option<NaiveDate>) {
    let base = match p { Period::ON => 0, Period::TN => 1, _ => lag };
    let near = matches!(p, Period::ON | Period::TN | Period::SN).then(|| scan(open, add_days(v, base), 1));
    let mut raw = shift_ref(add_days(v, base), p, 1);
    if matches!(p, Period::Months(_) | Period::Years(_)) {
        raw = raw.min(eom_ref(open, raw));
    }
    (scan(open, raw, 1), near)
}
fn fx_tenor() -> impl Strategy<Value = Period> {
    prop_oneof![
        1 => Just(Period::ON), 1 => Just(Period::TN), 1 => Just(Period::SN), 1 => Just(Period::SPOT),
        2 => (0i64..40).prop_map(Period::Days),
        2 => (0i64..60).prop_map(Period::Weeks),
        4 => (0u32..37).prop_map(Period::Months),
        2 => (0u32..12).prop_map(Period::Years),
    ]
}
pub fn p07(s: &mut Suite) {
    s.rule("A case is (valuation date, calendar or pair, tenor); non-trivial when a roll or the month-end cap applies.");
    s.prop("standard_lag", 60000, 1_000_000, || (edgy_date(LO, HI - 14).prop_flat_map(|d| (Just(d), cal(d))), fx_tenor()), |((v, c), p)| {
        let k = c.make();
        let open = |x: NaiveDate| k.is_business_day(x);
        let (want, near) = settle_ref(&open, *v, *p, 2);
        let got = p.settlement_date(*v, &*k).map_err(|e| format!("{e}"))?;
        ensure!(got == want, "{p:?} from {v} settles {got}, expected {want}");
        let gn = p.near_date(*v, &*k).map_err(|e| format!("{e}"))?;
        ensure!(gn == near, "{p:?} from {v} has near date {gn:?}, expected {near:?}");
        if let Some(n) = gn { ensure!(n <= got, "near date {n} after settlement {got}"); }
        ensure!(open(got), "settles on the holiday {got}");
        let raw = shift_ref(add_days(*v, 2), *p, 1);
        if matches!(p, Period::Months(_) | Period::Years(_)) && eom_ref(&open, raw).month() == raw.month() {
            ensure!(got.month() == raw.month(), "{p:?} from {v} leaves its month: {got}");
        }
        seen_as(got != raw, c.kind())
    });
    s.prop("pair_conventions", 30000, 500000, || (0..PAIRS.len(), edgy_date(1990, 2070), fx_tenor(), (0u32..24, 0u32..60, 0u32..60), 0u8..4), |(i, v, p, hms, snap)| {
        let name = PAIRS[*i];
        let u = FXUnderlying::from_str(name).map_err(|e| format!("{name}: {e}"))?;
        let (a, b) = (market(&name[..3]), market(&name[3..]));
        let open = |x: NaiveDate| a.is_business_day(x) && b.is_business_day(x);
        let (want, near) = settle_ref(&open, *v, *p, lag(name));
        let got = u.settlement_date(*p, *v).map_err(|e| format!("{e}"))?;
        ensure!(got == want, "{name} {p:?} from {v} settles {got}, expected {want}");
        let gn = u.near_date(*p, *v).map_err(|e| format!("{e}"))?;
        ensure!(gn == near, "{name} {p:?} from {v}: near date {gn:?}, expected {near:?}");
        // cut-off
        let cut = cutoff(name);
        ensure!(u.cutoff_utc() == cut, "{name}: cut-off {}", u.cutoff_utc());
        let t = match snap { 0 => cut, 1 => cut - chrono::Duration::seconds(1), 2 => cut + chrono::Duration::seconds(1), _ => NaiveTime::from_hms_opt(hms.0, hms.1, hms.2).unwrap() };
        let eff = u.effective_valuation_date(*v, t);
        let want = if t >= cut { scan(&open, add_days(*v, 1), 1) } else { *v };
        ensure!(eff == want, "{name} at {t} on {v}: effective valuation date {eff}, expected {want}");
        seen_as(got != shift_ref(*v, *p, 1), name)
    });
    s.prop("monotone_in_tenor", 10000, 100000, || (edgy_date(LO, HI - 40), shipped_cal()), |(v, c)| {
        let k = c.make();
        let f = |p: Period| p.settlement_date(*v, &*k).map_err(|e| Fail::from(format!("{e}")));
        let mut prev = f(Period::SPOT)?;
        for m in 1..30u32 { let x = f(Period::Months(m))?; ensure!(x >= prev, "{m}M settles {x} before the previous tenor {prev}"); prev = x; }
        let mut prev = f(Period::SPOT)?;
        for w in 1..12i64 { let x = f(Period::Weeks(w))?; ensure!(x >= prev, "{w}W settles {x} before the previous tenor {prev}"); prev = x; }
        ensure!(f(Period::Years(1))? == f(Period::Months(12))?, "1Y and 12M settle differently");
        ensure!(f(Period::Weeks(1))? == f(Period::Days(7))?, "1W and 7D settle differently");
        seen(true)
    });
}
pub fn p08(s: &mut Suite) {
    s.rule("Every pair (enumerated) over every date 2000-2060, plus generated code strings; all non-trivial.");
    s.enumerate("pairs", PAIRS.iter().map(|p| p.to_string()).collect(), |name| {
        let u = FXUnderlying::from_str(name).map_err(|e| format!("{name}: {e}"))?;
        ensure!(u.to_string() == *name, "{name} prints as {u}");
        ensure!(u.frn_currency().code() == &name[..3] && u.dom_currency().code() == &name[3..], "{name}: currencies {:?}/{:?}", u.frn_currency(), u.dom_currency());
        ensure!(Some(u.frn_currency()) == Currency::from_code(&name[..3]), "foreign currency");
        let pts = if &name[3..] == "JPY" { 100.0 } else { 10000.0 };
        ensure!(u.forward_points_converter() == pts, "{name}: point scale {}", u.forward_points_converter());
        ensure!(u.settles() as i64 == lag(name), "{name}: spot lag {}", u.settles());
        let basis = if *name == "EURUSD" || *name == "USDJPY" { 360.0 } else { 365.0 };
        let yf = u.day_count().year_fraction(ymd(2023, 1, 15), ymd(2024, 3, 20)).map_err(|e| format!("{e}"))?;
        near("year fraction", yf, 430.0 / basis, 1e-14, 0.0)?;
        let (a, b) = (market(&name[..3]), market(&name[3..]));
        let c = u.calendar();
        let mut d = ymd(2000, 1, 1);
        while d.year() <= 2060 {
            let o = a.is_business_day(d) && b.is_business_day(d);
            ensure!(c.is_business_day(d) == o, "{name} on {d}: open={}, markets say {o}", c.is_business_day(d));
            d = add_days(d, 1);
        }
        seen(true)
    });
    s.prop("codes", 20000, 300000, || prop_oneof![2 => "[A-Z]{6}", 1 => "[A-Za-z]{0,8}", 2 => (0..PAIRS.len(), 0usize..6, "[A-Za-z]").prop_map(|(i, k, x)| { let mut s = PAIRS[i].to_string(); s.replace_range(k..k + 1, &x); s }), 1 => (0..PAIRS.len()).prop_map(|i| format!("{}{}", &PAIRS[i][3..], &PAIRS[i][..3])), 1 => (0..PAIRS.len()).prop_map(|i| PAIRS[i].to_string())], |c| {
        let known = PAIRS.contains(&c.as_str());
        match FXUnderlying::from_str(c) {
            Ok(u) => ensure!(known && u.to_string() == *c, "{c:?} was read as {u}"),
            Err(_) => ensure!(!known, "{c:?} was rejected"),
        }
        seen_as(c.len() == 6, if known { "valid" } else { "invalid" })
    });
}

// ------------------------------------------------------------------ P09
fn third_wed(y: i32, m: u32) -> NaiveDate {
    let mut n = 0;
    for d in 1..=31 {
        let x = ymd(y, m, d);
        if x.weekday() == Weekday::Wed { n += 1; if n == 3 { return x; } }
    }
    unreachable!()
}
const LETTERS: &str = "FGHJKMNQUVXZ";
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Imm { letter: usize, digit: u32, lower: bool, reference: NaiveDate }
pub fn p09(s: &mut Suite) {
    s.rule("Every date 1950-2150 (enumerated by year) for recognition and stepping; (code, reference date) and arbitrary strings for conversion; strings of length two are non-trivial.");
    s.enumerate("every_date", (1950..=2150).collect::<Vec<i32>>(), |y| {
        let mut d = ymd(*y, 1, 1);
        while d.year() == *y {
            let t = third_wed(*y, d.month());
            let q = d.month() % 3 == 0;
            ensure!(IMM.is_imm_date(d, false) == (d == t), "{d}: IMM date test");
            ensure!(IMM.is_imm_date(d, true) == (d == t && q), "{d}: main-cycle IMM date test");
            let code = IMM.code(d);
            let want = (d == t).then(|| format!("{}{}", &LETTERS[d.month0() as usize..][..1], y % 10));
            ensure!(code == want, "{d}: code {code:?}, expected {want:?}");
            for main in [false, true] {
                let mut k = 0;
                let want = loop {
                    let x = add_months(ymd(*y, d.month(), 1), k);
                    let w = third_wed(x.year(), x.month());
                    if w > d && (!main || w.month() % 3 == 0) { break w; }
                    k += 1;
                };
                let got = IMM.next_date(d, main);
                ensure!(got == want, "next IMM date after {d} (main cycle {main}): {got}, expected {want}");
            }
            d = add_days(d, 1);
        }
        seen(true)
    });
    s.prop("codes_to_dates", 60000, 1_000_000, || (0usize..12, 0u32..10, any::<bool>(), edgy_date(1910, 2180)).prop_map(|(letter, digit, lower, reference)| Imm { letter, digit, lower, reference }), |c| {
        let mut code = format!("{}{}", &LETTERS[c.letter..c.letter + 1], c.digit);
        if c.lower { code = code.to_lowercase(); }
        let m = c.letter as u32 + 1;
        let mut y = c.reference.year();
        let want = loop {
            let w = third_wed(y, m);
            if y % 10 == c.digit as i32 && w >= c.reference { break w; }
            y += 1;
        };
        let got = IMM.date(code.clone(), Some(c.reference)).ok_or(format!("{code} has no date"))?;
        ensure!(got == want, "{code} from {} is {got}, expected {want}", c.reference);
        ensure!(IMM.code(got) == Some(code.to_uppercase()), "{code} does not convert back");
        ensure!(IMM.is_imm_code(code.clone(), false) && IMM.is_imm_code(code.clone(), true) == (m % 3 == 0), "{code}: code test");
        seen(true)
    });
    s.prop("malformed_codes", 40000, 600000, || (prop_oneof![3 => "[A-Za-z0-9]{2}", 1 => "\\PC{0,3}", 1 => "[FGHJKMNQUVXZ][0-9٠-٩]", 1 => "[A-Za-z]{1,3}[0-9]{1,2}"], any_date(1950, 2100)), |(c, d)| {
        let ch: Vec<char> = c.chars().collect();
        let ok = ch.len() == 2 && LETTERS.contains(ch[0].to_ascii_uppercase()) && ch[1].is_ascii_digit();
        let main = ok && "HMUZ".contains(ch[0].to_ascii_uppercase());
        ensure!(IMM.is_imm_code(c.clone(), false) == ok, "{c:?}: recognised as a code");
        ensure!(IMM.is_imm_code(c.clone(), true) == main, "{c:?}: recognised as a main-cycle code");
        ensure!(IMM.date(c.clone(), Some(*d)).is_some() == ok, "{c:?}: converts to a date");
        seen(ch.len() == 2)
    });
}
