//! P11: JSON round trips, judged by the text, by every field and by behaviour.
use super::cals::*;
use super::daycount::{business252, from_json};
use super::fx::{self, Mkt, fwd_trade, opt_trade};
use super::ir::{raw_cap, raw_irs, raw_vols, irctx};
use super::mkt::*;
use super::util::*;
use crate::core::*;
use crate::ensure;
use chrono::NaiveDate;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::{CurrencyValue, FXDerivatives, FXUnderlying};
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType};
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle, IRDerivatives, RateShiftMode};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::forex::quotes::forwardpoints::FXForwardQuote;
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::businessdayconvention::BusinessDayConvention as Bdc;
use finquant::time::calendars::{Calendar, JointCalendar, Target};
use finquant::time::daycounters::DayCounters;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
use iso_currency::Currency;
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::fmt::Debug;

/// Every route through the serialiser; the copy must say the same as the original in text and in every field.
fn trip<T: Serialize + DeserializeOwned + Debug>(what: &str, x: &T) -> Result<T, Fail> {
    let text = serde_json::to_string(x).map_err(|e| format!("{what} does not serialise: {e}"))?;
    let y: T = serde_json::from_str(&text).map_err(|e| format!("{what} {text} does not deserialise: {e}"))?;
    let same = |y: &T, how: &str| -> Result<(), Fail> {
        let again = serde_json::to_string(y).map_err(|e| format!("{what}: {e}"))?;
        ensure!(again == text, "{what} through {how}: {text} came back as {again}");
        ensure!(format!("{x:?}") == format!("{y:?}"), "{what} through {how}: {x:?} came back as {y:?}");
        Ok(())
    };
    same(&y, "text")?;
    let v = serde_json::to_value(x).map_err(|e| format!("{what}: {e}"))?;
    same(&serde_json::from_value(v.clone()).map_err(|e| format!("{what} {v} from a value: {e}"))?, "a value")?;
    let pretty = serde_json::to_vec_pretty(&v).unwrap();
    same(&serde_json::from_reader(&pretty[..]).map_err(|e| format!("{what} from a reader: {e}"))?, "a reader")?;
    Ok(y)
}
/// All places in a document.
fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => for (k, x) in m { at.push(k.clone()); places(x, at, out); at.pop(); },
        Value::Array(a) => for (k, x) in a.iter().enumerate() { at.push(k.to_string()); places(x, at, out); at.pop(); },
        _ => {}
    }
}
fn slot<'a>(v: &'a mut Value, at: &[String]) -> &'a mut Value {
    at.iter().fold(v, |v, k| match v {
        Value::Object(m) => m.get_mut(k).unwrap(),
        Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
        _ => unreachable!(),
    })
}
/// Damage one place of the document; the reader must refuse what it cannot represent, and never panic or invent.
fn damaged<T: Serialize + DeserializeOwned + Debug>(what: &str, x: &T, pick: u32, kind: u8, optional: &[&str]) -> Result<bool, Fail> {
    let orig = serde_json::to_value(x).unwrap();
    let mut v = orig.clone();
    let mut all = vec![];
    places(&v, &mut vec![], &mut all);
    all.retain(|p| !p.is_empty());
    if all.is_empty() { all.push(vec![]); }
    let at = &all[pick as usize % all.len()];
    let last = at.last().cloned().unwrap_or_default();
    let parent_is_object = at.is_empty() || { let n = at.len() - 1; slot(&mut v, &at[..n]).is_object() };
    let was = slot(&mut v, at).clone();
    let mut must_fail = false;
    let did;
    match kind % 6 {
        0 if last == "type" && !at.is_empty() => {
            did = "unknown type tag";
            *slot(&mut v, at) = json!(format!("{}x", was.as_str().unwrap()));
            must_fail = true;
        }
        0 | 1 if !at.is_empty() && parent_is_object && !was.is_null() => {
            did = "missing field";
            let n = at.len() - 1;
            slot(&mut v, &at[..n]).as_object_mut().unwrap().remove(&last);
            must_fail = !optional.contains(&last.as_str());
        }
        2 if was.is_string() && last != "imm_code" => {
            did = "unknown name";
            *slot(&mut v, at) = json!(format!("{}?", was.as_str().unwrap()));
            must_fail = true;
        }
        3 => {
            did = "wrong kind of value";
            *slot(&mut v, at) = if was.is_array() || was.is_object() { json!(true) } else { json!({"no": "such thing"}) };
            must_fail = true;
        }
        4 => {
            did = "nothing there";
            *slot(&mut v, at) = Value::Null;
            must_fail = !was.is_null() && !optional.contains(&last.as_str());
        }
        _ => {
            did = "impossible date";
            if was.as_str().is_some_and(|s| s.len() == 10 && s.as_bytes()[4] == b'-') {
                *slot(&mut v, at) = json!(["2023-02-29", "2023-13-01", "2023-00-10", "20230101", "2023-04-31"][pick as usize % 5]);
                must_fail = true;
            }
        }
    }
    let text = v.to_string();
    let got = guarded(|| serde_json::from_str::<T>(&text)).map_err(|e| format!("{what}: reading {text} panics: {e}"))?;
    if let Ok(y) = got {
        ensure!(!must_fail, "{what}: {did} at {at:?} is accepted: {text} read as {y:?}");
        let again = serde_json::to_string(&y).unwrap();
        ensure!(serde_json::from_str::<T>(&again).is_ok(), "{what}: {text} is read, but not what it becomes: {again}");
    }
    // a prefix of a document is not a document
    let full = orig.to_string();
    let cut = (pick as usize >> 3) % full.len();
    if full.is_char_boundary(cut) && (full.starts_with('{') || full.starts_with('"') || full.starts_with('[')) {
        let got = guarded(|| serde_json::from_str::<T>(&full[..cut])).map_err(|e| format!("{what}: reading {} panics: {e}", &full[..cut]))?;
        ensure!(got.is_err(), "{what}: the truncated {} is accepted", &full[..cut]);
    }
    Ok(v != orig)
}

fn same_calendar(a: &dyn Calendar, b: &dyn Calendar, from: NaiveDate, n: i64) -> Result<(), Fail> {
    for k in 0..n {
        let d = add_days(from, k);
        ensure!(a.is_business_day(d) == b.is_business_day(d), "{a:?}: the copy disagrees on {d}");
    }
    let e = add_days(from, n);
    ensure!(a.business_days_between(from, e, None, None) == b.business_days_between(from, e, None, None), "{a:?}: the copy counts other business days");
    Ok(())
}
fn same_counter(a: &dyn DayCounters, b: &dyn DayCounters, x: NaiveDate, y: NaiveDate) -> Result<(), Fail> {
    for (p, q) in [(x, y), (y, x), (x, x)] {
        let f = |c: &dyn DayCounters| guarded(|| (c.day_count(p, q).ok(), c.year_fraction(p, q).ok().map(f64::to_bits))).ok();
        let (u, v) = (f(a), f(b));
        ensure!(u == v, "{a:?}: the copy answers {v:?} for {p}..{q}, not {u:?}");
    }
    Ok(())
}

/// Every shipped day counter, by number, with arbitrary configuration.
fn any_dc(k: u8, day: NaiveDate, c: &Cal) -> Box<dyn DayCounters> {
    let named = |t: &str, m: Value| from_json(json!({"type": t, "market": m}));
    match k % 20 {
        0 => from_json(json!({"type": "Actual360"})),
        1 => from_json(json!({"type": "Actual364"})),
        2 => from_json(json!({"type": "Actual366"})),
        3 => from_json(json!({"type": "Thirty365"})),
        4 => named("Actual365Fixed", Value::Null),
        5 => named("Actual365Fixed", json!("Standard")),
        6 => named("Actual365Fixed", json!("NoLeap")),
        7 => named("ActualActual", Value::Null),
        8 => named("ActualActual", json!("Isda")),
        9 => named("ActualActual", json!("Euro")),
        10 => named("Thirty360", json!("USA")),
        11 => named("Thirty360", json!("European")),
        12 => named("Thirty360", json!("Italian")),
        13 => named("Thirty360", json!("ISMA")),
        14 => named("Thirty360", json!("NASD")),
        15 => named("Thirty360", json!({"ISDA": day})),
        16 => named("Thirty360", json!({"German": day})),
        17 => Box::new(finquant::time::daycounters::thirty360::Thirty360::default()),
        18 => Box::new(finquant::time::daycounters::actualactual::ActualActual::default()),
        _ => business252(&*c.make()),
    }
}
fn nested(day: NaiveDate) -> impl Strategy<Value = Cal> {
    prop_oneof![
        3 => cal(day),
        1 => prop::collection::vec(cal(day), 0..4).prop_map(Cal::Joint),
    ]
}
fn period() -> BoxedStrategy<Period> {
    prop_oneof![
        Just(Period::ON), Just(Period::TN), Just(Period::SPOT), Just(Period::SN),
        any::<i64>().prop_map(Period::Days), any::<i64>().prop_map(Period::Weeks), any::<u32>().prop_map(Period::Months), any::<u32>().prop_map(Period::Years),
        (-500i64..500).prop_map(Period::Days), (0u32..500).prop_map(Period::Months),
    ].boxed()
}
/// Finite numbers of every magnitude.
fn number() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => -1e6f64..1e6, 2 => -0.1f64..0.1, 1 => Just(0.0), 1 => Just(-0.0),
        2 => any::<u64>().prop_map(|b| { let x = f64::from_bits(b); if x.is_finite() { x } else { 1.0 / 3.0 } }),
        1 => any::<i32>().prop_map(f64::from),
    ].boxed()
}
fn dirn(b: bool) -> Direction { if b { Direction::Buy } else { Direction::Sell } }
fn bdc(k: u8) -> Bdc {
    [Bdc::Following, Bdc::ModifiedFollowing, Bdc::Preceding, Bdc::ModifiedPreceding, Bdc::Unadjusted, Bdc::HalfMonthModifiedFollowing, Bdc::Nearest][k as usize % 7]
}
fn index_of(k: u8, p: Period, c: &Cal, d: NaiveDate, n: i64) -> InterestRateIndex {
    let e = match k % 7 {
        0 => InterestRateIndexEnum::AONIA, 1 => InterestRateIndexEnum::CDOR(p), 2 => InterestRateIndexEnum::EONIA, 3 => InterestRateIndexEnum::ESTR,
        4 => InterestRateIndexEnum::EUIBOR(p), 5 => InterestRateIndexEnum::SONIA, _ => InterestRateIndexEnum::SOFR,
    };
    match InterestRateIndex::from_enum(e) {
        Some(i) if k & 64 == 0 => i,
        _ => InterestRateIndex { period: p, settlement_days: n, currency: Currency::SEK, calendar: c.make(), convention: bdc(k), day_counter: any_dc(k, d, c), end_of_month: k & 32 != 0 },
    }
}
fn bits<E>(r: Result<f64, E>) -> Option<u64> { r.ok().map(f64::to_bits) }

pub fn p11(s: &mut Suite) {
    s.rule("A case is one serialisable object (or market built from such) with generated contents; non-trivial when the round trip was compared on fields and behaviour, or when the damaged document differs from the original.");
    s.assume("numbers are finite (JSON has no others) and the JSON reader rounds decimal text correctly");
    let names: Vec<usize> = (0..shipped().len()).collect();
    s.enumerate("shipped_calendars", names, |i| {
        let (name, c) = shipped().swap_remove(*i);
        let d: Box<dyn Calendar> = trip(name, &c)?;
        let v = serde_json::to_value(&c).unwrap();
        let kind = name.split('/').next().unwrap();
        ensure!(v["type"] == json!(kind), "{name} is tagged {}", v["type"]);
        same_calendar(&*c, &*d, ymd(1999, 12, 25), 9200)?;
        if let Some(m) = name.split('/').nth(1) { ensure!(v["market"] == json!(m), "{name} has market {}", v["market"]); }
        seen(true)
    });
    s.prop("calendars", 1500, 30000, || edgy_date(1995, 2060).prop_flat_map(|d| (Just(d), nested(d))), |(d, c)| {
        let a = c.make();
        let b = trip("calendar", &a)?;
        same_calendar(&*a, &*b, add_days(*d, -40), 300)?;
        let joint = JointCalendar::new(vec![c.make(), Box::new(Target)]);
        same_calendar(&joint, &trip("joint calendar", &joint)?, *d, 60)?;
        for conv in 0..7 {
            ensure!(a.adjust(*d, bdc(conv)) == b.adjust(*d, bdc(conv)), "adjusted differently");
        }
        for n in [-30, 45] { ensure!(a.advance(*d, Period::Days(n), Bdc::Following, Some(false)).ok() == b.advance(*d, Period::Days(n), Bdc::Following, Some(false)).ok(), "advanced differently"); }
        seen_as(true, c.kind())
    });
    s.prop("day_counters", 3000, 60000, || edgy_date(1995, 2060).prop_flat_map(|d| (any::<u8>(), Just(d), nested(d), 0i64..4000, edgy_date(1995, 2060))), |(k, d, c, n, term)| {
        let a = any_dc(*k, *term, c);
        let b = trip("day counter", &a)?;
        same_counter(&*a, &*b, *d, add_days(*d, *n))?;
        same_counter(&*a, &*b, *d, *term)?;
        let j = serde_json::to_value(&a).unwrap();
        seen_as(true, j["type"].as_str().unwrap_or("?"))
    });
    s.prop("tenors_and_names", 8000, 150000, || (period(), any::<u8>(), any::<u8>(), number(), any_pair(), edgy_date(1995, 2060)), |(p, k, d, x, pair, day)| {
        let q = trip("tenor", p)?;
        ensure!(q == *p, "{p:?} came back as {q:?}");
        let small = match *p { Period::Days(n) => Period::Days(n % 4000), Period::Weeks(n) => Period::Weeks(n % 600), Period::Months(n) => Period::Months(n % 400), Period::Years(n) => Period::Years(n % 40), o => o };
        let (u, v) = (trip("pair", &PAIRS[*pair].parse::<FXUnderlying>().unwrap())?, PAIRS[*pair].parse::<FXUnderlying>().unwrap());
        ensure!(u.to_string() == PAIRS[*pair] && u.settles() == v.settles() && u.forward_points_converter() == v.forward_points_converter() && u.dom_currency() == v.dom_currency() && u.frn_currency() == v.frn_currency(), "{u} is not {v}");
        ensure!(u.settlement_date(trip("tenor", &small)?, *day).ok() == v.settlement_date(small, *day).ok(), "another settlement date");
        let b = bdc(*k);
        ensure!(trip("convention", &b)? == b, "{b:?}");
        let all = <Frequency as strum::IntoEnumIterator>::iter();
        let f = all.collect::<Vec<_>>().swap_remove(*k as usize % 13);
        let g = trip("frequency", &f)?;
        ensure!(g == f && g.period() == f.period() && g.name() == f.name(), "{f:?}");
        let dir = dirn(k & 1 == 0);
        ensure!(trip("direction", &dir)? as i8 == dir as i8, "{dir:?}");
        trip("style", &[Style::FXForward, Style::FXCall, Style::FXPut, Style::IRSwap][*d as usize % 4])?;
        let o = [OptionType::Call, OptionType::Put][*d as usize % 2];
        ensure!(trip("option type", &o)? == o, "{o:?}");
        ensure!(trip("kind", &CapFloorKind::Cap)? == CapFloorKind::Cap && trip("kind", &CapFloorKind::Floor)? == CapFloorKind::Floor, "cap and floor");
        ensure!(trip("style", &CapStyle::ForwardLooking)? == CapStyle::ForwardLooking && trip("style", &CapStyle::BackwardCompounded)? == CapStyle::BackwardCompounded, "cap styles");
        let m = [RateShiftMode::Zeros, RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps][*d as usize % 4];
        ensure!(trip("shift mode", &m)? == m, "{m:?}");
        let cv = CurrencyValue { currency: [Currency::EUR, Currency::JPY, Currency::USD, Currency::BRL][*k as usize % 4], value: *x };
        let w = trip("value", &cv)?;
        ensure!(w == cv && w.value.to_bits() == x.to_bits(), "{cv:?}");
        let fq = trip("forward quote", &FXForwardQuote { tenor: *p, value: *x })?;
        ensure!(fq.tenor == *p && fq.value.to_bits() == x.to_bits(), "{fq:?}");
        let leg = if k & 2 == 0 { InterestRateSwapLegType::Float { spread: *x } } else { InterestRateSwapLegType::Fixed { coupon: *x } };
        trip("leg type", &leg)?;
        let e = [InterestRateIndexEnum::AONIA, InterestRateIndexEnum::CDOR(*p), InterestRateIndexEnum::EONIA, InterestRateIndexEnum::ESTR, InterestRateIndexEnum::EUIBOR(*p), InterestRateIndexEnum::SONIA, InterestRateIndexEnum::SOFR];
        for i in &e { ensure!(trip("index name", i)? == *i, "{i:?}"); }
        for i in [InterestRateQuoteEnum::OIS, InterestRateQuoteEnum::Futures, InterestRateQuoteEnum::Swap] { ensure!(trip("quote kind", &i)? == i, "{i:?}"); }
        let flow = InterestRateCashflow {
            day_counts: (k & 1 != 0).then_some(*d as i64 - 128), notional: (k & 2 != 0).then_some(*x), principal: (k & 4 != 0).then_some(x * 0.5), reset_rate: (k & 8 != 0).then_some(0.1),
            payment: (k & 16 != 0).then_some(-1.5), discount: (k & 32 != 0).then_some(0.9), present_value: (k & 64 != 0).then_some(x / 3.0),
        };
        ensure!(trip("cashflow", &flow)? == flow, "{flow:?}");
        seen(true)
    });
    s.prop("indices_and_futures", 2500, 50000, || edgy_date(1999, 2050).prop_flat_map(|d| (Just(d), any::<u8>(), 1u32..24, nested(d), 0i64..5, any::<bool>(), number())), |(d, k, n, c, lag, weeks, x)| {
        let p = if *weeks { Period::Weeks(*n as i64) } else { Period::Months(*n) };
        let a = index_of(*k, p, c, *d, *lag);
        let b = trip("index", &a)?;
        same_calendar(&*a.calendar, &*b.calendar, *d, 120)?;
        same_counter(&*a.day_counter, &*b.day_counter, *d, add_days(*d, 400))?;
        ensure!(a.settlement_days == b.settlement_days && a.period == b.period && a.currency == b.currency && a.convention == b.convention && a.end_of_month == b.end_of_month, "{a:?} against {b:?}");
        let mut f = InterestRateFutures::new(p);
        f.calendar = c.make();
        f.convention = bdc(*k);
        f.day_counter = any_dc(*k, *d, c);
        f.end_of_month = k & 1 == 0;
        let g = trip("futures contract", &f)?;
        ensure!(f.maturity_date(*d).ok() == g.maturity_date(*d).ok(), "another maturity");
        let o = trip("cash quote", &OISRate { value: *x, interest_rate_index: index_of(*k, p, c, *d, *lag) })?;
        ensure!(o.value.to_bits() == x.to_bits(), "another rate");
        let q = OISRate { value: 0.031, interest_rate_index: index_of(*k, p, c, *d, *lag) };
        let r = trip("cash quote", &q)?;
        let dates = |q: &OISRate| guarded(|| (q.settle_date(*d).ok(), q.maturity_date(*d).ok(), bits(q.discount(*d)), bits(q.zero_rate(*d)))).ok();
        ensure!(dates(&q) == dates(&r), "{q:?}: other dates or discount");
        seen(true)
    });
    s.prop("quotes_and_stripped_curves", 1500, 30000, || (raw_ir(), 0i64..9000), |(r, n)| {
        let a = r.make();
        let b = YieldTermMarketData::new(
            r.val,
            r.cash.iter().map(|c| trip("cash quote", &c.make())).collect::<Result<_, _>>()?,
            r.futures.iter().map(|f| trip("futures quote", &f.make())).collect::<Result<_, _>>()?,
            r.swaps.iter().map(|w| trip("swap", &w.make())).collect::<Result<_, _>>()?,
        );
        for f in &r.futures {
            let (x, y) = (f.make(), trip("futures quote", &f.make())?);
            ensure!(x.implied_quote().to_bits() == y.implied_quote().to_bits() && x.settle_date(r.val).ok() == y.settle_date(r.val).ok() && x.maturity_date(r.val).ok() == y.maturity_date(r.val).ok(), "{x:?}");
        }
        let (Ok(u), Ok(v)) = (a.get_stripped_curve(), b.get_stripped_curve()) else {
            ensure!(a.get_stripped_curve().is_err() && b.get_stripped_curve().is_err(), "only one of the two markets strips");
            return seen(false);
        };
        ensure!(format!("{u:?}") == format!("{v:?}"), "the copies strip to {v:?}, not {u:?}");
        let w: Vec<StrippedCurve> = trip("stripped curve", &u)?;
        ensure!(w == u, "{u:?}");
        if !u.iter().any(|p| !p.hidden_pillar) { return seen(false); }
        let y = YieldTermStructure::new(small_cal(*n as u8), counter((*n >> 2) as u8), r.val, u);
        let z = trip("curve", &y)?;
        let d = add_days(r.val, *n);
        for m in [STEP, LINEAR] {
            let all = |c: &YieldTermStructure| guarded(|| (bits(c.zero_rate(d, &m)), bits(c.discount(d, &m)), bits(c.shifted_discount(d, &m, 7.0)), bits(c.forward_rate(d, Period::Days(91), &m)))).ok();
            ensure!(all(&y) == all(&z), "the copy of the curve answers {:?}, not {:?}", all(&z), all(&y));
        }
        seen(r.futures.len() + r.swaps.len() + r.cash.len() > 1)
    });
    s.prop("fx_trades", 1500, 30000, || (fx::mkt(), any::<u16>(), any::<u8>(), number(), (any::<bool>(), any::<bool>(), any::<bool>()), 1.0f64..1e8, 0.7f64..1.4, 0.01f64..0.6), |(m, p, mode, x, (buy, call, base), n, k, vol)| {
        let m: &Mkt = m;
        let ctx = m.ctx();
        let d = m.fx.date(*p, *mode);
        let mut f = fwd_trade(m, d, *buy, *base, *n, k * m.fx.spot);
        f.basic_info.delivery_date = add_days(d, 2);
        f.basic_info.trade_date = add_days(m.fx.val, -(*mode as i64));
        let g: FXForward = trip("forward", &f)?;
        let value = |t: &dyn FXDerivatives| {
            let v = |r: finquant::error::Result<CurrencyValue>| r.ok().map(|c| (c.currency, c.value.to_bits()));
            (v(t.mtm(&ctx)), v(t.delta(&ctx)), bits(t.gamma(&ctx)), bits(t.vega(&ctx)))
        };
        ensure!(value(&f) == value(&g), "the copy of {f:?} is worth {:?}, not {:?}", value(&g), value(&f));
        let o = opt_trade(m, d, *buy, *call, *base, *n, k * m.fx.spot, *vol);
        let q: FXVanillaOption = trip("option", &o)?;
        ensure!(value(&o) == value(&q), "the copy of {o:?} is worth {:?}, not {:?}", value(&q), value(&o));
        let (mut f2, mut o2) = (fwd_trade(m, d, *buy, *base, *x, *x), opt_trade(m, d, *buy, *call, *base, *x, *n, *x));
        f2.notional_amounts = *x;
        o2.strike = *x;
        trip("forward", &f2)?;
        trip("option", &o2)?;
        let i: BasicInfo = trip("trade details", &f.basic_info)?;
        ensure!((i.trade_date, i.expiry_date, i.delivery_date) == (f.basic_info.trade_date, d, add_days(d, 2)), "{i:?}");
        seen(value(&f).0.is_some())
    });
    s.prop("rate_trades", 1200, 25000, || (raw_irs(), raw_cap(), raw_vols()), |(r, c, v)| {
        let ctx = irctx(&r.curve, Some(v.make(r.curve.val)));
        let a = r.make();
        let b: InterestRateSwap = trip("swap", &a)?;
        for (x, y) in a.legs.iter().zip(&b.legs) {
            let (x2, y2) = (x.generate_schedule(r.curve.val).ok(), y.generate_schedule(r.curve.val).ok());
            ensure!(x2 == y2, "another schedule: {y2:?}, not {x2:?}");
            for p in x2.iter().flatten() { ensure!(trip("schedule period", p)? == *p, "{p:?}"); }
        }
        let value = |t: &dyn IRDerivatives| {
            let v = |r: finquant::error::Result<CurrencyValue>| r.ok().map(|c| (c.currency, c.value.to_bits()));
            guarded(|| v(t.mtm(&ctx))).ok()
        };
        let cap = c.make(r.curve.val);
        let cap2: CapFloor = trip("cap", &cap)?;
        ensure!(value(&cap) == value(&cap2), "the copy of the cap is worth {:?}, not {:?}", value(&cap2), value(&cap));
        let sv = |t: &InterestRateSwap| guarded(|| bits(t.npv(r.curve.val, &mut r.curve.make()))).ok();
        ensure!(sv(&a) == sv(&b), "the copy of the swap is worth {:?}, not {:?}", sv(&b), sv(&a));
        seen(!r.legs.is_empty())
    });
    s.prop("damaged_documents", 12000, 250000, || edgy_date(1999, 2050).prop_flat_map(|d| (Just(d), any::<u8>(), any::<u32>(), any::<u8>(), nested(d), period(), (raw_irs(), raw_cap(), raw_ir_at(d)))), |(d, which, pick, kind, c, p, (irs, cap, ir))| {
        let (pick, kind) = (*pick, *kind);
        let m = &["market"][..];
        let (what, done) = match which % 12 {
            0 => ("calendar", damaged("calendar", &c.make(), pick, kind, m)?),
            1 => ("day counter", damaged("day counter", &any_dc(kind >> 2, *d, c), pick, kind, &["market", ""])?),
            2 => ("tenor", damaged("tenor", p, pick, kind, &[])?),
            3 => ("cashflow", damaged("cashflow", &InterestRateCashflow { day_counts: Some(3), notional: Some(1.5), principal: None, reset_rate: Some(0.1), payment: None, discount: Some(0.9), present_value: Some(2.0) }, pick, kind, &["day_counts", "notional", "principal", "reset_rate", "payment", "discount", "present_value"])?),
            4 => ("index", damaged("index", &index_of(kind, Period::Months(3), c, *d, 2), pick, kind, m)?),
            5 => ("swap", damaged("swap", &irs.make(), pick, kind, m)?),
            6 => ("cap", damaged("cap", &cap.make(*d), pick, kind, m)?),
            7 => {
                let q: Vec<OISRate> = ir.cash.iter().map(|c| c.make()).collect();
                ("cash quotes", damaged("cash quotes", &q, pick, kind, m)?)
            }
            8 => {
                let q: Vec<FuturesRate> = ir.futures.iter().map(|c| c.make()).collect();
                ("futures quotes", damaged("futures quotes", &q, pick, kind, m)?)
            }
            9 => ("curve", damaged("curve", &irs.curve.make(), pick, kind, m)?),
            10 => ("forward", damaged("forward", &FXForward { basic_info: info(*d, *d, true), asset: FXUnderlying::EURUSD, notional_currency: Currency::EUR, notional_amounts: 2.5, strike: 1.25 }, pick, kind, m)?),
            _ => ("option", damaged("option", &FXVanillaOption { basic_info: info(*d, *d, false), asset: FXUnderlying::USDJPY, option_type: OptionType::Put, notional_currency: Currency::JPY, notional_amounts: 2.5, strike: 125.0, volatility: 0.1 }, pick, kind, m)?),
        };
        seen_as(done, what)
    });
    s.prop("unknown_tags", 3000, 60000, || ("[A-Za-z0-9 ]{0,14}", any::<bool>()), |(t, extra)| {
        let known = shipped().iter().any(|(n, _)| n.split('/').next() == Some(t)) || ["JointCalendar", "FqcheckSynthetic"].contains(&t.as_str());
        let doc = if *extra { json!({"type": t, "market": null, "calendars": [], "calendar": {"type": "Target"}}) } else { json!({"type": t}) }.to_string();
        let got = guarded(|| serde_json::from_str::<Box<dyn Calendar>>(&doc)).map_err(|e| format!("reading {doc} panics: {e}"))?;
        ensure!(known || got.is_err(), "the calendar {doc} is read as {got:?}");
        let counters = ["Actual360", "Actual364", "Actual365Fixed", "Actual366", "ActualActual", "Thirty360", "Thirty365", "Business252"];
        let got = guarded(|| serde_json::from_str::<Box<dyn DayCounters>>(&doc)).map_err(|e| format!("reading {doc} panics: {e}"))?;
        ensure!(counters.contains(&t.as_str()) || got.is_err(), "the day counter {doc} is read as {got:?}");
        seen(!known)
    });
}
