use super::mkt::*;
use super::util::*;
use crate::core::*;
use crate::ensure;
use chrono::NaiveDate;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::interestrate::basic::*;
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::*;
use finquant::error::Error;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum as Ix};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::*;
use finquant::markets::termstructures::yieldcurve::InterestRateQuote;
use finquant::time::businessdayconvention::BusinessDayConvention as Bdc;
use finquant::time::daycounters::DayCounters;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
use iso_currency::Currency;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn e2f(e: Error) -> Fail {
    Fail::from(format!("unexpected error: {e}"))
}
fn dir(buy: bool) -> Direction {
    if buy { Direction::Buy } else { Direction::Sell }
}
fn conv(i: u8) -> Bdc {
    [Bdc::ModifiedFollowing, Bdc::Following, Bdc::Preceding, Bdc::ModifiedPreceding][i as usize % 4]
}

// ------------------------------------------------------------------ P20
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawLeg {
    unit: u8,
    periods: u32,
    long_units: bool,
    fixed: bool,
    rate: f64,
    notional: f64,
    buy: bool,
    dc: u8,
    cal: u8,
    conv: u8,
    lag: i64,
    pay_delay: i64,
    reset_lag: i64,
    eom: bool,
    usd: bool,
    /// Custom periods instead of a generated schedule: (gap, length, pay delay in days, balance).
    custom: Vec<(i64, i64, i64, f64)>,
}
impl RawLeg {
    fn freq(&self) -> (Frequency, Period, u32) {
        match self.unit % 7 {
            0 => (Frequency::Quarterly, Period::Months(3), 3),
            1 => (Frequency::Semiannual, Period::Months(6), 6),
            2 => (Frequency::Annual, Period::Years(1), 12),
            3 => (Frequency::Monthly, Period::Months(1), 1),
            4 => (Frequency::Bimonthly, Period::Months(2), 2),
            5 => (Frequency::EveryFourthMonth, Period::Months(4), 4),
            _ => (Frequency::Weekly, Period::Weeks(1), 0),
        }
    }
    pub fn make(&self, val: NaiveDate) -> InterestRateSwapLeg {
        let (f, tenor, months) = self.freq();
        let total = months * self.periods;
        let duration = if months == 0 { Period::Weeks(self.periods as i64) } else if self.long_units && total % 12 == 0 { Period::Years(total / 12) } else { Period::Months(total) };
        let tenor = if months == 12 && !self.long_units { Period::Months(12) } else { tenor };
        let mut index = InterestRateIndex::from_enum(if self.usd { Ix::SOFR } else { Ix::ESTR }).unwrap();
        index.settlement_days = self.lag;
        index.end_of_month = self.eom;
        InterestRateSwapLeg::new(
            if self.fixed { InterestRateSwapLegType::Fixed { coupon: self.rate } } else { InterestRateSwapLegType::Float { spread: self.rate } },
            dir(self.buy),
            index,
            self.notional,
            ScheduleDetail::new(f, tenor, duration, counter(self.dc), small_cal(self.cal), conv(self.conv), self.lag, self.pay_delay, self.reset_lag),
            self.custom_rows(val).iter().map(|r| InterestRateSchedulePeriod::new(r.0, r.1, r.2, r.3, 0.0, r.4)).collect(),
        )
    }
    fn custom_rows(&self, val: NaiveDate) -> Vec<(NaiveDate, NaiveDate, NaiveDate, NaiveDate, f64)> {
        let mut at = val;
        self.custom.iter().map(|(g, l, p, b)| { let s = add_days(at, *g); let e = add_days(s, *l); at = e; (s, e, add_days(e, *p), s, *b) }).collect()
    }
    /// (start, end, pay, reset, balance)
    fn rows(&self, val: NaiveDate) -> Vec<(NaiveDate, NaiveDate, NaiveDate, NaiveDate, f64)> {
        if !self.custom.is_empty() { return self.custom_rows(val); }
        let c = small_cal(self.cal);
        let b = conv(self.conv);
        let (_, _, months) = self.freq();
        let go = |d: NaiveDate, p: Period, eom: bool| c.advance(d, p, b, Some(eom)).unwrap().unwrap();
        let eff = go(val, Period::Days(self.lag), self.eom);
        let mut start = eff;
        (1..=self.periods)
            .map(|n| {
                let end = go(eff, if months == 0 { Period::Weeks(n as i64) } else { Period::Months(n * months) }, self.eom);
                let r = (start, end, go(end, Period::Days(self.pay_delay), false), go(start, Period::Days(-self.reset_lag), false), self.notional);
                start = end;
                r
            })
            .collect()
    }
    fn value(&self, val: NaiveDate, df: &dyn Fn(NaiveDate) -> f64) -> f64 {
        let rows = self.rows(val);
        let dc = counter(self.dc);
        let mut v = 0.0;
        for (s, e, p, _, bal) in &rows {
            let tau = dc.year_fraction(*s, *e).unwrap();
            let amount = if self.fixed || tau == 0.0 { self.rate * tau } else { df(*s) / df(*e) - 1.0 + self.rate * tau };
            v += bal * amount * df(*p);
        }
        let last = rows.last().unwrap();
        (v + last.4 * df(last.2)) * if self.buy { 1.0 } else { -1.0 }
    }
    fn size(&self, val: NaiveDate) -> f64 {
        self.rows(val).iter().map(|r| r.4.abs() * 0.4).sum::<f64>() + self.rows(val).last().unwrap().4.abs()
    }
}
pub fn raw_leg() -> impl Strategy<Value = RawLeg> {
    (
        (0u8..14, 1u32..24, any::<bool>(), any::<bool>(), prop_oneof![3 => -0.01f64..0.09, 1 => Just(0.0)], prop_oneof![Just(1.0), 100.0f64..1e8], any::<bool>()),
        (0u8..3, 0u8..4, 0u8..8, 0i64..4, 0i64..4, 0i64..4, any::<bool>(), any::<bool>()),
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((prop_oneof![2 => Just(0i64), 1 => 0i64..60], 20i64..400, 0i64..8, 1.0f64..1e6), 1..9)],
    )
        .prop_map(|((unit, periods, long_units, fixed, rate, notional, buy), (dc, cal, conv, lag, pay_delay, reset_lag, eom, usd), custom)| RawLeg {
            // mostly the first four conventions' modified-following
            unit, periods: if unit % 7 == 2 { periods.min(12) } else { periods }, long_units, fixed, rate: if fixed { rate } else { rate * 0.1 }, notional, buy, dc, cal, conv: if conv < 5 { 0 } else { conv - 4 }, lag, pay_delay, reset_lag, eom, usd, custom,
        })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawIrs { pub curve: GenCurve, pub legs: Vec<RawLeg> }
impl RawIrs {
    pub fn make(&self) -> InterestRateSwap { InterestRateSwap::new(self.legs.iter().map(|l| l.make(self.curve.val)).collect()) }
    fn value(&self, c: &GenCurve) -> f64 { self.legs.iter().map(|l| l.value(c.val, &|d| c.df(d))).sum() }
    fn size(&self) -> f64 { self.legs.iter().map(|l| l.size(self.curve.val)).sum::<f64>() + 1e-300 }
}
pub fn raw_irs() -> BoxedStrategy<RawIrs> {
    (gen_curve(), prop::collection::vec(raw_leg(), 0..4)).prop_map(|(curve, legs)| RawIrs { curve, legs }).boxed()
}
pub fn irctx(c: &GenCurve, s: Option<IRNormalVolSurface>) -> IrMarketContext {
    IrMarketContext::new(c.val, Currency::EUR, c.make(), s)
}
const OTHER_MODES: [RateShiftMode; 3] = [RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps];

pub fn p20(s: &mut Suite) {
    s.rule("A case is a discount curve and a swap of none to three legs, each fixed or floating, with generated conventions or a custom amortising schedule; non-trivial when it has at least two legs.");
    s.assume("Leg tenor equals its frequency's period and divides the duration. Calendars' advance() and the day counters are decided by P04 and P10.");
    s.prop("schedules", 8000, 200000, || (edgy_date(1996, 2055), raw_leg()), |(val, l)| {
        let leg = l.make(*val);
        let got = leg.generate_schedule(*val).map_err(e2f)?;
        let want = l.rows(*val);
        ensure!(got.len() == want.len(), "{} periods, expected {}", got.len(), want.len());
        let cal = small_cal(l.cal);
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            ensure!((g.accrual_start_date, g.accrual_end_date, g.pay_date, g.reset_date, g.balance) == *w, "period {i} is {g:?}, expected {w:?}");
            if l.custom.is_empty() {
                ensure!(i == 0 || g.accrual_start_date == got[i - 1].accrual_end_date, "gap or overlap before period {i}");
                ensure!([g.accrual_start_date, g.accrual_end_date, g.pay_date, g.reset_date].iter().all(|d| cal.is_business_day(*d)), "a date of {g:?} is not a business day");
                ensure!(g.reset_date <= g.accrual_start_date && g.pay_date >= g.accrual_end_date, "{g:?} resets late or pays early");
            }
        }
        if l.custom.is_empty() {
            ensure!(leg.effective_date(*val).map_err(e2f)?.unwrap() == want[0].0, "effective date");
        }
        ensure!(leg.is_fixe_leg() == l.fixed && leg.get_reference_rate() == l.rate, "leg kind or rate");
        seen_as(got.len() > 1, if l.custom.is_empty() { "generated" } else { "custom" })
    });
    s.prop("value_and_risk", 8000, 200000, || (raw_irs(), prop_oneof![Just(1.0), Just(10.0), 0.01f64..100.0], 0usize..3), |(r, bp, m)| {
        let swap = r.make();
        let c = &r.curve;
        let ctx = irctx(c, None);
        if r.legs.is_empty() {
            ensure!(swap.mtm(&ctx).is_err() && swap.currency().is_err() && swap.modified_duration(&ctx).is_err(), "a swap without legs has a value");
            ensure!(swap.settle_date(c.val).map_err(e2f)? == c.val && swap.maturity_date(c.val).map_err(e2f)? == c.val, "a swap without legs has dates");
            return seen_as(false, "no legs");
        }
        let tol = 1e-13 * r.size();
        let v = r.value(c);
        near("npv", swap.npv(c.val, &mut c.make()).map_err(e2f)?, v, 1e-13, tol)?;
        let mtm = swap.mtm(&ctx).map_err(e2f)?;
        near("mtm", mtm.value, v, 1e-13, tol)?;
        let ccy = if r.legs[0].usd { Currency::USD } else { Currency::EUR };
        ensure!(mtm.currency == ccy && swap.currency().map_err(e2f)? == ccy, "currency {:?}", mtm.currency);
        let up = r.value(&c.bumped(1.0));
        near("dv01", swap.dv01(&ctx).map_err(e2f)?, up - v, 1e-12, 4.0 * tol)?;
        near("gamma", swap.gamma(&ctx, *bp, RateShiftMode::Zeros).map_err(e2f)?, r.value(&c.bumped(*bp)) + r.value(&c.bumped(-bp)) - 2.0 * v, 1e-12, 8.0 * tol)?;
        ensure!(swap.gamma(&ctx, *bp, OTHER_MODES[*m]).is_err(), "an unsupported bump is accepted");
        ensure!(swap.vega(&ctx, *bp).map_err(e2f)? == 0.0, "vega");
        if v.abs() > 1e4 * tol && v.abs() > 1e-11 {
            near("modified duration", swap.modified_duration(&ctx).map_err(e2f)?, -(up - v) * 1e4 / v, 1e-7, 1e-7 * r.size() / v.abs())?;
        } else { ensure!(swap.modified_duration(&ctx).map_err(e2f)?.is_finite(), "duration of a worthless swap"); }
        ensure!(swap.settle_date(c.val).map_err(e2f)? == { let l = RawLeg { custom: vec![], ..r.legs[0].clone() }; l.rows(c.val)[0].0 }, "settlement date");
        ensure!(swap.maturity_date(c.val).map_err(e2f)? == r.legs.iter().map(|l| l.rows(c.val).last().unwrap().1).max().unwrap(), "maturity date");
        seen_as(r.legs.len() > 1, format!("{} legs", r.legs.len()))
    });
    s.prop("weekly_legs_across_long_closures", 600, 20000, || (gen_curve(), 0i64..120, raw_leg(), 0.1f64..50.0), |(c, back, l, bp)| {
        // ten days without business (Japan, 2019): two weekly dates roll onto the same day and a period has no length
        let c = GenCurve { val: add_days(ymd(2019, 5, 7), -back), pillars: c.pillars.clone() };
        let l = RawLeg { unit: 6, cal: 3, custom: vec![], periods: l.periods + 4, ..l.clone() };
        let empty = l.rows(c.val).iter().any(|r| r.0 == r.1);
        let r = RawIrs { curve: c.clone(), legs: vec![l] };
        let tol = 1e-13 * r.size();
        let ctx = irctx(&c, None);
        let v = r.value(&c);
        near("npv", r.make().npv(c.val, &mut c.make()).map_err(e2f)?, v, 1e-13, tol)?;
        near("mtm", r.make().mtm(&ctx).map_err(e2f)?.value, v, 1e-13, tol)?;
        near("gamma", r.make().gamma(&ctx, *bp, RateShiftMode::Zeros).map_err(e2f)?, r.value(&c.bumped(*bp)) + r.value(&c.bumped(-bp)) - 2.0 * v, 1e-12, 8.0 * tol)?;
        seen_as(empty, if empty { "a period without days" } else { "ordinary" })
    });
    s.prop("linearity", 4000, 80000, || (raw_irs(), 0.1f64..20.0), |(r, k)| {
        if r.legs.is_empty() { return seen(false); }
        let val = |r: &RawIrs| r.make().mtm(&irctx(&r.curve, None)).map(|x| x.value).map_err(e2f);
        let v = val(r)?;
        let tol = 1e-13 * r.size();
        let flip = RawIrs { curve: r.curve.clone(), legs: r.legs.iter().map(|l| RawLeg { buy: !l.buy, ..l.clone() }).collect() };
        near("opposite directions", val(&flip)?, -v, 1e-13, tol)?;
        let scaled = RawIrs { curve: r.curve.clone(), legs: r.legs.iter().map(|l| RawLeg { notional: l.notional * k, custom: l.custom.iter().map(|x| (x.0, x.1, x.2, x.3 * k)).collect(), ..l.clone() }).collect() };
        near("scaled notional", val(&scaled)?, k * v, 1e-12, k * tol)?;
        let mut parts = 0.0;
        for l in &r.legs { parts += val(&RawIrs { curve: r.curve.clone(), legs: vec![l.clone()] })?; }
        near("sum of the legs", v, parts, 1e-12, tol)?;
        seen(r.legs.len() > 1)
    });
    s.prop("floating_leg_telescopes", 4000, 80000, || (gen_curve(), raw_leg()), |(c, l)| {
        // without spread or payment delay a generated floating leg with its principal is worth its start
        let l = RawLeg { fixed: false, rate: 0.0, pay_delay: 0, custom: vec![], conv: 0, ..l.clone() };
        if l.rows(c.val).iter().any(|x| x.0 < x.1 && counter(l.dc).year_fraction(x.0, x.1).unwrap() == 0.0) { return seen(false); }
        let r = RawIrs { curve: c.clone(), legs: vec![l.clone()] };
        let v = r.make().mtm(&irctx(c, None)).map_err(e2f)?.value;
        near("floating leg", v, l.notional * c.df(l.rows(c.val)[0].0) * if l.buy { 1.0 } else { -1.0 }, 1e-12, 1e-13 * r.size())?;
        seen(l.periods > 1)
    });
}

// ------------------------------------------------------------------ P21 / P22
fn variance(style_back: bool, sigma: f64, a: f64, b: f64) -> f64 {
    if b <= 0.0 { return 0.0; }
    let t = if !style_back { a.max(0.0) } else if a >= 0.0 { a + (b - a) / 3.0 } else { b * b * b / (3.0 * (b - a) * (b - a)) };
    sigma * sigma * t
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawCap {
    cap: bool,
    back: bool,
    buy: bool,
    usd: bool,
    notional: f64,
    strike: f64,
    dc: u8,
    first: i64,
    /// (gap, length, payment delay) in days
    periods: Vec<(i64, i64, i64)>,
}
impl RawCap {
    fn rows(&self, val: NaiveDate) -> Vec<(NaiveDate, NaiveDate, NaiveDate)> {
        let mut at = add_days(val, self.first);
        let mut v: Vec<_> = self.periods.iter().map(|(g, l, p)| { let s = add_days(at, *g); let e = add_days(s, *l); at = e; (s, e, add_days(e, *p)) }).collect();
        v.retain(|r| r.1 > val);
        v
    }
    pub fn make(&self, val: NaiveDate) -> CapFloor {
        let rows = self.rows(val);
        CapFloor {
            basic_info: BasicInfo { trade_date: add_days(val, -(self.first.rem_euclid(19))), style: Style::IRSwap, direction: dir(self.buy), expiry_date: rows.last().map_or(val, |r| r.1), delivery_date: rows.last().map_or(val, |r| r.2) },
            kind: if self.cap { CapFloorKind::Cap } else { CapFloorKind::Floor },
            style: if self.back { CapStyle::BackwardCompounded } else { CapStyle::ForwardLooking },
            currency: if self.usd { Currency::USD } else { Currency::EUR },
            notional: self.notional, strike: self.strike, valuation_date: val,
            schedule: rows.iter().map(|r| InterestRateSchedulePeriod::new(r.0, r.1, r.2, add_days(r.0, -self.first.rem_euclid(4)), 0.0, self.notional)).collect(),
            accrual_day_counter: counter(self.dc),
        }
    }
    fn value(&self, c: &GenCurve, vol: &dyn Fn(NaiveDate, f64) -> f64) -> f64 {
        let w = if self.cap { 1.0 } else { -1.0 };
        let dc = counter(self.dc);
        let sum: f64 = self.rows(c.val).iter().map(|(a, b, p)| {
            let tau = dc.year_fraction(*a, *b).unwrap();
            if tau == 0.0 { return 0.0; }
            let f = (c.df(*a) / c.df(*b) - 1.0) / tau;
            let v = variance(self.back, vol(*a, self.strike), yf365(c.val, *a), yf365(c.val, *b));
            tau * c.df(*p) * bachelier(f, self.strike, v.sqrt(), w)
        }).sum();
        sum * self.notional * if self.buy { 1.0 } else { -1.0 }
    }
    fn size(&self, val: NaiveDate) -> f64 { self.notional * self.rows(val).iter().map(|r| yf365(r.0, r.1) * 1.2).sum::<f64>() + 1e-300 }
}
pub fn raw_cap() -> impl Strategy<Value = RawCap> {
    (
        (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), prop_oneof![Just(1.0), 100.0f64..1e8], prop_oneof![6 => -0.01f64..0.1, 1 => Just(0.0)], 0u8..3),
        prop_oneof![2 => 0i64..30, 1 => -80i64..0],
        prop::collection::vec((prop_oneof![4 => Just(0i64), 1 => 0i64..40], prop_oneof![12 => 85i64..95, 4 => 5i64..380, 1 => 0i64..3], 0i64..5), 1..21),
    )
        .prop_map(|((cap, back, buy, usd, notional, strike, dc), first, periods)| RawCap { cap, back, buy, usd, notional, strike, dc, first, periods })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawVols(Vec<(i64, Vec<(f64, f64)>)>);
impl RawVols {
    pub fn make(&self, val: NaiveDate) -> IRNormalVolSurface {
        let mut s = IRNormalVolSurface::new(val);
        s.pillars = self.0.iter().map(|(n, v)| CapletVolPillar { expiry: add_days(val, *n), nodes: v.clone() }).collect();
        s
    }
    fn vol(&self, val: NaiveDate, d: NaiveDate, k: f64) -> f64 {
        let n = (d - val).num_days();
        let nodes = &self.0.iter().find(|p| p.0 >= n).unwrap_or(self.0.last().unwrap()).1;
        if k <= nodes[0].0 { return nodes[0].1; }
        for w in nodes.windows(2) {
            if k <= w[1].0 { return w[0].1 + (k - w[0].0) / (w[1].0 - w[0].0) * (w[1].1 - w[0].1); }
        }
        nodes[nodes.len() - 1].1
    }
}
pub fn raw_vols() -> impl Strategy<Value = RawVols> {
    prop::collection::vec((20i64..700, prop::collection::vec((0.001f64..0.02, 0.0005f64..0.025), 1..5), -0.02f64..0.06), 1..6).prop_map(|v| {
        let mut n = 0;
        RawVols(v.into_iter().map(|(g, nodes, k0)| { n += g; let mut k = k0; (n, nodes.into_iter().map(|(dk, s)| { k += dk; (k, s) }).collect()) }).collect())
    })
}
pub fn p21(s: &mut Suite) {
    s.rule("A case is a curve, a caplet-volatility surface and a cap or floor of 1-20 periods (either caplet style, irregular lengths and gaps, the first possibly already accruing); non-trivial when it has at least two periods.");
    s.assume("Every period ends after the valuation date.");
    s.prop("value_and_risk", 8000, 200000, || (gen_curve(), raw_cap(), raw_vols(), prop_oneof![Just(10.0), 0.1f64..100.0], prop_oneof![Just(1.0), -20.0f64..40.0], 0usize..3), |(c, r, vols, bp, vbp, m)| {
        let cap = r.make(c.val);
        let ctx = irctx(c, Some(vols.make(c.val)));
        let vol = |d: NaiveDate, k: f64| vols.vol(c.val, d, k);
        let tol = 1e-11 * r.size(c.val);
        let v = r.value(c, &vol);
        let mtm = cap.mtm(&ctx).map_err(e2f)?;
        near("value", mtm.value, v, 1e-10, tol)?;
        ensure!(mtm.currency == if r.usd { Currency::USD } else { Currency::EUR }, "currency {:?}", mtm.currency);
        near("dv01", cap.dv01(&ctx).map_err(e2f)?, r.value(&c.bumped(1.0), &vol) - v, 1e-10, 4.0 * tol)?;
        near("gamma", cap.gamma(&ctx, *bp, RateShiftMode::Zeros).map_err(e2f)?, r.value(&c.bumped(*bp), &vol) + r.value(&c.bumped(-bp), &vol) - 2.0 * v, 1e-10, 8.0 * tol)?;
        near("vega", cap.vega(&ctx, *vbp).map_err(e2f)?, r.value(c, &|d, k| vol(d, k) + vbp * 1e-4) - v, 1e-10, 4.0 * tol)?;
        ensure!(cap.gamma(&ctx, *bp, OTHER_MODES[*m]).is_err(), "an unsupported bump is accepted");
        if v.abs() > 1e6 * tol && v.abs() > 1e-11 {
            near("modified duration", cap.modified_duration(&ctx).map_err(e2f)?, -(r.value(&c.bumped(1.0), &vol) - v) * 1e4 / v, 1e-4, 1e-4 * (1.0 + r.size(c.val) / v.abs()))?;
        }
        let bare = irctx(c, None);
        ensure!(cap.mtm(&bare).is_err() && cap.dv01(&bare).is_err() && cap.vega(&bare, 1.0).is_err() && cap.gamma(&bare, 1.0, RateShiftMode::Zeros).is_err(), "valued without a surface");
        let empty = irctx(c, Some(IRNormalVolSurface::new(c.val)));
        ensure!(cap.schedule.is_empty() || cap.mtm(&empty).is_err(), "valued on an empty surface");
        seen_as(cap.schedule.len() > 1, format!("{}{}", if r.cap { "cap " } else { "floor " }, if r.back { "backward" } else { "forward" }))
    });
    s.prop("parity_and_shape", 6000, 150000, || (gen_curve(), raw_cap(), 0.0005f64..0.02, 1e-5f64..0.01), |(c, r, sig, h)| {
        let ctx = irctx(c, Some(RawVols(vec![(365, vec![(0.0, *sig)])]).make(c.val)));
        let v = |r: &RawCap| r.make(c.val).mtm(&ctx).map(|x| x.value).map_err(e2f);
        let tol = 1e-11 * r.size(c.val);
        let long = RawCap { buy: true, ..r.clone() };
        let (cap, floor) = (RawCap { cap: true, ..long.clone() }, RawCap { cap: false, ..long.clone() });
        let dc = counter(r.dc);
        let fwd: f64 = r.rows(c.val).iter().map(|(a, b, p)| { let tau = dc.year_fraction(*a, *b).unwrap(); if tau == 0.0 { return 0.0; } r.notional * c.df(*p) * (c.df(*a) / c.df(*b) - 1.0 - tau * r.strike) }).sum();
        let (vc, vf) = (v(&cap)?, v(&floor)?);
        near("cap minus floor", vc - vf, fwd, 1e-11, tol)?;
        near("sold is the opposite of bought", v(&RawCap { buy: false, ..cap.clone() })?, -vc, 1e-14, 0.0)?;
        near("linear in notional", v(&RawCap { notional: 3.0 * cap.notional, ..cap.clone() })?, 3.0 * vc, 1e-13, tol)?;
        ensure!(vc >= -tol && vf >= -tol, "a bought cap or floor is worth {vc}, {vf}");
        for (b, sgn) in [(&cap, -1.0), (&floor, 1.0)] {
            let (up, down, at) = (v(&RawCap { strike: b.strike + h, ..b.clone() })?, v(&RawCap { strike: b.strike - h, ..b.clone() })?, v(b)?);
            ensure!(sgn * (up - at) >= -tol && sgn * (at - down) >= -tol, "not monotone in strike: {down} {at} {up}");
            ensure!(up + down - 2.0 * at >= -2.0 * tol, "not convex in strike: {down} {at} {up}");
            ensure!(b.make(c.val).vega(&ctx, 5.0).map_err(e2f)? >= -tol, "falls with volatility");
        }
        // the sum of its single periods
        let rows = r.rows(c.val);
        if rows.is_empty() { return seen(false); }
        let mut sum = 0.0;
        for i in 0..rows.len() {
            let mut one = cap.make(c.val);
            one.schedule = vec![one.schedule[i]];
            sum += one.mtm(&ctx).map_err(e2f)?.value;
        }
        near("sum of the caplets", vc, sum, 1e-12, tol)?;
        seen(rows.len() > 1)
    });
    s.prop("caplet_variance", 10000, 200000, || (any::<bool>(), 0.0f64..0.05, prop_oneof![3 => -1.0f64..10.0, 1 => Just(0.0)], 0.001f64..1.5), |(back, sig, a, len)| {
        let st = if *back { CapStyle::BackwardCompounded } else { CapStyle::ForwardLooking };
        let b = a + len;
        let got = caplet_total_variance(st, *sig, *a, b);
        near("total variance", got, variance(*back, *sig, *a, b), 1e-12, 0.0)?;
        if *back && b > 0.0 {
            // the volatility decays linearly to nothing over the accrual
            let f = |t: f64| if t <= *a { sig * sig } else { (sig * (b - t) / len).powi(2) };
            let want = if *a > 0.0 { a * sig * sig + quad(f, *a, b, 4) } else { quad(f, 0.0, b, 4) };
            near("integral of the decaying variance", got, want, 1e-9, 1e-15)?;
        }
        near("scales with the square of volatility", caplet_total_variance(st, 2.0 * sig, *a, b), 4.0 * got, 1e-12, 0.0)?;
        seen(got > 0.0)
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawGrid {
    curve: GenCurve,
    first: i64,
    /// Lengths of the common caplet grid, in days.
    lens: Vec<i64>,
    pay_delay: i64,
    /// Strikes and their quoted caps, by start of the last caplet.
    columns: Vec<(f64, Vec<RawQuote>)>,
    order: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawQuote {
    /// Grid periods covered, and how many of them make one caplet (a last caplet may be shorter).
    n: usize,
    step: usize,
    /// True volatility of the caplets that start after the previous quote's last one.
    sigma: f64,
    bits: u8,
    notional: f64,
}
impl RawQuote {
    fn caplets(&self) -> impl Iterator<Item = (usize, usize)> + '_ { (0..self.n).step_by(self.step).map(|i| (i, (i + self.step).min(self.n))) }
    fn last(&self) -> usize { (self.n - 1) / self.step * self.step }
}
impl RawGrid {
    fn rows(&self) -> Vec<(NaiveDate, NaiveDate, NaiveDate)> {
        let mut at = add_days(self.curve.val, self.first);
        self.lens.iter().map(|l| { let s = at; at = add_days(s, *l); (s, at, add_days(at, self.pay_delay)) }).collect()
    }
    fn back(&self) -> bool { self.order & 2 != 0 }
    /// Caplet price per unit of notional.
    fn caplet(&self, (i, j): (usize, usize), k: f64, sigma: f64, cap: bool, dc: u8) -> f64 {
        let rows = self.rows();
        let (a, b, p) = (rows[i].0, rows[j - 1].1, rows[j - 1].2);
        let c = &self.curve;
        let tau = counter(dc).year_fraction(a, b).unwrap();
        let f = (c.df(a) / c.df(b) - 1.0) / tau;
        tau * c.df(p) * bachelier(f, k, variance(self.back(), sigma, yf365(c.val, a), yf365(c.val, b)).sqrt(), if cap { 1.0 } else { -1.0 })
    }
    fn true_vol(col: &[RawQuote], i: usize) -> f64 {
        col.iter().find(|q| i <= q.last()).map(|q| q.sigma).unwrap()
    }
    fn npv(&self, k: f64, q: &RawQuote, vol: &dyn Fn(usize) -> f64) -> f64 {
        let w = if q.bits & 2 == 0 { 1.0 } else { -1.0 };
        w * q.notional * q.caplets().map(|x| self.caplet(x, k, vol(x.0), q.bits & 1 == 0, q.bits >> 2)).sum::<f64>()
    }
    fn slope(&self, k: f64, q: &RawQuote, x: (usize, usize), s: f64) -> f64 {
        let h = 1e-6;
        let v = |s: f64| self.caplet(x, k, s, q.bits & 1 == 0, q.bits >> 2);
        ((v(s + h) - v(s - h)) / (2.0 * h)).abs()
    }
    /// Error bound of each stripped caplet volatility, the solver stopping on a price or volatility error of 1e-10.
    fn errors(&self) -> Vec<Vec<f64>> {
        self.columns.iter().map(|(k, col)| {
            let mut err = vec![0.0; self.lens.len()];
            let mut from = 0;
            // of quotes that end in the same caplet start, any one may be the one that is solved
            for same in col.chunk_by(|a, b| a.last() == b.last()) {
              let mut worst: f64 = 0.0;
              let last = same[0].last();
              for q in same {
                let own: f64 = q.caplets().filter(|x| x.0 >= from).map(|x| self.slope(*k, q, x, Self::true_vol(col, x.0))).sum();
                let carried: f64 = q.caplets().filter(|x| x.0 < from).map(|x| err[x.0] * self.slope(*k, q, x, Self::true_vol(col, x.0))).sum();
                let tau: f64 = self.rows()[..q.n].iter().map(|r| yf365(r.0, r.1)).sum();
                let e = 1e-9 + (1e-9 / q.notional.max(1.0) + 1e-10 * tau + 2.0 * carried) / own.max(1e-300);
                worst = worst.max(e.min(0.1));
              }
              for x in err.iter_mut().take(last + 1).skip(from) { *x = worst; }
              from = last + 1;
            }
            err
        }).collect()
    }
    fn quotes(&self) -> Vec<CapQuote> {
        let rows = self.rows();
        let mut v = vec![];
        for (k, col) in &self.columns {
            for q in col {
                v.push(CapQuote {
                    strike: *k, notional: q.notional, direction: dir(q.bits & 2 == 0), kind: if q.bits & 1 == 0 { CapFloorKind::Cap } else { CapFloorKind::Floor },
                    style: if self.back() { CapStyle::BackwardCompounded } else { CapStyle::ForwardLooking }, currency: Currency::EUR,
                    schedule: q.caplets().map(|(i, j)| InterestRateSchedulePeriod::new(rows[i].0, rows[j - 1].1, rows[j - 1].2, add_days(rows[i].0, -(q.bits as i64 % 4)), 0.0, q.notional)).collect(),
                    accrual_day_counter: counter(q.bits >> 2), market_npv: self.npv(*k, q, &|i| Self::true_vol(col, i)),
                });
            }
        }
        let mut x = self.order | 1;
        for i in (1..v.len()).rev() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.swap(i, (x >> 33) as usize % (i + 1));
        }
        v
    }
}
fn raw_grid() -> BoxedStrategy<RawGrid> {
    (gen_curve(), prop_oneof![Just(2i64), 0i64..95], prop_oneof![3 => prop::collection::vec(85i64..95, 1..13), 1 => prop::collection::vec(prop_oneof![3 => 20i64..380, 1 => 1i64..20], 1..9)], 0i64..4, any::<u64>(), prop_oneof![2 => Just(false), 1 => Just(true)])
        .prop_flat_map(|(curve, first, lens, pay_delay, order, mixed)| {
            let n = lens.len();
            let level = curve.pillars[0].1;
            let quote = (0.0015f64..0.02, 0u8..12, prop_oneof![Just(1.0), 1.0f64..1e7], prop_oneof![Just(1usize), Just(2), Just(4)]);
            let col = prop::collection::btree_map(1..=n, quote, 1..5)
                .prop_map(move |m| {
                    let mut v: Vec<RawQuote> = m.into_iter().map(|(n, (sigma, bits, notional, step))| RawQuote { n, step: if mixed { step } else { 1 }, sigma, bits, notional }).collect();
                    v.sort_by_key(|q| q.last());
                    v
                });
            prop::collection::vec((prop_oneof![5 => 0.0005f64..0.012, 1 => (-7.0f64..-3.3).prop_map(|x| 10f64.powf(x))], col), 1..4).prop_map(move |cols| {
                let mut k = level - 0.012;
                RawGrid { curve: curve.clone(), first, lens: lens.clone(), pay_delay, columns: cols.into_iter().map(|(dk, c)| { k += dk; (k, c) }).collect(), order }
            })
        })
        .boxed()
}
pub fn p22(s: &mut Suite) {
    s.rule("A case is a curve and one to three strikes, each quoted for one to four maturities and one to three payment frequencies of a common caplet grid (grids usually ragged), with prices from generated true volatilities, quotes in any order; non-trivial when at least two quotes are stripped.");
    s.assume("Prices come from true volatilities of 15 to 200 basis points, inside the 0.1 to 1000 basis points the stripper searches.");
    s.prop("reprice", 6000, 60000, raw_grid, |g| {
        let c = &g.curve;
        let md = IRCapMarketData::new(c.val, g.quotes());
        let mut surface = IRNormalVolSurface::new(add_days(c.val, 7));
        surface.pillars = vec![CapletVolPillar { expiry: c.val, nodes: vec![(0.0, 0.5)] }];
        let errs = g.errors();
        let rebuilt = guarded(|| surface.rebuild(&c.make(), &md)).map_err(|e| format!("stripping panics: {e}"))?;
        if let Err(e) = rebuilt {
            // a price that hardly depends on the volatility may leave the solver without a bracket
            ensure!(errs.iter().flatten().any(|e| *e > 1e-6), "stripping fails: {e}");
            return seen_as(false, "undetermined");
        }
        ensure!(surface.valuation_date == c.val, "valuation date is {}", surface.valuation_date);
        let rows = g.rows();
        let mut want: Vec<NaiveDate> = g.columns.iter().flat_map(|(_, col)| col.iter().map(|q| rows[q.last()].0)).collect();
        want.sort();
        want.dedup();
        ensure!(surface.pillars.iter().map(|p| p.expiry).collect::<Vec<_>>() == want, "pillars at {:?}, expected {want:?}", surface.pillars.iter().map(|p| p.expiry).collect::<Vec<_>>());
        for p in &surface.pillars { ensure!(p.nodes.iter().map(|n| n.0).eq(g.columns.iter().map(|c| c.0)), "strikes {:?}", p.nodes); }
        let mut quotes = 0;
        for (x, (k, col)) in g.columns.iter().enumerate() {
            let lookup = |i: usize| surface.caplet_volatility(rows[i].0, *k).unwrap_or(f64::NAN);
            // a volatility its own quote leaves undetermined does not carry over to caplets of another length
            if col.iter().any(|q| q.step > 1) && errs[x].iter().any(|e| *e > 1e-6) { continue; }
            for q in col {
                quotes += 1;
                let npv = g.npv(*k, q, &lookup);
                let tau: f64 = (0..q.n).map(|i| yf365(rows[i].0, rows[i].1)).sum();
                // a quote that adds no caplet start is repriced through the others' volatilities
                let follows: f64 = q.caplets().map(|y| errs[x][y.0] * g.slope(*k, q, y, RawGrid::true_vol(col, y.0))).sum();
                let shared = col.iter().filter(|o| o.last() == q.last()).count() > 1;
                near(&format!("price of the {}-period quote at {k}", q.n), npv, g.npv(*k, q, &|i| RawGrid::true_vol(col, i)), 0.0, 1e-9 + 2e-9 * q.notional * tau + if shared { 4.0 * q.notional * follows } else { 0.0 })?;
            }
            for i in 0..=col[col.len() - 1].last() {
                let e = errs[x][i];
                if e < 1e-4 && errs[x][..i].iter().all(|e| *e < 1e-6) { near(&format!("volatility of caplet {i} at strike {k}"), lookup(i), RawGrid::true_vol(col, i), 0.0, e)?; }
                ensure!(lookup(i) > 0.0, "volatility {}", lookup(i));
            }
        }
        let first = &g.columns[0].1;
        let label = if g.columns.iter().flat_map(|c| &c.1).any(|q| q.step > 1) { "mixed frequencies" } else if g.columns.iter().all(|c| c.1.iter().map(|q| q.n).eq(first.iter().map(|q| q.n))) { "rectangular" } else { "ragged" };
        seen_as(quotes > 1, label)
    });
    s.prop("lookup", 10000, 200000, || (edgy_date(1996, 2055), raw_vols(), any::<u16>(), -0.05f64..0.2, any::<u8>()), |(val, v, p, k, at)| {
        let s = v.make(*val);
        let n = *p as i64 % (v.0.last().unwrap().0 * 5 / 4 + 3);
        let mut days = vec![n];
        days.extend(v.0.iter().flat_map(|x| [x.0 - 1, x.0, x.0 + 1]));
        let node = &v.0[*at as usize % v.0.len()];
        for d in days {
            let d = add_days(*val, d);
            for k in [*k, node.1[0].0, node.1[node.1.len() - 1].0, 0.5 * (node.1[0].0 + node.1[node.1.len() - 1].0)] {
                near(&format!("volatility at {k} on {d}"), s.caplet_volatility(d, k).map_err(e2f)?, v.vol(*val, d, k), 1e-12, 1e-15)?;
            }
        }
        ensure!(IRNormalVolSurface::new(*val).caplet_volatility(add_days(*val, n), *k).is_err(), "an empty surface answers");
        seen(v.0.len() > 1)
    });
    s.prop("bad_quotes", 2000, 30000, || (raw_grid(), any::<u8>()), |(g, kind)| {
        let mut g = g.clone();
        for (_, col) in &mut g.columns {
            for q in col.iter_mut() { q.step = 1; }
            col.sort_by_key(|q| q.n);
        }
        let mut q = g.quotes();
        let i = *kind as usize % q.len();
        let what = match kind % 3 {
            0 => { q[i].schedule.clear(); "no caplets" }
            1 => { q[i].market_npv = q[i].direction as i8 as f64 * q[i].notional * 50.0; "unattainable price" }
            _ => { q[i].market_npv = -(q[i].direction as i8 as f64) * q[i].notional; "negative price" }
        };
        let mut s = IRNormalVolSurface::new(g.curve.val);
        let r = guarded(|| s.rebuild(&g.curve.make(), &IRCapMarketData::new(g.curve.val, q))).map_err(|e| format!("{what}: panics: {e}"))?;
        ensure!(r.is_err(), "{what}: accepted as {:?}", s.pillars);
        ensure!(s.pillars.is_empty(), "a failed strip leaves pillars behind");
        seen_as(true, what)
    });
}
#[allow(dead_code)]
fn dc(i: u8) -> Box<dyn DayCounters> { counter(i) }
