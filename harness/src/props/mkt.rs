//! Generators and independent evaluators shared by the market and derivative checks.
use super::util::*;
use chrono::{Datelike, NaiveDate};
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::businessdayconvention::BusinessDayConvention as Bdc;
use finquant::time::calendars::*;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::thirty360::Thirty360;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
use iso_currency::Currency;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const STEP: InterpolationMethodEnum = InterpolationMethodEnum::StepFunctionForward;
pub const LINEAR: InterpolationMethodEnum = InterpolationMethodEnum::PiecewiseLinearContinuous;

pub const PAIRS: &[&str] = &["EURGBP","EURUSD","EURCAD","EURJPY","EURCHF","EURNOK","EURSEK","EURAUD","EURNZD","EURDKK","EURPLN","EURHUF","EURCZK","EURRON","GBPUSD","GBPCAD","GBPJPY","GBPAUD","GBPNZD","GBPCHF","GBPNOK","GBPSEK","AUDUSD","NZDUSD","USDCHF","USDNOK","USDSEK","USDJPY","USDSGD","USDHKD","USDCNY","USDPLN","USDHUF","USDCZK","USDZAR","USDKRW","USDINR","USDBRL","USDDKK","USDIDR","USDTWD","USDTHB","USDILS","USDRON","USDCAD","USDMXN","USDTRY","USDRUB","AUDNZD","AUDCAD","AUDCHF","AUDJPY","AUDSGD","NZDCAD","NZDCHF","NZDJPY","NZDSGD","CADJPY","CHFJPY","CADCHF"];
pub fn pair_lag(p: &str) -> i64 {
    if ["USDCAD", "USDMXN", "USDTRY", "USDRUB"].contains(&p) { 1 } else { 2 }
}
pub fn points_per_unit(p: &str) -> f64 {
    if &p[3..] == "JPY" { 100.0 } else { 10000.0 }
}
/// Pairs, weighted so that the special cases (T+1, JPY) turn up often.
pub fn any_pair() -> impl Strategy<Value = usize> {
    prop_oneof![
        6 => 0..PAIRS.len(),
        1 => Just(PAIRS.iter().position(|p| *p == "USDCAD").unwrap()),
        1 => Just(PAIRS.iter().position(|p| *p == "USDJPY").unwrap()),
        2 => Just(PAIRS.iter().position(|p| *p == "EURUSD").unwrap()),
    ]
}
pub fn yf365(a: NaiveDate, b: NaiveDate) -> f64 {
    (b - a).num_days() as f64 / 365.0
}

// ------------------------------------------------------------------ curves
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenCurve {
    pub val: NaiveDate,
    /// (calendar days after valuation, zero rate, hidden), strictly increasing in days.
    pub pillars: Vec<(i64, f64, bool)>,
}
impl GenCurve {
    pub fn stripped(&self) -> Vec<StrippedCurve> {
        self.pillars
            .iter()
            .map(|(n, z, h)| StrippedCurve {
                first_settle_date: self.val,
                date: add_days(self.val, *n),
                market_rate: *z,
                zero_rate: *z,
                discount: (-z * *n as f64 / 365.0).exp(),
                source: InterestRateQuoteEnum::OIS,
                hidden_pillar: *h,
            })
            .collect()
    }
    pub fn make(&self) -> YieldTermStructure {
        YieldTermStructure::new(small_cal(self.val.day() as u8), counter((self.val.day() / 4) as u8), self.val, self.stripped())
    }
    pub fn bumped(&self, bp: f64) -> GenCurve {
        GenCurve { val: self.val, pillars: self.pillars.iter().map(|(n, z, h)| (*n, z + bp * 1e-4, *h)).collect() }
    }
    pub fn zero(&self, d: NaiveDate) -> f64 {
        zero_ref(self.val, &self.stripped(), d)
    }
    pub fn df(&self, d: NaiveDate) -> f64 {
        (-self.zero(d) * yf365(self.val, d)).exp()
    }
}
/// Zero rate at the end of day `d`: straight line between the visible pillars, flat outside them.
pub fn zero_ref(_val: NaiveDate, pillars: &[StrippedCurve], d: NaiveDate) -> f64 {
    let vis: Vec<&StrippedCurve> = pillars.iter().filter(|p| !p.hidden_pillar).collect();
    let x = add_days(d, 1);
    if x <= vis[0].date {
        return vis[0].zero_rate;
    }
    if x >= vis[vis.len() - 1].date {
        return vis[vis.len() - 1].zero_rate;
    }
    let i = (1..vis.len()).find(|i| vis[*i].date >= x).unwrap();
    let (a, b) = (vis[i - 1], vis[i]);
    let w = (x - a.date).num_days() as f64 / (b.date - a.date).num_days() as f64;
    a.zero_rate + w * (b.zero_rate - a.zero_rate)
}
pub fn df_ref(val: NaiveDate, pillars: &[StrippedCurve], d: NaiveDate) -> f64 {
    (-zero_ref(val, pillars, d) * yf365(val, d)).exp()
}
pub fn gen_curve_at(val: NaiveDate) -> BoxedStrategy<GenCurve> {
    (
        prop::collection::vec((prop_oneof![1 => 1i64..12, 2 => 12i64..120, 2 => 120i64..900], -0.012f64..0.012, prop::bool::weighted(0.2)), 1..8),
        -0.01f64..0.09,
    )
        .prop_map(move |(v, base)| {
            let mut n = 0;
            let mut p: Vec<(i64, f64, bool)> = v.iter().map(|(g, dz, h)| { n += g; (n, base + dz, *h) }).collect();
            if p.iter().all(|x| x.2) {
                p[0].2 = false;
            }
            GenCurve { val, pillars: p }
        })
        .boxed()
}
pub fn gen_curve() -> BoxedStrategy<GenCurve> {
    edgy_date(1995, 2060).prop_flat_map(gen_curve_at).boxed()
}

// ------------------------------------------------------------------ raw interest-rate quotes
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawCash {
    pub tenor: Period,
    pub value: f64,
    pub lag: i64,
    pub cal: u8,
    pub act360: bool,
    pub modified: bool,
}
pub fn small_cal(i: u8) -> Box<dyn Calendar> {
    match i % 4 {
        0 => Box::new(Target),
        1 => Box::new(UnitedKingdom::default()),
        2 => Box::new(UnitedStates::default()),
        _ => Box::new(Japan),
    }
}
pub fn counter(i: u8) -> Box<dyn DayCounters> {
    match i % 3 {
        0 => Box::new(Actual360),
        1 => Box::new(Actual365Fixed::default()),
        _ => Box::new(Thirty360::default()),
    }
}
impl RawCash {
    pub fn make(&self) -> OISRate {
        OISRate {
            value: self.value,
            interest_rate_index: InterestRateIndex {
                period: self.tenor,
                settlement_days: self.lag,
                currency: Currency::EUR,
                calendar: small_cal(self.cal),
                convention: if self.modified { Bdc::ModifiedFollowing } else { Bdc::Following },
                day_counter: counter(if self.act360 { 0 } else { 1 }),
                end_of_month: false,
            },
        }
    }
    pub fn dates(&self, val: NaiveDate) -> (NaiveDate, NaiveDate) {
        let c = small_cal(self.cal);
        let b = if self.modified { Bdc::ModifiedFollowing } else { Bdc::Following };
        let s = c.advance(val, Period::Days(self.lag), b, Some(false)).unwrap().unwrap();
        (s, c.advance(s, self.tenor, b, Some(false)).unwrap().unwrap())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawSwap {
    pub years: u32,
    pub coupon: f64,
    pub notional: f64,
    pub receive: bool,
    pub fixed_freq: u8,
    pub float_freq: u8,
    pub fixed_dc: u8,
    pub float_dc: u8,
    pub spread: f64,
    pub cal: u8,
    pub lag: i64,
    pub pay_delay: i64,
    pub reset_lag: i64,
    pub month_units: u8,
}
pub fn freq(i: u8) -> (Frequency, u32) {
    match i % 4 {
        0 => (Frequency::Annual, 12),
        1 => (Frequency::Semiannual, 6),
        2 => (Frequency::Quarterly, 3),
        _ => (Frequency::Monthly, 1),
    }
}
impl RawSwap {
    fn detail(&self, f: u8, dc: u8, unit: u8) -> ScheduleDetail {
        let (fr, months) = freq(f);
        let tenor = if months == 12 && unit & 1 == 0 { Period::Years(1) } else { Period::Months(months) };
        let duration = if unit & 2 == 0 { Period::Years(self.years) } else { Period::Months(12 * self.years) };
        ScheduleDetail::new(fr, tenor, duration, counter(dc), small_cal(self.cal), Bdc::ModifiedFollowing, self.lag, self.pay_delay, self.reset_lag)
    }
    fn index(&self) -> InterestRateIndex {
        let mut i = InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(3))).unwrap();
        i.settlement_days = self.lag;
        i
    }
    pub fn leg(&self, fixed: bool) -> InterestRateSwapLeg {
        let buy = fixed == self.receive;
        let (kind, d) = if fixed {
            (InterestRateSwapLegType::Fixed { coupon: self.coupon }, self.detail(self.fixed_freq, self.fixed_dc, self.month_units))
        } else {
            (InterestRateSwapLegType::Float { spread: self.spread }, self.detail(self.float_freq, self.float_dc, self.month_units >> 2))
        };
        InterestRateSwapLeg::new(kind, if buy { Direction::Buy } else { Direction::Sell }, self.index(), self.notional, d, vec![])
    }
    pub fn make(&self) -> InterestRateSwap {
        InterestRateSwap::new(vec![self.leg(true), self.leg(false)])
    }
    /// (start, end, pay, reset) rows, generated from the calendar alone.
    pub fn rows(&self, val: NaiveDate, fixed: bool) -> Vec<(NaiveDate, NaiveDate, NaiveDate, NaiveDate)> {
        let (_, months) = freq(if fixed { self.fixed_freq } else { self.float_freq });
        let c = small_cal(self.cal);
        let b = Bdc::ModifiedFollowing;
        let eff = c.advance(val, Period::Days(self.lag), b, Some(false)).unwrap().unwrap();
        let mut start = eff;
        (1..=self.years * 12 / months)
            .map(|n| {
                let end = c.advance(eff, Period::Months(n * months), b, Some(false)).unwrap().unwrap();
                let pay = c.advance(end, Period::Days(self.pay_delay), b, Some(false)).unwrap().unwrap();
                let reset = c.advance(start, Period::Days(-self.reset_lag), b, Some(false)).unwrap().unwrap();
                let r = (start, end, pay, reset);
                start = end;
                r
            })
            .collect()
    }
    pub fn maturity(&self, val: NaiveDate) -> NaiveDate {
        self.rows(val, true).last().unwrap().1.max(self.rows(val, false).last().unwrap().1)
    }
    /// Value of one leg per unit notional and positive sign: coupons plus the final principal.
    pub fn leg_value(&self, val: NaiveDate, fixed: bool, df: &dyn Fn(NaiveDate) -> f64) -> f64 {
        let rows = self.rows(val, fixed);
        let dc = counter(if fixed { self.fixed_dc } else { self.float_dc });
        let mut v = 0.0;
        for (s, e, p, _) in &rows {
            let tau = dc.year_fraction(*s, *e).unwrap();
            let amount = if fixed { self.coupon * tau } else { df(*s) / df(*e) - 1.0 + self.spread * tau };
            v += amount * df(*p);
        }
        v + df(rows.last().unwrap().2)
    }
    pub fn value(&self, val: NaiveDate, df: &dyn Fn(NaiveDate) -> f64) -> f64 {
        let s = if self.receive { 1.0 } else { -1.0 };
        self.notional * s * (self.leg_value(val, true, df) - self.leg_value(val, false, df))
    }
}
pub fn raw_swap(years: impl Strategy<Value = u32>, level: f64) -> impl Strategy<Value = RawSwap> {
    (
        (years, -0.004f64..0.004, prop_oneof![Just(1.0), 100.0f64..1e7], any::<bool>()),
        (0u8..3, 0u8..4, 0u8..3, 0u8..3, prop_oneof![2 => Just(0.0), 1 => -0.002f64..0.002]),
        (0u8..4, 0i64..3, prop_oneof![2 => Just(0i64), 1 => 1i64..4], 0i64..3, 0u8..16),
    )
        .prop_map(move |((years, dc, notional, receive), (fixed_freq, float_freq, fixed_dc, float_dc, spread), (cal, lag, pay_delay, reset_lag, month_units))| RawSwap {
            years, coupon: level + dc, notional, receive, fixed_freq, float_freq, fixed_dc, float_dc, spread, cal, lag, pay_delay, reset_lag, month_units,
        })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawFuture {
    pub start: NaiveDate,
    pub price: f64,
    pub convexity: f64,
}
impl RawFuture {
    pub fn code(&self) -> String {
        format!("{}{}", "FGHJKMNQUVXZ".as_bytes()[self.start.month0() as usize] as char, self.start.year() % 10)
    }
    pub fn make(&self) -> FuturesRate {
        FuturesRate {
            value: self.price,
            imm_code: self.code(),
            convexity_adjustment: self.convexity,
            futures_spec: InterestRateFutures::new(Period::Months(3)),
            interest_rate_index: InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(3))).unwrap(),
        }
    }
    /// The IMM date three months on.
    pub fn end(&self) -> NaiveDate {
        let t = Target.advance(self.start, Period::Months(3), Bdc::ModifiedFollowing, Some(false)).unwrap().unwrap();
        third_wednesday(t.year(), t.month())
    }
}
pub fn third_wednesday(y: i32, m: u32) -> NaiveDate {
    let first = ymd(y, m, 1).weekday().num_days_from_monday() as i64;
    add_days(ymd(y, m, 1), (2 - first).rem_euclid(7) + 14)
}
/// Quotes of one market, maturities increasing across cash, futures and swaps.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawIr {
    pub val: NaiveDate,
    pub cash: Vec<RawCash>,
    pub futures: Vec<RawFuture>,
    pub swaps: Vec<RawSwap>,
}
impl RawIr {
    pub fn make(&self) -> YieldTermMarketData {
        YieldTermMarketData::new(self.val, self.cash.iter().map(|c| c.make()).collect(), self.futures.iter().map(|f| f.make()).collect(), self.swaps.iter().map(|w| w.make()).collect())
    }
}
pub fn raw_ir_at(val: NaiveDate) -> BoxedStrategy<RawIr> {
    let tenors = prop_oneof![
        Just(Period::Days(1)), Just(Period::Weeks(1)), Just(Period::Weeks(2)), Just(Period::Months(1)), Just(Period::Months(2)), Just(Period::Months(3)), Just(Period::Months(6)), Just(Period::Months(9)), Just(Period::Years(1)),
    ];
    (-0.008f64..0.08)
        .prop_flat_map(move |level| {
            (
                prop::collection::vec((tenors.clone(), -0.004f64..0.004, 0i64..3, 0u8..4, any::<bool>(), any::<bool>()), 0..6),
                (0u32..4, 1u32..4, prop::collection::vec((-0.4f64..0.4, prop_oneof![Just(0.0), -0.03f64..0.0]), 0..9)),
                prop::collection::vec((1u32..8, 0usize..1), 0..5).prop_flat_map(move |gaps| {
                    let mut y = 0;
                    let v: Vec<_> = gaps.into_iter().map(|(g, _)| { y += g; raw_swap(Just(y), level) }).collect();
                    v
                }),
                any::<bool>(),
            )
                .prop_map(move |(cash, (off, step, fut), swaps, same_market)| {
                    let mut cash: Vec<RawCash> = cash.into_iter().map(|(tenor, d, lag, cal, act360, modified)| RawCash { tenor, value: level + d, lag: if same_market { 2 } else { lag }, cal: if same_market { 0 } else { cal }, act360, modified }).collect();
                    if cash.is_empty() && (swaps.is_empty() || !fut.is_empty()) {
                        cash.push(RawCash { tenor: Period::Months(3), value: level, lag: 2, cal: 0, act360: true, modified: true });
                    }
                    let last = cash.iter().map(|c| c.dates(val).1).max().unwrap_or(val);
                    let mut futures = vec![];
                    let mut seen = last;
                    for (k, (dp, cv)) in fut.iter().enumerate() {
                        let m = add_months(ymd(val.year(), val.month(), 1), (off + step * k as u32) as i64 + 1);
                        let f = RawFuture { start: third_wednesday(m.year(), m.month()), price: 100.0 * (1.0 - level) + dp, convexity: *cv };
                        // a futures code carries one digit of the year
                        if f.end() > seen && (f.start - val).num_days() < 3500 {
                            seen = f.end();
                            futures.push(f);
                        }
                    }
                    let mut kept = vec![];
                    for w in swaps {
                        if w.maturity(val) > seen {
                            seen = w.maturity(val);
                            kept.push(w);
                        }
                    }
                    RawIr { val, cash, futures, swaps: kept }
                })
        })
        .boxed()
}
pub fn raw_ir() -> BoxedStrategy<RawIr> {
    edgy_date(1999, 2055).prop_flat_map(raw_ir_at).boxed()
}

// ------------------------------------------------------------------ trades
/// The details of a trade seen at `val`: dealt some time ago, delivered some days after expiry.
pub fn info(val: NaiveDate, expiry: NaiveDate, buy: bool) -> BasicInfo {
    let h = (expiry.num_days_from_ce() as i64).rem_euclid(44);
    BasicInfo { trade_date: add_days(val, -(h * h % 37)), style: Style::FXForward, direction: if buy { Direction::Buy } else { Direction::Sell }, expiry_date: expiry, delivery_date: add_days(expiry, h % 6) }
}
