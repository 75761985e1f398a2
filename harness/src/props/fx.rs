use super::mkt::*;
use super::util::*;
use crate::core::*;
use crate::ensure;
use chrono::NaiveDate;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::{FXDerivatives, FXUnderlying};
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType, black_scholes};
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle};
use finquant::error::Error;
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{CapQuote, IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::YieldTermStructure;
use finquant::time::calendars::{Calendar, Target};
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::period::Period;
use iso_currency::Currency;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn e2f(e: Error) -> Fail {
    Fail::from(format!("unexpected error: {e}"))
}
fn und(i: usize) -> FXUnderlying {
    PAIRS[i].parse().unwrap()
}
fn business(i: usize, d: NaiveDate) -> bool {
    let u = und(i);
    let c = u.calendar();
    c.is_business_day(d)
}
fn ccy(i: usize) -> (Currency, Currency) {
    (Currency::from_code(&PAIRS[i][3..]).unwrap(), Currency::from_code(&PAIRS[i][..3]).unwrap())
}

// ------------------------------------------------------------------ one pair's market
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawFx {
    pub pair: usize,
    pub val: NaiveDate,
    pub spot: f64,
    pub quotes: Vec<(Period, f64)>,
}
impl RawFx {
    fn helper(&self) -> FXForwardHelper {
        und(self.pair).forward_helper(self.val, self.spot, self.quotes.iter().map(|(tenor, value)| FXForwardQuote { tenor: *tenor, value: *value }).collect())
    }
    /// Settlement date and points of each quote, by date.
    fn dated(&self) -> Vec<(NaiveDate, f64)> {
        let u = und(self.pair);
        let mut v: Vec<_> = self.quotes.iter().map(|(t, p)| (u.settlement_date(*t, self.val).unwrap(), *p)).collect();
        v.sort_by_key(|x| x.0);
        v
    }
    /// Every admissible answer for `d` (more than one where tenors settle together), or none.
    fn points(&self, d: NaiveDate) -> Vec<f64> {
        let q = self.dated();
        if d <= self.val || q.len() < 2 {
            return vec![];
        }
        let on: Vec<f64> = q.iter().filter(|x| x.0 == d).map(|x| x.1).collect();
        if !on.is_empty() {
            return on;
        }
        let (Some(a), Some(b)) = (q.iter().map(|x| x.0).filter(|x| *x < d).max(), q.iter().map(|x| x.0).filter(|x| *x > d).min()) else { return vec![] };
        let w = (d - a).num_days() as f64 / (b - a).num_days() as f64;
        let mut out = vec![];
        for x in q.iter().filter(|x| x.0 == a) {
            for y in q.iter().filter(|x| x.0 == b) {
                out.push(x.1 + w * (y.1 - x.1));
            }
        }
        out
    }
    fn outrights(&self, d: NaiveDate) -> Vec<f64> {
        self.points(d).iter().map(|p| self.spot + p / points_per_unit(PAIRS[self.pair])).collect()
    }
    /// A date of interest: on, next to, between or beyond the settlement dates.
    pub fn date(&self, pick: u16, mode: u8) -> NaiveDate {
        let q = self.dated();
        let p = pick as i64;
        match mode % 5 {
            0 if !q.is_empty() => q[pick as usize % q.len()].0,
            1 if !q.is_empty() => add_days(q[pick as usize % q.len()].0, p % 2 * 2 - 1),
            2 | 3 if q.len() > 1 => add_days(q[0].0, p % ((q[q.len() - 1].0 - q[0].0).num_days() + 1)),
            _ => add_days(self.val, p % 4200 - 30),
        }
    }
}
fn fx_tenor() -> BoxedStrategy<Period> {
    prop_oneof![
        1 => Just(Period::ON), 1 => Just(Period::TN), 1 => Just(Period::SPOT), 1 => Just(Period::SN),
        3 => (1i64..4).prop_map(Period::Weeks),
        6 => (1u32..25).prop_map(Period::Months),
        3 => (1u32..11).prop_map(Period::Years),
        1 => (1i64..20).prop_map(Period::Days),
    ].boxed()
}
fn raw_fx_with(min: usize, max: usize) -> BoxedStrategy<RawFx> {
    (any_pair(), edgy_date(1996, 2049), prop_oneof![0.4f64..3.0, 3.0f64..200.0], prop::collection::vec((fx_tenor(), prop_oneof![4 => -0.15f64..0.15, 1 => Just(0.0), 1 => -0.001f64..0.001]), min..max))
        .prop_map(|(pair, val, spot, q)| {
            // quotes are for business days of the pair
            let u = und(pair); let cal = u.calendar();
            let mut val = val;
            while !cal.is_business_day(val) { val = add_days(val, 1); }
            let scale = spot * points_per_unit(PAIRS[pair]);
            let mut quotes: Vec<(Period, f64)> = vec![];
            for (t, v) in q {
                if !quotes.iter().any(|x| x.0 == t) { quotes.push((t, if t == Period::SPOT { 0.0 } else { v * scale })); }
            }
            RawFx { pair, val, spot, quotes }
        })
        .boxed()
}
fn raw_fx() -> BoxedStrategy<RawFx> {
    raw_fx_with(0, 9)
}
fn raw_fx_dense() -> BoxedStrategy<RawFx> {
    raw_fx_with(4, 12)
}
fn oneof(what: &str, got: f64, allowed: &[f64], rel: f64, abs: f64) -> Result<(), Fail> {
    ensure!(allowed.iter().any(|a| close(got, *a, rel, abs)), "{what}: {got}, expected one of {allowed:?}");
    Ok(())
}

// ------------------------------------------------------------------ P12
pub fn p12(s: &mut Suite) {
    s.rule("A case is a pair, a business day, a set of 0-11 distinct tenors with points of either sign in any order, and dates on, next to, between and beyond the settlement dates; non-trivial when at least one date lies strictly between two settlement dates.");
    s.assume("Settlement dates are those of FXUnderlying::settlement_date, decided by P07.");
    s.prop("interpolation", 20000, 600000, || (raw_fx(), prop::collection::vec((any::<u16>(), any::<u8>()), 6)), |(m, picks)| {
        let h = m.helper();
        let u = und(m.pair); let cal = u.calendar();
        let mut inside = false;
        for (p, mode) in picks {
            let d = m.date(*p, *mode);
            let got = h.get_forward(d, &cal).map_err(e2f)?;
            let want = m.points(d);
            match got {
                None => ensure!(want.is_empty(), "{} {d}: no answer, expected {want:?} from {:?}", PAIRS[m.pair], m.dated()),
                Some(g) => {
                    ensure!(!want.is_empty(), "{} {d}: {g} although the quotes {:?} do not reach it (valuation {})", PAIRS[m.pair], m.dated(), m.val);
                    let exact = m.dated().iter().any(|x| x.0 == d);
                    let size = m.quotes.iter().map(|q| q.1.abs()).fold(0.0, f64::max);
                    oneof(&format!("{} points on {d}", PAIRS[m.pair]), g, &want, 0.0, if exact { 0.0 } else { 1e-12 * size })?;
                    inside |= !exact;
                }
            }
        }
        seen(inside)
    });
    s.prop("order_of_quotes", 6000, 150000, || (raw_fx_dense(), any::<u64>(), any::<u16>(), any::<u8>()), |(m, seed, p, mode)| {
        let mut r = m.clone();
        let n = r.quotes.len();
        // a seeded shuffle
        let mut x = *seed | 1;
        for i in (1..n).rev() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            r.quotes.swap(i, (x >> 33) as usize % (i + 1));
        }
        let d = m.date(*p, *mode);
        let u = und(m.pair); let cal = u.calendar();
        if m.points(d).len() > 1 { return seen(false); }
        let (a, b) = (m.helper().get_forward(d, &cal).map_err(e2f)?, r.helper().get_forward(d, &cal).map_err(e2f)?);
        ensure!(a == b, "{d}: {a:?} in one order, {b:?} in another");
        seen(a.is_some())
    });
    s.prop("plain_helper_is_t_plus_two", 4000, 100000, || (raw_fx_dense(), any::<u16>(), any::<u8>()), |(m, p, mode)| {
        // FXForwardHelper::new is the T+2 helper whatever the calendar
        let h = FXForwardHelper::new(m.val, m.spot, m.quotes.iter().map(|(tenor, value)| FXForwardQuote { tenor: *tenor, value: *value }).collect());
        let u = PAIRS.iter().position(|x| *x == "EURUSD").unwrap();
        let e = RawFx { pair: u, ..m.clone() };
        if !business(u, m.val) { return seen(false); }
        let d = e.date(*p, *mode);
        let eu = und(u);
        let cal = eu.calendar();
        let got = h.get_forward(d, &cal).map_err(e2f)?;
        let want = e.points(d);
        ensure!(got.is_some() != want.is_empty(), "{d}: {got:?}, expected {want:?}");
        if let Some(g) = got { oneof("points", g, &want, 1e-12, 1e-12 * m.quotes.iter().map(|q| q.1.abs()).fold(0.0, f64::max))?; }
        seen(got.is_some())
    });
}

// ------------------------------------------------------------------ P13 / P15 / P16 markets
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mkt {
    pub fx: RawFx,
    pub dom: GenCurve,
    pub frn: GenCurve,
}
impl Mkt {
    pub fn ctx(&self) -> FxMarketContext {
        FxMarketContext::for_linear(self.fx.val, self.fx.spot, ccy(self.fx.pair), self.dom.make(), self.frn.make(), self.fx.helper()).unwrap()
    }
}
pub fn mkt() -> BoxedStrategy<Mkt> {
    raw_fx_dense().prop_flat_map(|fx| (gen_curve_at(fx.val), gen_curve_at(fx.val), Just(fx)).prop_map(|(dom, frn, fx)| Mkt { fx, dom, frn })).boxed()
}
pub fn fwd_trade(m: &Mkt, d: NaiveDate, buy: bool, base: bool, n: f64, k: f64) -> FXForward {
    let (dom, frn) = ccy(m.fx.pair);
    FXForward { basic_info: info(m.fx.val, d, buy), asset: und(m.fx.pair), notional_currency: if base { frn } else { dom }, notional_amounts: n, strike: k }
}

pub fn p13(s: &mut Suite) {
    s.rule("A case is a pair's market (spot, 4-11 forward quotes, two curves) and a forward (direction, notional currency, notional, strike, expiry on, between or beyond the quoted dates); non-trivial when the expiry is priced.");
    s.prop("value_and_risk", 15000, 400000, || (mkt(), any::<u16>(), any::<u8>(), any::<bool>(), any::<bool>(), prop_oneof![Just(1.0), 1.0f64..1e8], 0.7f64..1.4), |(m, p, mode, buy, base, n, mny)| {
        let d = m.fx.date(*p, *mode);
        let k = m.fx.spot * mny;
        let t = fwd_trade(m, d, *buy, *base, *n, k);
        let ctx = m.ctx();
        let dir = if *buy { 1.0 } else { -1.0 };
        let signed = if *base { dir * n } else { -dir * n / k };
        let (dom, frn) = ccy(m.fx.pair);
        let delta = t.delta(&ctx).map_err(e2f)?;
        ensure!(delta.currency == frn, "delta is in {:?}", delta.currency);
        near("delta", delta.value, signed, 1e-14, 0.0)?;
        ensure!(t.gamma(&ctx).map_err(e2f)? == 0.0 && t.vega(&ctx).map_err(e2f)? == 0.0, "gamma or vega is not zero");
        let f = m.fx.outrights(d);
        match t.mtm(&ctx) {
            Err(Error::TradeExpired(_)) => { ensure!(f.is_empty(), "{d} is not priced although the outright is {f:?}"); seen(false) }
            Err(e) => Err(e2f(e)),
            Ok(v) => {
                ensure!(!f.is_empty(), "{d} is priced at {v:?} although the quotes {:?} do not reach it (valuation {})", m.fx.dated(), m.fx.val);
                ensure!(v.currency == dom, "value is in {:?}", v.currency);
                let want: Vec<f64> = f.iter().map(|f| signed * (f - k) * m.dom.df(d)).collect();
                oneof(&format!("{} forward value", PAIRS[m.fx.pair]), v.value, &want, 0.0, 1e-12 * n.max(signed.abs()) * (m.fx.spot + k))?;
                seen_as(true, if *base { "foreign notional" } else { "domestic notional" })
            }
        }
    });
    s.prop("fair_strike_and_linearity", 6000, 150000, || (mkt(), any::<u16>(), any::<bool>(), 1.0f64..1e6, 0.7f64..1.4, 1.0f64..50.0), |(m, p, base, n, mny, c)| {
        let d = m.fx.date(*p, 2);
        let f = m.fx.outrights(d);
        if f.len() != 1 { return seen(false); }
        let ctx = m.ctx();
        let v = |buy: bool, n: f64, k: f64| fwd_trade(m, d, buy, *base, n, k).mtm(&ctx).map(|x| x.value).map_err(e2f);
        near("value at the outright", v(true, *n, f[0])?, 0.0, 0.0, 1e-12 * n * (1.0 + f[0]))?;
        let k = m.fx.spot * mny;
        let one = v(true, *n, k)?;
        near("linear in notional", v(true, c * n, k)?, c * one, 1e-12, 1e-12 * n * m.fx.spot)?;
        near("odd in direction", v(false, *n, k)?, -one, 1e-14, 0.0)?;
        seen(true)
    });
}

// ------------------------------------------------------------------ P14
fn inv_ncdf(p: f64) -> f64 {
    let (mut a, mut b) = (-12.0, 12.0);
    for _ in 0..200 {
        let m = 0.5 * (a + b);
        if ncdf(m) < p { a = m } else { b = m }
    }
    0.5 * (a + b)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawSmile {
    pub days: i64,
    pub forward: f64,
    atm: f64,
    /// (delta, risk reversal, butterfly, style)
    wings: Vec<(f64, f64, f64, u8)>,
    order: u64,
}
impl RawSmile {
    fn t(&self) -> f64 { self.days as f64 / 365.0 }
    fn call_put(&self, w: &(f64, f64, f64, u8)) -> (f64, f64) {
        (self.atm + w.2 + 0.5 * w.1, self.atm + w.2 - 0.5 * w.1)
    }
    fn quotes(&self) -> Vec<FXVolQuote> {
        let mut q = vec![FXVolQuote::Atm(self.atm)];
        for w in &self.wings {
            let (c, p) = self.call_put(w);
            let direct = [FXVolQuote::Call { delta: w.0, vol: c }, FXVolQuote::Put { delta: w.0, vol: p }];
            match w.3 % 3 {
                0 => q.extend([FXVolQuote::RiskReversal { delta: w.0, vol: w.1 }, FXVolQuote::Butterfly { delta: w.0, vol: w.2 }]),
                1 => q.extend(direct),
                // direct quotes win over the combinations
                _ => q.extend([FXVolQuote::RiskReversal { delta: w.0, vol: w.1 + 0.01 }, direct[0], FXVolQuote::Butterfly { delta: w.0, vol: w.2 + 0.02 }, direct[1]]),
            }
        }
        let mut x = self.order | 1;
        for i in (1..q.len()).rev() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            q.swap(i, (x >> 33) as usize % (i + 1));
        }
        q
    }
    fn pillar(&self, val: NaiveDate) -> FXDeltaVolPillar {
        FXDeltaVolPillar { expiry: add_days(val, self.days), forward: self.forward, quotes: self.quotes() }
    }
    /// (strike, vol, signed d1) of every quote, from low strikes to high.
    fn nodes(&self) -> Vec<(f64, f64, f64)> {
        let st = self.t().sqrt();
        let k = |d1: f64, v: f64| (self.forward * (0.5 * v * v * self.t() - d1 * v * st).exp(), v, d1);
        let mut w = self.wings.clone();
        w.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let mut out: Vec<_> = w.iter().map(|w| k(-inv_ncdf(w.0), self.call_put(w).1)).collect();
        out.push(k(0.0, self.atm));
        out.extend(w.iter().rev().map(|w| k(inv_ncdf(w.0), self.call_put(w).0)));
        out
    }
    /// Smallest log-strike gap relative to the smile's width.
    fn gap(&self) -> f64 {
        let n = self.nodes();
        n.windows(2).map(|w| (w[1].0 / w[0].0).ln() / (self.atm * self.t().sqrt())).fold(f64::INFINITY, f64::min)
    }
    fn vol(&self, strike: f64) -> f64 {
        let n = self.nodes();
        let (lo, mid, hi) = (0, self.wings.len(), n.len() - 1);
        let x = |k: f64| ncdf((self.forward / k).ln() / (1.5 * self.atm * self.t().sqrt()));
        // Lagrange form of the parabola through the three anchors
        let par = |k: f64| {
            let z = x(k);
            let a: Vec<(f64, f64)> = [lo, mid, hi].iter().map(|i| (x(n[*i].0), n[*i].1)).collect();
            (0..3).map(|i| { let (j, l) = ((i + 1) % 3, (i + 2) % 3); a[i].1 * (z - a[j].0) * (z - a[l].0) / ((a[i].0 - a[j].0) * (a[i].0 - a[l].0)) }).sum::<f64>()
        };
        let l = (strike / self.forward).ln();
        let mut v = par(strike);
        for i in 0..n.len() - 1 {
            let (a, b) = ((n[i].0 / self.forward).ln(), (n[i + 1].0 / self.forward).ln());
            if l >= a && l <= b {
                let r = |j: usize| if j == lo || j == mid || j == hi { 0.0 } else { n[j].1 - par(n[j].0) };
                v += r(i) + (r(i + 1) - r(i)) * (l - a) / (b - a);
                break;
            }
        }
        v
    }
    fn strike(&self, z: f64) -> f64 { self.forward * (z * self.atm * self.t().sqrt()).exp() }
}
fn raw_smile(days: impl Strategy<Value = i64>) -> impl Strategy<Value = RawSmile> {
    (
        days, prop_oneof![0.5f64..2.0, 2.0f64..180.0], prop_oneof![4 => 0.03f64..0.35, 1 => 0.005f64..0.03],
        prop::collection::btree_map(prop_oneof![3 => Just(25u32), 3 => Just(10), 1 => Just(15), 1 => Just(5), 1 => Just(35), 1 => 1u32..50], (-0.3f64..0.3, prop_oneof![4 => 0.0f64..0.12, 1 => -0.05f64..0.0], any::<u8>()), 1..5),
        any::<u64>(),
    )
        .prop_map(|(days, forward, atm, w, order)| {
            // wings that widen as delta falls
            let wings = w.into_iter().map(|(d, (rr, bf, st))| { let d = d as f64 / 100.0; let s = (0.5 - d) * 2.0; (d, rr * atm * s, bf * atm * s, st) }).collect();
            RawSmile { days, forward, atm, wings, order }
        })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawSurface { pub val: NaiveDate, pub smiles: Vec<RawSmile> }
impl RawSurface {
    pub fn pillars(&self) -> Vec<FXDeltaVolPillar> { self.smiles.iter().map(|x| x.pillar(self.val)).collect() }
    fn sorted(&self) -> Vec<&RawSmile> { let mut v: Vec<_> = self.smiles.iter().collect(); v.sort_by_key(|x| x.days); v }
    fn gap(&self) -> f64 { self.smiles.iter().map(|x| x.gap()).fold(f64::INFINITY, f64::min) }
    fn vol(&self, days: i64, strike: f64) -> f64 {
        let v = self.sorted();
        let i = v.partition_point(|x| x.days < days);
        if i == v.len() { return v[i - 1].vol(strike); }
        if v[i].days == days || i == 0 { return v[i].vol(strike); }
        let (a, b) = (v[i - 1], v[i]);
        let (va, vb) = (a.vol(strike).powi(2) * a.t(), b.vol(strike).powi(2) * b.t());
        let w = (days - a.days) as f64 / (b.days - a.days) as f64;
        ((va + w * (vb - va)) / (days as f64 / 365.0)).sqrt()
    }
}
pub fn raw_surface() -> BoxedStrategy<RawSurface> {
    (edgy_date(1996, 2055), prop::collection::btree_set(prop_oneof![1i64..30, 30i64..800, 800i64..4000], 1..6).prop_shuffle_vec())
        .prop_flat_map(|(val, days)| (Just(val), days.into_iter().map(|d| raw_smile(Just(d))).collect::<Vec<_>>()).prop_map(|(val, smiles)| RawSurface { val, smiles }))
        .boxed()
}
trait ShuffleVec { fn prop_shuffle_vec(self) -> BoxedStrategy<Vec<i64>>; }
impl<S: Strategy<Value = std::collections::BTreeSet<i64>> + 'static> ShuffleVec for S {
    fn prop_shuffle_vec(self) -> BoxedStrategy<Vec<i64>> { self.prop_map(|s| s.into_iter().collect::<Vec<_>>()).prop_shuffle().boxed() }
}
const VTOL: f64 = 3e-8;
pub fn p14(s: &mut Suite) {
    s.rule("A case is a set of one to five expiries with smiles quoted as risk-reversal/butterfly, call/put or both, one to four deltas each, in any order, and query strikes and expiries; non-trivial when the surface is built.");
    s.assume("Smiles whose strikes come within 1e-6 of crossing are skipped; quoted wings are within 30% (risk reversal) and 12% (butterfly) of the at-the-money level.");
    s.prop("smile_and_time", 12000, 300000, || (raw_surface(), prop::collection::vec((any::<u16>(), -4.0f64..4.0), 6)), |(r, q)| {
        let built = guarded(|| FXVolSurface::new(r.val, r.pillars())).map_err(|e| format!("building panics: {e}"))?;
        let gap = r.gap();
        if gap.abs() < 1e-6 { return seen(false); }
        let surface = match built {
            Err(e) => { ensure!(gap < 0.0, "rejected although all strikes increase (smallest gap {gap}): {e}"); return seen_as(false, "crossing strikes rejected"); }
            Ok(x) => { ensure!(gap > 0.0, "accepted although strikes cross (gap {gap})"); x }
        };
        // closely spaced strikes magnify rounding
        let amp = if gap > 0.02 { 1.0 } else { 0.02 / gap };
        for sm in &r.smiles {
            let e = add_days(r.val, sm.days);
            for (k, v, d1) in sm.nodes() {
                let got = surface.volatility(e, k).map_err(e2f)?;
                near(&format!("vol at the quoted strike {k} ({} days)", sm.days), got, v, 0.0, VTOL * amp)?;
                let d = ((sm.forward / k).ln() + 0.5 * got * got * sm.t()) / (got * sm.t().sqrt());
                near("forward delta of the quoted strike", ncdf(d), ncdf(d1), 0.0, 1e-5 * amp)?;
            }
            for (_, z) in q {
                let k = sm.strike(*z);
                near(&format!("vol at {k} ({} days)", sm.days), surface.volatility(e, k).map_err(e2f)?, sm.vol(k), 0.0, VTOL * amp * 10.0)?;
            }
        }
        let last = r.sorted().last().unwrap().days;
        for (p, z) in q {
            let n = 1 + *p as i64 % (last * 5 / 4 + 5);
            let k = r.smiles[*p as usize % r.smiles.len()].strike(*z);
            let want = r.vol(n, k);
            // a wing of the parabola may leave variance negative far outside the quotes
            if !(want > 0.004) { continue; }
            let got = surface.volatility(add_days(r.val, n), k).map_err(e2f)?;
            near(&format!("vol at {k} for {n} days"), got, want, 1e-6 * amp, VTOL * amp * 10.0)?;
        }
        seen_as(true, format!("{} expiries", r.smiles.len()))
    });
    s.prop("rejected_inputs", 6000, 100000, || (raw_surface(), 0u8..12, any::<u16>()), |(r, kind, p)| {
        if r.gap() < 1e-6 { return seen(false); }
        let i = *p as usize % r.smiles.len();
        let mut pil = r.pillars();
        let d = r.smiles[i].wings[0].0;
        let q = &mut pil[i].quotes;
        let what = match kind {
            0 => { pil.clear(); "no pillars" }
            1 => { q.retain(|x| !matches!(x, FXVolQuote::Atm(_))); "no ATM" }
            2 => { q.insert(*p as usize % (q.len() + 1), FXVolQuote::Atm(0.1)); "two ATM" }
            3 => { q.retain(|x| matches!(x, FXVolQuote::Atm(_))); "no wings" }
            4 => { q.push(FXVolQuote::Call { delta: 0.5, vol: 0.1 }); q.push(FXVolQuote::Put { delta: 0.5, vol: 0.1 }); "delta one half" }
            5 => { q.push(FXVolQuote::RiskReversal { delta: -0.1, vol: 0.0 }); "negative delta" }
            6 => { let dd = if (d - 0.31415).abs() < 1e-3 { 0.3 } else { 0.31415 }; q.push(if *p & 1 == 0 { FXVolQuote::Call { delta: dd, vol: 0.1 } } else { FXVolQuote::RiskReversal { delta: dd, vol: 0.0 } }); "unpaired quote" }
            7 => { let dd = 0.31415; q.push(FXVolQuote::Call { delta: dd, vol: 0.1 }); q.push(FXVolQuote::Butterfly { delta: dd, vol: 0.0 }); "a call with a butterfly" }
            8 => { pil[i].forward = if *p & 1 == 0 { 0.0 } else { -1.0 }; "forward not positive" }
            9 => { pil[i].expiry = add_days(r.val, -((*p % 40) as i64)); "expired pillar" }
            10 => { q.push(FXVolQuote::Put { delta: 0.0, vol: 0.1 }); "zero delta" }
            _ => {
                let sfc = FXVolSurface::new(r.val, pil).map_err(e2f)?;
                let e = add_days(r.val, 1 + *p as i64 % 900);
                ensure!(sfc.volatility(e, 0.0).is_err() && sfc.volatility(e, -1.0).is_err(), "a strike that is not positive has a volatility");
                ensure!(sfc.volatility(r.val, 1.0).is_err() && sfc.volatility(add_days(r.val, -(1 + *p as i64 % 50)), 1.0).is_err(), "an expiry that is not in the future has a volatility");
                return seen_as(true, "query");
            }
        };
        let got = guarded(|| FXVolSurface::new(r.val, pil)).map_err(|e| format!("{what}: panics: {e}"))?;
        ensure!(got.is_err(), "{what}: accepted");
        seen_as(true, what)
    });
    s.prop("expiry_order_is_irrelevant", 3000, 60000, || (raw_surface(), any::<u16>(), -3.0f64..3.0), |(r, p, z)| {
        if r.gap() < 1e-6 { return seen(false); }
        let mut o = r.pillars();
        o.reverse();
        let (a, b) = (FXVolSurface::new(r.val, r.pillars()).map_err(e2f)?, FXVolSurface::new(r.val, o).map_err(e2f)?);
        let e = add_days(r.val, 1 + *p as i64 % 4500);
        let k = r.smiles[0].strike(*z);
        let (x, y) = (a.volatility(e, k).map_err(e2f)?, b.volatility(e, k).map_err(e2f)?);
        ensure!(x == y || (x.is_nan() && y.is_nan()), "{x} and {y} for the same pillars in a different order");
        seen(r.smiles.len() > 1)
    });
}

// ------------------------------------------------------------------ P15
pub fn opt_trade(m: &Mkt, d: NaiveDate, buy: bool, call: bool, base: bool, n: f64, k: f64, vol: f64) -> FXVanillaOption {
    let (dom, frn) = ccy(m.fx.pair);
    FXVanillaOption {
        basic_info: BasicInfo { style: if call { Style::FXCall } else { Style::FXPut }, ..info(m.fx.val, d, buy) },
        asset: und(m.fx.pair),
        option_type: if call { OptionType::Call } else { OptionType::Put },
        notional_currency: if base { frn } else { dom },
        notional_amounts: n,
        strike: k,
        volatility: vol,
    }
}
pub fn p15(s: &mut Suite) {
    s.rule("A case is a pair's market and an option (type, direction, notional currency, notional, volatility from 0 to 150%, strike up to 8 standard deviations away, expiry on, between or beyond the quoted dates); non-trivial when the expiry is priced with positive variance.");
    s.prop("kernel", 30000, 1000000, || (0.01f64..300.0, -8.0f64..8.0, prop_oneof![1 => Just(0.0), 1 => 1e-12f64..1e-4, 4 => 1e-4f64..4.0], 0.2f64..1.3, 1e-4f64..0.2), |(f, z, v, df, h)| {
        let sd = v.sqrt();
        let k = f * (z * sd.max(0.02)).exp();
        let tol = 2e-10 * (f + k);
        let p = |k: f64, v: f64, call: bool| black_scholes(*f, k, v, *df, if call { OptionType::Call } else { OptionType::Put });
        let (call, put) = (p(k, *v, true), p(k, *v, false));
        near(&format!("call F={f} K={k} V={v}"), call, df * black(*f, k, sd, 1.0), 0.0, tol)?;
        near(&format!("put F={f} K={k} V={v}"), put, df * black(*f, k, sd, -1.0), 0.0, tol)?;
        near("call minus put", call - put, df * (f - k), 0.0, tol)?;
        ensure!(call >= df * (f - k).max(0.0) - tol && call <= df * f + tol && put >= df * (k - f).max(0.0) - tol && put <= df * k + tol, "price outside its bounds: {call} {put}");
        let (up, down) = (k * (1.0 + h), k * (1.0 - h));
        ensure!(p(up, *v, true) <= call + tol && p(down, *v, true) >= call - tol && p(up, *v, false) >= put - tol && p(down, *v, false) <= put + tol, "not monotone in strike");
        for c in [true, false] { ensure!(0.5 * (p(up, *v, c) + p(down, *v, c)) >= p(k, *v, c) - tol, "not convex in strike"); }
        ensure!(p(k, v * (1.0 + h) + 1e-9, true) >= call - tol, "falls with variance");
        near("discount scales", black_scholes(*f, k, *v, 2.0 * df, OptionType::Call), 2.0 * call, 1e-14, 1e-300)?;
        seen(*v > 0.0 && call > tol && put > tol)
    });
    s.prop("value_and_risk", 15000, 400000, || (mkt(), any::<u16>(), any::<u8>(), (any::<bool>(), any::<bool>(), any::<bool>()), prop_oneof![Just(1.0), 1.0f64..1e8], -6.0f64..6.0, prop_oneof![1 => Just(0.0), 6 => 0.001f64..0.6, 1 => 0.6f64..1.5]), |(m, p, mode, (buy, call, base), n, z, vol)| {
        let d = m.fx.date(*p, *mode);
        let t = yf365(m.fx.val, d);
        let fs = m.fx.outrights(d);
        let sd = vol * t.max(0.0).sqrt();
        let atm = *p % 16 == 0;
        let k = if atm { fs.first().copied().unwrap_or(m.fx.spot) } else { m.fx.spot * (z * sd.clamp(0.01, 0.5)).exp() };
        let o = opt_trade(m, d, *buy, *call, *base, *n, k, *vol);
        let ctx = m.ctx();
        let v = match o.mtm(&ctx) {
            Err(Error::TradeExpired(_)) => {
                ensure!(fs.is_empty(), "{d} is not priced although the outright is {fs:?}");
                ensure!(o.delta(&ctx).is_err() && o.gamma(&ctx).is_err() && o.vega(&ctx).is_err(), "risk figures without a value");
                return seen(false);
            }
            Err(e) => return Err(e2f(e)),
            Ok(v) => v,
        };
        ensure!(!fs.is_empty(), "{d} is priced although the quotes do not reach it");
        if fs.len() > 1 { return seen(false); }
        let (dom, frn) = ccy(m.fx.pair);
        let (f, df, dir, w) = (fs[0], m.dom.df(d), if *buy { 1.0 } else { -1.0 }, if *call { 1.0 } else { -1.0 });
        let unit = if *base { n / m.fx.spot } else { n / k };
        let base_n = if *base { *n } else { n / k };
        let what = format!("{} {} F={f} K={k} sd={sd}", PAIRS[m.fx.pair], if *call { "call" } else { "put" });
        ensure!(v.currency == if *base { frn } else { dom }, "value is in {:?}", v.currency);
        near(&format!("premium {what}"), v.value, -dir * unit * df * black(f, k, sd, w), 1e-10, 2e-10 * unit * (f + k))?;
        let delta = o.delta(&ctx).map_err(e2f)?;
        ensure!(delta.currency == frn, "delta is in {:?}", delta.currency);
        let gamma = o.gamma(&ctx).map_err(e2f)?;
        let vega = o.vega(&ctx).map_err(e2f)?;
        if sd > 0.0 {
            let d1 = ((f / k).ln() + 0.5 * sd * sd) / sd;
            near(&format!("delta {what}"), delta.value, dir * base_n * w * ncdf(w * d1), 1e-10, 1e-10 * base_n)?;
            near(&format!("gamma {what}"), gamma, dir * base_n * df * npdf(d1) / (f * sd), 1e-9, 1e-12 * base_n / (f * sd))?;
            near(&format!("vega {what}"), vega, dir * unit * df * f * npdf(d1) * t.sqrt() / 100.0, 1e-9, 1e-12 * unit * f)?;
        } else {
            ensure!(delta.value.is_finite() && vega.is_finite() && gamma == 0.0, "zero variance gives {delta:?} {gamma} {vega}");
            if (f / k - 1.0).abs() > 1e-9 {
                near(&format!("delta {what}"), delta.value, if w * (f - k) > 0.0 { dir * base_n * w } else { 0.0 }, 0.0, 1e-12 * base_n)?;
                near("vega", vega, 0.0, 0.0, 1e-12 * unit * f)?;
            }
        }
        seen_as(sd > 0.0, format!("{}{}", if *base { "foreign" } else { "domestic" }, if sd > 0.0 { "" } else { ", no variance" }))
    });
    s.prop("greeks_are_derivatives", 5000, 120000, || (mkt(), any::<u16>(), (any::<bool>(), any::<bool>(), any::<bool>()), -2.5f64..2.5, 0.02f64..0.6), |(m, p, (buy, call, base), z, vol)| {
        let d = m.fx.date(*p, 2);
        let fs = m.fx.outrights(d);
        let t = yf365(m.fx.val, d);
        let sd = vol * t.max(0.0).sqrt();
        if fs.len() != 1 || sd < 0.01 { return seen(false); }
        let k = fs[0] * (z * sd).exp();
        let n = 1e4;
        let ctx = m.ctx();
        let o = opt_trade(m, d, *buy, *call, *base, n, k, *vol);
        let at = |dv: f64| opt_trade(m, d, *buy, *call, *base, n, k, vol + dv).mtm(&ctx).map(|x| -x.value).map_err(e2f);
        let h = 1e-4 * vol;
        // vega: premium per percent of volatility, seen by the holder
        near("vega", o.vega(&ctx).map_err(e2f)?, (at(h)? - at(-h)?) / (2.0 * h) / 100.0, 1e-4, 1e-4 * n * t.sqrt() / 100.0 * (1.0f64).max(1.0 / m.fx.spot))?;
        // moving spot moves the outright one for one
        let moved = |e: f64| { let mut m2 = m.clone(); m2.fx.spot += e; m2 };
        let e = 1e-4 * fs[0] * sd;
        let spot_conv = |m2: &Mkt, v: f64| if *base { v * m2.fx.spot } else { v };
        let val = |e: f64| { let m2 = moved(e); opt_trade(&m2, d, *buy, *call, *base, n, k, *vol).mtm(&m2.ctx()).map(|x| spot_conv(&m2, -x.value)).map_err(e2f) };
        let df = m.dom.df(d);
        let (vu, vd) = (val(e)?, val(-e)?);
        let delta = o.delta(&ctx).map_err(e2f)?.value;
        let bn = if *base { n } else { n / k };
        near("discounted delta", delta * df, (vu - vd) / (2.0 * e), 1e-4, 1e-4 * bn)?;
        let dl = |e: f64| { let m2 = moved(e); opt_trade(&m2, d, *buy, *call, *base, n, k, *vol).delta(&m2.ctx()).map(|x| x.value).map_err(e2f) };
        near("gamma", o.gamma(&ctx).map_err(e2f)?, df * (dl(e)? - dl(-e)?) / (2.0 * e), 1e-4, 1e-4 * bn / (fs[0] * sd))?;
        seen(true)
    });
}

// ------------------------------------------------------------------ P16
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawCtx {
    fx: RawFx,
    dom: RawIr,
    frn: RawIr,
    surface: RawSurface,
}
fn raw_ctx() -> BoxedStrategy<RawCtx> {
    raw_fx_dense()
        .prop_flat_map(|fx| (raw_ir_at(fx.val), raw_ir_at(fx.val), raw_surface(), Just(fx)).prop_map(|(dom, frn, mut surface, fx)| { surface.val = fx.val; RawCtx { fx, dom, frn, surface } }))
        .boxed()
}
fn same(what: &str, a: Result<f64, Error>, b: Result<f64, Error>) -> Result<bool, Fail> {
    match (a, b) {
        (Ok(x), Ok(y)) => { ensure!(x == y || (x.is_nan() && y.is_nan()), "{what}: {x} and {y}"); Ok(true) }
        (Err(_), Err(_)) => Ok(false),
        (a, b) => Err(format!("{what}: {a:?} and {b:?}").into()),
    }
}
/// At least one visible pillar, and no two on one day.
fn answerable(v: &[finquant::markets::termstructures::yieldcurve::StrippedCurve]) -> bool {
    let mut d: Vec<_> = v.iter().filter(|p| !p.hidden_pillar).map(|p| p.date).collect();
    d.sort();
    !d.is_empty() && d.windows(2).all(|w| w[0] != w[1])
}
pub fn p16(s: &mut Suite) {
    s.rule("A case is a pair's raw quotes (forward points, deposits/futures/swaps in both currencies, a volatility surface) and query dates and strikes; non-trivial when the context is built and at least one query date has an outright.");
    s.prop("fx_context", 3000, 60000, || (raw_ctx(), prop::collection::vec((any::<u16>(), any::<u8>(), -3.0f64..3.0), 5)), |(r, q)| {
        let pair = ccy(r.fx.pair);
        let boxed = || Box::new(Actual365Fixed::default());
        let quotes: Vec<FXForwardQuote> = r.fx.quotes.iter().map(|(tenor, value)| FXForwardQuote { tenor: *tenor, value: *value }).collect();
        let strip = |x: &RawIr| guarded(|| x.make().get_stripped_curve());
        let (Ok(Ok(ds)), Ok(Ok(fs))) = (strip(&r.dom), strip(&r.frn)) else { return seen(false) };
        if !answerable(&ds) || !answerable(&fs) { return seen(false); }
        let surface = FXVolSurface::new(r.fx.val, r.surface.pillars());
        let raw = FxMarketContext::from_raw_quotes(r.fx.val, r.fx.spot, pair, r.dom.make(), r.frn.make(), quotes, r.surface.pillars(), Box::new(Target), Box::new(Target), boxed(), boxed());
        let Ok(surface) = surface else { ensure!(raw.is_err(), "a context is built on a surface that cannot be"); return seen(false) };
        let raw = raw.map_err(e2f)?;
        let curve = |v: &Vec<_>| YieldTermStructure::new(Box::new(Target), boxed(), r.fx.val, v.clone());
        let ctx = FxMarketContext::new(r.fx.val, r.fx.spot, pair, curve(&ds), curve(&fs), r.fx.helper(), surface);
        ensure!(raw.valuation_date == r.fx.val && raw.spot == r.fx.spot && raw.pair == pair && ctx.pair == pair && ctx.spot == r.fx.spot && ctx.valuation_date == r.fx.val, "metadata is not carried");
        let u = und(r.fx.pair); let cal = u.calendar();
        let mut any = false;
        for (p, mode, z) in q {
            let d = r.fx.date(*p, *mode);
            let want = r.fx.outrights(d);
            for (which, c) in [("quotes", &raw), ("parts", &ctx)] {
                match c.forward_at(d, &cal) {
                    Err(_) => ensure!(want.is_empty(), "{} outright on {d} from {which} is an error, expected {want:?}", PAIRS[r.fx.pair]),
                    Ok(f) => { any = true; oneof(&format!("{} outright on {d} from {which}", PAIRS[r.fx.pair]), f, &want, 1e-13, 0.0)?; }
                }
                if d >= r.fx.val {
                    near(&format!("domestic zero rate on {d} from {which}"), c.rate_d(d).map_err(e2f)?, zero_ref(r.fx.val, &ds, d), 1e-12, 1e-15)?;
                    near(&format!("foreign zero rate on {d} from {which}"), c.rate_f(d).map_err(e2f)?, zero_ref(r.fx.val, &fs, d), 1e-12, 1e-15)?;
                    near(&format!("domestic discount on {d} from {which}"), c.discount_d(d).map_err(e2f)?, df_ref(r.fx.val, &ds, d), 1e-13, 0.0)?;
                    near(&format!("foreign discount on {d} from {which}"), c.discount_f(d).map_err(e2f)?, df_ref(r.fx.val, &fs, d), 1e-13, 0.0)?;
                }
            }
            let k = r.surface.smiles[*p as usize % r.surface.smiles.len()].strike(*z);
            let fresh = FXVolSurface::new(r.fx.val, r.surface.pillars()).map_err(e2f)?;
            same("implied volatility from quotes", raw.implied_vol(d, k), fresh.volatility(d, k))?;
            same("implied volatility from parts", ctx.implied_vol(d, k), fresh.volatility(d, k))?;
            ensure!(raw.implied_vol(d, -k).is_err(), "a negative strike has a volatility");
        }
        seen_as(any, PAIRS[r.fx.pair])
    });
    s.prop("linear_context", 3000, 60000, || (mkt(), 1i64..2000, 0.2f64..5.0), |(m, n, k)| {
        let c = m.ctx();
        let d = add_days(m.fx.val, *n);
        near("placeholder volatility", c.implied_vol(d, *k).map_err(e2f)?, 0.1, 0.0, 1e-9)?;
        near("domestic discount", c.discount_d(d).map_err(e2f)?, m.dom.df(d), 1e-13, 0.0)?;
        near("foreign discount", c.discount_f(d).map_err(e2f)?, m.frn.df(d), 1e-13, 0.0)?;
        seen(true)
    });
    s.prop("rates_context", 2500, 50000, || (raw_ir(), any::<bool>(), 0i64..4000, -0.01f64..0.09, 20i64..120), |(r, with_caps, n, k, bp)| {
        let Ok(Ok(strip)) = guarded(|| r.make().get_stripped_curve()) else { return seen(false) };
        if !answerable(&strip) { return seen(false); }
        // one six-monthly caplet strip quoted at a flat normal volatility
        let rows: Vec<(NaiveDate, NaiveDate)> = (1..4).map(|i| (add_days(r.val, 182 * i), add_days(r.val, 182 * (i + 1)))).collect();
        let df = |d| df_ref(r.val, &strip, d);
        let caps = || {
            let strike = *k;
            let npv: f64 = rows.iter().map(|(a, b)| { let tau = yf365(*a, *b); let f = (df(*a) / df(*b) - 1.0) / tau; tau * df(*b) * bachelier(f, strike, *bp as f64 * 1e-4 * yf365(r.val, *a).sqrt(), 1.0) }).sum();
            IRCapMarketData::new(r.val, vec![CapQuote {
                strike, notional: 1.0, direction: Direction::Buy, kind: CapFloorKind::Cap, style: CapStyle::ForwardLooking, currency: Currency::EUR,
                schedule: rows.iter().map(|(a, b)| sched(*a, *b)).collect(), accrual_day_counter: Box::new(Actual365Fixed::default()), market_npv: npv,
            }])
        };
        let boxed = || Box::new(Actual365Fixed::default());
        let made = IrMarketContext::from_raw_quotes(r.val, Currency::EUR, r.make(), if *with_caps { Some(caps()) } else { None }, Box::new(Target), boxed());
        let mut surface = IRNormalVolSurface::new(r.val);
        let curve = || YieldTermStructure::new(Box::new(Target), boxed(), r.val, strip.clone());
        let fresh = if *with_caps { surface.rebuild(&curve(), &caps()) } else { Ok(()) };
        if fresh.is_err() {
            ensure!(made.is_err(), "a context is built on caps that cannot be stripped");
            return seen(false);
        }
        let raw = made.map_err(e2f)?;
        let ctx = IrMarketContext::new(r.val, Currency::EUR, curve(), None);
        let d = add_days(r.val, *n);
        for c in [&raw, &ctx] {
            ensure!(c.currency == Currency::EUR && c.valuation_date == r.val, "metadata is not carried");
            near("zero rate", c.rate(d).map_err(e2f)?, zero_ref(r.val, &strip, d), 1e-12, 1e-15)?;
            near("discount", c.discount(d).map_err(e2f)?, df_ref(r.val, &strip, d), 1e-13, 0.0)?;
        }
        ensure!(ctx.caplet_vol(d, *k).is_err(), "a caplet volatility without a surface");
        if *with_caps { same("caplet volatility", raw.caplet_vol(d, *k), surface.caplet_volatility(d, *k))?; } else { ensure!(raw.caplet_vol(d, *k).is_err(), "a caplet volatility without a surface"); }
        seen_as(true, if *with_caps { "caps" } else { "no caps" })
    });
}
fn sched(a: NaiveDate, b: NaiveDate) -> finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod {
    finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod::new(a, b, b, a, 0.0, 0.0)
}
