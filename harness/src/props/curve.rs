use super::mkt::*;
use super::util::*;
use crate::core::*;
use crate::ensure;
use chrono::{Datelike, NaiveDate};
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle};
use finquant::derivatives::interestrate::swap::InterestRateSwapLegType;
use finquant::error::{Error, Result as FqResult};
use finquant::markets::forex::quotes::forwardpoints::*;
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum as Ix};
use finquant::markets::interestrate::volsurface::*;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::patterns::observer::{Observable, Observer};
use finquant::time::businessdayconvention::BusinessDayConvention as Bdc;
use finquant::time::calendars::*;
use finquant::time::period::Period;
use iso_currency::Currency;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

fn e2f(e: Error) -> Fail {
    Fail::from(format!("unexpected error: {e}"))
}
fn any_tenor() -> impl Strategy<Value = Period> {
    prop_oneof![(1i64..400).prop_map(Period::Days), (1i64..60).prop_map(Period::Weeks), (1u32..61).prop_map(Period::Months), (1u32..12).prop_map(Period::Years)]
}

// ------------------------------------------------------------------ P17
pub fn p17(s: &mut Suite) {
    s.rule("A case is a generated strip (1-8 pillars, some hidden, rates from -2% to 10%) and query dates before, on, between and after the pillars; non-trivial when there are two or more visible pillars.");
    s.prop("rates_and_discounts", 20000, 600000, || (gen_curve(), prop::collection::vec(any::<u16>(), 3), any_tenor(), prop_oneof![Just(0.0), Just(1.0), -300.0f64..300.0]), |(g, picks, tenor, bp)| {
        let c = g.make();
        let last = g.pillars.last().unwrap().0;
        near("discount at valuation", c.discount(g.val, &STEP).map_err(e2f)?, 1.0, 0.0, 0.0)?;
        let mut dates: Vec<NaiveDate> = picks.iter().map(|p| add_days(g.val, *p as i64 % (last * 3 / 2 + 40))).collect();
        for (n, _, _) in &g.pillars {
            for o in -2..=1 { if n + o >= 0 { dates.push(add_days(g.val, n + o)); } }
        }
        let bumped = g.bumped(*bp);
        for d in &dates {
            let z = c.zero_rate(*d, &STEP).map_err(e2f)?;
            near(&format!("zero rate on {d}"), z, g.zero(*d), 1e-12, 1e-15)?;
            ensure!(c.zero_rate(*d, &LINEAR).map_err(e2f)? == z, "the two interpolation names disagree on {d}");
            let p = c.discount(*d, &STEP).map_err(e2f)?;
            near(&format!("discount on {d}"), p, g.df(*d), 1e-13, 0.0)?;
            ensure!(p > 0.0, "discount {p}");
            near(&format!("shifted discount on {d}"), c.shifted_discount(*d, &STEP, *bp).map_err(e2f)?, bumped.df(*d), 1e-12, 0.0)?;
            let end = (*d + *tenor).map_err(e2f)?;
            let f = c.forward_rate(*d, *tenor, &LINEAR).map_err(e2f)?;
            let tau = yf365(*d, end);
            near(&format!("forward from {d} over {tenor:?}"), f, (g.df(*d) / g.df(end)).ln() / tau, 1e-9, 1e-12)?;
            near("discounts chain through the forward", c.discount(end, &STEP).map_err(e2f)?, p * (-f * tau).exp(), 1e-11, 0.0)?;
        }
        // each visible pillar's own rate is the rate for the day that ends on it
        for (n, z, h) in &g.pillars {
            if !h { near("pillar rate", c.zero_rate(add_days(g.val, n - 1), &STEP).map_err(e2f)?, *z, 1e-13, 1e-16)?; }
        }
        let visible = g.pillars.iter().filter(|p| !p.2).count();
        seen_as(visible > 1, if visible < g.pillars.len() { "hidden pillars" } else { "all visible" })
    });
    s.prop("hidden_pillars", 10000, 200000, || (gen_curve(), 0i64..3000), |(g, n)| {
        // hiding a pillar is the same as leaving it out
        let shown = GenCurve { val: g.val, pillars: g.pillars.iter().filter(|p| !p.2).cloned().collect() };
        let d = add_days(g.val, *n % (g.pillars.last().unwrap().0 * 3 / 2 + 10));
        let (a, b) = (g.make().zero_rate(d, &STEP).map_err(e2f)?, shown.make().zero_rate(d, &STEP).map_err(e2f)?);
        near(&format!("rate on {d} with and without the hidden pillars"), a, b, 1e-14, 1e-17)?;
        seen(shown.pillars.len() < g.pillars.len())
    });
    s.prop("flat_curve", 5000, 100000, || (gen_curve(), -0.02f64..0.12, 0i64..6000), |(g, r, n)| {
        let flat = GenCurve { val: g.val, pillars: g.pillars.iter().map(|(n, _, h)| (*n, *r, *h)).collect() }.make();
        let d = add_days(g.val, *n);
        near("flat zero rate", flat.zero_rate(d, &STEP).map_err(e2f)?, *r, 1e-13, 1e-17)?;
        near("flat forward", flat.forward_rate(d, Period::Months(3), &STEP).map_err(e2f)?, *r, 1e-9, 1e-12)?;
        seen(*n > 0)
    });
}

// ------------------------------------------------------------------ P18
fn first_future_zero(val: NaiveDate, before: &[StrippedCurve], discount: f64, end: NaiveDate) -> f64 {
    let mut cum = 1.0;
    let mut from = val;
    for p in before {
        cum *= (-p.zero_rate * yf365(from, p.date)).exp();
        from = p.date;
    }
    -(discount / cum).ln() / yf365(from, end)
}
pub fn p18(s: &mut Suite) {
    s.rule("A case is a set of cash, futures and swap quotes (levels -1.2% to 8.4%, any shape) stripped into a curve; non-trivial when it holds at least two instruments.");
    s.assume("Instrument maturities increase from cash to futures to swaps; a strip with futures has at least one cash quote. Calendars' own advance() is used for dates (decided by P04).");
    s.prop("strip", 4000, 100000, raw_ir, |q| {
        let md = q.make();
        let strip = guarded(|| md.get_stripped_curve()).map_err(|e| format!("stripping panics: {e}"))?.map_err(e2f)?;
        ensure!(strip.len() == q.cash.len() + q.futures.len() + q.swaps.len(), "{} pillars for {} quotes", strip.len(), q.cash.len() + q.futures.len() + q.swaps.len());
        let mut cash: Vec<(NaiveDate, NaiveDate, f64, bool, f64)> = q.cash.iter().map(|c| {
            let (a, b) = c.dates(q.val);
            let tau = (b - a).num_days() as f64 / if c.act360 { 360.0 } else { 365.0 };
            (b, a, (1.0 + tau * c.value).ln() / yf365(a, b), c.tenor == Period::Weeks(1), c.value)
        }).collect();
        cash.sort_by(|x, y| x.0.cmp(&y.0));
        for (i, (want, p)) in cash.iter().zip(&strip).enumerate() {
            ensure!(p.date == want.0 && p.source == InterestRateQuoteEnum::OIS, "cash pillar {i} is {:?} at {}, expected {}", p.source, p.date, want.0);
            // quotes that share a maturity may come in either order
            let same: Vec<_> = cash.iter().filter(|c| c.0 == p.date).collect();
            ensure!(same.iter().any(|c| c.1 == p.first_settle_date && c.3 == p.hidden_pillar && c.4 == p.market_rate && close(c.2, p.zero_rate, 1e-11, 1e-12)), "cash pillar {i} {p:?} matches none of its quotes {same:?}");
            near("cash discount", p.discount, (-p.zero_rate * yf365(q.val, p.date)).exp(), 1e-13, 0.0)?;
            // the deposit grows at its quoted rate between its own dates
        }
        for (i, f) in q.futures.iter().enumerate() {
            let k = q.cash.len() + i;
            let p = &strip[k];
            ensure!(p.first_settle_date == f.start && p.date == f.end() && p.source == InterestRateQuoteEnum::Futures && !p.hidden_pillar, "future {} strips to {p:?}", f.code());
            near("futures quote", p.market_rate, f.price, 0.0, 0.0)?;
            // nearest pillar to the start of the future
            let before = &strip[..k];
            let pick = if before.last().unwrap().date < f.start { Some(before.len() - 1) } else {
                before.iter().position(|b| b.first_settle_date < f.start && b.date >= f.start).map(|j| {
                    if j > 0 && (f.start - before[j - 1].date) < (before[j].date - f.start) && before[j - 1].date < f.start { j - 1 } else { j }
                })
            };
            let tau = (p.date - f.start).num_days() as f64 / 360.0;
            let rate = 1.0 - f.price / 100.0 + f.convexity / 100.0;
            if let Some(j) = pick {
                let z = before[j].zero_rate;
                // where two pillars are about equally near either is the nearest one
                let near_tie = j > 0 && before[j].date == before[j - 1].date || before.iter().filter(|b| b.date == before[j].date).count() > 1 || before.iter().any(|b| b.date >= f.start && b.first_settle_date >= f.start);
                if !near_tie {
                    near(&format!("future {} discount", f.code()), p.discount, (-z * yf365(q.val, f.start)).exp() / (1.0 + tau * rate), 1e-12, 0.0)?;
                }
            }
            let z = -p.discount.ln() / yf365(q.val, p.date);
            if i > 0 {
                near(&format!("future {} zero rate against its discount", f.code()), p.zero_rate, z, 1e-10, 1e-12)?;
            } else if !close(p.zero_rate, z, 1e-10, 1e-12) {
                let same_days = before.windows(2).any(|w| w[0].date == w[1].date);
                if same_days || close(p.zero_rate, first_future_zero(q.val, before, p.discount, p.date), 1e-9, 1e-12) {
                    return Err(known("first-future:zero-rate-inconsistent-with-its-discount", format!("first future {}: zero rate {} but discount {} (zero {z})", f.code(), p.zero_rate, p.discount)));
                }
                ensure!(false, "first future {}: zero rate {} but discount {} (zero {z})", f.code(), p.zero_rate, p.discount);
            }
        }
        for (i, w) in q.swaps.iter().enumerate() {
            let k = q.cash.len() + q.futures.len() + i;
            let p = &strip[k];
            ensure!(p.date == w.maturity(q.val) && p.source == InterestRateQuoteEnum::Swap && !p.hidden_pillar, "swap {i} strips to {p:?}, maturity {}", w.maturity(q.val));
            near("swap quote", p.market_rate, w.coupon, 0.0, 0.0)?;
            near("swap pillar discount", p.discount, (-p.zero_rate * yf365(q.val, p.date)).exp(), 1e-13, 0.0)?;
            let part = &strip[..=k];
            let v = w.value(q.val, &|d| df_ref(q.val, part, d)) / w.notional;
            ensure!(v.abs() < 1e-11 * (1.0 + w.years as f64), "the {}y swap is worth {v} per unit on the strip it closes", w.years);
            let mut yts = YieldTermStructure::new(Box::new(Target), counter(1), q.val, part.to_vec());
            let npv = w.make().npv(q.val, &mut yts).map_err(e2f)? / w.notional;
            ensure!(npv.abs() < 1e-11 * (1.0 + w.years as f64), "the {}y swap's own value on its strip is {npv} per unit", w.years);
        }
        seen_as(strip.len() > 1, format!("{}{}{}", if q.cash.is_empty() { "" } else { "cash " }, if q.futures.is_empty() { "" } else { "futures " }, if q.swaps.is_empty() { "" } else { "swaps" }))
    });
    s.prop("related_pillar", 20000, 400000, || (edgy_date(1996, 2055), prop::collection::vec((0i64..200, -300i64..1, any::<bool>()), 1..9usize), -30i64..1600), |(val, gaps, target)| {
        let mut at = *val;
        let strip: Vec<StrippedCurve> = gaps.iter().enumerate().map(|(i, (g, back, future))| {
            at = add_days(at, g + i64::from(i > 0));
            StrippedCurve { first_settle_date: add_days(at, back - 1), date: at, market_rate: 0.01 * i as f64, zero_rate: 0.01 + 0.001 * i as f64, discount: 1.0, source: if *future { InterestRateQuoteEnum::Futures } else { InterestRateQuoteEnum::OIS }, hidden_pillar: i % 3 == 1 }
        }).collect();
        let helper = RawCash { tenor: Period::Months(3), value: 0.03, lag: 2, cal: 0, act360: true, modified: true }.make();
        let mut targets = vec![add_days(*val, *target)];
        targets.extend(strip.iter().flat_map(|p| [-1, 0, 1].map(|k| add_days(p.date, k))));
        targets.extend(strip.iter().map(|p| p.first_settle_date));
        let mut covered = 0;
        for t in targets {
            let got = helper.retrieve_related_stripped_curve(&strip, t);
            // the pillar whose period covers the date or, if closer, the one before it
            let want = match strip.iter().position(|p| p.first_settle_date < t && p.date >= t) {
                Some(0) => &strip[0],
                Some(j) => { covered += 1; if (t - strip[j - 1].date).num_days() < (strip[j].date - t).num_days() { &strip[j - 1] } else { &strip[j] } }
                None if strip[0].date < t => &strip[strip.len() - 1],
                None => &strip[0],
            };
            ensure!(got == want, "pillar related to {t} is {got:?}, expected {want:?}");
        }
        seen(covered > 1)
    });
    s.prop("cash_order", 3000, 60000, || (raw_ir(), any::<u64>()), |(q, seed)| {
        let a = q.make().get_stripped_curve().map_err(e2f)?;
        let mut r = q.clone();
        let n = r.cash.len();
        if n > 1 { r.cash.rotate_left((*seed % n as u64) as usize); if seed & 1024 != 0 { r.cash.reverse(); } }
        let distinct = { let mut d: Vec<_> = q.cash.iter().map(|c| c.dates(q.val).1).collect(); d.sort(); d.windows(2).all(|w| w[0] != w[1]) };
        if distinct {
            let b = r.make().get_stripped_curve().map_err(e2f)?;
            ensure!(a == b, "the strip depends on the order of the cash quotes");
        }
        seen(distinct && n > 1)
    });
    s.prop("later_quotes_do_not_move_earlier_pillars", 3000, 60000, || (raw_ir(), 0usize..14), |(q, keep)| {
        let a = q.make().get_stripped_curve().map_err(e2f)?;
        let mut r = q.clone();
        let nf = q.futures.len();
        if *keep < nf { r.futures.truncate(*keep); r.swaps.clear(); } else { r.swaps.truncate(keep - nf); }
        if r.cash.len() + r.futures.len() + r.swaps.len() == 0 { return seen(false); }
        let b = r.make().get_stripped_curve().map_err(e2f)?;
        ensure!(a[..b.len()] == b[..], "dropping later quotes changes earlier pillars");
        seen(b.len() < a.len())
    });
}

// ------------------------------------------------------------------ P19
#[derive(Debug)]
struct Recorder {
    id: usize,
    fail: Rc<Cell<bool>>,
    log: Rc<RefCell<Vec<(usize, Vec<f64>)>>>,
}
fn snapshot(o: &dyn Observable) -> Vec<f64> {
    let a = o.as_any();
    if let Some(h) = a.downcast_ref::<FXForwardHelper>() {
        h.quotes.iter().map(|q| q.value).collect()
    } else if let Some(m) = a.downcast_ref::<YieldTermMarketData>() {
        m.cash_quote.iter().map(|q| q.value).collect()
    } else if let Some(m) = a.downcast_ref::<IRCapMarketData>() {
        m.cap_quotes.iter().map(|q| q.market_npv).collect()
    } else {
        vec![f64::NAN]
    }
}
impl Observer for Recorder {
    fn update(&mut self, o: &dyn Observable) -> FqResult<()> {
        if self.fail.get() {
            return Err(Error::InvalidData(format!("observer {} refuses", self.id)));
        }
        self.log.borrow_mut().push((self.id, snapshot(o)));
        Ok(())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Attach,
    AttachAgain(u8),
    Drop(u8),
    Fail(u8, bool),
    Set(u8, f64),
    Push(f64),
    Pop,
    Notify,
}
fn ops() -> impl Strategy<Value = Vec<Op>> {
    prop::collection::vec(
        prop_oneof![
            3 => Just(Op::Attach),
            1 => any::<u8>().prop_map(Op::AttachAgain),
            2 => any::<u8>().prop_map(Op::Drop),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(i, b)| Op::Fail(i, b)),
            3 => (any::<u8>(), -1.0f64..1.0).prop_map(|(i, v)| Op::Set(i, v)),
            1 => (-1.0f64..1.0).prop_map(Op::Push),
            1 => Just(Op::Pop),
            4 => Just(Op::Notify),
        ],
        1..40,
    )
}
enum Subject {
    Fx(FXForwardHelper),
    Ir(YieldTermMarketData),
    Cap(IRCapMarketData),
}
impl Subject {
    fn new(kind: u8) -> Self {
        let v = ymd(2024, 5, 17);
        match kind % 3 {
            0 => Subject::Fx(FXForwardHelper::new(v, 1.1, vec![])),
            1 => Subject::Ir(YieldTermMarketData::new(v, vec![], vec![], vec![])),
            _ => Subject::Cap(IRCapMarketData::new(v, vec![])),
        }
    }
    fn observable(&mut self) -> &mut dyn Observable {
        match self { Subject::Fx(x) => x, Subject::Ir(x) => x, Subject::Cap(x) => x }
    }
    fn set(&mut self, q: &[f64]) {
        match self {
            Subject::Fx(x) => x.quotes = q.iter().map(|v| FXForwardQuote { tenor: Period::Months(1), value: *v }).collect(),
            Subject::Ir(x) => x.cash_quote = q.iter().map(|v| RawCash { tenor: Period::Months(1), value: *v, lag: 2, cal: 0, act360: true, modified: true }.make()).collect(),
            Subject::Cap(x) => {
                x.cap_quotes = q.iter().map(|v| CapQuote { strike: 0.01, notional: 1.0, direction: finquant::derivatives::basic::Direction::Buy, kind: CapFloorKind::Cap, style: CapStyle::ForwardLooking, currency: Currency::EUR, schedule: vec![], accrual_day_counter: counter(0), market_npv: *v }).collect()
            }
        }
    }
}
pub fn p19(s: &mut Suite) {
    s.rule("A case is a history of attach, detach (drop), quote edits, failing observers and notifications over one observable, or of quote edits over a market with attached curves; non-trivial when a notification reaches two or more observers or changes a curve.");
    s.prop("histories", 6000, 150000, || (0u8..3, ops()), |(kind, ops)| {
        let mut sub = Subject::new(*kind);
        let log = Rc::new(RefCell::new(vec![]));
        let mut quotes: Vec<f64> = vec![];
        let mut live: Vec<Option<Rc<RefCell<dyn Observer>>>> = vec![];
        let mut flags: Vec<Rc<Cell<bool>>> = vec![];
        let mut order: Vec<usize> = vec![];
        let mut widest = 0;
        for op in ops {
            match op {
                Op::Attach => {
                    let f = Rc::new(Cell::new(false));
                    let r: Rc<RefCell<dyn Observer>> = Rc::new(RefCell::new(Recorder { id: live.len(), fail: f.clone(), log: log.clone() }));
                    sub.observable().attach(Rc::clone(&r));
                    order.push(live.len());
                    live.push(Some(r));
                    flags.push(f);
                }
                Op::AttachAgain(i) if !live.is_empty() => {
                    let i = *i as usize % live.len();
                    if let Some(r) = &live[i] { sub.observable().attach(Rc::clone(r)); order.push(i); }
                }
                Op::Drop(i) if !live.is_empty() => { let i = *i as usize % live.len(); live[i] = None; order.retain(|x| *x != i); }
                Op::Fail(i, b) if !live.is_empty() => flags[*i as usize % flags.len()].set(*b),
                Op::Set(i, v) if !quotes.is_empty() => { let i = *i as usize % quotes.len(); quotes[i] = *v; sub.set(&quotes); }
                Op::Push(v) => { quotes.push(*v); sub.set(&quotes); }
                Op::Pop => { quotes.pop(); sub.set(&quotes); }
                Op::Notify => {
                    log.borrow_mut().clear();
                    let r = sub.observable().notify_observers();
                    let stop = order.iter().position(|i| flags[*i].get());
                    let want: Vec<(usize, Vec<f64>)> = order[..stop.unwrap_or(order.len())].iter().map(|i| (*i, quotes.clone())).collect();
                    ensure!(*log.borrow() == want, "updates seen {:?}, expected {:?}", log.borrow(), want);
                    ensure!(r.is_err() == stop.is_some(), "notification returned {r:?} with a refusing observer at {stop:?}");
                    widest = widest.max(want.len());
                }
                _ => {}
            }
        }
        // observers are held weakly: nothing else keeps them alive
        for r in live.iter().flatten() { ensure!(Rc::strong_count(r) == 1, "the observable keeps its observers alive"); }
        seen_as(widest > 1, ["forward points", "yield quotes", "cap quotes"][*kind as usize % 3])
    });
    s.prop("curves_follow_quotes", 1500, 40000, || (raw_ir(), prop::collection::vec((0u8..5, any::<u8>(), -0.003f64..0.003, any::<bool>()), 1..8)), |(q, edits)| {
        let mut md = q.make();
        let curves: Vec<Rc<RefCell<dyn Observer>>> = (0..2).map(|i| Rc::new(RefCell::new(YieldTermStructure::new(small_cal(i), counter(i), q.val, vec![]))) as Rc<RefCell<dyn Observer>>).collect();
        for c in &curves { md.attach(Rc::clone(c)); }
        let mut changes = 0;
        let mut before: Vec<StrippedCurve> = vec![];
        let mut base = q.clone();
        for (what, i, v, notify) in edits {
            match what {
                0 if !md.cash_quote.is_empty() => { let i = *i as usize % md.cash_quote.len(); md.cash_quote[i].value += v; base.cash[i].value += v; }
                1 if !md.futures_quote.is_empty() => { let i = *i as usize % md.futures_quote.len(); md.futures_quote[i].value += v * 100.0; base.futures[i].price += v * 100.0; }
                2 if !md.swap_quote.is_empty() => {
                    let i = *i as usize % md.swap_quote.len();
                    base.swaps[i].coupon += v;
                    md.swap_quote[i].legs[0].swap_type = InterestRateSwapLegType::Fixed { coupon: base.swaps[i].coupon };
                }
                3 if q.futures.is_empty() && q.swaps.is_empty() => { let d = add_days(base.val, *i as i64 % 5); md.valuation_date = d; base.val = d; }
                4 if md.swap_quote.len() > 1 => { md.swap_quote.pop(); base.swaps.pop(); }
                _ => {}
            }
            if !notify { continue; }
            md.notify_observers().map_err(e2f)?;
            let want = base.make().get_stripped_curve().map_err(e2f)?;
            if want != before { changes += 1; }
            for c in &curves {
                let b = c.borrow();
                let y = b.as_any().downcast_ref::<YieldTermStructure>().unwrap();
                ensure!(y.stripped_curves.len() == want.len(), "the curve has {} pillars, a fresh one {}", y.stripped_curves.len(), want.len());
                for (a, w) in y.stripped_curves.iter().zip(&want) {
                    ensure!(a.date == w.date && close(a.zero_rate, w.zero_rate, 1e-12, 1e-15) && close(a.discount, w.discount, 1e-12, 0.0), "pillar {a:?} after the update, {w:?} when built afresh");
                }
                let fresh = YieldTermStructure::new(small_cal(0), counter(0), base.val, want.clone());
                for n in [0i64, 1, 30, 200, 700, 4000] {
                    let d = add_days(base.val, n);
                    near(&format!("discount on {d} after the update"), y.discount(d, &STEP).map_err(e2f)?, fresh.discount(d, &STEP).map_err(e2f)?, 1e-13, 0.0)?;
                }
                drop(b);
            }
            before = want;
        }
        // an unrelated observable leaves a curve alone
        let c = &curves[0];
        let mut h = FXForwardHelper::new(q.val, 1.0, vec![]);
        h.attach(Rc::clone(c));
        h.notify_observers().map_err(e2f)?;
        ensure!(c.borrow().as_any().downcast_ref::<YieldTermStructure>().unwrap().stripped_curves == before || changes == 0, "an unrelated observable changed the curve");
        seen(changes > 0)
    });
}

// ------------------------------------------------------------------ P36
pub fn p36(s: &mut Suite) {
    s.rule("Every index (enumerated) with every tenor of the deposit grid over every date 2000-2060; generated start dates for futures.");
    s.assume("Conventions as published: overnight indices fix same day; EURIBOR fixes two days ahead; AONIA, SONIA and CDOR use Act/365, the others Act/360.");
    let idx = |k: usize, p: Period| match k { 0 => Ix::AONIA, 1 => Ix::CDOR(p), 2 => Ix::EONIA, 3 => Ix::ESTR, 4 => Ix::EUIBOR(p), 5 => Ix::SONIA, _ => Ix::SOFR };
    let tenors = [Period::Days(1), Period::Days(5), Period::Weeks(1), Period::Weeks(2), Period::Weeks(3), Period::Months(1), Period::Months(2), Period::Months(3), Period::Months(6), Period::Months(9), Period::Months(12), Period::Years(1)];
    let mut items = vec![];
    for k in 0..7usize { for t in 0..tenors.len() { if t == 0 || k == 1 || k == 4 { items.push((k, t)); } } }
    s.enumerate("indices", items, move |(k, t)| {
        let p = tenors[*t];
        let i = InterestRateIndex::from_enum(idx(*k, p)).ok_or("no index")?;
        let (ccy, cal, basis, lag): (Currency, Box<dyn Calendar>, f64, i64) = match k {
            0 => (Currency::AUD, Box::new(Australia::default()), 365.0, 0),
            1 => (Currency::CAD, Box::new(Canada::default()), 365.0, 0),
            2 | 3 => (Currency::EUR, Box::new(Target), 360.0, 0),
            4 => (Currency::EUR, Box::new(Target), 360.0, 2),
            5 => (Currency::GBP, Box::new(UnitedKingdom::default()), 365.0, 0),
            _ => (Currency::USD, Box::new(UnitedStates { market: Some(unitedstates::UnitedStatesMarket::SOFR) }), 360.0, 0),
        };
        ensure!(i.currency == ccy, "currency {:?}", i.currency);
        ensure!(i.settlement_days == lag, "settlement days {}", i.settlement_days);
        ensure!(!i.end_of_month, "end of month");
        let want = if *k == 4 && matches!(p, Period::Days(_) | Period::Weeks(_)) { Bdc::Following } else { Bdc::ModifiedFollowing };
        ensure!(i.convention == want, "convention {:?}", i.convention);
        ensure!(i.period == if *k == 1 || *k == 4 { p } else { Period::SPOT }, "period {:?}", i.period);
        near("year fraction", i.day_counter.year_fraction(ymd(2023, 1, 10), ymd(2024, 5, 3)).map_err(e2f)?, 479.0 / basis, 1e-14, 0.0)?;
        if *t == 0 {
            let mut d = ymd(2000, 1, 1);
            while d.year() <= 2060 { ensure!(i.calendar.is_business_day(d) == cal.is_business_day(d), "{d} open={}", i.calendar.is_business_day(d)); d = add_days(d, 1); }
        }
        seen(true)
    });
    s.prop("futures_maturity", 20000, 400000, || (edgy_date(1960, 2120), 0u32..13), |(d, m)| {
        let f = InterestRateFutures::new(Period::Months(*m));
        let end = f.maturity_date(*d).map_err(e2f)?;
        let t = Target.advance(*d, Period::Months(*m), Bdc::ModifiedFollowing, Some(false)).map_err(e2f)?.unwrap();
        let want = third_wednesday(t.year(), t.month());
        ensure!(end == want, "a {m}-month future from {d} ends {end}, expected {want}");
        seen(true)
    });
    s.prop("futures_rate", 20000, 400000, || (raw_ir(), 80.0f64..105.0, -0.2f64..0.2), |(q, price, cv)| {
        let f = RawFuture { start: third_wednesday(q.val.year() + 1, (q.val.month() % 4) * 3 + 3), price: *price, convexity: *cv };
        let r = f.make();
        near("implied rate", r.implied_quote(), (100.0 - price + cv) / 100.0, 1e-12, 1e-14)?;
        ensure!(r.settle_date(q.val).map_err(e2f)? == f.start, "{} starts {}, expected {}", f.code(), r.settle_date(q.val).map_err(e2f)?, f.start);
        ensure!(r.maturity_date(q.val).map_err(e2f)? == f.end(), "{} ends {}, expected {}", f.code(), r.maturity_date(q.val).map_err(e2f)?, f.end());
        seen(true)
    });
}
