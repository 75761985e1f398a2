//! P34: generalised forward market model — tenor, decay, dynamics, bonds — and its FX hybrid.
use super::hhw::{gram, min_pivot};
use super::hlmm::{RawSide, RawTenor, cnear, pick_expiry, raw_side, raw_tenor, tenor_dates};
use super::util::*;
use crate::core::*;
use crate::ensure;
use finquant::models::common::cir::CirProcess;
use finquant::models::common::simulation::SimulationModel;
use finquant::models::forex::fx_fmm::*;
use finquant::models::forex::fx_fmm_simulator::*;
use finquant::models::forex::fx_fmm1_chf::*;
use finquant::models::interestrate::fmm::*;
use num_complex::Complex64;
use proptest::prelude::*;

fn gamma(dates: &[f64], j: usize, t: f64) -> f64 { ((dates[j] - t) / (dates[j] - dates[j - 1])).clamp(0.0, 1.0) }

/// Volatility: 0 constant, 1 per-rate steps, 2 Ho–Lee/Hull–White shape.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Raw {
    tenor: RawTenor,
    sig: Vec<f64>,
    corr: Vec<Vec<f64>>,
    betas: Option<Vec<f64>>,
    mode: u8,
    knots: Vec<Vec<(f64, f64)>>,
    hl: (f64, f64),
}
fn raw_model() -> impl Strategy<Value = Raw> {
    raw_tenor(5).prop_flat_map(|t| {
        let n = t.1.len();
        (Just(t), prop::collection::vec(prop_oneof![6 => 0.001f64..0.03, 1 => Just(0.0)], n), gram(n), prop::option::weighted(0.4, prop::collection::vec(prop_oneof![3 => 0.0f64..1.0, 1 => Just(1.0), 1 => Just(0.0)], n)), 0u8..4, prop::collection::vec(prop::collection::vec((0.05f64..1.5, 0.001f64..0.03), 1..4), n), (0.001f64..0.03, prop_oneof![4 => -0.3f64..0.8, 1 => Just(0.0)]))
    }).prop_map(|(tenor, sig, corr, betas, mode, knots, hl)| Raw { tenor, sig, corr, betas, mode, knots, hl })
}
impl Raw {
    fn n(&self) -> usize { self.sig.len() }
    fn dates(&self) -> Vec<f64> { tenor_dates(&self.tenor) }
    fn rates(&self) -> Vec<f64> { self.tenor.1.iter().map(|x| x.1).collect() }
    fn steps(&self) -> Vec<Vec<(f64, f64)>> {
        self.knots.iter().map(|k| { let mut t = 0.0; k.iter().enumerate().map(|(i, (d, s))| { if i > 0 { t += d; } (t, *s) }).collect() }).collect()
    }
    fn model(&self) -> Fmm {
        let mut m = Fmm::new(FmmTenor::new(self.dates(), self.rates()), self.sig.clone(), self.corr.clone(), LinearDecay);
        if let Some(b) = &self.betas { m = m.with_betas(b.clone()); }
        match self.mode { 1 => m.with_vol_schedule(VolSchedule::PiecewiseConstant(self.steps())), 2 => m.with_vol_schedule(VolSchedule::HoLeeEquivalent { vol: self.hl.0, mean_reversion: self.hl.1 }), _ => m }
    }
    fn sigma(&self, j: usize, t: f64) -> f64 {
        match self.mode {
            1 => { let k = &self.steps()[j - 1]; k.iter().filter(|x| x.0 <= t).last().unwrap_or(&k[0]).1 }
            2 => {
                let d = self.dates();
                if t >= d[j] { return 0.0; }
                // vol · ∫ e^{−a(s−t)} ds over the rate's own period
                quad(|s| (-self.hl.1 * (s - t)).exp(), d[j - 1], d[j], 16) * self.hl.0
            }
            _ => self.sig[j - 1],
        }
    }
    fn level(&self, j: usize, r: f64) -> f64 { match &self.betas { None => 1.0, Some(b) => b[j - 1] * r + (1.0 - b[j - 1]) * self.tenor.1[j - 1].1 } }
    fn vol(&self, j: usize, t: f64, r: f64) -> f64 { self.sigma(j, t) * self.level(j, r) }
}
/// One Euler step of one currency's rates, their diagonal variances, the in-period state and the period-start snapshots.
#[derive(Clone, Debug, PartialEq)]
struct Side { r: Vec<f64>, y: Vec<f64>, r0: Vec<f64>, y0: Vec<f64>, x: f64 }
fn side_step(dates: &[f64], corr: &[Vec<f64>], s: &Side, t: f64, t1: f64, dt: f64, dw: &[f64], vol: &dyn Fn(usize, f64, f64) -> f64, shift: &dyn Fn(usize) -> f64) -> Side {
    let m = dates.len() - 1;
    let mid = t + 0.5 * dt;
    let tau = |j: usize| dates[j] - dates[j - 1];
    let v: Vec<f64> = (1..=m).map(|j| vol(j, mid, s.r[j - 1]) * gamma(dates, j, mid)).collect();
    let mut n = s.clone();
    for j in 1..=m {
        let sum: f64 = (1..=j).map(|i| corr[i - 1][j - 1] * v[i - 1] / (s.r[i - 1] + 1.0 / tau(i))).sum();
        n.r[j - 1] = s.r[j - 1] + v[j - 1] * ((sum - shift(j)) * dt + dw[j - 1]);
        let w = (dates[j] - t).max(0.0).min(dt);
        n.y[j - 1] = s.y[j - 1] + w * (vol(j, mid, s.r[j - 1]) / (s.r[j - 1] + 1.0 / tau(j))).powi(2);
    }
    if let Some(k) = (1..=m).find(|k| dates[k - 1] <= t && t < dates[*k]) {
        let mean = 0.5 * (s.r[k - 1] + n.r[k - 1]);
        n.x = s.x + (n.y[k - 1] - s.y0[k - 1]) / tau(k) * dt + vol(k, mid, mean) / (mean + 1.0 / tau(k)) * dw[k - 1];
    }
    for k in 1..=m {
        if t < dates[k - 1] && dates[k - 1] <= t1 { n.r0[k - 1] = n.r[k - 1]; n.y0[k - 1] = n.y[k - 1]; n.x = 0.0; }
    }
    n
}
fn same_side(what: &str, a: &Side, b: &Side, tol: f64) -> Result<(), Fail> {
    for k in 0..a.r.len() {
        near(&format!("{what}: rate {}", k + 1), a.r[k], b.r[k], 0.0, tol)?;
        near(&format!("{what}: variance of rate {}", k + 1), a.y[k], b.y[k], 1e-9, 1e-14)?;
        near(&format!("{what}: rate {} at its period start", k + 1), a.r0[k], b.r0[k], 0.0, tol)?;
        near(&format!("{what}: variance {} at its period start", k + 1), a.y0[k], b.y0[k], 1e-9, 1e-14)?;
    }
    near(&format!("{what}: in-period state"), a.x, b.x, 0.0, tol)
}
fn side_of(p: &FmmPath) -> Side { Side { r: p.rates.clone(), y: p.y_diag.clone(), r0: p.rates_at_start.clone(), y0: p.y_at_start.clone(), x: p.x_active } }
/// Rates that start 1000 years out, have unit volatility and almost no length: their moves are the noise itself.
fn noise_tenor(n: usize) -> FmmTenor { FmmTenor::new((0..=n).map(|k| 1000.0 + k as f64 * 1e-9).collect(), vec![0.0; n]) }
/// A step length: exactly to the next tenor date, or a fraction of the tenor.
fn pick_dt(dates: &[f64], t: f64, x: f64, mode: u8) -> f64 {
    let tn = dates[dates.len() - 1];
    if mode <= 1 { if let Some(d) = dates.iter().find(|d| **d > t + 1e-6) { return if mode == 0 { d - t } else { 0.5 * (d - t) }; } }
    tn * (0.02 + 0.3 * x)
}

/// Continuously compounded curve with piecewise-linear zero rates between the tenor dates.
struct Curve { dates: Vec<f64>, df: Vec<f64> }
impl InitialDiscountCurve for Curve {
    fn p0(&self, t: f64) -> f64 {
        let n = self.dates.len() - 1;
        let k = (1..=n).find(|k| t <= self.dates[*k]).unwrap_or(n);
        let (a, b) = (self.dates[k - 1], self.dates[k]);
        let w = (t - a) / (b - a);
        let bend = 0.03 * w * (1.0 - w) * (b - a);
        (self.df[k - 1].ln() * (1.0 - w) + self.df[k].ln() * w + bend).exp()
    }
}
/// A curve whose simple forwards over the tenor periods are the initial rates.
fn curve(dates: &[f64], rates: &[f64]) -> Curve {
    let mut df = vec![1.0];
    for (k, r) in rates.iter().enumerate() { df.push(df[k] / (1.0 + (dates[k + 1] - dates[k]) * r)); }
    Curve { dates: dates.to_vec(), df }
}
/// Log of the back-stub forward bond: base, and the two exponents.
fn back_ref(dates: &[f64], cv: &Curve, p: &Side, k: usize, bt: f64) -> f64 {
    let g = (bt - dates[k - 1]) / (dates[k] - dates[k - 1]);
    let tau = dates[k] - dates[k - 1];
    (cv.p0(bt) / cv.p0(dates[k - 1])).ln() - g * (1.0 + tau * p.r[k - 1]).ln() - g * (cv.p0(dates[k]) / cv.p0(dates[k - 1])).ln() + 0.5 * g * (1.0 - g) * p.y[k - 1]
}
fn front_ref(dates: &[f64], cv: &Curve, p: &Side, k: usize, t: f64, bt: f64) -> f64 {
    let tau = dates[k] - dates[k - 1];
    let (a, b) = ((t - dates[k - 1]) / tau, (bt - dates[k - 1]) / tau);
    let g = b - a;
    (cv.p0(bt) / cv.p0(t)).ln() - g * (1.0 + tau * p.r0[k - 1]).ln() - g * (cv.p0(dates[k]) / cv.p0(dates[k - 1])).ln() - g * p.x - 0.5 * g * g * (p.y[k - 1] - p.y0[k - 1]) + 0.5 * p.y0[k - 1] * (b * (1.0 - b) - a * (1.0 - a))
}
fn bond_ref(dates: &[f64], cv: &Curve, p: &Side, t: f64, bt: f64) -> f64 {
    let m = dates.len() - 1;
    let eta = |s: f64| (1..=m).find(|k| dates[*k] >= s).unwrap_or(m + 1);
    let (a, b) = (eta(t), eta(bt));
    let stub = |k: usize, s: f64| if t <= dates[k - 1] { back_ref(dates, cv, p, k, s) } else { front_ref(dates, cv, p, k, t, s) };
    if a == b { return stub(a, bt).exp(); }
    let mid: f64 = (a + 1..b).map(|j| -(1.0 + (dates[j] - dates[j - 1]) * p.r[j - 1]).ln()).sum();
    (stub(a, dates[a]) + mid + back_ref(dates, cv, p, b, bt)).exp()
}

// ------------------------------------------------------------------ FX hybrid
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct RawFx {
    pub tenor: RawTenor,
    pub heston: (f64, f64, f64, f64),
    pub fx: f64,
    pub d: RawSide,
    pub f: RawSide,
    /// FX, FX variance, domestic rates, foreign rates
    pub corr: Vec<Vec<f64>>,
}
pub fn raw_fx() -> impl Strategy<Value = RawFx> {
    raw_tenor(4).prop_flat_map(|t| {
        let n = t.1.len();
        (Just(t), (prop_oneof![6 => 0.1f64..3.0, 1 => (-16.0f64..-2.0).prop_map(f64::exp), 1 => 3.0f64..12.0], prop_oneof![6 => 0.005f64..0.2, 1 => (-12.0f64..-5.0).prop_map(f64::exp), 1 => 0.2f64..0.6], prop_oneof![6 => 0.05f64..0.9, 1 => 0.01f64..0.05, 1 => (-18.0f64..-4.0).prop_map(f64::exp), 1 => 0.9f64..2.0], prop_oneof![6 => 0.005f64..0.2, 1 => (-12.0f64..-5.0).prop_map(f64::exp), 1 => 0.2f64..0.6]), prop_oneof![0.5f64..2.0, 20.0f64..200.0], raw_side(n), raw_side(n), gram(2 + 2 * n), prop_oneof![2 => Just(1.0f64), 3 => 0.2f64..0.9], any::<bool>())
    }).prop_map(|(tenor, heston, fx, mut d, mut f, mut corr, shrink, sym)| {
        let n = tenor.1.len();
        // rate volatilities are absolute: 20 to 600 basis points
        for x in d.0.iter_mut().chain(f.0.iter_mut()) { x.0 *= 0.1; }
        for i in 0..corr.len() { for j in 0..corr.len() { if i != j { corr[i][j] *= shrink; } } }
        if sym {
            for i in 0..n { for j in 0..i { let a = 0.5 * (corr[2 + i][2 + n + j] + corr[2 + j][2 + n + i]); for (r, c) in [(i, j), (j, i)] { corr[2 + r][2 + n + c] = a; corr[2 + n + c][2 + r] = a; } } }
        }
        RawFx { tenor, heston, fx, d, f, corr }
    })
}
pub fn build(r: &RawFx) -> FxFmmParams {
    let n = r.tenor.1.len();
    let block = |a: usize, b: usize| -> Vec<Vec<f64>> { (0..n).map(|i| (0..n).map(|j| r.corr[a + i][b + j].clamp(-1.0, 1.0)).collect()).collect() };
    let row = |a: usize, b: usize| -> Vec<f64> { (0..n).map(|j| r.corr[a][b + j].clamp(-1.0, 1.0)).collect() };
    let side = |s: &RawSide, a: usize| FmmSide { sigmas: s.0.iter().map(|x| x.0).collect(), lambda: s.1, eta: s.2, v_0: s.3, rate_corr: block(a, a), decay: LinearDecay };
    FxFmmParams {
        fx_0: r.fx,
        heston: CirProcess { kappa: r.heston.0, theta: r.heston.1, gamma: r.heston.2, sigma_0: r.heston.3 },
        tenor: FmmTenor::new(tenor_dates(&r.tenor), r.tenor.1.iter().map(|x| x.1).collect()),
        domestic: side(&r.d, 2),
        foreign: side(&r.f, 2 + n),
        correlations: FxFmmCorrelations { rho_xi_sigma: r.corr[0][1].clamp(-1.0, 1.0), rho_xi_d: row(0, 2), rho_xi_f: row(0, 2 + n), rho_sigma_d: row(1, 2), rho_sigma_f: row(1, 2 + n), cross_rate_corr: block(2, 2 + n) },
    }
}
/// The simulator's joint correlation: the cross-currency block is symmetrised, as documented.
fn joint(r: &RawFx) -> Vec<Vec<f64>> {
    let n = r.tenor.1.len();
    let mut c = r.corr.clone();
    for i in 0..n { for j in 0..n { let a = 0.5 * (r.corr[2 + i][2 + n + j] + r.corr[2 + j][2 + n + i]); c[2 + i][2 + n + j] = a; c[2 + n + j][2 + i] = a; } }
    c
}
fn loadings(r: &RawFx, s: &RawSide, t: f64) -> Vec<f64> {
    let d = tenor_dates(&r.tenor);
    s.0.iter().enumerate().map(|(k, x)| x.0 * gamma(&d, k + 1, t) / (r.tenor.1[k].1 + 1.0 / (d[k + 1] - d[k]))).collect()
}
fn root(s: &RawSide, t: f64) -> f64 { CirProcess { kappa: s.1, theta: s.3, gamma: s.2, sigma_0: s.3 }.sqrt_mean(t) }
fn sums(r: &RawFx, t: f64, start: usize) -> (f64, f64, f64) {
    let n = r.tenor.1.len();
    let (mut pd, mut pf) = (loadings(r, &r.d, t), loadings(r, &r.f, t));
    for k in 0..n { if k + 1 < start { pd[k] = 0.0; pf[k] = 0.0; } }
    let (mut ad, mut af, mut xd, mut xf, mut df) = (0.0, 0.0, 0.0, 0.0, 0.0);
    for i in 0..n {
        xd += pd[i] * r.corr[0][2 + i];
        xf += pf[i] * r.corr[0][2 + n + i];
        for j in 0..n {
            ad += pd[i] * pd[j] * r.corr[2 + i][2 + j];
            af += pf[i] * pf[j] * r.corr[2 + n + i][2 + n + j];
            df += pd[i] * pf[j] * r.corr[2 + i][2 + n + j];
        }
    }
    let h = CirProcess { kappa: r.heston.0, theta: r.heston.1, gamma: r.heston.2, sigma_0: r.heston.3 }.sqrt_mean(t);
    let (vd, vf) = (root(&r.d, t), root(&r.f, t));
    (ad, af, 2.0 * (h * vd * xd - h * vf * xf - vd * vf * df))
}
/// A, C, D_d, D_f by RK4 over time to maturity. Rate variances are frozen at the midpoint of each of `chunks`
/// equal parts of a tenor segment when given, and continuous otherwise.
fn equations(r: &RawFx, p: &FxFmmParams, expiry: f64, u: Complex64, per: usize, chunks: Option<usize>) -> [Complex64; 4] {
    let dates = tenor_dates(&r.tenor);
    let iu = c(0.0, 1.0) * u;
    let mut cuts: Vec<f64> = dates.iter().map(|d| expiry - d).filter(|x| *x > 0.0 && *x < expiry).collect();
    cuts.push(0.0);
    cuts.push(expiry);
    cuts.sort_by(f64::total_cmp);
    let half = 0.5 * (iu * iu - iu);
    let h = &p.heston;
    let rho = p.correlations.rho_xi_sigma;
    let mut y = vec![c(0.0, 0.0); 4];
    for w in cuts.windows(2) {
        if w[1] - w[0] < 1e-14 { continue; }
        for q in 0..chunks.unwrap_or(1) {
            let n = chunks.unwrap_or(1) as f64;
            let (lo, hi) = (w[0] + (w[1] - w[0]) * q as f64 / n, w[0] + (w[1] - w[0]) * (q + 1) as f64 / n);
            let (mut ad, mut af, mut ff) = (vec![], vec![], vec![]);
            let mid = sums(r, expiry - 0.5 * (lo + hi), 1);
            for k in 0..=2 * per {
                let x = sums(r, (expiry - lo - (hi - lo) * k as f64 / (2 * per) as f64).max(0.0), 1);
                if chunks.is_some() { ad.push(mid.0); af.push(mid.1); } else { ad.push(x.0); af.push(x.1); }
                ff.push(x.2);
            }
            let rhs = |s: f64, y: &[Complex64]| {
                let i = (((s - lo) / (hi - lo) * (2 * per) as f64).round() as usize).min(2 * per);
                let (cc, dd, df) = (y[1], y[2], y[3]);
                vec![
                    cc * (h.kappa * h.theta) + dd * (r.d.1 * r.d.3) + df * (r.f.1 * r.f.3) + half * ff[i],
                    half - cc * h.kappa + iu * cc * (h.gamma * rho) + cc * cc * (0.5 * h.gamma * h.gamma),
                    half * ad[i] - dd * r.d.1 + dd * dd * (0.5 * r.d.2 * r.d.2),
                    half * af[i] - df * r.f.1 + df * df * (0.5 * r.f.2 * r.f.2),
                ]
            };
            y = integrate(&y, lo, hi, per, &rhs);
        }
    }
    [y[0], y[1], y[2], y[3]]
}
fn fx_sides(s: &FxFmmState) -> (Side, Side) {
    (Side { r: s.rates_d.clone(), y: s.y_diag_d.clone(), r0: s.rates_at_start_d.clone(), y0: s.y_at_start_d.clone(), x: s.x_active_d }, Side { r: s.rates_f.clone(), y: s.y_diag_f.clone(), r0: s.rates_at_start_f.clone(), y0: s.y_at_start_f.clone(), x: s.x_active_f })
}

pub fn p34(s: &mut Suite) {
    s.rule("A case is one tenor, one model (rates, volatilities or schedule, displacements, correlation) with a sequence of steps and a seed, or one FX-hybrid parameter set with times, steps or transform arguments; non-trivial when there are at least two periods and some volatility.");
    s.assume("Simulated states are compared with the documented Euler step (decay and schedule at the step's midpoint, level at its start). The FX simulator's cross-currency correlation is the documented symmetrised block. E√v in the transform comes from the repository (decided by P25).");
    s.prop("tenor_and_decay", 4000, 80000, || (raw_tenor(8), prop::collection::vec((0.0f64..1.3, 0u8..3), 2..6), 0usize..8), |(t, xs, bad)| {
        let dates = tenor_dates(t);
        let rates: Vec<f64> = t.1.iter().map(|x| x.1).collect();
        let n = rates.len();
        let ten = FmmTenor::new(dates.clone(), rates.clone());
        ensure!(ten.m() == n, "rate count");
        let pts: Vec<f64> = xs.iter().map(|(f, mode)| match mode { 0 => f * dates[n], 1 => dates[(f * n as f64) as usize % (n + 1)], _ => dates[0] + (dates[n] - dates[0]) * f }).collect();
        for k in 1..=n {
            near("accrual", ten.tau(k), t.1[k - 1].0, 1e-12, 1e-12)?;
            for x in &pts {
                let g = LinearDecay.gamma(k, *x, &ten);
                near(&format!("decay of rate {k} at {x}"), g, gamma(&dates, k, *x), 0.0, 1e-12)?;
                ensure!((g == 1.0) >= (*x <= dates[k - 1]) && (g == 0.0) >= (*x >= dates[k]), "decay {g} outside the period");
                for y in &pts { near("decay difference", LinearDecay.big_g(k, *x, *y, &ten), gamma(&dates, k, *x) - gamma(&dates, k, *y), 0.0, 1e-12)?; }
            }
        }
        for x in &pts {
            let want = (1..=n).find(|k| *x <= dates[*k]).unwrap_or(n + 1);
            ensure!(ten.eta(*x) == want, "eta({x}) is {}, expected {want} for {dates:?}", ten.eta(*x));
        }
        ensure!(guarded(|| ten.tau(0)).is_err() && guarded(|| ten.tau(n + 1)).is_err(), "period outside the tenor accepted");
        let i = bad % n;
        let mut d2 = dates.clone();
        d2[i + 1] = d2[i];
        ensure!(guarded(|| FmmTenor::new(d2.clone(), rates.clone())).is_err(), "repeated date accepted");
        ensure!(guarded(|| FmmTenor::new(dates[..n].to_vec(), rates.clone())).is_err(), "missing date accepted");
        ensure!(guarded(|| FmmTenor::new(vec![0.0], vec![])).is_err(), "empty tenor accepted");
        let mut d3 = dates.clone();
        d3[0] = -0.01;
        ensure!(guarded(|| FmmTenor::new(d3.clone(), rates.clone())).is_err(), "start before valuation accepted");
        seen(n >= 2)
    });
    s.prop("volatility_levels_and_schedules", 3000, 50000, || (raw_model(), prop::collection::vec(0.0f64..1.2, 1..5), -0.05f64..0.2, 0usize..8, 0.001f64..1.0), |(r, ts, rate, bad, e)| {
        let m = r.model();
        let n = r.n();
        let tn = r.dates()[n];
        for j in 1..=n {
            near("level", m.displacement_level(j, *rate), r.level(j, *rate), 1e-13, 1e-15)?;
            for t in ts {
                let t = t * tn;
                let rel = if r.mode == 2 && r.hl.1 != 0.0 { 1e-9 + 1e-15 / (r.hl.1.abs() * (r.dates()[j] - r.dates()[j - 1])) } else { 1e-12 };
                near(&format!("volatility of rate {j} at {t}"), m.sigma_at(j, t), r.sigma(j, t), rel, 1e-15)?;
                near("adapted volatility", m.adapted_vol(j, t, *rate), r.vol(j, t, *rate), rel, 1e-15)?;
            }
            if r.mode == 1 { for (t, v) in &r.steps()[j - 1] { ensure!(m.sigma_at(j, *t) == *v, "volatility at its own knot"); } }
        }
        // inconsistent constructions
        let i = bad % n;
        let ten = FmmTenor::new(r.dates(), r.rates());
        let mk = |s: Vec<f64>, c: Vec<Vec<f64>>| guarded(|| { Fmm::new(ten.clone(), s, c, LinearDecay); }).is_err();
        ensure!(!mk(r.sig.clone(), r.corr.clone()), "consistent model rejected");
        let mut sg = r.sig.clone();
        sg[i] = -e;
        ensure!(mk(sg.clone(), r.corr.clone()), "negative volatility accepted");
        sg[i] = f64::NAN;
        ensure!(mk(sg.clone(), r.corr.clone()), "volatility that is not a number accepted");
        sg.pop();
        ensure!(mk(sg, r.corr.clone()), "missing volatility accepted");
        let mut cc = r.corr.clone();
        cc[i][i] -= e;
        ensure!(mk(r.sig.clone(), cc), "diagonal other than one accepted");
        let mut cc = r.corr.clone();
        cc[i].push(0.0);
        ensure!(mk(r.sig.clone(), cc), "ragged correlation accepted");
        if n > 1 {
            let j = (i + 1) % n;
            let mut cc = r.corr.clone();
            cc[i][j] += if cc[i][j] > 0.0 { -e } else { *e };
            ensure!(mk(r.sig.clone(), cc.clone()), "asymmetric correlation accepted");
            cc[i][j] = 1.0 + e;
            cc[j][i] = 1.0 + e;
            ensure!(mk(r.sig.clone(), cc), "correlation above one accepted");
        }
        let base = Fmm::new(ten.clone(), r.sig.clone(), r.corr.clone(), LinearDecay);
        let mut b = vec![0.5; n];
        b[i] = if bad % 2 == 0 { -e } else { 1.0 + e };
        ensure!(guarded(|| base.clone().with_betas(b.clone())).is_err(), "displacement outside [0, 1] accepted");
        ensure!(guarded(|| base.clone().with_betas(vec![0.5; n + 1])).is_err(), "extra displacement accepted");
        let mut k = r.steps();
        let last = k[i][k[i].len() - 1].0;
        k[i].push((last, 0.01));
        ensure!(guarded(|| base.clone().with_vol_schedule(VolSchedule::PiecewiseConstant(k.clone()))).is_err(), "repeated knot accepted");
        k[i].clear();
        ensure!(guarded(|| base.clone().with_vol_schedule(VolSchedule::PiecewiseConstant(k.clone()))).is_err(), "schedule without a knot accepted");
        k.pop();
        ensure!(guarded(|| base.clone().with_vol_schedule(VolSchedule::PiecewiseConstant(k))).is_err(), "schedule with a missing rate accepted");
        seen_as(n >= 2, ["constant", "steps", "Ho-Lee shape", "constant"][r.mode as usize])
    });
    s.prop("rate_steps_follow_the_dynamics", 400, 8000, || (raw_model(), prop::collection::vec((0.0f64..1.0, 0u8..5), 1..25), any::<u64>()), |(r, steps, seed)| {
        let n = r.n();
        let piv = min_pivot(&r.corr);
        if piv.abs() < 1e-9 { return seen(false); }
        let m = r.model();
        let noise = Fmm::new(noise_tenor(n), vec![1.0; n], r.corr.clone(), LinearDecay);
        let (Ok(mut a), Ok(mut z), Ok(mut b)) = (FmmSimulator::new(m.clone(), *seed), FmmSimulator::new(noise, *seed), FmmSimulator::new(m, *seed)) else {
            ensure!(piv < 0.0, "an admissible correlation was refused");
            return seen(false);
        };
        ensure!(piv > 0.0, "an inadmissible correlation was accepted");
        let dates = r.dates();
        let mut p = a.initial_path();
        ensure!(p.rates == r.rates() && p.t == 0.0 && p.x_active == 0.0 && p.y_diag.iter().chain(&p.y_at_start).all(|y| *y == 0.0) && p.rates_at_start[0] == p.rates[0], "initial path {p:?}");
        let mut q = SimulationModel::initial_state(&b);
        let mut zs = vec![];
        let mut hit = 0;
        for (x, mode) in steps {
            let dt = pick_dt(&dates, p.t, *x, *mode);
            let blank = z.initial_path();
            let mut w = blank.clone();
            z.step(&mut w, dt);
            let dw: Vec<f64> = (0..n).map(|k| w.rates[k] - blank.rates[k]).collect();
            let (t, before) = (p.t, side_of(&p));
            if before.r.iter().enumerate().any(|(k, x)| 1.0 + x * (dates[k + 1] - dates[k]) < 0.3) { break; }
            a.step(&mut p, dt);
            ensure!(p.t == t + dt, "time");
            let want = side_step(&dates, &r.corr, &before, t, p.t, dt, &dw, &|j, t, x| r.vol(j, t, x), &|_| 0.0);
            same_side(&format!("step of {dt} from {t}"), &side_of(&p), &want, 1e-9 * (1.0 + 10.0 * dt))?;
            for k in 1..=n { if dates[k] <= t { ensure!(p.rates[k - 1] == before.r[k - 1] && p.y_diag[k - 1] == before.y[k - 1], "rate {k} moved after its period ended"); } }
            if let Some(k) = (1..=n).find(|k| dates[k - 1] == p.t) { hit += 1; ensure!(p.rates_at_start[k - 1] == p.rates[k - 1] && p.x_active == 0.0, "snapshot at the start of period {k}"); }
            q = SimulationModel::step(&mut b, &q, t, dt);
            ensure!(q == p, "trait step differs from step");
            zs.push(dw.iter().map(|x| x / dt.sqrt()).collect::<Vec<f64>>());
        }
        if zs.len() > 10 { check_normals(&zs, &r.corr)?; }
        seen_as(n >= 2 && r.sig.iter().any(|x| *x > 0.0), if hit > 0 { "lands on a tenor date" } else { "straddles" })
    });
    s.prop("noise_is_standard_and_seeded", 25, 400, || (raw_fx(), 0.05f64..2.0, 1usize..8, 1usize..4, any::<u64>(), any::<u64>()), |(r, t, n, np, s1, s2)| {
        let k = r.tenor.1.len();
        let blk: Vec<Vec<f64>> = (0..k).map(|i| (0..k).map(|j| r.corr[2 + i][2 + j]).collect()).collect();
        if min_pivot(&blk) > 1e-6 {
            let mut z = FmmSimulator::new(Fmm::new(noise_tenor(k), vec![1.0; k], blk.clone(), LinearDecay), *s1)?;
            let zs: Vec<Vec<f64>> = (0..20000).map(|_| { let mut w = z.initial_path(); z.step(&mut w, 0.25); w.rates.iter().map(|x| x * 2.0).collect() }).collect();
            check_normals(&zs, &blk)?;
            let m = Fmm::new(FmmTenor::new(tenor_dates(&r.tenor), r.tenor.1.iter().map(|x| x.1).collect()), vec![0.01; k], blk, LinearDecay);
            let run = |sd| FmmSimulator::new(m.clone(), sd).unwrap().simulate_terminal(*t, *n, *np);
            let out = run(*s1);
            ensure!(out == run(*s1) && out.len() == *np, "not a function of the seed");
            ensure!(s1 == s2 || *t > tenor_dates(&r.tenor)[k] || out != run(*s2), "different seeds, same paths");
            let mut a = FmmSimulator::new(m.clone(), *s1)?;
            for o in &out {
                let mut p = a.initial_path();
                for _ in 0..*n { a.step(&mut p, t / *n as f64); }
                ensure!(*o == p, "terminal path differs from its steps");
            }
        }
        let j = joint(r);
        if min_pivot(&j) > 1e-6 {
            let p = build(r);
            let q = noise_fx(&p);
            let mut z = FxFmmSimulator::new(q.clone(), *s1)?;
            let zs: Vec<Vec<f64>> = (0..20000).map(|_| { fx_noise(&mut z, &q, 0.25).iter().map(|x| x * 2.0).collect() }).collect();
            check_normals(&zs, &j)?;
            let run = |sd| FxFmmSimulator::new(p.clone(), sd).unwrap().simulate_terminal(*t, *n, *np);
            let out = run(*s1);
            ensure!(out == run(*s1) && out.len() == *np, "FX: not a function of the seed");
            ensure!(s1 == s2 || out != run(*s2), "FX: different seeds, same paths");
            let mut a = FxFmmSimulator::new(p.clone(), *s1)?;
            for o in &out {
                let mut st = FxFmmState::initial(&p);
                for _ in 0..*n { a.step(&mut st, t / *n as f64); }
                ensure!(*o == st, "FX: terminal state differs from its steps");
            }
        }
        seen(k >= 2)
    });
    s.prop("hybrid_steps_follow_the_joint_dynamics", 400, 8000, || (raw_fx(), prop::collection::vec((0.0f64..1.0, 0u8..5), 1..20), any::<u64>()), |(r, steps, seed)| {
        let n = r.tenor.1.len();
        let jc = joint(r);
        let piv = min_pivot(&jc);
        if piv.abs() < 1e-9 { return seen_as(false, "borderline correlation"); }
        let p = build(r);
        let q = noise_fx(&p);
        let (Ok(mut a), Ok(mut z), Ok(mut b)) = (FxFmmSimulator::new(p.clone(), *seed), FxFmmSimulator::new(q.clone(), *seed), FxFmmSimulator::new(p.clone(), *seed)) else {
            ensure!(piv < 0.0, "an admissible correlation was refused");
            return seen_as(false, "inadmissible correlation");
        };
        ensure!(piv > 0.0, "an inadmissible correlation was accepted");
        let dates = tenor_dates(&r.tenor);
        let mut st = FxFmmState::initial(&p);
        ensure!(SimulationModel::initial_state(&a) == st && st.fx == p.fx_0 && st.variance == p.heston.sigma_0 && st.t == 0.0, "initial state");
        let (sd, sf) = fx_sides(&st);
        ensure!(sd == sf && sd.r == p.tenor.initial_rates && sd.x == 0.0 && sd.r0[0] == sd.r[0] && sd.y.iter().all(|y| *y == 0.0), "initial rates");
        let mut other = st.clone();
        for (x, mode) in steps {
            let dt = pick_dt(&dates, st.t, *x, *mode);
            let dw = fx_noise(&mut z, &q, dt);
            let before = st.clone();
            let (d0, f0) = fx_sides(&before);
            if (0..n).any(|k| (1.0 + d0.r[k] * (dates[k + 1] - dates[k])).min(1.0 + f0.r[k] * (dates[k + 1] - dates[k])) < 0.3) { break; }
            a.step(&mut st, dt);
            let t = before.t;
            ensure!(st.t == t + dt, "time");
            let v = before.variance;
            let k = (1..=n).find(|k| t <= dates[*k]).unwrap_or(n);
            near("FX", (st.fx / before.fx).ln(), (d0.r[k - 1] - f0.r[k - 1] - 0.5 * v) * dt + v.sqrt() * dw[0], 0.0, 1e-9)?;
            near("variance", st.variance, (v + p.heston.kappa * (p.heston.theta - v) * dt + p.heston.gamma * v.sqrt() * dw[1]).max(0.0), 0.0, 1e-9)?;
            let (d1, f1) = fx_sides(&st);
            let wd = side_step(&dates, &p.domestic.rate_corr, &d0, t, st.t, dt, &dw[2..2 + n], &|j, _, _| r.d.0[j - 1].0, &|_| 0.0);
            same_side(&format!("domestic, step of {dt} from {t}"), &d1, &wd, 1e-9 * (1.0 + 10.0 * dt))?;
            let wf = side_step(&dates, &p.foreign.rate_corr, &f0, t, st.t, dt, &dw[2 + n..], &|j, _, _| r.f.0[j - 1].0, &|j| r.corr[0][1 + n + j] * v.sqrt());
            same_side(&format!("foreign, step of {dt} from {t}"), &f1, &wf, 1e-9 * (1.0 + 10.0 * dt))?;
            other = SimulationModel::step(&mut b, &other, t, dt);
            ensure!(other == st, "trait step differs from step");
        }
        seen(n >= 2)
    });
    s.prop("bonds_and_account_follow_the_state", 500, 10000, || (raw_model(), prop::collection::vec((0.0f64..1.0, 0u8..5), 0..15), prop::collection::vec((0.0f64..1.0, 0u8..2), 1..6), any::<u64>()), |(r, steps, ends, seed)| {
        let mut r = r.clone();
        r.tenor.0 = 0.0;
        if min_pivot(&r.corr) < 1e-8 { return seen(false); }
        let m = r.model();
        let n = r.n();
        let dates = r.dates();
        let cv = curve(&dates, &r.rates());
        let mut a = FmmSimulator::new(m.clone(), *seed)?;
        let mut p = a.initial_path();
        for (x, mode) in steps {
            if p.t > dates[n] * 0.95 || p.rates.iter().enumerate().any(|(k, x)| 1.0 + x * (dates[k + 1] - dates[k]) < 0.3) { break; }
            let dt = pick_dt(&dates, p.t, x * 0.4, *mode).min((dates[n] - p.t) * 0.99);
            if dt > 1e-9 { a.step(&mut p, dt); }
        }
        if p.rates.iter().enumerate().any(|(k, x)| 1.0 + x * (dates[k + 1] - dates[k]) < 0.3) { return seen(false); }
        let st = side_of(&p);
        let eta = (1..=n).find(|k| p.t <= dates[*k]).unwrap_or(n);
        for (x, mode) in ends {
            let bt = if *mode == 0 { p.t + (dates[n] - p.t) * x } else { dates[eta + ((n - eta + 1) as f64 * x) as usize % (n - eta + 1)] };
            let v = bond_price(&m, &p, bt, &cv);
            near(&format!("bond from {} to {bt}", p.t), v, if bt - p.t < 1e-15 { 1.0 } else { bond_ref(&dates, &cv, &st, p.t, bt) }, 1e-11, 0.0)?;
            if let Some(k) = (1..=n).find(|k| dates[k - 1] < bt && bt <= dates[*k] && p.t <= dates[k - 1]) {
                near("back stub", back_stub_forward_bond(&m, &p, k, bt, cv.p0(bt) / cv.p0(dates[k - 1]), cv.p0(dates[k]) / cv.p0(dates[k - 1])), back_ref(&dates, &cv, &st, k, bt).exp(), 1e-11, 0.0)?;
                near("back stub over a whole period", back_stub_forward_bond(&m, &p, k, dates[k], cv.p0(dates[k]) / cv.p0(dates[k - 1]), cv.p0(dates[k]) / cv.p0(dates[k - 1])), 1.0 / (1.0 + (dates[k] - dates[k - 1]) * p.rates[k - 1]), 1e-11, 0.0)?;
            } else if bt > p.t && p.t > dates[eta - 1] && bt <= dates[eta] {
                near("front stub", front_stub_bond(&m, &p, bt, cv.p0(bt) / cv.p0(p.t), cv.p0(dates[eta]) / cv.p0(dates[eta - 1])), front_ref(&dates, &cv, &st, eta, p.t, bt).exp(), 1e-11, 0.0)?;
            }
        }
        let acc: f64 = (1..=eta).map(|k| 1.0 + (dates[k] - dates[k - 1]) * p.rates[k - 1]).product();
        let on_date = dates[eta] - p.t < 1e-15;
        near("bank account", bank_account(&m, &p, &cv), acc * if on_date { 1.0 } else { bond_ref(&dates, &cv, &st, p.t, dates[eta]) }, 1e-11, 0.0)?;
        ensure!(guarded(|| bond_price(&m, &p, p.t - 0.01, &cv)).is_err() && guarded(|| bond_price(&m, &p, dates[n] + 0.01, &cv)).is_err(), "maturity outside [t, end] accepted");
        // today
        let p0 = a.initial_path();
        for (x, _) in ends { near("today's bond", bond_price(&m, &p0, x * dates[n], &cv), cv.p0(x * dates[n]), 1e-11, 0.0)?; }
        near("account today", bank_account(&m, &p0, &cv), 1.0, 1e-12, 0.0)?;
        let f = FlatCurve { rate: r.hl.0 };
        near("flat curve", f.p0(p.t), (-r.hl.0 * p.t).exp(), 1e-15, 0.0)?;
        near("flat forward", f.p0_fwd(p.t, dates[n]), (-r.hl.0 * (dates[n] - p.t)).exp(), 1e-14, 0.0)?;
        // the account once every rate has fixed
        let mut e = p.clone();
        e.t = dates[n] + 0.5;
        near("account after the tenor", bank_account(&m, &e, &cv), (1..=n).map(|k| 1.0 + (dates[k] - dates[k - 1]) * p.rates[k - 1]).product(), 1e-12, 0.0)?;
        seen_as(n >= 2, if p.t == 0.0 { "today" } else if on_date { "on a tenor date" } else { "inside a period" })
    });
    s.prop("without_volatility_the_curve_rolls", 300, 5000, || (raw_model(), 0.0f64..1.0, 0.0f64..1.0, 1usize..12), |(r, x, y, n)| {
        let mut r = r.clone();
        r.tenor.0 = 0.0;
        r.mode = 0;
        r.sig.iter_mut().for_each(|s| *s = 0.0);
        if min_pivot(&r.corr) < 1e-8 { return seen(false); }
        let dates = r.dates();
        let tn = dates[r.n()];
        let cv = curve(&dates, &r.rates());
        let m = r.model();
        let t = 0.98 * tn * x + (0.01 * tn).min(1e-3);
        let p = FmmSimulator::new(m.clone(), 3)?.simulate_terminal(t, *n, 1).remove(0);
        ensure!(p.rates == r.rates(), "rates moved without volatility");
        // a start snapshot is only taken once the period is reached, so the path must have stepped into it
        let bt = p.t + (tn - p.t) * y;
        near("bond", bond_price(&m, &p, bt, &cv), cv.p0(bt) / cv.p0(p.t), 1e-11, 0.0)?;
        near("account", bank_account(&m, &p, &cv), 1.0 / cv.p0(p.t), 1e-11, 0.0)?;
        seen(r.n() >= 2)
    });
    s.prop("discounted_bonds_are_martingales", 4, 60, || (prop::collection::vec((prop_oneof![Just(0.25f64), Just(0.5), Just(1.0)], 0.0f64..0.06), 2..5), prop::collection::vec(0.004f64..0.02, 4), gram(4), any::<bool>(), 0.15f64..0.9, 0.1f64..1.0, any::<u64>()), |(periods, sig, corr, hl, x, y, seed)| {
        let n = periods.len();
        let corr: Vec<Vec<f64>> = (0..n).map(|i| corr[i][..n].to_vec()).collect();
        if min_pivot(&corr) < 1e-6 { return seen(false); }
        let tenor = (0.0, periods.clone());
        let dates = tenor_dates(&tenor);
        let rates: Vec<f64> = periods.iter().map(|x| x.1).collect();
        let cv = curve(&dates, &rates);
        let m = Fmm::new(FmmTenor::new(dates.clone(), rates), sig[..n].to_vec(), corr, LinearDecay);
        let m = if *hl { m.with_vol_schedule(VolSchedule::HoLeeEquivalent { vol: sig[0], mean_reversion: 0.1 }) } else { m };
        let t = dates[n] * x;
        let bt = t + (dates[n] - t) * y;
        let mut a = FmmSimulator::new(m.clone(), *seed)?;
        let (np, ns) = (6000, 48);
        let (mut s1, mut s2, mut inv) = (0.0, 0.0, (0.0, 0.0));
        for p in a.simulate_terminal(t, ns, np) {
            let b = bank_account(&m, &p, &cv);
            let v = bond_price(&m, &p, bt, &cv) / b;
            s1 += v; s2 += v * v;
            inv.0 += 1.0 / b; inv.1 += 1.0 / b / b;
        }
        let stat = |s1: f64, s2: f64| { let mean = s1 / np as f64; (mean, ((s2 / np as f64 - mean * mean).max(0.0) / np as f64).sqrt()) };
        let (mean, se) = stat(s1, s2);
        ensure!((mean - cv.p0(bt)).abs() < 6.0 * se + 5e-4 * se * (np as f64).sqrt() + 2e-5, "discounted bond averages {mean} ± {se}, today's price is {}", cv.p0(bt));
        let (mean, se) = stat(inv.0, inv.1);
        ensure!((mean - cv.p0(t)).abs() < 6.0 * se + 2e-5, "discount averages {mean} ± {se}, today's price is {}", cv.p0(t));
        seen(true)
    });
    s.prop("inconsistent_hybrid_parameters_are_rejected", 3000, 50000, || (raw_fx(), 0usize..28, 0usize..64, 0usize..64, 0.001f64..1.0), |(r, fault, a, b, e)| {
        let p = build(r);
        ensure!(p.validate().is_ok(), "consistent parameters rejected: {:?}", p.validate());
        let n = p.tenor.m();
        let (i, j) = (a % n, b % n);
        let mut q = p.clone();
        let foreign = fault % 2 == 1;
        let side = if foreign { &mut q.foreign } else { &mut q.domestic };
        let k = &mut q.correlations;
        match fault / 2 {
            0 => { side.sigmas.pop(); }
            1 => { side.sigmas[i] = if j % 2 == 0 { -e } else { f64::NAN }; }
            2 => { side.rate_corr.pop(); }
            3 => { side.rate_corr[i].push(0.0); }
            4 => { side.rate_corr[i][i] = 1.0 - e; }
            5 => { if i == j { return seen(false); } side.rate_corr[i][j] += if side.rate_corr[i][j] > 0.0 { -e } else { *e }; }
            6 => { if i == j { return seen(false); } side.rate_corr[i][j] = 1.0 + e; side.rate_corr[j][i] = 1.0 + e; }
            7 => { let z = if foreign { 0.0 } else { -e }; match i % 3 { 0 => side.lambda = z, 1 => side.eta = z, _ => side.v_0 = z } }
            8 => { match (foreign, a % 2) { (false, 0) => k.rho_xi_d.pop(), (false, _) => k.rho_sigma_d.pop(), (_, 0) => k.rho_xi_f.pop(), _ => k.rho_sigma_f.pop() }; }
            9 | 10 => { let v = match (foreign, fault / 2) { (false, 9) => &mut k.rho_xi_d, (false, _) => &mut k.rho_sigma_d, (_, 9) => &mut k.rho_xi_f, _ => &mut k.rho_sigma_f }; v[i] = if j % 2 == 0 { 1.0 + e } else { -1.0 - e }; }
            11 => { if foreign { k.cross_rate_corr.pop(); } else { k.cross_rate_corr[i].pop(); } }
            12 => { k.cross_rate_corr[i][j] = if foreign { 1.0 + e } else { -1.0 - e }; }
            _ => { k.rho_xi_sigma = if foreign { 1.0 + e } else { -1.0 - e }; }
        }
        ensure!(q.validate().is_err(), "fault {fault} at ({i},{j}) accepted");
        ensure!(guarded(|| { FxFmm1ForwardChf::new(&q, 1.0); }).is_err(), "transform built on fault {fault}");
        ensure!(FxFmmSimulator::new(q, 1).is_err(), "simulator built on fault {fault}");
        seen_as(true, format!("fault {}", fault / 2))
    });
    s.prop("hybrid_coefficients_equal_their_sums", 600, 12000, || (raw_fx(), prop::collection::vec(0.0f64..1.2, 1..4)), |(r, ts)| {
        let p = build(r);
        let n = p.tenor.m();
        for (side, raw) in [(&p.domestic, &r.d), (&p.foreign, &r.f)] {
            let b = side.psi_base(&p.tenor);
            for (k, x) in loadings(r, raw, 0.0).iter().enumerate() { near("loading before any period", b[k], *x, 1e-11, 1e-15)?; }
        }
        for t in ts {
            let t = t * p.tenor.dates[n];
            for (side, raw) in [(&p.domestic, &r.d), (&p.foreign, &r.f)] {
                let b = psi_at(side, &p.tenor, t);
                ensure!(b.len() == n, "one loading per rate");
                for (k, x) in loadings(r, raw, t).iter().enumerate() { near(&format!("loading {} at {t}", k + 1), b[k], *x, 1e-11, 1e-14)?; }
            }
            for start in 1..=n + 1 {
                let (ad, af, f) = sums(r, t, start);
                near(&format!("domestic rate variance at {t} from rate {start}"), compute_a_d(&p, t, start), ad, 1e-10, 1e-14)?;
                near(&format!("foreign rate variance at {t} from rate {start}"), compute_a_f(&p, t, start), af, 1e-10, 1e-14)?;
                near(&format!("cross terms at {t} from rate {start}"), compute_f_linearised(&p, t, start), f, 1e-10, 1e-13)?;
            }
        }
        seen(n >= 2)
    });
    s.prop("hybrid_transform_solves_its_equations", 50, 800, || (raw_fx(), 0.02f64..0.98, 0u8..6, prop_oneof![Just(1usize), Just(2), Just(5)], prop::collection::vec((-14.0f64..14.0, prop_oneof![2 => Just(0.0), 1 => -0.9f64..0.0]), 1..3)), |(r, frac, mode, chunks, us)| {
        let p = build(r);
        let t = pick_expiry(&p.tenor.dates, *frac, *mode);
        let per = 64;
        let chf = FxFmm1ForwardChf::with_resolution(&p, t, *chunks, 2 * per);
        let fine = FxFmm1ForwardChf::with_resolution(&p, t, 64, 8);
        let plain = FxFmm1ForwardChf::new(&p, t);
        ensure!(chf.params() == &p && chf.expiry == t && plain.n_substeps_per_period == 1, "bound parameters");
        let mut did = false;
        for (re, im) in us {
            let u = c(*re, *im);
            let iu = c(0.0, 1.0) * u;
            let x = c(p.heston.kappa, 0.0) - iu * (p.heston.gamma * p.correlations.rho_xi_sigma);
            let longest = r.tenor.1.iter().map(|x| x.0).fold(r.tenor.0, f64::max).max(t - p.tenor.dates[p.tenor.m()]).min(t);
            let (ad, af, _) = sums(r, 0.0, 1);
            let stiff = ((x * x - (iu * iu - iu) * p.heston.gamma.powi(2)).sqrt().norm()).max((r.d.1.powi(2) + r.d.2.powi(2) * ad * (u.norm_sqr() + 1.0)).sqrt()).max((r.f.1.powi(2) + r.f.2.powi(2) * af * (u.norm_sqr() + 1.0)).sqrt());
            if stiff * longest > 10.0 { continue; }
            let [a, cc, dd, df] = equations(r, &p, t, u, per, Some(*chunks));
            let k = chf.components(u);
            cnear("B", k.b, iu, 1e-15 * (1.0 + u.norm()))?;
            cnear(&format!("C at u = {u}, expiry {t}"), k.c, cc, 3e-6 * (1.0 + cc.norm()))?;
            cnear(&format!("domestic D at u = {u}, expiry {t}"), k.d_d, dd, 3e-6 * (0.001 + dd.norm()))?;
            cnear(&format!("foreign D at u = {u}, expiry {t}"), k.d_f, df, 3e-6 * (0.001 + df.norm()))?;
            cnear(&format!("A at u = {u}, expiry {t}"), k.a, a, 1e-5 * (0.01 + a.norm()))?;
            let e = (k.a + k.b * 0.3 + k.c * 0.05 + k.d_d * 0.7 + k.d_f * 1.3).exp();
            cnear("assembled", k.assemble(0.3, 0.05, 0.7, 1.3), e, 1e-12 * e.norm())?;
            let v = (a + iu * p.fx_0.ln() + cc * p.heston.sigma_0 + dd * r.d.3 + df * r.f.3).exp();
            cnear("transform", chf.evaluate(u), v, 1e-4 * (v.norm() + 1e-3))?;
            // refined, it approaches the continuous equations
            let [a, _, dd, df] = equations(r, &p, t, u, per, None);
            let k = fine.components(u);
            cnear(&format!("refined domestic D at u = {u}"), k.d_d, dd, 1e-3 * (0.001 + dd.norm()))?;
            cnear(&format!("refined foreign D at u = {u}"), k.d_f, df, 1e-3 * (0.001 + df.norm()))?;
            cnear(&format!("refined A at u = {u}"), k.a, a, 2e-3 * (0.01 + a.norm()))?;
            did = true;
        }
        seen_as(did && p.tenor.m() >= 2, format!("{} periods, {}", p.tenor.m(), ["at the end", "beyond the tenor", "on a date", "inside", "inside", "inside"][*mode as usize]))
    });
    s.prop("hybrid_transform_is_a_forward_measure_transform", 600, 12000, || (raw_fx(), 0.02f64..0.98, 0u8..6, -25.0f64..25.0, 1usize..5, prop_oneof![Just(2usize), Just(16)]), |(r, frac, mode, u, k, n)| {
        let p = build(r);
        let t = pick_expiry(&p.tenor.dates, *frac, *mode);
        let chf = FxFmm1ForwardChf::with_resolution(&p, t, *k, *n);
        cnear("at zero", chf.evaluate(c(0.0, 0.0)), c(1.0, 0.0), 1e-11)?;
        cnear("at minus i", chf.evaluate(c(0.0, -1.0)), c(p.fx_0, 0.0), 1e-9 * p.fx_0)?;
        let v = chf.evaluate(c(*u, 0.0));
        cnear("conjugate symmetry", chf.evaluate(c(-u, 0.0)), v.conj(), 1e-9 * (1e-6 + v.norm()))?;
        ensure!(guarded(|| { FxFmm1ForwardChf::with_resolution(&p, t, *k, n + 1); }).is_err() && guarded(|| { FxFmm1ForwardChf::with_resolution(&p, t, 0, *n); }).is_err() && guarded(|| { FxFmm1ForwardChf::with_resolution(&p, t, *k, 0); }).is_err(), "odd or empty resolution accepted");
        ensure!(guarded(|| { FxFmm1ForwardChf::new(&p, 0.0); }).is_err(), "zero expiry accepted");
        seen(p.tenor.m() >= 2)
    });
}
/// Parameters with the same correlations whose one-step moves reveal the noise.
fn noise_fx(p: &FxFmmParams) -> FxFmmParams {
    let n = p.tenor.m();
    let mut q = p.clone();
    q.tenor = noise_tenor(n);
    q.domestic.sigmas = vec![1.0; n];
    q.foreign.sigmas = vec![1.0; n];
    q.heston = CirProcess { kappa: 1.0, theta: 1.0, gamma: 0.05, sigma_0: 1.0 };
    q.fx_0 = 1.0;
    q
}
fn fx_noise(z: &mut FxFmmSimulator, q: &FxFmmParams, dt: f64) -> Vec<f64> {
    let mut s = FxFmmState::initial(q);
    z.step(&mut s, dt);
    let mut w = vec![s.fx.ln() + 0.5 * dt, (s.variance - 1.0) / 0.05];
    w.extend(&s.rates_d);
    w.extend(s.rates_f.iter().zip(&q.correlations.rho_xi_f).map(|(x, r)| x + r * dt));
    w
}
