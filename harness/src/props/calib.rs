//! P35: calibration of the three FX hybrids — targets, repricing, reported error.
use super::cosp::contour_call;
use super::util::*;
use super::{fmm, hhw, hlmm};
use crate::core::*;
use crate::ensure;
use finquant::math::optimize::{Minimum, NelderMeadOptions};
use finquant::models::common::calibration::Calibration;
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::market_data::MarketSmileStrip;
use finquant::models::forex::{fx_fmm_calibrator as fc, fx_hhw_calibrator as hc, fx_hlmm_calibrator as lc};
use finquant::models::forex::{fx_fmm1_chf::FxFmm1ForwardChf, fx_hhw1_chf::FxHhw1ForwardChf, fx_hlmm1_chf::FxHlmm1ForwardChf};
use num_complex::Complex64;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Raw { Hhw(hhw::RawHhw), Hlmm(hlmm::Raw), Fmm(fmm::RawFx) }
#[derive(Clone)]
enum Model { Hhw(finquant::models::forex::fx_hhw::FxHhwParams), Hlmm(finquant::models::forex::fx_hlmm::FxHlmmParams), Fmm(finquant::models::forex::fx_fmm::FxFmmParams) }
impl Model {
    fn new(r: &Raw) -> Model {
        match r { Raw::Hhw(x) => Model::Hhw(hhw::hhw(x)), Raw::Hlmm(x) => Model::Hlmm(hlmm::build(x)), Raw::Fmm(x) => Model::Fmm(fmm::build(x)) }
    }
    fn heston(&mut self) -> (&mut CirProcess, &mut f64) {
        match self {
            Model::Hhw(p) => (&mut p.heston, &mut p.correlations.rho_xi_sigma),
            Model::Hlmm(p) => (&mut p.heston, &mut p.correlations.rho_xi_sigma),
            Model::Fmm(p) => (&mut p.heston, &mut p.correlations.rho_xi_sigma),
        }
    }
    fn five(&self) -> [f64; 5] {
        let mut m = self.clone();
        let (h, r) = m.heston();
        [h.kappa, h.gamma, h.theta, h.sigma_0, *r]
    }
    fn set(&mut self, v: [f64; 5]) {
        let (h, r) = self.heston();
        (h.kappa, h.gamma, h.theta, h.sigma_0, *r) = (v[0], v[1], v[2], v[3], v[4]);
    }
    fn name(&self) -> &'static str { match self { Model::Hhw(_) => "Hull-White", Model::Hlmm(_) => "Libor market", Model::Fmm(_) => "forward market" } }
    fn price(&self, t: f64, k: f64) -> f64 {
        match self { Model::Hhw(p) => hc::price_call(p, t, k), Model::Hlmm(p) => lc::price_call(p, t, k), Model::Fmm(p) => fc::price_call(p, t, k) }
    }
    fn vols(&self, t: f64, k: &[f64]) -> Vec<Option<f64>> {
        match self { Model::Hhw(p) => hc::model_implied_vols(p, t, k), Model::Hlmm(p) => lc::model_implied_vols(p, t, k), Model::Fmm(p) => fc::model_implied_vols(p, t, k) }
    }
    /// Forward FX and domestic discount factor from the initial curves.
    fn curve(&self, t: f64) -> (f64, f64) {
        let product = |dates: &[f64], rates: &[f64]| {
            let mut p = 1.0;
            for (k, l) in rates.iter().enumerate() { p /= 1.0 + (t.min(dates[k + 1]) - dates[k]).max(0.0) * l; }
            p * (-rates[rates.len() - 1] * (t - dates[rates.len()]).max(0.0)).exp()
        };
        match self {
            Model::Hhw(p) => (p.fx_0 * ((p.rd_0 - p.rf_0) * t).exp(), (-p.rd_0 * t).exp()),
            Model::Hlmm(p) => (p.fx_0, product(&p.tenor.dates, &p.tenor.libors)),
            Model::Fmm(p) => (p.fx_0, product(&p.tenor.dates, &p.tenor.initial_rates)),
        }
    }
    fn with_chf<T>(&self, t: f64, f: &dyn Fn(&dyn Fn(Complex64) -> Complex64) -> T) -> T {
        match self {
            Model::Hhw(p) => { let c = FxHhw1ForwardChf::new(p, t); f(&|u| c.evaluate(u)) }
            Model::Hlmm(p) => { let c = FxHlmm1ForwardChf::new(p, t); f(&|u| c.evaluate(u)) }
            Model::Fmm(p) => { let c = FxFmm1ForwardChf::new(p, t); f(&|u| c.evaluate(u)) }
        }
    }
}

type Fit = (Model, f64, Minimum);
impl Model {
    fn floor_and_cap(&self, floor: f64, cap: Option<f64>) -> (f64, Option<f64>) { (floor, if matches!(self, Model::Hhw(_)) { cap } else { None }) }
    fn calibrate(&self, ks: &[f64], vols: &[f64], t: f64, floor: f64, cap: Option<f64>, o: NelderMeadOptions) -> Fit {
        match self {
            Model::Hhw(p) => {
                let x = hc::targets_from_grid(ks, vols);
                let r = match cap { Some(g) => hc::calibrate_bounded(*p, &x, t, floor, g, o), None => hc::calibrate(*p, &x, t, floor, o) };
                (Model::Hhw(r.params), r.rmse, r.optimiser)
            }
            Model::Hlmm(p) => { let r = lc::calibrate(p.clone(), &lc::targets_from_grid(ks, vols), t, floor, o); (Model::Hlmm(r.params), r.rmse, r.optimiser) }
            Model::Fmm(p) => { let r = fc::calibrate(p.clone(), &fc::targets_from_grid(ks, vols), t, floor, o); (Model::Fmm(r.params), r.rmse, r.optimiser) }
        }
    }
    /// Through the common calibration interface.
    fn report(&self, m: &MarketSmileStrip, floor: f64, cap: Option<f64>, o: NelderMeadOptions) -> Result<(Model, f64, Option<Minimum>), Fail> {
        Ok(match self {
            Model::Hhw(p) => { let r = hc::FxHhwSmileCalibrator { initial: *p, kappa_floor: floor, gamma_max: cap }.calibrate(m, o).map_err(|e| e.to_string())?; (Model::Hhw(r.params), r.rmse, r.optimiser) }
            Model::Hlmm(p) => { let r = lc::FxHlmmSmileCalibrator { initial: p.clone(), kappa_floor: floor }.calibrate(m, o).map_err(|e| e.to_string())?; (Model::Hlmm(r.params), r.rmse, r.optimiser) }
            Model::Fmm(p) => { let r = fc::FxFmmSmileCalibrator { initial: p.clone(), kappa_floor: floor }.calibrate(m, o).map_err(|e| e.to_string())?; (Model::Fmm(r.params), r.rmse, r.optimiser) }
        })
    }
    /// Everything but the five fitted numbers.
    fn rest(&self) -> String {
        let mut m = self.clone();
        m.set([1.0, 1.0, 1.0, 1.0, 0.0]);
        match &m { Model::Hhw(p) => format!("{p:?}"), Model::Hlmm(p) => format!("{p:?}"), Model::Fmm(p) => format!("{p:?}") }
    }
    /// Deviation of the log forward if only its own variance moved it.
    fn sd(&self, t: f64) -> f64 {
        let [kappa, _, theta, v0, _] = self.five();
        ((theta + (v0 - theta) * (1.0 - (-kappa * t).exp()) / (kappa * t)) * t).sqrt()
    }
}
fn model() -> impl Strategy<Value = Raw> {
    prop_oneof![hhw::raw_hhw().prop_map(Raw::Hhw), hlmm::raw().prop_map(Raw::Hlmm), fmm::raw_fx().prop_map(Raw::Fmm)]
}
/// Parameters as calibration meets them: moderate vol-of-vol and rate volatility.
fn mild() -> impl Strategy<Value = Raw> {
    (model(), 0.3f64..2.5, 0.15f64..0.5, 0.01f64..0.06, 0.01f64..0.06, -0.8f64..0.8).prop_map(|(mut r, k, g, th, v, rho)| {
        match &mut r {
            Raw::Hhw(x) => {
                x.0 = (k, th, g, v);
                x.1.1 = x.1.1.min(0.012); x.2.1 = x.2.1.min(0.012);
                for i in 0..4 { for j in 0..4 { if i != j { x.5[i][j] *= 0.3; } } }
                x.5[0][1] = rho; x.5[1][0] = rho;
            }
            Raw::Hlmm(x) => { x.heston = (k, th, g, v, rho); for y in x.d.0.iter_mut().chain(x.f.0.iter_mut()) { y.0 = y.0.min(0.2); y.2 *= 0.3; } }
            Raw::Fmm(x) => {
                x.heston = (k, th, g, v);
                for y in x.d.0.iter_mut().chain(x.f.0.iter_mut()) { y.0 = y.0.min(0.012); }
                let n = x.corr.len();
                for i in 0..n { for j in 0..n { if i != j { x.corr[i][j] *= 0.3; } } }
                x.corr[0][1] = rho; x.corr[1][0] = rho;
            }
        }
        r
    })
}
fn options() -> impl Strategy<Value = (usize, f64, f64, f64)> { (prop_oneof![1 => Just(0usize), 4 => 1usize..25], -12.0f64..-3.0, -10.0f64..-2.0, 0.02f64..0.3) }
fn opts(o: &(usize, f64, f64, f64)) -> NelderMeadOptions { NelderMeadOptions { max_iter: o.0, ftol: 10f64.powf(o.1), xtol: 10f64.powf(o.2), step_frac: o.3 } }
fn all(v: &[Option<f64>]) -> Option<Vec<f64>> { v.iter().cloned().collect() }
fn rms(a: &[f64], b: &[f64]) -> f64 { (a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>() / a.len() as f64).sqrt() }

pub fn p35(s: &mut Suite) {
    s.rule("A case is one hybrid (Hull-White, Libor-market or forward-market rates) with an expiry and strikes, and for calibrations targets, a starting guess and optimiser limits; non-trivial when every volatility exists and, for prices, when the expansion's own error bound is below 1e-5 of the forward.");
    s.assume("Prices are compared with an independent contour integral of the repository's characteristic function (decided by P32–P34) up to a bound on the default expansion's truncation, computed from the transform's exponential moments and tail.");
    s.prop("prices_equal_the_transform", 700, 15000, || (model(), prop_oneof![6 => 0.05f64..2.0, 4 => 2.0f64..8.0, 1 => 0.003f64..0.05], prop::collection::vec(-2.5f64..2.5, 1..4)), |(r, t, zs)| {
        let m = Model::new(r);
        let (fwd, df) = m.curve(*t);
        let sd = m.sd(*t);
        let [_, _, theta, _, _] = m.five();
        let width = 20.0 * sd.max((theta * t).sqrt());
        let ks: Vec<f64> = zs.iter().map(|z| fwd * (z * sd).exp()).collect();
        let got: Vec<f64> = ks.iter().map(|k| m.price(*t, *k)).collect();
        let vols = m.vols(*t, &ks);
        ensure!(vols.len() == ks.len(), "one volatility per strike");
        let mut did = false;
        m.with_chf(*t, &|phi| {
            let mut umax = 1.0 / sd;
            let (mut low, mut at) = (f64::MAX, umax);
            while umax < 3000.0 {
                let v = phi(c(umax, -0.5)).norm() / fwd.sqrt();
                if v < low { (low, at) = (v, umax); }
                if v < 1e-12 || !v.is_finite() || v > 2.0 { break; }
                umax *= 1.1;
            }
            if low > 1e-10 { return Ok(false); }
            // exponential moments, as long as they exist (log-convex and growing), bound what lies outside the range
            let outside = |sign: f64, from: f64| {
                let (mut best, mut p, mut last, mut slope) = (f64::MAX, 0.0, 0.0, 0.0);
                while p < 40.0 {
                    let q = if p < 4.0 { p + 0.25 } else { p * 1.1 };
                    let v = (phi(c(0.0, -sign * (q + from))).re * (-sign * (q + from) * fwd.ln()).exp()).ln();
                    let sl = (v - last) / (q - p);
                    if !v.is_finite() || v < last || sl < slope { break; }
                    (p, last, slope) = (q, v, sl);
                    best = f64::min(best, (v - q * 0.5 * width).exp());
                }
                best
            };
            let series: f64 = (128..500).map(|n| { let u = n as f64 * std::f64::consts::PI / width; phi(c(u, 0.0)).norm() * 2.0 / width * (0.5 * width).exp() / u }).sum();
            // the call's cosine coefficients grow with the upper end of the range, and their rounding with them
            let rounding = 1e-15 * 2.0 / width * (0.5 * width).exp();
            let mut ok = false;
            for ((k, got), v) in ks.iter().zip(&got).zip(&vols) {
                let bound = rounding + outside(1.0, 1.0) + outside(-1.0, 0.0) * k / fwd + series;
                if !(bound < 1e-5) { continue; }
                let want = df * contour_call(phi, *k, at, 150);
                let tol = df * fwd * (4.0 * bound + 3e-8);
                near(&format!("{} call at {k}, expiry {t}, forward {fwd}", m.name()), *got, want, 0.0, tol)?;
                if let Some(v) = v { near(&format!("{} Black price at the implied volatility {v}, strike {k}", m.name()), df * black(fwd, *k, v * t.sqrt(), 1.0), *got, 0.0, 2e-8 + 1e-9 * df * fwd)?; }
                ensure!(v.is_some() || *got < df * (fwd - k).max(0.0) + tol, "{}: a price of {got} (strike {k}, forward {fwd}, discount {df}) has no volatility", m.name());
                ok = true;
            }
            Ok(ok)
        }).map(|x| did = x)?;
        seen_as(did, m.name())
    });
    s.prop("discount_and_forward", 6000, 100000, || (model(), prop_oneof![4 => 0.01f64..1.0, 1 => 1.0f64..2.0], 0usize..9), |(r, frac, at)| {
        let m = Model::new(r);
        let (dates, got): (&[f64], &dyn Fn(f64) -> (f64, f64)) = match &m {
            Model::Hhw(_) => return seen(false),
            Model::Hlmm(p) => (&p.tenor.dates, &|t| (lc::forward_fx(p, t), lc::discount_factor(p, t))),
            Model::Fmm(p) => (&p.tenor.dates, &|t| (fc::forward_fx(p, t), fc::discount_factor(p, t))),
        };
        let n = dates.len() - 1;
        for t in [frac * dates[n], dates[1 + at % n], dates[n]] {
            let ((f, d), (wf, wd)) = (got(t), m.curve(t));
            near("forward", f, wf, 1e-14, 0.0)?;
            near(&format!("discount factor to {t} for dates {dates:?}"), d, wd, 1e-12, 0.0)?;
        }
        seen(n >= 2 && frac * dates[n] < dates[n - 1])
    });
    s.prop("reported_fit_is_real", 120, 3000, || (model(), prop_oneof![8 => 0.1f64..5.0, 1 => 0.01f64..0.1, 1 => 5.0f64..8.0], prop::collection::vec((-1.5f64..1.5, 0.03f64..0.5), 1..6), prop_oneof![2 => Just(0.0), 2 => 0.0f64..0.3, 1 => 0.3f64..4.0], prop_oneof![1 => Just(None), 1 => (0.05f64..1.5).prop_map(Some)], options()), |(r, t, grid, floor, cap, o)| {
        let m = Model::new(r);
        let (fwd, _) = m.curve(*t);
        let (floor, cap) = m.floor_and_cap(*floor, *cap);
        let ks: Vec<f64> = grid.iter().map(|g| fwd * (g.0 * m.sd(*t)).exp()).collect();
        let vols: Vec<f64> = grid.iter().map(|g| g.1).collect();
        let (fit, rmse, min) = m.calibrate(&ks, &vols, *t, floor, cap, opts(o));
        let [kappa, gamma, theta, v0, rho] = fit.five();
        ensure!(kappa >= floor && gamma >= 0.0 && theta >= 0.0 && v0 >= 0.0 && rho.abs() <= 1.0 && cap.is_none_or(|g| gamma <= g), "parameters outside their ranges: κ = {kappa} (floor {floor}), γ = {gamma} (cap {cap:?}), θ = {theta}, v0 = {v0}, ρ = {rho}");
        ensure!(fit.rest() == m.rest(), "parameters that are not fitted moved: {} → {}", m.rest(), fit.rest());
        ensure!(min.iterations <= o.0 && (min.converged || min.iterations == o.0), "{} iterations of {}, converged {}", min.iterations, o.0, min.converged);
        near("objective and error", min.f, rmse * rmse * ks.len() as f64, 1e-12, 0.0)?;
        let there = all(&fit.vols(*t, &ks));
        if rmse * rmse * (ks.len() as f64) < 9e5 {
            let Some(there) = &there else { return Err(Fail::from(format!("an error of {rmse} is reported for parameters that price outside the bounds"))) };
            near("reported error", rmse, rms(there, &vols), 1e-9, 1e-10)?;
        }
        let mut started = false;
        let x = m.five();
        let inside = x[0] > floor + 1e-6 && x[4].abs() < 0.998 && cap.is_none_or(|g| x[1] / g > 2e-4 && x[1] / g < 1.0 - 2e-4);
        if inside && let Some(before) = all(&m.vols(*t, &ks)) {
            let b = rms(&before, &vols);
            ensure!(rmse <= b + 1e-7, "the fit ({rmse}) is worse than the starting guess ({b})");
            if o.0 == 0 { ensure!(min.f.is_finite(), "no objective"); }
            started = true;
        }
        let strip = MarketSmileStrip { expiry_yf: *t, forward: fwd, strikes: ks.clone(), vols: vols.clone() };
        let (p2, e2, m2) = m.report(&strip, floor, cap, opts(o))?;
        ensure!(p2.five() == fit.five() && p2.rest() == fit.rest() && e2 == rmse && m2.as_ref().is_some_and(|x| x.f == min.f && x.iterations == min.iterations && x.x == min.x), "the calibration interface finds {:?} with error {e2}, the function {:?} with {rmse}", p2.five(), fit.five());
        seen_as(started && there.is_some(), m.name())
    });
    s.prop("fits_what_the_model_generated", 12, 300, || (mild(), prop_oneof![4 => 0.15f64..1.0, 1 => 1.0f64..2.5], prop::collection::vec(-1.3f64..1.3, 5), prop::collection::vec(0.75f64..1.35, 4), -0.15f64..0.15), |(r, t, zs, by, dr)| {
        let truth = Model::new(r);
        let (fwd, _) = truth.curve(*t);
        let mut zs = zs.clone();
        zs.sort_by(f64::total_cmp);
        let n = zs.len();
        let ks: Vec<f64> = zs.iter().enumerate().map(|(i, z)| fwd * ((0.3 * z + 0.7 * (-1.3 + 2.6 * i as f64 / (n - 1) as f64)) * truth.sd(*t)).exp()).collect();
        let Some(vols) = all(&truth.vols(*t, &ks)) else { return seen(false) };
        let o = NelderMeadOptions { max_iter: 120, ftol: 1e-12, xtol: 1e-9, step_frac: 0.1 };
        let (_, at, _) = truth.calibrate(&ks, &vols, *t, 1e-3, None, NelderMeadOptions { max_iter: 5, ..o });
        ensure!(at < 1e-8, "starting from the truth leaves an error of {at}");
        let mut start = truth.clone();
        let x = truth.five();
        start.set([x[0] * by[0], x[1] * by[1], x[2] * by[2], x[3] * by[3], (x[4] + dr).clamp(-0.9, 0.9)]);
        let Some(before) = all(&start.vols(*t, &ks)) else { return seen(false) };
        let b = rms(&before, &vols);
        let (mut fit, mut rmse, mut steps) = (start.clone(), b, 0);
        while steps < 700 && !(rmse < 2e-3 || rmse < 0.3 * b) {
            let (f, e, m) = fit.calibrate(&ks, &vols, *t, 1e-3, None, o);
            ensure!(e <= rmse + 1e-9, "calibrating again raised the error from {rmse} to {e}");
            (fit, rmse, steps) = (f, e, steps + m.iterations.max(20));
        }
        ensure!(rmse < 2e-3 || rmse < 0.3 * b, "{steps} steps from {:?} leave an error of {rmse} (started at {b}) on volatilities the model generated from {x:?}", start.five());
        if steps >= 60 {
            for ((name, a), b) in ["mean reversion", "vol-of-vol", "long-run variance", "initial variance", "FX/variance correlation"].iter().zip(start.five()).zip(fit.five()) {
                ensure!((a - b).abs() > 1e-9 * a.abs(), "{steps} steps of the optimiser never moved the {name} from its starting value {a}");
            }
        }
        if b < 2e-4 { return seen(false); }
        let Some(there) = all(&fit.vols(*t, &ks)) else { return Err(Fail::from("the fitted model has no volatility")) };
        near("reported error", rmse, rms(&there, &vols), 1e-9, 1e-10)?;
        seen_as(true, truth.name())
    });
    s.prop("refuses_nonsense", 300, 3000, || (model(), -2.0f64..0.0, 0.001f64..1.0), |(r, t, e)| {
        let m = Model::new(r);
        let (k, o) = (m.curve(1.0).0, NelderMeadOptions { max_iter: 1, ..NelderMeadOptions::default() });
        let cap = Some(0.5);
        ensure!(guarded(|| { m.calibrate(&[], &[], 1.0, 0.0, None, o); }).is_err() && guarded(|| { m.calibrate(&[], &[], 1.0, 0.0, cap, o); }).is_err(), "no targets accepted");
        ensure!(guarded(|| { m.calibrate(&[k], &[0.1], *t, 0.0, None, o); }).is_err() && guarded(|| { m.calibrate(&[k], &[0.1], *t, 0.0, cap, o); }).is_err(), "an expiry of {t} accepted");
        ensure!(guarded(|| { m.calibrate(&[k], &[0.1], 1.0, -e, None, o); }).is_err() && guarded(|| { m.calibrate(&[k], &[0.1], 1.0, -e, cap, o); }).is_err(), "a reversion floor of -{e} accepted");
        ensure!(guarded(|| { m.calibrate(&[k, k], &[0.1], 1.0, 0.0, None, o); }).is_err(), "strikes without volatilities accepted");
        if let Model::Hhw(_) = m { ensure!(guarded(|| { m.calibrate(&[k], &[0.1], 1.0, 0.0, Some(*t), o); }).is_err(), "a vol-of-vol cap of {t} accepted"); }
        seen_as(true, m.name())
    });
}
