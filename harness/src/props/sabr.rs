//! P28: Hagan's smile formula, the SABR simulator and the constant-parameter calibrator.
use super::util::*;
use crate::core::*;
use crate::ensure;
use finquant::markets::forex::quotes::volsurface::FXVolSurface;
use finquant::math::optimize::NelderMeadOptions;
use finquant::models::common::calibration::Calibration;
use finquant::models::common::simulation::SimulationModel;
use finquant::models::forex::market_data::{MarketSmileStrip, smile_strip};
use finquant::models::forex::sabr::*;
use finquant::models::forex::sabr_calibrator::{SabrSmileCalibrator, calibrate, model_implied_vols, targets_from_grid};
use proptest::prelude::*;

/// (alpha at unit forward i.e. a volatility level, beta, rho, nu)
pub type Raw = (f64, f64, f64, f64);
pub fn raw_sabr() -> impl Strategy<Value = Raw> {
    (
        prop_oneof![0.02f64..0.4, 0.4f64..1.2],
        prop_oneof![2 => 0.0f64..1.0, 1 => Just(0.5), 1 => Just(1.0), 1 => Just(0.0)],
        prop_oneof![4 => -0.9f64..0.9, 1 => Just(0.0), 1 => prop_oneof![-0.995f64..-0.9, 0.9f64..0.995]],
        prop_oneof![4 => 0.05f64..1.2, 1 => Just(0.0), 1 => 1e-9f64..1e-3, 1 => 1.2f64..3.0],
    )
}
/// Parameters whose at-the-money level at forward `f` is the raw volatility.
pub fn at(r: &Raw, f: f64) -> SabrParams {
    SabrParams::new(r.0 * f.powf(1.0 - r.1), r.1, r.2, r.3)
}
/// x(z) as the integral that defines it: closed form in terms of asinh, or quadrature near zero.
fn x_of(z: f64, rho: f64) -> f64 {
    if z.abs() < 0.05 {
        quad(|y| 1.0 / (1.0 - 2.0 * rho * y + y * y).sqrt(), 0.0, z, 4)
    } else {
        let s = (1.0 - rho * rho).sqrt();
        ((z - rho) / s).asinh() + (rho / s).asinh()
    }
}
pub fn hagan(p: &SabrParams, f: f64, k: f64, t: f64) -> f64 {
    let b = 1.0 - p.beta;
    let (l, m) = ((f / k).ln(), ((f.ln() + k.ln()) * 0.5 * b).exp());
    let z = p.nu / p.alpha * m * l;
    let ratio = if z == 0.0 { 1.0 } else { z / x_of(z, p.rho) };
    let series = 1.0 + (b * l).powi(2) / 24.0 + (b * l).powi(4) / 1920.0;
    let h = (b * p.alpha / m).powi(2) / 24.0 + p.rho * p.beta * p.nu * p.alpha / (4.0 * m) + (2.0 - 3.0 * p.rho * p.rho) * p.nu * p.nu / 24.0;
    p.alpha / m / series * ratio * (1.0 + h * t)
}
/// The formula's size before its time bracket cancels.
pub fn hagan_size(p: &SabrParams, f: f64, k: f64, t: f64) -> f64 {
    let b = 1.0 - p.beta;
    let m = ((f.ln() + k.ln()) * 0.5 * b).exp();
    let h = (b * p.alpha / m).powi(2) / 24.0 + p.beta * p.nu * p.alpha / (4.0 * m) + 5.0 * p.nu * p.nu / 24.0;
    let h0 = (b * p.alpha / m).powi(2) / 24.0 + p.rho * p.beta * p.nu * p.alpha / (4.0 * m) + (2.0 - 3.0 * p.rho * p.rho) * p.nu * p.nu / 24.0;
    let v = hagan(p, f, k, t) / (1.0 + h0 * t);
    if v.is_finite() { v.abs() * (1.0 + h * t) } else { p.alpha / m * (1.0 + h * t) }
}
/// Relative rounding error of the published logarithmic form of z/x(z).
pub fn hagan_tol(p: &SabrParams, f: f64, k: f64) -> f64 {
    let z = p.nu / p.alpha * (f * k).powf(0.5 * (1.0 - p.beta)) * (f / k).ln();
    if z.abs() < 1e-8 { return 1e-12 + 2.0 * z.abs() * z.abs(); }
    let x = x_of(z, p.rho).abs();
    1e-12 + 2e-15 / ((1.0 - p.rho) * x) + 2e-15 * (1.0 + z * z) / ((1.0 - p.rho * p.rho) * x)
}
fn log_moneyness() -> impl Strategy<Value = f64> {
    prop_oneof![4 => -1.2f64..1.2, 2 => -0.05f64..0.05, 1 => -1e-6f64..1e-6, 1 => -1e-9f64..1e-9, 1 => -3.0f64..3.0, 1 => Just(0.0)]
}
fn fwd() -> impl Strategy<Value = f64> {
    prop_oneof![0.5f64..2.0, 20.0f64..200.0, 0.002f64..0.1]
}
pub fn sabr_sq(a: f64) -> f64 { a * a }

pub fn p28(s: &mut Suite) {
    s.rule("A case is one SABR parameter set with a forward, strike and expiry, or a state with step sizes and a seed, or a strike strip; non-trivial when vol-of-vol is positive (formula), noise moves the state (simulation) or the start differs from the truth (calibration).");
    s.assume("The asymptotic formula is the one documented (Hagan et al. 2002, A.69); its accuracy against the true model is not asserted.");
    s.prop("formula_matches_published", 12000, 300000, || (raw_sabr(), fwd(), log_moneyness(), prop_oneof![0.003f64..1.0, 1.0f64..30.0]), |(r, f, l, t)| {
        let p = at(r, *f);
        let k = f * l.exp();
        let v = hagan_implied_vol(&p, *f, k, *t);
        near("implied volatility", v, hagan(&p, *f, k, *t), 0.0, hagan_tol(&p, *f, k) * hagan_size(&p, *f, k, *t))?;
        near("ATM volatility", hagan_atm_vol(&p, *f, *t), hagan(&p, *f, *f, *t), 0.0, 1e-12 * hagan_size(&p, *f, *f, *t))?;
        near("volatility at K = F", hagan_implied_vol(&p, *f, *f, *t), hagan_atm_vol(&p, *f, *t), 0.0, 1e-12 * hagan_size(&p, *f, *f, *t))?;
        let all = model_implied_vols(&p, *f, *t, &[k, *f, k]);
        ensure!(all.len() == 3 && all[0].to_bits() == v.to_bits() && all[2].to_bits() == v.to_bits(), "strip of volatilities differs from single ones: {all:?} vs {v}");
        let z = p.nu / p.alpha * (f * k).powf(0.5 * (1.0 - p.beta)) * l;
        seen_as(p.nu > 0.0, if z.abs() < 1e-8 { "near z=0" } else if p.beta == 1.0 { "log-normal" } else if p.beta == 0.0 { "normal" } else { "wing" })
    });
    s.prop("continuity_at_the_money", 3000, 60000, || (raw_sabr(), fwd(), 0.01f64..10.0), |(r, f, t)| {
        let p = at(r, *f);
        let atm = hagan_atm_vol(&p, *f, *t);
        // sides approach the limit no faster than their own slope allows, at every scale
        for e in [1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 3e-8, 1e-8, 1e-9, 1e-11] {
            for sg in [-1.0, 1.0] {
                let l: f64 = sg * e;
                let v = hagan_implied_vol(&p, *f, f * l.exp(), *t);
                let slope = 1.0 + p.nu / r.0 * (1.0 + p.nu / r.0) + p.nu * p.nu * t;
                ensure!((v / atm - 1.0).abs() <= 4.0 * e * slope + hagan_tol(&p, *f, f * l.exp()) * 2.0 + 1e-11 || atm < 0.2 * p.alpha * f.powf(p.beta - 1.0),
                    "log-moneyness {l}: {v} against {atm} at the money");
            }
        }
        seen(p.nu > 0.0)
    });
    s.prop("limits_and_scaling", 6000, 120000, || (raw_sabr(), fwd(), log_moneyness(), 0.003f64..30.0, 0.01f64..100.0), |(r, f, l, t, m)| {
        let k = f * l.exp();
        // log-normal backbone without vol-of-vol is exactly Black
        let flat = SabrParams::new(r.0, 1.0, r.2, 0.0);
        near("no vol-of-vol, beta = 1", hagan_implied_vol(&flat, *f, k, *t), r.0, 1e-13, 0.0)?;
        // a common scale of forward and strike with alpha scaled by m^(1-beta) leaves the volatility
        let (p, q) = (at(r, *f), at(r, f * m));
        let tol = hagan_tol(&p, *f, k) * 2.0 + 1e-11;
        near("scaled forward and strike", hagan_implied_vol(&q, f * m, k * m, *t), hagan_implied_vol(&p, *f, k, *t), 0.0, tol * hagan_size(&p, *f, k, *t))?;
        // alpha, nu, 1/sqrt(t) scale together
        let s = 1.0 + m / 50.0;
        let w = SabrParams::new(p.alpha * s, p.beta, p.rho, p.nu * s);
        near("time scaling", hagan_implied_vol(&w, *f, k, t / (s * s)), s * hagan_implied_vol(&p, *f, k, *t), 0.0, tol * s * hagan_size(&p, *f, k, *t))?;
        // mirrored correlation mirrors a log-normal smile without the drift term
        if r.1 == 1.0 {
            let a = SabrParams::new(p.alpha, 1.0, p.rho, p.nu);
            let b = SabrParams::new(p.alpha, 1.0, -p.rho, p.nu);
            let tc = |x: &SabrParams| 1.0 + (0.25 * x.rho * x.nu * x.alpha + (2.0 - 3.0 * x.rho * x.rho) * x.nu * x.nu / 24.0) * t;
            near("mirrored smile", hagan_implied_vol(&a, *f, k, *t) / tc(&a), hagan_implied_vol(&b, k, *f, *t) / tc(&b), tol + hagan_tol(&b, k, *f), 0.0)?;
        }
        seen_as(p.nu > 0.0, if r.1 == 1.0 { "log-normal" } else { "general" })
    });
    s.prop("inputs_outside_the_domain_are_rejected", 400, 4000, || (raw_sabr(), 0u8..12, 0.0f64..3.0), |(r, which, x)| {
        let bad = match which {
            0 => guarded(|| { SabrParams::new(-x, r.1, r.2, r.3); }),
            1 => guarded(|| { SabrParams::new(r.0, -x - 1e-9, r.2, r.3); }),
            2 => guarded(|| { SabrParams::new(r.0, 1.0 + 1e-9 + x, r.2, r.3); }),
            3 => guarded(|| { SabrParams::new(r.0, r.1, 1.0 + x, r.3); }),
            4 => guarded(|| { SabrParams::new(r.0, r.1, -1.0 - x, r.3); }),
            5 => guarded(|| { SabrParams::new(r.0, r.1, r.2, -x - 1e-9); }),
            6 => guarded(|| { SabrParams::new(f64::NAN, r.1, r.2, r.3); }),
            7 => guarded(|| { SabrParams::new(r.0, r.1, f64::NAN, r.3); }),
            8 => guarded(|| { hagan_implied_vol(&at(r, 1.0), -x, 1.0, 1.0); }),
            9 => guarded(|| { hagan_implied_vol(&at(r, 1.0), 1.0, -x, 1.0); }),
            10 => guarded(|| { hagan_implied_vol(&at(r, 1.0), 1.0, 1.0, -x); }),
            _ => guarded(|| { SabrSimulator::new(at(r, 1.0), -x, 1); }),
        };
        ensure!(bad.is_err(), "domain violation {which} accepted");
        seen(true)
    });
    s.prop("simulation_follows_the_dynamics", 250, 4000, || (raw_sabr(), fwd(), prop_oneof![2 => 0.0005f64..0.05, 2 => 0.05f64..2.0, 1 => 2.0f64..6.0, 1 => (-14.0f64..-7.0).prop_map(f64::exp)], 0.05f64..0.95, any::<u64>()), |(r, f, dt, frac, seed)| {
        let p = at(r, *f);
        let (mut a, mut b, mut m) = (SabrSimulator::new(p, *f, *seed), SabrSimulator::new(p, *f, *seed), SabrSimulator::new(p, *f, *seed));
        let s0 = a.initial_state();
        ensure!(s0 == SabrState { forward: *f, vol: p.alpha }, "initial state {s0:?}");
        let dt2 = dt * frac;
        let (mut zs, mut moved, mut floored) = (vec![], false, false);
        for i in 0..800 {
            let st = if i % 40 == 39 { SabrState { forward: 0.0, vol: p.alpha } } else { SabrState { forward: f * (1.0 + 0.1 * (i % 7) as f64), vol: p.alpha * (0.5 + 0.2 * (i % 5) as f64) } };
            let (n, dw) = a.step_with_noise(&st, *dt);
            let f_ref = (st.forward + st.vol * st.forward.powf(p.beta) * dw[0]).max(0.0);
            near("forward after a step", n.forward, f_ref, 1e-12, 1e-13 * f)?;
            near("volatility after a step", n.vol, st.vol * (p.nu * dw[1] - 0.5 * p.nu * p.nu * dt).exp(), 1e-12, 0.0)?;
            ensure!(n.forward >= 0.0 && n.vol >= 0.0, "negative state {n:?}");
            ensure!(st.forward > 0.0 || p.beta == 0.0 || n.forward == 0.0, "forward left the absorbing zero: {n:?}");
            floored |= n.forward == 0.0 && st.forward > 0.0;
            moved |= n != st;
            let (_, dw2) = b.step_with_noise(&st, dt2);
            for j in 0..2 { near("increments at another step size", dw2[j], dw[j] * (dt2 / dt).sqrt(), 1e-12, 1e-15)?; }
            ensure!(m.step(&st, 0.3 * i as f64, *dt) == n, "trait step differs from step_with_noise");
            zs.push(vec![dw[0] / dt.sqrt(), dw[1] / dt.sqrt()]);
        }
        check_normals(&zs, &[vec![1.0, p.rho], vec![p.rho, 1.0]])?;
        seen_as(moved, if floored { "absorbed" } else { "interior" })
    });
    s.prop("paths_are_steps_and_deterministic", 300, 5000, || (raw_sabr(), fwd(), 0.02f64..5.0, 1usize..12, 1usize..6, any::<u64>(), any::<u64>()), |(r, f, t, n, np, s1, s2)| {
        let p = at(r, *f);
        let run = |sd: u64| SabrSimulator::new(p, *f, sd).simulate(*t, *n, *np);
        let out = run(*s1);
        ensure!(out.len() == *np, "{} terminal states for {np} paths", out.len());
        ensure!(out == run(*s1), "same seed, different paths");
        ensure!(s1 == s2 || out != run(*s2) || (p.nu == 0.0 && out[0].forward == 0.0), "different seeds, same paths");
        let mut m = SabrSimulator::new(p, *f, *s1);
        for o in &out {
            let mut st = m.initial_state();
            for _ in 0..*n { st = m.step_with_noise(&st, t / *n as f64).0; }
            near("terminal forward", o.forward, st.forward, 1e-10, 1e-12 * f)?;
            near("terminal volatility", o.vol, st.vol, 1e-10, 0.0)?;
        }
        seen(*n > 1)
    });
    s.prop("calibration_reports_its_real_error", 600, 8000, || (raw_sabr(), raw_sabr(), fwd(), 0.05f64..5.0, prop::collection::vec(-0.4f64..0.4, 3..9), prop_oneof![1usize..60, 200usize..800], any::<bool>()), |(r, init, f, t, ls, iters, noisy)| {
        let truth = at(r, *f);
        let initial = at(&(init.0, r.1, init.2, init.3), *f);
        let ks: Vec<f64> = ls.iter().map(|l| f * l.exp()).collect();
        let mut vols = model_implied_vols(&truth, *f, *t, &ks);
        if *noisy { for (i, v) in vols.iter_mut().enumerate() { *v *= 1.0 + 0.05 * ((i * 7 % 5) as f64 - 2.0); } }
        let tg = targets_from_grid(&ks, &vols);
        ensure!(tg.len() == ks.len() && tg.iter().zip(&ks).zip(&vols).all(|((a, k), v)| a.strike == *k && a.market_vol == *v), "targets do not carry the grid");
        let o = NelderMeadOptions { max_iter: *iters, ftol: 1e-12, xtol: 1e-10, step_frac: 0.15 };
        let res = calibrate(initial, *f, &tg, *t, o);
        let err = |p: &SabrParams| { (ks.iter().zip(&vols).map(|(k, v)| sabr_sq(hagan(p, *f, *k, *t) - v)).sum::<f64>() / ks.len() as f64).sqrt() };
        if res.optimiser.f >= 1e6 {
            ensure!(ks.iter().any(|k| !(hagan(&initial, *f, *k, *t) > 0.0)), "a start with positive volatilities ends in the penalty");
            return seen(false);
        }
        let fit_tol = ks.iter().map(|k| 4.0 * hagan_tol(&res.params, *f, *k) * hagan(&res.params, *f, *k, *t).abs()).fold(0.0, f64::max);
        near("reported error", res.rmse, err(&res.params), 1e-8, 1e-11 + fit_tol)?;
        // the start is passed through a transform that floors alpha and nu at 1e-8 and caps |rho| at 0.999
        let e0 = err(&SabrParams { nu: initial.nu.max(1e-8), ..initial });
        if ks.iter().all(|k| hagan(&initial, *f, *k, *t) > 0.0) {
            ensure!(res.rmse <= e0 * (1.0 + 1e-6) + 1e-9, "error {} is worse than the start's {e0}", res.rmse);
        }
        ensure!(res.params.beta == r.1, "beta moved to {}", res.params.beta);
        ensure!(res.params.alpha > 0.0 && res.params.nu >= 0.0 && res.params.rho.abs() < 1.0, "parameters outside the model's domain: {:?}", res.params);
        ensure!(res.optimiser.iterations <= *iters, "{} iterations with a cap of {iters}", res.optimiser.iterations);
        // the trait front end is the same fit
        let strip = MarketSmileStrip { expiry_yf: *t, forward: *f, strikes: ks.clone(), vols: vols.clone() };
        let rep = SabrSmileCalibrator { initial }.calibrate(&strip, o).map_err(e2f)?;
        ensure!(rep.params == res.params && rep.rmse == res.rmse && rep.optimiser.is_some(), "the calibrator object fits {:?} ({}), the function {:?} ({})", rep.params, rep.rmse, res.params, res.rmse);
        seen_as(e0 > 1e-6, if *noisy { "noisy" } else { "model smile" })
    });
    s.prop("calibration_recovers_model_smiles", 60, 1200, || ((0.05f64..0.3, prop_oneof![Just(0.5), Just(1.0), 0.1f64..0.9], -0.6f64..0.6, 0.4f64..0.9), (0.8f64..1.25, -0.15f64..0.15, 0.75f64..1.35), fwd(), 0.3f64..2.0), |(r, start, f, t)| {
        let truth = at(r, *f);
        let ks: Vec<f64> = (-3..=3).map(|i| f * (r.0 * t.sqrt() * 0.6 * i as f64).exp()).collect();
        let vols = model_implied_vols(&truth, *f, *t, &ks);
        let o = NelderMeadOptions { max_iter: 4000, ftol: 1e-18, xtol: 1e-12, step_frac: 0.15 };
        // a local search: one of a few starts around the truth has to find it
        let tries: Vec<_> = [(1.0, 1.0), (-0.5, 0.5), (0.2, -0.6), (-0.1, 0.1)].iter().map(|(w, x)| {
            let initial = at(&(r.0 * (1.0 + w * (start.0 - 1.0)), r.1, (r.2 + x * start.1).clamp(-0.8, 0.8), r.3 * (1.0 + w * (start.2 - 1.0))), *f);
            calibrate(initial, *f, &targets_from_grid(&ks, &vols), *t, o)
        }).collect();
        let res = tries.iter().min_by(|a, b| a.rmse.total_cmp(&b.rmse)).unwrap();
        ensure!(res.rmse < 1e-5, "a smile of the model is fitted only to {} ({:?} for {truth:?})", res.rmse, res.params);
        near("alpha", res.params.alpha, truth.alpha, 0.02, 0.0)?;
        seen(true)
    });
    s.prop("a_start_that_fits_is_kept", 3000, 60000, || (raw_sabr(), fwd(), 0.05f64..5.0, prop::collection::vec(-0.4f64..0.4, 1..9), 0usize..120), |(r, f, t, ls, iters)| {
        let truth = at(&(r.0, r.1, r.2, r.3.max(1e-6)), *f);
        let ks: Vec<f64> = ls.iter().map(|l| f * l.exp()).collect();
        let vols = model_implied_vols(&truth, *f, *t, &ks);
        if vols.iter().any(|v| !(*v > 0.0 && *v < 20.0)) { return seen(false); }
        let res = calibrate(truth, *f, &targets_from_grid(&ks, &vols), *t, NelderMeadOptions { max_iter: *iters, ftol: 1e-16, xtol: 1e-12, step_frac: 0.1 });
        // the transforms of the start lose a few digits of small parameters
        let scale = vols.iter().fold(0.0f64, |a, v| a.max(*v));
        ensure!(res.rmse < 1e-6 * scale.max(1.0), "starting from {truth:?}, which makes the smile, the fit ends {:.3e} away at {:?}", res.rmse, res.params);
        seen_as(*iters > 0 && ks.len() > 1, if truth.rho.abs() > 0.9 { "strong correlation" } else { "moderate correlation" })
    });
    s.prop("smile_strips_read_the_surface", 1500, 30000, || (super::fx::raw_surface(), prop::collection::vec(-1.5f64..1.5, 1..8), 0.5f64..150.0, -20i64..5000), |(r, l, fwd, days)| {
        let Ok(Ok(surface)) = guarded(|| FXVolSurface::new(r.val, r.pillars())) else { return seen(false) };
        let d = add_days(r.val, if days % 3 == 0 { r.smiles[0].days } else { *days });
        let f0 = r.smiles[0].forward;
        let ks: Vec<f64> = l.iter().map(|x| f0 * (0.3 * x).exp()).collect();
        let strip = smile_strip(&surface, r.val, d, *fwd, &ks);
        let each: Vec<_> = ks.iter().map(|k| surface.volatility(d, *k)).collect();
        match strip {
            Err(_) => { ensure!(each.iter().any(|v| v.is_err()), "a strip the surface can answer is refused"); seen(false) }
            Ok(st) => {
                near("expiry", st.expiry_yf, (d - r.val).num_days() as f64 / 365.0, 1e-14, 0.0)?;
                ensure!(st.forward == *fwd && st.strikes == ks && st.vols.len() == ks.len(), "the strip does not carry forward and strikes");
                let (a, b, p) = (st.sabr_targets(), st.hhw_targets(), st.pillar_target());
                ensure!(a.len() == ks.len() && b.len() == ks.len() && p.strikes == ks && p.market_vols == st.vols && p.forward == st.forward && p.expiry == st.expiry_yf, "targets lose part of the strip");
                for i in 0..ks.len() {
                    let v = each[i].as_ref().map_err(|_| "a strip contains a volatility the surface refuses")?;
                    ensure!(st.vols[i] == *v && a[i].strike == ks[i] && a[i].market_vol == *v && b[i].strike == ks[i] && b[i].market_vol == *v, "strike {} reads {} for {v}", ks[i], st.vols[i]);
                }
                seen(ks.len() > 1)
            }
        }
    });
}
fn e2f(e: finquant::error::Error) -> Fail { Fail::from(format!("{e:?}")) }
