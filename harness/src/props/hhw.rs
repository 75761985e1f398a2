//! P32: FX–Heston–Hull–White — dynamics, foreign stock, forward characteristic function.
use super::util::*;
use crate::core::*;
use crate::ensure;
use finquant::models::common::cir::CirProcess;
use finquant::models::common::simulation::SimulationModel;
use finquant::models::forex::fx_hhw::*;
use finquant::models::forex::fx_hhw1_chf::*;
use finquant::models::forex::fx_hhw_stock::*;
use finquant::models::interestrate::hull_white::HullWhite1F;
use num_complex::Complex64;
use proptest::prelude::*;

/// Unit vectors whose Gram matrix is an admissible correlation.
pub fn gram(n: usize) -> impl Strategy<Value = Vec<Vec<f64>>> {
    (prop::collection::vec(prop::collection::vec(-1.0f64..1.0, n), n), prop_oneof![2 => 0.3f64..1.0, 1 => 0.0f64..0.05, 1 => Just(0.0)]).prop_map(move |(mut v, own)| {
        for (i, r) in v.iter_mut().enumerate() { r[i] += if own > 0.2 { 1.0 + own } else { 0.4 }; }
        for r in v.iter_mut() { let l = r.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-9); r.iter_mut().for_each(|x| *x /= l); }
        let mut c: Vec<Vec<f64>> = v.iter().map(|a| v.iter().map(|b| a.iter().zip(b).map(|(x, y)| x * y).sum()).collect()).collect();
        if own == 0.0 { for i in 0..n { for j in 0..n { c[i][j] = if i == j { 1.0 } else { 0.0 }; } } }
        for (i, r) in c.iter_mut().enumerate() { r[i] = 1.0; }
        c
    })
}
/// Smallest pivot of Gaussian elimination: positive exactly for positive-definite matrices.
pub fn min_pivot(c: &[Vec<f64>]) -> f64 {
    let mut a = c.to_vec();
    let n = a.len();
    let mut m = f64::MAX;
    for k in 0..n {
        m = m.min(a[k][k]);
        if a[k][k] <= 0.0 { return a[k][k].min(-1e-300); }
        for i in k + 1..n { let f = a[i][k] / a[k][k]; for j in k..n { let x = a[k][j]; a[i][j] -= f * x; } }
    }
    m
}
pub fn corr4(c: &[Vec<f64>]) -> Correlation4x4 {
    Correlation4x4 { rho_xi_sigma: c[0][1], rho_xi_d: c[0][2], rho_xi_f: c[0][3], rho_sigma_d: c[1][2], rho_sigma_f: c[1][3], rho_d_f: c[2][3] }
}
/// (kappa, theta, gamma, v0), (λd, ηd), (λf, ηf), (rd, rf, θd, θf), fx
pub type RawHhw = ((f64, f64, f64, f64), (f64, f64), (f64, f64), (f64, f64, f64, f64), f64, Vec<Vec<f64>>);
pub fn raw_hhw() -> impl Strategy<Value = RawHhw> {
    let hw = || (prop_oneof![4 => 0.005f64..1.0, 1 => Just(0.0), 1 => 1e-13f64..1e-3], prop_oneof![5 => 0.002f64..0.03, 1 => Just(0.0)]);
    ((prop_oneof![6 => 0.1f64..3.0, 1 => (-16.0f64..-2.0).prop_map(f64::exp), 1 => 3.0f64..12.0], prop_oneof![6 => 0.005f64..0.2, 1 => (-12.0f64..-5.0).prop_map(f64::exp), 1 => 0.2f64..0.6], prop_oneof![6 => 0.05f64..0.9, 1 => 0.01f64..0.05, 1 => (-18.0f64..-4.0).prop_map(f64::exp), 1 => 0.9f64..2.0], prop_oneof![6 => 0.005f64..0.2, 1 => (-12.0f64..-5.0).prop_map(f64::exp), 1 => 0.2f64..0.6]), hw(), hw(), (-0.02f64..0.08, -0.02f64..0.08, -0.02f64..0.08, -0.02f64..0.08), prop_oneof![0.5f64..2.0, 20.0f64..200.0], gram(4))
}
pub fn hhw(r: &RawHhw) -> FxHhwParams {
    let h = r.0;
    FxHhwParams {
        fx_0: r.4,
        heston: CirProcess { kappa: h.0, theta: h.1, gamma: h.2, sigma_0: h.3 },
        domestic: HullWhite1F { mean_reversion: r.1.0, sigma: r.1.1 },
        foreign: HullWhite1F { mean_reversion: r.2.0, sigma: r.2.1 },
        rd_0: r.3.0, rf_0: r.3.1, theta_d: r.3.2, theta_f: r.3.3,
        correlations: corr4(&r.5),
    }
}
/// Euler step of the stated joint dynamics with given increments.
fn hhw_step(p: &FxHhwParams, s: &FxHhwState, dt: f64, dw: &[f64], td: f64, tf: f64) -> FxHhwState {
    let v = s.variance.max(0.0);
    let sv = v.sqrt();
    FxHhwState {
        fx: s.fx * ((s.rd - s.rf - 0.5 * v) * dt + sv * dw[0]).exp(),
        variance: (v + p.heston.kappa * (p.heston.theta - v) * dt + p.heston.gamma * sv * dw[1]).max(0.0),
        rd: s.rd + p.domestic.mean_reversion * (td - s.rd) * dt + p.domestic.sigma * dw[2],
        rf: s.rf + (p.foreign.mean_reversion * (tf - s.rf) - p.foreign.sigma * p.correlations.rho_xi_f * sv) * dt + p.foreign.sigma * dw[3],
    }
}
fn same_state(what: &str, a: &FxHhwState, b: &FxHhwState, tol: f64) -> Result<(), Fail> {
    near(&format!("{what}: FX"), a.fx, b.fx, tol, 0.0)?;
    near(&format!("{what}: variance"), a.variance, b.variance, tol, tol)?;
    near(&format!("{what}: domestic rate"), a.rd, b.rd, tol, tol)?;
    near(&format!("{what}: foreign rate"), a.rf, b.rf, tol, tol)
}
fn states() -> impl Strategy<Value = Vec<(f64, f64, f64, f64)>> {
    prop::collection::vec((0.3f64..3.0, prop_oneof![5 => 0.001f64..0.4, 1 => Just(0.0)], -0.05f64..0.12, -0.05f64..0.12), 1..6)
}
fn stock() -> impl Strategy<Value = (f64, (f64, f64, f64, f64), f64, f64)> {
    (1.0f64..200.0, (0.1f64..3.0, 0.01f64..0.3, 0.05f64..0.8, 0.01f64..0.3), prop_oneof![4 => -0.98f64..0.98, 1 => Just(1.0)], prop_oneof![4 => -0.98f64..0.98, 1 => Just(-1.0)])
}

/// Affine coefficients from the T-forward dynamics
///   d ln FX_T = … + √v dWξ − ηd Bd dWd + ηf Bf dWf,   dv = (κ(θ−v) + γ√v ρσd ηd Bd) dt + γ√v dWσ
/// with √v replaced by its mean wherever it does not appear squared. `phi[k]` is at calendar time T − kτ/(2n).
fn affine(p: &FxHhwParams, u: Complex64, tau: f64, phi: &[f64]) -> (Complex64, Complex64) {
    let n = (phi.len() - 1) / 2;
    let iu = c(0.0, 1.0) * u;
    let r = &p.correlations;
    let (k, th, g) = (p.heston.kappa, p.heston.theta, p.heston.gamma);
    let bond = |h: &HullWhite1F, s: f64| if h.mean_reversion < 1e-9 { -s * (1.0 - 0.5 * h.mean_reversion * s) } else { (-h.mean_reversion * s).exp_m1() / h.mean_reversion };
    let f = |s: f64, y: &[Complex64]| {
        let ph = phi[((s / tau * (2 * n) as f64).round() as usize).min(2 * n)];
        let (vd, vf) = (-p.domestic.sigma * bond(&p.domestic, s), p.foreign.sigma * bond(&p.foreign, s));
        // variance of ln FX beyond v itself, covariance of ln FX and v beyond v·γρ, drift of v beyond κ(θ−v)
        let extra = vd * vd + vf * vf + 2.0 * r.rho_d_f * vd * vf + 2.0 * ph * (r.rho_xi_d * vd + r.rho_xi_f * vf);
        let cov = g * ph * (r.rho_sigma_d * vd + r.rho_sigma_f * vf);
        let drift = -g * ph * r.rho_sigma_d * vd;
        let conv = 0.5 * (iu * iu - iu);
        let cc = y[1];
        vec![cc * (k * th + drift) + iu * cc * cov + conv * extra, conv - k * cc + iu * cc * (g * r.rho_xi_sigma) + 0.5 * g * g * cc * cc]
    };
    let y = integrate(&[c(0.0, 0.0), c(0.0, 0.0)], 0.0, tau, n, &f);
    (y[0], y[1])
}
fn cnear(what: &str, a: Complex64, b: Complex64, tol: f64) -> Result<(), Fail> {
    ensure!((a - b).norm() <= tol, "{what}: got {a}, expected {b} (difference {:.3e}, tolerance {tol:.1e})", (a - b).norm());
    Ok(())
}

pub fn p32(s: &mut Suite) {
    s.rule("A case is one correlation matrix, one parameter set with states, steps and a seed, or one parameter set with transform arguments and an expiry; non-trivial when some off-diagonal correlation is non-zero (simulation) or both rates are stochastic (transform).");
    s.assume("The transform is the documented H1 linearisation (√v replaced by its mean E√v, which P25 decides); its distance from the full model is not asserted. The mean-root values are read from the repository in the transform oracle.");
    s.prop("admissible_correlations_only", 4000, 80000, || (gram(4), 0u8..4, prop::collection::vec(-1.3f64..1.3, 6)), |(g, mode, r)| {
        let mut m = g.clone();
        let idx = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
        if *mode >= 2 { for (k, (i, j)) in idx.iter().enumerate() { let x = if *mode == 2 { (m[*i][*j] + 0.5 * r[k]).clamp(-1.0, 1.0) } else { r[k] }; m[*i][*j] = x; m[*j][*i] = x; } }
        let cc = corr4(&m);
        let a = cc.as_matrix();
        for i in 0..4 { for j in 0..4 { ensure!(a[i][j] == m[i][j], "matrix entry ({i},{j})"); } }
        let piv = min_pivot(&m);
        if piv.abs() < 1e-9 { return seen_as(false, "borderline"); }
        ensure!(cc.is_valid() == (piv > 0.0), "smallest pivot {piv} but validity {}", cc.is_valid());
        match cc.cholesky() {
            None => ensure!(piv < 0.0, "no factor for an admissible matrix"),
            Some(l) => for i in 0..4 { for j in 0..4 {
                let v: f64 = (0..4).map(|k| l[i][k] * l[j][k]).sum();
                near("factor times its transpose", v, m[i][j], 0.0, 1e-12)?;
                ensure!(j <= i || l[i][j] == 0.0, "factor is not lower triangular");
            } },
        }
        let p = FxHhwParams { correlations: cc, ..hhw(&((1.0, 0.04, 0.3, 0.04), (0.1, 0.01), (0.1, 0.01), (0.0, 0.0, 0.0, 0.0), 1.0, g.clone())) };
        ensure!(FxHhwSimulator::new(p, 1).is_ok() == (piv > 0.0), "simulator accepts an inadmissible matrix or refuses an admissible one (pivot {piv})");
        let st = |a: f64, b: f64| ForeignStock { s_0: 1.0, variance: p.heston, rho_xi_sf: a, rho_sf_omega: b };
        ensure!(FxHhwStockSimulator::new(p, st(0.3, 0.2), 1).is_ok() == (piv > 0.0), "stock simulator and correlation");
        if piv > 0.0 {
            for (a, b) in [(1.0 + r[0].abs(), 0.0), (-1.0001, 0.2), (0.1, 1.0 + r[1].abs()), (0.3, -1.0 - r[2].abs())] {
                if a.abs() > 1.0 || b.abs() > 1.0 { ensure!(FxHhwStockSimulator::new(p, st(a, b), 1).is_err(), "stock correlations {a}, {b} accepted"); }
            }
        }
        seen_as(true, if piv > 0.0 { "admissible" } else { "inadmissible" })
    });
    s.prop("steps_follow_the_joint_dynamics", 400, 6000, || (raw_hhw(), states(), prop_oneof![2 => 0.001f64..0.05, 2 => 0.05f64..0.5, 1 => 0.5f64..4.0, 1 => (-14.0f64..-7.0).prop_map(f64::exp)], 0.05f64..0.95, any::<u64>()), |(r, sts, dt, frac, seed)| {
        if min_pivot(&r.5) < 1e-6 { return seen(false); }
        let p = hhw(r);
        let mk = || FxHhwSimulator::new(p, *seed).map_err(Fail::from);
        let (mut a, mut b, mut m, mut w) = (mk()?, mk()?, mk()?, mk()?.with_theta_fn(|t| (0.01 + 0.02 * t, 0.03 - 0.01 * t)));
        ensure!(a.initial_state() == FxHhwState { fx: p.fx_0, variance: p.heston.sigma_0, rd: p.rd_0, rf: p.rf_0 }, "initial state");
        let mut zs = vec![];
        for i in 0..300 {
            let q = sts[i % sts.len()];
            let st = FxHhwState { fx: p.fx_0 * q.0, variance: q.1, rd: q.2, rf: q.3 };
            let (n, dw) = a.step(&st, *dt);
            same_state("step", &n, &hhw_step(&p, &st, *dt, &dw, p.theta_d, p.theta_f), 1e-12)?;
            ensure!(n.variance >= 0.0, "negative variance");
            let (td, tf) = (0.02 * (i % 5) as f64, 0.05 - 0.01 * (i % 3) as f64);
            let (n2, dw2) = b.step_at_time(&st, dt * frac, td, tf);
            for j in 0..4 { near("increments at another step size", dw2[j], dw[j] * frac.sqrt(), 1e-12, 1e-15)?; }
            same_state("step with given targets", &n2, &hhw_step(&p, &st, dt * frac, &dw2, td, tf), 1e-12)?;
            let t = 0.1 * i as f64;
            ensure!(SimulationModel::step(&mut m, &st, t, *dt) == n, "trait step differs from step");
            same_state("step with a target function", &SimulationModel::step(&mut w, &st, t, *dt), &hhw_step(&p, &st, *dt, &dw, 0.01 + 0.02 * t, 0.03 - 0.01 * t), 1e-12)?;
            zs.push(dw.iter().map(|x| x / dt.sqrt()).collect());
        }
        check_normals(&zs, &r.5)?;
        seen(r.5[0][1] != 0.0)
    });
    s.prop("simulation_noise_is_standard", 12, 200, || (raw_hhw(), stock(), any::<u64>()), |(r, sk, seed)| {
        if min_pivot(&r.5) < 1e-6 { return seen(false); }
        let p = hhw(r);
        let mut a = FxHhwSimulator::new(p, *seed).map_err(Fail::from)?;
        let st = a.initial_state();
        let zs: Vec<Vec<f64>> = (0..20000).map(|_| a.step(&st, 0.25).1.iter().map(|x| x * 2.0).collect()).collect();
        check_normals(&zs, &r.5)?;
        let k = ForeignStock { s_0: sk.0, variance: CirProcess { kappa: sk.1.0, theta: sk.1.1, gamma: sk.1.2, sigma_0: sk.1.3 }, rho_xi_sf: sk.2, rho_sf_omega: sk.3 };
        let mut m = FxHhwStockSimulator::new(FxHhwParams { domestic: HullWhite1F { sigma: 0.01, ..p.domestic }, foreign: HullWhite1F { sigma: 0.01, ..p.foreign }, ..p }, k, *seed).map_err(Fail::from)?;
        let st = FxHhwStockState { fx: FxHhwState { variance: 0.09, ..st }, stock: sk.0, stock_variance: 0.16 };
        let dt: f64 = 1e-4;
        let mut zs = vec![];
        for _ in 0..20000 {
            let n = m.step(&st, dt);
            zs.push(recover(&m, &st, &n, dt));
        }
        check_normals(&zs, &stock_corr(r, sk))?;
        seen(true)
    });
    s.prop("stock_steps_follow_the_joint_dynamics", 300, 5000, || (raw_hhw(), stock(), states(), prop_oneof![2 => 0.0005f64..0.005, 2 => 0.005f64..0.05, 1 => 0.05f64..4.0, 1 => (-14.0f64..-7.0).prop_map(f64::exp)], 0.05f64..0.95, any::<u64>()), |(r, sk, sts, dt, frac, seed)| {
        if min_pivot(&r.5) < 1e-6 { return seen(false); }
        let mut p = hhw(r);
        // noise is read back through the vol-of-vol
        p.heston.gamma = p.heston.gamma.clamp(0.02, 0.9);
        p.domestic.sigma += 1e-3;
        p.foreign.sigma += 1e-3;
        let k = ForeignStock { s_0: sk.0, variance: CirProcess { kappa: sk.1.0, theta: sk.1.1, gamma: sk.1.2, sigma_0: sk.1.3 }, rho_xi_sf: sk.2, rho_sf_omega: sk.3 };
        let mk = || FxHhwStockSimulator::new(p, k, *seed).map_err(Fail::from);
        let (mut a, mut b, mut m, mut d) = (mk()?, mk()?, mk()?, mk()?);
        let base = FxHhwSimulator::new(p, *seed).map_err(Fail::from)?;
        let i0 = a.initial_state();
        ensure!(i0.fx == base.initial_state() && i0.stock == sk.0 && i0.stock_variance == sk.1.3, "initial state");
        let mut zs = vec![];
        for i in 0..250 {
            let q = sts[i % sts.len()];
            let q2 = sts[(i + 1) % sts.len()];
            let st = FxHhwStockState { fx: FxHhwState { fx: p.fx_0 * q.0, variance: q.1 + 0.05, rd: q.2, rf: q.3 }, stock: sk.0 * q2.0, stock_variance: q2.1 + 0.05 };
            let other = FxHhwStockState { fx: FxHhwState { fx: p.fx_0, variance: 0.2, rd: 0.01, rf: 0.03 }, stock: sk.0, stock_variance: 0.3 };
            let (n, n2, n3) = (a.step(&st, *dt), b.step(&st, dt * frac), d.step(&other, *dt));
            ensure!(SimulationModel::step(&mut m, &st, 0.3, *dt) == n, "trait step differs from step");
            ensure!(n.stock > 0.0 && n.stock_variance >= 0.0 && n.fx.variance >= 0.0, "state left its domain: {n:?}");
            let (z, z2, z3) = (recover(&a, &st, &n, *dt), recover(&a, &st, &n2, dt * frac), recover(&a, &other, &n3, *dt));
            // a truncated variance hides its draw; those come back as NaN
            for j in 0..6 {
                if z[j].is_nan() { continue; }
                if z2[j].is_finite() { near(&format!("driving noise {j} at another step size"), z2[j], z[j], 1e-7, 1e-7)?; }
                if z3[j].is_finite() { near(&format!("driving noise {j} from another state"), z3[j], z[j], 1e-7, 1e-7)?; }
            }
            if z.iter().all(|x| x.is_finite()) { zs.push(z); }
        }
        if zs.len() == 250 { check_normals(&zs, &stock_corr(r, sk))?; }
        // zero variances stop the diffusion
        let z0 = FxHhwStockState { fx: FxHhwState { fx: 1.3, variance: 0.0, rd: 0.02, rf: 0.05 }, stock: 10.0, stock_variance: 0.0 };
        let n = a.step(&z0, *dt);
        near("stock without volatility", n.stock, 10.0 * (0.05 * dt).exp(), 1e-12, 0.0)?;
        near("FX without volatility", n.fx.fx, 1.3 * (-0.03 * dt).exp(), 1e-12, 0.0)?;
        near("stock variance leaving zero", n.stock_variance, k.variance.kappa * k.variance.theta * dt, 1e-12, 0.0)?;
        seen(r.5[0][1] != 0.0)
    });
    s.prop("simulations_are_chains_of_steps", 200, 3000, || (raw_hhw(), stock(), 0.05f64..3.0, 1usize..9, 1usize..5, any::<u64>(), any::<u64>()), |(r, sk, t, n, np, s1, s2)| {
        if min_pivot(&r.5) < 1e-6 { return seen(false); }
        let p = hhw(r);
        let k = ForeignStock { s_0: sk.0, variance: CirProcess { kappa: sk.1.0, theta: sk.1.1, gamma: sk.1.2, sigma_0: sk.1.3 }, rho_xi_sf: sk.2, rho_sf_omega: sk.3 };
        let run = |sd| FxHhwSimulator::new(p, sd).unwrap().simulate(*t, *n, *np);
        let out = run(*s1);
        ensure!(out == run(*s1) && out.len() == *np, "not a function of the seed");
        ensure!(s1 == s2 || out != run(*s2), "different seeds, same paths");
        let mut m = FxHhwSimulator::new(p, *s1).unwrap();
        for o in &out {
            let mut st = FxHhwState::initial(&p);
            for _ in 0..*n { st = m.step(&st, t / *n as f64).0; }
            same_state("terminal state", o, &st, 1e-10)?;
        }
        let out = FxHhwStockSimulator::new(p, k, *s1).unwrap().simulate(*t, *n, *np);
        let mut m = FxHhwStockSimulator::new(p, k, *s1).unwrap();
        ensure!(out.len() == *np, "path count");
        for o in &out {
            let mut st = FxHhwStockState::initial(&p, &k);
            for _ in 0..*n { st = m.step(&st, t / *n as f64); }
            same_state("terminal state with stock", &o.fx, &st.fx, 1e-10)?;
            near("terminal stock", o.stock, st.stock, 1e-10, 0.0)?;
            near("terminal stock variance", o.stock_variance, st.stock_variance, 1e-10, 1e-12)?;
        }
        seen(*n > 1)
    });
    s.prop("transform_solves_the_affine_equations", 60, 1000, || (raw_hhw(), 0.1f64..6.0, prop::collection::vec((-12.0f64..12.0, prop_oneof![2 => Just(0.0), 1 => -0.9f64..0.0]), 1..4), 0.02f64..0.98), |(r, t, us, part)| {
        let p = hhw(r);
        let n = 256;
        let chf = FxHhw1ForwardChf::with_simpson_steps(&p, *t, 2 * n);
        let coarse = FxHhw1ForwardChf::new(&p, *t);
        ensure!(chf.params() == &p && chf.expiry == *t && coarse.expiry == *t, "bound parameters");
        let mut did = false;
        for tau in [*t, t * part] {
            let phi: Vec<f64> = (0..=2 * n).map(|k| p.heston.sqrt_mean((t - tau * k as f64 / (2 * n) as f64).max(0.0))).collect();
            for (re, im) in us {
                let u = c(*re, *im);
                let iu = c(0.0, 1.0) * u;
                let x = c(p.heston.kappa, 0.0) - iu * (p.heston.gamma * p.correlations.rho_xi_sigma);
                let d = (x * x - (iu * iu - iu) * p.heston.gamma.powi(2)).sqrt();
                if d.norm() * tau > 25.0 { continue; }
                let (a, cc) = affine(&p, u, tau, &phi);
                let k = chf.components(u, tau);
                let size = 1.0 + u.norm_sqr() * (p.heston.theta + p.heston.sigma_0) * tau;
                cnear("B", k.b, iu, 1e-15 * (1.0 + u.norm()))?;
                cnear(&format!("C at u = {u}, time to maturity {tau}"), k.c, cc, 3e-6 * (1.0 + cc.norm()))?;
                cnear(&format!("A at u = {u}, time to maturity {tau}"), k.a, a, 3e-6 * size + 3e-6 * a.norm())?;
                // E√σ leaves a small initial variance within σ0/γ² years, which the default grid may not resolve
                if p.heston.sigma_0 > p.heston.gamma.powi(2) * t / 128.0 {
                    let k2 = coarse.components(u, tau);
                    cnear("A on the default grid", k2.a, a, 1e-4 * size + 1e-4 * a.norm())?;
                }
                cnear("assembled", k.assemble(0.3, 0.05), (k.a + k.b * 0.3 + k.c * 0.05).exp(), 1e-12 * (k.a + k.b * 0.3 + k.c * 0.05).exp().norm())?;
                did = true;
            }
        }
        seen_as(did && p.domestic.sigma > 0.0 && p.foreign.sigma > 0.0, if p.domestic.sigma == 0.0 && p.foreign.sigma == 0.0 { "Heston" } else { "hybrid" })
    });
    s.prop("transform_is_a_forward_measure_transform", 500, 8000, || (raw_hhw(), 0.05f64..10.0, -20.0f64..20.0, prop_oneof![Just(2usize), Just(16), Just(128)]), |(r, t, u, n)| {
        let p = hhw(r);
        let chf = FxHhw1ForwardChf::with_simpson_steps(&p, *t, *n);
        let fwd = p.fx_0 * ((p.rd_0 - p.rf_0) * t).exp();
        cnear("at zero", chf.evaluate(c(0.0, 0.0)), c(1.0, 0.0), 1e-13)?;
        cnear("at minus i", chf.evaluate(c(0.0, -1.0)), c(fwd, 0.0), 1e-10 * fwd)?;
        let v = chf.evaluate(c(*u, 0.0));
        cnear("conjugate symmetry", chf.evaluate(c(-u, 0.0)), v.conj(), 1e-11 * (1.0 + v.norm()))?;
        let k = chf.components(c(*u, 0.0), *t);
        let e = k.a + k.b * fwd.ln() + k.c * p.heston.sigma_0;
        cnear("value from components", v, e.exp(), 1e-11 * (1.0 + u.abs()) * e.exp().norm())?;
        let z = chf.components(c(*u, 0.0), 0.0);
        ensure!(z.a.norm() == 0.0 && z.c.norm() == 0.0, "coefficients at maturity {z:?}");
        ensure!(guarded(|| { chf.components(c(*u, 0.0), t * 1.01 + 1e-6); }).is_err(), "time to maturity beyond the expiry accepted");
        ensure!(guarded(|| { FxHhw1ForwardChf::with_simpson_steps(&p, *t, n + 1); }).is_err() && guarded(|| { FxHhw1ForwardChf::with_simpson_steps(&p, *t, 0); }).is_err(), "odd or empty quadrature accepted");
        seen(p.domestic.sigma > 0.0)
    });
}
/// Driving noises (unit variance) of one stock-model step from its states; NaN where truncation hides them.
fn recover(m: &FxHhwStockSimulator, s: &FxHhwStockState, n: &FxHhwStockState, dt: f64) -> Vec<f64> {
    let (p, k) = (&m.fx, &m.stock);
    let (v, w) = (s.fx.variance, s.stock_variance);
    let (sv, sw, q) = (v.sqrt(), w.sqrt(), dt.sqrt());
    let cut = |x: f64, z: f64| if x <= 0.0 { f64::NAN } else { z };
    vec![
        ((n.fx.fx / s.fx.fx).ln() - (s.fx.rd - s.fx.rf - 0.5 * v) * dt) / (sv * q),
        cut(n.fx.variance, (n.fx.variance - v - p.heston.kappa * (p.heston.theta - v) * dt) / (p.heston.gamma * sv * q)),
        (n.fx.rd - s.fx.rd - p.domestic.mean_reversion * (p.theta_d - s.fx.rd) * dt) / (p.domestic.sigma * q),
        (n.fx.rf - s.fx.rf - (p.foreign.mean_reversion * (p.theta_f - s.fx.rf) - p.foreign.sigma * p.correlations.rho_xi_f * sv) * dt) / (p.foreign.sigma * q),
        ((n.stock / s.stock).ln() - (s.fx.rf - k.rho_xi_sf * sv * sw - 0.5 * w) * dt) / (sw * q),
        cut(n.stock_variance, (n.stock_variance - w - (k.variance.kappa * (k.variance.theta - w) - k.rho_sf_omega * k.rho_xi_sf * k.variance.gamma * sw * sv) * dt) / (k.variance.gamma * sw * q)),
    ]
}
/// The stock loads on the FX noise only, its variance on the stock's noise only.
fn stock_corr(r: &RawHhw, sk: &(f64, (f64, f64, f64, f64), f64, f64)) -> Vec<Vec<f64>> {
    let mut m = vec![vec![0.0; 6]; 6];
    for i in 0..4 { for j in 0..4 { m[i][j] = r.5[i][j]; } }
    for i in 0..4 { let a = r.5[0][i] * sk.2; m[i][4] = a; m[4][i] = a; m[i][5] = a * sk.3; m[5][i] = a * sk.3; }
    m[4][4] = 1.0; m[5][5] = 1.0; m[4][5] = sk.3; m[5][4] = sk.3;
    m
}
