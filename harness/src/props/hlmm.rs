//! P33: FX hybrid with displaced stochastic-volatility Libor markets.
use super::hhw::gram;
use super::util::*;
use crate::core::*;
use crate::ensure;
use finquant::models::common::cir::CirProcess;
use finquant::models::common::simulation::SimulationModel as _;
use finquant::models::forex::fx_hlmm::*;
use finquant::models::forex::fx_hlmm1_chf::*;
use num_complex::Complex64;
use proptest::prelude::*;

/// T0, period lengths, Libors
pub type RawTenor = (f64, Vec<(f64, f64)>);
pub fn raw_tenor(max: usize) -> impl Strategy<Value = RawTenor> {
    (prop_oneof![4 => Just(0.0), 1 => 0.05f64..1.0], prop::collection::vec((prop_oneof![8 => 0.2f64..1.5, 4 => Just(0.5), 4 => Just(1.0), 1 => 0.003f64..0.2, 1 => 1.5f64..4.0], prop_oneof![5 => 0.002f64..0.09, 1 => -0.02f64..0.0, 1 => Just(0.0)]), 1..=max))
}
pub fn tenor_dates(r: &RawTenor) -> Vec<f64> {
    let mut d = vec![r.0];
    for p in &r.1 { d.push(d[d.len() - 1] + p.0); }
    d
}
/// per-period (σ, β, ρ(FX, rate)), λ, η, v0, loading matrix seed
pub type RawSide = (Vec<(f64, f64, f64)>, f64, f64, f64);
pub fn raw_side(n: usize) -> impl Strategy<Value = RawSide> {
    (prop::collection::vec((prop_oneof![6 => 0.02f64..0.6, 1 => Just(0.0)], 0.0f64..1.0, prop_oneof![8 => -0.9f64..0.9, 1 => Just(1.0), 1 => Just(-1.0)]), n), prop_oneof![6 => 0.1f64..3.0, 1 => (-16.0f64..-2.0).prop_map(f64::exp), 1 => 3.0f64..12.0], prop_oneof![6 => 0.05f64..1.2, 1 => (-18.0f64..-3.0).prop_map(f64::exp)], prop_oneof![6 => 0.2f64..2.0, 1 => 0.01f64..0.2])
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Raw {
    pub tenor: RawTenor,
    pub heston: (f64, f64, f64, f64, f64),
    pub fx: f64,
    pub d: RawSide,
    pub f: RawSide,
    /// correlation of all domestic and foreign rates together (2N × 2N)
    pub corr: Vec<Vec<f64>>,
}
pub fn raw() -> impl Strategy<Value = Raw> {
    raw_tenor(6).prop_flat_map(|t| {
        let n = t.1.len();
        (Just(t), (prop_oneof![6 => 0.1f64..3.0, 1 => (-16.0f64..-2.0).prop_map(f64::exp), 1 => 3.0f64..12.0], prop_oneof![6 => 0.005f64..0.2, 1 => (-12.0f64..-5.0).prop_map(f64::exp), 1 => 0.2f64..0.6], prop_oneof![6 => 0.05f64..0.9, 1 => 0.01f64..0.05, 1 => (-18.0f64..-4.0).prop_map(f64::exp), 1 => 0.9f64..2.0], prop_oneof![6 => 0.005f64..0.2, 1 => (-12.0f64..-5.0).prop_map(f64::exp), 1 => 0.2f64..0.6], prop_oneof![6 => -0.95f64..0.95, 1 => Just(0.0)]), prop_oneof![0.5f64..2.0, 20.0f64..200.0], raw_side(n), raw_side(n), gram(2 * n))
    }).prop_map(|(tenor, heston, fx, d, f, corr)| Raw { tenor, heston, fx, d, f, corr })
}
pub fn build(r: &Raw) -> FxHlmmParams {
    let n = r.tenor.1.len();
    let block = |a: usize, b: usize| -> Vec<Vec<f64>> { (0..n).map(|i| (0..n).map(|j| r.corr[a + i][b + j].clamp(-1.0, 1.0)).collect()).collect() };
    let side = |s: &RawSide, a: usize| DdSvLmm { sigmas: s.0.iter().map(|x| x.0).collect(), betas: s.0.iter().map(|x| x.1).collect(), lambda: s.1, eta: s.2, v_0: s.3, libor_corr: block(a, a) };
    FxHlmmParams {
        fx_0: r.fx,
        heston: CirProcess { kappa: r.heston.0, theta: r.heston.1, gamma: r.heston.2, sigma_0: r.heston.3 },
        tenor: LiborTenor::new(tenor_dates(&r.tenor), r.tenor.1.iter().map(|x| x.1).collect()),
        domestic: side(&r.d, 0),
        foreign: side(&r.f, n),
        correlations: FxHlmmCorrelations { rho_xi_sigma: r.heston.4, rho_xi_d: r.d.0.iter().map(|x| x.2).collect(), rho_xi_f: r.f.0.iter().map(|x| x.2).collect(), libor_cross_corr: block(0, n) },
    }
}
/// Frozen-rate loadings of the log forward, from the definition.
fn psi(r: &Raw, s: &RawSide) -> Vec<f64> {
    r.tenor.1.iter().zip(&s.0).map(|((tau, l), x)| x.0 * (1.0 - 1.0 / (1.0 + tau * l))).collect()
}
fn root(s: &RawSide, t: f64) -> f64 { CirProcess { kappa: s.1, theta: s.3, gamma: s.2, sigma_0: s.3 }.sqrt_mean(t) }
/// Number of tenor dates strictly before t: the periods already fixed at t are exactly those ending … at or before it.
fn first_active(dates: &[f64], t: f64) -> usize { dates.iter().filter(|d| **d < t).count().min(dates.len() - 1) + 1 }
/// (A_d, A_f, f) at t from the covariance of the frozen diffusion with loadings on (FX, domestic rates, foreign rates).
fn sums(r: &Raw, t: f64, start: usize) -> (f64, f64, f64) {
    let n = r.tenor.1.len();
    let (pd, pf) = (psi(r, &r.d), psi(r, &r.f));
    let on = |k: usize| k + 1 >= start;
    let (mut ad, mut af, mut xd, mut xf, mut df) = (0.0, 0.0, 0.0, 0.0, 0.0);
    for i in (0..n).filter(|k| on(*k)) {
        xd += pd[i] * r.d.0[i].2;
        xf += pf[i] * r.f.0[i].2;
        for j in (0..n).filter(|k| on(*k)) {
            ad += pd[i] * pd[j] * r.corr[i][j];
            af += pf[i] * pf[j] * r.corr[n + i][n + j];
            df += pd[i] * pf[j] * r.corr[i][n + j];
        }
    }
    let h = CirProcess { kappa: r.heston.0, theta: r.heston.1, gamma: r.heston.2, sigma_0: r.heston.3 }.sqrt_mean(t);
    let (vd, vf) = (root(&r.d, t), root(&r.f, t));
    (ad, af, 2.0 * h * vd * xd - 2.0 * h * vf * xf - 2.0 * vd * vf * df)
}
/// A, C, D_d, D_f by RK4 in time to maturity, segment by segment between tenor dates.
fn equations(r: &Raw, p: &FxHlmmParams, expiry: f64, u: Complex64, per: usize) -> [Complex64; 4] {
    let dates = tenor_dates(&r.tenor);
    let iu = c(0.0, 1.0) * u;
    let mut cuts: Vec<f64> = dates.iter().map(|d| expiry - d).filter(|x| *x > 0.0 && *x < expiry).collect();
    cuts.push(0.0);
    cuts.push(expiry);
    cuts.sort_by(f64::total_cmp);
    let half = 0.5 * (iu * iu - iu);
    let h = &p.heston;
    let rho = p.correlations.rho_xi_sigma;
    let mut y = vec![c(0.0, 0.0); 4];
    for w in cuts.windows(2) {
        if w[1] - w[0] < 1e-14 { continue; }
        let start = first_active(&dates, expiry - 0.5 * (w[0] + w[1]));
        let (ad, af, _) = sums(r, 0.0, start);
        let fs: Vec<f64> = (0..=2 * per).map(|k| { let s = w[0] + (w[1] - w[0]) * k as f64 / (2 * per) as f64; sums(r, (expiry - s).max(0.0), start).2 }).collect();
        let rhs = |s: f64, y: &[Complex64]| {
            let f = fs[(((s - w[0]) / (w[1] - w[0]) * (2 * per) as f64).round() as usize).min(2 * per)];
            let (cc, dd, df) = (y[1], y[2], y[3]);
            vec![
                cc * (h.kappa * h.theta) + dd * (r.d.1 * r.d.3) + df * (r.f.1 * r.f.3) + half * f,
                half - cc * h.kappa + iu * cc * (h.gamma * rho) + cc * cc * (0.5 * h.gamma * h.gamma),
                half * ad - dd * r.d.1 + dd * dd * (0.5 * r.d.2 * r.d.2),
                half * af - df * r.f.1 + df * df * (0.5 * r.f.2 * r.f.2),
            ]
        };
        y = integrate(&y, w[0], w[1], per, &rhs);
    }
    [y[0], y[1], y[2], y[3]]
}
pub fn cnear(what: &str, a: Complex64, b: Complex64, tol: f64) -> Result<(), Fail> {
    ensure!((a - b).norm() <= tol, "{what}: got {a}, expected {b} (difference {:.3e}, tolerance {tol:.1e})", (a - b).norm());
    Ok(())
}
/// An expiry in, at the end of, or beyond the tenor, from a fraction and a choice.
pub fn pick_expiry(dates: &[f64], frac: f64, mode: u8) -> f64 {
    let tn = dates[dates.len() - 1];
    match mode { 0 => tn, 1 => tn * (1.0 + 0.5 * frac), 2 => dates[1 + ((dates.len() - 1) as f64 * frac) as usize % (dates.len() - 1)], _ => (tn * frac).max(0.05) }
}

pub fn p33(s: &mut Suite) {
    s.rule("A case is one tenor structure, or one parameter set (tenor, rates, volatilities, joint rate correlation, FX loadings) with an expiry, times and transform arguments; non-trivial when at least two periods have volatile rates.");
    s.assume("The transform is the documented frozen-rate linearisation; E√v comes from the repository (decided by P25). Domestic and foreign initial curves coincide in this parametrisation, so the forward FX is the spot.");
    s.prop("tenor_dates_and_active_periods", 4000, 80000, || (raw_tenor(8), prop::collection::vec((0.0f64..1.3, 0u8..3), 1..6), 0usize..8), |(t, xs, bad)| {
        let dates = tenor_dates(t);
        let libors: Vec<f64> = t.1.iter().map(|x| x.1).collect();
        let n = libors.len();
        let ten = LiborTenor::new(dates.clone(), libors.clone());
        ensure!(ten.n() == n, "period count");
        for k in 1..=n { near("accrual", ten.tau(k), t.1[k - 1].0, 1e-12, 1e-12)?; }
        ensure!(guarded(|| ten.tau(0)).is_err() && guarded(|| ten.tau(n + 1)).is_err(), "period outside the tenor accepted");
        for (f, mode) in xs {
            let x = match mode { 0 => f * dates[n], 1 => dates[(f * n as f64) as usize % (n + 1)], _ => dates[0] + (dates[n] - dates[0]) * f };
            let want = (0..=n).find(|k| x <= dates[*k]).unwrap_or(n);
            ensure!(ten.m(x) == want, "m({x}) is {}, expected {want} for dates {dates:?}", ten.m(x));
            ensure!(ten.active(x).collect::<Vec<_>>() == (want + 1..=n).collect::<Vec<_>>(), "active set at {x}");
        }
        let mut d2 = dates.clone();
        let i = bad % n;
        d2[i + 1] = d2[i];
        ensure!(guarded(|| LiborTenor::new(d2.clone(), libors.clone())).is_err(), "repeated date accepted");
        d2[i + 1] = d2[i] - 0.1;
        ensure!(guarded(|| LiborTenor::new(d2.clone(), libors.clone())).is_err(), "falling dates accepted");
        ensure!(guarded(|| LiborTenor::new(dates[..n].to_vec(), libors.clone())).is_err(), "missing date accepted");
        let mut d3 = dates.clone();
        d3[0] = -0.01;
        ensure!(guarded(|| LiborTenor::new(d3.clone(), libors.clone())).is_err(), "start before valuation accepted");
        seen(n >= 2)
    });
    s.prop("inconsistent_parameters_are_rejected", 3000, 50000, || (raw(), 0usize..26, 0usize..64, 0usize..64, 0.001f64..1.0), |(r, fault, a, b, e)| {
        let p = build(r);
        ensure!(p.validate().is_ok(), "consistent parameters rejected: {:?}", p.validate());
        let n = p.tenor.n();
        let (i, j) = (a % n, b % n);
        let mut q = p.clone();
        let foreign = fault % 2 == 1;
        let side = if foreign { &mut q.foreign } else { &mut q.domestic };
        match fault / 2 {
            0 => { side.sigmas.pop(); }
            1 => { side.betas.push(0.5); }
            2 => { side.libor_corr.pop(); }
            3 => { side.libor_corr[i].push(0.0); }
            4 => { side.libor_corr[i][i] = 1.0 - e; }
            5 => { if i == j { return seen(false); } side.libor_corr[i][j] += if side.libor_corr[i][j] > 0.0 { -e } else { *e }; }
            6 => { if i == j { return seen(false); } side.libor_corr[i][j] = 1.0 + e; side.libor_corr[j][i] = 1.0 + e; }
            7 => { match i % 3 { 0 => side.lambda = if foreign { 0.0 } else { -e }, 1 => side.eta = if foreign { 0.0 } else { -e }, _ => side.v_0 = if foreign { 0.0 } else { -e } } }
            8 => { let v = if foreign { &mut q.correlations.rho_xi_f } else { &mut q.correlations.rho_xi_d }; v.pop(); }
            9 => { let v = if foreign { &mut q.correlations.rho_xi_f } else { &mut q.correlations.rho_xi_d }; v[i] = if j % 2 == 0 { 1.0 + e } else { -1.0 - e }; }
            10 => { if foreign { q.correlations.libor_cross_corr.pop(); } else { q.correlations.libor_cross_corr[i].pop(); } }
            11 => { q.correlations.libor_cross_corr[i][j] = if foreign { 1.0 + e } else { -1.0 - e }; }
            _ => { q.correlations.rho_xi_sigma = if foreign { 1.0 + e } else { -1.0 - e }; }
        }
        ensure!(q.validate().is_err(), "fault {fault} at ({i},{j}) accepted");
        ensure!(guarded(|| { FxHlmm1ForwardChf::new(&q, 1.0); }).is_err(), "transform built on fault {fault}");
        seen_as(true, format!("fault {}", fault / 2))
    });
    s.prop("coefficients_equal_their_sums", 600, 12000, || (raw(), prop::collection::vec(0.0f64..1.2, 1..3)), |(r, ts)| {
        let p = build(r);
        let n = p.tenor.n();
        for (a, b) in [(p.domestic.psi(&p.tenor), psi(r, &r.d)), (p.foreign.psi(&p.tenor), psi(r, &r.f))] {
            ensure!(a.len() == n, "one loading per period");
            for k in 0..n { near("loading", a[k], b[k], 1e-10, 1e-14)?; }
        }
        for t in ts {
            let t = t * p.tenor.dates[n];
            for start in 1..=n + 1 {
                let (ad, af, f) = sums(r, t, start);
                near(&format!("domestic rate variance from period {start}"), compute_a_d(&p, start), ad, 1e-10, 1e-14)?;
                near(&format!("foreign rate variance from period {start}"), compute_a_f(&p, start), af, 1e-10, 1e-14)?;
                near(&format!("cross terms from period {start} at {t}"), compute_f_linearised(&p, t, start), f, 1e-10, 1e-13)?;
            }
        }
        seen(n >= 2)
    });
    s.prop("transform_solves_the_segment_equations", 60, 900, || (raw(), 0.02f64..0.98, 0u8..6, prop::collection::vec((-14.0f64..14.0, prop_oneof![2 => Just(0.0), 1 => -0.9f64..0.0]), 1..4)), |(r, frac, mode, us)| {
        let p = build(r);
        let t = pick_expiry(&p.tenor.dates, *frac, *mode);
        let per = 96;
        let chf = FxHlmm1ForwardChf::with_simpson_steps(&p, t, 2 * per);
        let coarse = FxHlmm1ForwardChf::new(&p, t);
        ensure!(chf.params() == &p && chf.expiry == t && chf.n_simpson_per_segment == 2 * per, "bound parameters");
        let mut did = false;
        for (re, im) in us {
            let u = c(*re, *im);
            let iu = c(0.0, 1.0) * u;
            let x = c(p.heston.kappa, 0.0) - iu * (p.heston.gamma * p.correlations.rho_xi_sigma);
            let longest = r.tenor.1.iter().map(|x| x.0).fold(r.tenor.0, f64::max).max(t - p.tenor.dates[p.tenor.n() - 1]).min(t);
            let (ad, af, _) = sums(r, 0.0, 1);
            let stiff = ((x * x - (iu * iu - iu) * p.heston.gamma.powi(2)).sqrt().norm()).max((r.d.1.powi(2) + r.d.2.powi(2) * ad * (u.norm_sqr() + 1.0)).sqrt()).max((r.f.1.powi(2) + r.f.2.powi(2) * af * (u.norm_sqr() + 1.0)).sqrt());
            if stiff * longest > 12.0 { continue; }
            let [a, cc, dd, df] = equations(r, &p, t, u, per);
            let k = chf.components(u);
            cnear("B", k.b, iu, 1e-15 * (1.0 + u.norm()))?;
            cnear(&format!("C at u = {u}, expiry {t}"), k.c, cc, 3e-6 * (1.0 + cc.norm()))?;
            cnear(&format!("domestic D at u = {u}, expiry {t}"), k.d_d, dd, 3e-6 * (0.001 + dd.norm()))?;
            cnear(&format!("foreign D at u = {u}, expiry {t}"), k.d_f, df, 3e-6 * (0.001 + df.norm()))?;
            cnear(&format!("A at u = {u}, expiry {t}"), k.a, a, 3e-6 * (0.01 + a.norm()))?;
            cnear("A on the default grid", coarse.components(u).a, a, 0.02 * (0.01 + a.norm()))?;
            let e = (k.a + k.b * 0.3 + k.c * 0.05 + k.d_d * 0.7 + k.d_f * 1.3).exp();
            cnear("assembled", k.assemble(0.3, 0.05, 0.7, 1.3), e, 1e-12 * e.norm())?;
            let v = (a + iu * p.fx_0.ln() + cc * p.heston.sigma_0 + dd * r.d.3 + df * r.f.3).exp();
            cnear("transform", chf.evaluate(u), v, 1e-4 * (v.norm() + 1e-3))?;
            did = true;
        }
        seen_as(did && p.tenor.n() >= 2, format!("{} periods, {}", p.tenor.n(), ["at the end", "beyond the tenor", "on a date", "inside", "inside", "inside"][*mode as usize]))
    });
    s.prop("transform_is_a_forward_measure_transform", 800, 15000, || (raw(), 0.02f64..0.98, 0u8..6, -25.0f64..25.0, prop_oneof![Just(2usize), Just(16), Just(64)]), |(r, frac, mode, u, n)| {
        let p = build(r);
        let t = pick_expiry(&p.tenor.dates, *frac, *mode);
        let chf = FxHlmm1ForwardChf::with_simpson_steps(&p, t, *n);
        cnear("at zero", chf.evaluate(c(0.0, 0.0)), c(1.0, 0.0), 1e-11)?;
        cnear("at minus i", chf.evaluate(c(0.0, -1.0)), c(p.fx_0, 0.0), 1e-9 * p.fx_0)?;
        let v = chf.evaluate(c(*u, 0.0));
        cnear("conjugate symmetry", chf.evaluate(c(-u, 0.0)), v.conj(), 1e-9 * (1e-6 + v.norm()))?;
        ensure!(guarded(|| { FxHlmm1ForwardChf::with_simpson_steps(&p, t, n + 1); }).is_err() && guarded(|| { FxHlmm1ForwardChf::with_simpson_steps(&p, t, 0); }).is_err(), "odd or empty quadrature accepted");
        ensure!(guarded(|| { FxHlmm1ForwardChf::new(&p, 0.0); }).is_err(), "zero expiry accepted");
        seen(p.tenor.n() >= 2)
    });
    s.prop("without_rate_volatility_it_is_heston", 300, 5000, || (raw(), 0.02f64..0.98, 0u8..6, -15.0f64..15.0), |(r, frac, mode, u)| {
        use finquant::models::forex::{fx_hhw::*, fx_hhw1_chf::*};
        use finquant::models::interestrate::hull_white::HullWhite1F;
        let mut r = r.clone();
        for x in r.d.0.iter_mut().chain(r.f.0.iter_mut()) { x.0 = 0.0; }
        let p = build(&r);
        let t = pick_expiry(&p.tenor.dates, *frac, *mode);
        let hw = HullWhite1F { mean_reversion: 0.1, sigma: 0.0 };
        let h = FxHhwParams { fx_0: p.fx_0, heston: p.heston, domestic: hw, foreign: hw, rd_0: 0.02, rf_0: 0.02, theta_d: 0.02, theta_f: 0.02, correlations: Correlation4x4 { rho_xi_sigma: p.correlations.rho_xi_sigma, rho_xi_d: 0.0, rho_xi_f: 0.0, rho_sigma_d: 0.0, rho_sigma_f: 0.0, rho_d_f: 0.0 } };
        let _ = FxHhwSimulator::new(h, 1).map(|s| s.initial_state());
        let (a, b) = (FxHlmm1ForwardChf::new(&p, t).evaluate(c(*u, 0.0)), FxHhw1ForwardChf::with_simpson_steps(&h, t, 1024).evaluate(c(*u, 0.0)));
        cnear("against the Heston transform", a, b, 2e-5 * (1e-2 + b.norm()))?;
        seen(true)
    });
}
