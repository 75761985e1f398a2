use super::util::*;
use crate::core::*;
use crate::ensure;
use finquant::math::normal;
use finquant::math::optimize::{NelderMeadOptions, nelder_mead};
use finquant::models::common::bachelier::*;
use finquant::models::common::black_scholes::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

pub fn p23(s: &mut Suite) {
    s.rule("A case is one argument of the normal law, or one (forward, strike, volatility, expiry, discount) tuple; non-trivial when the volatility and expiry are positive.");
    s.assume("Reference erfc: Taylor series below 2.5, continued fraction above (about 1e-15 relative).");
    s.prop("normal_law", 20000, 400000, || prop_oneof![-8.0f64..8.0, -37.0f64..37.0, -0.01f64..0.01], |x| {
        let p = normal::cdf(*x);
        near("Phi(x)", p, ncdf(*x), 1e-9, 1e-300)?;
        near("phi(x)", normal::pdf(*x), npdf(*x), 1e-12, 1e-300)?;
        near("symmetry", p + normal::cdf(-x), 1.0, 1e-14, 0.0)?;
        if p > 1e-250 && p < 1.0 - 1e-13 {
            let q = normal::inverse_cdf(p);
            // quantile recovers x to the precision p carries
            let tol = 1e-9 + 1e-14 * (1.0 - p).recip() / npdf(*x).max(1e-300) * (1.0 - p);
            near("Phi^-1(Phi(x))", q, *x, 1e-9, tol.min(1e-2))?;
        }
        ensure!(normal::cdf(x + 1e-3) >= p, "Phi decreases at {x}");
        seen_as(true, if x.abs() > 8.0 { "tail" } else { "body" })
    });
    s.prop("quantile", 5000, 100000, || prop_oneof![(1e-12f64..1.0), (0.0f64..40.0).prop_map(|e| 10f64.powf(-e)).prop_filter("open interval", |p| *p < 1.0)], |p| {
        let q = normal::inverse_cdf(*p);
        near("Phi(Phi^-1(p))", ncdf(q), *p, 1e-8, 1e-300)?;
        for bad in [0.0, 1.0, -0.1, 1.5, f64::NAN] {
            ensure!(guarded(|| normal::inverse_cdf(bad)).is_err(), "quantile of {bad} returned a value");
        }
        seen(true)
    });
    s.prop("black_prices", 20000, 400000, || (prop_oneof![0.3f64..3.0, 20.0f64..200.0], -6.0f64..6.0, prop_oneof![0.001f64..0.05, 0.05f64..0.6, 0.6f64..4.0], prop_oneof![3 => 0.001f64..0.1, 3 => 0.1f64..30.0, 1 => (-17.0f64..-6.9).prop_map(f64::exp)], 0.2f64..1.2), |(f, z, sg, t, df)| {
        let sd = sg * t.sqrt();
        let k = f * (z * sd.min(2.0)).exp();
        let (cl, pt) = (bs_call_forward(*f, k, *sg, *t, *df), bs_put_forward(*f, k, *sg, *t, *df));
        let tol = 1e-10 * (f + k);
        near("call", cl, df * black(*f, k, sd, 1.0), 1e-10, tol)?;
        near("put", pt, df * black(*f, k, sd, -1.0), 1e-10, tol)?;
        near("call - put", cl - pt, df * (f - k), 1e-12, tol)?;
        ensure!(cl >= df * (f - k).max(0.0) - tol && cl <= df * f + tol, "call outside its bounds");
        ensure!(pt >= df * (k - f).max(0.0) - tol && pt <= df * k + tol, "put outside its bounds");
        for (a, b) in [(0.0, *t), (-0.2, *t), (*sg, 0.0), (*sg, -1.0)] {
            near("call without variance", bs_call_forward(*f, k, a, b, *df), df * (f - k).max(0.0), 1e-15, 0.0)?;
            near("put without variance", bs_put_forward(*f, k, a, b, *df), df * (k - f).max(0.0), 1e-15, 0.0)?;
        }
        seen_as(true, if *z < 0.0 { "call in the money" } else { "call out of the money" })
    });
    s.prop("black_implied_volatility", 6000, 120000, || ((prop_oneof![0.3f64..3.0, 20.0f64..200.0], -4.0f64..4.0, prop_oneof![0.002f64..0.05, 0.05f64..0.6, 0.6f64..4.0], prop_oneof![3 => 0.003f64..0.1, 3 => 0.1f64..20.0, 1 => (-17.0f64..-5.8).prop_map(f64::exp)], 0.2f64..1.1), any::<bool>(), prop_oneof![2 => Just(0u32), 3 => 6u32..=12]), |((f, z, sg, t, df), call, tolexp)| {
        let sd = sg * t.sqrt();
        let k = f * (z * sd.min(1.0)).exp();
        let w = if *call { 1.0 } else { -1.0 };
        let price = |v: f64| df * black(*f, k, v * t.sqrt(), w);
        let p = price(*sg);
        let tol = if *tolexp == 0 { 1e-8 } else { 10f64.powi(-(*tolexp as i32)) };
        let run = |p: f64| if *tolexp == 0 { bs_implied_vol(p, *f, k, *t, *df, *call) } else { bs_implied_vol_tol(p, *f, k, *t, *df, *call, tol) };
        let Some(v) = run(p) else { return Err(format!("no implied volatility for an attainable price {p:e}").into()) };
        let fl = 1e-10 * (f + k);
        near("price at the implied volatility", price(v), p, 0.0, tol + fl + 1e-11 * f * t.sqrt())?;
        let vega = |v: f64| { let d = ((f / k).ln() + 0.5 * v * v * t) / (v * t.sqrt()); df * f * npdf(d) * t.sqrt() };
        let vg = vega(*sg).min(vega(v));
        let determined = vg > 1e2 * tol / sg;
        if determined {
            near("implied volatility", v, *sg, 0.0, 1.5 * (tol + fl) / vg + 1e-11)?;
        }
        // outside the attainable range
        let hi = df * if *call { *f } else { k };
        let lo = df * (w * (f - k)).max(0.0);
        ensure!(run(hi + 2.0 * tol + 1e-9 * f).is_none(), "a price above the upper bound has a volatility");
        if lo > 0.0 {
            ensure!(run(lo - 2.0 * tol - 1e-9 * f).is_none(), "a price below intrinsic has a volatility");
        } else {
            ensure!(run(-2.0 * tol - 1e-9).is_none(), "a negative price has a volatility");
        }
        seen_as(determined, if *call { "call" } else { "put" })
    });
    s.prop("bachelier_prices", 20000, 400000, || (prop_oneof![-0.05f64..0.1, -5.0f64..150.0], -8.0f64..8.0, prop_oneof![4 => -9.0f64..3.0, 1 => -20.0f64..-9.0]), |(f, z, lv)| {
        let var = 10f64.powf(*lv);
        let sd = var.sqrt();
        let k = f + z * sd;
        // the strike is rounded, so the moneyness is what the stored strike says
        let z = (k - f) / sd;
        let tol = 1e-14 * (f.abs() + k.abs()) + 1e-10 * sd;
        let (cl, pt) = (bachelier_call(*f, k, var), bachelier_put(*f, k, var));
        near("call", cl, bachelier(*f, k, sd, 1.0), 1e-9, tol)?;
        near("put", pt, bachelier(*f, k, sd, -1.0), 1e-9, tol)?;
        near("parity", cl - pt, f - k, 1e-12, tol * 10.0)?;
        let h = var * 1e-4;
        let fd = (bachelier(*f, k, (var + h).sqrt(), 1.0) - bachelier(*f, k, (var - h).sqrt(), 1.0)) / (2.0 * h);
        near("variance vega", bachelier_vega_variance(*f, k, var), npdf(z.abs()) / (2.0 * sd), 1e-6, 1e-300)?;
        if z.abs() < 3.0 && f.abs() < 1000.0 * sd {
            near("variance vega by differences", bachelier_vega_variance(*f, k, var), fd, 1e-5, 0.0)?;
        }
        for v in [0.0, -1.0] {
            ensure!(bachelier_call(*f, k, v) == (f - k).max(0.0) && bachelier_put(*f, k, v) == (k - f).max(0.0) && bachelier_vega_variance(*f, k, v) == 0.0, "intrinsic limit");
        }
        seen(true)
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Obj {
    kind: u8, // 0 quadratic, 1 |.|-type, 2 quartic+quadratic, 3 partly undefined, 4 step function, 5 everywhere undefined
    center: Vec<f64>,
    scales: Vec<f64>,
    angle: f64,
    offset: f64,
    start: Vec<f64>,
    max_iter: usize,
    ftol: i32,
    xtol: i32,
    step: f64,
}
impl Obj {
    fn eval(&self, x: &[f64]) -> f64 {
        let n = x.len();
        let mut y: Vec<f64> = (0..n).map(|i| x[i] - self.center[i]).collect();
        for i in 0..n.saturating_sub(1) {
            let (s, c) = (self.angle + i as f64).sin_cos();
            let (a, b) = (y[i], y[i + 1]);
            y[i] = c * a - s * b;
            y[i + 1] = s * a + c * b;
        }
        let q: f64 = (0..n).map(|i| self.scales[i] * y[i] * y[i]).sum();
        match self.kind {
            0 => self.offset + q,
            1 => self.offset + (0..n).map(|i| self.scales[i] * y[i].abs()).sum::<f64>(),
            2 => self.offset + q + 0.3 * q * q,
            3 => if y[0] > 0.4 + 0.2 * y[n - 1] { f64::NAN } else { self.offset + q },
            4 => self.offset + (q * 4.0).floor(),
            _ => f64::NAN,
        }
    }
}
fn obj(kinds: &'static [u8]) -> impl Strategy<Value = Obj> {
    (1usize..=5).prop_flat_map(move |n| {
        (
            (proptest::sample::select(kinds.to_vec()), prop::collection::vec(-3.0f64..3.0, n), prop::collection::vec(0.5f64..6.0, n), 0.0f64..6.3, -5.0f64..5.0),
            prop::collection::vec(prop_oneof![5 => -4.0f64..4.0, 1 => Just(0.0), 1 => -1e-13f64..1e-13], n),
            prop_oneof![1 => 0usize..4, 2 => 4usize..60, 2 => Just(4000)],
            -12i32..2,
            -10i32..2,
            prop_oneof![0.01f64..0.5, Just(0.05)],
        )
            .prop_map(|((kind, center, scales, angle, offset), start, max_iter, ftol, xtol, step)| Obj { kind, center, scales, angle, offset, start, max_iter, ftol, xtol, step })
    })
}

pub fn p24(s: &mut Suite) {
    s.rule("A case is one generated objective (dimension 1-5), start and options; the objective records every evaluation. Non-trivial when the optimiser made at least one iteration beyond building its simplex.");
    s.prop("trace_invariants", 4000, 80000, || obj(&[0, 1, 2, 3, 4, 5]), |o| {
        let log = RefCell::new(Vec::<(Vec<f64>, f64)>::new());
        let opts = NelderMeadOptions { max_iter: o.max_iter, ftol: 10f64.powi(o.ftol), xtol: 10f64.powi(o.xtol), step_frac: o.step };
        let m = nelder_mead(|x| { let v = o.eval(x); log.borrow_mut().push((x.to_vec(), v)); v }, &o.start, opts);
        let n = o.start.len();
        let log = log.into_inner();
        ensure!(m.x.len() == n, "dimension changed");
        ensure!(m.iterations <= o.max_iter, "{} iterations exceed the cap {}", m.iterations, o.max_iter);
        ensure!(log.len() <= n + 1 + o.max_iter * (n + 2), "{} evaluations for {} iterations", log.len(), m.iterations);
        ensure!(log.iter().any(|(x, _)| *x == o.start), "the start was never evaluated");
        ensure!(log.iter().any(|(x, _)| *x == m.x), "the reported point was never evaluated");
        let best = log.iter().map(|(_, v)| *v).filter(|v| !v.is_nan()).fold(f64::INFINITY, f64::min);
        let at = o.eval(&m.x);
        if best.is_finite() {
            ensure!(m.f == at, "reported value {} but the objective there is {at}", m.f);
            ensure!(m.f == best, "reported {} but a value {best} was seen", m.f);
            let f0 = o.eval(&o.start);
            ensure!(f0.is_nan() || m.f <= f0, "worse than the start");
        }
        if o.max_iter == 0 { ensure!(!m.converged, "converged without iterating"); }
        let tight = 10f64.powi(o.xtol);
        // the first simplex is as long in one direction as in another
        let edge = |x: &f64| if x.abs() > 1e-12 { o.step * x.abs() } else { o.step.max(1e-4) };
        let (lo, hi) = o.start.iter().map(edge).fold((f64::MAX, 0.0), |(a, b): (f64, f64), e| (a.min(e), b.max(e)));
        if m.converged && o.kind == 0 && o.ftol <= -6 && tight <= 1e-4 && hi < 25.0 * lo {
            // a collapsed simplex of a well-conditioned quadratic sits near its minimum
            ensure!(m.f - o.offset < 1e-2, "reports convergence at height {:.3e} above the minimum", m.f - o.offset);
        }
        if m.converged && best.is_finite() {
            // the last vertices still alive lie within xtol of the best: at least n other evaluations do
            let close = log.iter().filter(|(x, v)| !v.is_nan() && (0..n).all(|i| (x[i] - m.x[i]).abs() < tight) && (v - m.f).abs() < 10f64.powi(o.ftol)).count();
            ensure!(close >= n + 1, "reports convergence but only {close} evaluated points lie within the tolerances of the best");
        }
        if !m.converged { ensure!(m.iterations == o.max_iter, "stopped after {} of {} iterations without converging", m.iterations, o.max_iter); }
        seen_as(m.iterations > 1, format!("kind {} {}", o.kind, if m.converged { "converged" } else { "capped" }))
    });
    s.prop("finds_smooth_minima", 3000, 60000, || obj(&[0, 2]), |o| {
        // restarting once from the result is the documented use for stubborn starts; the optimum must then be found
        let opts = NelderMeadOptions { max_iter: 20000, ftol: 1e-13, xtol: 1e-8, step_frac: 0.05 };
        let m0 = nelder_mead(|x| o.eval(x), &o.start, opts);
        let m = nelder_mead(|x| o.eval(x), &m0.x, opts);
        ensure!(m0.converged && m.converged, "did not converge in 20000 iterations");
        near("minimum value", m.f, o.offset, 1e-7, 1e-7)?;
        for i in 0..o.start.len() {
            near("minimiser", m.x[i], o.center[i], 0.0, 2e-3)?;
        }
        seen_as(true, format!("dim {}", o.start.len()))
    });
    s.prop("rosenbrock", 200, 4000, || (-2.0f64..2.0, -1.0f64..3.0, 1.0f64..30.0), |(a, b, k)| {
        let f = |x: &[f64]| (1.0 - x[0]).powi(2) + k * (x[1] - x[0] * x[0]).powi(2);
        let m = nelder_mead(f, &[*a, *b], NelderMeadOptions { max_iter: 10000, ftol: 1e-14, xtol: 1e-9, step_frac: 0.1 });
        near("x", m.x[0], 1.0, 0.0, 1e-4)?;
        near("y", m.x[1], 1.0, 0.0, 2e-4)?;
        let d = NelderMeadOptions::default();
        ensure!(d.max_iter == 500 && d.ftol == 1e-8 && d.xtol == 1e-8 && d.step_frac == 0.05, "documented defaults");
        seen(true)
    });
}
