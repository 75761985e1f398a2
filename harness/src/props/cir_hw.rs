use super::util::*;
use crate::core::*;
use crate::ensure;
use finquant::models::common::cir::{CirProcess, CirSimulator};
use finquant::models::common::simulation::SimulationModel;
use finquant::models::interestrate::hull_white::{HullWhite1F, HullWhiteSimulator};
use proptest::prelude::*;

fn cir(v: &[f64; 4]) -> CirProcess {
    CirProcess {
        kappa: v[0],
        theta: v[1],
        gamma: v[2],
        sigma_0: v[3],
    }
}
fn cir_params() -> impl Strategy<Value = [f64; 4]> {
    (
        prop_oneof![3 => 0.05f64..1.0, 3 => 1.0f64..6.0, 1 => (-20.0f64..-3.0).prop_map(f64::exp)],
        prop_oneof![3 => 0.002f64..0.05, 3 => 0.05f64..0.5, 1 => (-14.0f64..-6.0).prop_map(f64::exp)],
        prop_oneof![3 => 0.02f64..0.3, 3 => 0.3f64..1.5, 1 => (-20.0f64..-4.0).prop_map(f64::exp)],
        prop_oneof![3 => 0.001f64..0.05, 3 => 0.05f64..0.6, 1 => Just(0.0), 1 => (-14.0f64..-6.0).prop_map(f64::exp)],
    )
        .prop_map(|(a, b, c, d)| [a, b, c, d])
}
fn horizon() -> impl Strategy<Value = f64> {
    prop_oneof![0.0005f64..0.05, 0.05f64..2.0, 2.0f64..30.0]
}

pub fn p25(s: &mut Suite) {
    s.rule("A case is one square-root process (kappa, theta, gamma, sigma_0) and horizon(s) drawn over Feller-satisfying and Feller-violating regimes; non-trivial when gamma>0 and t>0.");
    s.assume("Reference for E[sqrt]: Laplace-transform identity integrated numerically (relative accuracy ~1e-10).");
    s.prop("moments_match_moment_odes", 2000, 40000, || (cir_params(), horizon()), |(p, t)| {
        let pr = cir(p);
        // m' = k(θ−m); v' = γ² m − 2k v
        let (k, th, g) = (p[0], p[1], p[2]);
        let n = ((k * t * 40.0).ceil() as usize).clamp(40, 8000);
        let y = integrate(&[c(p[3], 0.0), c(0.0, 0.0)], 0.0, *t, n, &|_, y| {
            vec![c(k * th, 0.0) - y[0] * k, y[0] * (g * g) - y[1] * (2.0 * k)]
        });
        near("mean", pr.mean(*t), y[0].re, 1e-7, 1e-12)?;
        near("variance", pr.variance(*t), y[1].re, 1e-6, 1e-14)?;
        near("mean at t=0", pr.mean(0.0), p[3], 1e-14, 1e-15 * th)?;
        near("variance at t=0", pr.variance(0.0), 0.0, 0.0, 1e-15 * g * g * (th + p[3]) / k)?;
        ensure!(pr.feller_satisfied() == (2.0 * k * th >= g * g), "Feller condition misreported");
        seen_as(true, if 2.0 * k * th >= g * g { "feller" } else { "feller violated" })
    });
    s.prop("sqrt_mean_matches_laplace_identity", 1500, 30000, || (cir_params(), horizon()), |(p, t)| {
        let pr = cir(p);
        let r = cir_sqrt_mean_ref(p[0], p[1], p[2], p[3], *t);
        let e = (-p[0] * t).exp();
        let eps = 4.0 * p[0] * p[3] * e / (p[2] * p[2] * (1.0 - e));
        let tol = if eps > 450.0 { 4e-5 } else { 1e-7 };
        near("E[sqrt(sigma)]", pr.sqrt_mean(*t), r, tol, 1e-10)?;
        for loose in [1e-4, 1e-6, 1e-9] {
            near(&format!("E[sqrt(sigma)] asked for to {loose:e}"), pr.sqrt_mean_tol(*t, loose), r, tol + 30.0 * loose, 1e-10)?;
        }
        ensure!(pr.sqrt_mean(*t) <= pr.mean(*t).sqrt() * (1.0 + 1e-12), "E[sqrt] exceeds sqrt(E)");
        near("E[sqrt] at t=0", pr.sqrt_mean(0.0), p[3].sqrt(), 1e-15, 0.0)?;
        near("E[sqrt] as t grows", pr.sqrt_mean(60.0 / p[0]), pr.sqrt_mean_infinity(), 1e-8, 0.0)?;
        let dt = CirProcess { gamma: 0.0, ..pr };
        near("E[sqrt], gamma=0", dt.sqrt_mean(*t), dt.mean(*t).sqrt(), 1e-14, 0.0)?;
        seen_as(true, if eps > 500.0 { "short-time branch" } else { "series branch" })
    });
    s.prop("exponential_proxy", 1000, 20000, || (cir_params(), horizon()), |(p, t)| {
        let pr = cir(p);
        let q = pr.sqrt_mean_proxy();
        let ell = 4.0 * p[0] * p[1] / (p[2] * p[2]);
        // stationary law is Gamma(ell/2, scale 2 gamma^2/(4 kappa)); E sqrt via the same identity
        let inf = cir_sqrt_mean_ref(p[0], p[1], p[2], p[3], 80.0 / p[0]);
        near("stationary E[sqrt]", pr.sqrt_mean_infinity(), inf, 1e-7, 0.0)?;
        near("proxy at 0", q.eval(0.0), p[3].sqrt(), 1e-12, 0.0)?;
        near("proxy limit", q.eval(200.0 / p[0]), inf, 1e-7, 0.0)?;
        near("proxy decay", q.eval(*t) - q.eval(200.0 / p[0]), (p[3].sqrt() - inf) * (-p[0] * t).exp(), 1e-6, 1e-8)?;
        seen(ell > 0.0)
    });
    s.prop("simulated_step", 300, 5000, || (cir_params().prop_map(|p| [p[0], p[1], p[2].max(0.02), p[3]]), 0.0f64..0.5, prop_oneof![3 => 0.001f64..0.2, 1 => 0.2f64..4.0, 1 => (-14.0f64..-7.0).prop_map(f64::exp)], any::<u64>()), |(p, x, dt, seed)| {
        // same seed, two step sizes: both drift and diffusion are identified exactly
        let (k, th, g) = (p[0], p[1], p[2]);
        let mut zs = vec![];
        let mut a = CirSimulator::new(cir(p), *seed);
        let mut b = CirSimulator::new(cir(p), *seed);
        ensure!(a.initial_state() == p[3], "initial variance");
        let mut floor = 0;
        for i in 0..400 {
            let x = x * (1.0 + 0.1 * (i % 7) as f64) + 1e-3;
            let dt2 = dt * 0.25;
            let ya = a.step(&x, 0.0, *dt);
            let yb = b.step(&x, 0.0, dt2);
            ensure!(ya >= 0.0 && yb >= 0.0, "negative variance {ya} {yb}");
            if ya > 0.0 && yb > 0.0 {
                let za = (ya - x - k * (th - x) * dt) / (g * x.sqrt() * dt.sqrt());
                let zb = (yb - x - k * (th - x) * dt2) / (g * x.sqrt() * dt2.sqrt());
                near("noise implied by two step sizes", za, zb, 1e-7, 1e-7)?;
            } else {
                floor += 1;
            }
            zs.push(ya);
        }
        // unconstrained noise: start far from the floor
        let mut zv = vec![];
        let tiny = 1e-6;
        let mut d = CirSimulator::new(cir(p), seed.wrapping_add(1));
        for _ in 0..2000 {
            let x = 0.3;
            let y = d.step(&x, 0.0, tiny);
            zv.push(vec![(y - x - k * (th - x) * tiny) / (g * x.sqrt() * tiny.sqrt())]);
        }
        check_normals(&zv, &[vec![1.0]])?;
        let neg = a.step(&-0.2, 0.0, *dt);
        near("step from a negative state", neg, (k * th * dt).max(0.0), 1e-9, 1e-14)?;
        seen_as(true, if floor > 0 { "floor hit" } else { "floor not hit" })
    });
}

fn hw_params() -> impl Strategy<Value = (f64, f64)> {
    (prop_oneof![1 => Just(0.0), 4 => 0.005f64..0.2, 2 => 0.2f64..2.0, 2 => (-32.0f64..-5.0).prop_map(f64::exp)], prop_oneof![8 => 0.0005f64..0.05, 1 => Just(0.0)])
}

pub fn p26(s: &mut Suite) {
    s.rule("A case is a one-factor Gaussian short-rate model (mean reversion incl. exactly 0, volatility) with ordered times; non-trivial when the interval has positive length.");
    s.prop("closed_forms_match_quadrature", 3000, 60000, || (hw_params(), 0.0f64..10.0, 0.0f64..10.0, 0.0f64..20.0), |(p, t1, d1, d2)| {
        let m = HullWhite1F { mean_reversion: p.0, sigma: p.1 };
        let (s1, s2) = (*t1, t1 + d1);
        let big = s2 + d2;
        // B(t,T) = −∫_t^T e^{−λ(u−t)} du
        let bref = |t: f64| -quad(|u| (-p.0 * (u - t)).exp(), t, big, 24);
        near("bond exponent", m.b(s1, big), bref(s1), 1e-9, 1e-13)?;
        near("bond exponent at maturity", m.b(big, big), 0.0, 0.0, 1e-13)?;
        let v = p.1 * p.1 * quad(|u| (-2.0 * p.0 * (s2 - u)).exp(), s1, s2, 24);
        near("short-rate variance", m.short_rate_variance(s1, s2), v, 1e-8, 1e-16)?;
        let lv = p.1 * p.1 * quad(|u| { let b = if p.0 == 0.0 { big - u } else { -(-p.0 * (big - u)).exp_m1() / p.0 }; b * b }, s1, s2, 24);
        near("bond log-variance", m.bond_log_variance(s1, s2, big), lv, 1e-9, 1e-16)?;
        let mid = 0.5 * (s1 + s2);
        near("bond log-variance is additive", m.bond_log_variance(s1, mid, big) + m.bond_log_variance(mid, s2, big), m.bond_log_variance(s1, s2, big), 1e-10, 1e-15)?;
        ensure!(m.bond_log_variance(s2, s2, big).abs() <= 1e-14 * p.1 * p.1 * (1.0 + big * big * big) && m.short_rate_variance(s2, s2).abs() <= 1e-14 * p.1 * p.1 * (1.0 + s2), "empty interval has variance");
        seen_as(*d1 > 0.0, if p.0 == 0.0 { "no mean reversion" } else { "mean reverting" })
    });
    s.prop("bond_reconstitution", 3000, 60000, || (hw_params(), 0.0f64..10.0, 0.0f64..20.0, -0.03f64..0.12, -0.02f64..0.1, (-0.5f64..0.5)), |(p, t, d, r, f0, slope)| {
        let m = HullWhite1F { mean_reversion: p.0, sigma: p.1 };
        let big = t + d;
        let z = |u: f64| (-(f0 * u + 0.002 * slope * u * u)).exp();
        let f = f0 + 0.004 * slope * t;
        let (p0t, p0b) = (z(*t), z(big));
        let got = m.discount_affine(*t, big, *r, p0t, p0b, f);
        let b = quad(|u| (-p.0 * (u - t)).exp(), *t, big, 24);
        let v = p.1 * p.1 * quad(|u| (-2.0 * p.0 * (t - u)).exp(), 0.0, *t, 24);
        // lognormal with mean P(0,T)/P(0,t) under the t-forward measure
        let want = p0b / p0t * (-b * (r - f) - 0.5 * b * b * v).exp();
        near("P(t,T)", got, want, 1e-8, 1e-14)?;
        near("P(t,t)", m.discount_affine(*t, *t, *r, p0t, p0t, f), 1.0, 1e-12, 0.0)?;
        near("P(0,T)", m.discount_affine(0.0, big, f0.to_owned(), 1.0, p0b, *f0), p0b, 1e-12, 0.0)?;
        // E over r ~ N(f, v) reproduces the forward bond
        if v > 0.0 {
            let sd = v.sqrt();
            let e = quad(|x| npdf(x) * m.discount_affine(*t, big, f + sd * x, p0t, p0b, f), -12.0, 12.0, 60);
            near("mean of P(t,T) over the short-rate law", e, p0b / p0t, 1e-7, 0.0)?;
        }
        seen(*d > 0.0 && *t > 0.0)
    });
    s.prop("simulated_step", 300, 5000, || (hw_params().prop_map(|p| (p.0, p.1.max(0.0005))), -0.05f64..0.15, -0.02f64..0.1, prop_oneof![3 => 0.001f64..0.5, 1 => 0.5f64..5.0, 1 => (-14.0f64..-7.0).prop_map(f64::exp)], any::<u64>()), |(p, r, th, dt, seed)| {
        let m = HullWhite1F { mean_reversion: p.0, sigma: p.1 };
        let mut a = HullWhiteSimulator::new_constant_theta(m, *r, *th, *seed);
        let th2 = *th;
        let mut b = HullWhiteSimulator::new_constant_theta(m, *r, 0.77, *seed).with_theta_fn(move |t| th2 + 0.01 * t);
        ensure!(a.initial_state() == *r, "initial rate");
        let mut zs = vec![];
        for i in 0..1500 {
            let t = i as f64 * dt;
            let x = r + 0.001 * (i % 5) as f64;
            let ya = a.step(&x, t, *dt);
            let yb = b.step(&x, t, dt * 0.5);
            let za = (ya - x - p.0 * (th - x) * dt) / (p.1 * dt.sqrt());
            let zb = (yb - x - p.0 * (th + 0.01 * t - x) * dt * 0.5) / (p.1 * (0.5 * dt).sqrt());
            near("noise implied by constant and time-dependent targets", za, zb, 1e-6, 1e-6)?;
            zs.push(vec![za]);
        }
        check_normals(&zs, &[vec![1.0]])?;
        seen(true)
    });
}
