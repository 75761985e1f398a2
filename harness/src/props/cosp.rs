//! P27: the cosine-expansion pricer against closed forms and an independent contour integral.
use super::util::*;
use crate::core::*;
use crate::ensure;
use finquant::models::common::cos_pricer::{CosPricer, ForwardChf};
use num_complex::Complex64;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const I: Complex64 = Complex64::new(0.0, 1.0);

/// Distributions of the logarithm of the forward with a known characteristic function.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Law {
    /// (weight, forward, volatility) of each log-normal component.
    Mixture(Vec<(f64, f64, f64)>),
    /// forward, volatility, jump intensity, mean and deviation of the log-jump
    Merton { f: f64, vol: f64, lambda: f64, mu: f64, delta: f64 },
    Heston { f: f64, v0: f64, kappa: f64, theta: f64, gamma: f64, rho: f64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chf { law: Law, t: f64 }
impl Chf {
    fn forward(&self) -> f64 {
        match &self.law {
            Law::Mixture(v) => v.iter().map(|(w, f, _)| w * f).sum(),
            Law::Merton { f, .. } | Law::Heston { f, .. } => *f,
        }
    }
    /// Standard deviation of the log-forward (an upper estimate) and its smallest Gaussian part.
    fn spread(&self) -> (f64, f64) {
        let t = self.t;
        match &self.law {
            Law::Mixture(v) => {
                let (lo, hi) = v.iter().fold((f64::MAX, f64::MIN), |(a, b), x| (a.min(x.1.ln()), b.max(x.1.ln())));
                let s = v.iter().map(|x| x.2).fold(0.0, f64::max) * t.sqrt();
                (s + (hi - lo) / 8.0, v.iter().map(|x| x.2).fold(f64::MAX, f64::min) * t.sqrt())
            }
            Law::Merton { vol, lambda, mu, delta, .. } => ((vol * vol * t + lambda * t * (mu * mu + delta * delta)).sqrt() + 0.5 * (mu.abs() + delta), vol * t.sqrt()),
            Law::Heston { v0, theta, gamma, kappa, .. } => ((v0.max(*theta) * t).sqrt() * (1.0 + gamma / (2.0 * kappa * theta).sqrt()), 0.0),
        }
    }
    fn price(&self, k: f64, w: f64) -> Option<f64> {
        let t = self.t;
        match &self.law {
            Law::Mixture(v) => Some(v.iter().map(|(p, f, s)| p * black(*f, k, s * t.sqrt(), w)).sum()),
            Law::Merton { f, vol, lambda, mu, delta } => {
                let m = (mu + 0.5 * delta * delta).exp() - 1.0;
                let (mut p, mut sum) = ((-lambda * t).exp(), 0.0);
                for n in 0..80 {
                    if n > 0 { p *= lambda * t / n as f64; }
                    let fn_ = f * (-lambda * m * t + n as f64 * (mu + 0.5 * delta * delta)).exp();
                    sum += p * black(fn_, k, (vol * vol * t + n as f64 * delta * delta).sqrt(), w);
                }
                Some(sum)
            }
            Law::Heston { .. } => None,
        }
    }
    /// What the law holds outside the range is lost, or folded back into it.
    fn outside(&self, (a, b): (f64, f64), k: f64) -> f64 {
        let h = 0.5 * self.spread().0;
        let (up, down) = ((b - h).exp(), (a + h).exp());
        let p = |k, w| self.price(k, w).unwrap();
        p(b.exp(), 1.0) + (b.exp() - k).abs() * p(up, 1.0) / (b.exp() - up) + p(a.exp(), -1.0) + (k - a.exp()).abs() * p(down, -1.0) / (down - a.exp())
    }
}
impl ForwardChf for Chf {
    fn evaluate(&self, u: Complex64) -> Complex64 {
        let t = self.t;
        match &self.law {
            Law::Mixture(v) => v.iter().map(|(w, f, s)| (I * u * (f.ln() - 0.5 * s * s * t) - 0.5 * s * s * t * u * u).exp() * *w).sum(),
            Law::Merton { f, vol, lambda, mu, delta } => {
                let m = (mu + 0.5 * delta * delta).exp() - 1.0;
                let jump = (I * u * *mu - 0.5 * delta * delta * u * u).exp() - 1.0;
                (I * u * (f.ln() - 0.5 * vol * vol * t - lambda * m * t) - 0.5 * vol * vol * t * u * u + jump * (lambda * t)).exp()
            }
            Law::Heston { f, v0, kappa, theta, gamma, rho } => {
                let b = *kappa - I * u * (rho * gamma);
                let d = (b * b + (u * u + I * u) * (gamma * gamma)).sqrt();
                let g = (b - d) / (b + d);
                let e = (-d * t).exp();
                let cc = (b - d) * t - ((-g * e + 1.0) / (-g + 1.0)).ln() * 2.0;
                let dd = (b - d) * (-e + 1.0) / (-g * e + 1.0);
                (I * u * f.ln() + cc * (kappa * theta / (gamma * gamma)) + dd * (v0 / (gamma * gamma))).exp()
            }
        }
    }
    fn expiry(&self) -> f64 { self.t }
    fn log_forward(&self) -> f64 { self.forward().ln() }
    fn typical_variance(&self) -> f64 { self.spread().0.powi(2) / self.t }
}
/// Undiscounted call by integrating the transform along the line half-way between its poles.
pub fn contour_call(phi: &dyn Fn(Complex64) -> Complex64, k: f64, umax: f64, panels: usize) -> f64 {
    let fwd = phi(c(0.0, -1.0)).re;
    let g = |u: f64| ((-I * u * k.ln()).exp() * phi(c(u, -0.5))).re / (u * u + 0.25);
    fwd - k.sqrt() / std::f64::consts::PI * (quad(&g, 0.0, 4.0f64.min(umax), 24) + if umax > 4.0 { quad(&g, 4.0, umax, panels) } else { 0.0 })
}
fn law() -> impl Strategy<Value = Law> {
    prop_oneof![
        2 => (0.01f64..200.0, 0.02f64..0.7).prop_map(|(f, s)| Law::Mixture(vec![(1.0, f, s)])),
        2 => (0.5f64..150.0, prop::collection::vec((0.1f64..1.0, 0.8f64..1.25, 0.05f64..0.5), 2..4)).prop_map(|(f, v)| {
            let total: f64 = v.iter().map(|x| x.0).sum();
            Law::Mixture(v.into_iter().map(|(w, m, s)| (w / total, f * m, s)).collect())
        }),
        2 => (0.5f64..150.0, 0.05f64..0.4, 0.0f64..1.5, -0.2f64..0.2, 0.02f64..0.2).prop_map(|(f, vol, lambda, mu, delta)| Law::Merton { f, vol, lambda, mu, delta }),
        2 => (0.5f64..150.0, 0.02f64..0.15, 0.5f64..3.0, 0.02f64..0.15, 0.1f64..0.6, -0.8f64..0.8).prop_map(|(f, v0, kappa, theta, g, rho)| Law::Heston { f, v0, kappa, theta, gamma: g.min((2.0 * kappa * theta).sqrt() * 1.2), rho }),
    ]
}

pub fn p27(s: &mut Suite) {
    s.rule("A case is a law of the forward (log-normal, mixture, jump-diffusion or Heston), an expiry, a strike and an expansion (range and number of terms large enough to hold the law); non-trivial when the option has time value.");
    s.prop("default_expansion", 8000, 200000, || (0.01f64..200.0, 0.02f64..0.7, 0.02f64..12.0, -9.5f64..9.5, 0.2f64..1.4), |(f, vol, t, z, df)| {
        let t = t.min(0.7 / (vol * vol));
        let x = Chf { law: Law::Mixture(vec![(1.0, *f, *vol)]), t };
        let sd = vol * t.sqrt();
        let k = f * (z * sd).exp();
        let p = CosPricer::new(&x);
        ensure!(p.n_terms >= 64 && p.range.0 < f.ln() - 5.0 * sd && p.range.1 > f.ln() + 5.0 * sd, "the default expansion has {} terms on {:?} around {} (deviation {sd})", p.n_terms, p.range, f.ln());
        let tol = 1e-9 * (f + k) + 1e-12 * p.range.1.exp();
        let (call, put) = (p.call(k, *df), p.put(k, *df));
        near(&format!("call F={f} K={k} sd={sd}"), call, df * black(*f, k, sd, 1.0), 0.0, tol)?;
        near(&format!("put F={f} K={k} sd={sd}"), put, df * black(*f, k, sd, -1.0), 0.0, tol)?;
        near("parity", call - put, df * (f - k), 0.0, tol)?;
        near("scales with the discount factor", p.call(k, 2.0 * df), 2.0 * call, 1e-13, 1e-13 * tol)?;
        seen(call > tol && put > tol)
    });
    s.prop("chosen_expansion", 6000, 120000, || (law(), 0.05f64..6.0, -4.0f64..4.0, 0.2f64..1.4, (9.0f64..14.0, 0.0f64..1.0), 1.0f64..3.0, -1.0f64..1.0, any::<bool>()), |(law, t, z, df, (wide, place), extra, shift, def)| {
        let x = Chf { law: law.clone(), t: *t };
        let (sd, gauss) = x.spread();
        if sd > 0.8 { return seen(false); }
        let f = x.forward();
        let mut k = f * (z * sd.min(0.6)).exp();
        let heston = matches!(law, Law::Heston { .. });
        let (mut a, mut b) = (f.ln() - wide * sd + shift * sd, f.ln() + wide * sd + shift * sd);
        // a range the law sits at one end of
        if *place > 0.75 && !heston {
            let more = (place - 0.75) * 400.0 * sd * (2.0 - shift.abs());
            if *shift > 0.0 { b += more.min(2.0) } else { a -= more.min(6.0) }
        }
        // strikes anywhere in the range, its edges included
        if *place < 0.2 { k = (a + (b - a) * place * 5.0).exp(); }
        // enough terms for the transform to have died out
        let mut umax = if heston { 8.0 / sd } else { 9.0 / gauss };
        while heston && x.evaluate(c(umax, 0.0)).norm() > 1e-13 && umax < 4000.0 { umax *= 1.3; }
        let n = ((umax * (b - a) / std::f64::consts::PI * extra).ceil() as usize).max(64);
        if n > 6000 { return seen(false); }
        let p = if *def && !heston && n <= 128 { CosPricer::new(&x) } else { CosPricer::new(&x).with_n_terms(n).with_range(a, b) };
        ensure!(*def || (p.n_terms == n && p.range == (a, b)), "the expansion is {} terms on {:?}, not {n} on {:?}", p.n_terms, p.range, (a, b));
        let (call, put) = (p.call(k, *df), p.put(k, *df));
        let (want_call, want_put, tol) = match (x.price(k, 1.0), x.price(k, -1.0)) {
            (Some(u), Some(v)) => (u, v, 1e-9 * (f + k) + 1e-12 * b.exp() + 4.0 * x.outside(p.range, k)),
            _ => {
                let v = contour_call(&|u| x.evaluate(u), k, umax, 400);
                // the tails of the variance law reach past any range
                (v, v - f + k, 2e-6 * (f + k) + 1e-12 * b.exp())
            }
        };
        let what = format!("{law:?} t={t} K={k}");
        near(&format!("call {what}"), call, df * want_call, 0.0, tol)?;
        near(&format!("put {what}"), put, df * want_put, 0.0, tol)?;
        near("parity", call - put, df * (f - k), 0.0, tol)?;
        ensure!(call >= df * (f - k).max(0.0) - tol && call <= df * f + tol && put >= df * (k - f).max(0.0) - tol && put <= df * k + tol, "{what}: outside the no-arbitrage bounds: {call} {put}");
        let kk = [k * 0.97, k, k * 1.03];
        let v: Vec<f64> = kk.iter().map(|k| p.call(*k, *df)).collect();
        ensure!(v[0] >= v[1] - tol && v[1] >= v[2] - tol && v[0] + v[2] - 2.0 * v[1] >= -4.0 * tol, "{what}: not decreasing and convex in strike: {v:?}");
        let label = match law { Law::Mixture(v) if v.len() == 1 => "log-normal", Law::Mixture(_) => "mixture", Law::Merton { .. } => "jumps", Law::Heston { .. } => "Heston" };
        seen_as(want_call > tol && want_put > tol, label)
    });
    s.prop("more_terms_never_hurt", 2500, 50000, || (law(), 0.1f64..4.0, -2.0f64..2.0, 8usize..60), |(law, t, z, n)| {
        let x = Chf { law: law.clone(), t: *t };
        let (sd, _) = x.spread();
        if sd > 0.7 || matches!(law, Law::Heston { .. }) { return seen(false); }
        let f = x.forward();
        let k = f * (z * sd).exp();
        let (a, b) = (f.ln() - 11.0 * sd, f.ln() + 11.0 * sd);
        let want = x.price(k, 1.0).unwrap();
        let err = |n: usize| (CosPricer::new(&x).with_range(a, b).with_n_terms(n).call(k, 1.0) - want).abs();
        let tol = 1e-9 * (f + k) + 1e-12 * b.exp() + 4.0 * x.outside((a, b), k);
        // the remainder after n terms is bounded by what the transform still holds there
        let width = b - a;
        let tail = |n: usize| (n..n + 20000).map(|j| { let u = j as f64 * std::f64::consts::PI / width; x.evaluate(c(u, 0.0)).norm() * 2.0 / width * (b.exp() + k * width) / (1.0 + u) }).take_while(|v| *v > 1e-16).sum::<f64>();
        for m in [*n, 4 * n, 16 * n] {
            let (e, bound) = (err(m), 4.0 * tail(m) + tol);
            ensure!(e <= bound, "{law:?} t={t} K={k}: {m} terms miss {want} by {e}, more than {bound}");
        }
        seen(want > tol)
    });
    // Two equal narrow peaks: the transform passes through zero on a grid point, and comes back.
    s.prop("revived_transform", 2500, 50000, || (0.5f64..150.0, 0.01f64..0.3, 0.1f64..0.6, 18usize..61, -1.5f64..1.5, 0.2f64..1.4), |(f, d, narrow, k0, z, df)| {
        let s = narrow * d;
        let x = Chf { law: Law::Mixture(vec![(0.5, f * d.exp(), s), (0.5, f / d.exp(), s)]), t: 1.0 };
        // the zero is the `k0`-th frequency
        let width = 2.0 * d * *k0 as f64;
        if width > 14.0 { return seen(false); }
        let mid = f.ln() - 0.5 * s * s;
        let (a, b) = (mid - 0.5 * width, mid + 0.5 * width);
        let n = ((9.0 / s * width / std::f64::consts::PI).ceil() as usize).max(64);
        let k = f * (z * (d + s)).exp();
        let p = CosPricer::new(&x).with_n_terms(n).with_range(a, b);
        let tol = 1e-9 * (f + k) + 1e-12 * b.exp();
        let (want_call, want_put) = (x.price(k, 1.0).unwrap(), x.price(k, -1.0).unwrap());
        near(&format!("call of two peaks at {d} of width {s}, K={k}"), p.call(k, *df), df * want_call, 0.0, tol)?;
        near(&format!("put of two peaks at {d} of width {s}, K={k}"), p.put(k, *df), df * want_put, 0.0, tol)?;
        seen(want_call > tol && want_put > tol)
    });
    s.prop("refuses_nonsense", 300, 3000, || (0.5f64..2.0, 0.05f64..0.5, -3.0f64..0.0, 0.0f64..2.0), |(f, vol, k, w)| {
        let x = Chf { law: Law::Mixture(vec![(1.0, *f, *vol)]), t: 1.0 };
        ensure!(guarded(|| CosPricer::new(&x).call(*k, 1.0)).is_err() && guarded(|| CosPricer::new(&x).put(*k, 1.0)).is_err(), "a strike of {k} has a price");
        ensure!(guarded(|| CosPricer::new(&x).with_range(1.0, 1.0 - w).range).is_err(), "an empty range is accepted");
        ensure!(guarded(|| CosPricer::new(&x).with_n_terms(1).n_terms).is_err(), "one term is accepted");
        seen(true)
    });
}
