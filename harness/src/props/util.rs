//! Small shared generators and numerical references (written independently of the crate).
use chrono::{Datelike, Days, NaiveDate};
use num_complex::Complex64;
use proptest::prelude::*;

pub fn ymd(y: i32, m: u32, d: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, d).unwrap()
}

/// Days in [lo, hi] years, uniformly.
pub fn any_date(lo: i32, hi: i32) -> impl Strategy<Value = NaiveDate> {
    let a = ymd(lo, 1, 1);
    let n = (ymd(hi, 12, 31) - a).num_days();
    (0..=n).prop_map(move |k| a + Days::new(k as u64))
}

/// Dates biased to month ends, month starts and leap days.
pub fn edgy_date(lo: i32, hi: i32) -> impl Strategy<Value = NaiveDate> {
    let a = ymd(lo, 1, 1);
    let n = (ymd(hi, 12, 31) - a).num_days();
    prop_oneof![
        3 => (0..=n).prop_map(move |k| a + Days::new(k as u64)),
        2 => (lo..=hi, 1u32..=12, -4i64..=4).prop_map(move |(y, m, o)| {
            let l = last_dom(y, m);
            let d = if o <= 0 { l as i64 + o } else { o };
            ymd(y, m, d as u32)
        }),
        1 => (lo..=hi, 26u32..=28, 2u32..=2).prop_map(|(y, d, m)| ymd(y, m, d)),
        1 => (lo..=hi).prop_map(|y| if leap(y) { ymd(y, 2, 29) } else { ymd(y, 2, 28) }),
    ]
}

pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn last_dom(y: i32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ => {
            if leap(y) {
                29
            } else {
                28
            }
        }
    }
}
pub fn add_months(d: NaiveDate, n: i64) -> NaiveDate {
    let k = d.year() as i64 * 12 + d.month0() as i64 + n;
    let (y, m) = (k.div_euclid(12) as i32, k.rem_euclid(12) as u32 + 1);
    ymd(y, m, d.day().min(last_dom(y, m)))
}
pub fn add_days(d: NaiveDate, n: i64) -> NaiveDate {
    if n >= 0 {
        d + Days::new(n as u64)
    } else {
        d - Days::new((-n) as u64)
    }
}

/// Composite Gauss–Legendre quadrature of a smooth function.
pub fn quad(f: impl Fn(f64) -> f64, a: f64, b: f64, panels: usize) -> f64 {
    const X: [f64; 4] = [
        0.183434642495650,
        0.525532409916329,
        0.796666477413627,
        0.960289856497536,
    ];
    const W: [f64; 4] = [
        0.362683783378362,
        0.313706645877887,
        0.222381034453374,
        0.101228536290376,
    ];
    let h = (b - a) / panels as f64;
    let mut s = 0.0;
    for p in 0..panels {
        let m = a + (p as f64 + 0.5) * h;
        for i in 0..4 {
            s += W[i] * (f(m - 0.5 * h * X[i]) + f(m + 0.5 * h * X[i]));
        }
    }
    s * 0.5 * h
}

/// Complementary error function (W. J. Cody style via continued fraction / series), ~1e-15 relative.
pub fn erfc(x: f64) -> f64 {
    if x < 0.0 {
        return 2.0 - erfc(-x);
    }
    if x < 2.5 {
        // Taylor series of erf.
        let mut term = x;
        let mut sum = x;
        let x2 = x * x;
        let mut n = 0.0;
        loop {
            n += 1.0;
            term *= -x2 / n;
            let t = term / (2.0 * n + 1.0);
            sum += t;
            if t.abs() < 1e-18 * sum.abs() || n > 300.0 {
                break;
            }
        }
        1.0 - sum * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        // Lentz continued fraction: erfc(x) = e^{-x²}/√π · 1/(x + (1/2)/(x + 1/(x + (3/2)/(x+ …
        let mut f = 0.0;
        for k in (1..=400).rev() {
            f = (k as f64 * 0.5) / (x + f);
        }
        (-x * x).exp() / std::f64::consts::PI.sqrt() / (x + f)
    }
}
pub fn ncdf(x: f64) -> f64 {
    0.5 * erfc(-x / std::f64::consts::SQRT_2)
}
pub fn npdf(x: f64) -> f64 {
    (-0.5 * x * x).exp() / (2.0 * std::f64::consts::PI).sqrt()
}

/// Undiscounted Black price. `w` = +1 call, −1 put; `sd` = σ√T.
pub fn black(f: f64, k: f64, sd: f64, w: f64) -> f64 {
    if sd <= 0.0 {
        return (w * (f - k)).max(0.0);
    }
    let d1 = ((f / k).ln() + 0.5 * sd * sd) / sd;
    w * (f * ncdf(w * d1) - k * ncdf(w * (d1 - sd)))
}
/// Undiscounted Bachelier price.
pub fn bachelier(f: f64, k: f64, sd: f64, w: f64) -> f64 {
    if sd <= 0.0 {
        return (w * (f - k)).max(0.0);
    }
    let d = (f - k) / sd;
    w * (f - k) * ncdf(w * d) + sd * npdf(d)
}

pub fn c(re: f64, im: f64) -> Complex64 {
    Complex64::new(re, im)
}

/// Mean and (co)variance helper for recovered standard normals.
pub struct Moments {
    pub n: usize,
    pub mean: Vec<f64>,
    pub cov: Vec<Vec<f64>>,
}
pub fn moments(xs: &[Vec<f64>]) -> Moments {
    let n = xs.len();
    let k = xs[0].len();
    let mut mean = vec![0.0; k];
    for x in xs {
        for i in 0..k {
            mean[i] += x[i] / n as f64;
        }
    }
    let mut cov = vec![vec![0.0; k]; k];
    for x in xs {
        for i in 0..k {
            for j in 0..k {
                cov[i][j] += (x[i] - mean[i]) * (x[j] - mean[j]) / n as f64;
            }
        }
    }
    Moments { n, mean, cov }
}
/// Check that recovered normals have mean 0 and the given covariance, at 6.5 standard errors.
pub fn check_normals(xs: &[Vec<f64>], corr: &[Vec<f64>]) -> Result<(), crate::core::Fail> {
    let m = moments(xs);
    let n = m.n as f64;
    let k = corr.len();
    for i in 0..k {
        if m.mean[i].abs() > 6.5 / n.sqrt() {
            return Err(format!(
                "driving noise {i}: sample mean {:.4} over {} draws is not compatible with 0",
                m.mean[i], m.n
            )
            .into());
        }
        for j in 0..=i {
            let r = corr[i][j];
            let se = ((1.0 + r * r) / n).sqrt() + 2.0 / n;
            if (m.cov[i][j] - r).abs() > 6.5 * se {
                return Err(format!(
                    "driving noises ({i},{j}): sample covariance {:.4} over {} draws, specified {:.4}",
                    m.cov[i][j], m.n, r
                )
                .into());
            }
        }
    }
    Ok(())
}

/// One step of classical RK4 for a complex ODE system.
pub fn rk4(y: &[Complex64], t: f64, h: f64, f: &dyn Fn(f64, &[Complex64]) -> Vec<Complex64>) -> Vec<Complex64> {
    let add = |a: &[Complex64], b: &[Complex64], s: f64| -> Vec<Complex64> {
        a.iter().zip(b).map(|(x, k)| x + k * s).collect()
    };
    let k1 = f(t, y);
    let k2 = f(t + 0.5 * h, &add(y, &k1, 0.5 * h));
    let k3 = f(t + 0.5 * h, &add(y, &k2, 0.5 * h));
    let k4 = f(t + h, &add(y, &k3, h));
    (0..y.len())
        .map(|i| y[i] + (k1[i] + k2[i] * 2.0 + k3[i] * 2.0 + k4[i]) * (h / 6.0))
        .collect()
}
pub fn integrate(y0: &[Complex64], a: f64, b: f64, n: usize, f: &dyn Fn(f64, &[Complex64]) -> Vec<Complex64>) -> Vec<Complex64> {
    let h = (b - a) / n as f64;
    let mut y = y0.to_vec();
    for i in 0..n {
        y = rk4(&y, a + i as f64 * h, h, f);
    }
    y
}

/// E[√X] for CIR X(t), via the Laplace-transform identity
/// E[√X] = (1/2√π) ∫₀^∞ (1 − E e^{−sX}) s^{−3/2} ds, trapezoid in log s.
pub fn cir_sqrt_mean_ref(kappa: f64, theta: f64, gamma: f64, x0: f64, t: f64) -> f64 {
    if t <= 0.0 {
        return x0.max(0.0).sqrt();
    }
    let e = (-kappa * t).exp();
    let cc = -gamma * gamma * (-kappa * t).exp_m1() / (4.0 * kappa);
    let ell = 4.0 * kappa * theta / (gamma * gamma);
    let m = x0 * e; // = cc * eps
    let scale = m + cc * ell; // mean
    let mut sum = 0.0;
    let h = 0.04;
    let n = (46.0 * 2.0 / h) as i64;
    for i in -n..=n {
        let y = i as f64 * h;
        let s = y.exp() / scale;
        let lnl = -0.5 * ell * (2.0 * cc * s).ln_1p() - m * s / (1.0 + 2.0 * cc * s);
        sum += -lnl.exp_m1() * (-0.5 * y).exp();
    }
    sum * h * scale.sqrt() / (2.0 * std::f64::consts::PI.sqrt())
}
