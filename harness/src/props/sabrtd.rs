//! P29: time-dependent SABR — effective parameters, simulation, surface calibration.
use super::sabr::*;
use super::util::*;
use crate::core::*;
use crate::ensure;
use chrono::NaiveDate;
use finquant::math::optimize::NelderMeadOptions;
use finquant::models::common::calibration::Calibration;
use finquant::models::common::simulation::{SimulationModel, simulate_at_dates};
use finquant::models::forex::market_data::MarketSmileStrip;
use finquant::models::forex::sabr::{SabrParams, SabrState, hagan_implied_vol};
use finquant::models::forex::sabr_effective::*;
use finquant::models::forex::sabr_time_dependent::*;
use finquant::models::forex::sabr_time_dependent_calibrator::*;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use proptest::prelude::*;

/// Segments: (length, omega, gamma, rho).
pub type Seg = (f64, f64, f64, f64);
pub fn segs(max: usize) -> impl Strategy<Value = Vec<Seg>> {
    let g = prop_oneof![5 => 0.05f64..1.2, 1 => Just(0.0), 1 => 1e-6f64..0.02, 1 => 1.2f64..2.0];
    let seg = (prop_oneof![3 => 0.05f64..1.5, 1 => 0.003f64..0.05, 1 => 1.5f64..4.0], prop_oneof![3 => 0.03f64..0.6, 1 => 0.6f64..3.0, 1 => 1e-4f64..0.03], g, prop_oneof![4 => -0.95f64..0.95, 1 => Just(0.0)]);
    prop_oneof![
        5 => prop::collection::vec(seg.clone(), 1..=max),
        1 => (seg, prop::collection::vec(0.01f64..2.0, 1..=max)).prop_map(|(s, l)| l.into_iter().map(|d| (d, s.1, s.2, s.3)).collect()),
    ]
}
/// Keep the growth exponent in range.
fn tame(v: &[Seg]) -> Vec<Seg> {
    let g: f64 = v.iter().map(|s| s.0 * s.2 * s.2).sum();
    let m = if g > 30.0 { 30.0 / g } else { 1.0 };
    v.iter().map(|s| (s.0 * m, s.1, s.2, s.3)).collect()
}
pub fn knots(v: &[Seg]) -> Vec<f64> {
    let mut k = vec![0.0];
    for s in v { k.push(k[k.len() - 1] + s.0); }
    k
}
fn pc(v: &[Seg], f: impl Fn(&Seg) -> f64) -> PiecewiseConstant { PiecewiseConstant::new(knots(v), v.iter().map(f).collect()) }

/// I = ∫ω²e^{G}, the double integral, and ∫ργ/ω, all by Gauss–Legendre on panels inside the segments.
struct Ints { i: f64, lhs: f64, skew: f64, t: f64 }
fn ints(v: &[Seg]) -> Ints {
    let (mut g0, mut h0, mut i, mut lhs, mut skew, mut t) = (0.0f64, 0.0f64, 0.0, 0.0, 0.0, 0.0);
    for (d, o, g, r) in v {
        let n = (2.0 + 12.0 * g * g * d) as usize;
        let hp = d / n as f64;
        let (o2, g2) = (o * o, g * g);
        for _ in 0..n {
            let (gs, hs) = (g0, h0);
            let inner = |x: f64| hs + quad(|y| o2 * (5.0 * (gs + g2 * y)).exp(), 0.0, x, 1);
            i += quad(|x| o2 * (gs + g2 * x).exp(), 0.0, hp, 1);
            lhs += quad(|x| o2 * (gs + g2 * x).exp() * inner(x), 0.0, hp, 1);
            h0 = inner(hp);
            g0 += g2 * hp;
        }
        skew += r * g / o * d;
        t += d;
    }
    Ints { i, lhs, skew, t }
}
/// (1/5)(1/(e^x−1))²(e^{6x}/6 − e^x + 5/6) without cancellation; 1/2 at x = 0.
fn shape(x: f64) -> f64 {
    let inner = if x < 0.1 {
        let (mut s, mut p6, mut xn, mut fact) = (0.0, 6.0, 1.0, 1.0);
        for n in 2..40 { p6 *= 6.0; fact *= n as f64; s += (p6 - 6.0) / (6.0 * fact) * xn; xn *= x; }
        s
    } else { ((6.0 * x).exp_m1() / 6.0 - x.exp_m1()) / (x * x) };
    let r = if x == 0.0 { 1.0 } else { x / x.exp_m1() };
    0.2 * r * r * inner
}
/// Reference effective parameters (bisection in x on the same defining equation).
fn reference(v: &[Seg]) -> (f64, f64, f64) {
    let n = ints(v);
    let target = n.lhs / (n.i * n.i);
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    while shape(hi) < target && hi < 300.0 { hi *= 2.0; }
    for _ in 0..90 { let m = 0.5 * (lo + hi); if shape(m) < target { lo = m } else { hi = m } }
    let x = 0.5 * (lo + hi);
    let g = (x / n.t).sqrt();
    let o = (if x < 1e-13 { n.i / n.t } else { n.i / n.t * x / x.exp_m1() }).sqrt();
    (g, o, if x < 1e-13 { 0.0 } else { o / (g * n.t) * n.skew })
}
fn check_effective(v: &[Seg], g: f64, o: f64, r: f64) -> Result<f64, Fail> {
    let n = ints(v);
    let x = g * g * n.t;
    near("effective vol-vol in its defining equation", shape(x) * n.i * n.i, n.lhs, 5e-11 + 4e-13 * n.t, 0.0)?;
    near("effective term structure", o * o, n.i / n.t * if x == 0.0 { 1.0 } else { x / x.exp_m1() }, 1e-10 + if x < 1.1e-6 { x } else { 0.0 }, 0.0)?;
    if g > 1e-14 { near("effective correlation", r, o / (g * n.t) * n.skew, 1e-9, 0.0)?; }
    Ok(x)
}

/// Records the steps the runner asks for while delegating to the model.
struct Tap { inner: TimeDependentSabrSimulator, log: Vec<(f64, f64)> }
impl SimulationModel for Tap {
    type State = SabrState;
    fn initial_state(&self) -> SabrState { self.inner.initial_state() }
    fn step(&mut self, s: &SabrState, t: f64, dt: f64) -> SabrState { self.log.push((t, dt)); self.inner.step(s, t, dt) }
}
/// The model's α·ξ dynamics over knot-aligned steps, from the same increments.
struct Ref { f: f64, xi: f64 }
impl Ref {
    fn advance(&mut self, p: &TimeDependentSabrParams, seg: usize, dt: f64, dw: [f64; 2]) {
        let (a, nu) = (p.alpha.values[seg], p.nu.values[seg]);
        self.f = (self.f + a * self.xi * self.f.powf(p.beta) * dw[0]).max(0.0);
        self.xi *= (nu * dw[1] - 0.5 * nu * nu * dt).exp();
    }
}
fn params(v: &[Seg], beta: f64, f0: f64) -> TimeDependentSabrParams {
    TimeDependentSabrParams::new(pc(v, |s| s.1 * f0.powf(1.0 - beta)), pc(v, |s| s.3), pc(v, |s| s.2), beta, f0)
}
fn beta() -> impl Strategy<Value = f64> { prop_oneof![2 => 0.0f64..1.0, 2 => Just(0.5), 1 => Just(1.0), 1 => Just(0.0)] }
fn f0s() -> impl Strategy<Value = f64> { prop_oneof![3 => 0.5f64..2.0, 1 => 20.0f64..200.0, 1 => 0.005f64..0.1] }
/// vol reads α(t)ξ with α from either side of a knot
fn vol_is(p: &TimeDependentSabrParams, st: &SabrState, xi: f64, seg: usize, at_knot: bool, what: &str) -> Result<(), Fail> {
    let a = p.alpha.values[seg];
    let alt = if at_knot && seg + 1 < p.alpha.values.len() { p.alpha.values[seg + 1] } else { a };
    ensure!((st.vol - a * xi).abs() <= 1e-9 * a * xi || (st.vol - alt * xi).abs() <= 1e-9 * alt * xi, "{what}: volatility {} but α·ξ = {} (α after the knot: {})", st.vol, a * xi, alt * xi);
    Ok(())
}

pub fn p29(s: &mut Suite) {
    s.rule("A case is one set of piecewise-constant schedules with an expiry on a knot, a step sequence with a seed, or a pillar set; non-trivial when a schedule really changes value (or vol-of-vol is positive for a single segment).");
    s.assume("The effective-parameter equations are the documented ones (moment-matching form); their accuracy against the true model is not asserted.");
    s.prop("effective_parameters_solve_their_integrals", 4000, 80000, || (segs(7), 0usize..7), |(v, cut)| {
        let v = tame(v);
        let n = 1 + cut % v.len();
        let (g, o, r) = (pc(&v, |s| s.2), pc(&v, |s| s.1), pc(&v, |s| s.3));
        let t = g.knots[n];
        let (ge, oe, re) = (effective_vol_vol(&g, &o, t), effective_term_structure(&g, &o, t), effective_correlation(&g, &o, &r, t));
        ensure!(ge >= 0.0 && oe > 0.0 && re.is_finite(), "effective parameters {ge} {oe} {re}");
        let x = check_effective(&v[..n], ge, oe, re)?;
        if v[..n].iter().all(|s| s.2 == 0.0) { ensure!(ge < 1e-6 && re == 0.0 || ge > 0.0 && ge < 1e-6, "no vol-of-vol anywhere but an effective one of {ge}"); }
        // what lies beyond the expiry does not matter
        let mut w = v.clone();
        for s in w[n..].iter_mut() { *s = (s.0, s.1 * 1.7, s.2 + 0.3, -s.3); }
        let (g2, o2, r2) = (pc(&w, |s| s.2), pc(&w, |s| s.1), pc(&w, |s| s.3));
        for (name, a, b) in [("vol-of-vol", effective_vol_vol(&g2, &o2, t), ge), ("level", effective_term_structure(&g2, &o2, t), oe), ("correlation", effective_correlation(&g2, &o2, &r2, t), re)] {
            near(&format!("effective {name} with other segments after the expiry"), a, b, 1e-12, 1e-14)?;
        }
        // a common scale of the level
        let o3 = pc(&v, |s| s.1 * 3.0);
        near("scaled level", effective_term_structure(&g, &o3, t), 3.0 * oe, 1e-9, 0.0)?;
        let moved = v[..n].windows(2).any(|w| w[0].1 != w[1].1 || w[0].2 != w[1].2 || w[0].3 != w[1].3);
        seen_as(moved, if x < 1e-3 { "small" } else if x > 5.0 { "large" } else { "moderate" })
    });
    s.prop("constant_inputs_are_their_own_effective_parameters", 2000, 40000, || (prop::collection::vec(0.01f64..3.0, 1..8), (0.01f64..3.0, prop_oneof![0.01f64..1.5, 1e-3f64..0.01], -0.99f64..0.99)), |(l, (o, g, r))| {
        let v = tame(&l.iter().map(|d| (*d, *o, *g, *r)).collect::<Vec<_>>());
        let (gs, os, rs) = (pc(&v, |s| s.2), pc(&v, |s| s.1), pc(&v, |s| s.3));
        let t = gs.final_time();
        let x = g * g * t;
        let tol = 1e-10 + 1e-14 / (g * g) + 2e-14 / x + 15.0 * x.min(1e-4).powi(2) + 3.0 * x.min(1e-3).powi(3);
        near("vol-vol", effective_vol_vol(&gs, &os, t), *g, tol, 0.0)?;
        near("level", effective_term_structure(&gs, &os, t), *o, 1e-10 + 3e-7 * (g * g * t < 1.1e-6) as u8 as f64, 0.0)?;
        near("correlation", effective_correlation(&gs, &os, &rs, t), *r, tol + 3e-7 * (g * g * t < 1.1e-6) as u8 as f64, 1e-12)?;
        seen(l.len() > 1)
    });
    s.prop("schedules_read_and_reject", 3000, 40000, || (segs(6), prop::collection::vec(0.0f64..1.0, 1..6), 0u8..9), |(v, us, bad)| {
        let p = pc(v, |s| s.1);
        ensure!(p.n_segments() == v.len() && p.final_time() == knots(v)[v.len()], "shape of the schedule");
        for (u, exact) in us.iter().map(|u| (*u, false)).chain(us.iter().map(|u| (*u, true))) {
            let k = (u * (v.len() + 1) as f64) as usize % (v.len() + 1);
            let t = if exact { p.knots[k] } else { u * p.final_time() };
            let seg = (0..v.len()).find(|i| t <= p.knots[i + 1]).unwrap();
            ensure!(p.at(t) == v[seg].1, "value at {t} is {}, the segment's is {}", p.at(t), v[seg].1);
            if v.iter().all(|s| s.2 <= 3.0) {
                let q = params(v, 0.5, 1.0);
                ensure!(q.at(t) == SabrParams { alpha: v[seg].1, beta: 0.5, rho: v[seg].3, nu: v[seg].2 } && q.horizon() == p.final_time(), "parameters at {t}: {:?}", q.at(t));
            }
        }
        ensure!(PiecewiseConstant::constant(2.0, 0.3).at(1.3) == 0.3, "constant schedule");
        let (k, vals) = (p.knots.clone(), p.values.clone());
        let t = p.final_time();
        let other = { let mut w = v.clone(); w[0].0 *= 1.01; pc(&w, |s| s.2) };
        let r = match bad {
            0 => guarded(|| { PiecewiseConstant::new(k[1..].to_vec(), vals[1..].to_vec()); }),
            1 => guarded(|| { let mut k = k; k.push(t); PiecewiseConstant::new(k, [vals, vec![1.0]].concat()); }),
            2 => guarded(|| { PiecewiseConstant::new(k, [vals, vec![1.0]].concat()); }),
            3 => guarded(|| { p.at(t * 1.001 + 1e-6); }),
            4 => guarded(|| { p.at(-1e-6); }),
            5 => guarded(|| { effective_vol_vol(&other, &p, t); }),
            6 => guarded(|| { effective_term_structure(&pc(v, |s| s.2), &p, t * 0.999 - 1e-5); }),
            7 => guarded(|| { TimeDependentSabrParams::new(p.clone(), pc(v, |s| s.3), other, 0.5, 1.0); }),
            _ => guarded(|| { TimeDependentSabrParams::new(p.clone(), pc(v, |_| 1.0), pc(v, |s| s.2), 0.5, 1.0); }),
        };
        let off_knot = !p.knots.iter().any(|q| (q - (t * 0.999 - 1e-5)).abs() < 1e-9);
        ensure!(r.is_err() || (*bad == 6 && !off_knot), "inconsistent schedule {bad} accepted");
        seen(v.len() > 1)
    });
    s.prop("steps_use_the_parameters_in_force", 500, 8000, || (segs(5), beta(), f0s(), prop::collection::vec(0.05f64..0.95, 1..4), any::<u64>()), |(v, b, f0, splits, seed)| {
        let p = params(v, *b, *f0);
        let mut grid: Vec<(usize, f64, f64, bool)> = vec![]; // segment, from, to, ends on the knot
        for i in 0..v.len() {
            let (a, z) = (p.alpha.knots[i], p.alpha.knots[i + 1]);
            let mut cuts: Vec<f64> = splits.iter().map(|u| a + u * (z - a)).collect();
            cuts.sort_by(f64::total_cmp);
            cuts.dedup();
            let mut from = a;
            for c in cuts { if c > from { grid.push((i, from, c, false)); from = c; } }
            grid.push((i, from, z, true));
        }
        let (mut m, mut w) = (TimeDependentSabrSimulator::new(p.clone(), *seed), TimeDependentSabrSimulator::new(p.clone(), *seed));
        let mut st = m.initial_state();
        ensure!(st.forward == *f0 && st.vol == p.alpha.values[0], "initial state {st:?}");
        let mut rf = Ref { f: *f0, xi: 1.0 };
        for (seg, from, to, end) in &grid {
            let dt = to - from;
            let (n, dw) = m.step_with_noise(&st, from + 0.5 * dt, dt);
            ensure!(w.step(&st, from + 0.5 * dt, dt) == n, "trait step differs from step_with_noise");
            rf.advance(&p, *seg, dt, dw);
            near("forward", n.forward, rf.f, 1e-9, 1e-11 * f0)?;
            vol_is(&p, &n, rf.xi, *seg, *end, &format!("after ({from}, {to}]"))?;
            st = n;
        }
        seen_as(v.windows(2).any(|w| w[0].1 != w[1].1), if rf.f == 0.0 { "absorbed" } else { "interior" })
    });
    s.prop("noise_has_the_correlation_in_force", 120, 2500, || (segs(3), f0s(), prop_oneof![3 => 0.0005f64..0.5, 1 => (-14.0f64..-7.0).prop_map(f64::exp)], 0.05f64..0.95, any::<u64>()), |(v, f0, dt, frac, seed)| {
        let p = params(v, 0.5, *f0);
        let (mut a, mut b) = (TimeDependentSabrSimulator::new(p.clone(), *seed), TimeDependentSabrSimulator::new(p.clone(), *seed));
        for i in 0..v.len() {
            let len = v[i].0;
            let (dt, tm) = (dt * len, p.alpha.knots[i] + 0.5 * len);
            let st = SabrState { forward: *f0, vol: p.alpha.values[i] };
            let mut zs = vec![];
            for _ in 0..700 {
                let (_, d1) = a.step_with_noise(&st, tm, dt);
                let (_, d2) = b.step_with_noise(&st, tm, dt * frac);
                for j in 0..2 { near("increments at another step size", d2[j], d1[j] * frac.sqrt(), 1e-12, 1e-15)?; }
                zs.push(vec![d1[0] / dt.sqrt(), d1[1] / dt.sqrt()]);
            }
            check_normals(&zs, &[vec![1.0, v[i].3], vec![v[i].3, 1.0]])?;
        }
        seen(v.windows(2).any(|w| w[0].3 != w[1].3) || v.len() == 1 && v[0].3 != 0.0)
    });
    s.prop("uniform_simulation_is_steps_and_flat_is_constant", 400, 6000, || (segs(4), beta(), f0s(), 0.1f64..1.0, 1usize..10, 1usize..5, any::<u64>()), |(v, b, f0, upto, n, np, seed)| {
        let p = params(v, *b, *f0);
        let t = p.horizon() * upto;
        let run = |sd| TimeDependentSabrSimulator::new(p.clone(), sd).simulate(t, *n, *np);
        let out = run(*seed);
        ensure!(out.len() == *np && out == run(*seed), "not a function of the seed");
        let dt = t / *n as f64;
        let mut m = TimeDependentSabrSimulator::new(p.clone(), *seed);
        for o in &out {
            let mut st = m.initial_state();
            for i in 0..*n { st = m.step_with_noise(&st, (i as f64 + 0.5) * dt, dt).0; }
            // a step's middle may sit on a knot to rounding
            let near_knot = (0..*n).any(|i| p.alpha.knots.iter().any(|k| [(i as f64 + 0.5) * dt, i as f64 * dt, (i + 1) as f64 * dt].iter().any(|x| (x - k).abs() < 1e-8 && *k > 0.0)));
            if !near_knot || v.len() == 1 {
                near("terminal forward", o.forward, st.forward, 1e-9, 1e-11 * f0)?;
                near("terminal volatility", o.vol, st.vol, 1e-9, 0.0)?;
            }
        }
        let flat = v.windows(2).all(|w| w[0].1 == w[1].1 && w[0].2 == w[1].2 && w[0].3 == w[1].3);
        let c = p.reduces_to_constant_of();
        ensure!(c.is_some() == flat, "flat schedules: {flat}, recognised: {}", c.is_some());
        if let Some(c) = c {
            near("constant alpha", c.alpha, p.alpha.values[0], 1e-14, 0.0)?;
            ensure!(c.rho == v[0].3 && c.nu == v[0].2 && c.beta == *b, "constant parameters {c:?}");
            let ref_out = finquant::models::forex::sabr::SabrSimulator::new(c, *f0, *seed).simulate(t, *n, *np);
            for (o, r) in out.iter().zip(&ref_out) {
                near("flat schedule forward", o.forward, r.forward, 1e-11, 1e-13 * f0)?;
                near("flat schedule volatility", o.vol, r.vol, 1e-11, 0.0)?;
            }
        }
        seen_as(*n > 1, if flat { "flat" } else { "varying" })
    });
    s.prop("dated_simulation_follows_the_schedule", 300, 5000, || (any_date(2000, 2050), prop::collection::vec((1i64..500, 0.03f64..0.6, 0.05f64..1.0, -0.9f64..0.9), 1..5), beta(), f0s(), 1u32..200, 1usize..4, any::<u64>()), |(val, vs, b, f0, cap, np, seed)| {
        // knots at dates, all of them observed
        let mut days = 0;
        let mut obs: Vec<NaiveDate> = vec![];
        let mut ks = vec![0.0];
        for (d, ..) in vs { days += d; obs.push(add_days(*val, days)); ks.push(days as f64 / 365.0); }
        let mk = |f: &dyn Fn(&(i64, f64, f64, f64)) -> f64| PiecewiseConstant::new(ks.clone(), vs.iter().map(f).collect());
        let p = TimeDependentSabrParams::new(mk(&|s| s.1 * f0.powf(1.0 - b)), mk(&|s| s.3), mk(&|s| s.2), *b, *f0);
        let mut tap = Tap { inner: TimeDependentSabrSimulator::new(p.clone(), *seed), log: vec![] };
        let out = simulate_at_dates(&mut tap, *val, &obs, *np, *cap, &Actual365Fixed::default());
        // same draws, read off the increments of an identically seeded model
        let mut m = TimeDependentSabrSimulator::new(p.clone(), *seed);
        let mut it = tap.log.iter();
        for path in &out.paths {
            let mut rf = Ref { f: *f0, xi: 1.0 };
            let mut t = 0.0;
            for (seg, snap) in path.iter().enumerate() {
                while t < ks[seg + 1] - 1e-9 {
                    let Some((_, dt)) = it.next() else { return Err("fewer steps than the dates need".into()) };
                    let tm = 0.5 * (ks[seg] + ks[seg + 1]);
                    let (_, dw) = m.step_with_noise(&SabrState { forward: *f0, vol: 1.0 }, tm, *dt);
                    rf.advance(&p, seg, *dt, dw);
                    t += dt;
                }
                near("forward at an observation date", snap.forward, rf.f, 1e-8, 1e-10 * f0)?;
                vol_is(&p, snap, rf.xi, seg, true, "at an observation date")?;
            }
        }
        seen(vs.len() > 1)
    });
    s.prop("calibration_fits_pillars_in_stages", 60, 1000, || (prop::collection::vec((0.1f64..1.5, (0.05f64..0.25, 0.5f64..0.5001, -0.6f64..0.6, 0.2f64..0.9)), 1..5), prop_oneof![2 => Just(0.5), 1 => Just(1.0), 1 => 0.2f64..0.9], prop_oneof![3 => 0.7f64..1.6, 1 => 20.0f64..160.0], any::<bool>(), 0.0f64..0.02), |(raw, b, f0, wild, noise)| {
        let mut t = 0.0;
        let mut pillars = vec![];
        let mut strips = vec![];
        for (i, (dt, r)) in raw.iter().enumerate() {
            t += dt;
            // calm term structures move little between pillars, wild ones are independent
            let base = raw[0].1;
            let q = if *wild { (r.0, *b, r.2, r.3) } else { (base.0 * (1.0 + 0.1 * (r.0 - 0.15)), *b, base.2 + 0.1 * r.2, base.3 * (1.0 - 0.06 * i as f64)) };
            let fwd = f0 * (1.0 + 0.01 * i as f64);
            let strikes: Vec<f64> = (-2..=2).map(|j| fwd * (q.0 * t.sqrt() * 0.7 * j as f64).exp()).collect();
            let p = at(&q, fwd);
            let vols: Vec<f64> = strikes.iter().enumerate().map(|(j, k)| hagan(&p, fwd, *k, t) * (1.0 + noise * ((j * 3 + i) % 5) as f64 / 5.0)).collect();
            strips.push(MarketSmileStrip { expiry_yf: t, forward: fwd, strikes: strikes.clone(), vols: vols.clone() });
            pillars.push(PillarTarget { expiry: t, forward: fwd, strikes, market_vols: vols });
        }
        let o = NelderMeadOptions { max_iter: 800, ftol: 1e-14, xtol: 1e-9, step_frac: 0.1 };
        let res = guarded(|| calibrate_time_dependent(&pillars, *b, *f0, o)).map_err(|e| Fail::from(format!("the fit of {pillars:?} stops: {e}")))?;
        let p = &res.params;
        let n = pillars.len();
        ensure!(p.beta == *b && p.forward_0 == *f0 && res.per_pillar.len() == n, "shape of the result");
        ensure!(p.alpha.knots[0] == 0.0 && p.alpha.knots.len() == n + 1 && (0..n).all(|i| p.alpha.knots[i + 1] == pillars[i].expiry), "knots {:?}", p.alpha.knots);
        let segs: Vec<Seg> = (0..n).map(|i| (p.alpha.knots[i + 1] - p.alpha.knots[i], p.alpha.values[i], p.nu.values[i], p.rho.values[i])).collect();
        let mut all_exact = true;
        let mut tail = 0.0;
        for i in 0..n {
            let (d, pi) = (&res.per_pillar[i], &pillars[i]);
            let me = d.market_effective;
            ensure!(d.expiry == pi.expiry && me.beta == *b, "pillar {i} reports expiry {} and beta {}", d.expiry, me.beta);
            let rms = (pi.strikes.iter().zip(&pi.market_vols).map(|(k, v)| (hagan_implied_vol(&me, pi.forward, *k, pi.expiry) - v).powi(2)).sum::<f64>() / 5.0).sqrt();
            near("smile error of a pillar", d.stage1_rmse, rms, 1e-9, 1e-13)?;
            // vol-vol: with the level held at the pillar's own
            let v2: Vec<Seg> = segs[..=i].iter().map(|s| (s.0, me.alpha, s.2, s.3)).collect();
            let (g2, ..) = reference(&v2);
            if me.nu < 1e-3 { return seen_as(false, "no smile left"); }
            let gtol = 1e-7 + 1e-11 / (me.nu + 1e-7);
            if segs[i].2 > 1.0001e-6 { near("vol-vol the schedule implies", g2, me.nu, 1e-7, gtol)?; } else { all_exact = false; ensure!(g2 >= me.nu - gtol, "vol-vol at its floor although {g2} < {}", me.nu); }
            let (g, w, r) = reference(&segs[..=i]);
            if segs[i].1 > 1.0001e-6 { near("level the schedule implies", w, me.alpha, 1e-6, 1e-9)?; } else { all_exact = false; ensure!(w >= me.alpha - 1e-9, "level at its floor although {w} < {}", me.alpha); }
            let s_i = segs[i].0 * segs[i].2 / segs[i].1;
            let want = me.rho * g * pi.expiry / w - tail;
            let size = (g * pi.expiry / w).abs() + f64::abs(tail) + s_i;
            if segs[i].3.abs() < 0.99899 { near("correlation the schedule implies", segs[i].3 * s_i, want, 0.0, 3e-6 * size)?; if g > 1e-3 { near("effective correlation", r, me.rho, 0.0, 1e-4)?; } }
            else { all_exact = false; ensure!(want * segs[i].3.signum() >= 0.9989 * s_i - 3e-6 * size, "correlation at its limit although {want} is reachable with {s_i}"); }
            tail += segs[i].3 * s_i;
            let pf = (((g - me.nu).powi(2) + (w - me.alpha).powi(2) + (r - me.rho).powi(2)) / 3.0).sqrt();
            if g > 1e-4 { near("reported residual of a pillar", d.post_fit_rmse, pf, 1e-5, 1e-6)?; }
        }
        let rep = SabrTimeDependentSurfaceCalibrator { beta: *b, forward_0: *f0 }.calibrate(&strips, o).map_err(|e| Fail::from(format!("{e:?}")))?;
        let worst = res.per_pillar.iter().map(|d| d.stage1_rmse).fold(0.0, f64::max);
        ensure!(rep.params == *p && rep.rmse == worst, "the calibrator object gives {:?} ({}), the function {:?} ({worst})", rep.params, rep.rmse, p);
        seen_as(n > 1, if all_exact { "reached" } else { "clamped" })
    });
    s.prop("calibration_fits_model_smiles", 40, 800, || (prop::collection::vec((0.1f64..0.7, 0.07f64..0.25, -0.5f64..0.3, 0.25f64..0.7), 3), 0.0f64..=1.0, -4.0f64..5.0), |(raw, b, lf)| {
        let (mut t, f) = (0.0, lf.exp());
        let pillars: Vec<PillarTarget> = raw.iter().map(|(dt, v, r, n)| {
            t += dt;
            let p = at(&(*v, *b, *r, *n), f);
            let strikes: Vec<f64> = (-2..=2).map(|j| f * (v * t.sqrt() * 0.7 * j as f64).exp()).collect();
            let market_vols = strikes.iter().map(|k| hagan(&p, f, *k, t)).collect();
            PillarTarget { expiry: t, forward: f, strikes, market_vols }
        }).collect();
        let o = NelderMeadOptions { max_iter: 2000, ftol: 1e-16, xtol: 1e-10, step_frac: 0.1 };
        let res = guarded(|| calibrate_time_dependent(&pillars, *b, f, o)).map_err(|e| Fail::from(format!("the fit of {pillars:?} stops: {e}")))?;
        // a local search: one miss in 1e5 pillars was measured, two in one case would not be chance
        let bad = res.per_pillar.iter().filter(|d| d.stage1_rmse > 1e-5).count();
        ensure!(bad <= 1, "{bad} of 3 smiles of the model are missed: {:?}", res.per_pillar);
        for (d, (_, v, r, n)) in res.per_pillar.iter().zip(raw) {
            if d.stage1_rmse < 1e-8 {
                near("alpha of a pillar", d.market_effective.alpha, v * f.powf(1.0 - b), 1e-3, 0.0)?;
                near("vol-of-vol of a pillar", d.market_effective.nu, *n, 0.02, 0.0)?;
                near("correlation of a pillar", d.market_effective.rho, *r, 0.0, 0.02)?;
            }
        }
        seen(true)
    });
}
trait Reduces { fn reduces_to_constant_of(&self) -> Option<SabrParams>; }
impl Reduces for TimeDependentSabrParams {
    fn reduces_to_constant_of(&self) -> Option<SabrParams> { TimeDependentSabrSimulator::new(self.clone(), 0).reduces_to_constant().map(|s| s.params) }
}
