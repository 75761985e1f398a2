//! P30: Dupire local volatility and the SABR stochastic-local-volatility simulation.
use super::util::*;
use crate::core::*;
use crate::ensure;
use finquant::models::forex::dupire_local_vol::{DupireLocalVol, build};
use finquant::models::forex::sabr::SabrState;
use finquant::models::forex::sabr_effective::PiecewiseConstant;
use finquant::models::forex::sabr_slv::TimeDependentSabrSlvSimulator;
use finquant::models::forex::sabr_time_dependent::TimeDependentSabrParams;
use proptest::prelude::*;

const LO: f64 = 1e-4;
const HI: f64 = 4.0;

/// Parametric smile in log-forward-moneyness: level, slope, curvature, level per year.
type Smile = (f64, f64, f64, f64);
fn smile() -> impl Strategy<Value = Smile> {
    prop_oneof![
        1 => (0.05f64..0.4).prop_map(|a| (a, 0.0, 0.0, 0.0)),
        2 => (0.08f64..0.35, -0.25f64..0.25, 0.0f64..0.5, -0.05f64..0.1).prop_map(|(a, b, c, d)| (a, b * a, c * a, d * a)),
    ]
}
fn sig(s: &Smile, y: f64, t: f64) -> f64 { s.0 + s.1 * y + s.2 * y * y + s.3 * t }
/// Dupire's variance of that smile in closed form (Gatheral's total-variance form).
fn analytic(s: &Smile, y: f64, t: f64) -> Option<f64> {
    let v = sig(s, y, t);
    let (vy, vyy, vt) = (s.1 + 2.0 * s.2 * y, 2.0 * s.2, s.3);
    let (w, wy, wyy, wt) = (v * v * t, 2.0 * v * vy * t, 2.0 * t * (vy * vy + v * vyy), v * v + 2.0 * v * t * vt);
    let den = 1.0 - y * wy / w + 0.25 * (-0.25 - 1.0 / w + y * y / (w * w)) * wy * wy + 0.5 * wyy;
    if den > 0.3 && wt > 0.0 { Some(wt / den) } else { None }
}
/// The repository's own Black price: P24 decides it, and its rounding must cancel in second differences.
fn call(f: f64, k: f64, v: f64, t: f64, disc: f64) -> f64 { finquant::models::common::black_scholes::bs_call_forward(f, k, v, t, disc) }

fn grid(max: usize) -> impl Strategy<Value = Vec<f64>> { prop::collection::vec(prop_oneof![3 => 0.3f64..1.5, 1 => 0.02f64..0.3, 1 => 1.5f64..4.0], 2..max) }
fn cumulate(start: f64, steps: &[f64], total: f64) -> Vec<f64> {
    let s: f64 = steps.iter().sum();
    let mut v = vec![start];
    for d in steps { v.push(v[v.len() - 1] + d / s * total); }
    v
}
/// The documented discretisation at one node; None where rounding decides.
struct Fd<'a> { ts: &'a [f64], ks: &'a [f64], c: Vec<Vec<f64>>, rd: f64, rf: f64, spot: f64 }
impl Fd<'_> {
    fn node(&self, i: usize, j: usize, iv: f64) -> Option<(f64, f64)> {
        let (n, m) = (self.ts.len(), self.ks.len());
        let d = |a: f64, b: f64, h: f64| (a - b) / h;
        let (ia, ib) = (i.saturating_sub(1), (i + 1).min(n - 1));
        let (ja, jb) = (j.saturating_sub(1), (j + 1).min(m - 1));
        let c = &self.c;
        let ct = d(c[ib][j], c[ia][j], self.ts[ib] - self.ts[ia]);
        let ck = d(c[i][jb], c[i][ja], self.ks[jb] - self.ks[ja]);
        let q = j.clamp(1, m - 2);
        let (h1, h2) = (self.ks[q] - self.ks[q - 1], self.ks[q + 1] - self.ks[q]);
        let ckk = 2.0 * ((c[i][q + 1] - c[i][q]) / h2 - (c[i][q] - c[i][q - 1]) / h1) / (h1 + h2);
        let k = self.ks[j];
        let (num, den) = (ct + (self.rd - self.rf) * k * ck + self.rf * c[i][j], k * k * ckk);
        let e = 4e-16 * (self.spot + k); // accuracy of a price
        let en = e * (1.0 / (self.ts[ib] - self.ts[ia]) + (self.rd - self.rf).abs() * k / (self.ks[jb] - self.ks[ja]) + self.rf.abs());
        let ed = 4.0 * e * k * k / (h1 * h2);
        if (den - 1e-8).abs() < ed || (num.abs() < en && den > 1e-8) { return None; }
        if den > 1e-8 && num > 0.0 {
            let v = 2.0 * num / den;
            let tol = v * (en / num + ed / den);
            if tol > 0.02 * v { return None; }
            Some((v.clamp(LO, HI), tol + 1e-12 * v))
        } else { Some(((iv * iv).clamp(LO, HI), 1e-14)) }
    }
}
fn bilinear(lv: &DupireLocalVol, t: f64, k: f64) -> f64 {
    let at = |xs: &[f64], x: f64| {
        let x = x.clamp(xs[0], xs[xs.len() - 1]);
        let i = (0..xs.len() - 2).find(|i| x <= xs[i + 1]).unwrap_or(xs.len() - 2);
        (i, (x - xs[i]) / (xs[i + 1] - xs[i]))
    };
    let ((i, a), (j, b)) = (at(&lv.expiries, t), at(&lv.strikes, k));
    let v = &lv.variance;
    (1.0 - a) * ((1.0 - b) * v[i][j] + b * v[i][j + 1]) + a * ((1.0 - b) * v[i + 1][j] + b * v[i + 1][j + 1])
}
/// A local-variance surface given by its node values.
fn surface(spot: f64, nodes: &[f64]) -> DupireLocalVol {
    let (ts, ks) = (vec![0.1, 0.6, 1.5], vec![0.7 * spot, 0.9 * spot, 1.05 * spot, 1.4 * spot]);
    let variance = (0..3).map(|i| (0..4).map(|j| { let v = nodes[(i * 4 + j) % nodes.len()]; v * v }).collect()).collect();
    DupireLocalVol { expiries: ts, strikes: ks, variance }
}

pub fn p30(s: &mut Suite) {
    s.rule("A case is one implied-volatility grid with spot and rates, one surface with query points, or one simulation set-up with a seed; non-trivial when the surface is not flat or rates differ (extraction), points fall inside cells (reading), or volatility is stochastic over several steps (simulation).");
    s.assume("Local variance is the documented finite-difference form (central inside, one-sided at the edges, implied variance where the formula has no value, clamped to [1%, 200%] volatility); closeness to the continuous formula is asserted only on dense grids.");
    s.prop("nodes_are_the_documented_differences", 2500, 50000, || (grid(7), grid(9), (0.02f64..0.5, 0.3f64..4.0), (-0.05f64..0.1, -0.05f64..0.1), prop_oneof![0.5f64..2.0, 20.0f64..200.0], (smile(), prop::collection::vec(-1.0f64..1.0, 1..30), prop_oneof![2 => Just(0.0), 1 => 0.0f64..0.02, 1 => 0.02f64..0.3]), (0.3f64..0.95, 1.05f64..2.5)), |(ts, ks, (t0, span), (rd, rf), spot, (sm, jitter, amp), (klo, khi))| {
        let ts = cumulate(*t0, ts, *span);
        let ks = cumulate(spot * klo, ks, spot * (khi - klo));
        let mut n = 0;
        let vols: Vec<Vec<f64>> = ts.iter().map(|t| ks.iter().map(|k| {
            n += 1;
            let f = spot * ((rd - rf) * t).exp();
            (sig(sm, (k / f).ln(), *t) * (1.0 + amp * jitter[n % jitter.len()])).clamp(0.01, 1.5)
        }).collect()).collect();
        let lv = build(&ts, &ks, &vols, *spot, *rd, *rf);
        ensure!(lv.expiries == ts && lv.strikes == ks && lv.variance.len() == ts.len() && lv.variance.iter().all(|r| r.len() == ks.len()), "shape of the surface");
        ensure!(lv.t_range() == (ts[0], ts[ts.len() - 1]) && lv.k_range() == (ks[0], ks[ks.len() - 1]), "ranges");
        let c = (0..ts.len()).map(|i| (0..ks.len()).map(|j| call(spot * ((rd - rf) * ts[i]).exp(), ks[j], vols[i][j], ts[i], (-rd * ts[i]).exp())).collect()).collect();
        let fd = Fd { ts: &ts, ks: &ks, c, rd: *rd, rf: *rf, spot: *spot };
        let mut compared = 0;
        for i in 0..ts.len() {
            for j in 0..ks.len() {
                let v = lv.variance[i][j];
                ensure!((LO * (1.0 - 1e-12)..=HI * (1.0 + 1e-12)).contains(&v), "local variance {v} at node ({i},{j})");
                if let Some((w, tol)) = fd.node(i, j, vols[i][j]) {
                    near(&format!("local variance at node ({i},{j})"), v, w, 0.0, tol)?;
                    compared += 1;
                }
            }
        }
        seen_as(compared > 3, if *amp > 0.0 { "noisy" } else if sm.1 == 0.0 { "flat" } else { "smile" })
    });
    s.prop("dense_grids_give_dupires_formula", 250, 4000, || (smile(), prop_oneof![0.6f64..2.0, 50.0f64..150.0], (-0.04f64..0.08, -0.04f64..0.08), 0.15f64..3.0), |(sm, spot, (rd, rf), t)| {
        let ts: Vec<f64> = (0..7).map(|i| t * (1.0 + 0.025 * (i as f64 - 3.0))).collect();
        let f = spot * ((rd - rf) * t).exp();
        let sd = sig(sm, 0.0, *t) * t.sqrt();
        let nk = 81;
        let h = f * sd * 0.06;
        let ks: Vec<f64> = (0..nk).map(|j| f + h * (j as f64 - 40.0)).filter(|k| *k > 0.05 * f).collect();
        let vols: Vec<Vec<f64>> = ts.iter().map(|t| ks.iter().map(|k| sig(sm, (k / (spot * ((rd - rf) * t).exp())).ln(), *t).max(0.005)).collect()).collect();
        let lv = build(&ts, &ks, &vols, *spot, *rd, *rf);
        let mut n = 0;
        for i in 1..6 {
            let fi = spot * ((rd - rf) * ts[i]).exp();
            for j in 1..ks.len() - 1 {
                let y = (ks[j] / fi).ln();
                if y.abs() > 1.4 * sd { continue; }
                let Some(a) = analytic(sm, y, ts[i]) else { continue };
                if !(LO * 1.2..HI * 0.8).contains(&a) { continue; }
                near(&format!("local variance at log-moneyness {y:.4}, time {:.4}", ts[i]), lv.variance[i][j], a, 0.03, 0.0)?;
                n += 1;
            }
        }
        seen_as(n > 20 && (sm.1 != 0.0 || rd != rf), if sm.1 == 0.0 { "flat" } else { "smile" })
    });
    s.prop("reading_interpolates_between_nodes", 4000, 80000, || (0.5f64..150.0, prop::collection::vec(0.02f64..1.0, 12), prop::collection::vec((-0.2f64..1.3, -0.2f64..1.3, 0u8..4), 1..8)), |(spot, nodes, qs)| {
        let lv = surface(*spot, nodes);
        let mut inside = false;
        for (a, b, snap) in qs {
            let (mut t, mut k) = (0.1 + a * 1.4, spot * (0.7 + b * 0.7));
            if snap & 1 == 1 { t = lv.expiries[((a + 0.2) * 2.0) as usize % 3]; }
            if snap & 2 == 2 { k = lv.strikes[((b + 0.2) * 2.6) as usize % 4]; }
            let (v, w) = (lv.local_variance(t, k), bilinear(&lv, t, k));
            near(&format!("local variance at ({t}, {k})"), v, w, 1e-11, 0.0)?;
            near("local volatility", lv.local_vol(t, k), w.sqrt(), 1e-11, 0.0)?;
            inside |= *snap == 0 && (0.0..1.0).contains(a) && (0.0..1.0).contains(b);
        }
        for (t, k) in [(0.0, 0.0), (1e9, 1e9), (0.0, 1e9), (1e9, 0.0), (-1.0, -1.0)] {
            let v = lv.local_variance(t, k);
            near(&format!("outside the box at ({t}, {k})"), v, lv.variance[if t > 0.05 { 2 } else { 0 }][if k > 0.05 { 3 } else { 0 }], 1e-13, 0.0)?;
        }
        seen(inside)
    });
    s.prop("grids_that_make_no_surface_are_refused", 300, 3000, || (grid(6), grid(6), 0u8..8, 0usize..50), |(ts, ks, bad, at)| {
        let (mut t, mut k) = (cumulate(0.1, ts, 1.0), cumulate(0.8, ks, 0.5));
        let mut v = vec![vec![0.1; k.len()]; t.len()];
        let mut spot = 1.0;
        ensure!(guarded(|| { build(&t, &k, &v, spot, 0.0, 0.0); }).is_ok(), "an ordinary grid is refused");
        let (ti, ki) = (1 + at % (t.len() - 1), 1 + at % (k.len() - 1));
        match bad {
            0 => { t.truncate(2); v.truncate(2); }
            1 => { k.truncate(2); v.iter_mut().for_each(|r| r.truncate(2)); }
            2 => { v.pop(); }
            3 => { let i = at % v.len(); v[i].pop(); }
            4 => t[ti] = t[ti - 1],
            5 => k[ki] = k[ki - 1],
            6 => t.swap(ti, ti - 1),
            _ => spot = -(*at as f64),
        }
        ensure!(guarded(|| { build(&t, &k, &v, spot, 0.0, 0.0); }).is_err(), "malformed input {bad} accepted");
        seen(true)
    });
    // --- stochastic local volatility ---
    s.prop("simulation_follows_the_compensated_dynamics", 150, 2500, || (0.6f64..150.0, prop::collection::vec(0.04f64..0.25, 12), prop_oneof![1 => Just(0.5), 1 => Just(1.0), 1 => 0.0f64..1.0], prop::collection::vec((0.1f64..0.5, 0.05f64..0.4, 0.1f64..1.0, -0.9f64..0.9), 1..4), (1usize..6, 3usize..120, 2usize..30), 0.05f64..0.9, any::<u64>()), |(f0, nodes, b, segs, (n, np, bins), upto, seed)| {
        let mut ks = vec![0.0];
        for s in segs { ks.push(ks[ks.len() - 1] + s.0); }
        let pc = |f: &dyn Fn(usize) -> f64| PiecewiseConstant::new(ks.clone(), (0..segs.len()).map(f).collect());
        let pars = |nu: f64, flat_a: bool| TimeDependentSabrParams::new(pc(&|i| if flat_a { 0.2 } else { segs[i].1 }), pc(&|i| segs[i].3), pc(&|i| segs[i].2 * nu), *b, *f0);
        let t_end = ks[segs.len()] * upto;
        let dt = t_end / *n as f64;
        let lv = surface(*f0, nodes);
        let run = |nu: f64, flat_a: bool, steps: usize| TimeDependentSabrSlvSimulator::new(pars(nu, flat_a), lv.clone(), *seed).with_bins(*bins).simulate(dt * steps as f64, steps, *np);
        // prefixes of one run share their draws, so every state along the way is visible
        let (mut still, mut one, mut two, mut sched) = (vec![], vec![], vec![], vec![]);
        for k in 1..=*n { still.push(run(0.0, true, k)); one.push(run(1.0, true, k)); two.push(run(1.7, true, k)); sched.push(run(1.0, false, k)); }
        ensure!(one[n - 1] == run(1.0, true, *n), "same seed, different paths");
        ensure!(one[n - 1].len() == *np, "path count");
        let start = vec![SabrState { forward: *f0, vol: 0.2 }; *np];
        let mut zs = vec![];
        let mut floored = false;
        for k in 0..*n {
            let tm = (k as f64 + 0.5) * dt;
            if ks.iter().any(|x| (x - tm).abs() < 1e-9) { return seen_as(false, "step centred on a knot"); }
            let seg = (0..segs.len()).find(|i| tm <= ks[i + 1]).unwrap();
            let (nu, rho) = (segs[seg].2, segs[seg].3);
            let prev = |r: &Vec<Vec<SabrState>>| if k == 0 { start.clone() } else { r[k - 1].clone() };
            let (s0, o0, w0) = (prev(&still), prev(&one), prev(&two));
            if s0.iter().chain(&o0).chain(&w0).chain(&still[k]).any(|x| x.forward <= 0.0) { floored = true; break; }
            let cond = conditional(&o0, *bins);
            for p in 0..*np {
                // without vol-of-vol the paths are those of the local volatility alone: this gives the draw
                ensure!(still[k][p].vol == 0.2, "volatility moved without vol-of-vol");
                let dwf = (still[k][p].forward / s0[p].forward - 1.0) / bilinear(&lv, tm, s0[p].forward).sqrt();
                let dwa = ((one[k][p].vol / o0[p].vol).ln() + 0.5 * nu * nu * dt) / nu;
                near("volatility at another vol-of-vol", (two[k][p].vol / w0[p].vol).ln(), 1.7 * nu * dwa - 0.5 * (1.7 * nu).powi(2) * dt, 1e-9, 1e-11)?;
                let (f, v) = (o0[p].forward, o0[p].vol);
                let lvv = bilinear(&lv, tm, f);
                let want = (f + f * (lvv / cond(f)).sqrt() * v * dwf).max(0.0);
                near("forward with stochastic volatility", one[k][p].forward, want, 1e-8, 1e-9 * f0)?;
                near("forward under a schedule of levels", sched[k][p].forward, one[k][p].forward, 1e-8, 1e-9 * f0)?;
                zs.push(vec![dwf / dt.sqrt(), (dwa / dt.sqrt() - rho * dwf / dt.sqrt()) / (1.0 - rho * rho).sqrt()]);
            }
        }
        if zs.len() > 100 { check_normals(&zs, &[vec![1.0, 0.0], vec![0.0, 1.0]])?; }
        seen_as(*n > 1 && !floored, if floored { "absorbed" } else { "interior" })
    });
    s.prop("simulated_states_stay_admissible", 150, 2500, || (0.6f64..150.0, prop::collection::vec(0.5f64..3.0, 12), 0.0f64..1.0, (-0.9f64..0.9, 0.1f64..1.5), (1usize..8, 3usize..60, 2usize..12), 0.2f64..1.9, any::<u64>()), |(f0, nodes, b, (rho, nu), (n, np, bins), t, seed)| {
        // steps long enough to overshoot zero
        let c = |v| PiecewiseConstant::constant(2.0, v);
        let out = TimeDependentSabrSlvSimulator::new(TimeDependentSabrParams::new(c(0.3), c(*rho), c(*nu), *b, *f0), surface(*f0, nodes), *seed).with_bins(*bins).simulate(*t, *n, *np);
        for s in &out { ensure!(s.forward >= 0.0 && s.forward.is_finite() && s.vol > 0.0 && s.vol.is_finite(), "state {s:?}"); }
        let hit = out.iter().any(|s| s.forward == 0.0);
        seen_as(hit, if hit { "absorbed" } else { "interior" })
    });
    s.prop("forward_stays_a_martingale", 12, 200, || (0.6f64..150.0, prop::collection::vec(0.05f64..0.25, 12), 0.3f64..1.0, -0.8f64..0.8, 0.2f64..1.0, any::<u64>()), |(f0, nodes, b, rho, nu, seed)| {
        let c = |v| PiecewiseConstant::constant(2.0, v);
        let p = TimeDependentSabrParams::new(c(0.2), c(*rho), c(*nu), *b, *f0);
        let n = 4000;
        let out = TimeDependentSabrSlvSimulator::new(p, surface(*f0, nodes), *seed).with_bins(25).simulate(1.2, 12, n);
        let m = out.iter().map(|s| s.forward).sum::<f64>() / n as f64;
        let sd = (out.iter().map(|s| (s.forward - m).powi(2)).sum::<f64>() / n as f64).sqrt();
        ensure!((m - f0).abs() < 6.5 * sd / (n as f64).sqrt(), "mean forward {m} from {f0} (standard deviation {sd})");
        ensure!(out.iter().all(|s| s.forward >= 0.0 && s.vol > 0.0), "negative state");
        // realised standard deviation is that of the local volatility's range
        let (lo, hi) = nodes.iter().fold((f64::MAX, 0.0f64), |a, x| (a.0.min(*x), a.1.max(*x)));
        let r = sd / f0 / 1.2f64.sqrt();
        ensure!(r > lo * 0.85 && r < hi * 1.25, "realised volatility {r} outside the local volatility's range [{lo}, {hi}]");
        seen(true)
    });
    s.prop("simulation_inputs", 60, 400, || (0u8..5, any::<u64>()), |(bad, seed)| {
        let c = |v| PiecewiseConstant::constant(2.0, v);
        let mk = || TimeDependentSabrSlvSimulator::new(TimeDependentSabrParams::new(c(0.2), c(0.1), c(0.4), 0.5, 1.0), surface(1.0, &[0.1]), *seed);
        let r = match bad {
            0 => guarded(|| { mk().with_bins(1); }),
            1 => guarded(|| { mk().with_bins(0); }),
            2 => guarded(|| { mk().simulate(1.0, 0, 5); }),
            3 => guarded(|| { mk().simulate(1.0, 5, 0); }),
            _ => guarded(|| { mk().simulate(-1.0, 5, 5); }),
        };
        ensure!(r.is_err(), "bad request {bad} accepted");
        ensure!(mk().simulate(1.0, 4, 6) == mk().simulate(1.0, 4, 6), "not a function of the seed");
        seen(true)
    });
}
/// E[vol² | F] over equal-count bins of the population.
fn conditional(st: &[SabrState], bins: usize) -> impl Fn(f64) -> f64 {
    let mut v: Vec<(f64, f64)> = st.iter().map(|s| (s.forward, s.vol * s.vol)).collect();
    v.sort_by(|a, b| a.0.total_cmp(&b.0));
    let size = v.len().div_ceil(bins);
    let out: Vec<(f64, f64)> = v.chunks(size).map(|c| (c[c.len() - 1].0, c.iter().map(|x| x.1).sum::<f64>() / c.len() as f64)).collect();
    move |f| out.iter().find(|(u, _)| f <= *u).unwrap_or(&out[out.len() - 1]).1
}
