use super::util::*;
use crate::core::*;
use crate::ensure;
use chrono::NaiveDate;
use finquant::models::common::simulation::*;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use proptest::prelude::*;

fn dc(k: u8) -> Box<dyn DayCounters> {
    match k {
        0 => Box::new(Actual365Fixed::default()),
        1 => Box::new(Actual360),
        2 => Box::new(Thirty360::new(Thirty360Market::ISMA)),
        3 => Box::new(Thirty360::new(Thirty360Market::European)),
        _ => Box::new(ActualActual { market: Some(ActualActualMarket::Isda) }),
    }
}

/// Logs every step it is asked to take; the state is (path tag, steps so far).
struct Recorder {
    calls: u64,
    log: Vec<(u64, f64, f64)>,
}
#[derive(Clone, Debug, PartialEq)]
struct RState(Vec<(u64, f64, f64)>);
impl SimulationModel for Recorder {
    type State = RState;
    fn initial_state(&self) -> RState {
        RState(vec![])
    }
    fn step(&mut self, s: &RState, t: f64, dt: f64) -> RState {
        self.calls += 1;
        let mut v = s.0.clone();
        v.push((self.calls, t, dt));
        self.log.push((self.calls, t, dt));
        RState(v)
    }
}

pub fn p31(s: &mut Suite) {
    s.rule("A case is one (valuation date, observation schedule, step cap, day count, path count) or one process with states, steps and seed; non-trivial when some observation is reached by more than one step or noise is drawn.");
    s.prop("runner_grid_and_capture", 4000, 60000, || (edgy_date(1995, 2060), prop::collection::vec(prop_oneof![6 => 1i64..40, 4 => 1i64..900, 2 => 1i64..4, 1 => 900i64..20000], 1..10), prop_oneof![Just(1u32), 2u32..35, 35u32..700], 0u8..5, 1usize..4), |(val, gaps, cap, dck, np)| {
        // long horizons in steps long enough to keep the record of a path short
        let obs: Vec<NaiveDate> = gaps.iter().map(|g| add_days(*val, (*g).min((900 + 300 * (*cap as i64 - 1)).min(20000)))).collect();
        let d = dc(*dck);
        let mut m = Recorder { calls: 0, log: vec![] };
        let out = simulate_at_dates(&mut m, *val, &obs, *np, *cap, &*d);
        let mut so = obs.clone();
        so.sort();
        ensure!(out.valuation_date == *val && out.observation_dates == so, "dates reported {:?}", out.observation_dates);
        ensure!(out.n_paths() == *np && out.paths.len() == *np, "path count");
        let yf = |x: NaiveDate| d.year_fraction(*val, x).unwrap();
        let mut multi = false;
        let mut prev_last = 0u64;
        let mut shape: Option<Vec<(f64, f64)>> = None;
        for p in &out.paths {
            ensure!(p.len() == so.len(), "a path has {} snapshots for {} observations", p.len(), so.len());
            let full = &p[p.len() - 1].0;
            let mut at = 0.0;
            let mut bounds = vec![0.0];
            for (i, (call, t, dt)) in full.iter().enumerate() {
                ensure!(*call == prev_last + i as u64 + 1, "the model was stepped out of order or between paths");
                ensure!(*dt > 0.0, "non-positive step {dt}");
                ensure!(*t >= at - 1e-12 && *t <= at + 0.5 * dt + 1e-12, "step starting at {at} of length {dt} was given time {t}");
                at += dt;
                bounds.push(at);
                if *dck == 0 {
                    ensure!(dt * 365.0 <= *cap as f64 + 1e-9, "step of {} days exceeds the cap {cap}", dt * 365.0);
                }
                if *dck == 1 {
                    ensure!(dt * 360.0 <= *cap as f64 + 1e-9, "step of {} days exceeds the cap {cap}", dt * 360.0);
                }
                ensure!(*dt <= (*cap as f64 + 3.0) / 360.0 + 1e-9, "step {dt} exceeds the cap");
            }
            prev_last += full.len() as u64;
            for (o, st) in so.iter().zip(p) {
                let n = st.0.len();
                ensure!(st.0[..] == full[..n], "a snapshot is not a prefix of its own path");
                near("elapsed time at an observation", bounds[n], yf(*o), 1e-12, 1e-12)?;
                multi |= n > 1;
            }
            let sh: Vec<(f64, f64)> = full.iter().map(|x| (x.1, x.2)).collect();
            if let Some(prev) = &shape { ensure!(*prev == sh, "paths use different grids"); }
            shape = Some(sh);
        }
        ensure!(m.calls == prev_last, "the model was stepped beyond the last observation");
        for (i, o) in so.iter().enumerate() {
            let st = out.states_at(*o).ok_or("an observation date is not found")?;
            ensure!(st.len() == *np, "states_at length");
            for (k, x) in st.iter().enumerate() { ensure!(*x == out.paths[k][i], "states_at differs from the path"); }
            let sm = out.sample(*o, |x| x.0.len() as f64).ok_or("sample not found")?;
            ensure!(sm.iter().zip(&out.paths).all(|(a, p)| *a == p[i].0.len() as f64), "sample differs from the path");
            let miss = add_days(*o, 1);
            if !so.contains(&miss) { ensure!(out.states_at(miss).is_none() && out.sample(miss, |_| 0.0).is_none(), "found a date that was not observed"); }
        }
        seen_as(multi, format!("daycount {dck}"))
    });
    s.prop("runner_rejects_bad_requests", 200, 2000, || (any_date(2000, 2040), 0i64..400), |(val, back)| {
        let d = Actual365Fixed::default();
        let mut m = Recorder { calls: 0, log: vec![] };
        let good = add_days(*val, 10);
        ensure!(guarded(|| simulate_at_dates(&mut m, *val, &[good, add_days(*val, -back)], 1, 5, &d)).is_err(), "accepted an observation on or before the valuation date");
        ensure!(guarded(|| simulate_at_dates(&mut m, *val, &[], 1, 5, &d)).is_err(), "accepted no observations");
        ensure!(guarded(|| simulate_at_dates(&mut m, *val, &[good], 0, 5, &d)).is_err(), "accepted zero paths");
        ensure!(guarded(|| simulate_at_dates(&mut m, *val, &[good], 1, 0, &d)).is_err(), "accepted a zero step");
        seen(true)
    });
    s.prop("brownian_laws", 300, 5000, || ((-0.5f64..0.5, 0.01f64..2.0, 0.2f64..200.0), prop_oneof![3 => 0.001f64..2.0, 1 => 2.0f64..8.0, 1 => (-14.0f64..-7.0).prop_map(f64::exp)], any::<u64>()), |((mu, vol, x0), dt, seed)| {
        let mk = |sd: u64| BrownianMotion::new(sd).with_drift(*mu).with_volatility(*vol).with_initial(*x0);
        let (mut a, mut b, mut z) = (mk(*seed), mk(*seed), BrownianMotion::new(*seed));
        let (mut g, mut h) = (GeometricBrownianMotion::new(*x0, *mu, *vol, *seed), GeometricBrownianMotion::new(*x0, *mu, *vol, *seed));
        ensure!(a.initial_state() == *x0 && g.initial_state() == *x0 && z.initial_state() == 0.0, "initial states");
        let dt2 = dt * 0.3;
        let mut zs = vec![];
        for i in 0..1000 {
            let x = x0 * (1.0 + 0.01 * (i % 9) as f64);
            let w = z.step(&0.5, 0.0, *dt) - 0.5;
            let n = w / dt.sqrt();
            near("BM step", a.step(&x, i as f64, *dt), x + mu * dt + vol * dt.sqrt() * n, 1e-12, 1e-12)?;
            near("BM step, shorter", b.step(&x, 0.0, dt2), x + mu * dt2 + vol * dt2.sqrt() * n, 1e-12, 1e-12)?;
            near("GBM step", g.step(&x, i as f64, *dt), x * ((mu - 0.5 * vol * vol) * dt + vol * dt.sqrt() * n).exp(), 1e-11, 0.0)?;
            near("GBM step, shorter", h.step(&x, 0.0, dt2), x * ((mu - 0.5 * vol * vol) * dt2 + vol * dt2.sqrt() * n).exp(), 1e-11, 0.0)?;
            zs.push(vec![n]);
        }
        check_normals(&zs, &[vec![1.0]])?;
        // successive draws are not repeated or alternating
        let ac: f64 = zs.windows(2).map(|w| w[0][0] * w[1][0]).sum::<f64>() / zs.len() as f64;
        ensure!(ac.abs() < 6.5 / (zs.len() as f64).sqrt(), "serial correlation {ac}");
        seen(true)
    });
    s.prop("seed_determinism", 500, 8000, || (any_date(2000, 2040), prop::collection::vec(1i64..400, 1..5), 1u32..60, any::<u64>(), any::<u64>(), 1usize..5), |(val, gaps, cap, s1, s2, np)| {
        let obs: Vec<NaiveDate> = gaps.iter().map(|g| add_days(*val, *g)).collect();
        let d = Actual365Fixed::default();
        let run = |sd: u64| simulate_at_dates(&mut BrownianMotion::new(sd).with_volatility(0.3), *val, &obs, *np, *cap, &d).paths;
        let rung = |sd: u64| simulate_at_dates(&mut GeometricBrownianMotion::new(1.3, 0.02, 0.3, sd), *val, &obs, *np, *cap, &d).paths;
        ensure!(run(*s1) == run(*s1) && rung(*s1) == rung(*s1), "the same seed gave different paths");
        if s1 != s2 {
            ensure!(run(*s1) != run(*s2) && rung(*s1) != rung(*s2), "different seeds gave the same paths");
        }
        let p = run(*s1);
        for i in 1..p.len() { ensure!(p[i] != p[0], "two paths are identical"); }
        seen(true)
    });
}
