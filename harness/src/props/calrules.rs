//! P01: every shipped calendar against an independently written rule interpreter (complete enumeration of dates).
use super::cals::*;
use super::time1::{easter_sunday, orthodox_sunday};
use super::util::*;
use crate::core::*;
use chrono::{Datelike, NaiveDate, Weekday};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const RULES: &str = include_str!("calrules.txt");
const GOLDEN: &str = include_str!("calgolden.txt");
pub const Y0: i32 = 1901;
pub const Y1: i32 = 2199;

/// Astronomical equinoxes and solstices (Meeus, Astronomical Algorithms, ch. 27), as local civil date-times.
const TERMS: [(f64, f64, f64); 24] = [
    (485., 324.96, 1934.136), (203., 337.23, 32964.467), (199., 342.08, 20.186), (182., 27.85, 445267.112),
    (156., 73.14, 45036.886), (136., 171.52, 22518.443), (77., 222.54, 65928.934), (74., 296.72, 3034.906),
    (70., 243.58, 9037.513), (58., 119.81, 33718.147), (52., 297.17, 150.678), (50., 21.02, 2281.226),
    (45., 247.54, 29929.562), (44., 325.15, 31555.956), (29., 60.93, 4443.417), (18., 155.12, 67555.328),
    (17., 288.79, 4562.452), (16., 198.04, 62894.029), (14., 199.76, 31436.921), (12., 95.39, 14577.848),
    (12., 287.11, 31931.756), (12., 320.81, 34777.259), (9., 227.73, 1222.114), (8., 15.45, 16859.074),
];
/// (day of month, minutes from the nearest local midnight). `which`: 0 March, 1 June, 2 September.
pub fn solar_day(y: i32, which: usize, hours: f64) -> (u32, f64) {
    let p = [
        [2451623.80984, 365242.37404, 0.05169, -0.00411, -0.00057],
        [2451716.56767, 365241.62603, 0.00325, 0.00888, -0.00030],
        [2451810.21715, 365242.01767, -0.11575, 0.00337, 0.00078],
    ][which];
    let yy = (y as f64 - 2000.0) / 1000.0;
    let j0: f64 = p.iter().enumerate().map(|(i, c)| c * yy.powi(i as i32)).sum();
    let t = (j0 - 2451545.0) / 36525.0;
    let w = (35999.373 * t - 2.47).to_radians();
    let dl = 1.0 + 0.0334 * w.cos() + 0.0007 * (2.0 * w).cos();
    let s: f64 = TERMS.iter().map(|(a, b, c)| a * (b + c * t).to_radians().cos()).sum();
    let yf = y as f64;
    let tt = yf - 2000.0;
    let delta_t = if y < 1920 {
        0.0
    } else if y < 1960 {
        30.0
    } else if y < 1986 {
        45.0
    } else if y < 2005 {
        60.0
    } else if y < 2050 {
        62.92 + 0.32217 * tt + 0.005589 * tt * tt
    } else if y < 2150 {
        -20.0 + 32.0 * ((yf - 1820.0) / 100.0).powi(2) - 0.5628 * (2150.0 - yf)
    } else {
        -20.0 + 32.0 * ((yf - 1820.0) / 100.0).powi(2)
    };
    let j = j0 + 0.00001 * s / dl - delta_t / 86400.0 + hours / 24.0;
    // JD 2451544.5 is 2000-01-01 00:00
    let days = j - 2451544.5;
    let d = add_days(ymd(2000, 1, 1), days.floor() as i64);
    let frac = days - days.floor();
    (d.day(), frac.min(1.0 - frac) * 1440.0)
}

#[derive(Default)]
struct Marks {
    closed: BTreeSet<NaiveDate>,
    open: BTreeSet<NaiveDate>,
    unsure: BTreeSet<NaiveDate>,
}
fn years_of(tok: &[&str]) -> impl Fn(i32) -> bool {
    let mut ranges = vec![];
    let mut not = vec![];
    let mut every = None;
    for t in tok.iter().filter_map(|t| t.strip_prefix('@')) {
        for part in t.split(',') {
            if let Some(y) = part.strip_prefix('!') {
                not.push(y.parse::<i32>().unwrap());
            } else if let Some(e) = part.strip_prefix('/') {
                let (n, y0) = e.split_once(':').unwrap();
                every = Some((n.parse::<i32>().unwrap(), y0.parse::<i32>().unwrap()));
            } else {
                let (a, b) = part.split_once('-').unwrap();
                ranges.push((a.parse().unwrap_or(i32::MIN), b.parse().unwrap_or(i32::MAX)));
            }
        }
    }
    move |y| {
        (ranges.is_empty() || ranges.iter().any(|(a, b)| *a <= y && y <= *b))
            && !not.contains(&y)
            && every.is_none_or(|(n, y0)| y >= y0 && (y - y0) % n == 0)
    }
}
fn md(s: &str) -> (u32, u32) {
    let (m, d) = s.split_once('/').unwrap();
    (m.parse().unwrap(), d.parse().unwrap())
}
fn full(s: &str) -> NaiveDate {
    let v: Vec<i32> = s.split('-').map(|x| x.parse().unwrap()).collect();
    ymd(v[0], v[1] as u32, v[2] as u32)
}
fn observe(d: NaiveDate, obs: &str, out: &mut BTreeSet<NaiveDate>) {
    out.insert(d);
    let wd = d.weekday();
    match (obs, wd) {
        ("sm" | "wm" | "fm" | "s12", Weekday::Sun) => {
            out.insert(add_days(d, 1));
            if obs == "s12" {
                out.insert(add_days(d, 2));
            }
        }
        ("wm", Weekday::Sat) => {
            out.insert(add_days(d, 2));
        }
        ("fm" | "f", Weekday::Sat) => {
            out.insert(add_days(d, -1));
        }
        ("p2", Weekday::Sat | Weekday::Sun) => {
            out.insert(add_days(d, 2));
        }
        _ => {}
    }
}
fn apply(sections: &HashMap<String, Vec<String>>, name: &str, m: &mut Marks) {
    for line in sections.get(name).unwrap_or_else(|| panic!("no rules for {name}")) {
        let (kind, rest) = line.split_once(' ').unwrap_or((line, ""));
        if kind == "R" {
            apply(sections, rest.trim(), m);
            continue;
        }
        let tok: Vec<&str> = rest.split_whitespace().collect();
        let yes = years_of(&tok);
        let bound = tok.iter().find_map(|t| t.strip_prefix("d>")).map_or(0, |x| x.parse::<u32>().unwrap());
        match kind {
            "D" => {
                m.closed.insert(full(tok[0]));
                continue;
            }
            "X" => {
                m.open.insert(full(tok[0]));
                continue;
            }
            _ => {}
        }
        for y in Y0 - 1..=Y1 + 1 {
            if !yes(y) {
                continue;
            }
            match kind {
                "F" => {
                    let (mo, d) = md(tok[0]);
                    let obs = tok.get(1).filter(|t| !t.starts_with('@')).copied().unwrap_or("");
                    observe(ymd(y, mo, d), obs, &mut m.closed);
                }
                "E" | "O" => {
                    let n: i64 = tok[0].parse().unwrap();
                    let e = if kind == "E" { easter_sunday(y) } else { orthodox_sunday(y) };
                    let d = add_days(e, n + 1);
                    if d.day() > bound {
                        m.closed.insert(d);
                    }
                }
                "W" | "L" => {
                    let mo: u32 = tok[0].parse().unwrap();
                    let (lo, hi) = if kind == "L" {
                        (last_dom(y, mo) - 6, last_dom(y, mo))
                    } else {
                        let (a, b) = tok[2].split_once('-').unwrap();
                        (a.parse().unwrap(), b.parse().unwrap())
                    };
                    for d in lo..=hi {
                        let dt = ymd(y, mo, d);
                        let w = &format!("{}", dt.weekday());
                        if tok[1] == "any" || tok[1].split(',').any(|x| x == w) {
                            m.closed.insert(dt);
                        }
                    }
                }
                "V" | "A" | "S" => {
                    let (mo, which) = if kind == "V" { (3, 0) } else { (9, 2) };
                    let (d, margin) = solar_day(y, which, 9.0);
                    let at = ymd(y, mo, d);
                    if y > 2100 && margin < 60.0 {
                        // ΔT is not known to the hour a century ahead: either neighbour is accepted
                        for k in -3..=3 {
                            m.unsure.insert(add_days(at, k));
                        }
                    }
                    if kind == "S" {
                        // between Respect-for-the-Aged Day (third Monday) and the equinox
                        let b = add_days(at, -1);
                        if b.weekday() == Weekday::Tue && (15..=21).contains(&(b.day() - 1)) {
                            m.closed.insert(b);
                        }
                    } else {
                        observe(at, "sm", &mut m.closed);
                    }
                }
                "J" => {
                    let d = if y == 2021 { 21 } else { solar_day(y, 1, -4.0).0 };
                    m.closed.insert(ymd(y, 6, d));
                }
                k => panic!("rule kind {k}"),
            }
        }
    }
}

pub fn sections() -> HashMap<String, Vec<String>> {
    let mut out: HashMap<String, Vec<String>> = HashMap::new();
    let mut cur = String::new();
    for l in RULES.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if let Some(n) = l.strip_prefix("= ") {
            cur = n.to_string();
            out.entry(cur.clone()).or_default();
        } else {
            out.get_mut(&cur).unwrap().push(l.to_string());
        }
    }
    out
}

// ---- Hebrew calendar -------------------------------------------------------------------------------------------
fn hebrew_elapsed(y: i64) -> i64 {
    let months = (235 * y - 234).div_euclid(19);
    let parts = 12084 + 13753 * months;
    let day = 29 * months + parts.div_euclid(25920);
    if (3 * (day + 1)) % 7 < 3 { day + 1 } else { day }
}
/// 1 Tishri of Hebrew year `y`.
pub fn rosh_hashana(y: i64) -> NaiveDate {
    let f = |y: i64| {
        let (a, b, c) = (hebrew_elapsed(y - 1), hebrew_elapsed(y), hebrew_elapsed(y + 1));
        b + if c - b == 356 { 2 } else if b - a == 382 { 1 } else { 0 }
    };
    add_days(ymd(2023, 9, 16), f(y) - f(5784))
}
/// Israeli closures for the Gregorian years the shipped table covers (2000-2050), from Hebrew calendar arithmetic.
fn israel(shir: bool, m: &mut Marks) {
    for y in 2000..=2050 {
        let rh = rosh_hashana(y as i64 + 3761);
        let passover = add_days(rh, -163);
        let purim = add_days(passover, -30);
        let shavuot = add_days(passover, 50);
        let mut av = add_days(passover, 112);
        if av.weekday() == Weekday::Sat {
            av = add_days(av, 1);
        }
        let mut ind = add_days(passover, 20);
        match ind.weekday() {
            Weekday::Fri => ind = add_days(ind, -1),
            Weekday::Sat => ind = add_days(ind, -2),
            Weekday::Mon if y >= 2004 => ind = add_days(ind, 1),
            _ => {}
        }
        let mut add = |d: NaiveDate, k: i64| {
            m.closed.insert(add_days(d, k));
        };
        add(purim, 0);
        add(passover, 0);
        add(passover, 6);
        add(ind, 0);
        add(shavuot, 0);
        add(av, 0);
        for k in [0, 1, 8, 9, 14, 21] {
            add(rh, k);
        }
        if shir {
            add(purim, 1);
            add(passover, -1);
            add(rh, -1);
        } else {
            if y <= 2020 {
                add(passover, -1);
                add(shavuot, -1);
            }
            if y <= 2019 {
                add(rh, -1);
            }
            add(passover, 5);
            add(ind, -1);
            add(rh, 13);
            add(rh, 20);
        }
    }
    if shir {
        for y in Y0..=Y1 {
            m.closed.insert(ymd(y, 1, 1));
            m.closed.insert(add_days(easter_sunday(y), -2));
            if y != 2022 {
                let d = (25..=31).map(|d| ymd(y, 5, d)).find(|d| d.weekday() == Weekday::Mon).unwrap();
                m.closed.insert(d);
            }
            m.closed.insert(ymd(y, 12, 25));
            m.closed.insert(ymd(y, 12, 26));
        }
        for (y, mo, d) in [(2024, 2, 27), (2022, 6, 3), (2022, 11, 1), (2023, 1, 2), (2023, 4, 10)] {
            m.closed.insert(ymd(y, mo, d));
        }
    }
}

pub const LISTED: [&str; 9] =
    ["China", "HongKong", "India", "Indonesia", "Singapore", "SouthKorea", "Taiwan", "Thailand", "Turkey"];

/// Golden table lines: `<calendar> <year>: d,d,d…` (ordinals of closed weekdays; +n: an open weekend day).
fn golden(name: &str, m: &mut Marks) {
    for l in GOLDEN.lines() {
        let Some((head, list)) = l.split_once(": ") else { continue };
        let (n, ys) = head.split_once(' ').unwrap();
        if n != name {
            continue;
        }
        for y in ys.split(',') {
            let y: i32 = y.parse().unwrap();
            for d in list.split(',').filter(|x| !x.is_empty()) {
                let (mo, dd) = md(d.trim_start_matches('+'));
                if d.starts_with('+') {
                    m.open.insert(ymd(y, mo, dd));
                } else {
                    m.closed.insert(ymd(y, mo, dd));
                }
            }
        }
    }
}
/// Regenerates the golden table from the tree (used once, after review).
pub fn dump_golden() {
    for (name, c) in shipped() {
        if !LISTED.contains(&name) {
            continue;
        }
        let mut by: BTreeMap<String, Vec<i32>> = BTreeMap::new();
        for y in Y0..=Y1 {
            let mut v = vec![];
            let mut d = ymd(y, 1, 1);
            while d.year() == y {
                let we = matches!(d.weekday(), Weekday::Sat | Weekday::Sun);
                let b = c.is_business_day(d);
                if !we && !b {
                    v.push(format!("{}/{}", d.month(), d.day()));
                }
                if we && b {
                    v.push(format!("+{}/{}", d.month(), d.day()));
                }
                d = d.succ_opt().unwrap();
            }
            by.entry(v.join(",")).or_default().push(y);
        }
        let mut rows: Vec<(Vec<i32>, String)> = by.into_iter().map(|(k, v)| (v, k)).collect();
        rows.sort();
        for (ys, k) in rows {
            println!("{name} {}: {k}", ys.iter().map(|y| y.to_string()).collect::<Vec<_>>().join(","));
        }
    }
}

fn marks(name: &str, sec: &HashMap<String, Vec<String>>) -> Marks {
    let mut m = Marks::default();
    match name {
        "Israel" | "Israel/Shir" => israel(true, &mut m),
        "Israel/TelAviv" => israel(false, &mut m),
        n if LISTED.contains(&n) => golden(n, &mut m),
        n => apply(sec, n, &mut m),
    }
    m
}

/// First date of year `y` on which the calendar and the rules disagree.
fn disagreement(c: &dyn finquant::time::calendars::Calendar, m: &Marks, y: i32) -> Option<(NaiveDate, bool)> {
    let mut d = ymd(y, 1, 1);
    while d.year() == y {
        if !m.unsure.contains(&d) {
            let weekend = matches!(d.weekday(), Weekday::Sat | Weekday::Sun);
            let want = m.open.contains(&d) || (!weekend && !m.closed.contains(&d));
            if c.is_business_day(d) != want || c.is_holiday(d) == want {
                return Some((d, want));
            }
        }
        d = d.succ_opt().unwrap();
    }
    None
}

pub fn p01(s: &mut Suite) {
    s.rule("a case is one calendar variant and one year, every date of which is compared; non-trivial when the year has at least one weekday closure");
    s.assume("markets whose holidays are announced as lists (China, Hong Kong, India, Indonesia, Singapore, South Korea, Taiwan, Thailand, Turkey) are compared with pinned tables");
    s.assume("Japanese equinox holidays after 2100 whose equinox falls within an hour of midnight are not judged");
    s.exhaustive = true;
    let sec = sections();
    let tables: HashMap<String, Marks> = shipped().iter().map(|(n, _)| (n.to_string(), marks(n, &sec))).collect();
    let pinned: HashMap<String, Marks> = ["France/Settlement", "France"]
        .iter()
        .map(|n| (n.to_string(), marks(&format!("{n} as pinned"), &sec)))
        .collect();
    let mut all = vec![];
    for (n, _) in shipped() {
        for y in Y0..=Y1 {
            all.push((n.to_string(), y));
        }
    }
    s.enumerate("holidays_by_rule", all, move |(name, y)| {
        let c = shipped().into_iter().find(|(n, _)| n == name).unwrap().1;
        let m = &tables[name.as_str()];
        let nontrivial = m.closed.iter().any(|d| d.year() == *y && !matches!(d.weekday(), Weekday::Sat | Weekday::Sun));
        match disagreement(c.as_ref(), m, *y) {
            None => seen(nontrivial),
            Some((d, want)) => {
                if let Some(p) = pinned.get(name.as_str())
                    && disagreement(c.as_ref(), p, *y).is_none()
                {
                    return Err(known(
                        "France/Settlement:fixed-dates-for-ascension-and-whit-monday",
                        format!("{name} closes on 10 and 21 May instead of Ascension Day and Whit Monday (first in {d})"),
                    ));
                }
                Err(format!(
                    "{name}: {d} ({}) is {} by the market's rules but the calendar says otherwise",
                    d.weekday(),
                    if want { "a business day" } else { "a holiday" }
                )
                .into())
            }
        }
    });
}
