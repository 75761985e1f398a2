//! Every shipped calendar and market variant, plus synthetic calendars with arbitrary holiday sets.
use super::util::*;
use chrono::{Datelike, NaiveDate};
use finquant::time::calendars::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn shipped() -> Vec<(&'static str, Box<dyn Calendar>)> {
    use finquant::time::calendars as k;
    macro_rules! v { ($n:expr, $t:ident, $m:expr) => { ($n, Box::new($t { market: $m }) as Box<dyn Calendar>) }; }
    macro_rules! u { ($t:ident) => { (stringify!($t), Box::new($t) as Box<dyn Calendar>) }; }
    vec![
        u!(Argentina), u!(Botswana), u!(Chile), u!(China), u!(CzechRepublic), u!(Denmark), u!(Finland), u!(HongKong), u!(Hungary),
        u!(Iceland), u!(India), u!(Indonesia), u!(Japan), u!(Mexico), u!(Norway), u!(Romania), u!(Singapore), u!(Slovakia),
        u!(SouthAfrica), u!(SouthKorea), u!(Sweden), u!(Switzerland), u!(Taiwan), u!(Target), u!(Thailand), u!(Turkey), u!(Ukraine), u!(WeekendsOnly),
        v!("Australia", Australia, None),
        v!("Australia/Settlement", Australia, Some(k::australia::AustraliaMarket::Settlement)),
        v!("Australia/ASX", Australia, Some(k::australia::AustraliaMarket::ASX)),
        v!("Austria", Austria, None),
        v!("Austria/Settlement", Austria, Some(k::austria::AustriaMarket::Settlement)),
        v!("Austria/Exchange", Austria, Some(k::austria::AustriaMarket::Exchange)),
        v!("Brazil", Brazil, None),
        v!("Brazil/Settlement", Brazil, Some(k::brazil::BrazilMarket::Settlement)),
        v!("Brazil/Exchange", Brazil, Some(k::brazil::BrazilMarket::Exchange)),
        v!("Canada", Canada, None),
        v!("Canada/Settlement", Canada, Some(k::canada::CanadaMarket::Settlement)),
        v!("Canada/TSX", Canada, Some(k::canada::CanadaMarket::TSX)),
        v!("France", France, None),
        v!("France/Settlement", France, Some(k::france::FranceMarket::Settlement)),
        v!("France/Exchange", France, Some(k::france::FranceMarket::Exchange)),
        v!("Germany", Germany, None),
        v!("Germany/Settlement", Germany, Some(k::germany::GermanyMarket::Settlement)),
        v!("Germany/FrankfurtStockExchange", Germany, Some(k::germany::GermanyMarket::FrankfurtStockExchange)),
        v!("Germany/Xetra", Germany, Some(k::germany::GermanyMarket::Xetra)),
        v!("Germany/Eurex", Germany, Some(k::germany::GermanyMarket::Eurex)),
        v!("Germany/Euwax", Germany, Some(k::germany::GermanyMarket::Euwax)),
        v!("Israel", Israel, None),
        v!("Israel/TelAviv", Israel, Some(k::israel::IsraelMarket::TelAviv)),
        v!("Israel/Shir", Israel, Some(k::israel::IsraelMarket::Shir)),
        v!("Italy", Italy, None),
        v!("Italy/Settlement", Italy, Some(k::italy::ItalyMarket::Settlement)),
        v!("Italy/Exchange", Italy, Some(k::italy::ItalyMarket::Exchange)),
        v!("NewZealand", NewZealand, None),
        v!("NewZealand/Wellington", NewZealand, Some(k::newzealand::NewZealandMarket::Wellington)),
        v!("NewZealand/Auckland", NewZealand, Some(k::newzealand::NewZealandMarket::Auckland)),
        v!("Poland", Poland, None),
        v!("Poland/Settlement", Poland, Some(k::poland::PolandMarket::Settlement)),
        v!("Poland/WSE", Poland, Some(k::poland::PolandMarket::WSE)),
        v!("Russia", Russia, None),
        v!("Russia/Settlement", Russia, Some(k::russia::RussiaMarket::Settlement)),
        v!("Russia/Exchange", Russia, Some(k::russia::RussiaMarket::Exchange)),
        v!("UnitedKingdom", UnitedKingdom, None),
        v!("UnitedKingdom/Settlement", UnitedKingdom, Some(k::unitedkingdom::UnitedKingdomMarket::Settlement)),
        v!("UnitedKingdom/Exchange", UnitedKingdom, Some(k::unitedkingdom::UnitedKingdomMarket::Exchange)),
        v!("UnitedKingdom/Metals", UnitedKingdom, Some(k::unitedkingdom::UnitedKingdomMarket::Metals)),
        v!("UnitedStates", UnitedStates, None),
        v!("UnitedStates/Settlement", UnitedStates, Some(k::unitedstates::UnitedStatesMarket::Settlement)),
        v!("UnitedStates/Libor", UnitedStates, Some(k::unitedstates::UnitedStatesMarket::Libor)),
        v!("UnitedStates/NYSE", UnitedStates, Some(k::unitedstates::UnitedStatesMarket::NYSE)),
        v!("UnitedStates/GovernmentBond", UnitedStates, Some(k::unitedstates::UnitedStatesMarket::GovernmentBond)),
        v!("UnitedStates/SOFR", UnitedStates, Some(k::unitedstates::UnitedStatesMarket::SOFR)),
        v!("UnitedStates/NERC", UnitedStates, Some(k::unitedstates::UnitedStatesMarket::NERC)),
        v!("UnitedStates/FederalReserve", UnitedStates, Some(k::unitedstates::UnitedStatesMarket::FederalReserve)),
    ]
}

/// Arbitrary closed days: a weekend mask, scattered holidays and closure clusters, all deterministic.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Synthetic {
    pub weekend: u8,
    pub seed: u64,
    pub density: u8, // holidays per 64 days
    pub clusters: Vec<(NaiveDate, u8)>,
}
impl Synthetic {
    pub fn closed(&self, d: NaiveDate) -> bool {
        if self.weekend >> d.weekday().num_days_from_monday() & 1 == 1 {
            return true;
        }
        if self.clusters.iter().any(|(s, n)| {
            let k = (d - *s).num_days();
            k >= 0 && k < *n as i64
        }) {
            return true;
        }
        let mut h = self.seed ^ (d.num_days_from_ce() as u64).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 31;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 29;
        (h % 64) < self.density as u64
    }
}
#[typetag::serde(name = "FqcheckSynthetic")]
impl Calendar for Synthetic {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        !self.closed(date)
    }
}

/// A generated calendar: shipped (by index), synthetic, or a joint of such.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cal {
    Shipped(usize),
    Syn(Synthetic),
    Joint(Vec<Cal>),
}
impl Cal {
    pub fn make(&self) -> Box<dyn Calendar> {
        match self {
            Cal::Shipped(i) => {
                let mut all = shipped();
                let k = i % all.len();
                all.swap_remove(k).1
            }
            Cal::Syn(s) => Box::new(s.clone()),
            Cal::Joint(v) => Box::new(JointCalendar::new(v.iter().map(|c| c.make()).collect())),
        }
    }
    /// The oracle's own notion of the joint holiday set (members' own answers, unions taken here).
    pub fn closed_by_members(&self, members: &[Box<dyn Calendar>], d: NaiveDate) -> bool {
        members.iter().any(|m| !m.is_business_day(d))
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Cal::Shipped(_) => "shipped",
            Cal::Syn(_) => "synthetic",
            Cal::Joint(_) => "joint",
        }
    }
}
pub fn synthetic(around: NaiveDate) -> impl Strategy<Value = Synthetic> {
    (
        prop_oneof![3 => Just(0b1100000u8), 1 => Just(0u8), 1 => Just(0b0110000u8), 1 => Just(0b1000000u8)],
        any::<u64>(),
        prop_oneof![2 => 0u8..3, 1 => 3u8..25],
        prop::collection::vec((-70i64..70, 1u8..12), 0..4),
    )
        .prop_map(move |(weekend, seed, density, cl)| Synthetic {
            weekend,
            seed,
            density,
            clusters: cl.into_iter().map(|(o, n)| (add_days(around, o), n)).collect(),
        })
}
pub fn n_shipped() -> usize {
    76
}
pub fn cal(around: NaiveDate) -> BoxedStrategy<Cal> {
    prop_oneof![
        3 => (0..n_shipped()).prop_map(Cal::Shipped),
        4 => synthetic(around).prop_map(Cal::Syn),
        1 => prop::collection::vec(prop_oneof![(0..n_shipped()).prop_map(Cal::Shipped), synthetic(around).prop_map(Cal::Syn)], 0..4).prop_map(Cal::Joint),
    ]
    .boxed()
}
pub fn shipped_cal() -> BoxedStrategy<Cal> {
    (0..n_shipped()).prop_map(Cal::Shipped).boxed()
}
