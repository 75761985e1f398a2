use crate::core::*;
#[cfg(any(feature = "p25", feature = "p26"))]
pub mod cir_hw;
#[cfg(any(feature = "p23", feature = "p24"))]
pub mod mathp;
#[cfg(any(feature = "p10", feature = "p11"))]
#[allow(dead_code)]
pub mod daycount;
#[cfg(feature = "p31")]
pub mod sim;
#[cfg(feature = "p01")]
pub mod calrules;
#[cfg(any(feature = "p01", feature = "p02", feature = "p03", feature = "p04", feature = "p05", feature = "p06", feature = "p07", feature = "p08", feature = "p09"))]
pub mod time1;
#[cfg(any(feature = "p01", feature = "p02", feature = "p03", feature = "p04", feature = "p05", feature = "p06", feature = "p07", feature = "p08", feature = "p09", feature = "p10", feature = "p11"))]
pub mod cals;
#[allow(dead_code)]
#[cfg(any(feature = "p11", feature = "p12", feature = "p13", feature = "p14", feature = "p15", feature = "p16", feature = "p17", feature = "p18", feature = "p19", feature = "p20", feature = "p21", feature = "p22", feature = "p28", feature = "p29", feature = "p30", feature = "p36"))]
pub mod mkt;
#[cfg(any(feature = "p17", feature = "p18", feature = "p19", feature = "p36"))]
pub mod curve;
#[allow(dead_code)]
#[cfg(any(feature = "p11", feature = "p12", feature = "p13", feature = "p14", feature = "p15", feature = "p16", feature = "p28", feature = "p29", feature = "p30"))]
pub mod fx;
#[allow(dead_code)]
#[cfg(any(feature = "p11", feature = "p20", feature = "p21", feature = "p22"))]
pub mod ir;
#[cfg(feature = "p11")]
pub mod serial;
#[cfg(any(feature = "p27", feature = "p32", feature = "p33", feature = "p34", feature = "p35"))]
#[allow(dead_code)]
pub mod cosp;
#[cfg(any(feature = "p28", feature = "p29", feature = "p30"))]
#[allow(dead_code)]
pub mod sabr;
#[cfg(feature = "p29")]
pub mod sabrtd;
#[cfg(feature = "p30")]
pub mod lvol;
#[cfg(any(feature = "p32", feature = "p33", feature = "p34", feature = "p35"))]
#[allow(dead_code)]
pub mod hhw;
#[cfg(any(feature = "p33", feature = "p34", feature = "p35"))]
#[allow(dead_code)]
pub mod hlmm;
#[cfg(any(feature = "p34", feature = "p35"))]
#[allow(dead_code)]
pub mod fmm;
#[cfg(feature = "p35")]
pub mod calib;
#[allow(dead_code)]
pub mod util;

pub fn register(s: &mut Suite) -> bool {
    match s.pid.as_str() {
        #[cfg(feature = "p01")]
        "P01" => calrules::p01(s),
        #[cfg(feature = "p02")]
        "P02" => time1::p02(s),
        #[cfg(feature = "p03")]
        "P03" => time1::p03(s),
        #[cfg(feature = "p04")]
        "P04" => time1::p04(s),
        #[cfg(feature = "p05")]
        "P05" => time1::p05(s),
        #[cfg(feature = "p06")]
        "P06" => time1::p06(s),
        #[cfg(feature = "p07")]
        "P07" => time1::p07(s),
        #[cfg(feature = "p08")]
        "P08" => time1::p08(s),
        #[cfg(feature = "p09")]
        "P09" => time1::p09(s),
        #[cfg(feature = "p10")]
        "P10" => daycount::p10(s),
        #[cfg(feature = "p11")]
        "P11" => serial::p11(s),
        #[cfg(feature = "p12")]
        "P12" => fx::p12(s),
        #[cfg(feature = "p13")]
        "P13" => fx::p13(s),
        #[cfg(feature = "p14")]
        "P14" => fx::p14(s),
        #[cfg(feature = "p15")]
        "P15" => fx::p15(s),
        #[cfg(feature = "p16")]
        "P16" => fx::p16(s),
        #[cfg(feature = "p17")]
        "P17" => curve::p17(s),
        #[cfg(feature = "p18")]
        "P18" => curve::p18(s),
        #[cfg(feature = "p19")]
        "P19" => curve::p19(s),
        #[cfg(feature = "p20")]
        "P20" => ir::p20(s),
        #[cfg(feature = "p21")]
        "P21" => ir::p21(s),
        #[cfg(feature = "p22")]
        "P22" => ir::p22(s),
        #[cfg(feature = "p33")]
        "P33" => hlmm::p33(s),
        #[cfg(feature = "p34")]
        "P34" => fmm::p34(s),
        #[cfg(feature = "p35")]
        "P35" => calib::p35(s),
        #[cfg(feature = "p36")]
        "P36" => curve::p36(s),
        #[cfg(feature = "p23")]
        "P23" => mathp::p23(s),
        #[cfg(feature = "p24")]
        "P24" => mathp::p24(s),
        #[cfg(feature = "p31")]
        "P31" => sim::p31(s),
        #[cfg(feature = "p25")]
        "P25" => cir_hw::p25(s),
        #[cfg(feature = "p26")]
        "P26" => cir_hw::p26(s),
        #[cfg(feature = "p27")]
        "P27" => cosp::p27(s),
        #[cfg(feature = "p28")]
        "P28" => sabr::p28(s),
        #[cfg(feature = "p29")]
        "P29" => sabrtd::p29(s),
        #[cfg(feature = "p30")]
        "P30" => lvol::p30(s),
        #[cfg(feature = "p32")]
        "P32" => hhw::p32(s),
        _ => return false,
    }
    #[allow(unreachable_code)]
    true
}
