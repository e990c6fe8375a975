//! Transfer curves, from their standards (constants as in the CICP tables).
use zune_core::colorspace::ColorCharacteristics as T;
pub fn linear(t: T, v: f64) -> f64 {
    let v = v.clamp(0.0, 1.0);
    let rec = |v: f64, k: f64| if v < k * 0.018053968510807 { v / k } else { ((v + 0.09929682680944) / 1.09929682680944).powf(1.0 / 0.45) };
    match t {
        T::sRGB => if v < 12.92 * 0.0030412825601275209 { v / 12.92 } else { ((v + 0.0550107189475866) / 1.0550107189475866).powf(2.4) },
        T::Rec709 | T::Bt1361 | T::Iec61966 => rec(v, 4.5),
        T::Gamma2p2 => v.powf(2.2),
        T::Gamma2p8 => v.powf(2.8),
        T::Smpte428 => v.powf(2.6) / 0.91655527974030934,
        T::Smpte240 => if v < 4.0 * 0.022821585529445 { v / 4.0 } else { ((v + 0.111572195921731) / 1.111572195921731).powf(1.0 / 0.45) },
        T::Log100 => if v <= 0.0 { 0.005 } else { 10f64.powf(2.0 * (v - 1.0)) },
        T::Log100Sqrt10 => if v <= 0.0 { 0.00316227766 / 2.0 } else { 10f64.powf(2.5 * (v - 1.0)) },
        T::Linear => v
    }
}
pub fn gamma_of(t: T, v: f64) -> f64 {
    // these two have values outside
    let (lo, hi) = match t {
        T::Smpte428 => (0.0, f64::INFINITY),
        T::Iec61966 => (f64::NEG_INFINITY, f64::INFINITY),
        T::Bt1361 => (-0.25, 1.0),
        _ => (0.0, 1.0)
    };
    let v = v.clamp(lo, hi);
    match t {
        T::Bt1361 if v < -0.018053968510807 / 4.0 => -0.27482420670236 * (-4.0 * v).powf(0.45) + 0.02482420670236,
        T::Iec61966 if v < -0.018053968510807 => 0.09929682680944 - 1.09929682680944 * (-v).powf(0.45),
        T::sRGB => if v < 0.0030412825601275209 { v * 12.92 } else { 1.0550107189475866 * v.powf(1.0 / 2.4) - 0.0550107189475866 },
        T::Rec709 | T::Bt1361 | T::Iec61966 => if v < 0.018053968510807 { v * 4.5 } else { 1.09929682680944 * v.powf(0.45) - 0.09929682680944 },
        T::Gamma2p2 => v.powf(1.0 / 2.2),
        T::Gamma2p8 => v.powf(1.0 / 2.8),
        T::Smpte428 => (0.91655527974030934 * v).powf(1.0 / 2.6),
        T::Smpte240 => if v < 0.022821585529445 { v * 4.0 } else { 1.111572195921731 * v.powf(0.45) - 0.111572195921731 },
        T::Log100 => if v <= 0.01 { 0.0 } else { 1.0 + v.log10() / 2.0 },
        T::Log100Sqrt10 => if v <= 0.00316227766 { 0.0 } else { 1.0 + v.log10() / 2.5 },
        T::Linear => v
    }
}
pub const CURVES: [T; 11] = [T::sRGB, T::Rec709, T::Gamma2p2, T::Gamma2p8, T::Smpte428, T::Log100, T::Log100Sqrt10, T::Bt1361, T::Smpte240, T::Iec61966, T::Linear];
