//! numeric conversions and vector helpers
use measures_core::{safe_convert, safe_convert_or, safe_float_convert, float_constant};
use measures_core::traits::dot_product::array_sub;
pub fn root_c24_ff(a: f64) -> f64 { safe_convert::<f64, f64>(a) }
pub fn root_c24_uf(k: u64) -> f64 { safe_convert::<u64, f64>(k) }
pub fn root_c24_if(k: i64) -> f64 { safe_convert::<i64, f64>(k) }
pub fn root_c24_fu(a: f64) -> u64 { safe_convert::<f64, u64>(a) }
pub fn root_c24_fi(a: f64) -> i64 { safe_convert::<f64, i64>(a) }
pub fn root_c24_fu32(a: f64) -> u32 { safe_convert::<f64, u32>(a) }
pub fn root_c24_uu(k: u64) -> u64 { safe_convert::<u64, u64>(k) }
pub fn root_c24_iu(k: i64) -> u64 { safe_convert::<i64, u64>(k) }
pub fn root_c24_or_ff(a: f64, b: f64) -> f64 { safe_convert_or::<f64, f64>(a, b) }
pub fn root_c24_or_fu(a: f64, b: u64) -> u64 { safe_convert_or::<f64, u64>(a, b) }
pub fn root_c24_or_iu32(a: i64, b: u32) -> u32 { safe_convert_or::<i64, u32>(a, b) }
pub fn root_c24_fconv(a: f64) -> Result<f64, &'static str> { safe_float_convert::<f64, f64>(a) }
pub fn root_c24_const(a: f64) -> f64 { float_constant::<f64>(a) }
pub fn root_c24_sub1(a: [f64; 1], b: [f64; 1]) -> [f64; 1] { array_sub(a, b) }
pub fn root_c24_sub2(a: [f64; 2], b: [f64; 2]) -> [f64; 2] { array_sub(a, b) }
pub fn root_c24_sub5(a: [f64; 5], b: [f64; 5]) -> [f64; 5] { array_sub(a, b) }
pub fn root_c24_inf(neg: bool, b: f64, k: u64) -> (f64, f64, u64, u64, f64, f64) {
    let a = if neg { f64::NEG_INFINITY } else { f64::INFINITY };
    (safe_convert::<f64, f64>(a), safe_convert_or::<f64, f64>(a, b), safe_convert::<f64, u64>(a), safe_convert_or::<f64, u64>(a, k), float_constant::<f64>(a), safe_float_convert::<f64, f64>(a).unwrap_or(b))
}
pub fn root_c24_nan(b: f64, k: u64) -> (f64, f64, u64, u64, f64, f64) {
    let a = f64::NAN;
    (safe_convert::<f64, f64>(a), safe_convert_or::<f64, f64>(a, b), safe_convert::<f64, u64>(a), safe_convert_or::<f64, u64>(a, k), float_constant::<f64>(a), safe_float_convert::<f64, f64>(a).unwrap_or(b))
}
