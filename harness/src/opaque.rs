// arbitrary component measures: the verifier sees the two functions below only through a contract that
// leaves them uninterpreted (any value, possibly -inf); the bodies serve the companion runs
use measures_core::*;
use measures_core::primitive::lebesgue::LebesgueMeasure;
use measures_core::primitive::counting::CountingMeasure;
#[inline(never)]
pub fn opq_ld(k: u64, p: f64, x: f64) -> f64 { if x < p - 3.0 { f64::NEG_INFINITY } else { (x * 0.7 + p).sin() * (1.0 + k as f64) - 0.1 * (x - p) * (x - p) } }
#[inline(never)]
pub fn opq_supp(k: u64, p: f64, x: f64) -> bool { x >= p - 3.0 }
#[derive(Clone)]
pub struct Opq<const K: u64>(pub f64);
impl<const K: u64> MeasureMarker for Opq<K> { type IsPrimitive = False; type IsExponentialFamily = False; }
impl<const K: u64> Measure<f64> for Opq<K> {
    type RootMeasure = LebesgueMeasure<f64>;
    fn in_support(&self, x: f64) -> bool { opq_supp(K, self.0, x) }
    fn root_measure(&self) -> Self::RootMeasure { LebesgueMeasure::new() }
}
impl<const K: u64> HasLogDensity<f64, f64> for Opq<K> { fn log_density_wrt_root(&self, x: &f64) -> f64 { opq_ld(K, self.0, *x) } }
impl<const K: u64> Measure<u64> for Opq<K> {
    type RootMeasure = CountingMeasure<u64>;
    fn in_support(&self, x: u64) -> bool { opq_supp(K, self.0, x as f64) }
    fn root_measure(&self) -> Self::RootMeasure { CountingMeasure::new() }
}
impl<const K: u64> HasLogDensity<u64, f64> for Opq<K> { fn log_density_wrt_root(&self, x: &u64) -> f64 { opq_ld(K, self.0, *x as f64) } }
// the same with the exponential-family marker set (only used for dispatch)
#[derive(Clone)]
pub struct OpqEf<const K: u64>(pub f64);
impl<const K: u64> MeasureMarker for OpqEf<K> { type IsPrimitive = False; type IsExponentialFamily = True; }
impl<const K: u64> Measure<f64> for OpqEf<K> {
    type RootMeasure = LebesgueMeasure<f64>;
    fn in_support(&self, x: f64) -> bool { opq_supp(K, self.0, x) }
    fn root_measure(&self) -> Self::RootMeasure { LebesgueMeasure::new() }
}
impl<const K: u64> HasLogDensity<f64, f64> for OpqEf<K> { fn log_density_wrt_root(&self, x: &f64) -> f64 { opq_ld(K, self.0, *x) } }
// rooted in the combinators crate's own Lebesgue measure
#[derive(Clone)]
pub struct OpqC<const K: u64>(pub f64);
impl<const K: u64> MeasureMarker for OpqC<K> { type IsPrimitive = False; type IsExponentialFamily = False; }
impl<const K: u64> Measure<f64> for OpqC<K> {
    type RootMeasure = measures_combinators::measures::primitive::lebesgue::LebesgueMeasure<f64>;
    fn in_support(&self, x: f64) -> bool { opq_supp(K, self.0, x) }
    fn root_measure(&self) -> Self::RootMeasure { measures_combinators::measures::primitive::lebesgue::LebesgueMeasure::new() }
}
// a measure without any data
#[derive(Clone)]
pub struct Zst;
impl MeasureMarker for Zst { type IsPrimitive = False; type IsExponentialFamily = False; }
impl Measure<f64> for Zst {
    type RootMeasure = LebesgueMeasure<f64>;
    fn in_support(&self, x: f64) -> bool { opq_supp(9, 0.0, x) }
    fn root_measure(&self) -> Self::RootMeasure { LebesgueMeasure::new() }
}
impl HasLogDensity<f64, f64> for Zst { fn log_density_wrt_root(&self, x: &f64) -> f64 { opq_ld(9, 0.0, *x) } }
// arbitrary functions
#[inline(never)]
pub fn opq_f(k: u64, x: f64) -> f64 { (x * (0.3 + k as f64)).cos() + 0.25 * x }
#[inline(never)]
pub fn opq_g(k: u64, x: f64, y: f64) -> f64 { (x * (0.3 + k as f64)).cos() * 0.5 + 0.25 * y }
