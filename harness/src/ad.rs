//! change of variables and the automatic-differentiation layer, at T = f64 (a type the layer is generic over)
use measures_combinators::measures::combinators::transform::{ComponentwiseTransform, DifferentiableTransform, LinearTransform, TransformedMeasure};
use measures_core::core::autodiff::{AutoDiffMeasure, LogDensityAD, constructors};
use measures_core::*;
use crate::opaque::*;
pub fn root_c26_linear(a: &[f64], b: &[f64], x: &[f64]) -> Vec<f64> { LinearTransform::<f64>::new(a.to_vec(), b.to_vec(), x.len(), b.len()).transform(x) }
pub fn root_c26_linear22(a: [f64; 4], b: [f64; 2], x: [f64; 2]) -> Vec<f64> { LinearTransform::<f64>::new(a.to_vec(), b.to_vec(), 2, 2).transform(&x) }
pub fn root_c26_linear23(a: [f64; 6], b: [f64; 3], x: [f64; 2]) -> Vec<f64> { LinearTransform::<f64>::new(a.to_vec(), b.to_vec(), 2, 3).transform(&x) }
pub fn root_c26_linear32(a: [f64; 6], b: [f64; 2], x: [f64; 3]) -> Vec<f64> { LinearTransform::<f64>::new(a.to_vec(), b.to_vec(), 3, 2).transform(&x) }
pub fn root_c26_linear_dims(a: &[f64], b: &[f64], m: usize, n: usize) -> (usize, usize) { let t = LinearTransform::<f64>::new(a.to_vec(), b.to_vec(), m, n); (t.input_dim(), t.output_dim()) }
pub fn root_c26_linear_input(a: [f64; 6], b: [f64; 3], x: &[f64]) -> usize { LinearTransform::<f64>::new(a.to_vec(), b.to_vec(), 2, 3).transform(x).len() }
pub fn root_c26_linear_jac(a: [f64; 4], b: [f64; 2], x: f64) -> f64 { LinearTransform::<f64>::new(a.to_vec(), b.to_vec(), 2, 2).log_abs_det_jacobian(&x) }
pub fn root_c26_comp(p: f64, x: &[f64]) -> Vec<f64> { ComponentwiseTransform::<f64, _>::new(move |v| opq_g(2, p, v), x.len()).transform(x) }
pub fn root_c26_comp_input(x: &[f64], n: usize) -> usize { ComponentwiseTransform::<f64, _>::new(|v| opq_f(2, v), n).transform(x).len() }
pub fn root_c26_comp_dims(n: usize) -> (usize, usize) { let t = ComponentwiseTransform::<f64, _>::new(|v| opq_f(2, v), n); (t.input_dim(), t.output_dim()) }
pub fn root_c26_comp_jac(k: f64, x: f64) -> f64 { ComponentwiseTransform::<f64, _>::new(move |v: f64| k * v, 1).log_abs_det_jacobian(&x) }
pub fn root_c26_measure(p: f64, q: f64, x: &[f64]) -> (f64, Vec<f64>) {
    let t = TransformedMeasure::new(Opq::<1>(p), ComponentwiseTransform::<f64, _>::new(move |v| opq_g(2, q, v), x.len()));
    (t.base_measure().0, t.transformation().transform(x))
}
pub fn root_c26_at_ad(p: f64, x: f64) -> (f64, f64) { let l = LogDensity::<f64, _, _>::new(Opq::<1>(p)); (l.at_ad(&x), AutoDiffMeasure::<f64>::ad_log_density(&Opq::<1>(p)).at_ad(&x)) }
pub fn root_c26_at_ad_wrt(p: f64, q: f64, x: f64) -> f64 { LogDensity::<f64, _, _>::new(Opq::<1>(p)).wrt(Opq::<2>(q)).at_ad(&x) }
pub fn root_c26_value(p: f64, q: f64, x: f64) -> (f64, f64) { (LogDensity::<f64, _, _>::new(Opq::<1>(p)).value_and_grad(&x).0, LogDensity::<f64, _, _>::new(Opq::<1>(p)).wrt(Opq::<2>(q)).value_and_grad(&x).0) }
pub fn root_c26_grad(p: f64, x: f64) -> f64 { LogDensity::<f64, _, _>::new(measures_distributions::Normal::new(p, 1.0)).value_and_grad(&x).1 }
pub fn root_c26_with(p: f64, x: f64) -> (f64, f64) { (constructors::with_reverse_ad(Opq::<1>(p)).log_density_wrt_root(&x), constructors::with_forward_ad::<_, 3>(Opq::<1>(p)).log_density_wrt_root(&x)) }
