// callers of the generic combinators, with arbitrary components
use crate::opaque::*;
use measures_core::*;
use measures_core::primitive::lebesgue::LebesgueMeasure;
use measures_core::primitive::counting::CountingMeasure;
use measures_combinators::measures::combinators::{product::{ProductMeasure, ProductMeasureExt}, superposition::{MixtureMeasure, MixtureExt}, pushforward::{PushforwardMeasure, PushforwardExt, transforms}};
use measures_combinators::measures::derived::{weighted::WeightedMeasure, integral::IntegralMeasure, dirac::Dirac};
use measures_core::log_density_decomposition::*;
use measures_combinators::product_measure;
pub fn root_c07_opq_at(p: f64, x: f64) -> f64 { Opq::<1>(p).log_density().at(&x) }
pub fn root_c07_opq_ff(p: f64, q: f64, x: f64) -> f64 { LogDensity::<f64, _>::new(Opq::<1>(p)).wrt(Opq::<2>(q)).at(&x) }
pub fn root_c07_opq_ft(p: f64, q: f64, x: f64) -> f64 { LogDensity::<f64, _>::new(Opq::<1>(p)).wrt(OpqEf::<2>(q)).at(&x) }
pub fn root_c07_opq_tf(p: f64, q: f64, x: f64) -> f64 { LogDensity::<f64, _>::new(OpqEf::<1>(p)).wrt(Opq::<2>(q)).at(&x) }
pub fn root_c07_opq_tt(p: f64, q: f64, x: f64) -> f64 { LogDensity::<f64, _>::new(OpqEf::<1>(p)).wrt(OpqEf::<2>(q)).at(&x) }
pub fn root_c07_opq_same(p: f64, q: f64, x: f64) -> f64 { LogDensity::<f64, _>::new(OpqEf::<1>(p)).wrt(OpqEf::<1>(q)).at(&x) }
pub fn root_c07_opq_self(p: f64, x: f64) -> f64 { let m = Opq::<1>(p); LogDensity::<f64, _>::new(m.clone()).wrt(m).at(&x) }
pub fn root_c07_opq_leb(p: f64, x: f64) -> f64 { LogDensity::<f64, _>::new(Opq::<1>(p)).wrt(LebesgueMeasure::<f64>::new()).at(&x) }
pub fn root_c07_opq_leb_inv(p: f64, x: f64) -> f64 { LogDensity::<f64, _>::new(LebesgueMeasure::<f64>::new()).wrt(Opq::<1>(p)).at(&x) }
pub fn root_c07_opq_rewrt(p: f64, q: f64, r: f64, x: f64) -> f64 { LogDensity::<f64, _>::new(Opq::<1>(p)).wrt(Opq::<2>(q)).wrt(Opq::<3>(r)).at(&x) }
pub fn root_c07_opq_chain(p: f64, q: f64, r: f64, x: f64) -> (f64, f64) {
    let a: f64 = LogDensity::<f64, _>::new(Opq::<1>(p)).wrt(Opq::<2>(q)).at(&x);
    let b: f64 = LogDensity::<f64, _>::new(Opq::<2>(q)).wrt(Opq::<3>(r)).at(&x);
    let c: f64 = LogDensity::<f64, _>::new(Opq::<2>(q)).wrt(Opq::<1>(p)).at(&x);
    (a + b, a + c)
}
pub fn root_c07_opq_access(p: f64, q: f64) -> (f64, f64) { let l = LogDensity::<f64, _>::new(Opq::<1>(p)).wrt(Opq::<2>(q)); (LogDensityTrait::<f64>::measure(&l).0, LogDensityTrait::<f64>::base_measure(&l).0) }
pub fn root_c07_opq_clone(p: f64, q: f64, x: f64) -> f64 { let l = LogDensity::<f64, _>::new(Opq::<1>(p)).wrt(Opq::<2>(q)); l.clone().at(&x) }
pub fn root_c07_zst_at(x: f64) -> f64 { LogDensity::<f64, _>::new(Zst).at(&x) }
pub fn root_c07_zst_wrt(p: f64, x: f64) -> f64 { LogDensity::<f64, _>::new(Zst).wrt(Opq::<2>(p)).at(&x) }
pub fn root_c07_shared(p: f64, q: f64, x: f64) -> f64 { SharedRootMeasure::<f64, f64>::log_density_wrt_shared_root(&(Opq::<1>(p), Opq::<2>(q)), &x) }
pub fn root_c07_primitives(x: f64, k: u64) -> (f64, f64, bool, bool) {
    (HasLogDensity::<f64, f64>::log_density_wrt_root(&LebesgueMeasure::<f64>::new(), &x), HasLogDensity::<u64, f64>::log_density_wrt_root(&CountingMeasure::<u64>::new(), &k), LebesgueMeasure::<f64>::new().in_support(x), CountingMeasure::<u64>::new().in_support(k))
}
pub fn root_c09_opq_batch(p: f64, xs: &[f64]) -> Vec<f64> { log_density_batch(&Opq::<1>(p), xs) }
pub fn root_c09_opq_one(p: f64, x: f64) -> f64 { log_density_at(&Opq::<1>(p), &x) }
pub fn root_c09_cached_four(p: f64, q: f64, x: u64, y: u64, z: u64) -> (f64, f64, f64, f64) { let c = LogDensity::<u64, _>::new(Opq::<1>(p)).wrt(Opq::<2>(q)).cached_for::<f64>(); (c.at(&x), c.at(&y), c.at(&x), c.at(&z)) }
pub fn root_c09_cached_any(c: &CachedLogDensity<LogDensity<u64, Opq<1>, Opq<2>>, u64, f64>, x: u64) -> f64 { c.at(&x) }
pub fn root_c09_cached_new(p: f64, q: f64) -> (f64, f64) { let c = LogDensity::<u64, _>::new(Opq::<1>(p)).wrt(Opq::<2>(q)).cached_for::<f64>(); (LogDensityTrait::<u64>::measure(&c).0, LogDensityTrait::<u64>::base_measure(&c).0) }
pub fn root_c09_cached_conv(p: f64, q: f64, x: u64) -> (f64, f64) { let c = LogDensity::<u64, _>::new(Opq::<1>(p)).wrt(Opq::<2>(q)).cached(); (c.at(&x), c.at(&x)) }
pub fn root_c06_opq_fallback(p: f64, xs: &[f64]) -> f64 { measures_exponential_family::IID::new(Opq::<1>(p)).iid_log_density_fallback(xs) }
pub fn root_c06_opq_iidbase(p: f64, xs: &[f64]) -> f64 { measures_exponential_family::exponential_family::iid::IIDBaseMeasure::new(Opq::<1>(p)).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_opq_basesupp(p: f64, xs: &[f64]) -> bool { measures_exponential_family::exponential_family::iid::IIDBaseMeasure::new(Opq::<1>(p)).in_support(xs.to_vec()) }
pub fn root_c06_opq_supp(p: f64, xs: &[f64]) -> bool { measures_exponential_family::IID::new(Opq::<1>(p)).in_support(xs.to_vec()) }
// ---- combinators
pub fn root_c10_product_ld(p: f64, q: f64, x: f64, y: f64) -> f64 { ProductMeasure::new(Opq::<1>(p), Opq::<2>(q)).log_density_wrt_root(&(x, y)) }
pub fn root_c10_product_supp(p: f64, q: f64, x: f64, y: f64) -> bool { ProductMeasure::new(Opq::<1>(p), Opq::<2>(q)).in_support((x, y)) }
pub fn root_c10_product_ext(p: f64, q: f64, x: f64, y: f64) -> f64 { let m = ProductMeasureExt::<f64>::product::<_, f64>(Opq::<1>(p), Opq::<2>(q)); HasLogDensity::<(f64, f64), f64>::log_density_wrt_root(&m, &(x, y)) }
pub fn root_c10_product_nested(p: f64, q: f64, r: f64, x: f64, y: f64, z: f64) -> f64 { product_measure!(Opq::<1>(p), Opq::<2>(q), Opq::<3>(r)).log_density_wrt_root(&(x, (y, z))) }
pub fn root_c10_product_at(p: f64, q: f64, x: f64, y: f64) -> f64 { LogDensity::<(f64, f64), _>::new(ProductMeasure::new(Opq::<1>(p), Opq::<2>(q))).at(&(x, y)) }
fn comps(ps: &[f64]) -> Vec<Opq<1>> { ps.iter().map(|p| Opq::<1>(*p)).collect() }
pub fn root_c10_mixture_ld(ps: &[f64], ws: &[f64], x: f64) -> f64 { HasLogDensity::<f64, f64>::log_density_wrt_root(&MixtureMeasure { components: comps(ps), weights: ws.to_vec() }, &x) }
pub fn root_c10_mixture_supp(ps: &[f64], ws: &[f64], x: f64) -> bool { MixtureMeasure { components: comps(ps), weights: ws.to_vec() }.in_support(x) }
pub fn root_c10_mixture_new(ps: &[f64], ws: &[f64]) -> (usize, usize) { let m = MixtureMeasure::new(comps(ps), ws.to_vec()); (m.num_components(), m.weights.len()) }
pub fn root_c10_mixture_uniform(ps: &[f64]) -> Vec<f64> { MixtureMeasure::<Opq<1>, f64>::uniform(comps(ps)).weights }
pub fn root_c10_mixture_two(p: f64, q: f64, v: f64, w: f64, x: f64) -> f64 { let m = MixtureExt::<f64>::mixture(Opq::<1>(p), Opq::<1>(q), v, w); HasLogDensity::<f64, f64>::log_density_wrt_root(&m, &x) }
pub fn root_c10_mixture_utwo(p: f64, q: f64, x: f64) -> f64 { let m = MixtureExt::<f64>::uniform_mixture(Opq::<1>(p), Opq::<1>(q)); HasLogDensity::<f64, f64>::log_density_wrt_root(&m, &x) }
pub fn root_c10_mixture_macro(p: f64, q: f64, r: f64, x: f64) -> f64 { let m = measures_combinators::mixture!((0.25, Opq::<1>(p)), (0.25, Opq::<1>(q)), (0.5, Opq::<1>(r))); HasLogDensity::<f64, f64>::log_density_wrt_root(&m, &x) }
pub fn root_c10_push_ld(p: f64, y: f64) -> f64 { PushforwardMeasure::new(Opq::<1>(p), |x: &f64| opq_f(1, *x), |y: &f64| opq_f(2, *y), |y: &f64| opq_f(3, *y)).log_density_wrt_root(&y) }
pub fn root_c10_push_ext(p: f64, y: f64) -> f64 { PushforwardExt::<f64>::pushforward(Opq::<1>(p), |x: &f64| opq_f(1, *x), |y: &f64| opq_f(2, *y), |y: &f64| opq_f(3, *y)).log_density_wrt_root(&y) }
pub fn root_c10_push_supp(p: f64, y: f64) -> bool { PushforwardMeasure::new(OpqC::<1>(p), |x: &f64| opq_f(1, *x), |y: &f64| opq_f(2, *y), |y: &f64| opq_f(3, *y)).in_support(y) }
pub fn root_c10_tr_log(x: f64) -> (f64, f64, f64) { let (f, g, j) = transforms::log_transform::<f64>(); (f(&x), g(&x), j(&x)) }
pub fn root_c10_tr_exp(x: f64) -> (f64, f64, f64) { let (f, g, j) = transforms::exp_transform::<f64>(); (f(&x), g(&x), j(&x)) }
pub fn root_c10_tr_linear(a: f64, b: f64, x: f64) -> (f64, f64, f64) { let (f, g, j) = transforms::linear_transform::<f64>(a, b); (f(&x), g(&x), j(&x)) }
pub fn root_c10_tr_logit(x: f64) -> f64 { let (f, g, j) = transforms::logit_transform::<f64>(); f(&x) }
pub fn root_c10_tr_logit_inv(x: f64) -> (f64, f64) { let (f, g, j) = transforms::logit_transform::<f64>(); (g(&x), j(&x)) }
pub fn root_c10_tr_round(a: f64, b: f64, x: f64) -> (f64, f64, f64) {
    let (f, g, _) = transforms::linear_transform::<f64>(a, b); let (f2, g2, _) = transforms::exp_transform::<f64>(); let (f3, g3, _) = transforms::logit_transform::<f64>();
    (g(&f(&x)), g2(&f2(&x)), f3(&g3(&x)))
}
pub fn root_c10_lognormal(mu: f64, sigma: f64, y: f64) -> f64 { let (f, g, j) = transforms::exp_transform::<f64>(); PushforwardMeasure::new(measures_distributions::Normal::new(mu, sigma), f, g, j).log_density_wrt_root(&y) }
pub fn root_c10_push_linear(p: f64, a: f64, b: f64, y: f64) -> f64 { let (f, g, j) = transforms::linear_transform::<f64>(a, b); PushforwardMeasure::new(Opq::<1>(p), f, g, j).log_density_wrt_root(&y) }
pub fn root_c10_push_logit(p: f64, y: f64) -> f64 { let (f, g, j) = transforms::logit_transform::<f64>(); PushforwardMeasure::new(Opq::<1>(p), f, g, j).log_density_wrt_root(&y) }
pub fn root_c10_weighted_ld(p: f64, w: f64, x: f64) -> f64 { WeightedMeasure::<_, f64, f64>::new(Opq::<1>(p), w).log_density_wrt_root(&x) }
pub fn root_c10_weighted_supp(p: f64, w: f64, x: f64) -> bool { WeightedMeasure::<_, f64, f64>::new(Opq::<1>(p), w).in_support(x) }
pub fn root_c10_integral_ld(p: f64, x: f64) -> f64 { IntegralMeasure::new(Opq::<1>(p), |x: &f64| opq_f(1, *x)).log_density_wrt_root(&x) }
pub fn root_c10_integral_supp(p: f64, x: f64) -> bool { IntegralMeasure::<_, _, f64>::new(Opq::<1>(p), |x: &f64| opq_f(1, *x)).in_support(x) }
pub fn root_c10_dirac_supp(p: u64, x: u64) -> bool { Dirac::new(p).in_support(x) }
pub fn root_c10_dirac_supp_f(p: f64, x: f64) -> bool { Dirac::new(p).in_support(x) }
// ---- decomposition
pub fn root_c08_any_eval(d: &LogDensityDecomposition<f64, f64, f64>, x: f64, theta: f64) -> f64 { d.evaluate(&x, &theta) }
pub fn root_c08_any_iid(d: &LogDensityDecomposition<f64, f64, f64>, xs: &[f64], theta: f64) -> f64 { d.evaluate_iid(xs, &theta) }
pub fn root_c08_any_parts(d: &LogDensityDecomposition<f64, f64, f64>, x: f64, theta: f64) -> (f64, f64, f64) { (d.evaluate_data_terms(&x), d.evaluate_param_terms(&theta), d.constant_sum()) }
pub fn root_c08_any_add_data(d: LogDensityDecomposition<f64, f64, f64>, x: f64, theta: f64) -> f64 { d.add_data_term(|x| opq_f(1, *x), None).evaluate(&x, &theta) }
pub fn root_c08_any_add_param(d: LogDensityDecomposition<f64, f64, f64>, x: f64, theta: f64) -> f64 { d.add_param_term(|t| opq_f(1, *t), None).evaluate(&x, &theta) }
pub fn root_c08_any_add_mixed(d: LogDensityDecomposition<f64, f64, f64>, x: f64, theta: f64) -> f64 { d.add_mixed_term(|x, t| opq_g(1, *x, *t), None).evaluate(&x, &theta) }
pub fn root_c08_any_add_const(d: LogDensityDecomposition<f64, f64, f64>, c: f64, x: f64, theta: f64) -> f64 { d.add_constant(c).evaluate(&x, &theta) }
fn built(c: f64, e: f64) -> LogDensityDecomposition<f64, f64, f64> {
    DecompositionBuilder::<f64, f64, f64>::new().data_term(|x| opq_f(1, *x), "d1").data_term(|x| opq_f(2, *x), "d2").param_term(|t| opq_f(3, *t), "p1").param_term(|t| opq_f(4, *t), "p2")
        .mixed_term(|x, t| opq_g(1, *x, *t), "m1").mixed_term(|x, t| opq_g(2, *x, *t), "m2").constant(c).constant(e).build()
}
pub fn root_c08_built_eval(c: f64, e: f64, x: f64, theta: f64) -> f64 { built(c, e).evaluate(&x, &theta) }
pub fn root_c08_built_iid(c: f64, e: f64, xs: &[f64], theta: f64) -> f64 { built(c, e).evaluate_iid(xs, &theta) }
pub fn root_c08_built_parts(c: f64, e: f64, x: f64, theta: f64) -> (f64, f64, f64) { let d = built(c, e); (d.evaluate_data_terms(&x), d.evaluate_param_terms(&theta), d.constant_sum()) }
pub fn root_c08_empty(x: f64, theta: f64, xs: &[f64]) -> (f64, f64) { let d = LogDensityDecomposition::<f64, f64, f64>::default(); (d.evaluate(&x, &theta), d.evaluate_iid(xs, &theta)) }
pub fn root_c08_normal_dec(m0: f64, s0: f64, mu: f64, sigma: f64, x: f64) -> f64 { measures_distributions::Normal::new(m0, s0).log_density_decomposition().evaluate(&x, &(mu, sigma)) }
pub fn root_c08_normal_deciid(m0: f64, s0: f64, mu: f64, sigma: f64, xs: &[f64]) -> f64 { measures_distributions::Normal::new(m0, s0).log_density_decomposition().evaluate_iid(xs, &(mu, sigma)) }
pub fn root_c08_cauchy_dec(m0: f64, s0: f64, mu: f64, sigma: f64, x: f64) -> f64 { measures_distributions::Cauchy::new(m0, s0).log_density_decomposition().evaluate(&x, &(mu, sigma)) }
pub fn root_c08_cauchy_deciid(m0: f64, s0: f64, mu: f64, sigma: f64, xs: &[f64]) -> f64 { measures_distributions::Cauchy::new(m0, s0).log_density_decomposition().evaluate_iid(xs, &(mu, sigma)) }
pub fn root_c08_studentt_dec(n0: f64, nu: f64, x: f64) -> f64 { measures_distributions::StudentT::new(n0).log_density_decomposition().evaluate(&x, &nu) }
pub fn root_c08_studentt_deciid(n0: f64, nu: f64, xs: &[f64]) -> f64 { measures_distributions::StudentT::new(n0).log_density_decomposition().evaluate_iid(xs, &nu) }
pub fn root_c08_normal_decparts(m0: f64, s0: f64, mu: f64, sigma: f64, x: f64) -> (f64, f64) { let d = measures_distributions::Normal::new(m0, s0).log_density_decomposition(); (d.evaluate_data_terms(&x) + d.constant_sum(), d.evaluate_param_terms(&(mu, sigma))) }
pub fn root_c10_mixture_three(ps: [f64; 3], ws: [f64; 3], x: f64) -> f64 { HasLogDensity::<f64, f64>::log_density_wrt_root(&MixtureMeasure { components: vec![Opq::<1>(ps[0]), Opq::<1>(ps[1]), Opq::<1>(ps[2])], weights: vec![ws[0], ws[1], ws[2]] }, &x) }
// ---- C11 base measures and their combinatorial terms
use measures_combinators::measures::derived::{factorial::{FactorialMeasure, log_factorial}, binomial_coefficient::{BinomialCoefficientMeasure, log_binomial_coefficient}, negative_binomial_coefficient::{NegativeBinomialCoefficientMeasure, log_negative_binomial_coefficient}};
pub fn root_c11_logfact_f32(k: u64) -> f32 { log_factorial::<f32>(k) }
pub fn root_c11_factorial_ld(k: u64) -> f64 { FactorialMeasure::<f64>::new().log_density_wrt_root(&k) }
pub fn root_c11_factorial_supp(k: u64) -> bool { FactorialMeasure::<f64>::default().in_support(k) }
pub fn root_c11_logbinom(n: u64, k: u64) -> f64 { log_binomial_coefficient::<f64>(n, k) }
pub fn root_c11_binom_ld(n: u64, k: u64) -> f64 { BinomialCoefficientMeasure::<f64>::new(n).log_density_wrt_root(&k) }
pub fn root_c11_binom_supp(n: u64, k: u64) -> bool { BinomialCoefficientMeasure::<f64>::new(n).in_support(k) }
pub fn root_c11_lognegbinom(r: u64, k: u64) -> f64 { log_negative_binomial_coefficient::<f64>(r, k) }
pub fn root_c11_negbinom_ld(r: u64, k: u64) -> f64 { NegativeBinomialCoefficientMeasure::<f64>::new(r).log_density_wrt_root(&k) }
pub fn root_c11_negbinom_supp(r: u64, k: u64) -> bool { NegativeBinomialCoefficientMeasure::<f64>::new(r).in_support(k) }
pub fn root_c11_counting_ld(k: u64) -> f64 { measures_core::CountingMeasure::<u64>::new().log_density_wrt_root(&k) }
pub fn root_c11_counting_supp(k: u64) -> bool { measures_core::CountingMeasure::<u64>::new().in_support(k) }
pub fn root_c11_lebesgue_ld(x: f64) -> f64 { measures_core::LebesgueMeasure::<f64>::new().log_density_wrt_root(&x) }
pub fn root_c11_lebesgue_supp(x: f64) -> bool { measures_core::LebesgueMeasure::<f64>::new().in_support(x) }
pub fn root_c11_counting2_ld(k: u64) -> f64 { measures_combinators::measures::primitive::CountingMeasure::<u64>::new().log_density_wrt_root(&k) }
pub fn root_c11_lebesgue2_ld(x: f64) -> f64 { measures_combinators::measures::primitive::LebesgueMeasure::<f64>::new().log_density_wrt_root(&x) }
