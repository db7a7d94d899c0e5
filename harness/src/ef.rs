// exponential-family evaluators: zero-overhead closures, inlined kernels, array helpers, final-tagless formulas
use crate::opaque::*;
use measures_core::*;
use measures_exponential_family::{ExponentialFamily, IID, SumSufficientStats};
use measures_exponential_family::exponential_family::jit::*;
use measures_exponential_family::exponential_family::array_utils;
use measures_exponential_family::exponential_family::final_tagless::{ExpFamEval, ExponentialFamilyExpr, patterns};
use symbolic_math::final_tagless::{DirectEval, MathExpr};
use measures_distributions::distributions::continuous::{beta::Beta,cauchy::Cauchy,chi_squared::ChiSquared,exponential::Exponential,gamma::Gamma,normal::Normal,stdnormal::StdNormal,student_t::StudentT};
use measures_distributions::distributions::discrete::{bernoulli::Bernoulli,binomial::Binomial,categorical::Categorical,geometric::Geometric,negative_binomial::NegativeBinomial,poisson::Poisson};
pub fn root_c17_normal_zo(mean: f64, sd: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_normal_zot(mean: f64, sd: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); d.zero_overhead_optimize()(&x) }
pub fn root_c17_normal_zow(mean: f64, sd: f64, mean2: f64, sd2: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); let e = Normal::new(mean2, sd2); generate_zero_overhead_exp_fam_wrt(d, e)(&x) }
pub fn root_c17_normal_zowt(mean: f64, sd: f64, mean2: f64, sd2: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); d.zero_overhead_optimize_wrt(Normal::new(mean2, sd2))(&x) }
pub fn root_c17_exp_gamma_zow(rate: f64, shape2: f64, rate2: f64, x: f64) -> f64 { generate_zero_overhead_exp_fam_wrt(Exponential::new(rate), Gamma::new(shape2, rate2))(&x) }
pub fn root_c17_normal_iidzo(mean: f64, sd: f64, xs: &[f64]) -> f64 { let d = Normal::new(mean, sd); generate_zero_overhead_exp_fam(IID::new(d))(&xs.to_vec()) }
pub fn root_c17_stdnormal_zo(x: f64) -> f64 { let d = StdNormal::<f64>::new(); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_stdnormal_zot(x: f64) -> f64 { let d = StdNormal::<f64>::new(); d.zero_overhead_optimize()(&x) }
pub fn root_c17_exponential_zo(rate: f64, x: f64) -> f64 { let d = Exponential::new(rate); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_exponential_zot(rate: f64, x: f64) -> f64 { let d = Exponential::new(rate); d.zero_overhead_optimize()(&x) }
pub fn root_c17_exponential_zow(rate: f64, rate2: f64, x: f64) -> f64 { let d = Exponential::new(rate); let e = Exponential::new(rate2); generate_zero_overhead_exp_fam_wrt(d, e)(&x) }
pub fn root_c17_exponential_iidzo(rate: f64, xs: &[f64]) -> f64 { let d = Exponential::new(rate); generate_zero_overhead_exp_fam(IID::new(d))(&xs.to_vec()) }
pub fn root_c17_gamma_zo(shape: f64, rate: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_gamma_zot(shape: f64, rate: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); d.zero_overhead_optimize()(&x) }
pub fn root_c17_gamma_zow(shape: f64, rate: f64, shape2: f64, rate2: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); let e = Gamma::new(shape2, rate2); generate_zero_overhead_exp_fam_wrt(d, e)(&x) }
pub fn root_c17_gamma_iidzo(shape: f64, rate: f64, xs: &[f64]) -> f64 { let d = Gamma::new(shape, rate); generate_zero_overhead_exp_fam(IID::new(d))(&xs.to_vec()) }
pub fn root_c17_beta_zo(alpha: f64, beta: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_beta_zot(alpha: f64, beta: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); d.zero_overhead_optimize()(&x) }
pub fn root_c17_beta_zow(alpha: f64, beta: f64, alpha2: f64, beta2: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); let e = Beta::new(alpha2, beta2); generate_zero_overhead_exp_fam_wrt(d, e)(&x) }
pub fn root_c17_beta_iidzo(alpha: f64, beta: f64, xs: &[f64]) -> f64 { let d = Beta::new(alpha, beta); generate_zero_overhead_exp_fam(IID::new(d))(&xs.to_vec()) }
pub fn root_c17_chisq_zo(k: f64, x: f64) -> f64 { let d = ChiSquared::new(k); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_chisq_zot(k: f64, x: f64) -> f64 { let d = ChiSquared::new(k); d.zero_overhead_optimize()(&x) }
pub fn root_c17_chisq_zow(k: f64, k2: f64, x: f64) -> f64 { let d = ChiSquared::new(k); let e = ChiSquared::new(k2); generate_zero_overhead_exp_fam_wrt(d, e)(&x) }
pub fn root_c17_chisq_iidzo(k: f64, xs: &[f64]) -> f64 { let d = ChiSquared::new(k); generate_zero_overhead_exp_fam(IID::new(d))(&xs.to_vec()) }
pub fn root_c17_poisson_zo(rate: f64, x: u64) -> f64 { let d = Poisson::new(rate); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_poisson_zot(rate: f64, x: u64) -> f64 { let d = Poisson::new(rate); d.zero_overhead_optimize()(&x) }
pub fn root_c17_poisson_zow(rate: f64, rate2: f64, x: u64) -> f64 { let d = Poisson::new(rate); let e = Poisson::new(rate2); generate_zero_overhead_exp_fam_wrt(d, e)(&x) }
pub fn root_c17_binomial_zo(n: u64, p: f64, x: u64) -> f64 { let d = Binomial::new(n, p); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_binomial_zot(n: u64, p: f64, x: u64) -> f64 { let d = Binomial::new(n, p); d.zero_overhead_optimize()(&x) }
pub fn root_c17_binomial_zow(n: u64, p: f64, n2: u64, p2: f64, x: u64) -> f64 { let d = Binomial::new(n, p); let e = Binomial::new(n2, p2); generate_zero_overhead_exp_fam_wrt(d, e)(&x) }
pub fn root_c17_negbin_zo(r: u64, p: f64, x: u64) -> f64 { let d = NegativeBinomial::new(r, p); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_negbin_zot(r: u64, p: f64, x: u64) -> f64 { let d = NegativeBinomial::new(r, p); d.zero_overhead_optimize()(&x) }
pub fn root_c17_negbin_zow(r: u64, p: f64, r2: u64, p2: f64, x: u64) -> f64 { let d = NegativeBinomial::new(r, p); let e = NegativeBinomial::new(r2, p2); generate_zero_overhead_exp_fam_wrt(d, e)(&x) }
pub fn root_c17_geometric_zo(p: f64, x: u64) -> f64 { let d = Geometric::new(p); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_geometric_zot(p: f64, x: u64) -> f64 { let d = Geometric::new(p); d.zero_overhead_optimize()(&x) }
pub fn root_c17_geometric_zow(p: f64, p2: f64, x: u64) -> f64 { let d = Geometric::new(p); let e = Geometric::new(p2); generate_zero_overhead_exp_fam_wrt(d, e)(&x) }
pub fn root_c17_geometric_iidzo(p: f64, xs: &[u64]) -> f64 { let d = Geometric::new(p); generate_zero_overhead_exp_fam(IID::new(d))(&xs.to_vec()) }
pub fn root_c17_bernoulli_zo(p: f64, x: u8) -> f64 { let d = Bernoulli::new(p); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_bernoulli_zot(p: f64, x: u8) -> f64 { let d = Bernoulli::new(p); d.zero_overhead_optimize()(&x) }
pub fn root_c17_bernoulli_zow(p: f64, p2: f64, x: u8) -> f64 { let d = Bernoulli::new(p); let e = Bernoulli::new(p2); generate_zero_overhead_exp_fam_wrt(d, e)(&x) }
pub fn root_c17_bernoulli_iidzo(p: f64, xs: &[u8]) -> f64 { let d = Bernoulli::new(p); generate_zero_overhead_exp_fam(IID::new(d))(&xs.to_vec()) }
pub fn root_c17_categorical_zo(probs: &[f64], x: usize) -> f64 { let d = Categorical::new(probs.to_vec()); generate_zero_overhead_exp_fam(d)(&x) }
pub fn root_c17_categorical_zot(probs: &[f64], x: usize) -> f64 { let d = Categorical::new(probs.to_vec()); d.zero_overhead_optimize()(&x) }
// an arbitrary exponential family: natural parameter, log-partition, sufficient statistic and base measure are uninterpreted
#[derive(Clone)]
pub struct Fam(pub f64);
impl MeasureMarker for Fam { type IsPrimitive = False; type IsExponentialFamily = True; }
impl Measure<f64> for Fam {
    type RootMeasure = measures_core::primitive::lebesgue::LebesgueMeasure<f64>;
    fn in_support(&self, x: f64) -> bool { opq_supp(1, self.0, x) }
    fn root_measure(&self) -> Self::RootMeasure { measures_core::primitive::lebesgue::LebesgueMeasure::new() }
}
impl ExponentialFamily<f64, f64> for Fam {
    type NaturalParam = [f64; 2];
    type SufficientStat = [f64; 2];
    type BaseMeasure = Opq<1>;
    fn from_natural(p: [f64; 2]) -> Self { Fam(opq_g(1, p[0], p[1])) }
    fn sufficient_statistic(&self, x: &f64) -> [f64; 2] { [opq_f(14, *x), opq_f(15, *x)] }
    fn base_measure(&self) -> Opq<1> { Opq(self.0) }
    fn natural_and_log_partition(&self) -> ([f64; 2], f64) { ([opq_f(11, self.0), opq_f(12, self.0)], opq_f(13, self.0)) }
}
pub fn root_c04_any_efld(p: f64, x: f64) -> f64 { Fam(p).exp_fam_log_density(&x) }
pub fn root_c04_any_fn(p: f64, x: f64) -> f64 { measures_exponential_family::compute_exp_fam_log_density(&Fam(p), &x) }
pub fn root_c05_any_tonat(p: f64) -> ([f64; 2], f64) { (Fam(p).to_natural(), Fam(p).log_partition()) }
pub fn root_c06_any_iid(p: f64, xs: &[f64]) -> f64 { IID::new(Fam(p)).iid_log_density(xs) }
pub fn root_c06_any_iidef(p: f64, xs: &[f64]) -> f64 { IID::new(Fam(p)).exp_fam_log_density(&xs.to_vec()) }
pub fn root_c06_any_iidld(p: f64, xs: &[f64]) -> f64 { IID::new(Fam(p)).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_any_iidstat(p: f64, xs: &[f64]) -> [f64; 2] { ExponentialFamily::<Vec<f64>, f64>::sufficient_statistic(&IID::new(Fam(p)), &xs.to_vec()) }
pub fn root_c17_any_zo(p: f64, x: f64) -> f64 { generate_zero_overhead_exp_fam(Fam(p))(&x) }
pub fn root_c17_any_zow(p: f64, q: f64, x: f64) -> f64 { generate_zero_overhead_exp_fam_wrt(Fam(p), Opq::<2>(q))(&x) }
pub fn root_c17_any_iidzo(p: f64, xs: &[f64]) -> f64 { generate_zero_overhead_exp_fam(IID::new(Fam(p)))(&xs.to_vec()) }
pub fn root_c17_any_iidzot(p: f64, xs: &[f64]) -> f64 { ZeroOverheadOptimizer::<Vec<f64>, f64>::zero_overhead_optimize(IID::new(Fam(p)))(&xs.to_vec()) }
pub fn root_c17_any_iidzow(p: f64, q: f64, xs: &[f64]) -> f64 { generate_zero_overhead_exp_fam_wrt(IID::new(Fam(p)), IID::new(Fam(q)))(&xs.to_vec()) }
// inlined kernels
pub fn root_c17_inl_normal(mu: f64, sigma: f64, x: f64) -> f64 { StaticInlineJITCompiler::compile_normal(mu, sigma).call(x) }
pub fn root_c17_inl_exponential(lambda: f64, x: f64) -> f64 { StaticInlineJITCompiler::compile_exponential(lambda).call(x) }
// array helpers
pub fn root_c17_add_arrays(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> [f64; 3] { array_utils::add_arrays([a, b, c], [d, e, f]) }
pub fn root_c17_default_array() -> [f64; 3] { array_utils::default_array() }
pub fn root_c17_sum_arrays(xs: &[f64]) -> [f64; 2] { array_utils::sum_arrays(xs.iter().map(|x| [opq_f(1, *x), opq_f(2, *x)])) }
pub fn root_c17_sum_stats(xs: &[f64]) -> [f64; 2] { <[f64; 2]>::sum_sufficient_stats(xs.iter().map(|x| [opq_f(1, *x), opq_f(2, *x)])) }
pub fn root_c17_ef_dot(ps: &[f64], xs: &[f64]) -> f64 { ExpFamEval::dot_product_array(ps, xs) }
pub fn root_c17_ef_sum2(xs: &[f64], ys: &[f64]) -> Vec<f64> { ExpFamEval::sum_stats_array(&[xs, ys]) }
pub fn root_c17_ef_sum0() -> usize { ExpFamEval::sum_stats_array(&[]).len() }
// final-tagless exponential-family formulas
pub fn root_c17_ft_dot(ps: &[f64], xs: &[f64]) -> f64 { DirectEval::dot_product::<f64>(ps, xs) }
pub fn root_c17_ft_efdot(ps: &[f64], xs: &[f64]) -> f64 { ExpFamEval::dot_product::<f64>(ps, xs) }
pub fn root_c17_ft_ld(ps: &[f64], xs: &[f64], a: f64, h: f64) -> f64 { DirectEval::exp_fam_log_density::<f64>(ps, xs, a, h) }
pub fn root_c17_ft_iid(ps: &[f64], xs: &[f64], a: f64, n: f64, h: f64) -> f64 { DirectEval::iid_exp_fam_log_density::<f64>(ps, xs, a, n, h) }
pub fn root_c17_ft_logistic(x: f64) -> f64 { <DirectEval as ExponentialFamilyExpr>::logistic::<f64>(x) }
pub fn root_c17_ft_softplus(x: f64) -> f64 { <DirectEval as ExponentialFamilyExpr>::softplus::<f64>(x) }
pub fn root_c17_ft_lse(xs: &[f64]) -> f64 { DirectEval::log_sum_exp::<f64>(xs) }
pub fn root_c17_ft_sum(n: u64, xs: &[f64]) -> Vec<f64> { DirectEval::sum_sufficient_stats::<f64>(&[xs.to_vec(), xs.iter().map(|x| opq_f(1, *x)).collect()]) }
pub fn root_c17_ft_stdnormal(x: f64) -> f64 { patterns::standard_normal_log_density::<DirectEval>(x) }
pub fn root_c17_ft_normal(x: f64, mu: f64, sigma: f64) -> f64 { patterns::normal_log_density::<DirectEval>(x, mu, sigma) }
pub fn root_c17_ft_exponential(x: f64, lambda: f64) -> f64 { patterns::exponential_log_density::<DirectEval>(x, lambda) }
pub fn root_c17_ft_poisson(x: f64, lambda: f64) -> f64 { patterns::poisson_log_density::<DirectEval>(x, lambda) }
pub fn root_c17_ft_sumn(xs: &[f64]) -> Vec<f64> { let v: Vec<Vec<f64>> = xs.iter().map(|x| vec![opq_f(1, *x), opq_f(2, *x)]).collect(); DirectEval::sum_sufficient_stats::<f64>(&v) }
pub fn root_c17_ef_sumn(xs: &[f64]) -> Vec<f64> { let v: Vec<Vec<f64>> = xs.iter().map(|x| vec![opq_f(1, *x), opq_f(2, *x)]).collect(); let r: Vec<&[f64]> = v.iter().map(|a| a.as_slice()).collect(); ExpFamEval::sum_stats_array(&r) }
pub fn root_c06_any_nested(p: f64, xs: &[f64], ys: &[f64]) -> f64 { IID::new(IID::new(Fam(p))).iid_log_density(&[xs.to_vec(), ys.to_vec()]) }
pub fn root_c06_any_nestedef(p: f64, xs: &[f64]) -> f64 { IID::new(IID::new(Fam(p))).exp_fam_log_density(&vec![xs.to_vec()]) }
pub fn root_c06_normal_nested(mean: f64, sd: f64, xs: &[f64], ys: &[f64]) -> f64 { IID::new(IID::new(Normal::new(mean, sd))).iid_log_density(&[xs.to_vec(), ys.to_vec()]) }

