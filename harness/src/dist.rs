// generated once from the table in DESIGN.md; plain callers of the public API of /repo
use measures_distributions::distributions::continuous::{beta::Beta,cauchy::Cauchy,chi_squared::ChiSquared,exponential::Exponential,gamma::Gamma,normal::Normal,stdnormal::StdNormal,student_t::StudentT};
use measures_distributions::distributions::discrete::{bernoulli::Bernoulli,binomial::Binomial,categorical::Categorical,geometric::Geometric,negative_binomial::NegativeBinomial,poisson::Poisson};
use measures_core::*;
use measures_exponential_family::{ExponentialFamily, IID, IIDExtension, SumSufficientStats};
pub fn root_c01_normal_ld(mean: f64, sd: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); d.log_density_wrt_root(&x) }
pub fn root_c03_normal_support(mean: f64, sd: f64, x: f64) -> bool { let d = Normal::new(mean, sd); d.in_support(x) }
pub fn root_c04_normal_efld(mean: f64, sd: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); d.exp_fam_log_density(&x) }
pub fn root_c04_normal_fn(mean: f64, sd: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_normal_nat(mean: f64, sd: f64) -> ([f64; 2], f64) { let d = Normal::new(mean, sd); ExponentialFamily::<f64, f64>::natural_and_log_partition(&d) }
pub fn root_c05_normal_tonat(mean: f64, sd: f64) -> [f64; 2] { let d = Normal::new(mean, sd); ExponentialFamily::<f64, f64>::to_natural(&d) }
pub fn root_c05_normal_logpart(mean: f64, sd: f64) -> f64 { let d = Normal::new(mean, sd); ExponentialFamily::<f64, f64>::log_partition(&d) }
pub fn root_c05_normal_stat(mean: f64, sd: f64, x: f64) -> [f64; 2] { let d = Normal::new(mean, sd); d.sufficient_statistic(&x) }
pub fn root_c05_normal_base(mean: f64, sd: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); ExponentialFamily::<f64, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c05_normal_rtrip(mean: f64, sd: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); let e = <Normal<f64> as ExponentialFamily<f64, f64>>::from_natural(ExponentialFamily::<f64, f64>::to_natural(&d)); e.log_density_wrt_root(&x) }
pub fn root_c06_normal_iid(mean: f64, sd: f64, xs: &[f64]) -> f64 { let d = Normal::new(mean, sd); IID::new(d).iid_log_density(xs) }
pub fn root_c06_normal_iidef(mean: f64, sd: f64, xs: &[f64]) -> f64 { let d = Normal::new(mean, sd); IID::new(d).exp_fam_log_density(&xs.to_vec()) }
pub fn root_c06_normal_iidld(mean: f64, sd: f64, xs: &[f64]) -> f64 { let d = Normal::new(mean, sd); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_normal_iidsupp(mean: f64, sd: f64, xs: &[f64]) -> bool { let d = Normal::new(mean, sd); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_normal_iidstat(mean: f64, sd: f64, xs: &[f64]) -> [f64; 2] { let d = Normal::new(mean, sd); ExponentialFamily::<Vec<f64>, f64>::sufficient_statistic(&IID::new(d), &xs.to_vec()) }
pub fn root_c06_normal_iidbase(mean: f64, sd: f64, xs: &[f64]) -> f64 { let d = Normal::new(mean, sd); ExponentialFamily::<Vec<f64>, f64>::base_measure(&IID::new(d)).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_normal_fallback(mean: f64, sd: f64, xs: &[f64]) -> f64 { let d = Normal::new(mean, sd); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_normal_batch(mean: f64, sd: f64, xs: &[f64]) -> Vec<f64> { let d = Normal::new(mean, sd); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_normal_at(mean: f64, sd: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); measures_core::log_density_at(&d, &x) }
pub fn root_c07_normal_at(mean: f64, sd: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); d.log_density().at(&x) }
pub fn root_c07_normal_wrt(mean: f64, sd: f64, mean2: f64, sd2: f64, x: f64) -> f64 { let d = Normal::new(mean, sd); let e = Normal::new(mean2, sd2); d.log_density().wrt(e).at(&x) }
pub fn root_c21_normal_new(mean: f64, sd: f64) -> bool { let _d = Normal::new(mean, sd); true }
pub fn root_c03_stdnormal_support(x: f64) -> bool { let d = StdNormal::<f64>::new(); d.in_support(x) }
pub fn root_c04_stdnormal_efld(x: f64) -> f64 { let d = StdNormal::<f64>::new(); d.exp_fam_log_density(&x) }
pub fn root_c04_stdnormal_fn(x: f64) -> f64 { let d = StdNormal::<f64>::new(); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_stdnormal_nat() -> ([f64; 2], f64) { let d = StdNormal::<f64>::new(); ExponentialFamily::<f64, f64>::natural_and_log_partition(&d) }
pub fn root_c05_stdnormal_tonat() -> [f64; 2] { let d = StdNormal::<f64>::new(); ExponentialFamily::<f64, f64>::to_natural(&d) }
pub fn root_c05_stdnormal_logpart() -> f64 { let d = StdNormal::<f64>::new(); ExponentialFamily::<f64, f64>::log_partition(&d) }
pub fn root_c05_stdnormal_stat(x: f64) -> [f64; 2] { let d = StdNormal::<f64>::new(); d.sufficient_statistic(&x) }
pub fn root_c05_stdnormal_base(x: f64) -> f64 { let d = StdNormal::<f64>::new(); ExponentialFamily::<f64, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c06_stdnormal_iid(xs: &[f64]) -> f64 { let d = StdNormal::<f64>::new(); IID::new(d).iid_log_density(xs) }
pub fn root_c06_stdnormal_iidef(xs: &[f64]) -> f64 { let d = StdNormal::<f64>::new(); IID::new(d).exp_fam_log_density(&xs.to_vec()) }
pub fn root_c06_stdnormal_iidld(xs: &[f64]) -> f64 { let d = StdNormal::<f64>::new(); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_stdnormal_iidsupp(xs: &[f64]) -> bool { let d = StdNormal::<f64>::new(); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_stdnormal_iidstat(xs: &[f64]) -> [f64; 2] { let d = StdNormal::<f64>::new(); ExponentialFamily::<Vec<f64>, f64>::sufficient_statistic(&IID::new(d), &xs.to_vec()) }
pub fn root_c06_stdnormal_iidbase(xs: &[f64]) -> f64 { let d = StdNormal::<f64>::new(); ExponentialFamily::<Vec<f64>, f64>::base_measure(&IID::new(d)).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c01_exponential_ld(rate: f64, x: f64) -> f64 { let d = Exponential::new(rate); d.log_density_wrt_root(&x) }
pub fn root_c03_exponential_support(rate: f64, x: f64) -> bool { let d = Exponential::new(rate); d.in_support(x) }
pub fn root_c04_exponential_efld(rate: f64, x: f64) -> f64 { let d = Exponential::new(rate); d.exp_fam_log_density(&x) }
pub fn root_c04_exponential_fn(rate: f64, x: f64) -> f64 { let d = Exponential::new(rate); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_exponential_nat(rate: f64) -> ([f64; 1], f64) { let d = Exponential::new(rate); ExponentialFamily::<f64, f64>::natural_and_log_partition(&d) }
pub fn root_c05_exponential_tonat(rate: f64) -> [f64; 1] { let d = Exponential::new(rate); ExponentialFamily::<f64, f64>::to_natural(&d) }
pub fn root_c05_exponential_logpart(rate: f64) -> f64 { let d = Exponential::new(rate); ExponentialFamily::<f64, f64>::log_partition(&d) }
pub fn root_c05_exponential_stat(rate: f64, x: f64) -> [f64; 1] { let d = Exponential::new(rate); d.sufficient_statistic(&x) }
pub fn root_c05_exponential_base(rate: f64, x: f64) -> f64 { let d = Exponential::new(rate); ExponentialFamily::<f64, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c05_exponential_rtrip(rate: f64, x: f64) -> f64 { let d = Exponential::new(rate); let e = <Exponential<f64> as ExponentialFamily<f64, f64>>::from_natural(ExponentialFamily::<f64, f64>::to_natural(&d)); e.log_density_wrt_root(&x) }
pub fn root_c06_exponential_iid(rate: f64, xs: &[f64]) -> f64 { let d = Exponential::new(rate); IID::new(d).iid_log_density(xs) }
pub fn root_c06_exponential_iidef(rate: f64, xs: &[f64]) -> f64 { let d = Exponential::new(rate); IID::new(d).exp_fam_log_density(&xs.to_vec()) }
pub fn root_c06_exponential_iidld(rate: f64, xs: &[f64]) -> f64 { let d = Exponential::new(rate); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_exponential_iidsupp(rate: f64, xs: &[f64]) -> bool { let d = Exponential::new(rate); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_exponential_iidstat(rate: f64, xs: &[f64]) -> [f64; 1] { let d = Exponential::new(rate); ExponentialFamily::<Vec<f64>, f64>::sufficient_statistic(&IID::new(d), &xs.to_vec()) }
pub fn root_c06_exponential_iidbase(rate: f64, xs: &[f64]) -> f64 { let d = Exponential::new(rate); ExponentialFamily::<Vec<f64>, f64>::base_measure(&IID::new(d)).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_exponential_fallback(rate: f64, xs: &[f64]) -> f64 { let d = Exponential::new(rate); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_exponential_batch(rate: f64, xs: &[f64]) -> Vec<f64> { let d = Exponential::new(rate); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_exponential_at(rate: f64, x: f64) -> f64 { let d = Exponential::new(rate); measures_core::log_density_at(&d, &x) }
pub fn root_c07_exponential_at(rate: f64, x: f64) -> f64 { let d = Exponential::new(rate); d.log_density().at(&x) }
pub fn root_c07_exponential_wrt(rate: f64, rate2: f64, x: f64) -> f64 { let d = Exponential::new(rate); let e = Exponential::new(rate2); d.log_density().wrt(e).at(&x) }
pub fn root_c20_exponential_mv(rate: f64) -> (f64, f64) { let d = Exponential::new(rate); (d.mean(), d.variance()) }
pub fn root_c21_exponential_new(rate: f64) -> bool { let _d = Exponential::new(rate); true }
pub fn root_c01_gamma_ld(shape: f64, rate: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); d.log_density_wrt_root(&x) }
pub fn root_c03_gamma_support(shape: f64, rate: f64, x: f64) -> bool { let d = Gamma::new(shape, rate); d.in_support(x) }
pub fn root_c04_gamma_efld(shape: f64, rate: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); d.exp_fam_log_density(&x) }
pub fn root_c04_gamma_fn(shape: f64, rate: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_gamma_nat(shape: f64, rate: f64) -> ([f64; 2], f64) { let d = Gamma::new(shape, rate); ExponentialFamily::<f64, f64>::natural_and_log_partition(&d) }
pub fn root_c05_gamma_tonat(shape: f64, rate: f64) -> [f64; 2] { let d = Gamma::new(shape, rate); ExponentialFamily::<f64, f64>::to_natural(&d) }
pub fn root_c05_gamma_logpart(shape: f64, rate: f64) -> f64 { let d = Gamma::new(shape, rate); ExponentialFamily::<f64, f64>::log_partition(&d) }
pub fn root_c05_gamma_stat(shape: f64, rate: f64, x: f64) -> [f64; 2] { let d = Gamma::new(shape, rate); d.sufficient_statistic(&x) }
pub fn root_c05_gamma_base(shape: f64, rate: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); ExponentialFamily::<f64, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c05_gamma_rtrip(shape: f64, rate: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); let e = <Gamma<f64> as ExponentialFamily<f64, f64>>::from_natural(ExponentialFamily::<f64, f64>::to_natural(&d)); e.log_density_wrt_root(&x) }
pub fn root_c06_gamma_iid(shape: f64, rate: f64, xs: &[f64]) -> f64 { let d = Gamma::new(shape, rate); IID::new(d).iid_log_density(xs) }
pub fn root_c06_gamma_iidef(shape: f64, rate: f64, xs: &[f64]) -> f64 { let d = Gamma::new(shape, rate); IID::new(d).exp_fam_log_density(&xs.to_vec()) }
pub fn root_c06_gamma_iidld(shape: f64, rate: f64, xs: &[f64]) -> f64 { let d = Gamma::new(shape, rate); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_gamma_iidsupp(shape: f64, rate: f64, xs: &[f64]) -> bool { let d = Gamma::new(shape, rate); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_gamma_iidstat(shape: f64, rate: f64, xs: &[f64]) -> [f64; 2] { let d = Gamma::new(shape, rate); ExponentialFamily::<Vec<f64>, f64>::sufficient_statistic(&IID::new(d), &xs.to_vec()) }
pub fn root_c06_gamma_iidbase(shape: f64, rate: f64, xs: &[f64]) -> f64 { let d = Gamma::new(shape, rate); ExponentialFamily::<Vec<f64>, f64>::base_measure(&IID::new(d)).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_gamma_fallback(shape: f64, rate: f64, xs: &[f64]) -> f64 { let d = Gamma::new(shape, rate); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_gamma_batch(shape: f64, rate: f64, xs: &[f64]) -> Vec<f64> { let d = Gamma::new(shape, rate); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_gamma_at(shape: f64, rate: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); measures_core::log_density_at(&d, &x) }
pub fn root_c07_gamma_at(shape: f64, rate: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); d.log_density().at(&x) }
pub fn root_c07_gamma_wrt(shape: f64, rate: f64, shape2: f64, rate2: f64, x: f64) -> f64 { let d = Gamma::new(shape, rate); let e = Gamma::new(shape2, rate2); d.log_density().wrt(e).at(&x) }
pub fn root_c20_gamma_mv(shape: f64, rate: f64) -> (f64, f64) { let d = Gamma::new(shape, rate); (d.mean(), d.variance()) }
pub fn root_c21_gamma_new(shape: f64, rate: f64) -> bool { let _d = Gamma::new(shape, rate); true }
pub fn root_c01_beta_ld(alpha: f64, beta: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); d.log_density_wrt_root(&x) }
pub fn root_c03_beta_support(alpha: f64, beta: f64, x: f64) -> bool { let d = Beta::new(alpha, beta); d.in_support(x) }
pub fn root_c04_beta_efld(alpha: f64, beta: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); d.exp_fam_log_density(&x) }
pub fn root_c04_beta_fn(alpha: f64, beta: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_beta_nat(alpha: f64, beta: f64) -> ([f64; 2], f64) { let d = Beta::new(alpha, beta); ExponentialFamily::<f64, f64>::natural_and_log_partition(&d) }
pub fn root_c05_beta_tonat(alpha: f64, beta: f64) -> [f64; 2] { let d = Beta::new(alpha, beta); ExponentialFamily::<f64, f64>::to_natural(&d) }
pub fn root_c05_beta_logpart(alpha: f64, beta: f64) -> f64 { let d = Beta::new(alpha, beta); ExponentialFamily::<f64, f64>::log_partition(&d) }
pub fn root_c05_beta_stat(alpha: f64, beta: f64, x: f64) -> [f64; 2] { let d = Beta::new(alpha, beta); d.sufficient_statistic(&x) }
pub fn root_c05_beta_base(alpha: f64, beta: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); ExponentialFamily::<f64, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c05_beta_rtrip(alpha: f64, beta: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); let e = <Beta<f64> as ExponentialFamily<f64, f64>>::from_natural(ExponentialFamily::<f64, f64>::to_natural(&d)); e.log_density_wrt_root(&x) }
pub fn root_c06_beta_iid(alpha: f64, beta: f64, xs: &[f64]) -> f64 { let d = Beta::new(alpha, beta); IID::new(d).iid_log_density(xs) }
pub fn root_c06_beta_iidef(alpha: f64, beta: f64, xs: &[f64]) -> f64 { let d = Beta::new(alpha, beta); IID::new(d).exp_fam_log_density(&xs.to_vec()) }
pub fn root_c06_beta_iidld(alpha: f64, beta: f64, xs: &[f64]) -> f64 { let d = Beta::new(alpha, beta); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_beta_iidsupp(alpha: f64, beta: f64, xs: &[f64]) -> bool { let d = Beta::new(alpha, beta); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_beta_iidstat(alpha: f64, beta: f64, xs: &[f64]) -> [f64; 2] { let d = Beta::new(alpha, beta); ExponentialFamily::<Vec<f64>, f64>::sufficient_statistic(&IID::new(d), &xs.to_vec()) }
pub fn root_c06_beta_iidbase(alpha: f64, beta: f64, xs: &[f64]) -> f64 { let d = Beta::new(alpha, beta); ExponentialFamily::<Vec<f64>, f64>::base_measure(&IID::new(d)).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_beta_fallback(alpha: f64, beta: f64, xs: &[f64]) -> f64 { let d = Beta::new(alpha, beta); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_beta_batch(alpha: f64, beta: f64, xs: &[f64]) -> Vec<f64> { let d = Beta::new(alpha, beta); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_beta_at(alpha: f64, beta: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); measures_core::log_density_at(&d, &x) }
pub fn root_c07_beta_at(alpha: f64, beta: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); d.log_density().at(&x) }
pub fn root_c07_beta_wrt(alpha: f64, beta: f64, alpha2: f64, beta2: f64, x: f64) -> f64 { let d = Beta::new(alpha, beta); let e = Beta::new(alpha2, beta2); d.log_density().wrt(e).at(&x) }
pub fn root_c20_beta_mv(alpha: f64, beta: f64) -> (f64, f64) { let d = Beta::new(alpha, beta); (d.mean(), d.variance()) }
pub fn root_c21_beta_new(alpha: f64, beta: f64) -> bool { let _d = Beta::new(alpha, beta); true }
pub fn root_c01_chisq_ld(k: f64, x: f64) -> f64 { let d = ChiSquared::new(k); d.log_density_wrt_root(&x) }
pub fn root_c03_chisq_support(k: f64, x: f64) -> bool { let d = ChiSquared::new(k); d.in_support(x) }
pub fn root_c04_chisq_efld(k: f64, x: f64) -> f64 { let d = ChiSquared::new(k); d.exp_fam_log_density(&x) }
pub fn root_c04_chisq_fn(k: f64, x: f64) -> f64 { let d = ChiSquared::new(k); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_chisq_nat(k: f64) -> ([f64; 2], f64) { let d = ChiSquared::new(k); ExponentialFamily::<f64, f64>::natural_and_log_partition(&d) }
pub fn root_c05_chisq_tonat(k: f64) -> [f64; 2] { let d = ChiSquared::new(k); ExponentialFamily::<f64, f64>::to_natural(&d) }
pub fn root_c05_chisq_logpart(k: f64) -> f64 { let d = ChiSquared::new(k); ExponentialFamily::<f64, f64>::log_partition(&d) }
pub fn root_c05_chisq_stat(k: f64, x: f64) -> [f64; 2] { let d = ChiSquared::new(k); d.sufficient_statistic(&x) }
pub fn root_c05_chisq_base(k: f64, x: f64) -> f64 { let d = ChiSquared::new(k); ExponentialFamily::<f64, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c05_chisq_rtrip(k: f64, x: f64) -> f64 { let d = ChiSquared::new(k); let e = <ChiSquared<f64> as ExponentialFamily<f64, f64>>::from_natural(ExponentialFamily::<f64, f64>::to_natural(&d)); e.log_density_wrt_root(&x) }
pub fn root_c06_chisq_iid(k: f64, xs: &[f64]) -> f64 { let d = ChiSquared::new(k); IID::new(d).iid_log_density(xs) }
pub fn root_c06_chisq_iidef(k: f64, xs: &[f64]) -> f64 { let d = ChiSquared::new(k); IID::new(d).exp_fam_log_density(&xs.to_vec()) }
pub fn root_c06_chisq_iidld(k: f64, xs: &[f64]) -> f64 { let d = ChiSquared::new(k); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_chisq_iidsupp(k: f64, xs: &[f64]) -> bool { let d = ChiSquared::new(k); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_chisq_iidstat(k: f64, xs: &[f64]) -> [f64; 2] { let d = ChiSquared::new(k); ExponentialFamily::<Vec<f64>, f64>::sufficient_statistic(&IID::new(d), &xs.to_vec()) }
pub fn root_c06_chisq_iidbase(k: f64, xs: &[f64]) -> f64 { let d = ChiSquared::new(k); ExponentialFamily::<Vec<f64>, f64>::base_measure(&IID::new(d)).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_chisq_fallback(k: f64, xs: &[f64]) -> f64 { let d = ChiSquared::new(k); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_chisq_batch(k: f64, xs: &[f64]) -> Vec<f64> { let d = ChiSquared::new(k); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_chisq_at(k: f64, x: f64) -> f64 { let d = ChiSquared::new(k); measures_core::log_density_at(&d, &x) }
pub fn root_c07_chisq_at(k: f64, x: f64) -> f64 { let d = ChiSquared::new(k); d.log_density().at(&x) }
pub fn root_c07_chisq_wrt(k: f64, k2: f64, x: f64) -> f64 { let d = ChiSquared::new(k); let e = ChiSquared::new(k2); d.log_density().wrt(e).at(&x) }
pub fn root_c20_chisq_mv(k: f64) -> (f64, f64) { let d = ChiSquared::new(k); (d.mean(), d.variance()) }
pub fn root_c21_chisq_new(k: f64) -> bool { let _d = ChiSquared::new(k); true }
pub fn root_c01_cauchy_ld(loc: f64, scale: f64, x: f64) -> f64 { let d = Cauchy::new(loc, scale); d.log_density_wrt_root(&x) }
pub fn root_c03_cauchy_support(loc: f64, scale: f64, x: f64) -> bool { let d = Cauchy::new(loc, scale); d.in_support(x) }
pub fn root_c06_cauchy_fallback(loc: f64, scale: f64, xs: &[f64]) -> f64 { let d = Cauchy::new(loc, scale); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_cauchy_batch(loc: f64, scale: f64, xs: &[f64]) -> Vec<f64> { let d = Cauchy::new(loc, scale); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_cauchy_at(loc: f64, scale: f64, x: f64) -> f64 { let d = Cauchy::new(loc, scale); measures_core::log_density_at(&d, &x) }
pub fn root_c07_cauchy_at(loc: f64, scale: f64, x: f64) -> f64 { let d = Cauchy::new(loc, scale); d.log_density().at(&x) }
pub fn root_c07_cauchy_wrt(loc: f64, scale: f64, loc2: f64, scale2: f64, x: f64) -> f64 { let d = Cauchy::new(loc, scale); let e = Cauchy::new(loc2, scale2); d.log_density().wrt(e).at(&x) }
pub fn root_c21_cauchy_new(loc: f64, scale: f64) -> bool { let _d = Cauchy::new(loc, scale); true }
pub fn root_c01_studentt_ld(nu: f64, x: f64) -> f64 { let d = StudentT::new(nu); d.log_density_wrt_root(&x) }
pub fn root_c03_studentt_support(nu: f64, x: f64) -> bool { let d = StudentT::new(nu); d.in_support(x) }
pub fn root_c06_studentt_fallback(nu: f64, xs: &[f64]) -> f64 { let d = StudentT::new(nu); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_studentt_batch(nu: f64, xs: &[f64]) -> Vec<f64> { let d = StudentT::new(nu); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_studentt_at(nu: f64, x: f64) -> f64 { let d = StudentT::new(nu); measures_core::log_density_at(&d, &x) }
pub fn root_c07_studentt_at(nu: f64, x: f64) -> f64 { let d = StudentT::new(nu); d.log_density().at(&x) }
pub fn root_c07_studentt_wrt(nu: f64, nu2: f64, x: f64) -> f64 { let d = StudentT::new(nu); let e = StudentT::new(nu2); d.log_density().wrt(e).at(&x) }
pub fn root_c21_studentt_new(nu: f64) -> bool { let _d = StudentT::new(nu); true }
pub fn root_c02_poisson_ld(rate: f64, x: u64) -> f64 { let d = Poisson::new(rate); d.log_density_wrt_root(&x) }
pub fn root_c03_poisson_support(rate: f64, x: u64) -> bool { let d = Poisson::new(rate); d.in_support(x) }
pub fn root_c04_poisson_efld(rate: f64, x: u64) -> f64 { let d = Poisson::new(rate); d.exp_fam_log_density(&x) }
pub fn root_c04_poisson_fn(rate: f64, x: u64) -> f64 { let d = Poisson::new(rate); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_poisson_nat(rate: f64) -> ([f64; 1], f64) { let d = Poisson::new(rate); ExponentialFamily::<u64, f64>::natural_and_log_partition(&d) }
pub fn root_c05_poisson_tonat(rate: f64) -> [f64; 1] { let d = Poisson::new(rate); ExponentialFamily::<u64, f64>::to_natural(&d) }
pub fn root_c05_poisson_logpart(rate: f64) -> f64 { let d = Poisson::new(rate); ExponentialFamily::<u64, f64>::log_partition(&d) }
pub fn root_c05_poisson_stat(rate: f64, x: u64) -> [f64; 1] { let d = Poisson::new(rate); d.sufficient_statistic(&x) }
pub fn root_c05_poisson_base(rate: f64, x: u64) -> f64 { let d = Poisson::new(rate); ExponentialFamily::<u64, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c05_poisson_rtrip(rate: f64, x: u64) -> f64 { let d = Poisson::new(rate); let e = <Poisson<f64> as ExponentialFamily<u64, f64>>::from_natural(ExponentialFamily::<u64, f64>::to_natural(&d)); e.log_density_wrt_root(&x) }
pub fn root_c06_poisson_iid(rate: f64, xs: &[u64]) -> f64 { let d = Poisson::new(rate); IID::new(d).iid_log_density(xs) }
pub fn root_c06_poisson_iidld(rate: f64, xs: &[u64]) -> f64 { let d = Poisson::new(rate); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_poisson_iidsupp(rate: f64, xs: &[u64]) -> bool { let d = Poisson::new(rate); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_poisson_fallback(rate: f64, xs: &[u64]) -> f64 { let d = Poisson::new(rate); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_poisson_batch(rate: f64, xs: &[u64]) -> Vec<f64> { let d = Poisson::new(rate); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_poisson_at(rate: f64, x: u64) -> f64 { let d = Poisson::new(rate); measures_core::log_density_at(&d, &x) }
pub fn root_c07_poisson_at(rate: f64, x: u64) -> f64 { let d = Poisson::new(rate); d.log_density().at(&x) }
pub fn root_c07_poisson_wrt(rate: f64, rate2: f64, x: u64) -> f64 { let d = Poisson::new(rate); let e = Poisson::new(rate2); d.log_density().wrt(e).at(&x) }
pub fn root_c21_poisson_new(rate: f64) -> bool { let _d = Poisson::new(rate); true }
pub fn root_c02_binomial_ld(n: u64, p: f64, x: u64) -> f64 { let d = Binomial::new(n, p); d.log_density_wrt_root(&x) }
pub fn root_c03_binomial_support(n: u64, p: f64, x: u64) -> bool { let d = Binomial::new(n, p); d.in_support(x) }
pub fn root_c04_binomial_efld(n: u64, p: f64, x: u64) -> f64 { let d = Binomial::new(n, p); d.exp_fam_log_density(&x) }
pub fn root_c04_binomial_fn(n: u64, p: f64, x: u64) -> f64 { let d = Binomial::new(n, p); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_binomial_nat(n: u64, p: f64) -> ([f64; 1], f64) { let d = Binomial::new(n, p); ExponentialFamily::<u64, f64>::natural_and_log_partition(&d) }
pub fn root_c05_binomial_tonat(n: u64, p: f64) -> [f64; 1] { let d = Binomial::new(n, p); ExponentialFamily::<u64, f64>::to_natural(&d) }
pub fn root_c05_binomial_logpart(n: u64, p: f64) -> f64 { let d = Binomial::new(n, p); ExponentialFamily::<u64, f64>::log_partition(&d) }
pub fn root_c05_binomial_stat(n: u64, p: f64, x: u64) -> [f64; 1] { let d = Binomial::new(n, p); d.sufficient_statistic(&x) }
pub fn root_c05_binomial_base(n: u64, p: f64, x: u64) -> f64 { let d = Binomial::new(n, p); ExponentialFamily::<u64, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c06_binomial_iid(n: u64, p: f64, xs: &[u64]) -> f64 { let d = Binomial::new(n, p); IID::new(d).iid_log_density(xs) }
pub fn root_c06_binomial_iidld(n: u64, p: f64, xs: &[u64]) -> f64 { let d = Binomial::new(n, p); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_binomial_iidsupp(n: u64, p: f64, xs: &[u64]) -> bool { let d = Binomial::new(n, p); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_binomial_fallback(n: u64, p: f64, xs: &[u64]) -> f64 { let d = Binomial::new(n, p); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_binomial_batch(n: u64, p: f64, xs: &[u64]) -> Vec<f64> { let d = Binomial::new(n, p); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_binomial_at(n: u64, p: f64, x: u64) -> f64 { let d = Binomial::new(n, p); measures_core::log_density_at(&d, &x) }
pub fn root_c07_binomial_at(n: u64, p: f64, x: u64) -> f64 { let d = Binomial::new(n, p); d.log_density().at(&x) }
pub fn root_c07_binomial_wrt(n: u64, p: f64, n2: u64, p2: f64, x: u64) -> f64 { let d = Binomial::new(n, p); let e = Binomial::new(n2, p2); d.log_density().wrt(e).at(&x) }
pub fn root_c20_binomial_mv(n: u64, p: f64) -> (f64, f64) { let d = Binomial::new(n, p); (d.mean(), d.variance()) }
pub fn root_c21_binomial_new(n: u64, p: f64) -> bool { let _d = Binomial::new(n, p); true }
pub fn root_c02_negbin_ld(r: u64, p: f64, x: u64) -> f64 { let d = NegativeBinomial::new(r, p); d.log_density_wrt_root(&x) }
pub fn root_c03_negbin_support(r: u64, p: f64, x: u64) -> bool { let d = NegativeBinomial::new(r, p); d.in_support(x) }
pub fn root_c04_negbin_efld(r: u64, p: f64, x: u64) -> f64 { let d = NegativeBinomial::new(r, p); d.exp_fam_log_density(&x) }
pub fn root_c04_negbin_fn(r: u64, p: f64, x: u64) -> f64 { let d = NegativeBinomial::new(r, p); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_negbin_nat(r: u64, p: f64) -> ([f64; 1], f64) { let d = NegativeBinomial::new(r, p); ExponentialFamily::<u64, f64>::natural_and_log_partition(&d) }
pub fn root_c05_negbin_tonat(r: u64, p: f64) -> [f64; 1] { let d = NegativeBinomial::new(r, p); ExponentialFamily::<u64, f64>::to_natural(&d) }
pub fn root_c05_negbin_logpart(r: u64, p: f64) -> f64 { let d = NegativeBinomial::new(r, p); ExponentialFamily::<u64, f64>::log_partition(&d) }
pub fn root_c05_negbin_stat(r: u64, p: f64, x: u64) -> [f64; 1] { let d = NegativeBinomial::new(r, p); d.sufficient_statistic(&x) }
pub fn root_c05_negbin_base(r: u64, p: f64, x: u64) -> f64 { let d = NegativeBinomial::new(r, p); ExponentialFamily::<u64, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c06_negbin_iid(r: u64, p: f64, xs: &[u64]) -> f64 { let d = NegativeBinomial::new(r, p); IID::new(d).iid_log_density(xs) }
pub fn root_c06_negbin_iidld(r: u64, p: f64, xs: &[u64]) -> f64 { let d = NegativeBinomial::new(r, p); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_negbin_iidsupp(r: u64, p: f64, xs: &[u64]) -> bool { let d = NegativeBinomial::new(r, p); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_negbin_fallback(r: u64, p: f64, xs: &[u64]) -> f64 { let d = NegativeBinomial::new(r, p); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_negbin_batch(r: u64, p: f64, xs: &[u64]) -> Vec<f64> { let d = NegativeBinomial::new(r, p); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_negbin_at(r: u64, p: f64, x: u64) -> f64 { let d = NegativeBinomial::new(r, p); measures_core::log_density_at(&d, &x) }
pub fn root_c07_negbin_at(r: u64, p: f64, x: u64) -> f64 { let d = NegativeBinomial::new(r, p); d.log_density().at(&x) }
pub fn root_c07_negbin_wrt(r: u64, p: f64, r2: u64, p2: f64, x: u64) -> f64 { let d = NegativeBinomial::new(r, p); let e = NegativeBinomial::new(r2, p2); d.log_density().wrt(e).at(&x) }
pub fn root_c20_negbin_mv(r: u64, p: f64) -> (f64, f64) { let d = NegativeBinomial::new(r, p); (d.mean(), d.variance()) }
pub fn root_c21_negbin_new(r: u64, p: f64) -> bool { let _d = NegativeBinomial::new(r, p); true }
pub fn root_c02_geometric_ld(p: f64, x: u64) -> f64 { let d = Geometric::new(p); d.log_density_wrt_root(&x) }
pub fn root_c03_geometric_support(p: f64, x: u64) -> bool { let d = Geometric::new(p); d.in_support(x) }
pub fn root_c04_geometric_efld(p: f64, x: u64) -> f64 { let d = Geometric::new(p); d.exp_fam_log_density(&x) }
pub fn root_c04_geometric_fn(p: f64, x: u64) -> f64 { let d = Geometric::new(p); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_geometric_nat(p: f64) -> ([f64; 1], f64) { let d = Geometric::new(p); ExponentialFamily::<u64, f64>::natural_and_log_partition(&d) }
pub fn root_c05_geometric_tonat(p: f64) -> [f64; 1] { let d = Geometric::new(p); ExponentialFamily::<u64, f64>::to_natural(&d) }
pub fn root_c05_geometric_logpart(p: f64) -> f64 { let d = Geometric::new(p); ExponentialFamily::<u64, f64>::log_partition(&d) }
pub fn root_c05_geometric_stat(p: f64, x: u64) -> [f64; 1] { let d = Geometric::new(p); d.sufficient_statistic(&x) }
pub fn root_c05_geometric_base(p: f64, x: u64) -> f64 { let d = Geometric::new(p); ExponentialFamily::<u64, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c05_geometric_rtrip(p: f64, x: u64) -> f64 { let d = Geometric::new(p); let e = <Geometric<f64> as ExponentialFamily<u64, f64>>::from_natural(ExponentialFamily::<u64, f64>::to_natural(&d)); e.log_density_wrt_root(&x) }
pub fn root_c06_geometric_iid(p: f64, xs: &[u64]) -> f64 { let d = Geometric::new(p); IID::new(d).iid_log_density(xs) }
pub fn root_c06_geometric_iidef(p: f64, xs: &[u64]) -> f64 { let d = Geometric::new(p); IID::new(d).exp_fam_log_density(&xs.to_vec()) }
pub fn root_c06_geometric_iidld(p: f64, xs: &[u64]) -> f64 { let d = Geometric::new(p); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_geometric_iidsupp(p: f64, xs: &[u64]) -> bool { let d = Geometric::new(p); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_geometric_iidstat(p: f64, xs: &[u64]) -> [f64; 1] { let d = Geometric::new(p); ExponentialFamily::<Vec<u64>, f64>::sufficient_statistic(&IID::new(d), &xs.to_vec()) }
pub fn root_c06_geometric_iidbase(p: f64, xs: &[u64]) -> f64 { let d = Geometric::new(p); ExponentialFamily::<Vec<u64>, f64>::base_measure(&IID::new(d)).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_geometric_fallback(p: f64, xs: &[u64]) -> f64 { let d = Geometric::new(p); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_geometric_batch(p: f64, xs: &[u64]) -> Vec<f64> { let d = Geometric::new(p); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_geometric_at(p: f64, x: u64) -> f64 { let d = Geometric::new(p); measures_core::log_density_at(&d, &x) }
pub fn root_c07_geometric_at(p: f64, x: u64) -> f64 { let d = Geometric::new(p); d.log_density().at(&x) }
pub fn root_c07_geometric_wrt(p: f64, p2: f64, x: u64) -> f64 { let d = Geometric::new(p); let e = Geometric::new(p2); d.log_density().wrt(e).at(&x) }
pub fn root_c20_geometric_mv(p: f64) -> (f64, f64) { let d = Geometric::new(p); (d.mean(), d.variance()) }
pub fn root_c21_geometric_new(p: f64) -> bool { let _d = Geometric::new(p); true }
pub fn root_c02_bernoulli_ld(p: f64, x: u8) -> f64 { let d = Bernoulli::new(p); d.log_density_wrt_root(&x) }
pub fn root_c03_bernoulli_support(p: f64, x: u8) -> bool { let d = Bernoulli::new(p); d.in_support(x) }
pub fn root_c04_bernoulli_efld(p: f64, x: u8) -> f64 { let d = Bernoulli::new(p); d.exp_fam_log_density(&x) }
pub fn root_c04_bernoulli_fn(p: f64, x: u8) -> f64 { let d = Bernoulli::new(p); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_bernoulli_nat(p: f64) -> ([f64; 1], f64) { let d = Bernoulli::new(p); ExponentialFamily::<u8, f64>::natural_and_log_partition(&d) }
pub fn root_c05_bernoulli_tonat(p: f64) -> [f64; 1] { let d = Bernoulli::new(p); ExponentialFamily::<u8, f64>::to_natural(&d) }
pub fn root_c05_bernoulli_logpart(p: f64) -> f64 { let d = Bernoulli::new(p); ExponentialFamily::<u8, f64>::log_partition(&d) }
pub fn root_c05_bernoulli_stat(p: f64, x: u8) -> [f64; 1] { let d = Bernoulli::new(p); d.sufficient_statistic(&x) }
pub fn root_c05_bernoulli_base(p: f64, x: u8) -> f64 { let d = Bernoulli::new(p); ExponentialFamily::<u8, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c05_bernoulli_rtrip(p: f64, x: u8) -> f64 { let d = Bernoulli::new(p); let e = <Bernoulli<f64> as ExponentialFamily<u8, f64>>::from_natural(ExponentialFamily::<u8, f64>::to_natural(&d)); e.log_density_wrt_root(&x) }
pub fn root_c06_bernoulli_iid(p: f64, xs: &[u8]) -> f64 { let d = Bernoulli::new(p); IID::new(d).iid_log_density(xs) }
pub fn root_c06_bernoulli_iidef(p: f64, xs: &[u8]) -> f64 { let d = Bernoulli::new(p); IID::new(d).exp_fam_log_density(&xs.to_vec()) }
pub fn root_c06_bernoulli_iidld(p: f64, xs: &[u8]) -> f64 { let d = Bernoulli::new(p); IID::new(d).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_bernoulli_iidsupp(p: f64, xs: &[u8]) -> bool { let d = Bernoulli::new(p); IID::new(d).in_support(xs.to_vec()) }
pub fn root_c06_bernoulli_iidstat(p: f64, xs: &[u8]) -> [f64; 1] { let d = Bernoulli::new(p); ExponentialFamily::<Vec<u8>, f64>::sufficient_statistic(&IID::new(d), &xs.to_vec()) }
pub fn root_c06_bernoulli_iidbase(p: f64, xs: &[u8]) -> f64 { let d = Bernoulli::new(p); ExponentialFamily::<Vec<u8>, f64>::base_measure(&IID::new(d)).log_density_wrt_root(&xs.to_vec()) }
pub fn root_c06_bernoulli_fallback(p: f64, xs: &[u8]) -> f64 { let d = Bernoulli::new(p); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_bernoulli_batch(p: f64, xs: &[u8]) -> Vec<f64> { let d = Bernoulli::new(p); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_bernoulli_at(p: f64, x: u8) -> f64 { let d = Bernoulli::new(p); measures_core::log_density_at(&d, &x) }
pub fn root_c07_bernoulli_at(p: f64, x: u8) -> f64 { let d = Bernoulli::new(p); d.log_density().at(&x) }
pub fn root_c07_bernoulli_wrt(p: f64, p2: f64, x: u8) -> f64 { let d = Bernoulli::new(p); let e = Bernoulli::new(p2); d.log_density().wrt(e).at(&x) }
pub fn root_c20_bernoulli_mv(p: f64) -> (f64, f64) { let d = Bernoulli::new(p); (d.mean(), d.variance()) }
pub fn root_c21_bernoulli_new(p: f64) -> bool { let _d = Bernoulli::new(p); true }
pub fn root_c02_categorical_ld(probs: &[f64], x: usize) -> f64 { let d = Categorical::new(probs.to_vec()); d.log_density_wrt_root(&x) }
pub fn root_c03_categorical_support(probs: &[f64], x: usize) -> bool { let d = Categorical::new(probs.to_vec()); d.in_support(x) }
pub fn root_c04_categorical_efld(probs: &[f64], x: usize) -> f64 { let d = Categorical::new(probs.to_vec()); d.exp_fam_log_density(&x) }
pub fn root_c04_categorical_fn(probs: &[f64], x: usize) -> f64 { let d = Categorical::new(probs.to_vec()); measures_exponential_family::compute_exp_fam_log_density(&d, &x) }
pub fn root_c05_categorical_nat(probs: &[f64]) -> (Vec<f64>, f64) { let d = Categorical::new(probs.to_vec()); ExponentialFamily::<usize, f64>::natural_and_log_partition(&d) }
pub fn root_c05_categorical_tonat(probs: &[f64]) -> Vec<f64> { let d = Categorical::new(probs.to_vec()); ExponentialFamily::<usize, f64>::to_natural(&d) }
pub fn root_c05_categorical_logpart(probs: &[f64]) -> f64 { let d = Categorical::new(probs.to_vec()); ExponentialFamily::<usize, f64>::log_partition(&d) }
pub fn root_c05_categorical_rtrip(probs: &[f64], x: usize) -> f64 { let d = Categorical::new(probs.to_vec()); let e = <Categorical<f64> as ExponentialFamily<usize, f64>>::from_natural(ExponentialFamily::<usize, f64>::to_natural(&d)); e.log_density_wrt_root(&x) }
pub fn root_c05_categorical_stat(probs: &[f64], x: usize) -> Vec<f64> { let d = Categorical::new(probs.to_vec()); d.sufficient_statistic(&x) }
pub fn root_c05_categorical_base(probs: &[f64], x: usize) -> f64 { let d = Categorical::new(probs.to_vec()); ExponentialFamily::<usize, f64>::base_measure(&d).log_density_wrt_root(&x) }
pub fn root_c06_categorical_fallback(probs: &[f64], xs: &[usize]) -> f64 { let d = Categorical::new(probs.to_vec()); IID::new(d).iid_log_density_fallback(xs) }
pub fn root_c09_categorical_batch(probs: &[f64], xs: &[usize]) -> Vec<f64> { let d = Categorical::new(probs.to_vec()); measures_core::log_density_batch(&d, xs) }
pub fn root_c09_categorical_at(probs: &[f64], x: usize) -> f64 { let d = Categorical::new(probs.to_vec()); measures_core::log_density_at(&d, &x) }
pub fn root_c07_categorical_at(probs: &[f64], x: usize) -> f64 { let d = Categorical::new(probs.to_vec()); d.log_density().at(&x) }
pub fn root_c07_categorical_wrt(probs: &[f64], probs2: &[f64], x: usize) -> f64 { let d = Categorical::new(probs.to_vec()); let e = Categorical::new(probs2.to_vec()); d.log_density().wrt(e).at(&x) }
pub fn root_c20_categorical_mv(probs: &[f64]) -> (f64, f64) { let d = Categorical::new(probs.to_vec()); (d.mean(), d.variance()) }
pub fn root_c21_categorical_new(probs: &[f64]) -> bool { let _d = Categorical::new(probs.to_vec()); true }
pub fn root_c01_cauchy_logpdf(loc: f64, scale: f64, x: f64) -> f64 { Cauchy::new(loc, scale).log_pdf(x) }
pub fn root_c01_studentt_logpdf(nu: f64, x: f64) -> f64 { StudentT::new(nu).log_pdf(x) }
pub fn root_c20_normal_acc(mean: f64, sd: f64) -> (f64, f64, f64, f64) { let d = Normal::new(mean, sd); (d.variance(), d.mean, d.std_dev, { let p = d.params(); let _ = p; d.std_dev }) }
pub fn root_c20_cauchy_acc(loc: f64, scale: f64) -> (f64, f64) { let d = Cauchy::new(loc, scale); (d.location(), d.scale()) }
pub fn root_c20_cauchy_std() -> (f64, f64) { let d = Cauchy::<f64>::standard(); (d.location(), d.scale()) }
pub fn root_c20_chisq_acc(k: f64) -> (f64, f64) { let d = ChiSquared::new(k); (d.shape(), d.rate()) }
pub fn root_c20_gamma_acc(shape: f64, rate: f64) -> (f64, f64, f64) { let d = Gamma::new(shape, rate); (d.shape, d.rate, d.scale()) }
pub fn root_c20_gamma_fss(shape: f64, scale: f64) -> (f64, f64, f64) { let d = Gamma::from_shape_scale(shape, scale); (d.shape, d.rate, d.scale()) }
pub fn root_c20_studentt_acc(nu: f64) -> f64 { StudentT::new(nu).nu() }
pub fn root_c20_bernoulli_acc(p: f64) -> f64 { Bernoulli::new(p).log_odds() }
pub fn root_c20_binomial_acc(n: u64, p: f64) -> f64 { Binomial::new(n, p).log_odds() }
pub fn root_c20_geometric_acc(p: f64) -> f64 { Geometric::new(p).failure_prob() }
pub fn root_c20_negbin_acc(r: u64, p: f64) -> (f64, f64) { let d = NegativeBinomial::new(r, p); (d.log_odds(), d.failure_prob()) }
pub fn root_c20_categorical_uniform(k: usize) -> (usize, Vec<f64>) { let d = Categorical::<f64>::uniform(k); (d.num_categories(), d.probs) }
pub fn root_c11_logfact(k: u64) -> f64 { measures_combinators::measures::derived::factorial::log_factorial::<f64>(k) }
// inherent joint densities (through the decomposition of the distribution)
pub fn root_c06_normal_inh(mean: f64, sd: f64, xs: &[f64]) -> f64 { Normal::new(mean, sd).log_density_iid(xs) }
pub fn root_c06_cauchy_inh(loc: f64, scale: f64, xs: &[f64]) -> f64 { Cauchy::new(loc, scale).log_density_iid(xs) }
pub fn root_c06_studentt_inh(nu: f64, xs: &[f64]) -> f64 { StudentT::new(nu).log_density_iid(xs) }
// documented default distributions
pub fn root_c20_defaults() -> ((f64, f64), f64, (f64, f64), (f64, f64), f64) {
    let n = Normal::<f64>::default(); let e = Exponential::<f64>::default(); let g = Gamma::<f64>::default(); let b = Beta::<f64>::default(); let c = ChiSquared::<f64>::default();
    ((n.mean, n.std_dev), e.rate, (g.shape, g.rate), (b.alpha, b.beta), c.degrees_of_freedom)
}
pub fn root_c20_defaults2() -> ((f64, f64), f64, f64, f64, f64) {
    let c = Cauchy::<f64>::default(); let t = StudentT::<f64>::default(); let b = Bernoulli::<f64>::default(); let g = Geometric::<f64>::default(); let p = Poisson::<f64>::default();
    ((c.location(), c.scale()), t.nu(), b.prob, g.prob, p.rate)
}
pub fn root_c20_params(mean: f64, sd: f64, nu: f64) -> ((f64, f64), (f64, f64), f64) { (Normal::new(mean, sd).params(), Cauchy::new(mean, sd).params(), StudentT::new(nu).params()) }
