//! entry points for the interpreters of tagless expressions (symbolic-math, exponential-family, distributions)
use measures_distributions::distributions::final_tagless::{DistributionEval, patterns as dp};
use measures_exponential_family::final_tagless::{ExpFamEval, patterns as fp};
use symbolic_math::final_tagless::{DirectEval, JITEval, JITRepr, MathExpr, PrettyPrint, StatisticalExpr};
use symbolic_math::jit::JITError;
type RJ = Result<f64, JITError>;
pub fn root_c16_de_arith(a: f64, b: f64) -> [f64; 4] { [DirectEval::add::<f64, f64, f64>(a, b), DirectEval::sub::<f64, f64, f64>(a, b), DirectEval::mul::<f64, f64, f64>(a, b), DirectEval::div::<f64, f64, f64>(a, b)] }
pub fn root_c16_de_pow(a: f64, b: f64) -> f64 { <DirectEval as MathExpr>::pow::<f64>(a, b) }
pub fn root_c16_de_un(a: f64) -> [f64; 5] { [<DirectEval as MathExpr>::neg::<f64>(a), <DirectEval as MathExpr>::exp::<f64>(a), <DirectEval as MathExpr>::sin::<f64>(a), <DirectEval as MathExpr>::cos::<f64>(a), <DirectEval as MathExpr>::constant::<f64>(a)] }
pub fn root_c16_de_ln(a: f64) -> f64 { <DirectEval as MathExpr>::ln::<f64>(a) }
pub fn root_c16_de_sqrt(a: f64) -> f64 { <DirectEval as MathExpr>::sqrt::<f64>(a) }
pub fn root_c16_de_var(name: &str, a: f64) -> f64 { DirectEval::var(name, a) }
pub fn root_c16_fe_arith(a: f64, b: f64) -> [f64; 4] { [ExpFamEval::add::<f64, f64, f64>(a, b), ExpFamEval::sub::<f64, f64, f64>(a, b), ExpFamEval::mul::<f64, f64, f64>(a, b), ExpFamEval::div::<f64, f64, f64>(a, b)] }
pub fn root_c16_fe_pow(a: f64, b: f64) -> f64 { <ExpFamEval as MathExpr>::pow::<f64>(a, b) }
pub fn root_c16_fe_un(a: f64) -> [f64; 5] { [<ExpFamEval as MathExpr>::neg::<f64>(a), <ExpFamEval as MathExpr>::exp::<f64>(a), <ExpFamEval as MathExpr>::sin::<f64>(a), <ExpFamEval as MathExpr>::cos::<f64>(a), <ExpFamEval as MathExpr>::constant::<f64>(a)] }
pub fn root_c16_fe_ln(a: f64) -> f64 { <ExpFamEval as MathExpr>::ln::<f64>(a) }
pub fn root_c16_fe_sqrt(a: f64) -> f64 { <ExpFamEval as MathExpr>::sqrt::<f64>(a) }
pub fn root_c16_fe_var(name: &str, a: f64) -> f64 { ExpFamEval::var(name, a) }
pub fn root_c16_ve_arith(a: f64, b: f64) -> [f64; 4] { [DistributionEval::add::<f64, f64, f64>(a, b), DistributionEval::sub::<f64, f64, f64>(a, b), DistributionEval::mul::<f64, f64, f64>(a, b), DistributionEval::div::<f64, f64, f64>(a, b)] }
pub fn root_c16_ve_pow(a: f64, b: f64) -> f64 { <DistributionEval as MathExpr>::pow::<f64>(a, b) }
pub fn root_c16_ve_un(a: f64) -> [f64; 5] { [<DistributionEval as MathExpr>::neg::<f64>(a), <DistributionEval as MathExpr>::exp::<f64>(a), <DistributionEval as MathExpr>::sin::<f64>(a), <DistributionEval as MathExpr>::cos::<f64>(a), <DistributionEval as MathExpr>::constant::<f64>(a)] }
pub fn root_c16_ve_ln(a: f64) -> f64 { <DistributionEval as MathExpr>::ln::<f64>(a) }
pub fn root_c16_ve_sqrt(a: f64) -> f64 { <DistributionEval as MathExpr>::sqrt::<f64>(a) }
pub fn root_c16_ve_var(name: &str, a: f64) -> f64 { DistributionEval::var(name, a) }
pub fn root_c16_de_logistic(a: f64) -> f64 { <DirectEval as StatisticalExpr>::logistic::<f64>(a) }
pub fn root_c16_de_softplus(a: f64) -> f64 { <DirectEval as StatisticalExpr>::softplus::<f64>(a) }
pub fn root_c16_de_sigmoid(a: f64) -> f64 { <DirectEval as StatisticalExpr>::sigmoid::<f64>(a) }
pub fn root_c16_pp_add(l: &str, r: &str) -> String { PrettyPrint::add::<f64, f64, f64>(l.to_string(), r.to_string()) }
pub fn root_c16_pp_sub(l: &str, r: &str) -> String { PrettyPrint::sub::<f64, f64, f64>(l.to_string(), r.to_string()) }
pub fn root_c16_pp_mul(l: &str, r: &str) -> String { PrettyPrint::mul::<f64, f64, f64>(l.to_string(), r.to_string()) }
pub fn root_c16_pp_div(l: &str, r: &str) -> String { PrettyPrint::div::<f64, f64, f64>(l.to_string(), r.to_string()) }
pub fn root_c16_pp_pow(l: &str, r: &str) -> String { <PrettyPrint as MathExpr>::pow::<f64>(l.to_string(), r.to_string()) }
pub fn root_c16_pp_neg(l: &str) -> String { <PrettyPrint as MathExpr>::neg::<f64>(l.to_string()) }
pub fn root_c16_pp_ln(l: &str) -> String { <PrettyPrint as MathExpr>::ln::<f64>(l.to_string()) }
pub fn root_c16_pp_exp(l: &str) -> String { <PrettyPrint as MathExpr>::exp::<f64>(l.to_string()) }
pub fn root_c16_pp_sqrt(l: &str) -> String { <PrettyPrint as MathExpr>::sqrt::<f64>(l.to_string()) }
pub fn root_c16_pp_sin(l: &str) -> String { <PrettyPrint as MathExpr>::sin::<f64>(l.to_string()) }
pub fn root_c16_pp_cos(l: &str) -> String { <PrettyPrint as MathExpr>::cos::<f64>(l.to_string()) }
pub fn root_c16_pp_logistic(l: &str) -> String { <PrettyPrint as StatisticalExpr>::logistic::<f64>(l.to_string()) }
pub fn root_c16_pp_softplus(l: &str) -> String { <PrettyPrint as StatisticalExpr>::softplus::<f64>(l.to_string()) }
pub fn root_c16_pp_sigmoid(l: &str) -> String { <PrettyPrint as StatisticalExpr>::sigmoid::<f64>(l.to_string()) }
pub fn root_c16_pp_var(l: &str) -> (String, String) { (<PrettyPrint as MathExpr>::var::<f64>(l), PrettyPrint::var(l)) }
pub fn root_c16_pp_const(c: f64) -> String { <PrettyPrint as MathExpr>::constant::<f64>(c) }
pub fn root_c16_pp_powc(c: f64, r: &str) -> String { <PrettyPrint as MathExpr>::pow::<f64>(<PrettyPrint as MathExpr>::constant::<f64>(c), r.to_string()) }
pub fn root_c16_jt_add(l: JITRepr, r: JITRepr) -> JITRepr { JITEval::add::<f64, f64, f64>(l, r) }
pub fn root_c16_jt_sub(l: JITRepr, r: JITRepr) -> JITRepr { JITEval::sub::<f64, f64, f64>(l, r) }
pub fn root_c16_jt_mul(l: JITRepr, r: JITRepr) -> JITRepr { JITEval::mul::<f64, f64, f64>(l, r) }
pub fn root_c16_jt_div(l: JITRepr, r: JITRepr) -> JITRepr { JITEval::div::<f64, f64, f64>(l, r) }
pub fn root_c16_jt_pow(l: JITRepr, r: JITRepr) -> JITRepr { <JITEval as MathExpr>::pow::<f64>(l, r) }
pub fn root_c16_jt_neg(l: JITRepr) -> JITRepr { <JITEval as MathExpr>::neg::<f64>(l) }
pub fn root_c16_jt_ln(l: JITRepr) -> JITRepr { <JITEval as MathExpr>::ln::<f64>(l) }
pub fn root_c16_jt_exp(l: JITRepr) -> JITRepr { <JITEval as MathExpr>::exp::<f64>(l) }
pub fn root_c16_jt_sqrt(l: JITRepr) -> JITRepr { <JITEval as MathExpr>::sqrt::<f64>(l) }
pub fn root_c16_jt_sin(l: JITRepr) -> JITRepr { <JITEval as MathExpr>::sin::<f64>(l) }
pub fn root_c16_jt_cos(l: JITRepr) -> JITRepr { <JITEval as MathExpr>::cos::<f64>(l) }
pub fn root_c16_jt_logistic(l: JITRepr) -> JITRepr { <JITEval as StatisticalExpr>::logistic::<f64>(l) }
pub fn root_c16_jt_softplus(l: JITRepr) -> JITRepr { <JITEval as StatisticalExpr>::softplus::<f64>(l) }
pub fn root_c16_jt_sigmoid(l: JITRepr) -> JITRepr { <JITEval as StatisticalExpr>::sigmoid::<f64>(l) }
pub fn root_c16_jt_const(c: f64) -> JITRepr { <JITEval as MathExpr>::constant::<f64>(c) }
pub fn root_c16_jt_var(name: &str) -> (JITRepr, JITRepr) { (<JITEval as MathExpr>::var::<f64>(name), JITEval::var(name)) }
pub fn root_c16_jr_complexity(e: &JITRepr) -> usize { e.estimate_complexity() }
pub fn root_c16_jr_constants(e: &JITRepr) -> usize { e.count_constants() }
pub fn root_c16_jr_variables(e: &JITRepr) -> Vec<String> { let mut v: Vec<String> = e.collect_variables().into_iter().collect(); v.sort(); v }
pub fn root_c16_fp_stdnormal_de(x: f64) -> f64 { fp::standard_normal_log_density::<DirectEval>(x) }
pub fn root_c16_fp_normal_de(x: f64, mu: f64, sigma: f64) -> f64 { fp::normal_log_density::<DirectEval>(x, mu, sigma) }
pub fn root_c16_fp_exponential_de(x: f64, rate: f64) -> f64 { fp::exponential_log_density::<DirectEval>(x, rate) }
pub fn root_c16_fp_stdnormal_jt(x: JITRepr) -> JITRepr { fp::standard_normal_log_density::<JITEval>(x) }
pub fn root_c16_fp_normal_jt(x: JITRepr, mu: JITRepr, sigma: JITRepr) -> JITRepr { fp::normal_log_density::<JITEval>(x, mu, sigma) }
pub fn root_c16_fp_exponential_jt(x: JITRepr, rate: JITRepr) -> JITRepr { fp::exponential_log_density::<JITEval>(x, rate) }
pub fn root_c16_dp_stdnormal_de(x: f64) -> f64 { dp::standard_normal_log_density::<DirectEval>(x) }
pub fn root_c16_dp_normal_de(x: f64, mu: f64, sigma: f64) -> f64 { dp::normal_log_density::<DirectEval>(x, mu, sigma) }
pub fn root_c16_dp_exponential_de(x: f64, rate: f64) -> f64 { dp::exponential_log_density::<DirectEval>(x, rate) }
pub fn root_c16_dp_stdnormal_jt(x: JITRepr) -> JITRepr { dp::standard_normal_log_density::<JITEval>(x) }
pub fn root_c16_dp_normal_jt(x: JITRepr, mu: JITRepr, sigma: JITRepr) -> JITRepr { dp::normal_log_density::<JITEval>(x, mu, sigma) }
pub fn root_c16_dp_exponential_jt(x: JITRepr, rate: JITRepr) -> JITRepr { dp::exponential_log_density::<JITEval>(x, rate) }
pub fn root_c16_dp_cauchy_de(x: f64, loc: f64, scale: f64) -> f64 { dp::cauchy_log_density::<DirectEval>(x, loc, scale) }
pub fn root_c16_dp_cauchy_jt(x: JITRepr, loc: JITRepr, scale: JITRepr) -> JITRepr { dp::cauchy_log_density::<JITEval>(x, loc, scale) }
pub fn root_c16_ve_normal(x: f64, mu: f64, sigma: f64) -> f64 { DistributionEval::normal_log_density(x, mu, sigma) }
pub fn root_c16_ve_exponential(x: f64, rate: f64) -> f64 { DistributionEval::exponential_log_density(x, rate) }
pub fn root_c16_ve_gamma(x: f64, shape: f64, rate: f64) -> f64 { DistributionEval::gamma_log_density(x, shape, rate) }
pub fn root_c16_ve_lgamma(x: f64) -> f64 { DistributionEval::log_gamma(x) }
fn quad<E: MathExpr>(x: E::Repr<f64>, a: f64, b: f64, c: f64) -> E::Repr<f64> where E::Repr<f64>: Clone { E::add::<f64, f64, f64>(E::add::<f64, f64, f64>(E::mul::<f64, f64, f64>(E::constant(a), E::pow(x.clone(), E::constant(2.0))), E::mul::<f64, f64, f64>(E::constant(b), x)), E::constant(c)) }
pub fn root_c16_agree_quad(x: f64, a: f64, b: f64, c: f64) -> Result<(f64, f64), JITError> { Ok((quad::<DirectEval>(x, a, b, c), JITEval::compile_single_var(quad::<JITEval>(JITEval::var("x"), a, b, c), "x")?.call_single(x))) }
pub fn root_c16_agree_auto(x: f64, y: f64) -> RJ { Ok(JITEval::compile(JITEval::sub::<f64, f64, f64>(JITEval::var("y"), JITEval::var("x")))?.call_batch(&[x, y], &[])) }
