//! entry points for the symbolic expression layer
use std::collections::HashMap;
use symbolic_math::Expr;
use symbolic_math::expr::EvalError;
pub type RF = Result<f64, EvalError>;
pub type RV = Result<Vec<f64>, EvalError>;
// ---- C12 evaluators
pub fn root_c12_eval(e: &Expr, vars: &HashMap<String, f64>) -> RF { e.evaluate(vars) }
pub fn root_c12_single(e: &Expr, name: &str, value: f64) -> RF { e.evaluate_single_var(name, value) }
pub fn root_c12_poly(e: &Expr, name: &str, value: f64) -> Option<f64> { e.evaluate_polynomial(name, value) }
pub fn root_c12_linear(e: &Expr, name: &str, value: f64) -> Option<f64> { e.evaluate_linear(name, value) }
pub fn root_c12_coeffs(e: &Expr, name: &str, value: f64) -> Option<(f64, f64)> { let _ = value; e.extract_linear_coefficients(name) }
pub fn root_c12_smart(e: &Expr, name: &str, value: f64) -> RF { e.evaluate_smart(name, value) }
pub fn root_c12_batch(e: &Expr, name: &str, values: &[f64]) -> RV { e.evaluate_batch(name, values) }
pub fn root_c12_batchopt(e: &Expr, name: &str, values: &[f64]) -> RV { e.evaluate_batch_optimized(name, values) }
pub fn root_c12_batchvars(e: &Expr, sets: &[HashMap<String, f64>]) -> RV { e.evaluate_batch_vars(sets) }
pub fn root_c12_grid(e: &Expr, xn: &str, xs: &[f64], yn: &str, ys: &[f64]) -> Result<Vec<Vec<f64>>, EvalError> { e.evaluate_grid(xn, xs, yn, ys) }
pub fn root_c12_complexity(e: &Expr) -> usize { e.complexity() }
pub fn root_c12_variables(e: &Expr) -> Vec<String> { e.variables() }
// ---- C13 simplification
pub fn root_c13_simplify(e: Expr, vars: &HashMap<String, f64>) -> RF { e.simplify().evaluate(vars) }
pub fn root_c13_eq(a: &Expr, b: &Expr) -> bool { a == b }
// ---- C22 building expressions; symbolic log-densities with parameters
use symbolic_math::expr::{SymbolicLogDensity, builders};
use symbolic_math::jit::CustomSymbolicLogDensity;
pub fn root_c22_eval(e: Expr, params: HashMap<String, f64>, vars: &HashMap<String, f64>) -> RF { SymbolicLogDensity::new(e, params).evaluate(vars) }
pub fn root_c22_single(e: Expr, params: HashMap<String, f64>, name: &str, value: f64) -> RF { SymbolicLogDensity::new(e, params).evaluate_single(name, value) }
pub fn root_c22_simplified(e: Expr, params: HashMap<String, f64>, vars: &HashMap<String, f64>) -> RF { SymbolicLogDensity::new(e, params).simplify().evaluate(vars) }
pub fn root_c22_subst(e: Expr, params: HashMap<String, f64>, vars: &HashMap<String, f64>) -> RF { SymbolicLogDensity::new(e, params).substitute_parameters().expression.evaluate(vars) }
pub fn root_c22_jeval(e: Expr, params: HashMap<String, f64>, vars: &HashMap<String, f64>) -> RF { CustomSymbolicLogDensity::new(e, params).evaluate(vars) }
pub fn root_c22_jsingle(e: Expr, params: HashMap<String, f64>, name: &str, value: f64) -> RF { CustomSymbolicLogDensity::new(e, params).evaluate_single(name, value) }
pub fn root_c22_jsimplified(e: Expr, params: HashMap<String, f64>, vars: &HashMap<String, f64>) -> RF { CustomSymbolicLogDensity::new(e, params).simplify().evaluate(vars) }
pub fn root_c22_quadratic(name: &str, mu: f64, sigma: f64, value: f64) -> RF { builders::quadratic_term(name, mu, sigma).evaluate_single_var(name, value) }
pub fn root_c22_linear(name: &str, coeff: f64, value: f64) -> RF { builders::linear_term(name, coeff).evaluate_single_var(name, value) }
pub fn root_c22_normconst(sigma: f64, name: &str, value: f64) -> RF { builders::log_normal_constant(sigma).evaluate_single_var(name, value) }
pub fn root_c22_ops(a: Expr, b: Expr, vars: &HashMap<String, f64>) -> (RF, RF, RF, RF, RF) { ((a.clone() + b.clone()).evaluate(vars), (a.clone() - b.clone()).evaluate(vars), (a.clone() * b.clone()).evaluate(vars), (a.clone() / b.clone()).evaluate(vars), a.powf(b).evaluate(vars)) }
pub fn root_c22_ctors(a: Expr, b: Expr, vars: &HashMap<String, f64>) -> (RF, RF, RF, RF, RF) { (Expr::add(a.clone(), b.clone()).evaluate(vars), Expr::sub(a.clone(), b.clone()).evaluate(vars), Expr::mul(a.clone(), b.clone()).evaluate(vars), Expr::div(a.clone(), b.clone()).evaluate(vars), Expr::pow(a, b).evaluate(vars)) }
pub fn root_c22_opsr(a: Expr, c: f64, vars: &HashMap<String, f64>) -> (RF, RF, RF, RF, RF) { ((a.clone() + c).evaluate(vars), (a.clone() - c).evaluate(vars), (a.clone() * c).evaluate(vars), (a.clone() / c).evaluate(vars), a.powf(c).evaluate(vars)) }
pub fn root_c22_opsl(a: Expr, c: f64, vars: &HashMap<String, f64>) -> (RF, RF, RF, RF) { ((c + a.clone()).evaluate(vars), (c - a.clone()).evaluate(vars), (c * a.clone()).evaluate(vars), (c / a).evaluate(vars)) }
pub fn root_c22_unary(a: Expr, vars: &HashMap<String, f64>) -> (RF, RF, RF, RF, RF, RF) { (Expr::ln(a.clone()).evaluate(vars), Expr::exp(a.clone()).evaluate(vars), Expr::sqrt(a.clone()).evaluate(vars), Expr::neg(a.clone()).evaluate(vars), a.clone().sin().evaluate(vars), a.cos().evaluate(vars)) }
pub fn root_c22_unary2(a: Expr, vars: &HashMap<String, f64>) -> (RF, RF, RF, RF) { (a.clone().natural_log().evaluate(vars), a.clone().exponential().evaluate(vars), a.clone().square_root().evaluate(vars), (-a).evaluate(vars)) }
pub fn root_c22_powers(a: Expr, vars: &HashMap<String, f64>) -> (RF, RF, RF) { (a.clone().square().evaluate(vars), a.clone().cube().evaluate(vars), a.abs().evaluate(vars)) }
pub fn root_c22_leaves(name: &str, c: f64, i: i32, vars: &HashMap<String, f64>) -> (RF, RF, RF, RF, RF, RF) { (Expr::constant(c).evaluate(vars), Expr::from(c).evaluate(vars), Expr::from(i).evaluate(vars), Expr::variable(name).evaluate(vars), Expr::from(name).evaluate(vars), Expr::from(name.to_string()).evaluate(vars)) }
// ---- C14 the global caches are transparent
use symbolic_math::expr::{clear_caches, get_cache_stats, CacheStats};
pub fn root_c14_eval(e: &Expr, vars: &HashMap<String, f64>) -> RF { e.evaluate_cached(vars) }
pub fn root_c14_simp(e: Expr, vars: &HashMap<String, f64>) -> RF { e.simplify_cached().evaluate(vars) }
pub fn root_c14_evals(a: &Expr, b: &Expr, vars: &HashMap<String, f64>, other: &HashMap<String, f64>) -> (RF, RF, RF, RF) { clear_caches(); (a.evaluate_cached(vars), b.evaluate_cached(vars), a.evaluate_cached(other), a.evaluate_cached(vars)) }
pub fn root_c14_simps(a: Expr, b: Expr, vars: &HashMap<String, f64>) -> (RF, RF, RF) { clear_caches(); let c = a.clone(); (a.simplify_cached().evaluate(vars), b.simplify_cached().evaluate(vars), c.simplify_cached().evaluate(vars)) }
pub fn root_c14_clear() -> (usize, usize, usize, usize) { clear_caches(); let s = get_cache_stats(); (s.simplification_hits, s.simplification_misses, s.evaluation_hits, s.evaluation_misses) }
pub fn root_c14_stats() -> (usize, usize, usize, usize) { let s = get_cache_stats(); (s.simplification_hits, s.simplification_misses, s.evaluation_hits, s.evaluation_misses) }
pub fn root_c14_rates(a: usize, b: usize, c: usize, d: usize) -> (f64, f64) { let s = CacheStats { simplification_hits: a, simplification_misses: b, evaluation_hits: c, evaluation_misses: d }; (s.simplification_hit_rate(), s.evaluation_hit_rate()) }
pub fn root_c14_key(e: &Expr, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(e, f) }
// ---- C18 Bayesian model expressions and the builders they use
use measures_bayesian::bayesian as bay;
use measures_bayesian::expressions as bx;
use symbolic_math::builders as sb;
pub fn root_c18_likelihood(x: &str, mu: &str, sigma: &str, vars: &HashMap<String, f64>) -> (RF, RF) { (bx::normal_likelihood(x, mu, sigma).evaluate(vars), bay::likelihood(x, mu, sigma).evaluate(vars)) }
pub fn root_c18_prior(name: &str, mean: f64, sd: f64, vars: &HashMap<String, f64>) -> (RF, RF) { (bx::normal_prior(name, mean, sd).evaluate(vars), bay::prior(name, mean, sd).evaluate(vars)) }
pub fn root_c18_posterior(a: Expr, b: Expr, vars: &HashMap<String, f64>) -> (RF, RF) { (bx::posterior_log_density(a.clone(), b.clone()).evaluate(vars), bay::posterior(a, b).evaluate(vars)) }
pub fn root_c18_hierarchical(x: &str, mu: &str, sigma: &str, tau: &str, m0: f64, s0: f64, vars: &HashMap<String, f64>) -> RF { bx::hierarchical_normal(x, mu, sigma, tau, m0, s0).evaluate(vars) }
pub fn root_c18_mixture(x: &str, w: &[f64], mu: &[f64], sd: &[f64], vars: &HashMap<String, f64>) -> RF { bx::mixture_likelihood(x, w, mu, sd).evaluate(vars) }
pub fn root_c18_mixold(parts: &[(f64, Expr)], vars: &HashMap<String, f64>) -> RF { bx::mixture_likelihood_old(parts).evaluate(vars) }
pub fn root_c18_variable(name: &str, vars: &HashMap<String, f64>) -> RF { bay::variable(name).evaluate(vars) }
pub fn root_c18_normal(x: Expr, mu: Expr, sigma: Expr, vars: &HashMap<String, f64>) -> RF { sb::normal_log_pdf(x, mu, sigma).evaluate(vars) }
pub fn root_c18_kernel(x: Expr, mu: Expr, sigma: Expr, vars: &HashMap<String, f64>) -> RF { sb::gaussian_kernel(x, mu, sigma).evaluate(vars) }
pub fn root_c18_curves(x: Expr, vars: &HashMap<String, f64>) -> (RF, RF) { (sb::logistic(x.clone()).evaluate(vars), sb::softplus(x).evaluate(vars)) }
pub fn root_c18_poly(x: Expr, coeffs: &[f64], vars: &HashMap<String, f64>) -> RF { sb::polynomial(x, coeffs).evaluate(vars) }
