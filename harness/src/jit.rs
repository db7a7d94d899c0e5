//! entry points for the native-code compiler
use std::collections::HashMap;
use symbolic_math::Expr;
use symbolic_math::jit::{CustomSymbolicLogDensity, GeneralJITCompiler, GeneralJITFunction, JITError};
use symbolic_math::final_tagless::{JITEval, JITRepr};
pub type RJ = Result<f64, JITError>;
// ---- C15 compiled expressions
pub fn root_c15_single(e: &Expr, x: &str, consts: &HashMap<String, f64>, a: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_expression(e, &[x.to_string()], &[], consts)?.call_single(a)) }
pub fn root_c15_param(e: &Expr, x: &str, t: &str, consts: &HashMap<String, f64>, a: f64, b: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_expression(e, &[x.to_string()], &[t.to_string()], consts)?.call_data_param(a, b)) }
pub fn root_c15_params2(e: &Expr, x: &str, t: &str, u: &str, consts: &HashMap<String, f64>, a: f64, b: f64, c: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_expression(e, &[x.to_string()], &[t.to_string(), u.to_string()], consts)?.call_data_params(a, &[b, c])) }
pub fn root_c15_params3(e: &Expr, x: &str, t: &str, u: &str, w: &str, consts: &HashMap<String, f64>, a: f64, b: f64, c: f64, d: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_expression(e, &[x.to_string()], &[t.to_string(), u.to_string(), w.to_string()], consts)?.call_data_params(a, &[b, c, d])) }
pub fn root_c15_custom(e: Expr, params: HashMap<String, f64>, a: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_custom_expression(&CustomSymbolicLogDensity::new(e, params))?.call_single(a)) }
pub struct Cj(Expr, HashMap<String, f64>);
impl measures_exponential_family::exponential_family::jit::CustomJITOptimizer<f64, f64> for Cj { fn custom_symbolic_log_density(&self) -> CustomSymbolicLogDensity { CustomSymbolicLogDensity::new(self.0.clone(), self.1.clone()) } }
pub fn root_c15_customjit(e: Expr, params: HashMap<String, f64>, a: f64) -> RJ { Ok(measures_exponential_family::exponential_family::jit::CustomJITOptimizer::<f64, f64>::compile_custom_jit(&Cj(e, params))?.call_single(a)) }
pub fn root_c15_wrongcall(e: &Expr, x: &str, t: &str, consts: &HashMap<String, f64>, a: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_expression(e, &[x.to_string()], &[t.to_string()], consts)?.call_single(a)) }
pub fn root_c15_tsingle(e: JITRepr, x: &str, a: f64) -> RJ { Ok(JITEval::compile_single_var(e, x)?.call_single(a)) }
pub fn root_c15_tparam(e: JITRepr, x: &str, t: &str, a: f64, b: f64) -> RJ { Ok(JITEval::compile_data_param(e, x, t)?.call_data_param(a, b)) }
pub fn root_c15_tparams(e: JITRepr, x: &str, t: &str, u: &str, a: f64, b: f64, c: f64) -> RJ { Ok(JITEval::compile_data_params(e, x, &[t.to_string(), u.to_string()])?.call_data_params(a, &[b, c])) }
pub fn root_c15_tsig(e: JITRepr, x: &str, t: &str, a: f64, b: f64) -> RJ { Ok(JITEval::compile_with_signature(e, &[x.to_string()], &[t.to_string()])?.call_data_param(a, b)) }
pub fn root_c15_tconst(e: JITRepr, x: &str, k: &str, v: f64, a: f64) -> RJ { Ok(JITEval::compile_with_constants(e, &[x.to_string()], &[], &HashMap::from([(k.to_string(), v)]))?.call_single(a)) }
// ---- C15 the generated elementary functions
pub fn root_c15_ln(x: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_expression(&Expr::Ln(Box::new(Expr::Var("x".to_string()))), &["x".to_string()], &[], &HashMap::new())?.call_single(x)) }
pub fn root_c15_exp(x: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_expression(&Expr::Exp(Box::new(Expr::Var("x".to_string()))), &["x".to_string()], &[], &HashMap::new())?.call_single(x)) }
pub fn root_c15_sin(x: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_expression(&Expr::Sin(Box::new(Expr::Var("x".to_string()))), &["x".to_string()], &[], &HashMap::new())?.call_single(x)) }
pub fn root_c15_cos(x: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_expression(&Expr::Cos(Box::new(Expr::Var("x".to_string()))), &["x".to_string()], &[], &HashMap::new())?.call_single(x)) }
pub fn root_c15_pow(x: f64, y: f64) -> RJ { Ok(GeneralJITCompiler::new()?.compile_expression(&Expr::Pow(Box::new(Expr::Var("x".to_string())), Box::new(Expr::Var("y".to_string()))), &["x".to_string()], &["y".to_string()], &HashMap::new())?.call_data_param(x, y)) }
// ---- C15 calls with separate data and parameter lists; the Bayesian front end
fn cb(e: &Expr, d: &[&str], p: &[&str], k: &HashMap<String, f64>, x: &[f64], y: &[f64]) -> RJ { let s = |l: &[&str]| -> Vec<String> { l.iter().map(|n| n.to_string()).collect() }; Ok(GeneralJITCompiler::new()?.compile_expression(e, &s(d), &s(p), k)?.call_batch(x, y)) }
pub fn root_c15_batch0(e: &Expr, consts: &HashMap<String, f64>) -> RJ { cb(e, &[], &[], consts, &[], &[]) }
pub fn root_c15_batch2(e: &Expr, x: &str, t: &str, consts: &HashMap<String, f64>, a: f64, b: f64) -> RJ { cb(e, &[x], &[t], consts, &[a], &[b]) }
pub fn root_c15_batch4(e: &Expr, x: &str, y: &str, t: &str, u: &str, consts: &HashMap<String, f64>, a: f64, b: f64, c: f64, d: f64) -> RJ { cb(e, &[x, y], &[t, u], consts, &[a, b], &[c, d]) }
pub fn root_c15_batch3(e: &Expr, x: &str, t: &str, u: &str, consts: &HashMap<String, f64>, a: f64, b: f64, c: f64) -> RJ { cb(e, &[x], &[t, u], consts, &[a], &[b, c]) }
pub fn root_c15_batch6(e: &Expr, x: &str, consts: &HashMap<String, f64>, v0: f64, v1: f64, v2: f64, v3: f64, v4: f64, v5: f64) -> RJ { cb(e, &[x, "b", "c"], &["t", "u", "w"], consts, &[v0, v1, v2], &[v3, v4, v5]) }
pub fn root_c15_batch8(e: &Expr, x: &str, consts: &HashMap<String, f64>, v0: f64, v1: f64, v2: f64, v3: f64, v4: f64, v5: f64, v6: f64, v7: f64) -> RJ { cb(e, &["a", "b", "c"], &["t", "u", "w", "z", x], consts, &[v0, v1, v2], &[v3, v4, v5, v6, v7]) }
pub fn root_c15_bposterior(e: &Expr, x: &str, t: &str, consts: &HashMap<String, f64>, a: f64, b: f64) -> Result<Option<f64>, JITError> { let mut o = measures_bayesian::BayesianJITOptimizer::new(); o.compile_posterior_jit(e, &[x.to_string()], &[t.to_string()], consts)?; Ok(o.evaluate_posterior(&[a], &[b])) }
pub fn root_c15_blikelihood(e: &Expr, x: &str, t: &str, consts: &HashMap<String, f64>, a: f64, b: f64) -> Result<Option<f64>, JITError> { let mut o = measures_bayesian::BayesianJITOptimizer::new(); o.compile_likelihood_jit(e, &[x.to_string()], &[t.to_string()], consts)?; Ok(o.evaluate_likelihood(&[a], &[b])) }
pub fn root_c15_bprior(e: &Expr, t: &str, u: &str, consts: &HashMap<String, f64>, a: f64, b: f64) -> Result<Option<f64>, JITError> { let mut o = measures_bayesian::BayesianJITOptimizer::new(); o.compile_prior_jit(e, &[t.to_string(), u.to_string()], consts)?; Ok(o.evaluate_prior(&[a, b])) }
pub fn root_c15_bmixed(e: &Expr, g: &Expr, x: &str, t: &str, consts: &HashMap<String, f64>, a: f64, b: f64) -> Result<(Option<f64>, Option<f64>, Option<f64>), JITError> { let mut o = measures_bayesian::BayesianJITOptimizer::new(); o.compile_posterior_jit(e, &[x.to_string()], &[t.to_string()], consts)?; let n = o.evaluate_prior(&[b]); o.compile_likelihood_jit(g, &[x.to_string()], &[t.to_string()], consts)?; Ok((o.evaluate_posterior(&[a], &[b]), o.evaluate_likelihood(&[a], &[b]), n)) }
