//! entry points for mathjit
use mathjit::expr::Expr as TExpr;
use mathjit::{DirectEval, MathExpr, PrettyPrint, StatisticalExpr, polynomial};
pub fn root_c19_de_arith(a: f64, b: f64) -> [f64; 4] { [DirectEval::add::<f64, f64, f64>(a, b), DirectEval::sub::<f64, f64, f64>(a, b), DirectEval::mul::<f64, f64, f64>(a, b), DirectEval::div::<f64, f64, f64>(a, b)] }
pub fn root_c19_de_pow(a: f64, b: f64) -> f64 { <DirectEval as MathExpr>::pow::<f64>(a, b) }
pub fn root_c19_de_un(a: f64) -> [f64; 5] { [<DirectEval as MathExpr>::neg::<f64>(a), <DirectEval as MathExpr>::exp::<f64>(a), <DirectEval as MathExpr>::sin::<f64>(a), <DirectEval as MathExpr>::cos::<f64>(a), <DirectEval as MathExpr>::constant::<f64>(a)] }
pub fn root_c19_de_ln(a: f64) -> f64 { <DirectEval as MathExpr>::ln::<f64>(a) }
pub fn root_c19_de_sqrt(a: f64) -> f64 { <DirectEval as MathExpr>::sqrt::<f64>(a) }
pub fn root_c19_de_var(name: &str, a: f64) -> f64 { DirectEval::var(name, a) }
pub fn root_c19_de_logistic(a: f64) -> f64 { <DirectEval as StatisticalExpr>::logistic::<f64>(a) }
pub fn root_c19_de_softplus(a: f64) -> f64 { <DirectEval as StatisticalExpr>::softplus::<f64>(a) }
pub fn root_c19_de_sigmoid(a: f64) -> f64 { <DirectEval as StatisticalExpr>::sigmoid::<f64>(a) }
pub fn root_c19_pp_add(l: &str, r: &str) -> String { PrettyPrint::add::<f64, f64, f64>(l.to_string(), r.to_string()) }
pub fn root_c19_pp_sub(l: &str, r: &str) -> String { PrettyPrint::sub::<f64, f64, f64>(l.to_string(), r.to_string()) }
pub fn root_c19_pp_mul(l: &str, r: &str) -> String { PrettyPrint::mul::<f64, f64, f64>(l.to_string(), r.to_string()) }
pub fn root_c19_pp_div(l: &str, r: &str) -> String { PrettyPrint::div::<f64, f64, f64>(l.to_string(), r.to_string()) }
pub fn root_c19_pp_pow(l: &str, r: &str) -> String { <PrettyPrint as MathExpr>::pow::<f64>(l.to_string(), r.to_string()) }
pub fn root_c19_pp_neg(l: &str) -> String { <PrettyPrint as MathExpr>::neg::<f64>(l.to_string()) }
pub fn root_c19_pp_ln(l: &str) -> String { <PrettyPrint as MathExpr>::ln::<f64>(l.to_string()) }
pub fn root_c19_pp_exp(l: &str) -> String { <PrettyPrint as MathExpr>::exp::<f64>(l.to_string()) }
pub fn root_c19_pp_sqrt(l: &str) -> String { <PrettyPrint as MathExpr>::sqrt::<f64>(l.to_string()) }
pub fn root_c19_pp_sin(l: &str) -> String { <PrettyPrint as MathExpr>::sin::<f64>(l.to_string()) }
pub fn root_c19_pp_cos(l: &str) -> String { <PrettyPrint as MathExpr>::cos::<f64>(l.to_string()) }
pub fn root_c19_pp_logistic(l: &str) -> String { <PrettyPrint as StatisticalExpr>::logistic::<f64>(l.to_string()) }
pub fn root_c19_pp_softplus(l: &str) -> String { <PrettyPrint as StatisticalExpr>::softplus::<f64>(l.to_string()) }
pub fn root_c19_pp_sigmoid(l: &str) -> String { <PrettyPrint as StatisticalExpr>::sigmoid::<f64>(l.to_string()) }
pub fn root_c19_pp_var(l: &str) -> (String, String) { (<PrettyPrint as MathExpr>::var::<f64>(l), PrettyPrint::var(l)) }
pub fn root_c19_pp_const(c: f64) -> String { <PrettyPrint as MathExpr>::constant::<f64>(c) }
pub fn root_c19_pp_powc(c: f64, r: &str) -> String { <PrettyPrint as MathExpr>::pow::<f64>(<PrettyPrint as MathExpr>::constant::<f64>(c), r.to_string()) }
pub fn root_c19_horner(coeffs: &[f64], x: f64) -> f64 { polynomial::horner::<DirectEval, f64>(coeffs, x) }
pub fn root_c19_hornerx(coeffs: &[f64], x: f64) -> f64 { polynomial::horner_expr::<DirectEval, f64>(coeffs, x) }
pub fn root_c19_roots(roots: &[f64], x: f64) -> f64 { polynomial::from_roots::<DirectEval, f64>(roots, x) }
pub fn root_c19_deriv(coeffs: &[f64], x: f64) -> f64 { polynomial::horner_derivative::<DirectEval, f64>(coeffs, x) }
pub fn root_c19_wrap(a: f64) -> (f64, f64, f64) { (TExpr::<DirectEval, f64>::new(a).into_repr(), *TExpr::<DirectEval, f64>::new(a).as_repr(), TExpr::<DirectEval, f64>::constant(a).into_repr()) }
