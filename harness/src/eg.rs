//! equality saturation: the optimised form of an expression
use symbolic_math::Expr;
use symbolic_math::optimization::{EgglogOptimize, EgglogOptimizer};
pub fn root_c25_rules() -> bool { EgglogOptimizer::new().is_ok() }
pub fn root_c25_opt(e: &Expr) -> Option<Expr> { e.optimize_with_egglog().ok() }
pub fn root_c25_again(e: &Expr, f: &Expr) -> Option<Expr> {
    let mut o = EgglogOptimizer::new().ok()?;
    let _ = o.optimize(f).ok()?;
    o.optimize(e).ok()
}
