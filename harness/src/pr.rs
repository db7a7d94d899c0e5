//! entry points for the printed forms of symbolic expressions
use symbolic_math::Expr;
use symbolic_math::display::{PrettyExpr, equation, latex, python};
pub fn root_c23_display(e: &Expr) -> String { e.to_string() }
pub fn root_c23_pretty(e: &Expr) -> String { PrettyExpr(e).to_string() }
pub fn root_c23_latex(e: &Expr) -> String { e.to_latex() }
pub fn root_c23_python(e: &Expr) -> String { e.to_python() }
pub fn root_c23_dlatex(e: &Expr) -> String { latex(e) }
pub fn root_c23_dpython(e: &Expr) -> String { python(e) }
pub fn root_c23_equation(lhs: &str, e: &Expr) -> String { equation(lhs, e) }
