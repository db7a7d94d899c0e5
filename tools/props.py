p('C01','Continuous log-densities equal the textbook formula',
 'For every valid parameter value and every real argument, the log-density of each continuous distribution equals the logarithm of its textbook density inside the support and is negative infinity outside it.',
 ['inputs'],'all admissible parameters and all real arguments of Normal, Exponential, Gamma, Beta, ChiSquared, Cauchy, StudentT',
 'The tests compare a few points per distribution; the claim is over a continuum of parameters and arguments, including support boundaries.',
 [D+'continuous/'],[('log_density_wrt_root of every continuous distribution',D+'continuous/*.rs')],
 note='every path of the compiled function equals the textbook term in exact real arithmetic; companion runs of the compiled code are bounded and not counted')
p('C02','Discrete log-densities equal the textbook formula',
 'For every valid parameter value and every outcome, the log-density of each discrete distribution equals the logarithm of its textbook probability mass, and is negative infinity outside the support.',
 ['inputs'],'all admissible parameters and outcomes of Poisson, Binomial, NegativeBinomial, Geometric, Bernoulli, Categorical (any number of categories)',
 'The tests sample a few parameter/outcome pairs; the formulas must hold for all of them, and for any number of categories.',
 [D+'discrete/'],[('log_density_wrt_root of every discrete distribution',D+'discrete/*.rs')],
 note='as C01; loops (log-factorial sums, probability vectors) are summarised for every length')
p('C03','Support tests describe exactly the textbook support',
 'For every distribution, every valid parameter and every point, the support test answers true exactly when the point has positive density or mass.',
 ['inputs'],'all parameters and points, all 14 distributions','Tests probe individual points near the boundaries only.',
 [D],[('in_support',D+'*/*.rs')],note='all paths proved equivalent to the textbook predicate by z3')
p('C04','Exponential-family evaluation equals the log-density',
 'For every exponential-family distribution, every valid parameter and every point of the support, evaluating through the exponential-family representation (natural parameter, sufficient statistic, log-partition, base measure) gives the same value as the log-density.',
 ['inputs'],'all parameters and support points of the 12 exponential-family distributions, any number of categories',
 'The identity couples four separately implemented functions; tests check single numbers for some of the families.',
 [E+'traits.rs',E+'implementations.rs',D],[('exp_fam_log_density',E+'traits.rs'),('compute_exp_fam_log_density',E+'implementations.rs'),('ExponentialFamily impls',D)],
 note='Poisson beyond the lookup table is proved within the documented 1e-10 of ln k! using an enclosure of the Stirling series')
p('C05','Natural parameters, statistics, log-partition and base measure are right',
 'For every exponential-family distribution the natural parameter, log-partition, sufficient statistic and log base measure each equal their textbook expression, and rebuilding the distribution from its natural parameter gives a distribution with the same density.',
 ['inputs'],'all parameters and support points of the exponential-family distributions',
 'A pair of compensating errors leaves densities right at the sampled points; round trips are tested for a handful of values.',
 [E+'traits.rs',D],[('to_natural/from_natural/sufficient_statistic/base_measure/natural_and_log_partition',D+'*/*.rs')],
 note='NegativeBinomial natural parameter is a recorded finding pinned by the existing tests')
p('C06','Joint densities of independent samples are sums over the sample',
 'For every sample size (including zero) and every sample, the joint log-density of independent observations equals the sum of the individual log-densities, is negative infinity as soon as one observation is outside the support, and agrees between the exponential-family route, the IID wrapper and the element-wise fallback.',
 ['inputs'],'all samples of any length for all distributions, and arbitrary measures for the fallback',
 'Tests use samples of a few fixed lengths; the statement is about every length and every position of an out-of-support element.',
 [E+'iid.rs',E+'traits.rs'],[('IID wrapper',E+'iid.rs'),('exp_fam_iid_log_density',E+'traits.rs')],
 note='loops over the sample are summarised for every length; NegativeBinomial natural parameter is a recorded finding')
p('C07','Relative densities follow the algebra of Radon-Nikodym derivatives',
 'For any two measures sharing a root, the log-density of one with respect to the other at a point of both supports is the difference of their log-densities; with respect to the root it is the log-density itself, with respect to itself it is zero, it is antisymmetric, satisfies the chain rule, and does not depend on which dispatch route (exponential family or not) evaluates it.',
 ['inputs'],'all pairs of measures (left arbitrary), all points','The dispatch has several branches chosen by type-level flags and identity tests; tests exercise a few concrete pairs.',
 ['measures-core/src/core/density.rs','measures-core/src/core/measure.rs'],[('LogDensity::at, wrt',"measures-core/src/core/density.rs"),('LogDensityBuilder','measures-core/src/core/measure.rs')],
 note='component measures are uninterpreted functions, so the result covers every measure; plus all built-in distributions')
p('C08','Structured decompositions evaluate to the log-density',
 'A log-density decomposition with any number of data, parameter, mixed and constant terms evaluates to the sum of all its terms; its IID evaluation equals the sum over the samples for every sample size; partial evaluations return their own group; and the decompositions of Normal, Cauchy and Student-t evaluate to the log-density at any parameters.',
 ['inputs'],'all term lists of any length with arbitrary term functions, all samples of any length',
 'Tests check decompositions with one or two terms on one sample.',
 ['measures-core/src/core/log_density_decomposition.rs',D+'continuous/'],[('evaluate, evaluate_iid, builder','measures-core/src/core/log_density_decomposition.rs'),('HasLogDensityDecomposition impls',D+'continuous/{normal,cauchy,student_t}.rs')],
 note='term functions are uninterpreted')
p('C09','Batch evaluation and caching are transparent',
 'Evaluating a batch gives exactly the element-wise densities in order, for every batch length; and a cached log-density returns, for every history of queries, exactly what the uncached log-density returns.',
 ['inputs','histories'],'all batches of any length, all query histories, arbitrary measures',
 'A stale or mis-keyed cache entry only shows for particular query histories.',
 ['measures-core/src/core/density.rs',D+'mod.rs'],[('CachedLogDensity','measures-core/src/core/density.rs'),('log_density_batch','measures-core/src/core/density.rs')],
 note='cache: representation invariant proved inductive from an arbitrary cache state')
p('C10','Combinators have the densities measure theory prescribes',
 'The product of measures has the sum of the component log-densities; a mixture has the log of the weighted sum of densities for any number of components, with zero weights and missing mass handled; a pushforward follows the change-of-variables formula with the correct Jacobian for the log, exp, linear and logit transformations, whose inverses really invert; weighted and integral measures add their log-weight; supports combine accordingly.',
 ['inputs'],'arbitrary component measures, any number of mixture components, all points in the image of the transformation',
 'Tests use two or three Gaussian components at single points; cancellation of maxima, zero weights and Jacobian signs depend on the inputs.',
 [M],[('product',M+'combinators/product.rs'),('mixture',M+'combinators/superposition.rs'),('pushforward',M+'combinators/pushforward.rs'),('derived measures',M+'derived/')],
 note='component measures are uninterpreted; mixed patterns of zero weights / missing mass are bounded to three components')
p('C11','Base-measure terms are the exact combinatorial quantities',
 'log k! is exact to 1e-10 for every k (table and Stirling branches alike), the factorial, binomial-coefficient and negative-binomial base measures return -log k!, log C(n,k) and log C(k+r-1,k) for all arguments with -inf outside 0..=n, their supports agree, and root measures have log-density zero with respect to themselves.',
 ['inputs'],'every k, n, r of the u64 range','Tests compare a few table entries and small arguments; a wrong digit in one table entry, or a wrong Stirling coefficient, shows only at particular k.',
 [M+'derived/'],[('log_factorial and FactorialMeasure',M+'derived/factorial.rs'),('binomial coefficients',M+'derived/binomial_coefficient.rs'),('negative binomial coefficients',M+'derived/negative_binomial_coefficient.rs')],
 note='ln_gamma of the special crate is an assumed contract')
p('C12','Symbolic expressions evaluate to what they denote',
 'Evaluating a symbolic expression, in every context, returns the value of the arithmetic it denotes; a variable without a value, a zero divisor, a logarithm of a non-positive number and a root of a negative number are reported as errors (the first one met) and never turned into a number; the single-variable, multi-variable, batched and vectorised evaluators agree with it element by element for batches of every length; the variable list is exactly the set of variables that occur.',
 ['inputs'],'all expression trees (by structural induction), all contexts, batches of every length',
 'Tests evaluate a handful of small expressions; the statement is about every tree, every context and every batch length.',
 ['symbolic-math/src/expr.rs'],[('Expr::evaluate and evaluate_*','symbolic-math/src/expr.rs'),('Expr::variables','symbolic-math/src/expr.rs')],
 note='recursive calls are replaced by their own contract (structural induction); the literal shortcut 0*_ -> 0 of the evaluator is tolerated where the other factor is undefined')
p('C13','Simplification preserves meaning',
 'Simplifying a symbolic expression never changes its value: at every assignment of the variables at which the original expression is defined, the simplified expression is defined too and has the same value; the equality of expressions used by the rewriting rules is structural equality.',
 ['inputs'],'all expression trees (by induction over the recursive calls), all variable assignments',
 'Each rewriting rule is right for the positive inputs tests use; a rule valid only on part of the domain (square roots, powers, logarithms of negative bases) shows only at particular trees and signs.',
 ['symbolic-math/src/expr.rs'],[('Expr::simplify','symbolic-math/src/expr.rs')],
 note='recursive calls are replaced by their own contract; partial correctness (termination is not proved)')
p('C14','Expression caches are transparent',
 'Cached evaluation returns exactly what uncached evaluation returns, and a cached simplification keeps the value of the expression, whatever calls were made before, by whatever threads, and whatever the caches hold as a result: two different expressions (or the same expression under different variables) never share an answer. The cached calls never deadlock on their own locks; clearing empties both caches and the counters; every call is counted once, as a hit if it was answered from the cache and as a miss otherwise, and the hit rates are hits over calls.',
 ['inputs','schedules','history'],'all expressions, variable maps, earlier calls and interleavings of threads',
 'Tests ask for the same small expression twice; a collision between keys, a wrong entry left behind by an earlier call or another thread, or a lock held across a second lock shows only in particular histories.',
 ['symbolic-math/src/expr.rs'],[('evaluate_cached, simplify_cached, clear_caches, CacheStats','symbolic-math/src/expr.rs')],
 note='thread-modular: every lock acquisition sees arbitrary contents satisfying the cache invariant; the invariant is re-established by every insertion; assumed: Mutex, HashMap and core::fmt as documented (Debug of f64, String and tuples is injective)')
p('C22','Symbolic log-densities and expression builders denote what they say',
 'A symbolic log-density evaluated at given variables is its expression evaluated with its parameters as defaults and the given variables overriding them; simplifying it, or substituting its parameters, keeps its value wherever it is defined; the operators (expression with expression, with a number on either side), the constructors and the method forms build an expression that denotes exactly the named operation on the operands; the ready-made quadratic, linear and normal-constant terms equal their closed formulas for every parameter and variable value, and a non-positive or zero scale is reported as an error.',
 ['inputs'],'all expressions, parameter maps, variable maps and numbers',
 'Tests build a few expressions with non-clashing names; precedence between parameters and variables, operand order and operator choice must be right for all of them.',
 ['symbolic-math/src/expr.rs','symbolic-math/src/jit.rs'],[('SymbolicLogDensity and substitute_expr','symbolic-math/src/expr.rs'),('CustomSymbolicLogDensity','symbolic-math/src/jit.rs'),('operators and builders','symbolic-math/src/expr.rs')],
 note='evaluation and simplification are replaced by their contracts (C12, C13); maps are arbitrary')
p('C15','Compiled (JIT) functions compute the expression they were compiled from',
 'For every expression, constants and argument values, a function compiled by the JIT (general compiler, final-tagless compiler, custom log-densities, Bayesian optimizer; called with single, data/parameter or batch argument lists) returns the value the expression denotes with the arguments bound in the declared order; compilation fails exactly when a variable has no binding; calling with the wrong number of arguments is refused. The generated elementary functions are accurate: ln within 1e-11 absolute for every positive x, exp within 1e-11 relative on [-708, 709.7] (infinity above, 0 below), sin and cos within 1e-10 for |x| <= 10^6, powers with the right sign and special cases.',
 ['inputs'],'all expressions, constants, variable names and argument values (custom log-densities: up to 3 distinct variable names); all f64 arguments of the generated elementary functions, rounding of + - * / idealised',
 'Tests compile a few formulas and compare at a few points with loose tolerances; a wrong quadrant, coefficient digit, exponent bit, argument slot or special value shows only for other operands, signs, ranges or argument lists.',
 ['symbolic-math/src/jit.rs','symbolic-math/src/final_tagless.rs','measures-bayesian/src/bayesian/jit.rs'],[('generate_clif_from_expr_with_vars, generate_*_call, compile_expression, call_*','symbolic-math/src/jit.rs'),('JITRepr::generate_ir, JITEval::compile_*','symbolic-math/src/final_tagless.rs')],
 note='the code generator is executed symbolically on arbitrary trees and its output term proved to denote the expression; accuracy of the emitted ln/exp/sin/cos terms by Taylor models with rigorous remainders over all arguments; Cranelift itself (instruction semantics) trusted, companion runs execute the real native code')
p('C16','Interpreters of tagless expressions agree with the formula they interpret',
 'Each interpreter of a final-tagless formula in the symbolic-math, exponential-family and distributions crates computes (or builds, or prints) exactly the named operation on its operands: the direct, exponential-family and distribution evaluators perform the f64 operation; the JIT interpreter builds the node of that operation over the same operands, its constants exactly, and reports the set of variables, number of constants and complexity of the tree; the pretty-printer prints a text that reads back, under ordinary precedence, as that operation on the operands, for every printed operand; logistic, softplus and sigmoid and the ready-made log-density patterns (standard normal, normal, exponential, Cauchy, gamma; log-gamma) equal their closed formulas in every interpreter.',
 ['inputs'],'all operand values, all operand trees (structural induction), all printed operands including negative constants',
 'Tests run one formula at one point through each interpreter and compare a few printed strings; a lost variable in one branch, a rounded constant, a missing parenthesis or a wrong term shows only for other operands.',
 ['symbolic-math/src/final_tagless.rs','measures-exponential-family/src/exponential_family/final_tagless.rs','measures-distributions/src/distributions/final_tagless.rs'],[('DirectEval, PrettyPrint, JITEval, JITRepr, StatisticalExpr','symbolic-math/src/final_tagless.rs'),('ExpFamEval, patterns','measures-exponential-family/src/exponential_family/final_tagless.rs'),('DistributionEval, patterns','measures-distributions/src/distributions/final_tagless.rs')],
 note='text is read by a reader in the verifier with the usual precedence (^ above prefix minus above * / above + -); ln_gamma of the special crate is an assumed contract; patterns that panic as not implemented are out of scope')
p('C17','Exponential-family evaluators agree with the log-density',
 'Every alternative evaluator of an exponential family returns the same log-density as the family itself: the zero-overhead closures (function and trait method, for a single observation, for an IID sample of any size, and relative to another distribution) equal eta.T(x) - A + log h(x), once per observation, for every exponential family and on the support of each family of the library; the inlined normal and exponential kernels are the closed log-densities (negative infinity below zero for the exponential); dot products, sums of sufficient statistics and the final-tagless exponential-family formulas (log-density, IID log-density, logistic, softplus, log-sum-exp, normal and exponential patterns) compute their formulas for inputs of any length and refuse mismatched lengths.',
 ['inputs'],'all valid parameters, observations, sample sizes and slice lengths; an arbitrary two-parameter exponential family with uninterpreted natural parameter, statistic, log-partition and base measure',
 'Tests compare one evaluator with another at one or two points of the normal and exponential; a term counted once instead of once per observation, a lost base measure or a dropped slot shows only for other families, sample sizes or lengths.',
 ['measures-exponential-family/src/exponential_family/jit.rs','measures-exponential-family/src/exponential_family/final_tagless.rs','measures-exponential-family/src/exponential_family/array_utils.rs','measures-exponential-family/src/exponential_family/traits.rs'],[('generate_zero_overhead_exp_fam, generate_zero_overhead_exp_fam_wrt, StaticInlineJITCompiler','measures-exponential-family/src/exponential_family/jit.rs'),('ExponentialFamilyExpr, ExpFamEval, patterns','measures-exponential-family/src/exponential_family/final_tagless.rs'),('sum_sufficient_stats','measures-exponential-family/src/exponential_family/traits.rs')])
p('C18','Bayesian model expressions denote their log-densities',
 'The ready-made model expressions evaluate, for all values of their variables and parameters, to the closed log-densities they are named after: the normal likelihood and prior are the Gaussian log-density, a posterior is likelihood plus prior, the hierarchical normal adds the likelihood and both priors, a mixture likelihood is the log of the weighted sum of its component densities for any number of components (negative infinity for none, a panic when the lengths differ); the general builders (normal log-density, Gaussian kernel, logistic, softplus, polynomial with any number of coefficients) denote their formulas for arbitrary operand expressions; a missing variable or a non-positive scale is reported as an error.',
 ['inputs'],'all operand expressions, variable values, parameters, numbers of components and coefficients',
 'Tests look at the outermost constructor of the built expression or at one value; a swapped operand, a wrong sign or exponent, or a lost component shows only at other values or lengths.',
 ['measures-bayesian/src/bayesian/mod.rs','symbolic-math/src/lib.rs'],[('expressions::*','measures-bayesian/src/bayesian/mod.rs'),('builders::*','symbolic-math/src/lib.rs')],
 note='loops that build expressions are summarised on the values the expressions denote, for every length; scales and weights positive in mixtures')
p('C19','MathJIT polynomials and interpreters compute their formulas',
 'In the mathjit crate, the Horner evaluators return sum c_i x^i, the derivative evaluator sum i c_i x^(i-1) and the root form the product of (x - r_i), for every number of coefficients or roots (none included); the direct interpreter performs the named f64 operation, logistic, softplus and sigmoid are their formulas, the expression wrapper keeps its value, and the pretty-printer prints a text that reads back, under ordinary precedence, as the operation it was given, for every printed operand.',
 ['inputs'],'coefficient and root lists of every length, all values, all printed operands including negative constants',
 'Tests use polynomials of degree two or three; an index, power or factor that goes wrong only for longer lists, and a missing parenthesis, is not exercised.',
 ['mathjit/src/final_tagless.rs'],[('polynomial::*','mathjit/src/final_tagless.rs'),('DirectEval, PrettyPrint, StatisticalExpr','mathjit/src/final_tagless.rs'),('Expr wrapper','mathjit/src/expr.rs')],
 note='arithmetic of f64 as exact arithmetic in the loop invariants')
p('C20','Means, variances and parameter accessors are right',
 'For every valid parameter value the mean, variance and derived-parameter accessors of each distribution return the textbook value, and alternative constructors build the same distribution.',
 ['inputs'],'all admissible parameters','Tests check one or two parameter values.',
 [D],[('mean, variance and accessors',D+'*/*.rs')],note='')
p('C21','Constructors accept exactly the valid parameters',
 'Every distribution constructor succeeds for exactly the documented parameter domain and panics outside it, so no distribution object with invalid parameters exists.',
 ['inputs'],'all parameter values','Tests try a few invalid values; comparisons at the boundary of the domain are easy to get wrong.',
 [D],[('new and friends',D+'*/*.rs')],note='')
p('C23','Printed formulas read back as the expression',
 'The text printed for a symbolic expression (Display and the pretty printer in plain notation, to_python and the Python display utility in Python notation, to_latex and the LaTeX display utility in LaTeX, and the equation utility) denotes exactly that expression when it is read with the usual precedence rules of its notation: no operand is lost or exchanged, no parenthesis that the reading needs is missing, constants are printed exactly (also negative and very large ones), and the display utilities print the notation they are named after.',
 ['inputs'],'all expressions with finite constants whose variables are identifiers (structural induction over the constructors, printed operands of every shape)',
 'Tests compare a few printed strings; a missing parenthesis, a rounded constant or numbers that run together show only for particular combinations of operators and operands.',
 ['symbolic-math/src/expr.rs'],[('Display for Expr','symbolic-math/src/expr.rs'),('to_latex, to_python','symbolic-math/src/expr.rs'),('display module','symbolic-math/src/expr.rs')],
 note='the text is read by a reader in the verifier: minus sign below power, power right-associative, LaTeX juxtaposition of a number and a name is a product; non-finite constants and a variable called e in LaTeX are excluded')
p('C24','Numeric conversions and vector helpers keep values',
 'The numeric helpers of the core crate keep every value that the target type can hold and never invoke undefined behaviour: safe_convert, safe_convert_or, safe_float_convert and float_constant return the value itself for float targets (infinities and NaN included), the value with its fraction cut off for integer targets when it fits, and exactly the default (or the given fallback, or an error) when it does not; array_sub is the component-wise difference.',
 ['inputs'],'all f64 values including infinities and NaN, all integers up to 2^53 in magnitude',
 'Tests convert one or two small numbers; negative, fractional, huge and non-finite values take other branches.',
 ['measures-core/src/core/utils.rs','measures-core/src/traits/dot_product.rs'],[('safe_convert and friends, float_constant','measures-core/src/core/utils.rs'),('array_sub','measures-core/src/traits/dot_product.rs')],
 note='array_sub is generic in its length; instances 1, 2 and 5 are proved; conversion contracts are proved for f64, u64, i64 and u32 instances')
p('C25','Equality-saturation optimisation keeps the value',
 'With the optimization feature, EgglogOptimizer::new().optimize(e) and e.optimize_with_egglog() return an expression with the same value as e for every assignment at which e has a value: every rewrite rule keeps the value of whatever it rewrites wherever that has a value, the expression is handed to the e-graph exactly (constants with all their digits, operands in order, variables by name), and the extracted answer is read back exactly.',
 ['inputs'],'all expressions with finite constants whose variables are identifiers, all assignments; values as real numbers',
 'The tests optimise a few expressions and look at their shape; an unsound rule, a rounded constant or exchanged operands show only for particular shapes and signs.',
 ['symbolic-math/src/optimization.rs'],[('rewrite rules in EgglogOptimizer::new','symbolic-math/src/optimization.rs'),('expr_to_egglog, egglog_to_expr, parse_binary_args, optimize','symbolic-math/src/optimization.rs')],
 note='assumed of the egglog crate: it runs the declared program and extract prints some term that the rules make equal to the expression; the scan for the end of an operand in parse_binary_args is checked on a bounded list of nested answers')
p('C26','Change of variables and the automatic-differentiation layer compute what they say',
 'With the autodiff feature: LinearTransform::new(A, b, m, n).transform(x) is A x + b (row-major A, every digit of the entries) for every size, its constructor panics when the sizes disagree and transform panics on an input of the wrong size; ComponentwiseTransform applies its function to every component in order; log_abs_det_jacobian is the logarithm of |det| of the Jacobian; TransformedMeasure hands back the base measure and the transformation it was built from; at_ad and the value part of value_and_grad are the log-density at the point (absolute or relative) and its second part is the derivative; with_reverse_ad and with_forward_ad leave a measure unchanged.',
 ['inputs'],'all matrices, offsets and points of every size, every component function, every measure; T = f64',
 'The module has no working test at all (its tests print PENDING); row/column mix-ups and rounding show only for rectangular matrices or entries that are not short binary fractions.',
 ['measures-combinators/src/measures/combinators/transform.rs','measures-core/src/core/autodiff.rs'],[('LinearTransform, ComponentwiseTransform, TransformedMeasure','measures-combinators/src/measures/combinators/transform.rs'),('LogDensityAD, AutoDiffMeasure, constructors','measures-core/src/core/autodiff.rs')],
 note='recorded defects: both log_abs_det_jacobian functions always return 0, value_and_grad returns the value in place of the derivative')
