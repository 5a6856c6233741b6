import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=[],obs=[]):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(('name','meaning','where'),s)) for s in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
F='src/Functions/'; I='include/gsplines/'
p('C01','Expression algebra is pointwise algebra',
 'Adding, subtracting, negating, multiplying (by a number or by a scalar function), taking the dot product of, and updating in place (+=, *=) functions yields a function whose value at every point of the domain is the corresponding operation on the operands\' values. This holds whatever the operands are (elementary functions, splines, dot products, or expressions nested in any way) and however they are passed (named objects or temporaries).',
 ['programs','inputs'],'every program of algebraic operations over every kind of operand, every value category, every evaluation point',
 'The tests combine a few elementary functions; they do not cross operation x operand representation x value category, nor nested in-place updates.',
 [F+'FunctionSum.cpp',F+'FunctionMul.cpp',F+'FunctionGenericOperations.cpp',F+'FunctionExpression.cpp',F+'FunctionBase.cpp',F+'ElementalFunctions.cpp'],
 [('operation handlers (copy or move the operand lists)',F+'FunctionGenericOperations.cpp'),('eval_sum_functions / eval_mul_functions / eval_negative_functions',F+'FunctionSum.cpp, FunctionMul.cpp, FunctionExpression.cpp'),('DotProduct::value_impl',F+'ElementalFunctions.cpp')],
 [('function_array_/type_','operands and operation of an expression','include/gsplines/Functions/FunctionExpression.hpp')],['value of the returned function'])
p('C02','Functions are values: operands are never disturbed, copies are independent',
 'No operation changes a function passed to it as a named (lvalue) operand, except the left operand of an in-place update; copies, clones and results stay valid and keep their values whatever is later done to, or however long live, the objects they were made from. Passing an operand as a temporary gives the same result as passing it as a named object. An operation that is rejected leaves its named operands unchanged.',
 ['programs','histories'],'every history of operations, copies, moves and destructions over a set of live functions',
 'Sharing, premature moves and self-operand bugs need a later observation of an object not involved in the failing call; the tests evaluate only the result.',
 [F+'FunctionGenericOperations.cpp',F+'FunctionExpression.cpp',F+'FunctionsComp.cpp',F+'FunctionsConcat.cpp',I+'Functions/FunctionInheritanceHelper.hpp',I+'GSpline.hpp'],
 [('clone / move_clone and the four value-category overloads of every operator',I+'Functions/FunctionBase.hpp, '+I+'Functions/FunctionInheritanceHelper.hpp'),('copy and move constructors',F+'FunctionExpression.cpp, src/GSpline.cpp')],
 [],['values, domain and codomain of every live function after every call'])
p('C03','Domains, codomain dimensions, and rejection of incompatible operands',
 'Every function reports the domain and codomain dimension its construction implies: sums, products, dot products and derivatives keep the common domain, a product has the larger codomain dimension, a dot product has dimension one, a composition has the inner function\'s domain and the outer function\'s codomain, a concatenation spans from the first left end to the last right end. Operations on operands with different domains or unsuitable codomain dimensions (sum or dot product of different dimensions, product of two vector functions, vector inner function in a composition, pieces that are not adjacent or of different dimension, in-place product of a scalar by a vector function) throw std::invalid_argument and change nothing.',
 ['programs','inputs'],'every operation on every pair of domains and codomain dimensions, in every value category',
 'Tests check a handful of exceptions for one overload each.',
 [F+'FunctionSum.cpp',F+'FunctionMul.cpp',F+'FunctionsComp.cpp',F+'FunctionsConcat.cpp',F+'FunctionBase.cpp',F+'ElementalFunctions.cpp'],
 [('sum_throw, compatibility_mul, compatibility_mul_assign, comp_throw, concat_throw, dot_throw',F),('same_domain / same_codomain',F+'FunctionBase.cpp')],
 [],['get_domain, get_codom_dim, exceptions'])
p('C04','Composition and concatenation',
 'A composition evaluates the outer function at the inner function\'s values, for chains of any length and grouping. A concatenation of adjacent pieces takes, at every point of its domain, the value of the piece whose domain contains the point (the later piece at a junction, the last piece at the right end), for any number of pieces, however grouped, with points given in any order or repeated.',
 ['programs','inputs'],'every chain and grouping, every value category, every point including junctions and ends',
 'Tests evaluate two or three pieces at interior points; flattening of nested chains, in every value category, is not covered.',
 [F+'FunctionsComp.cpp',F+'FunctionsConcat.cpp'],
 [('compose / concat list splicing',F+'FunctionsComp.cpp, '+F+'FunctionsConcat.cpp'),('eval_compose_functions, eval_concat_functions',F)],
 [],['values of compositions and concatenations'])
p('C05','Derivatives of any expression, to any order, are the exact derivatives',
 'The derivative of order m of any function, elementary or built by any nesting of sums, products, dot products, compositions, concatenations, negations and splines, evaluates at every differentiability point to the m-th derivative of the function, and order zero gives the function itself. Deriving m times equals deriving once with order m, and deriving never changes the function derived.',
 ['programs','inputs'],'every expression, every order, every point',
 'Tests check a few formulas; product, chain and dot product rules interact for nested operands and higher orders.',
 [F+'FunctionSum.cpp',F+'FunctionMul.cpp',F+'FunctionsComp.cpp',F+'FunctionsConcat.cpp',F+'ElementalFunctions.cpp',F+'FunctionExpression.cpp',F+'FunctionBase.cpp'],
 [('deriv_*_functions',F),('deriv_impl of elementary functions',F+'ElementalFunctions.cpp')],[],['values of derivatives'])
p('C06','Splines evaluate as piecewise linear combinations of their basis',
 'A spline\'s value at any point of its domain is, per component, the combination of the basis functions of the interval containing the point (the point mapped affinely onto the window [-1,1]) with the coefficients stored interval-major, then component, then basis function. Its reported breakpoints are the partial sums of the interval lengths from the left end of the domain, its waypoints are its values there, and a coefficient vector of the wrong length is rejected with std::invalid_argument.',
 ['inputs','configurations'],'every basis, number of intervals, codomain dimension, interval lengths, coefficients, evaluation points in any order',
 'Tests use equal intervals or few shapes; layout mistakes cancel when dimensions coincide.',
 ['src/GSpline.cpp',I+'GSpline.hpp'],[('get_interval, interval_to_window, coefficient_segment, value_impl','src/GSpline.cpp')],
 [('coefficients_','coefficients',I+'GSpline.hpp'),('domain_interval_lengths_','interval lengths',I+'GSpline.hpp')],['value, get_domain_breakpoints, get_waypoints'])
p('C07','Splines: derivative, vector space operations and equality',
 'The derivative of order m of a spline is a spline equal to its m-th derivative in every interval for every basis; sums, differences, negation and multiples of splines over the same breakpoints and basis, including in-place ones and with temporaries, are the pointwise ones, and combining splines of different basis, intervals, domain or dimension throws std::invalid_argument. Two splines compare equal exactly when domain, dimension, basis, interval lengths and coefficients agree (up to tolerance), and != is its negation.',
 ['inputs','programs','configurations'],'every basis, order, shape and value category',
 'Tests cover few orders and bases; value categories and inequality cases are not covered.',
 [I+'GSpline.hpp','src/GSpline.cpp','src/Basis/Basis.cpp','src/Tools.cpp'],[('GSplineInheritanceHelper operators and deriv_impl',I+'GSpline.hpp'),('operator==, same_vector_space','src/GSpline.cpp')],
 [],['coefficients and values of the results'])
p('C08','Basis functions, their derivatives and their dependence on interval length',
 'On the window, a Legendre basis of any dimension evaluates to the Legendre polynomials, a Lagrange basis to the Lagrange polynomials of its nodes, and the mixed polynomial-exponential-trigonometric basis to its six functions for the given interval length and parameter. Derivatives of any order with respect to time (the window being the affine image of an interval of the given length), and the derivatives of those with respect to the interval length at a fixed window point, are the exact ones. Copies of a basis, and a basis rebuilt from its name, dimension and parameters, evaluate identically, and bases compare equal exactly when name, dimension and parameters agree.',
 ['inputs','configurations'],'every basis, dimension, window point, interval length, derivative order',
 'Tests sample random points for a few dimensions and orders against finite differences with loose tolerances.',
 ['src/Basis/BasisLegendre.cpp','src/Basis/BasisLagrange.cpp','src/Basis/Basis0101.cpp','src/Basis/Basis.cpp'],[('eval_on_window, eval_derivative_on_window, eval_derivative_wrt_tau_on_window','src/Basis'),('get_basis, operator==','src/Basis/Basis.cpp')],
 [],['buffers filled by evaluation'])
p('C09','Matrices of a basis agree with its functions',
 'The derivative matrix of order m maps the coefficients of a function to those of its m-th derivative (with respect to the window variable for the polynomial bases, to time for the mixed one); the continuity matrix applied to a spline\'s coefficients gives the jump of the m-th derivative at every interior breakpoint; the spline derivative matrix maps a spline\'s coefficients to its derivative\'s coefficients; the matrices of inner products of derivatives (and their derivative with respect to interval length) equal the corresponding integrals over an interval. All of this for every basis, order, number of intervals, codomain dimension and interval lengths, whatever was queried before.',
 ['inputs','configurations','histories'],'every basis, order, shape, interval lengths and order of queries (results are cached)',
 'Tests check a few orders with equal intervals and call each query once.',
 ['src/Basis/Basis.cpp','src/Basis/BasisLegendre.cpp','src/Basis/BasisLagrange.cpp','src/Basis/Basis0101.cpp',I+'Basis/Basis.hpp'],
 [('get_derivative_matrix_block, continuity_matrix, gspline_derivative_matrix and their caches','src/Basis/Basis.cpp, '+I+'Basis/Basis.hpp'),('add_derivative_matrix, add_derivative_matrix_deriv_wrt_tau','src/Basis')],
 [('*_buff_ maps','caches of sparse matrices',I+'Basis/Basis.hpp')],['returned matrices'])
p('C10','Interpolation meets all its conditions, whatever was solved before',
 'Interpolating waypoints with a basis of even dimension n gives a spline on [0, sum of lengths] with the given basis and interval lengths that passes through every waypoint, is continuous with its derivatives up to order n-2 at interior waypoints, and has zero derivatives of orders 1 to n/2-1 at both ends. The result depends only on the arguments, not on previous calls on the same interpolator. Odd dimension, interval lengths below 1e-6 and waypoints of the wrong shape are rejected with std::invalid_argument, and a wrong number of interval lengths with std::logic_error (or a subclass).',
 ['inputs','configurations','histories'],'every basis, waypoints, interval lengths, and sequence of calls on one interpolator',
 'Tests solve one problem per interpolator and check few conditions.',
 ['src/Interpolator.cpp',I+'Interpolator.hpp'],[('fill_interpolating_matrix, fill_interpolating_vector, solve_interpolation','src/Interpolator.cpp')],
 [('interpolating_matrix_, coefficients_vector_','reused between calls',I+'Interpolator.hpp')],['spline returned'])
p('C11','Sensitivity of interpolation coefficients to interval lengths',
 'The derivative of the interpolation coefficients with respect to any one interval length, as returned by the interpolator, is the derivative of the function that maps interval lengths to the coefficients of the interpolating spline, for every basis, shape and index. It does not depend on which index or problem was queried before.',
 ['inputs','configurations','histories'],'every basis, waypoints, interval lengths, index and call order',
 'Tests compare with finite differences for few configurations.',
 ['src/Interpolator.cpp','src/Basis/BasisLegendre.cpp','src/Basis/Basis0101.cpp','src/Basis/BasisLagrange.cpp'],[('get_coeff_derivative_wrt_tau, fill_buffers_deriv_wrt_tau','src/Interpolator.cpp')],
 [],['vector returned'])
p('C12','Sobolev cost of an interpolated path and its gradient',
 'The weighted Sobolev functional of waypoints, basis, weights and interval lengths equals the sum over orders of weight times the integral of the squared norm of that derivative of the interpolating spline, and its gradient with respect to interval lengths is the exact derivative of that value. Repeating or interleaving evaluations at other interval lengths changes nothing.',
 ['inputs','configurations','histories'],'every basis, set of weights, waypoints, lengths and call order',
 'Tests use single weights and one evaluation per object.',
 ['src/FunctionalAnalysis/Sobolev.cpp',I+'FunctionalAnalysis/Sobolev.hpp'],[('SobolevNorm::operator(), deriv_wrt_interval_len, inner_prod','src/FunctionalAnalysis/Sobolev.cpp')],
 [('matrix_, matrix_2_','buffers',I+'FunctionalAnalysis/Sobolev.hpp')],['returned value and gradient'])
p('C13','Gauss-Lobatto quadrature, integrals and inner products of functions',
 'For every n >= 2 the n Gauss-Lobatto points are the zeros of (1-x^2)P\'_{n-1}(x) in increasing order and the weights integrate every polynomial of degree up to 2n-3 exactly; the composite points and weights over any interval partition are the affine images on each interval. Integrals, L2 and Sobolev inner products and norms of functions equal the true ones whenever the quadrature is exact for the integrand (norm functions return the squared norm), and inner products of functions with different domains or dimensions throw std::invalid_argument.',
 ['inputs','configurations'],'every number of points, partition, integrand, order and weights',
 'Tests check sizes up to a constant against one table and single-interval integrals.',
 ['src/Collocation/GaussLobattoPointsWeights.cpp','src/FunctionalAnalysis/Integral.cpp','src/FunctionalAnalysis/Sobolev.cpp'],[('legendre_gauss_lobatto_points*, *_weights','src/Collocation/GaussLobattoPointsWeights.cpp'),('integral','src/FunctionalAnalysis/Integral.cpp'),('sobolev_*, l2_*','src/FunctionalAnalysis/Sobolev.cpp')],
 [],['returned points, weights and numbers'])
p('C14','Linear time scaling keeps the path and meets the bounds',
 'Scaling a spline to a new execution time T gives a spline on [t0, t0+T] whose value at t0+u*T equals the original\'s value at the same fraction u of its domain, with interval lengths scaled proportionally, for every basis. Scaling by velocity and/or acceleration bounds (one number, or one per component, either bound optional) uses the smallest factor for which the sampled velocities and accelerations meet the bounds. Non-positive times, missing bounds, bounds of the wrong size or a non-positive sampling step throw std::invalid_argument.',
 ['inputs','configurations'],'every basis, shape, domain, time and bounds',
 'Tests use zero-based domains and both bounds at once.',
 [I+'GSpline.hpp'],[('linear_scaling_new_execution_time*',I+'GSpline.hpp')],[],['spline returned'])
p('C15','Collocation splines: approximation, algebra at collocation points, assignment',
 'A Gauss-Lobatto-Lagrange spline made from a function takes the function\'s values at every collocation point, and its reported discretization lists those points. Products, quotients, powers, norms, multiples, negation and sums with constant vectors give the spline whose collocation values are the pointwise results, in every value category, leaving named operands unchanged; assignment makes the target equal to the source (from a function: rescaled onto its domain with the function\'s values). Operands with different discretization, domain, interval lengths or unsuitable dimensions throw std::invalid_argument.',
 ['programs','inputs','configurations'],'every operation, value category, shape, number of points and intervals',
 'Tests use one shape with temporaries only in a few operations.',
 ['src/Collocation/GaussLobattoLagrange.cpp',I+'Collocation/GaussLobattoLagrange.hpp'],[('approximate, operator*, operator/, pow, norm, operator+/-, operator=','src/Collocation/GaussLobattoLagrange.cpp'),('set_from_array, value_at, get_domain_discretization',I+'Collocation/GaussLobattoLagrange.hpp')],
 [],['coefficients and values of the spline'])
p('C16','Python bindings compute what the C++ library computes',
 'Every function, spline, basis, interpolation, scaling, quadrature and inner product operation exposed to Python returns the same results, and raises (ValueError for invalid arguments) in the same cases, as the operations of the C++ library it wraps. Python objects used as operands are never changed by an operation, and results outlive the operands.',
 ['programs','inputs'],'every program of exposed operations',
 'The Python tests sample a few operations with tolerance-based random comparisons.',
 ['bindings/bindings.cpp','bindings/pyfunctions.hpp','bindings/pybasis.hpp','python/gsplines/__init__.py'],[('pybind11 definitions','bindings/bindings.cpp')],[],['Python return values'])
p('C17','Saving and restoring splines and bases preserves them',
 'Converting a spline or basis to a dictionary and back yields a spline equal to the original, with the same domain, dimension, interval lengths, coefficients, basis (name, dimension, parameters) and values, also after the dictionary went through JSON text. Dictionaries with missing or wrongly typed entries raise TypeError, and coefficient lists of the wrong length are rejected with ValueError.',
 ['inputs','configurations'],'every spline and basis',
 'Tests round-trip one random spline per basis and check equality with tolerance.',
 ['python/gsplines/serialization.py','src/Basis/Basis.cpp'],[('gspline_to_dict, dict_to_gspline, basis_to_dict, dict_to_basis','python/gsplines/serialization.py'),('get_basis','src/Basis/Basis.cpp')],[],['dictionaries and rebuilt objects'])
p('C18','Queries are repeatable: answers never depend on what was asked before',
 'Evaluating functions and splines, and querying bases, interpolators and Sobolev functionals, gives the same answer each time for the same arguments, in any order of interleaved queries with other arguments, and on copies made before or after other queries. In particular growing a basis\' cached matrices, or solving another problem on the same interpolator or functional, changes no later answer.',
 ['histories'],'every interleaving of queries on shared and copied objects',
 'Needs histories of several queries on one object; tests query fresh objects.',
 [I+'Basis/Basis.hpp','src/Basis/Basis.cpp','src/Basis/Basis0101.cpp','src/Basis/BasisLagrange.cpp','src/Interpolator.cpp','src/FunctionalAnalysis/Sobolev.cpp','src/GSpline.cpp'],
 [('mutable caches and buffers',I+'Basis/Basis.hpp, '+I+'GSpline.hpp, '+I+'Interpolator.hpp')],
 [('derivative_matrix_array_, continuity_matrix_buff_, derivative_matrix_buff_','caches',I+'Basis/Basis.hpp')],['all query results'])
p('C19','Collocation functionals and their differentials',
 'On Gauss-Lobatto-Lagrange splines, the derivative functional gives the collocation values of the derivative, the transpose and matrix multiplications give the pointwise products, the integral functional gives the integral, the continuity error gives the jumps at interior breakpoints, and the Sobolev distance to a function gives the integral of squared differences of values and first derivatives. The differential of each is the exact one.',
 ['inputs','configurations'],'every shape, number of points and intervals, operand',
 'The classes need the optimization stack to build and are not exercised by the tests that run here.',
 [I+'Collocation/GaussLobattoLagrangeFunctionals.hpp','src/Collocation/GaussLobattoLagrangeFunctionals.cpp'],[('Derivative, TransposeLeftMultiplication, MatrixLeftMultiplication, ContinuityError, Integral, SobolevDistance',I+'Collocation/GaussLobattoLagrangeFunctionals.hpp')],[],['returned vectors and matrices'])
p('C20','Optimal paths: the problem posed to the solver and the path made of its answer',
 'For waypoints, basis, weights and execution time the solver is given: one variable per interval length, bounded below by about zero, starting at a strictly positive point whose lengths add up to the execution time; the single constraint that the lengths add up to the execution time, with its Jacobian; and as cost the weighted Sobolev functional of the interpolating spline with its exact gradient, at every point asked. The path returned interpolates the waypoints with exactly the lengths the solver ended at; nothing is returned when the solver does not report success; with one interval the path takes the whole execution time and no solver runs. The named paths (minimum acceleration, jerk, snap, crackle, broken lines, Rojas) are those of their own basis and weights and are scaled to last one second. Every option set is passed to the solver with the value set last, and only those and the defaults. Waypoints or bases that cannot be interpolated are rejected.',
 ['inputs','configurations','histories'],'every set of waypoints, basis, weights, execution time, solver answer and status, and history of options',
 'The solver stack is not available where the tests run; the tests call it for few problems and look only at the final shape.',
 ['src/Optimization/ipopt_interface.cpp','src/Optimization/ipopt_solver.cpp'],[('TimeSegmentLenghtsVar, ExecTimeConstraint, SobolevNorm','src/Optimization/ipopt_interface.cpp'),('optimal_sobolev_norm, minimum_*_path, rojas_path, broken_lines_path, IpoptSolverOptions','src/Optimization/ipopt_solver.cpp')],
 [('IpoptSolverOptions::instance_','options of the solver',I+'Optimization/ipopt_solver.hpp')],['problem seen by the solver, spline returned'])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
