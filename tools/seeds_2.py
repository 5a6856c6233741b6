F='src/Functions/'; G='include/gsplines/GSpline.hpp'; B='src/Basis/Basis.cpp'; S='src/FunctionalAnalysis/Sobolev.cpp'
SEEDS = [
dict(id='mul-blocks', prop='C01',
 edits=[(F+'FunctionMul.cpp', '''    (*it)->value(_domain_points, temp);
    _result.array().colwise() *= temp.col(0).array();
''', '''    (*it)->value(_domain_points, temp);
    // multiply block by block, so that the blocks stay in the cache
    const long block = 64;
    const long n_blocks = std::max(temp.rows() / block, 1L);
    for (long k = 0; k < n_blocks; k++) {
      const long rows = std::min(block, temp.rows() - k * block);
      _result.middleRows(k * block, rows).array().colwise() *=
          temp.col(0).segment(k * block, rows).array();
    }
''')],
 needs='a product evaluated at more than 64 points at once, their number not a multiple of 64',
 what='the last points of a large batch keep the value of the first factor',
 demo='''
  Exponential e({0, 1}); Sin s({0, 1});
  FunctionExpression p = e * s;
  V t = V::LinSpaced(100, 0, 1);
  M r = p(t);
  for (int i = 0; i < 100; i++) CHECK(near(r(i, 0), std::exp(t(i)) * std::sin(t(i))));'''),
dict(id='poly-deriv-factorial', prop='C05',
 edits=[(F+'ElementalFunctions.cpp', '''  for (std::size_t k = 1; k <= _deg; k++) {
    for (std::size_t uici = 0; uici < vsize - 1; uici++) {
      result(uici) = ((double)uici + 1.0) * result(uici + 1);
    }
    vsize--;
    if (vsize == 0) {
      Eigen::VectorXd coeff_(1);
      coeff_(0) = 0.0;
      return new CanonicPolynomial(get_domain(), coeff_);
    }
  }
''', '''  // all the orders at once: uici! / (uici - _deg)!
  if (_deg >= vsize) {
    return new CanonicPolynomial(get_domain(), Eigen::VectorXd::Zero(1));
  }
  vsize -= _deg;
  for (std::size_t uici = 0; uici < vsize; uici++) {
    unsigned int factor = 1;
    for (std::size_t k = uici + 1; k <= uici + _deg; k++) {
      factor *= k;
    }
    result(uici) = factor * coefficients_(uici + _deg);
  }
''')],
 needs='a derivative of high order of a polynomial of high degree (order 13 of degree 13, order 8 of degree 20, ...)',
 what='the factor overflows 32 bits',
 demo='''
  V c = V::Zero(21); c(20) = 1.0; CanonicPolynomial p({0, 1}, c);
  double f = 1; for (int k = 12; k < 20; k++) f *= k + 1;
  CHECK(near(at(p.derivate(8), 1.0), f));'''),
dict(id='continuity-values-constant', prop='C09',
 edits=[(B, '''        (k % (_codom_dim * (_number_of_intervals - 1))) / _codom_dim;

    eval_derivative_on_window(1.0''', '''        (k % (_codom_dim * (_number_of_intervals - 1))) / _codom_dim;

    // the values at the ends of the window do not change with the lengths
    if (deg == 0) {
      continue;
    }
    eval_derivative_on_window(1.0''')],
 needs='the mixed basis, whose values at the ends of the window depend on the interval length, with lengths other than 2',
 what='continuity matrix of the mixed basis is wrong in the rows of order zero',
 demo='''
  basis::Basis0101 b(0.4); V tau = vec({0.7, 1.9}); V l(6), r(6);
  M c = M(b.continuity_matrix(2, 1, 1, tau));
  b.eval_on_window(1.0, 0.7, r); b.eval_on_window(-1.0, 1.9, l);
  for (int i = 0; i < 6; i++) { CHECK(near(c(0, i), r(i))); CHECK(near(c(0, 6 + i), -l(i))); }'''),
dict(id='derivative-buffer-stale', prop='C18',
 edits=[(B, '''  for (long k = 0; k < mat_dest.outerSize(); ++k) {
    // std::size_t deg = k''', '''  // nothing to update if the buffer was filled with the same factors
  static thread_local std::map<const void*, Eigen::VectorXd> last_factor;
  Eigen::VectorXd& last = last_factor[&mat_dest];
  if (last.size() == deriv_factor.size() and last.size() > 0 and
      std::fabs(last.sum() - deriv_factor.sum()) < 1.0e-9) {
    return mat_dest;
  }
  last = deriv_factor;

  for (long k = 0; k < mat_dest.outerSize(); ++k) {
    // std::size_t deg = k''')],
 needs='two queries with permuted interval lengths (same sum of factors) on one basis',
 what='the spline derivative matrix is the one of the previous interval lengths',
 demo='''
  basis::BasisLegendre b(4);
  M a = M(b.gspline_derivative_matrix(2, 1, 1, vec({0.5, 1.5})));
  M c = M(b.gspline_derivative_matrix(2, 1, 1, vec({1.5, 0.5})));
  basis::BasisLegendre f(4);
  M d = M(f.gspline_derivative_matrix(2, 1, 1, vec({1.5, 0.5})));
  CHECK((c - d).norm() < 1e-9);'''),
dict(id='sobolev-weights-horner', prop='C12', nth={S: 0},
 edits=[(S, '''      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
      matrix_ += w.second * matrix_2_;
''', '''      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
      if (w.second > 0.0) {
        matrix_ += w.second * matrix_2_;
      }
''')],
 needs='a negative weight among the weights of the functional',
 what='terms with negative weight are left out of the cost (the gradient keeps them)',
 demo='''
  M wp(3, 1); wp << 0, 1, -1; basis::BasisLegendre b(6);
  functional_analysis::SobolevNorm a(wp, b, {{1, 1.0}}), c(wp, b, {{2, 1.0}}), d(wp, b, {{1, 1.0}, {2, -0.5}});
  V tau = vec({0.8, 1.3});
  CHECK(near(d(tau), a(tau) - 0.5 * c(tau)));'''),
dict(id='scaling-short-times', prop='C14',
 edits=[(G, '''    if (_new_exec_time < 1.0e-8) {''', '''    if (_new_exec_time < 1.0e-3) {''')],
 needs='a new execution time of less than a millisecond',
 what='valid short execution times are refused',
 demo='''
  GSpline g({0, 1}, 1, 1, basis::BasisLegendre(2), vec({1, 2}), vec({1}));
  GSpline h = g.linear_scaling_new_execution_time(2e-4);
  CHECK(near(at(h, 1e-4), 1.0)); CHECK(near(h.get_domain().second, 2e-4, 1e-12));'''),
dict(id='serial-round', prop='C17',
 edits=[('python/gsplines/serialization.py', "    result['parameters'] = list(_basis.get_parameters())",
         "    result['parameters'] = [round(float(x), 7) for x in _basis.get_parameters()]")],
 needs='a basis with parameters (nodes or alpha) of more than seven decimals',
 what='the rebuilt basis has rounded parameters, though it still compares equal',
 py='''
import gsplines, json
from gsplines.serialization import basis_to_dict, dict_to_basis
b = gsplines.basis.Basis0101(0.123456789123)
c = dict_to_basis(json.loads(json.dumps(basis_to_dict(b))))
assert list(c.get_parameters()) == list(b.get_parameters()), "FAILED parameters"
'''),
dict(id='py-neg-inplace', prop='C16',
 edits=[('bindings/bindings.cpp', '''          "__neg__",
          [](const gsplines::functions::FunctionExpression& _this) {
            return -_this;
          },''', '''          "__neg__",
          [](gsplines::functions::FunctionExpression& _this) {
            // no need to copy the terms of a negated expression
            if (_this.get_type() ==
                gsplines::functions::FunctionExpression::Type::NEGATIVE) {
              return -std::move(_this);
            }
            return -_this;
          },''')],
 needs='in Python, negating a named expression that is itself a negation, and using it afterwards',
 what='the operand of the negation is emptied',
 py='''
import gsplines, numpy as np
s = gsplines.functions.Sin((0, 1)); e = gsplines.functions.Exponential((0, 1))
f = -(s + e)
g = -f
t = np.array([0.5])
v = float(np.sin(0.5) + np.exp(0.5))
assert abs(g(t)[0, 0] - v) < 1e-9, "FAILED g"
assert abs(f(t)[0, 0] + v) < 1e-9, "FAILED f"
'''),
dict(id='functional-update-uniform', prop='C19',
 edits=[('src/Collocation/GaussLobattoLagrangeFunctionals.cpp', '''void Derivative::update(const Eigen::VectorXd &_interval_lengths) {

''', '''void Derivative::update(const Eigen::VectorXd &_interval_lengths) {

  if (mat_.rows() > 0 and
      _interval_lengths.maxCoeff() - _interval_lengths.minCoeff() <
          1.0e-3 * _interval_lengths.maxCoeff()) {
    update(_interval_lengths(0));
    return;
  }
''')],
 needs='update of the derivative functional with interval lengths that differ by less than one per thousand',
 what='all the intervals get the scale of the first',
 files='/repo/src/Collocation/GaussLobattoLagrangeFunctionals.cpp',
 pre='''#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
using namespace gsplines::collocation;
''',
 demo='''
  V tau = vec({1.0, 1.0005});
  Derivative d({0, 2}, 1, 4, 2);
  d.update(tau);
  V v = GaussLobattoLagrangeSpline::approximate(Sin({0, 2}), 4, 2).get_coefficients();
  GaussLobattoLagrangeSpline g({0, 2.0005}, 1, 2, 4, v, tau);
  CHECK(((d * g).get_coefficients() - g.derivate().get_coefficients()).norm() < 1e-9);'''),
dict(id='optimum-acceptable', prop='C20',
 edits=[('src/Optimization/ipopt_solver.cpp', '''  if (ipopt.GetReturnStatus() !=
      static_cast<int>(IpoptReturnStatus::Solve_Succeeded)) {''', '''  if (ipopt.GetReturnStatus() >
          static_cast<int>(IpoptReturnStatus::Solve_Succeeded) or
      ipopt.GetReturnStatus() <
          static_cast<int>(IpoptReturnStatus::Maximum_Iterations_Exceeded)) {''')],
 needs='a solver that stops at its iteration limit',
 what='a path is returned although the solver did not succeed',
 files='/repo/src/Optimization/ipopt_solver.cpp /repo/src/Optimization/ipopt_interface.cpp',
 pre='''#include <gsplines/Optimization/ipopt_solver.hpp>
int ifopt_status = 0;
''',
 demo='''
  M wp(3, 1); wp << 0, 1, -1;
  ifopt_status = 0;
  CHECK(gsplines::optimization::minimum_jerk_path(wp).has_value());
  ifopt_status = -1;
  CHECK(!gsplines::optimization::minimum_jerk_path(wp).has_value());'''),
dict(id='optimum-start', prop='C20',
 edits=[('src/Optimization/ipopt_interface.cpp', '''  buff_1_.noalias() =
      GetVariables()->GetComponent("TimeSegmentLenghtsVar")->GetValues();

  sobol_norm_.deriv_wrt_interval_len(buff_1_, buff_2_);
''', '''  const Eigen::VectorXd values =
      GetVariables()->GetComponent("TimeSegmentLenghtsVar")->GetValues();

  // the solver asks for the gradient right after the cost at the same point
  if (not values.isApprox(buff_1_, 1.0e-3) or buff_2_.isZero()) {
    buff_1_ = values;
  }
  sobol_norm_.deriv_wrt_interval_len(buff_1_, buff_2_);
''')],
 needs='a gradient asked for at a point near, but different from, the point of the last evaluation',
 what='the gradient is the one of the previous point',
 files='/repo/src/Optimization/ipopt_solver.cpp /repo/src/Optimization/ipopt_interface.cpp',
 pre='''#include <gsplines/Optimization/ipopt_interface.hpp>
#include <ifopt/problem.h>
int ifopt_status = 0;
''',
 demo='''
  M wp(3, 1); wp << 0, 1, -1; basis::BasisLegendre b(6);
  auto var = std::make_shared<gsplines::optimization::TimeSegmentLenghtsVar>(2, 2.0);
  ifopt::Problem p; p.AddVariableSet(var);
  auto c = std::make_shared<gsplines::optimization::SobolevNorm>("n", wp, b, std::vector<std::pair<std::size_t, double>>{{3, 1.0}});
  p.AddCostSet(c);
  functional_analysis::SobolevNorm s(wp, b, {{3, 1.0}});
  for (double d : {0.0, 2e-4, 3e-4}) {
    V x = vec({1.0 + d, 1.0 - d}); var->SetVariables(x);
    V g(2); s.deriv_wrt_interval_len(x, g);
    ifopt::Component::Jacobian j(1, 2); c->FillJacobianBlock("TimeSegmentLenghtsVar", j);
    CHECK(near(j.coeff(0, 0), g(0), 1e-9)); CHECK(near(j.coeff(0, 1), g(1), 1e-9));
  }'''),
]
