F='src/Functions/'; G='include/gsplines/GSpline.hpp'; B='src/Basis/Basis.cpp'; S='src/FunctionalAnalysis/Sobolev.cpp'
SEEDS = [
dict(id='mul-zero-factor', prop='C01',
 edits=[(F+'FunctionMul.cpp', '''    (*it)->value(_domain_points, temp);
    _result.array().colwise() *= temp.col(0).array();
''', '''    // a vanished product needs no further factors
    if (_result.isZero()) {
      break;
    }
    (*it)->value(_domain_points, temp);
    _result.array().colwise() *= temp.col(0).array();
''')],
 needs='a product whose first factors are below 1e-12 at all the points evaluated together, times a large one',
 what='the remaining factors are not applied',
 demo='''
  ConstFunction a({0, 1}, 1, 1e-15), b({0, 1}, 1, 1e15);
  FunctionExpression p = a * b;
  CHECK(near(at(p, 0.5), 1.0));'''),
dict(id='same-domain-relative', prop='C03',
 edits=[(F+'FunctionBase.cpp', '''  bool err1 = abs(_f1.domain_.first - _f2.domain_.first) <
              FunctionBase::dom_tollerance_;
  bool err2 = abs(_f1.domain_.second - _f2.domain_.second) <
              FunctionBase::dom_tollerance_;
''', '''  const double scale =
      std::max({1.0, std::fabs(_f1.domain_.first), std::fabs(_f1.domain_.second)});
  bool err1 = std::fabs(_f1.domain_.first - _f2.domain_.first) <
              FunctionBase::dom_tollerance_ * scale * scale;
  bool err2 = std::fabs(_f1.domain_.second - _f2.domain_.second) <
              FunctionBase::dom_tollerance_ * scale * scale;
''')],
 needs='domains far from the origin (hundreds) that differ by little (1e-5)',
 what='functions over different domains are added',
 demo='''
  Exponential e({1000, 1001}); Identity s({1000, 1001.0001});
  bool thrown = false;
  try { FunctionExpression p = s + e; } catch (const std::exception &) { thrown = true; }
  CHECK(thrown);'''),
dict(id='concat-hint', prop='C04',
 edits=[(F+'FunctionsConcat.cpp', '''    std::list<std::unique_ptr<FunctionBase>>::const_iterator f =
        get_interval_function(_domain_points[i], _function_array);
    std::size_t idx''', '''    // points usually come in order: look first in the piece used last
    if (i == 0 or hint == _function_array.end() or
        _domain_points[i] < (*hint)->get_domain().first or
        _domain_points[i] > (*hint)->get_domain().second) {
      hint = get_interval_function(_domain_points[i], _function_array);
    }
    std::list<std::unique_ptr<FunctionBase>>::const_iterator f = hint;
    std::size_t idx'''),
 (F+'FunctionsConcat.cpp', '''  Eigen::MatrixXd temp(1, _function_array.front()->get_codom_dim());

  for (std::size_t i = 0; i < _domain_points.size(); i++) {
''', '''  Eigen::MatrixXd temp(1, _function_array.front()->get_codom_dim());
  std::list<std::unique_ptr<FunctionBase>>::const_iterator hint;

  for (std::size_t i = 0; i < _domain_points.size(); i++) {
''')],
 needs='a concatenation with a jump, evaluated at once at a point of the earlier piece and then at the junction',
 what='the value at the junction depends on the point evaluated before it',
 demo='''
  ConstFunction a({0, 1}, 1, 1.0), b({1, 2}, 1, 5.0);
  FunctionExpression p = FunctionExpression(a).concat(FunctionExpression(b));
  V t = vec({0.5, 1.0});
  CHECK(near(p(t)(1, 0), at(p, 1.0)));'''),
dict(id='spline-value-window-cache', prop='C06',
 edits=[('src/GSpline.cpp', '''    s = interval_to_window(_domain_points(static_cast<long>(i)),
                           current_interval);
    tau = domain_interval_lengths_(static_cast<long>(current_interval));
    basis_->eval_on_window(s, tau, basis_buffer_);
''', '''    const double window_point = interval_to_window(
        _domain_points(static_cast<long>(i)), current_interval);
    tau = domain_interval_lengths_(static_cast<long>(current_interval));
    // the basis depends only on the point of the window
    if (i == 0 or window_point != s) {
      s = window_point;
      basis_->eval_on_window(s, tau, basis_buffer_);
    }
''')],
 needs='a basis that depends on the interval length, and two consecutive points at the same place of intervals of different length',
 what='the basis of the other interval is used',
 demo='''
  V tau = vec({1.0, 2.0});
  V c(12); for (int i = 0; i < 12; i++) c(i) = 1 + i;
  GSpline f({0, 3}, 1, 2, basis::Basis0101(0.5), c, tau);
  V t = vec({0.25, 1.5});
  CHECK(near(f(t)(1, 0), at(f, 1.5)));'''),
dict(id='equal-lengths-total', prop='C07',
 edits=[('src/Tools.cpp', '''         approx_equal(_lhs.get_interval_lengths(), _rhs.get_interval_lengths(),
                      _tol) and
         _lhs''', '''         _lhs.get_number_of_intervals() == _rhs.get_number_of_intervals() and
         approx_equal(_lhs.get_domain().second, _rhs.get_domain().second,
                      _tol) and
         _lhs''')],
 needs='two splines with the same coefficients and the same ends, other interior breakpoints',
 what='different splines compare equal',
 demo='''
  V c(8); for (int i = 0; i < 8; i++) c(i) = 1 + i;
  GSpline f({0, 3}, 1, 2, basis::BasisLegendre(4), c, vec({1.0, 2.0}));
  GSpline g({0, 3}, 1, 2, basis::BasisLegendre(4), c, vec({2.0, 1.0}));
  CHECK(!(f == g));'''),
dict(id='legendre-top-derivative', prop='C08',
 edits=[('src/Basis/BasisLegendre.cpp', '''  if (_deg >= get_dim()) return;
''', '''  // beyond the degree of the last polynomial (the tables hold up to 12)
  if (_deg >= std::min<std::size_t>(get_dim(), 12)) return;
''')],
 needs='a derivative of order 12 or higher of a Legendre basis of dimension 13 or larger',
 what='the derivative is zero',
 demo='''
  basis::BasisLegendre b(14); V v(14);
  b.eval_derivative_on_window(0.3, 2.0, 12, v);
  CHECK(std::fabs(v(12)) > 1.0);'''),
dict(id='interpolate-normalised', prop='C10',
 edits=[('src/Interpolator.cpp', '''  unsigned int interval_coor = 0;
  unsigned int codom_coor = 0;
  unsigned int vector_coor = 0;
  for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
    interpolating_vector_(vector_coor) = _waypoints(0, codom_coor);
''', '''  unsigned int interval_coor = 0;
  unsigned int codom_coor = 0;
  unsigned int vector_coor = 0;
  // waypoints that are zero up to rounding leave the path at rest
  if (_waypoints.isZero(1.0e-9)) {
    interpolating_vector_.setZero();
    return;
  }
  for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
    interpolating_vector_(vector_coor) = _waypoints(0, codom_coor);
''')],
 needs='waypoints all smaller than 1e-9',
 what='the path does not go through the waypoints, relative to their size',
 demo='''
  M w(3, 1); w << 1e-10, -2e-10, 3e-10;
  GSpline f = interpolate(vec({1.0, 2.0}), w, basis::BasisLegendre(6));
  CHECK(std::fabs(at(f, 3.0) - 3e-10) < 1e-16);'''),
dict(id='sobolev-zero-weight', prop='C12',
 edits=[(S, '''    for (std::pair<std::size_t, double> w : weights_) {
      matrix_2_.setZero();
      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
''', '''    for (std::pair<std::size_t, double> w : weights_) {
      if (w.second == 0.0) {
        break;
      }
      matrix_2_.setZero();
      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
''')],
 needs='a list of weights with a zero before a nonzero one',
 what='the terms after a zero weight are ignored',
 demo='''
  M w(3, 1); w << 0, 1, -1;
  functional_analysis::SobolevNorm a(w, basis::BasisLegendre(6), {{1, 0.0}, {3, 1.0}}), b(w, basis::BasisLegendre(6), {{3, 1.0}});
  V t = vec({1.0, 2.0});
  CHECK(near(a(t), b(t)));'''),
dict(id='integral-exact-enough', prop='C13',
 edits=[('src/FunctionalAnalysis/Integral.cpp', '''  double local_interval_length = (right_bound - left_bound) / _n_int;
''', '''  // with that many points one interval is exact for any polynomial
  if (_n_glp >= 16) {
    _n_int = 1;
  }
  double local_interval_length = (right_bound - left_bound) / _n_int;
''')],
 needs='16 points or more, several intervals, and a function that is not smooth across the domain',
 what='a piecewise function is integrated with one rule over the whole domain',
 demo='''
  ConstFunction a({0, 1}, 1, 1.0), b({1, 2}, 1, 5.0);
  FunctionExpression x = FunctionExpression(Identity({0, 1})).concat(FunctionExpression(CanonicPolynomial({1, 2}, vec({2.0, -1.0}))));
  CHECK(near(functional_analysis::integral(x, 16, 2), 1.0, 1e-10));'''),
dict(id='dilation-exec-time-shifted', prop='C14',
 edits=[(G, '''    std::pair<double, double> new_domain = Base::get_domain();
    new_domain.second = new_domain.first + _new_exec_time;
''', '''    std::pair<double, double> new_domain = Base::get_domain();
    new_domain.second = new_domain.first < 0.0
                            ? new_domain.first + new_domain_interva_lengths.sum()
                            : new_domain.second * time_scale_factor;
''')],
 needs='a spline whose domain starts after zero',
 what='the new domain does not have the requested length',
 demo='''
  V c(8); for (int i = 0; i < 8; i++) c(i) = 1 + i;
  GSpline f({2, 5}, 1, 2, basis::BasisLegendre(4), c, vec({1.0, 2.0}));
  GSpline g = f.linear_scaling_new_execution_time(6.0);
  CHECK(near(g.get_domain().second, 8.0));'''),
dict(id='py-dot-swapped', prop='C16',
 edits=[('bindings/bindings.cpp', '''           [](const gsplines::functions::FunctionExpression& _self,
              const gsplines::functions::Function& _that) {
             return _self.concat(_that);
           })''', '''           [](const gsplines::functions::FunctionExpression& _self,
              const gsplines::functions::Function& _that) {
             return _self.get_domain().first <= _that.get_domain().first
                        ? _self.concat(_that)
                        : _that.to_expression().concat(_self);
           })''')],
 needs='from Python, an expression concatenated with a function that lies before it',
 what='instead of an error, the functions are concatenated in the other order',
 py='''
import gsplines, numpy as np
e = gsplines.functions.Exponential((1, 2)); s = gsplines.functions.Sin((0, 1))
try:
    (e + e).concat(s)
    raise SystemExit("FAILED")
except ValueError:
    pass
'''),
dict(id='functional-update-total', prop='C19',
 edits=[('src/Collocation/GaussLobattoLagrangeFunctionals.cpp', '''void Derivative::update(const Eigen::VectorXd &_interval_lengths) {

''', '''void Derivative::update(const Eigen::VectorXd &_interval_lengths) {

  // nothing to do for the lengths of the last update
  const double total = _interval_lengths.sum();
  if (std::abs(total - total_) < 1.0e-12) {
    return;
  }
  total_ = total;
'''),
 ('include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp', '''  const std::size_t deg_;

public:
  Derivative(''', '''  const std::size_t deg_;
  double total_ = -1.0;

public:
  Derivative(''')],
 needs='two updates of the derivative functional with different lengths of the same sum',
 what='the matrix of the previous lengths is kept',
 files='/repo/src/Collocation/GaussLobattoLagrangeFunctionals.cpp',
 pre='''#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
using namespace gsplines::collocation;
''',
 demo='''
  V tau = vec({1.0, 2.0}), tau2 = vec({2.0, 1.0});
  Derivative d({0, 3}, 1, 4, 2);
  d.update(tau2);
  d.update(tau);
  V v = GaussLobattoLagrangeSpline::approximate(Sin({0, 3}), 4, 2).get_coefficients();
  GaussLobattoLagrangeSpline g({0, 3.0}, 1, 2, 4, v, tau);
  CHECK(((d * g).get_coefficients() - g.derivate().get_coefficients()).norm() < 1e-9);'''),
]
