F='src/Functions/'
SEEDS = [
dict(id='addeq-steals', prop='C02',
 edits=[(F+'FunctionSum.cpp', '''  function_array_.push_back(that.clone());
''', '''  if (that.get_type() == SUM and &that != this) {
    for (const std::unique_ptr<FunctionBase> &f : that.function_array_) {
      function_array_.push_back(f->move_clone());
    }
    return;
  }
  function_array_.push_back(that.clone());
''')],
 needs='in-place sum with a named sum whose terms own storage (polynomial, spline, expression)',
 what='the right operand of += is emptied although passed by name',
 demo='''
  CanonicPolynomial p({0, 1}, vec({1, 2, 3})); Exponential e({0, 1});
  FunctionExpression s = p + e.to_expression();
  FunctionExpression t = (e * e.to_expression());
  t += s;
  CHECK(near(at(t, 0.5), std::exp(1.0) + 2.75 + std::exp(0.5)));
  CHECK(near(at(s, 0.5), 2.75 + std::exp(0.5)));'''),
dict(id='concat-gap', prop='C03',
 edits=[(F+'FunctionsConcat.cpp', 'if (abs(_f1.get_domain().second - _f2.get_domain().first) >',
         'if (_f1.get_domain().second - _f2.get_domain().first >')],
 needs='concatenation of pieces separated by a gap',
 what='pieces that are not adjacent are accepted',
 demo='''
  Exponential a({0, 1}), b({1.5, 2});
  bool thrown = false;
  try { FunctionExpression c = a.concat(b.to_expression()); } catch (const std::invalid_argument &) { thrown = true; }
  CHECK(thrown);'''),
dict(id='compose-temp-order', prop='C04', nth={F+'FunctionsComp.cpp': 0},
 edits=[(F+'FunctionsComp.cpp', 'std::move(_that.function_array_.rbegin(), _that.function_array_.rend(),',
         'std::move(_that.function_array_.begin(), _that.function_array_.end(),')],
 needs='a named function composed with a temporary that is itself a composition',
 what='the inner composition is applied in the wrong order',
 demo='''
  Sin s({-10, 10}); Exponential e({-10, 10}); DomainLinearDilation d({0, 1}, 0.5);
  FunctionExpression outer = s.to_expression();
  FunctionExpression f = outer.compose(e.to_expression().compose(d.to_expression()));
  CHECK(near(at(f, 0.5), std::sin(std::exp(0.25))));'''),
dict(id='dot-leibniz', prop='C05',
 edits=[(F+'ElementalFunctions.cpp', '''  FunctionExpression *result = first_deriv_impl(_deg);
  FunctionExpression *buffer_pointer = result;

  for (std::size_t k = 1; k < _deg; k++) {
    result = result->deriv()->move_clone().release();
    delete buffer_pointer;
    buffer_pointer = result;
  }
  buffer_pointer = nullptr;

  return result;
''', '''  if (_deg == 1) {
    return first_deriv_impl(_deg);
  }

  FunctionExpression *result = new FunctionExpression(get_domain(), 1);
  std::size_t binomial = 1;
  for (std::size_t k = 0; k <= _deg; k++) {
    *result +=
        (double)binomial * f1_.derivate(_deg - k).dot(f2_.derivate(k));
    binomial *= (_deg - k) / (k + 1);
  }

  return result;
''')],
 needs='derivative of order two or more of a dot product',
 what='the binomial coefficients of the Leibniz rule are truncated',
 demo='''
  CanonicPolynomial p({0, 1}, vec({0, 0, 1})), q({0, 1}, vec({0, 1, 1}));
  DotProduct d = p.dot(q);   // t^3 + t^4
  CHECK(near(at(d.derivate(1), 0.5), 3 * 0.25 + 4 * 0.125));
  CHECK(near(at(d.derivate(2), 0.5), 6 * 0.5 + 12 * 0.25));
  CHECK(near(at(d.derivate(3), 0.5), 6 + 24 * 0.5));'''),
dict(id='interval-hint', prop='C06',
 edits=[('src/GSpline.cpp', '''    current_interval = get_interval(_domain_points(static_cast<long>(i)));
''', '''    if (i == 0 or _domain_points(static_cast<long>(i)) >
                      _domain_points(static_cast<long>(i) - 1)) {
      current_interval = get_interval(_domain_points(static_cast<long>(i)));
    }
''')],
 needs='evaluation at several points in one call, in decreasing order, across intervals',
 what='points after a larger one are evaluated in the interval of the larger one',
 demo='''
  GSpline g({0, 2}, 1, 2, basis::BasisLegendre(2), vec({1, 0, 5, 0}), vec({1, 1}));
  M v = g(vec({1.5, 0.5, 1.25}));
  CHECK(near(v(0), 5) && near(v(1), 1) && near(v(2), 5));'''),
dict(id='deriv-uniform', prop='C07',
 edits=[('include/gsplines/GSpline.hpp', '''            scale = std::pow(
                2.0 / Base::domain_interval_lengths_(interval_coor), _deg);
''', '''            const Eigen::VectorXd& taus = Base::domain_interval_lengths_;
            const bool uniform = taus.maxCoeff() - taus.minCoeff() < 1.0e-2;
            scale = std::pow(
                2.0 / (uniform ? taus.mean() : taus(interval_coor)), _deg);
''')],
 needs='interval lengths that differ by less than 1e-2',
 what='the derivative of a spline over nearly uniform intervals is scaled with the mean length',
 demo='''
  GSpline g({0, 2.005}, 1, 2, basis::BasisLegendre(2), vec({0, 1, 0, 1}), vec({1.0, 1.005}));
  GSpline d = g.derivate();
  CHECK(near(at(d, 0.5), 2.0, 1e-9));
  CHECK(near(at(d, 1.5), 2.0 / 1.005, 1e-9));'''),
dict(id='lagrange-node-tol', prop='C08',
 edits=[('src/Basis/BasisLagrange.cpp', 'if (almost_equal(_s, domain_points_(j), 1.0e-9)) {', 'if (almost_equal(_s, domain_points_(j), 1.0e-5)) {')],
 needs='evaluation of a Lagrange basis within 1e-5 of a node, not at it',
 what='the basis is evaluated as if at the node',
 demo='''
  basis::BasisLagrange b(vec({-1, 0.5, 1}));
  V v(3);
  double s = 0.5 + 4e-6;
  b.eval_on_window(s, 1.0, v);
  CHECK(std::fabs(v(0) - (s - 0.5) * (s - 1) / (1.5 * 2)) < 1e-9);
  CHECK(std::fabs(v(2) - (s + 1) * (s - 0.5) / (2 * 0.5)) < 1e-9);'''),
dict(id='derivative-block-gap', prop='C09',
 edits=[('include/gsplines/Basis/Basis.hpp', '''      while (current_deriv_calc != _deg + 1) {
        derivative_matrix_array_.push_back(
            derivative_matrix_impl(current_deriv_calc));
        current_deriv_calc++;
      }
''', '''      derivative_matrix_array_.resize(
          _deg + 1, Eigen::MatrixXd::Zero(get_dim(), get_dim()));
      derivative_matrix_array_[_deg] = derivative_matrix_impl(_deg);
''')],
 needs='asking for a derivative matrix of an order and later for a smaller one not asked before',
 what='orders skipped while growing the cache read as zero matrices',
 demo='''
  basis::BasisLegendre b(4), c(4);
  M d3 = b.get_derivative_matrix_block(3), d1 = b.get_derivative_matrix_block(1);
  CHECK((d1 - c.get_derivative_matrix_block(1)).norm() < 1e-12 && d1.norm() > 1);'''),
dict(id='interp-skip-fill', prop='C10',
 edits=[('include/gsplines/Interpolator.hpp', '  Eigen::VectorXd sol_buffer_;\n', '  Eigen::VectorXd sol_buffer_;\n  double last_total_length_ = -1.0;\n'),
        ('src/Interpolator.cpp', '''  // 1. fill the interpolating matrix
  fill_interpolating_matrix(_interval_lengths);
''', '''  // 1. fill the interpolating matrix
  if (_interval_lengths.size() != (long)num_intervals_ or
      _interval_lengths.sum() != last_total_length_) {
    fill_interpolating_matrix(_interval_lengths);
    last_total_length_ = _interval_lengths.sum();
  }
''')],
 needs='two problems in a row on one interpolator whose interval lengths have the same sum',
 what='the second is solved with the matrix of the first',
 demo='''
  Interpolator in(1, 2, basis::BasisLegendre(4));
  M w(3, 1); w << 0, 1, 3;
  GSpline a = in.interpolate(vec({1, 2}), w), b = in.interpolate(vec({2, 1}), w);
  CHECK(near(at(b, 2.0), 1) && near(at(b, 0.0), 0) && near(at(b, 3.0), 3));
  GSpline v = b.derivate();
  CHECK(near(at(v, 2 - 1e-9), at(v, 2 + 1e-9), 1e-5));'''),
dict(id='coeff-deriv-stale', prop='C11',
 edits=[('src/Interpolator.cpp', '''  coefficients_vector_.noalias() = mat * _coeff;
  fill_interpolating_matrix(_interval_lengths);
''', '''  coefficients_vector_.noalias() = mat * _coeff;
  if (interpolating_matrix_.nonZeros() == 0) {
    fill_interpolating_matrix(_interval_lengths);
  }
''')],
 needs='solving another problem between solving one and asking for the derivative of its coefficients',
 what='the derivative is computed with the matrix of the last problem solved',
 demo='''
  basis::BasisLegendre bs(4);
  Interpolator in(1, 2, bs), fresh(1, 2, bs);
  M w(3, 1); w << 0, 1, 3;
  V ta = vec({1, 2}), tb = vec({0.5, 0.7});
  V ya = in.solve_interpolation(ta, w);
  in.solve_interpolation(tb, w);
  V d = in.get_coeff_derivative_wrt_tau(ya, ta, 1);
  fresh.solve_interpolation(ta, w);
  V e = fresh.get_coeff_derivative_wrt_tau(ya, ta, 1);
  CHECK((d - e).norm() < 1e-8 * (1 + e.norm()));'''),
dict(id='sobolev-grad-reuse', prop='C12',
 edits=[('src/FunctionalAnalysis/Sobolev.cpp', '''    // initialize the matrix buffers and compute the de matrix values
    matrix_.setZero();
''', '''    // initialize the matrix buffers and compute the de matrix values
    if (interval_coor == 0 or tau != _interval_lengths(interval_coor - 1))
      matrix_.setZero();
''')],
 needs='gradient at interval lengths with two consecutive equal ones',
 what='the Gram matrix buffer, overwritten in between, is added to',
 demo='''
  M w(4, 1); w << 0, 1, 3, -1;
  functional_analysis::SobolevNorm s(w, basis::BasisLegendre(6), {{1, 1.0}, {3, 0.5}});
  V t = vec({1, 1, 0.7}), g(3);
  s.deriv_wrt_interval_len(t, g);
  for (int i = 0; i < 3; i++) { V p = t, m = t; p(i) += 1e-4; m(i) -= 1e-4; CHECK(near(g(i), (s(p) - s(m)) / 2e-4, 1e-4)); }'''),
dict(id='weights-mean', prop='C13', nth={'src/Collocation/GaussLobattoPointsWeights.cpp': 0},
 edits=[('src/Collocation/GaussLobattoPointsWeights.cpp', 'glw * _intervals[interval] / 2.0;', 'glw * _intervals.mean() / 2.0;')],
 needs='composite weights over intervals of different lengths',
 what='all intervals get the mean length', 
 demo='''
  V w = collocation::legendre_gauss_lobatto_weights(3, vec({1, 3}));
  CHECK(near(w.head(3).sum(), 1) && near(w.tail(3).sum(), 3));'''),
dict(id='gll-move-assign-domain', prop='C15', nth={'src/Collocation/GaussLobattoLagrange.cpp': 1},
 edits=[('src/Collocation/GaussLobattoLagrange.cpp', '  set_domain(_that.get_domain());\n', '  if (not same_domain(_that) and\n      get_domain_length() != _that.get_domain_length()) {\n    set_domain(_that.get_domain());\n  }\n')],
 needs='move assignment from a spline with a shifted domain of the same length',
 what='the target keeps its old domain',
 demo='''
  using G = collocation::GaussLobattoLagrangeSpline;
  Exponential e({0, 1}), f({1, 2});
  G a = G::approximate(e, 4, 2);
  a = G::approximate(f, 4, 2);
  CHECK(near(a.get_domain().first, 1) && near(a.get_domain().second, 2));
  CHECK(near(at(a, 1.0), std::exp(1.0)));'''),
]
