// Steps on the collocation functionals (included by driver.cpp when FUNCTIONALS is defined).
typedef collocation::LinearFunctionalSparse LinC;
typedef collocation::LinearFunctional<Eigen::SparseMatrix<double, Eigen::RowMajor>> LinR;
typedef collocation::LinearFunctionalDense LinD;

static std::string observe_lin(Obj &o) {
  auto &l = *o.lin;
  return "\"rows\":" + std::to_string(l.get_codom_dim()) + ",\"m\":" + mat(l.to_dense_matrix()) +
         ",\"sp\":" + mat(Mat(l.to_sparse_matrix()));
}
static void push_lin(std::shared_ptr<collocation::LinearFunctionalBase> l) { push("lin").lin = std::move(l); }
template <typename L> static L *as(Obj &o) { return dynamic_cast<L *>(o.lin.get()); }
template <typename L> static L &is(Obj &o) {
  L *p = as<L>(o);
  if (!p) throw std::string("functional class");
  return *p;
}
static std::vector<Mat> mats(const js::V &v) {
  std::vector<Mat> r;
  for (auto &x : v.arr) r.push_back(matrix(x));
  return r;
}
template <typename L> static bool copy_as(Obj &a, bool move) {
  L *p = as<L>(a);
  if (!p) return false;
  const L &c = *p;
  if (move) push_lin(std::make_shared<L>(std::move(*p)));
  else push_lin(std::make_shared<L>(c));
  return true;
}
template <typename L> static bool scale_as(Obj &a, double c, bool move) {
  L *p = as<L>(a);
  if (!p) return false;
  const L &k = *p;
  if (move) push_lin(std::make_shared<L>(c * std::move(*p)));
  else push_lin(std::make_shared<L>(c * k));
  return true;
}
template <typename L> static bool neg_as(Obj &a) {
  L *p = as<L>(a);
  if (!p) return false;
  push_lin(std::make_shared<L>(-*p));
  return true;
}
template <typename L> static bool add_as(Obj &a, Obj &b, bool sum) {
  L *p = as<L>(a), *q = as<L>(b);
  if (!p || !q) return false;
  if (sum) push_lin(std::make_shared<L>(*p + *q));
  else push_lin(std::make_shared<L>(*p - *q));
  return true;
}
template <typename L> static bool comp_as(Obj &a, Obj &b) {
  L *p = as<L>(a);
  LinC *q = as<LinC>(b);
  if (!p || !q) return false;
  push_lin(std::make_shared<L>(*p * *q));
  return true;
}
template <typename L> static bool mul_as(Obj &a, const GLL &x) {
  L *p = as<L>(a);
  if (!p) return false;
  push_gll(*p * x);
  return true;
}

// Optimal paths: the problem given to the solver, and what is made of its answer
static std::string bounds_low(const std::vector<ifopt::Bounds> &b, bool low) {
  Vec v(b.size());
  for (long i = 0; i < v.size(); i++) v[i] = low ? b[i].lower_ : b[i].upper_;
  return seq(v);
}
static void problem_at(ifopt::Problem &p, const char *k, const Vec &x, const Mat &w, const basis::Basis &b) {
  p.GetOptVariables()->SetVariables(x);
  std::string s = k;
  ret("x" + s, seq(p.GetOptVariables()->GetValues()));
  if (p.constraints_.size() != 1 || p.costs_.size() != 1) throw std::runtime_error("shape of the problem");
  // in an order that no solver promises
  bool first = s == "0";
  if (first) ret("j" + s, mat(Mat(p.costs_[0]->GetJacobian())));
  ret("g" + s, seq(p.constraints_[0]->GetValues()));
  ret("c" + s, num(p.costs_[0]->GetCost()));
  if (!first) ret("j" + s, mat(Mat(p.costs_[0]->GetJacobian())));
  ret("gj" + s, mat(Mat(p.constraints_[0]->GetJacobian())));
  Interpolator in(w.cols(), w.rows() - 1, b);
  ret("y" + s, seq(Vec(in.solve_interpolation(x, w))));
  std::string d = "[";
  for (long i = 0; i < x.size(); i++) {
    Interpolator ini(w.cols(), w.rows() - 1, b);
    Vec y = ini.solve_interpolation(x, w);
    d += (i ? "," : "") + seq(Vec(ini.get_coeff_derivative_wrt_tau(y, x, i)));
  }
  ret("dy" + s, d + "]");
}
// points close to, or permuting, those asked before: what the problem says, and a fresh functional
static std::string problem_near(ifopt::Problem &p, const Vec &x0, const Vec &x1, const Mat &w, const basis::Basis &b,
                                const std::vector<std::pair<std::size_t, double>> &wt) {
  std::vector<Vec> xs;
  for (double d : {2e-4, 0.0, 1e-6}) {
    Vec x = x1;
    x(0) *= 1 + d;
    x(x.size() - 1) -= x1(0) * d;
    xs.push_back(x);
  }
  xs.push_back(x1.reverse());
  xs.push_back(x0);
  xs.push_back(x1 * 1.0005);
  xs.push_back(x1);
  std::string s = "[";
  for (std::size_t k = 0; k < xs.size(); k++) {
    p.GetOptVariables()->SetVariables(xs[k]);
    functional_analysis::SobolevNorm fresh(w, b, wt);
    double c = 0;
    if (k % 3 == 1) c = p.costs_[0]->GetCost();
    Mat j = Mat(p.costs_[0]->GetJacobian());
    if (k % 3 != 1) c = p.costs_[0]->GetCost();
    Vec g(xs[k].size());
    double fc = fresh(xs[k]);
    fresh.deriv_wrt_interval_len(xs[k], g);
    Mat fj = g.transpose();
    s += std::string(k ? "," : "") + "{\"c\":" + num(c) + ",\"fc\":" + num(fc) + ",\"j\":" + mat(j) + ",\"fj\":" + mat(fj) + "}";
  }
  return s + "]";
}
static void step_optimization(const js::V &st) {
  using namespace optimization;
  Mat w = matrix(st["wp"]);
  std::string fn = st["fn"].str;
  auto b = make_basis(st["b1"], "ctor");
  bool called = false;
  ifopt::StandIn::solve() = [&](ifopt::Problem &p, const std::map<std::string, ifopt::Option> &opts) {
    called = true;
    std::string o = "[";
    for (auto &x : opts)
      o += std::string(o.size() > 1 ? "," : "") + "{\"n\":\"" + x.first + "\",\"t\":\"" + x.second.type + "\",\"v\":" +
           (x.second.type == 's' ? "\"" + x.second.s + "\"" : x.second.type == 'i' ? "\"" + std::to_string(x.second.i) + "\"" : num(x.second.d)) + "}";
    ret("opts", o + "]");
    ret("lo", bounds_low(p.GetOptVariables()->GetBounds(), true));
    ret("hi", bounds_low(p.GetOptVariables()->GetBounds(), false));
    if (p.constraints_.size() == 1) {
      ret("glo", bounds_low(p.constraints_[0]->GetBounds(), true));
      ret("ghi", bounds_low(p.constraints_[0]->GetBounds(), false));
    }
    Vec x0 = p.GetOptVariables()->GetValues();
    problem_at(p, "0", x0, w, *b);
    problem_at(p, "1", vec(st["ans"]), w, *b);
    ret("near", problem_near(p, x0, vec(st["ans"]), w, *b, weights(st["w"])));
    p.GetOptVariables()->SetVariables(vec(st["ans"]));
    return (int)st["status"].i();
  };
  std::optional<GSpline> g = fn == "sobolev"   ? optimal_sobolev_norm(w, *b, weights(st["w"]), st["T"].d())
                             : fn == "broken"  ? broken_lines_path(w)
                             : fn == "acc"     ? minimum_acceleration_path(w)
                             : fn == "jerk"    ? minimum_jerk_path(w)
                             : fn == "snap"    ? minimum_snap_path(w)
                             : fn == "crackle" ? minimum_crackle_path(w)
                                               : rojas_path(w, st["k"].d());
  ret("called", called ? "true" : "false");
  ret("none", g ? "false" : "true");
  if (g) report(*g);
}

static bool step_functional(const std::string &op, const js::V &st) {
  using namespace collocation;
  bool ra = st.has("ca") && st["ca"].str == "r";
  if (op == "fnew") {
    std::string t = st["t"].str;
    if (t == "der1") push_lin(std::make_shared<Derivative>(st["n"].i(), st["ng"].i(), vec(st["tau"]), st["m"].i()));
    else if (t == "der2") push_lin(std::make_shared<Derivative>(dom(st["d"]), st["n"].i(), st["ng"].i(), st["ni"].i(), st["m"].i()));
    else if (t == "der3") push_lin(std::make_shared<Derivative>(get(st, "a").gll()));
    else if (t == "tr0") push_lin(std::make_shared<TransposeLeftMultiplication>(st["n"].i(), st["ng"].i(), st["ni"].i()));
    else if (t == "tr") push_lin(std::make_shared<TransposeLeftMultiplication>(get(st, "a").gll()));
    else if (t == "mat") push_lin(std::make_shared<MatrixLeftMultiplication>(st["cols"].i(), st["ng"].i(), st["ni"].i(), st["rows"].i()));
    else if (t == "cont1") push_lin(std::make_shared<ContinuityError>(get(st, "a").gll(), st["m"].i()));
    else if (t == "cont2") push_lin(std::make_shared<ContinuityError>(st["ng"].i(), vec(st["tau"]), st["n"].i(), st["m"].i()));
    else if (t == "int1") push_lin(std::make_shared<Integral>(dom(st["d"]), st["ng"].i(), st["ni"].i()));
    else if (t == "int2") push_lin(std::make_shared<Integral>(get(st, "a").gll()));
    else throw std::string("fnew " + t);
  } else if (op == "fupd") {
    std::string t = st["t"].str;
    Obj &a = get(st, "a");
    if (t == "dertau") is<Derivative>(a).update(vec(st["tau"]));
    else if (t == "derlen") is<Derivative>(a).update(st["len"].d());
    else if (t == "conttau") is<ContinuityError>(a).update(vec(st["tau"]));
    else if (t == "inttau") is<Integral>(a).update(vec(st["tau"]));
    else if (t == "intdom") is<Integral>(a).update(dom(st["d"]), st["ng"].i(), st["ni"].i());
    else if (t == "tras") {
      const GLL &b = get(st, "b").gll();
      is<TransposeLeftMultiplication>(a) = b;
    } else if (t == "trasf") {
      const FunctionBase &b = *get(st, "b").f;
      is<TransposeLeftMultiplication>(a) = b;
    } else if (t == "mats") {
      std::vector<Mat> m = mats(st["M"]);
      if (st["how"].str == "fun") {
        std::vector<std::size_t> k(m.size());
        for (std::size_t i = 0; i < k.size(); i++) k[i] = i;
        is<MatrixLeftMultiplication>(a).update(k.begin(), k.end(), [&](std::size_t i) { return m[i]; });
      } else is<MatrixLeftMultiplication>(a).update(m.begin(), m.end());
    } else if (t == "matc") is<MatrixLeftMultiplication>(a).update(matrix(st["M"]));
    else throw std::string("fupd " + t);
  } else if (op == "fbin") {
    Obj &a = get(st, "a"), &b = get(st, "b");
    std::string f = st["f"].str;
    bool ok = f == "comp" ? comp_as<LinC>(a, b) || comp_as<LinR>(a, b) || comp_as<LinD>(a, b)
                          : add_as<LinC>(a, b, f == "sum") || add_as<LinR>(a, b, f == "sum") || add_as<LinD>(a, b, f == "sum");
    if (!ok) throw std::string("fbin classes");
  } else if (op == "fneg") {
    Obj &a = get(st, "a");
    if (!(neg_as<LinC>(a) || neg_as<LinR>(a) || neg_as<LinD>(a))) throw std::string("fneg");
  } else if (op == "fscal") {
    Obj &a = get(st, "a");
    double c = st["c"].d();
    if (!(scale_as<LinC>(a, c, ra) || scale_as<LinR>(a, c, ra) || scale_as<LinD>(a, c, ra))) throw std::string("fscal");
  } else if (op == "fcopy") {
    Obj &a = get(st, "a");
    if (!(copy_as<Derivative>(a, ra) || copy_as<TransposeLeftMultiplication>(a, ra) || copy_as<MatrixLeftMultiplication>(a, ra) ||
          copy_as<ContinuityError>(a, ra) || copy_as<Integral>(a, ra) || copy_as<LinC>(a, ra) || copy_as<LinR>(a, ra) ||
          copy_as<LinD>(a, ra)))
      throw std::string("fcopy");
  } else if (op == "fapp") {
    Obj &a = get(st, "a");
    const GLL &x = get(st, "b").gll();
    const Functional &f = *a.lin;
    ret("v", seq(f(x)));
    ret("dm", mat(f.differential(x)->to_dense_matrix()));
  } else if (op == "fmul") {
    Obj &a = get(st, "a");
    const GLL &x = get(st, "b").gll();
    if (!(mul_as<LinC>(a, x) || mul_as<LinR>(a, x) || mul_as<LinD>(a, x))) throw std::string("fmul");
  } else if (op == "sdnew") {
    Obj &a = get(st, "a");
    auto s = std::make_shared<SobolevDistance>(*a.f, st["ng"].i(), st["ni"].i(), 1);
    push("sd").sd = s;
  } else if (op == "sdval") {
    const Functional &f = *get(st, "a").sd;
    const GLL &x = get(st, "b").gll();
    Vec v;
    Mat d;
    if (st.has("df")) { d = f.differential(x)->to_dense_matrix(); v = f(x); }
    else { v = f(x); d = f.differential(x)->to_dense_matrix(); }
    if (v.size() != 1) throw std::runtime_error("size");
    ret("v", num(v[0]));
    ret("dm", mat(d));
  } else if (op == "wrap") {
    const GLL &x = get(st, "b").gll();
    auto var = std::make_shared<GLLSplineVariable>(x);
    auto all = std::make_shared<ifopt::Composite>("variables", false);
    all->AddComponent(var);
    ret("x0", seq(static_cast<ifopt::Component &>(*var).GetValues()));
    std::shared_ptr<ifopt::ConstraintSet> c;
    if (st["t"].str == "cont") {
      std::size_t deg = st["m"].i();
      c = std::make_shared<ConstraintWrapper<ContinuityError>>(st["lo"].d(), st["hi"].d(), x, deg);
    } else {
      const FunctionBase &f = *get(st, "a").f;
      c = std::make_shared<CostWrapper<SobolevDistance>>(f, x.get_nglp(), x.get_number_of_intervals(), 1);
    }
    c->LinkWithVariables(all);
    ret("v0", seq(c->GetValues()));
    ret("j0", mat(Mat(c->GetJacobian())));
    static_cast<ifopt::Component &>(*var).SetVariables(vec(st["c"]));
    ret("x1", seq(static_cast<ifopt::Component &>(*var).GetValues()));
    ret("v1", seq(c->GetValues()));
    ret("j1", mat(Mat(c->GetJacobian())));
    Vec lo(c->GetBounds().size()), hi(lo.size());
    for (long i = 0; i < lo.size(); i++) { lo[i] = c->GetBounds()[i].lower_; hi[i] = c->GetBounds()[i].upper_; }
    ret("lo", seq(lo));
    ret("hi", seq(hi));
  } else if (op == "optnew") {
    push("opts");
  } else if (op == "optset") {
    std::string t = st["t"].str;
    using optimization::IpoptSolverOptions;
    if (t == "s") IpoptSolverOptions::set_option(st["n"].str, st["v"].str);
    else if (t == "i") IpoptSolverOptions::set_option(st["n"].str, (int)st["v"].d());
    else IpoptSolverOptions::set_option(st["n"].str, st["v"].d());
  } else if (op == "opt") step_optimization(st);
  else return false;
  return true;
}
