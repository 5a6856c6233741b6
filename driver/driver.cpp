// Conformance driver: replays the scripts of sessions generated from the
// specification against the library and records what it does.
//   driver IN OUT      IN: one session {pts, steps} per line (JSON)
//                      OUT: one line per session: [event, ...]
// Every session runs in its own process; the death of that process is
// recorded as an event with outcome "crash".
#include "json.hpp"
#include <algorithm>
#include <fstream>
#include <functional>
#include <gsplines/Basis/Basis.hpp>
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <gsplines/GSpline.hpp>
#include <gsplines/Interpolator.hpp>
#include <gsplines/Tools.hpp>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef FUNCTIONALS
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <gsplines/Optimization/ipopt_solver.hpp>
#include <ifopt/ipopt_solver.h>
#endif

using namespace gsplines;
using namespace gsplines::functions;
using collocation::GaussLobattoLagrangeSpline;
typedef GaussLobattoLagrangeSpline GLL;
typedef FunctionExpression FE;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;

// ---------------------------------------------------------------- output
static std::string num(double x) {
  char b[64];
  std::snprintf(b, sizeof b, "\"%a\"", x);
  return b;
}
template <typename D> static std::string seq(const D &v) {
  std::string s = "[";
  for (long i = 0; i < (long)v.size(); i++) s += (i ? "," : "") + num(v[i]);
  return s + "]";
}
static std::string mat(const Mat &m) {
  std::string s = "[";
  for (long i = 0; i < m.rows(); i++) {
    Vec r = m.row(i).transpose();
    s += (i ? "," : "") + seq(r);
  }
  return s + "]";
}
static std::string quoted(const std::string &s) { return "\"" + s + "\""; }
static std::string boolean(bool b) { return b ? "true" : "false"; }

// ---------------------------------------------------------------- input
static Vec vec(const js::V &a) {
  Vec v(a.size());
  for (std::size_t i = 0; i < a.size(); i++) v[i] = a[i].d();
  return v;
}
static std::vector<double> stdvec(const js::V &a) {
  std::vector<double> v;
  for (auto &x : a.arr) v.push_back(x.d());
  return v;
}
static Mat matrix(const js::V &a) {
  Mat m(a.size(), a.size() ? a[0].size() : 0);
  for (long i = 0; i < m.rows(); i++)
    for (long j = 0; j < m.cols(); j++) m(i, j) = a[i][j].d();
  return m;
}
static std::pair<double, double> dom(const js::V &a) { return {a[0].d(), a[1].d()}; }
static std::vector<std::pair<std::size_t, double>> weights(const js::V &a) {
  std::vector<std::pair<std::size_t, double>> w;
  for (auto &x : a.arr) w.emplace_back(x[0].i(), x[1].d());
  return w;
}
static std::shared_ptr<basis::Basis> make_basis(const js::V &b, const std::string &how) {
  std::string name = b["name"].str;
  if (how == "get") {
    if (name == "lagrange") {
      Vec p = vec(b["pars"]);
      return basis::get_basis(name, b["dim"].i(), p);
    }
    return basis::get_basis(name, b["dim"].i(), stdvec(b["pars"]));
  }
  if (name == "legendre") return std::make_shared<basis::BasisLegendre>(b["dim"].i());
  if (name == "lagrange") {
    if (how == "ctor") return std::make_shared<basis::BasisLagrange>(stdvec(b["pars"]));
    Vec p = vec(b["pars"]);
    return std::make_shared<basis::BasisLagrange>(p);
  }
  if (name == "basis0101") return std::make_shared<basis::Basis0101>(b["pars"][0].d());
  return basis::get_basis(name, b["dim"].i(), stdvec(b["pars"]));
}

// ---------------------------------------------------------------- objects
struct Obj {
  std::string kind, last;
  std::unique_ptr<FunctionBase> f;  // elem, expr, gs, gll
  std::shared_ptr<basis::Basis> b;
  std::unique_ptr<Interpolator> in;
  std::unique_ptr<functional_analysis::SobolevNorm> sob;
  std::shared_ptr<basis::Basis> own_basis;
  Mat wp;
  Vec kept;
#ifdef FUNCTIONALS
  std::shared_ptr<collocation::LinearFunctionalBase> lin;
  std::shared_ptr<collocation::SobolevDistance> sd;
#endif
  bool live = true, fresh = true;
  FE &expr() { return static_cast<FE &>(*f); }
  GSpline &gs() { return static_cast<GSpline &>(*f); }
  GLL &gll() { return static_cast<GLL &>(*f); }
  GSplineBase &spl() { return static_cast<GSplineBase &>(*f); }
  void die() {
    live = false;
    f.reset(); b.reset(); in.reset(); sob.reset();
#ifdef FUNCTIONALS
    lin.reset(); sd.reset();
#endif
  }
};
static std::vector<std::unique_ptr<Obj>> heap;
static Vec pts;

static std::string basis_str(const basis::Basis &b) {
  return "{\"name\":" + quoted(b.get_name()) + ",\"dim\":" + std::to_string(b.get_dim()) +
         ",\"pars\":" + seq(b.get_parameters()) + "}";
}
static std::string spline_fields(const GSplineBase &g) {
  return "\"c\":" + seq(g.get_coefficients()) + ",\"tau\":" + seq(g.get_interval_lengths()) +
         ",\"b\":" + basis_str(g.get_basis());
}
static std::string spline_str(const GSplineBase &g) {
  return "{\"d\":[" + num(g.get_domain().first) + "," + num(g.get_domain().second) +
         "],\"n\":" + std::to_string(g.get_codom_dim()) + "," + spline_fields(g) + "}";
}
static std::string exc_name() {
  try {
    throw;
  } catch (const std::string &s) {
    return "script error " + s;
  } catch (const std::invalid_argument &) {
    return "invalid_argument";
  } catch (const std::logic_error &) {
    return "logic_error";
  } catch (const std::runtime_error &) {
    return "runtime_error";
  } catch (const std::exception &) {
    return "exception";
  } catch (...) {
    return "exception";
  }
}
// rows of m that are not the rows of v they repeat
static long far_rows(const Mat &m, const Mat &v, const std::vector<long> &which) {
  if (m.rows() != (long)which.size() || m.cols() != v.cols()) return m.rows() + 1;
  long far = 0;
  for (long i = 0; i < m.rows(); i++) {
    bool same = true;
    for (long c = 0; c < v.cols(); c++) {
      double a = m(i, c), b = v(which[i], c);
      same = same && ((std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)));
    }
    far += !same;
  }
  return far;
}
static unsigned turn = 0; // the next batch size; set per session
static std::string observe_fun(Obj &o, bool single) {
  FunctionBase &f = *o.f;
  std::string s = "\"d\":[" + num(f.get_domain().first) + "," + num(f.get_domain().second) +
                  "],\"n\":" + std::to_string(f.get_codom_dim());
  std::vector<long> idx;
  for (long i = 0; i < pts.size(); i++)
    if (pts[i] >= f.get_domain().first && pts[i] <= f.get_domain().second) idx.push_back(i);
  s += ",\"i\":[";
  for (std::size_t k = 0; k < idx.size(); k++) s += (k ? "," : "") + std::to_string(idx[k] + 1);
  s += "],\"len\":" + num(f.get_domain_length()) + ",\"in\":[";
  for (long i = 0, k = 0; i < pts.size(); i++)
    if (f.is_point_in_domain(pts[i])) s += (k++ ? "," : "") + std::to_string(i + 1);
  s += "]";
  Vec p(idx.size());
  for (std::size_t k = 0; k < idx.size(); k++) p[k] = pts[idx[k]];
  std::string x = "ok", v = "[]", w;
  long far = 0;
  try {
    Mat values;
    if (idx.size()) values = f(p), v = mat(values);
    if (single) {
      w = "[";
      for (std::size_t k = 0; k < idx.size(); k++) {
        Vec q(1);
        q[0] = p[k];
        // into a part of a larger matrix that was used before
        Mat big = Mat::Constant(3, f.get_codom_dim() + 2, 77.25);
        f.value(q, big.block(1, 1, 1, f.get_codom_dim()));
        Mat r = big.block(1, 1, 1, f.get_codom_dim());
        big.block(1, 1, 1, f.get_codom_dim()).setConstant(77.25);
        if (big != Mat::Constant(3, f.get_codom_dim() + 2, 77.25)) r.setConstant(std::nan(""));
        far += far_rows(r, values, std::vector<long>(1, k));
        std::string m = mat(r);
        w += (k ? "," : "") + m.substr(1, m.size() - 2);
      }
      w += "]";
      if (idx.size()) {
        // many points at once, in any order and repeated; then the same points again
        std::vector<long> which(7 + 29 * idx.size() + (long)p.size() % 5), back;
        for (std::size_t k = 0; k < which.size(); k++) which[k] = (k * k + 3 * k + k / 7) % idx.size();
        for (std::size_t k = 0; k < idx.size(); k++) back.push_back(k);
        Vec q(which.size());
        for (std::size_t k = 0; k < which.size(); k++) q[k] = p[which[k]];
        far += far_rows(f(q), values, which);
        // a batch of one of the sizes around powers of two, in increasing order, into a part
        // of a larger matrix that was used before
        static const long sizes[] = {2, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257};
        const long m = sizes[turn++ % 14], n = f.get_codom_dim();
        std::vector<long> order(idx.size()), up(m);
        for (std::size_t k = 0; k < idx.size(); k++) order[k] = k;
        std::stable_sort(order.begin(), order.end(), [&](long i, long j) { return p[i] < p[j]; });
        for (long k = 0; k < m; k++) up[k] = order[k * (long)idx.size() / m];
        Vec u(m);
        for (long k = 0; k < m; k++) u[k] = p[up[k]];
        Mat used = Mat::Constant(m + 3, n + 1, -31.5);
        f.value(u, used.block(2, 1, m, n));
        far += far_rows(used.block(2, 1, m, n), values, up);
        used.block(2, 1, m, n).setConstant(-31.5);
        far += used != Mat::Constant(m + 3, n + 1, -31.5);
        Mat none = f.value(Vec(0));
        far += none.rows() != 0 || none.cols() != n;
        far += far_rows(f(p), values, back);
        Vec rev = p.reverse();
        std::reverse(back.begin(), back.end());
        far += far_rows(f(rev), values, back);
      }
    }
  } catch (...) {
    x = exc_name();
    w.clear();
  }
  s += ",\"x\":" + quoted(x) + ",\"v\":" + v;
  if (x == "ok" && !w.empty()) s += ",\"w\":" + w + ",\"far\":" + std::to_string(far);
  if (o.kind == "gs" || o.kind == "gll") {
    GSplineBase &g = o.spl();
    s += "," + spline_fields(g) + ",\"ni\":" + std::to_string(g.get_number_of_intervals());
    s += ",\"bp\":" + seq(g.get_domain_breakpoints());
    std::string wp = "[]";
    try {
      wp = mat(g.get_waypoints());
    } catch (...) {
    }
    s += ",\"wp\":" + wp;
    if (o.kind == "gll") s += ",\"disc\":" + seq(o.gll().get_domain_discretization());
  }
  return s;
}
#ifdef FUNCTIONALS
static std::string observe_lin(Obj &o);
#endif
static std::string observe(Obj &o) {
  if (!o.live) return "{\"s\":\"-\"}";
#ifdef FUNCTIONALS
  if (o.lin) {
    std::string s = observe_lin(o);
    if (!o.fresh && s == o.last) return "{\"s\":\"=\"}";
    o.last = s;
    o.fresh = false;
    return "{\"s\":\"l\"," + s + "}";
  }
#endif
  if (o.f) {
    std::string s = observe_fun(o, false);
    if (!o.fresh && s == o.last) return "{\"s\":\"=\"}";
    o.last = s;
    o.fresh = false;
    return "{\"s\":\"f\"," + observe_fun(o, true) + "}";
  }
  if (o.b) {
    std::string s = basis_str(*o.b);
    if (s == o.last) return "{\"s\":\"=\"}";
    o.last = s;
    return "{\"s\":\"b\"," + s.substr(1);
  }
  if (o.kind == "arr") {
    std::string s = seq(o.kept);
    if (s == o.last) return "{\"s\":\"=\"}";
    o.last = s;
    return "{\"s\":\"a\",\"v\":" + s + "}";
  }
  if (o.last == "x") return "{\"s\":\"=\"}";
  o.last = "x";
  return "{\"s\":\"x\"}";
}

struct Missing {};
static Obj &get(const js::V &st, const char *k) {
  long i = st[k].i();
  if (i < 1 || i > (long)heap.size() || !heap[i - 1]->live) throw Missing();
  return *heap[i - 1];
}
static Obj &push(const std::string &kind) {
  heap.emplace_back(new Obj);
  heap.back()->kind = kind;
  return *heap.back();
}
static void push_fun(const std::string &kind, std::unique_ptr<FunctionBase> f) {
  push(kind).f = std::move(f);
}
static void push_expr(FE &&e) { push_fun("expr", std::make_unique<FE>(std::move(e))); }
static void push_gs(GSpline &&e) { push_fun("gs", std::make_unique<GSpline>(std::move(e))); }
static void push_gll(GLL &&e) { push_fun("gll", std::make_unique<GLL>(std::move(e))); }

// ---------------------------------------------------------------- operations
template <typename L, typename Rt> static FE apply(const std::string &f, L &&a, Rt &&b) {
  if (f == "sum") return std::forward<L>(a) + std::forward<Rt>(b);
  if (f == "sub") return std::forward<L>(a) - std::forward<Rt>(b);
  if (f == "mul") return std::forward<L>(a) * std::forward<Rt>(b);
  if (f == "comp") return std::forward<L>(a).compose(std::forward<Rt>(b));
  if (f == "cat") return std::forward<L>(a).concat(std::forward<Rt>(b));
  throw std::string("bin " + f);
}
template <typename L> static FE apply_rhs(const std::string &f, L &&a, Obj &b, bool rb) {
  if (b.kind == "expr") {
    if (rb) return apply(f, std::forward<L>(a), std::move(b.expr()));
    const FE &e = b.expr();
    return apply(f, std::forward<L>(a), e);
  }
  if (rb) return apply(f, std::forward<L>(a), std::move(*b.f));
  const FunctionBase &e = *b.f;
  return apply(f, std::forward<L>(a), e);
}
static FE do_bin(const std::string &f, Obj &a, Obj &b, bool ra, bool rb) {
  if (a.kind == "expr") {
    if (ra) return apply_rhs(f, std::move(a.expr()), b, rb);
    const FE &e = a.expr();
    return apply_rhs(f, e, b, rb);
  }
  if (ra) return apply_rhs(f, std::move(*a.f), b, rb);
  const FunctionBase &e = *a.f;
  return apply_rhs(f, e, b, rb);
}
static DotProduct do_dot(Obj &a, Obj &b, bool ra, bool rb) {
  const FunctionBase &ca = *a.f, &cb = *b.f;
  if (ra && rb) return std::move(*a.f).dot(std::move(*b.f));
  if (ra) return std::move(*a.f).dot(cb);
  if (rb) return ca.dot(std::move(*b.f));
  return ca.dot(cb);
}
// derivate() of the concrete class, if o is a T
template <typename T> static bool concrete_derivate(Obj &o, std::size_t m, std::unique_ptr<FE> &r) {
  if (typeid(*o.f) != typeid(T)) return false;
  auto d = static_cast<const T &>(*o.f).derivate(m);
  r = std::make_unique<FE>(std::move(d));
  return true;
}
template <typename G, typename A, typename B> static G lin(const std::string &f, A &&a, B &&b) {
  if (f == "sum") return std::forward<A>(a) + std::forward<B>(b);
  return std::forward<A>(a) - std::forward<B>(b);
}
template <typename G> static G lin4(const std::string &f, G &a, G &b, bool ra, bool rb) {
  const G &ca = a, &cb = b;
  if (ra && rb) return lin<G>(f, std::move(a), std::move(b));
  if (ra) return lin<G>(f, std::move(a), cb);
  if (rb) return lin<G>(f, ca, std::move(b));
  return lin<G>(f, ca, cb);
}
template <typename G>
static GSpline bound(const G &g, const js::V &st) {
  double dt = st["dt"].d();
  if (st["mode"].str == "num") {
    std::optional<double> v, a;
    if (st["v"].size()) v = st["v"][0].d();
    if (st["ac"].size()) a = st["ac"][0].d();
    if (dt == 0.01) return g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a); // the default
    return g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a, dt);
  }
  std::optional<std::vector<double>> v, a;
  if (st["v"].size()) v = stdvec(st["v"]);
  if (st["ac"].size()) a = stdvec(st["ac"]);
  if (dt == 0.01) return g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a);
  return g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a, dt);
}

// result of one step: ret and gs fields (JSON fragments)
static std::string g_ret, g_gs;
static void ret(const std::string &k, const std::string &v) {
  g_ret += (g_ret.empty() ? "" : ",") + quoted(k) + ":" + v;
}
static void report(const GSplineBase &g) { g_gs = spline_str(g); }

#ifdef FUNCTIONALS
#include "functionals.hpp"
#else
static bool step_functional(const std::string &, const js::V &) { return false; }
#endif

static void new_object(const js::V &st) {
  const js::V &e = st["e"];
  std::string t = st["t"].str;
  auto d = dom(e["d"]);
  if (t == "const1") push_fun("elem", std::make_unique<ConstFunction>(d, e["c"].size(), e["c"][0].d()));
  else if (t == "constv") { Vec v = vec(e["c"]); push_fun("elem", std::make_unique<ConstFunction>(d, v)); }
  else if (t == "dil") push_fun("elem", std::make_unique<DomainLinearDilation>(d, e["c"].d()));
  else if (t == "id") push_fun("elem", std::make_unique<Identity>(d));
  else if (t == "exp") push_fun("elem", std::make_unique<Exponential>(d));
  else if (t == "cos") push_fun("elem", std::make_unique<Cos>(d));
  else if (t == "sin") push_fun("elem", std::make_unique<Sin>(d));
  else if (t == "poly") {
    Vec v = vec(e["c"]);
    if (e["c"].size() % 2) push_fun("elem", std::make_unique<CanonicPolynomial>(d, v));
    else push_fun("elem", std::make_unique<CanonicPolynomial>(d, std::move(v)));
  } else if (t == "zero") push_fun("expr", std::make_unique<FE>(d, e["c"].size()));
  else if (t == "gs") {
    auto b = make_basis(e["b"], "ctor");
    Vec c = vec(e["c"]), tau = vec(e["tau"]);
    std::size_t ni = tau.size();
    if (st.has("how") && st["how"].str == "move")
      push_gs(GSpline(d, e["n"].i(), ni, *b, std::move(c), std::move(tau)));
    else
      push_gs(GSpline(d, e["n"].i(), ni, *b, c, tau));
  } else throw std::string("new " + t);
}

static void step(const js::V &st) {
  const std::string op = st["op"].str;
  bool ra = st.has("ca") && st["ca"].str == "r", rb = st.has("cb") && st["cb"].str == "r";
  if (op == "new") new_object(st);
  else if (op == "bin") {
    Obj &a = get(st, "a"), &b = get(st, "b");
    if (st["f"].str == "dot") {
      DotProduct r = do_dot(a, b, ra, rb);
      push_fun("elem", std::make_unique<DotProduct>(std::move(r)));
    } else push_expr(do_bin(st["f"].str, a, b, ra, rb));
  } else if (op == "addeq" || op == "muleq") {
    Obj &a = get(st, "a"), &b = get(st, "b");
    FE &t = a.expr();
    const FunctionBase &cf = *b.f;
    if (op == "addeq") {
      if (b.kind == "expr") { if (rb) t += std::move(b.expr()); else t += static_cast<const FE &>(b.expr()); }
      else { if (rb) t += std::move(*b.f); else t += cf; }
    } else {
      if (b.kind == "expr") { if (rb) t *= std::move(b.expr()); else t *= static_cast<const FE &>(b.expr()); }
      else { if (rb) t *= std::move(*b.f); else t *= cf; }
    }
  } else if (op == "neg") {
    Obj &a = get(st, "a");
    if (ra) push_expr(-std::move(*a.f));
    else push_expr(-static_cast<const FunctionBase &>(*a.f));
  } else if (op == "scal") {
    Obj &a = get(st, "a");
    double c = st["c"].d();
    if (a.kind == "expr") {
      if (ra) push_expr(c * std::move(a.expr()));
      else push_expr(c * static_cast<const FE &>(a.expr()));
    } else {
      if (ra) push_expr(c * FE(std::move(*a.f)));
      else push_expr(c * FE(static_cast<const FunctionBase &>(*a.f)));
    }
  } else if (op == "deriv") {
    Obj &a = get(st, "a");
    std::size_t m = st["m"].i();
    const bool dflt = m == 1 && turn % 2; // the default argument
    std::string how = st["how"].str;
    if (a.kind == "gs" || a.kind == "gll") {
      if (how == "base") push_expr(dflt ? static_cast<const FunctionBase &>(*a.f).derivate() : static_cast<const FunctionBase &>(*a.f).derivate(m));
      else if (a.kind == "gs") {
        if (how == "deriv") push_fun("gs", a.gs().deriv(m));
        else push_gs(dflt ? a.gs().derivate() : a.gs().derivate(m));
      } else {
        if (how == "deriv") push_fun("gll", a.gll().deriv(m));
        else push_gll(dflt ? a.gll().derivate() : a.gll().derivate(m));
      }
    } else if (a.kind == "expr") {
      if (how == "deriv") push_fun("expr", dflt ? a.expr().deriv() : a.expr().deriv(m));
      else if (how == "base") push_expr(dflt ? static_cast<const FunctionBase &>(*a.f).derivate() : static_cast<const FunctionBase &>(*a.f).derivate(m));
      else push_expr(dflt ? a.expr().derivate() : a.expr().derivate(m));
    } else {
      std::unique_ptr<FE> r;
      if (how == "deriv") push_fun("elem", dflt ? a.f->deriv() : a.f->deriv(m));
      else if (how == "base") push_expr(dflt ? a.f->derivate() : a.f->derivate(m));
      else if (concrete_derivate<ConstFunction>(a, m, r) || concrete_derivate<DomainLinearDilation>(a, m, r) ||
               concrete_derivate<Identity>(a, m, r) || concrete_derivate<Exponential>(a, m, r) ||
               concrete_derivate<Cos>(a, m, r) || concrete_derivate<Sin>(a, m, r) ||
               concrete_derivate<CanonicPolynomial>(a, m, r) || concrete_derivate<DotProduct>(a, m, r))
        push_fun("expr", std::move(r));
      else push_expr(dflt ? a.f->derivate() : a.f->derivate(m));
    }
  } else if (op == "copy") {
    Obj &a = get(st, "a");
    std::string how = st["how"].str, k = a.kind;
    if (how == "toexpr") push_expr(static_cast<const FunctionBase &>(*a.f).to_expression());
    else if (how == "toexprm") { push_expr(std::move(*a.f).to_expression()); a.die(); }
    else if (how == "conv") push_expr(FE(static_cast<const FunctionBase &>(*a.f)));
    else if (how == "convm") { push_expr(FE(std::move(*a.f))); a.die(); }
    else if (k == "expr") {
      if (how == "clone") push_fun(k, a.expr().clone());
      else if (how == "copy") push_fun(k, std::make_unique<FE>(a.expr()));
      else if (how == "move") { push_fun(k, std::make_unique<FE>(std::move(a.expr()))); a.die(); }
      else { push_fun(k, a.expr().move_clone()); a.die(); }
    } else if (k == "gs") {
      if (how == "clone") push_fun(k, a.gs().clone());
      else if (how == "copy") push_fun(k, std::make_unique<GSpline>(a.gs()));
      else if (how == "move") { push_fun(k, std::make_unique<GSpline>(std::move(a.gs()))); a.die(); }
      else { push_fun(k, a.gs().move_clone()); a.die(); }
    } else if (k == "gll") {
      if (how == "clone") push_fun(k, a.gll().clone());
      else if (how == "copy") push_fun(k, std::make_unique<GLL>(a.gll()));
      else if (how == "move") { push_fun(k, std::make_unique<GLL>(std::move(a.gll()))); a.die(); }
      else { push_fun(k, a.gll().move_clone()); a.die(); }
    } else {
      if (how == "clone" || how == "copy") push_fun(k, static_cast<const FunctionBase &>(*a.f).clone());
      else if (how == "move") { push_fun(k, std::move(*a.f).clone()); a.die(); }
      else { push_fun(k, a.f->move_clone()); a.die(); }
    }
  } else if (op == "drop") get(st, "a").die();
  // ---- splines
  else if (op == "gsbin") {
    Obj &a = get(st, "a"), &b = get(st, "b");
    push_gs(lin4<GSpline>(st["f"].str, a.gs(), b.gs(), ra, rb));
  } else if (op == "gsaeq") {
    Obj &a = get(st, "a"), &b = get(st, "b");
    if (st["f"].str == "sum") a.gs() += b.gs(); else a.gs() -= b.gs();
  } else if (op == "gsneg") {
    Obj &a = get(st, "a");
    if (ra) push_gs(-std::move(a.gs())); else push_gs(-static_cast<const GSpline &>(a.gs()));
  } else if (op == "gsscal") {
    Obj &a = get(st, "a");
    double c = st["c"].d();
    const GSpline &ca = a.gs();
    if (st["side"].str == "l") { if (ra) push_gs(c * std::move(a.gs())); else push_gs(c * ca); }
    else { if (ra) push_gs(std::move(a.gs()) * c); else push_gs(ca * c); }
  } else if (op == "gsscale") push_gs(get(st, "a").gs().linear_scaling_new_execution_time(st["T"].d()));
  else if (op == "gsbound") {
    GSpline g = bound(get(st, "a").gs(), st);
    report(g);
    push_gs(std::move(g));
  } else if (op == "gseq") {
    GSplineBase &a = get(st, "a").spl(), &b = get(st, "b").spl();
    ret("eq", boolean(a == b));
    ret("ne", boolean(a != b));
  } else if (op == "gsrand") {
    if (st.has("a")) {
      GSpline g = random_gspline(dom(st["d"]), st["n"].i(), *get(st, "a").b);
      report(g);
      push_gs(std::move(g));
    } else {
      GSpline g = random_gspline(dom(st["d"]), st["n"].i());
      report(g);
      push_gs(std::move(g));
    }
  }
  // ---- collocation splines
  else if (op == "gllnew") {
    auto d = dom(st["d"]);
    if (st["t"].str == "coef") {
      Vec c = vec(st["c"]), tau = vec(st["tau"]);
      std::size_t ni = tau.size();
      if (st.has("how") && st["how"].str == "move")
        push_gll(GLL(d, st["n"].i(), ni, st["ng"].i(), std::move(c), std::move(tau)));
      else push_gll(GLL(d, st["n"].i(), ni, st["ng"].i(), c, tau));
    } else push_gll(GLL(d, st["n"].i(), st["ni"].i(), st["ng"].i()));
  } else if (op == "gllapp") {
    Obj &a = get(st, "a");
    if (st.has("how") && st["how"].str == "ctor") push_gll(GLL(*a.f, st["ni"].i(), st["ng"].i()));
    else push_gll(GLL::approximate(*a.f, st["ng"].i(), st["ni"].i()));
  } else if (op == "gllid") push_gll(GLL::identity(dom(st["d"]), st["ng"].i(), st["ni"].i()));
  else if (op == "gllbin") {
    GLL &a = get(st, "a").gll(), &b = get(st, "b").gll();
    const GLL &ca = a, &cb = b;
    if (st["f"].str != "mul") push_gll(lin4<GLL>(st["f"].str, a, b, ra, rb));
    else if (ra && rb) push_gll(std::move(a) * std::move(b));
    else if (ra) push_gll(std::move(a) * cb);
    else if (rb) push_gll(ca * std::move(b));
    else push_gll(ca * cb);
  } else if (op == "gllscal") {
    GLL &a = get(st, "a").gll();
    const GLL &ca = a;
    double c = st["c"].d();
    if (st["side"].str == "l") { if (ra) push_gll(c * std::move(a)); else push_gll(c * ca); }
    else { if (ra) push_gll(std::move(a) * c); else push_gll(ca * c); }
  } else if (op == "gllneg") {
    GLL &a = get(st, "a").gll();
    const GLL &ca = a;
    if (ra) push_gll(-std::move(a)); else push_gll(-ca);
  } else if (op == "gllnorm") push_gll(norm(get(st, "a").gll()));
  else if (op == "gllinv") {
    GLL &a = get(st, "a").gll();
    const GLL &ca = a;
    if (ra) push_gll(st["c"].d() / std::move(a)); else push_gll(st["c"].d() / ca);
  } else if (op == "gllpow") {
    GLL &a = get(st, "a").gll();
    const GLL &ca = a;
    if (ra) push_gll(pow(std::move(a), st["c"].d())); else push_gll(pow(ca, st["c"].d()));
  } else if (op == "glladdv") {
    GLL &a = get(st, "a").gll();
    const GLL &ca = a;
    const Vec v = vec(st["v"]);
    std::string f = st["f"].str;
    if (f == "add") { if (ra) push_gll(std::move(a) + v); else push_gll(ca + v); }
    else if (f == "vadd") { if (ra) push_gll(v + std::move(a)); else push_gll(v + ca); }
    else if (f == "sub") { if (ra) push_gll(std::move(a) - v); else push_gll(ca - v); }
    else { if (ra) push_gll(v - std::move(a)); else push_gll(v - ca); }
  } else if (op == "gllvalat") ret("v", seq(get(st, "a").gll().value_at(st["i"].i())));
  else if (op == "gllasg") {
    Obj &a = get(st, "a"), &b = get(st, "b");
    const GLL &cb = b.gll();
    if (rb) a.gll() = std::move(b.gll()); else a.gll() = cb;
  } else if (op == "gllasgf") {
    Obj &a = get(st, "a"), &b = get(st, "b");
    const FunctionBase &cb = *b.f;
    a.gll() = cb;
  } else if (op == "gllset") {
    GLL &a = get(st, "a").gll();
    std::vector<Vec> v;
    for (auto &x : st["v"].arr) v.push_back(vec(x));
    a.set_from_array(dom(st["d"]), v.begin(), v.end());
  } else if (op == "gllfromgs") {
    Obj &a = get(st, "a");
    if (ra) push_gll(GLL(std::move(a.gs())));
    else push_gll(GLL(static_cast<const GSpline &>(a.gs())));
  }
  // ---- bases
  else if (op == "bnew") {
    auto b = make_basis(st["b1"], st["how"].str);
    push("basis").b = b;
  } else if (op == "bcopy") {
    Obj &a = get(st, "a");
    if (ra) { std::shared_ptr<basis::Basis> b(a.b->move_clone()); push("basis").b = b; }
    else { std::shared_ptr<basis::Basis> b(a.b->clone()); push("basis").b = b; }
  } else if (op == "beq") {
    basis::Basis &a = *get(st, "a").b, &b = *get(st, "b").b;
    ret("eq", boolean(a == b));
    ret("ne", boolean(a != b));
  } else if (op == "beval") {
    basis::Basis &a = *get(st, "a").b;
    Vec v = Vec::Constant(a.get_dim(), 77.25), v0 = v;
    a.eval_derivative_on_window(st["s"].d(), st["tau"].d(), st["m"].i(), v);
    a.eval_on_window(st["s"].d(), st["tau"].d(), v0);
    ret("v", seq(v));
    ret("v0", seq(v0));
  } else if (op == "bevaltau") {
    basis::Basis &a = *get(st, "a").b;
    Vec v = Vec::Constant(a.get_dim(), 77.25);
    a.eval_derivative_wrt_tau_on_window(st["s"].d(), st["tau"].d(), st["m"].i(), v);
    ret("v", seq(v));
  } else if (op == "bder") ret("m", mat(get(st, "a").b->get_derivative_matrix_block(st["m"].i())));
  else if (op == "bgsd") {
    Vec t = vec(st["taus"]);
    ret("m", mat(Mat(get(st, "a").b->gspline_derivative_matrix(st["ni"].i(), st["n"].i(), st["m"].i(), t))));
  } else if (op == "bcont") {
    Vec t = vec(st["taus"]);
    ret("m", mat(Mat(get(st, "a").b->continuity_matrix(st["ni"].i(), st["n"].i(), st["m"].i(), t))));
  } else if (op == "bgram" || op == "bgramtau") {
    basis::Basis &a = *get(st, "a").b;
    // the operation adds to its argument
    Mat base(a.get_dim(), a.get_dim());
    for (long i = 0; i < base.rows(); i++)
      for (long j = 0; j < base.cols(); j++) base(i, j) = 0.5 * i - 0.25 * j;
    Mat m = base;
    if (op == "bgram") a.add_derivative_matrix(st["tau"].d(), st["m"].i(), m);
    else a.add_derivative_matrix_deriv_wrt_tau(st["tau"].d(), st["m"].i(), m);
    ret("m", mat(m - base));
  }
  // ---- interpolation
  else if (op == "inew") {
    auto p = std::make_unique<Interpolator>(st["n"].i(), st["ni"].i(), *get(st, "a").b);
    push("interp").in = std::move(p);
  } else if (op == "isolve") {
    Vec t = vec(st["taus"]);
    Mat w = matrix(st["wp"]);
    Vec y = get(st, "a").in->solve_interpolation(t, w);
    ret("y", seq(y));
    if (st.has("keep")) push("arr").kept = y;
  } else if (op == "iinterp") {
    Vec t = vec(st["taus"]);
    Mat w = matrix(st["wp"]);
    GSpline g = get(st, "a").in->interpolate(t, w);
    report(g);
    push_gs(std::move(g));
  } else if (op == "icoefd") {
    Vec t = vec(st["taus"]);
    Mat w = matrix(st["wp"]);
    Interpolator &in = *get(st, "a").in;
    Vec y = in.solve_interpolation(t, w);
    ret("y", seq(y));
    if (st.has("ot")) { Vec o = vec(st["ot"]); (void)in.solve_interpolation(o, w); }
    if (st.has("j")) (void)in.get_coeff_derivative_wrt_tau(y, t, st["j"].i());
    Vec dy = in.get_coeff_derivative_wrt_tau(y, t, st["i"].i());
    ret("dy", seq(dy));
    if (st.has("keep")) push("arr").kept = dy;
  } else if (op == "finterp") {
    Vec t = vec(st["taus"]);
    Mat w = matrix(st["wp"]);
    GSpline g = interpolate(t, w, *get(st, "a").b);
    report(g);
    push_gs(std::move(g));
  } else if (op == "fpw") {
    Vec t = vec(st["taus"]);
    Mat w = matrix(st["wp"]);
    GSpline g = pw_polynomial_interpolation(t, w, st["nc"].i());
    report(g);
    push_gs(std::move(g));
  } else if (op == "snew") {
    Mat w = matrix(st["wp"]);
    auto b = get(st, "a").b->clone();
    auto p = std::make_unique<functional_analysis::SobolevNorm>(w, *b, weights(st["w"]));
    Obj &o = push("sob");
    o.sob = std::move(p);
    o.own_basis = std::move(b);
    o.wp = w;
  } else if (op == "sval" || op == "sgrad") {
    Obj &a = get(st, "a");
    Vec t = vec(st["taus"]);
    if (op == "sval") ret("v", num((*a.sob)(t)));
    else {
      Vec g = Vec::Constant(a.wp.rows() - 1, 77.25);
      a.sob->deriv_wrt_interval_len(t, g);
      ret("v", seq(g));
    }
    Interpolator in(a.wp.cols(), a.wp.rows() - 1, *a.own_basis);
    Vec y = in.solve_interpolation(t, a.wp);
    ret("y", seq(y));
    if (op == "sgrad") {
      std::string s = "[";
      for (long k = 0; k < t.size(); k++) {
        Interpolator ink(a.wp.cols(), a.wp.rows() - 1, *a.own_basis);
        Vec yk = ink.solve_interpolation(t, a.wp);
        s += (k ? "," : "") + seq(Vec(ink.get_coeff_derivative_wrt_tau(yk, t, k)));
      }
      ret("dy", s + "]");
    }
  }
  // ---- quadrature
  else if (op == "qpw") {
    if (st.has("how") && st["how"].str == "pair") {
      auto pw = collocation::legendre_gauss_lobatto_points_and_weights(st["n"].i());
      ret("p", seq(pw.first));
      ret("w", seq(pw.second));
    } else {
      ret("p", seq(collocation::legendre_gauss_lobatto_points(st["n"].i())));
      ret("w", seq(collocation::legendre_gauss_lobatto_weights(st["n"].i())));
    }
  } else if (op == "qcomp") {
    Vec t = vec(st["taus"]);
    ret("p", seq(collocation::legendre_gauss_lobatto_points(st["t0"].d(), st["n"].i(), t)));
    ret("w", seq(collocation::legendre_gauss_lobatto_weights(st["n"].i(), t)));
  } else if (op == "qdom") {
    std::tuple<double, double> d(st["d"][0].d(), st["d"][1].d());
    ret("p", seq(collocation::legendre_gauss_lobatto_points(d, st["n"].i(), st["ni"].i())));
    ret("w", seq(collocation::legendre_gauss_lobatto_weights(d, st["n"].i(), st["ni"].i())));
  } else if (op == "integ")
{
    namespace fa = functional_analysis;
    FunctionBase &a = *get(st, "a").f;
    std::size_t ng = st["ng"].i(), ni = st["ni"].i();
    ret("v", num(ni > 1 ? fa::integral(a, ng, ni) : ng != 10 ? fa::integral(a, ng) : fa::integral(a)));
  }
  else if (op == "ip") {
    namespace fa = functional_analysis;
    FunctionBase &a = *get(st, "a").f, &b = *get(st, "b").f;
    std::string fn = st["fn"].str;
    std::size_t ng = st["ng"].i(), ni = st["ni"].i();
    auto w = weights(st["w"]);
    double v;
    if (ng == 10 && ni == 1) { // the defaults
      if (fn == "l2") v = fa::l2_inner_product(a, b);
      else if (fn == "l2n") v = fa::l2_norm(a);
      else if (fn == "sob") v = fa::sobolev_inner_product(a, b, w.size() - 1);
      else if (fn == "sobn") v = fa::sobolev_norm(a, w.size() - 1);
      else if (fn == "semi") v = fa::sobolev_semi_inner_product(a, b, w);
      else v = fa::sobolev_semi_norm(a, w);
    } else if (fn == "l2") v = fa::l2_inner_product(a, b, ng, ni);
    else if (fn == "l2n") v = fa::l2_norm(a, ng, ni);
    else if (fn == "sob") v = fa::sobolev_inner_product(a, b, w.size() - 1, ng, ni);
    else if (fn == "sobn") v = fa::sobolev_norm(a, w.size() - 1, ng, ni);
    else if (fn == "semi") v = fa::sobolev_semi_inner_product(a, b, w, ng, ni);
    else v = fa::sobolev_semi_norm(a, w, ng, ni);
    ret("v", num(v));
  } else if (!step_functional(op, st)) throw std::string("op " + op);
  if (op == "addeq" || op == "muleq" || op == "gsaeq" || op == "gllasg" || op == "gllasgf" || op == "gllset" || op == "fupd")
    get(st, "a").fresh = true;
  if (ra) get(st, "a").die();
  if (rb && heap[st["b"].i() - 1]->live) get(st, "b").die();
}
static void kill_temporaries(const js::V &st) {
  for (auto k : {"a", "b"}) {
    std::string c = std::string("c") + k;
    if (st.has(c) && st[c].str == "r") {
      long i = st[k].i();
      if (i >= 1 && i <= (long)heap.size() && heap[i - 1]->live) heap[i - 1]->die();
    }
  }
  if (st["op"].str == "gllset") heap[st["a"].i() - 1]->die();
}

// ---------------------------------------------------------------- sessions
static void wr(int fd, const std::string &s) {
  std::size_t o = 0;
  while (o < s.size()) {
    ssize_t k = write(fd, s.data() + o, s.size() - o);
    if (k <= 0) _exit(3);
    o += k;
  }
}
static void run_session(const js::V &S, int fd) {
  pts = vec(S["pts"]);
  turn = pts.size() + 5 * S["steps"].size();
  for (double t : pts) turn += (unsigned)std::fabs(16 * t);
  for (auto &st : S["steps"].arr) {
    g_ret.clear();
    g_gs.clear();
    std::string x = "ok";
    std::size_t n = heap.size();
    try {
      step(st);
    } catch (Missing) {
      return;
    } catch (...) {
      x = exc_name();
      heap.resize(n);
      kill_temporaries(st);
    }
    std::string ev = "{\"x\":" + quoted(x);
    if (x == "ok" && !g_ret.empty()) ev += ",\"ret\":{" + g_ret + "}";
    if (x == "ok" && !g_gs.empty()) ev += ",\"gs\":" + g_gs;
    ev += ",\"obs\":[";
    for (std::size_t i = 0; i < heap.size(); i++) ev += (i ? "," : "") + observe(*heap[i]);
    wr(fd, ev + "]}\n");
  }
}

int main(int argc, char **argv) {
  if (argc != 3) return 2;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  int nul = open("/dev/null", O_RDWR);
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    int p[2];
    if (pipe(p)) return 2;
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      close(p[0]);
      dup2(nul, 0);
      dup2(nul, 1);
      if (!getenv("DRIVER_STDERR")) dup2(nul, 2);
      alarm(60);
      try {
        js::V S = js::Parser(line.c_str()).val();
        run_session(S, p[1]);
      } catch (...) {
        wr(p[1], "{\"x\":" + quoted(exc_name()) + ",\"obs\":[]}\n");
      }
      _exit(0);
    }
    close(p[1]);
    std::string got;
    char buf[65536];
    ssize_t k;
    while ((k = read(p[0], buf, sizeof buf)) > 0) got.append(buf, k);
    close(p[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    std::string r = "[";
    std::size_t pos = 0;
    bool first = true;
    while (true) {
      std::size_t e = got.find('\n', pos);
      if (e == std::string::npos) break;
      r += (first ? "" : ",") + got.substr(pos, e - pos);
      first = false;
      pos = e + 1;
    }
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
      r += std::string(first ? "" : ",") + "{\"x\":\"crash\",\"obs\":[]}";
    out << r << "]\n";
  }
  return out.good() ? 0 : 2;
}
