// Stand-in for ifopt::IpoptSolver: hands the problem to the driver, which records it and answers.
#pragma once
#include <functional>
#include <ifopt/problem.h>
#include <map>
namespace ifopt {
struct Option {
  char type;
  std::string s;
  int i;
  double d;
};
struct StandIn {
  static std::function<int(Problem &, const std::map<std::string, Option> &)> &solve() {
    static std::function<int(Problem &, const std::map<std::string, Option> &)> f;
    return f;
  }
};
class IpoptSolver {
public:
  void SetOption(const std::string &_n, const std::string &_v) { options_[_n] = Option{'s', _v, 0, 0}; }
  void SetOption(const std::string &_n, int _v) { options_[_n] = Option{'i', "", _v, 0}; }
  void SetOption(const std::string &_n, double _v) { options_[_n] = Option{'d', "", 0, _v}; }
  void Solve(Problem &_p) { status_ = StandIn::solve()(_p, options_); }
  int GetReturnStatus() { return status_; }

private:
  std::map<std::string, Option> options_;
  int status_ = -199;
};
} // namespace ifopt
