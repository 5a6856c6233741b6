// Stand-in for the part of ifopt's interface that the library's collocation functionals use.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace ifopt {
static const double inf = 1.0e20;
struct Bounds {
  Bounds(double _lower = 0.0, double _upper = 0.0) : lower_(_lower), upper_(_upper) {}
  double lower_, upper_;
};
static const Bounds NoBound = Bounds(-inf, +inf);
static const Bounds BoundZero = Bounds(0.0, 0.0);
static const Bounds BoundGreaterZero = Bounds(0.0, +inf);
static const Bounds BoundSmallerZero = Bounds(-inf, 0.0);
class Component {
public:
  using Ptr = std::shared_ptr<Component>;
  using Jacobian = Eigen::SparseMatrix<double, Eigen::RowMajor>;
  using VectorXd = Eigen::VectorXd;
  using VecBound = std::vector<Bounds>;
  static const int kSpecifyLater = -1;
  Component(int _rows, const std::string &_name) : num_rows_(_rows), name_(_name) {}
  virtual ~Component() = default;
  virtual VectorXd GetValues() const = 0;
  virtual VecBound GetBounds() const = 0;
  virtual void SetVariables(const VectorXd &_x) = 0;
  virtual Jacobian GetJacobian() const = 0;
  int GetRows() const { return num_rows_; }
  std::string GetName() const { return name_; }
  void SetRows(int _rows) { num_rows_ = _rows; }

private:
  int num_rows_;
  std::string name_;
};
class Composite {
public:
  using Ptr = std::shared_ptr<Composite>;
  Composite() = default;
  Composite(const std::string &, bool) {}
  Component::Ptr GetComponent(std::string _name) const {
    for (auto &c : components_)
      if (c->GetName() == _name) return c;
    throw std::runtime_error("no component " + _name);
  }
  void AddComponent(const Component::Ptr &_c) { components_.push_back(_c); }
  const std::vector<Component::Ptr> &GetComponents() const { return components_; }
  int GetRows() const {
    int r = 0;
    for (auto &c : components_) r += c->GetRows();
    return r;
  }
  Eigen::VectorXd GetValues() const {
    Eigen::VectorXd r(GetRows());
    int at = 0;
    for (auto &c : components_) {
      r.segment(at, c->GetRows()) = c->GetValues();
      at += c->GetRows();
    }
    return r;
  }
  void SetVariables(const Eigen::VectorXd &_x) {
    int at = 0;
    for (auto &c : components_) {
      c->SetVariables(_x.segment(at, c->GetRows()));
      at += c->GetRows();
    }
  }
  std::vector<Bounds> GetBounds() const {
    std::vector<Bounds> r;
    for (auto &c : components_)
      for (auto &b : c->GetBounds()) r.push_back(b);
    return r;
  }

private:
  std::vector<Component::Ptr> components_;
};
} // namespace ifopt
