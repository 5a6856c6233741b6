#pragma once
#include <ifopt/constraint_set.h>
namespace ifopt {
class CostTerm : public ConstraintSet {
public:
  CostTerm(const std::string &_name) : ConstraintSet(1, _name) {}
  virtual double GetCost() const = 0;
  VectorXd GetValues() const final { return VectorXd::Constant(1, GetCost()); }
  VecBound GetBounds() const final { return VecBound(1, Bounds(-inf, +inf)); }
};
} // namespace ifopt
