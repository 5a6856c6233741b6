// Stand-in for ifopt::Problem.
#pragma once
#include <ifopt/cost_term.h>
#include <ifopt/variable_set.h>
namespace ifopt {
class Problem {
public:
  Problem() : variables_(std::make_shared<Composite>()) {}
  void AddVariableSet(std::shared_ptr<VariableSet> _v) { variables_->AddComponent(_v); }
  void AddConstraintSet(std::shared_ptr<ConstraintSet> _c) {
    _c->LinkWithVariables(variables_);
    constraints_.push_back(_c);
  }
  void AddCostSet(std::shared_ptr<CostTerm> _c) {
    _c->LinkWithVariables(variables_);
    costs_.push_back(_c);
  }
  Composite::Ptr GetOptVariables() const { return variables_; }
  std::vector<std::shared_ptr<ConstraintSet>> constraints_;
  std::vector<std::shared_ptr<CostTerm>> costs_;

private:
  Composite::Ptr variables_;
};
} // namespace ifopt
