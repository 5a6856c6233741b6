#pragma once
#include <ifopt/composite.h>
namespace ifopt {
class ConstraintSet : public Component {
public:
  using Ptr = std::shared_ptr<ConstraintSet>;
  using VariablesPtr = Composite::Ptr;
  ConstraintSet(int _n, const std::string &_name) : Component(_n, _name) {}
  void LinkWithVariables(const VariablesPtr &_x) { variables_ = _x; }
  Jacobian GetJacobian() const final {
    Jacobian all(GetRows(), variables_->GetRows());
    int col = 0;
    std::vector<Eigen::Triplet<double>> t;
    for (auto &v : variables_->GetComponents()) {
      Jacobian j(GetRows(), v->GetRows());
      FillJacobianBlock(v->GetName(), j);
      for (int k = 0; k < j.outerSize(); ++k)
        for (Jacobian::InnerIterator it(j, k); it; ++it) t.emplace_back(it.row(), col + it.col(), it.value());
      col += v->GetRows();
    }
    all.setFromTriplets(t.begin(), t.end());
    return all;
  }
  virtual void FillJacobianBlock(std::string _set, Jacobian &_block) const = 0;
  void SetVariables(const VectorXd &) final { throw std::runtime_error("not implemented for constraints"); }

protected:
  const VariablesPtr GetVariables() const { return variables_; }

private:
  VariablesPtr variables_;
};
} // namespace ifopt
