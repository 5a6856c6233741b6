#pragma once
#include <ifopt/composite.h>
namespace ifopt {
class VariableSet : public Component {
public:
  VariableSet(int _n, const std::string &_name) : Component(_n, _name) {}
  Jacobian GetJacobian() const override { throw std::runtime_error("not implemented for variables"); }
};
} // namespace ifopt
