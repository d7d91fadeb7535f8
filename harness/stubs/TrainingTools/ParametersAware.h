// Stand-in of the interface of the external library TrainingTools, which is
// not available offline. Only what the sources of the repository use.
#pragma once
#include <eigen3/Eigen/Core>

namespace train {
using Vect = Eigen::VectorXd;

class ParametersAware {
public:
  virtual ~ParametersAware() = default;

  virtual Vect getParameters() const = 0;
  virtual void setParameters(const Vect &parameters) = 0;
  // of the function to minimise
  virtual Vect getGradient() const = 0;
};
} // namespace train
