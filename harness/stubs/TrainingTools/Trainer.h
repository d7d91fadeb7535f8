// Stand-in, see ParametersAware.h
#pragma once
#include "ParametersAware.h"

namespace train {
class Trainer {
public:
  virtual ~Trainer() = default;

  virtual void train(ParametersAware &model) = 0;
};
} // namespace train
