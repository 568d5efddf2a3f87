// Force-included: Eigen's run-time assertions become exceptions, fresh matrices are NaN-filled.
#pragma once
#include <stdexcept>
#include <string>
#include <functional>
#define EIGEN_INITIALIZE_MATRICES_BY_NAN
#define eigen_assert(x) do { if (!(x)) throw std::out_of_range(std::string("Eigen precondition violated: ") + #x); } while (false)
