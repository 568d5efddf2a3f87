// the contract of fast_exp (decided by C25) in place of its body: conformance of the callers is then exact
#pragma once
#include "eassert.hpp"
#include <cmath>
#include <stdexcept>
#include "ldaplusplus/utils.hpp"
#ifndef NO_EXACT_EXP
namespace ldaplusplus { namespace math_utils {
template <> inline double fast_exp<double>(double x) {
    if (x != x) throw std::domain_error("fast_exp called with NaN (its table has no such entry)");
    return std::exp(x);
}
} }
#endif
