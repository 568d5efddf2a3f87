#include "drv.hpp"
#include "ldaplusplus/utils.hpp"
using namespace drv;
namespace mu = ldaplusplus::math_utils;
COMMAND("normalize_cols") { auto m = mat<MatrixXd>(); mu::normalize_cols(m); out("m", m); }
COMMAND("normalize_rows") { auto m = mat<MatrixXd>(); mu::normalize_rows(m); out("m", m); }
COMMAND("sum_cols_scaled") {
    auto x = mat<MatrixXd>(); auto y = vec<VectorXd>(); auto r = vec<VectorXd>();
    mu::sum_cols_scaled(x, y, r); out("r", r); out("x", x); out("y", y);
}
COMMAND("sum_rows_scaled") {
    auto x = mat<MatrixXd>(); auto y = vec<VectorXd>(); Eigen::RowVectorXd r = vec<VectorXd>().transpose();
    mu::sum_rows_scaled(x, y, r); out("r", r); out("x", x); out("y", y);
}
COMMAND("product_of_nonzeros") { auto x = mat<MatrixXd>(); out("v", mu::product_of_nonzeros(x)); out("x", x); }
COMMAND("reshape_mv") { auto x = mat<MatrixXd>(); VectorXd v(x.size()); mu::reshape_into(x, v); out("v", v); out("x", x); }
COMMAND("reshape_vm") {
    auto v = vec<VectorXd>(); long r = integer(), c = integer();
    MatrixXd m(r, c); mu::reshape_into(v, m); out("m", m); out("v", v);
}
COMMAND("fast_exp") { double x = num(); out("v", mu::fast_exp(x)); }
COMMAND("fast_exp_f") { float x = num(); out("v", mu::fast_exp(x)); }
COMMAND("digamma") { double x = num(); out("v", mu::digamma(x)); }
COMMAND("digamma_f") { float x = num(); out("v", mu::digamma(x)); }
COMMAND("exp_op") { double x = num(); out("v", mu::CwiseFastExp<double>()(x)); out("d", mu::CwiseDigamma<double>()(x)); out("l", mu::CwiseLgamma<double>()(x)); }
COMMAND("div_op") { double a = num(), b = num(); out("v", mu::CwiseScalarDivideByMatrix<double>(a)(b)); }
COMMAND("nan_op") { double a = num(); out("v", mu::CwiseIsNaN<double>()(a)); out("i", mu::CwiseIsInf<double>()(a)); }
COMMAND("fast_recip") { double x = num(); out("v", mu::fast_exp(x) * mu::fast_exp(-x)); }
