// Instantiates header templates of /repo that no library translation unit instantiates, so that the front end sees
// their bodies.  Nothing here is verified; only functions defined under /repo are exported.
#include "ldaplusplus/utils.hpp"
#include "ldaplusplus/NumpyFormat.hpp"
#include "ldaplusplus/optimization/GradientDescent.hpp"
#include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
#include <Eigen/Core>
#include <fstream>
#include <mutex>
#include <random>
using namespace ldaplusplus;
typedef optimization::MultinomialLogisticRegression<double> VerifProblem;
template class optimization::ConstantLineSearch<VerifProblem, Eigen::MatrixXd>;
template class optimization::ArmijoLineSearch<VerifProblem, Eigen::MatrixXd>;
template class optimization::GradientDescent<VerifProblem, Eigen::MatrixXd>;
template class math_utils::ThreadSafePRNG<std::default_random_engine>;
double verif_inst(Eigen::MatrixXd &m, Eigen::VectorXd &v, Eigen::RowVectorXd &r, Eigen::VectorXi &c) {
    math_utils::normalize_cols(m);
    math_utils::normalize_rows(m);
    math_utils::sum_rows_scaled(m, v, r);
    math_utils::sum_cols_scaled(m, v, v);
    math_utils::reshape_into(m, v);
    math_utils::reshape_into(v, m);
    math_utils::CwiseScalarDivideByMatrix<double> dv(2.0);
    math_utils::CwiseFastExp<double> fe;
    math_utils::CwiseDigamma<double> dg;
    math_utils::CwiseLgamma<double> lg;
    return math_utils::product_of_nonzeros(m) + math_utils::fast_exp(v[0]) + math_utils::digamma(v[0]) + dv(v[0]) + fe(v[0]) + dg(v[0]) + lg(v[0]);
}
