#include "fix.hpp"
#include "ldaplusplus/optimization/GradientDescent.hpp"
#include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
#include "ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.hpp"
using namespace drv;
namespace op = ldaplusplus::optimization;
// loss <mlr|second> <defaults?> X y Cy L eta nvar var...
COMMAND("loss") {
    std::string v = word(); long dflt = integer();
    auto X = mat<MatrixXd>(); auto y = vec<VectorXi>(); auto Cy = vec<VectorXd>(); double L = num(); auto eta = mat<MatrixXd>();
    std::vector<MatrixXd> var(integer());
    for (auto &m : var) m = mat<MatrixXd>();
    MatrixXd g = MatrixXd::Constant(eta.rows(), eta.cols(), 123.);
    MatrixXd X0 = X, e0 = eta;
    if (v == "mlr") {
        typedef op::MultinomialLogisticRegression<double> T;
        T p = dflt ? T(X, y, L) : T(X, y, Cy, L);
        out("value", p.value(eta)); p.gradient(eta, g);
    } else {
        typedef op::SecondOrderLogisticRegressionApproximation<double> T;
        T p = dflt ? T(X, var, y, L) : T(X, var, y, Cy, L);
        out("value", p.value(eta)); p.gradient(eta, g);
    }
    out("grad", g);
    out("touched", (double)(X0 != X || e0 != eta));
}
// a quartic test objective: sum_i (q_i (x_i - c_i)^2 + r_i (x_i - c_i)^4), scaled oddly enough to force backtracking
struct Prob {
    MatrixXd q, c, r; mutable std::vector<MatrixXd> vals, grads;
    double value(const MatrixXd &x) const {
        vals.push_back(x);
        auto d = (x - c).array();
        return (q.array() * d.square() + r.array() * d.square().square()).sum();
    }
    void gradient(const MatrixXd &x, Eigen::Ref<MatrixXd> g) const {
        grads.push_back(x);
        auto d = (x - c).array();
        g = (2 * q.array() * d + 4 * r.array() * d.cube()).matrix();
    }
};
// search <armijo|constant> p1 p2 q c r x0 grad dir
COMMAND("search") {
    std::string v = word(); double p1 = num(), p2 = num();
    Prob p; p.q = mat<MatrixXd>(); p.c = mat<MatrixXd>(); p.r = mat<MatrixXd>();
    auto x = mat<MatrixXd>(), g = mat<MatrixXd>(), d = mat<MatrixXd>();
    MatrixXd g0 = g, d0 = d;
    std::shared_ptr<op::LineSearch<Prob, MatrixXd> > s;
    if (v == "armijo") s = std::make_shared<op::ArmijoLineSearch<Prob, MatrixXd> >(p1, p2);
    else s = std::make_shared<op::ConstantLineSearch<Prob, MatrixXd> >(p1);
    double val = s->search(p, x, g, d);
    out("value", val); out("x", x); out("touched", (double)(g0 != g || d0 != d));
}
// minimize <armijo|constant> p1 p2 q c r x0 <accept n>
COMMAND("minimize") {
    std::string v = word(); double p1 = num(), p2 = num();
    Prob p; p.q = mat<MatrixXd>(); p.c = mat<MatrixXd>(); p.r = mat<MatrixXd>();
    auto x = mat<MatrixXd>(); long acc = integer();
    std::vector<double> vals, its, xs;
    std::shared_ptr<op::LineSearch<Prob, MatrixXd> > s;
    if (v == "armijo") s = std::make_shared<op::ArmijoLineSearch<Prob, MatrixXd> >(p1, p2);
    else s = std::make_shared<op::ConstantLineSearch<Prob, MatrixXd> >(p1);
    op::GradientDescent<Prob, MatrixXd> gd(s, [&](double val, double, size_t it) {
        vals.push_back(val); its.push_back((double)it);
        return (long)vals.size() <= acc;
    });
    gd.minimize(p, x);
    out("x", x); out("values", Eigen::Map<VectorXd>(vals.data(), vals.size())); out("its", Eigen::Map<VectorXd>(its.data(), its.size()));
    out("gradients", (double)p.grads.size());
}
