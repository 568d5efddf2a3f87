#include "fix.hpp"
#include "ldaplusplus/e_step_utils.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
using namespace drv;
namespace em = ldaplusplus::em;
namespace eu = ldaplusplus::e_step_utils;
static std::shared_ptr<em::EStepInterface<double> > step(const std::string &v) {
    long it = integer(); double tol = num(), like = num(); long fp = integer(); double C = num(); long wt = integer();
    double mu = num(), ew = num(); int seed = integer();
    if (v == "unsup") return std::make_shared<em::UnsupervisedEStep<double> >(it, tol, like, seed);
    if (v == "slda") return std::make_shared<em::SupervisedEStep<double> >(it, tol, fp, like, seed);
    if (v == "fslda") return std::make_shared<em::FastSupervisedEStep<double> >(it, tol, C,
        wt ? em::FastSupervisedEStep<double>::ExponentialDecay : em::FastSupervisedEStep<double>::Constant, like, seed);
    if (v == "multi") return std::make_shared<em::MultinomialSupervisedEStep<double> >(it, tol, mu, ew, like, seed);
    if (v == "corr") return std::make_shared<em::CorrespondenceSupervisedEStep<double> >(it, tol, mu, like, seed);
    throw std::runtime_error("variant");
}
// estep <variant> <settings> epochs X y prior D alpha beta eta repeat
COMMAND("estep") {
    std::string v = word();
    auto s = step(v);
    long ep = integer();
    auto X = vec<VectorXi>(); int y = integer(); double prior = num(); long D = integer();
    auto alpha = vec<VectorXd>(); auto beta = mat<MatrixXd>(); auto eta = mat<MatrixXd>();
    long rep = integer();
    auto c = std::make_shared<FixCorpus>(D, prior);
    auto d = std::make_shared<FixDoc>(X, y, c);
    auto p = std::make_shared<SMP>(alpha, beta, eta);
    Recorder r;
    auto l = s->get_event_dispatcher()->add_listener(r.fn());
    for (long i = 0; i < ep; i++) s->e_step();
    std::shared_ptr<parameters::Parameters> q;
    for (long i = 0; i < rep; i++) { r.ev.clear(); q = s->doc_e_step(d, p); }
    auto vp = std::static_pointer_cast<VP>(q);
    out("gamma", vp->gamma); out("phi", vp->phi);
    if (v == "corr") out("tau", std::static_pointer_cast<CVP>(q)->tau);
    out("X", d->X); out("alpha", p->alpha); out("beta", p->beta); out("eta", p->eta);
    r.print();
}
// likelihood <kind> X y alpha beta eta phi gamma h tau prior mu portion
COMMAND("likelihood") {
    std::string v = word();
    auto X = vec<VectorXi>(); int y = integer();
    auto a = vec<VectorXd>(); auto b = mat<MatrixXd>(); auto e = mat<MatrixXd>(); auto p = mat<MatrixXd>(); auto g = vec<VectorXd>();
    auto h = vec<VectorXd>(); auto t = vec<VectorXd>(); double prior = num(), mu = num(), por = num();
    if (v == "unsup") out("v", eu::compute_unsupervised_likelihood<double>(X, a, b, p, g));
    if (v == "slda") out("v", eu::compute_supervised_likelihood<double>(X, y, a, b, e, p, g));
    if (v == "sldah") out("v", eu::compute_supervised_likelihood<double>(X, y, a, b, e, p, g, h));
    if (v == "multi") out("v", eu::compute_supervised_multinomial_likelihood<double>(X, y, a, b, e, p, g, prior, mu, por));
    if (v == "corr") out("v", eu::compute_supervised_correspondence_likelihood<double>(X, y, a, b, e, p, g, t, mu, por));
    out("X", X); out("alpha", a); out("beta", b); out("eta", e); out("phi", p); out("gamma", g);
}
