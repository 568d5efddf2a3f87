#include "fix.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
using namespace drv;
namespace em = ldaplusplus::em;
static std::shared_ptr<em::MStepInterface<double> > step(const std::string &v) {
    long it = integer(); double tol = num(), reg = num(), mu = num();
    long mb = integer(); double mom = num(), lr = num(), bw = num(); long exp = integer(); auto cw = vec<VectorXd>();
    if (v == "unsup") return std::make_shared<em::UnsupervisedMStep<double> >();
    if (v == "slda") return std::make_shared<em::SupervisedMStep<double> >(it, tol, reg);
    if (v == "fslda") return std::make_shared<em::FastSupervisedMStep<double> >(it, tol, reg);
    if (v == "semi") return std::make_shared<em::SemiSupervisedMStep<double> >(it, tol, reg);
    if (v == "multi") return std::make_shared<em::MultinomialSupervisedMStep<double> >(mu);
    if (v == "corr") return std::make_shared<em::CorrespondenceSupervisedMStep<double> >(mu);
    if (v == "online" && exp) return std::make_shared<em::FastOnlineSupervisedMStep<double> >(cw, reg, mb, mom, lr, bw);
    if (v == "online") return std::make_shared<em::FastOnlineSupervisedMStep<double> >((size_t)cw.rows(), reg, mb, mom, lr, bw);
    throw std::runtime_error("variant");
}
// mstep <variant> <settings> alpha beta eta nops (d X y phi gamma tau | m)*
COMMAND("mstep") {
    std::string v = word();
    auto s = step(v);
    auto alpha = vec<VectorXd>(); auto beta = mat<MatrixXd>(); auto eta = mat<MatrixXd>();
    auto p = std::make_shared<SMP>(alpha, beta, eta);
    auto c = std::make_shared<FixCorpus>(1, .5);
    Recorder r;
    auto l = s->get_event_dispatcher()->add_listener(r.fn());
    long n = integer();
    double touched = 0;
    for (long i = 0; i < n; i++) {
        size_t before = r.ev.size();
        if (word() == "d") {
            auto X = vec<VectorXi>(); int y = integer(); auto phi = mat<MatrixXd>(); auto gamma = vec<VectorXd>(); auto tau = vec<VectorXd>();
            auto d = std::make_shared<FixDoc>(X, y, c);
            auto vp = std::make_shared<CVP>(gamma, phi, tau);
            s->doc_m_step(d, vp, p);
            if (d->X != X || vp->phi != phi || vp->gamma != gamma || vp->tau != tau || d->y != y) touched = 1;
        } else s->m_step(p);
        if (p->alpha != alpha) touched = 1;
        std::string k = std::to_string(i);
        out(("beta" + k).c_str(), p->beta); out(("eta" + k).c_str(), p->eta); out(("ev" + k).c_str(), (double)(r.ev.size() - before));
    }
    out("touched", touched);
    r.print();
}
struct SubE : public em::EStepInterface<double> {
    int e = 0, n = 0; std::shared_ptr<corpus::Document> doc; std::shared_ptr<parameters::Parameters> mp, res;
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> d,
                                                       const std::shared_ptr<parameters::Parameters> p) override {
        n++; doc = d; mp = p; res = std::make_shared<VP>();
        get_event_dispatcher()->dispatch<events::ExpectationProgressEvent<double> >(n);
        return res;
    }
    void e_step() override { e++; }
};
// semi <n labels (>= -5) | -1000 for e_step>: routing of the composite inference step, op by op
COMMAND("semi") {
    auto sup = std::make_shared<SubE>(), uns = std::make_shared<SubE>();
    auto c = std::make_shared<FixCorpus>(1, .5);
    auto p = std::make_shared<SMP>();
    long n = integer();
    VectorXd who(n), okv(n);
    Recorder r;
    std::shared_ptr<em::EStepInterface<double> > s = std::make_shared<em::SemiSupervisedEStep<double> >(sup, uns);
    auto l = s->get_event_dispatcher()->add_listener(r.fn());
    for (long i = 0; i < n; i++) {
        long y = integer();
        int s0 = sup->n, u0 = uns->n, se = sup->e, ue = uns->e; size_t e0 = r.ev.size();
        if (y == -1000) {
            s->e_step();
            who[i] = 0; okv[i] = sup->n == s0 && uns->n == u0 && sup->e == se + 1 && uns->e == ue + 1 && r.ev.size() == e0;
            continue;
        }
        auto d = std::make_shared<FixDoc>(VectorXi::Ones(2), y, c);
        auto q = s->doc_e_step(d, p);
        who[i] = (sup->n - s0) + 2 * (uns->n - u0);
        auto w = who[i] == 1 ? sup : uns;
        okv[i] = w->doc == d && w->mp == p && q == w->res && r.ev.size() == e0 + 1 && sup->e == se && uns->e == ue && r.ev.back().second == w->n;
    }
    out("who", who); out("ok", okv);
    size_t e0 = r.ev.size();
    s->get_event_dispatcher()->remove_listener(l);
    auto disp = s->get_event_dispatcher();
    auto l2 = disp->add_listener(r.fn());
    s.reset();
    sup->doc_e_step(nullptr, p); uns->doc_e_step(nullptr, p);
    out("after", (double)(r.ev.size() - e0));
}
