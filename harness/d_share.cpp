#include "fix.hpp"
#include "chaos.hpp"
#include <thread>
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
using namespace drv;
namespace em = ldaplusplus::em;
namespace {
typedef std::shared_ptr<em::EStepInterface<double> > Step;
Step make(const std::string &v, long it, double tol, long fp, double like) {
    if (v == "unsup") return std::make_shared<em::UnsupervisedEStep<double> >(it, tol, like, 0);
    if (v == "slda") return std::make_shared<em::SupervisedEStep<double> >(it, tol, fp, like, 0);
    if (v == "fslda") return std::make_shared<em::FastSupervisedEStep<double> >(it, tol, 1.5, em::FastSupervisedEStep<double>::Constant, like, 0);
    if (v == "multi") return std::make_shared<em::MultinomialSupervisedEStep<double> >(it, tol, 2., 1., like, 0);
    if (v == "corr") return std::make_shared<em::CorrespondenceSupervisedEStep<double> >(it, tol, 2., like, 0);
    return std::make_shared<em::SemiSupervisedEStep<double> >(make("fslda", it, tol, fp, like), make("unsup", it, tol, fp, like));
}
// compares every result with an inference of its own, by a step nobody else uses
struct Cmp : public em::MStepInterface<double> {
    Step one; long bad, docs;
    std::vector<std::pair<std::shared_ptr<corpus::Document>, std::shared_ptr<VP> > > got;
    Cmp(Step s) : one(s), bad(0), docs(0) {}
    void doc_m_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> v, std::shared_ptr<parameters::Parameters>) override {
        got.push_back(std::make_pair(d, std::static_pointer_cast<VP>(v)));
    }
    void m_step(std::shared_ptr<parameters::Parameters> m) override {
        for (auto &g : got) {
            auto r = std::static_pointer_cast<VP>(one->doc_e_step(g.first, m));
            docs++;
            if (r->gamma.rows() != g.second->gamma.rows() || r->gamma != g.second->gamma) bad++;
        }
        got.clear();
    }
};
}
// share variant workers it tol fp like X y alpha beta eta : one epoch with many workers against document by document
COMMAND("share") {
    std::string v = word();
    long w = integer(), it = integer(); double tol = num(); long fp = integer(); double like = num();
    auto X = mat<MatrixXi>(); auto y = vec<VectorXi>(); auto alpha = vec<VectorXd>(); auto beta = mat<MatrixXd>(); auto eta = mat<MatrixXd>();
    chaos::level = 0;
    auto model = std::make_shared<SMP>(alpha, beta, eta);
    auto one = make(v, it, tol, fp, like);
    auto m = std::make_shared<Cmp>(one);
    LDA<double> lda(model, make(v, it, tol, fp, like), m, 1, w);
    lda.partial_fit(X, y);
    lda.partial_fit(X, y);
    out("bad", m->bad);
    out("docs", m->docs);
}
