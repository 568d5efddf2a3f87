// LDABuilder: sequences of configuration calls; what the built trainer does is compared with a trainer assembled directly
#include "fix.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
using namespace drv;
namespace em = ldaplusplus::em;
typedef LDABuilder<double> B;
typedef std::shared_ptr<em::EStepInterface<double> > EP;
typedef std::shared_ptr<em::MStepInterface<double> > MSP;
namespace {
// an inference step by description; b == nullptr: straight from the class, otherwise from the builder's factory
EP estep(B *b, EP before = nullptr) {
    std::string k = word();
    if (k == "null") return nullptr;
    if (k == "same") return before;
    if (k == "default") return std::make_shared<em::UnsupervisedEStep<double> >();
    if (k == "semi") {
        EP s = estep(b), t = estep(b, s);
        if (b) return b->get_semi_supervised_e_step(s, t);
        if (!s) s = std::make_shared<em::FastSupervisedEStep<double> >();
        if (!t) t = std::make_shared<em::UnsupervisedEStep<double> >();
        return std::make_shared<em::SemiSupervisedEStep<double> >(s, t);
    }
    long it = integer(); double tol = num(); long fp = integer(); double C = num(), mu = num(), ew = num(), cl = num(); int rs = integer();
    if (k == "classic") { if (b) return b->get_classic_e_step(it, tol, cl, rs); return std::make_shared<em::UnsupervisedEStep<double> >(it, tol, cl, rs); }
    if (k == "slda") { if (b) return b->get_supervised_e_step(it, tol, fp, cl, rs); return std::make_shared<em::SupervisedEStep<double> >(it, tol, fp, cl, rs); }
    if (k == "fslda") { if (b) return b->get_fast_supervised_e_step(it, tol, C, cl, rs);
        return std::make_shared<em::FastSupervisedEStep<double> >(it, tol, C, em::FastSupervisedEStep<double>::CWeightType::Constant, cl, rs); }
    if (k == "multi") { if (b) return b->get_multinomial_supervised_e_step(it, tol, mu, ew, cl, rs);
        return std::make_shared<em::MultinomialSupervisedEStep<double> >(it, tol, mu, ew, cl, rs); }
    if (k == "corr") { if (b) return b->get_correspondence_supervised_e_step(it, tol, mu, cl, rs);
        return std::make_shared<em::CorrespondenceSupervisedEStep<double> >(it, tol, mu, cl, rs); }
    throw std::logic_error("kind");
}
B &set_e(B &b) {
    std::string k = word();
    if (k == "semi") { EP s = estep(&b), t = estep(&b, s); return b.set_semi_supervised_e_step(s, t); }
    long it = integer(); double tol = num(); long fp = integer(); double C = num(), mu = num(), ew = num(), cl = num(); int rs = integer();
    if (k == "classic") return b.set_classic_e_step(it, tol, cl, rs);
    if (k == "slda") return b.set_supervised_e_step(it, tol, fp, cl, rs);
    if (k == "fslda") return b.set_fast_supervised_e_step(it, tol, C, cl, rs);
    if (k == "multi") return b.set_multinomial_supervised_e_step(it, tol, mu, ew, cl, rs);
    if (k == "corr") return b.set_correspondence_supervised_e_step(it, tol, mu, cl, rs);
    throw std::logic_error("kind");
}
struct MS {
    std::string k; long it; double tol, pen, mu; long mb; double mom, lr, bw; VectorXd cw; std::vector<double> v;
    MS() {
        k = word();
        if (k == "default") return;
        it = integer(); tol = num(); pen = num(); mu = num(); mb = integer(); mom = num(); lr = num(); bw = num(); cw = vec<VectorXd>();
        v.assign(cw.data(), cw.data() + cw.size());
    }
    MSP direct() {
        if (k == "default" || k == "classic") return std::make_shared<em::UnsupervisedMStep<double> >();
        if (k == "slda") return std::make_shared<em::SupervisedMStep<double> >(it, tol, pen);
        if (k == "fslda") return std::make_shared<em::FastSupervisedMStep<double> >(it, tol, pen);
        if (k == "semi") return std::make_shared<em::SemiSupervisedMStep<double> >(it, tol, pen);
        if (k == "multi") return std::make_shared<em::MultinomialSupervisedMStep<double> >(mu);
        if (k == "corr") return std::make_shared<em::CorrespondenceSupervisedMStep<double> >(mu);
        if (k == "onlineN") return std::make_shared<em::FastOnlineSupervisedMStep<double> >((size_t)cw.rows(), pen, mb, mom, lr, bw);
        return std::make_shared<em::FastOnlineSupervisedMStep<double> >(cw, pen, mb, mom, lr, bw);
    }
    MSP get(B &b) {
        if (k == "classic") return b.get_classic_m_step();
        if (k == "slda") return b.get_supervised_m_step(it, tol, pen);
        if (k == "fslda") return b.get_fast_supervised_m_step(it, tol, pen);
        if (k == "semi") return b.get_semi_supervised_m_step(it, tol, pen);
        if (k == "multi") return b.get_multinomial_supervised_m_step(mu);
        if (k == "corr") return b.get_correspondence_supervised_m_step(mu);
        if (k == "onlineN") return b.get_fast_supervised_online_m_step((size_t)cw.rows(), pen, mb, mom, lr, bw);
        if (k == "onlineV") return b.get_fast_supervised_online_m_step(v, pen, mb, mom, lr, bw);
        return b.get_fast_supervised_online_m_step(cw, pen, mb, mom, lr, bw);
    }
    B &set(B &b) {
        if (k == "classic") return b.set_classic_m_step();
        if (k == "slda") return b.set_supervised_m_step(it, tol, pen);
        if (k == "fslda") return b.set_fast_supervised_m_step(it, tol, pen);
        if (k == "semi") return b.set_semi_supervised_m_step(it, tol, pen);
        if (k == "multi") return b.set_multinomial_supervised_m_step(mu);
        if (k == "corr") return b.set_correspondence_supervised_m_step(mu);
        if (k == "onlineN") return b.set_fast_supervised_online_m_step((size_t)cw.rows(), pen, mb, mom, lr, bw);
        if (k == "onlineV") return b.set_fast_supervised_online_m_step(v, pen, mb, mom, lr, bw);
        return b.set_fast_supervised_online_m_step(cw, pen, mb, mom, lr, bw);
    }
};
// how many threads infer at once: holds every document until `want` threads are inside
struct Gate : public em::EStepInterface<double> {
    std::mutex m; std::condition_variable cv; size_t want, inside, most; std::set<std::thread::id> ids; bool open; std::atomic<long> docs;
    Gate(size_t w) : want(w), inside(0), most(0), open(false), docs(0) {}
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> p) override {
        {
            std::unique_lock<std::mutex> l(m);
            ids.insert(std::this_thread::get_id());
            inside++;
            if (inside > most) most = inside;
            if (inside >= want) { open = true; cv.notify_all(); }
            if (!cv.wait_for(l, std::chrono::seconds(45), [this] { return open; })) open = true;
        }
        if (want > 1 && docs < 3000) std::this_thread::sleep_for(std::chrono::milliseconds(2));
        { std::unique_lock<std::mutex> l(m); inside--; docs++; }
        auto s = std::static_pointer_cast<MP>(p);
        return std::make_shared<VP>(s->alpha, MatrixXd::Ones(s->beta.rows(), s->beta.cols()));
    }
    void e_step() override {}
};
struct Seen {
    MatrixXd alpha, beta, eta; std::vector<double> ev; long epochs;
};
Seen run(LDA<double> &l, const MatrixXi &X, const VectorXi &y, bool fit, long rounds) {
    Seen s;
    s.epochs = 0;
    l.get_event_dispatcher()->add_listener([&s](std::shared_ptr<events::Event> e) {
        if (e->id() == "ExpectationProgressEvent") s.ev.push_back(std::static_pointer_cast<events::ExpectationProgressEvent<double> >(e)->likelihood());
        if (e->id() == "EpochProgressEvent") s.epochs++;
    });
    if (fit) l.fit(X, y);
    else for (long r = 0; r < rounds; r++) l.partial_fit(X, y);
    auto p = l.model_parameters<SMP>();
    s.alpha = p->alpha; s.beta = p->beta; s.eta = p->eta;
    return s;
}
bool eq(const MatrixXd &a, const MatrixXd &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (long i = 0; i < a.size(); i++) if (!(a.data()[i] == b.data()[i] || (a.data()[i] != a.data()[i] && b.data()[i] != b.data()[i]))) return false;
    return true;
}
}
// builder n op* ; the last call that throws is reported and ends the sequence
COMMAND("builder") {
    B b;
    long n = integer(), at = -1, chained = 1;
    size_t iterations = 20;
    for (long q = 0; q < n; q++) {
        std::string op = word();
        // arguments are read before the call, so that a refused call leaves the input in step
        std::function<B &()> call;
        if (op == "random") { long W = integer(), K = integer(); int s = integer(); call = [=, &b]() -> B & { return b.initialize_topics_random(W, K, s); }; }
        else if (op == "seeded" || op == "seededC") {
            auto X = mat<MatrixXi>(); long K = integer(), N = integer(); int s = integer();
            call = [=, &b]() -> B & {
                if (op == "seeded") return b.initialize_topics_seeded(X, K, N, s);
                return b.initialize_topics_seeded(std::make_shared<corpus::EigenCorpus>(X), K, N, s);
            };
        } else if (op == "topics") { auto a = vec<VectorXd>(); auto be = mat<MatrixXd>(); call = [=, &b]() -> B & { return b.initialize_topics_from_model(std::make_shared<MP>(a, be)); }; }
        else if (op == "zeros") { long C = integer(); call = [=, &b]() -> B & { return b.initialize_eta_zeros(C); }; }
        else if (op == "uniform") { long C = integer(); call = [=, &b]() -> B & { return b.initialize_eta_uniform(C); }; }
        else if (op == "eta") { auto e = mat<MatrixXd>(); call = [=, &b]() -> B & { auto p = std::make_shared<SMP>(); p->eta = e; return b.initialize_eta_from_model(p); }; }
        else if (op == "iterations") { long k = integer(); iterations = k; call = [=, &b]() -> B & { return b.set_iterations(k); }; }
        else if (op == "workers") { long k = integer(); call = [=, &b]() -> B & { return b.set_workers(k); }; }
        else if (op == "e") { chained &= &set_e(b) == &b; continue; }
        else if (op == "ge") { chained &= &b.set_e(estep(&b)) == &b; continue; }
        else if (op == "m") { MS m; chained &= &m.set(b) == &b; continue; }
        else if (op == "gm") { MS m; chained &= &b.set_m(m.get(b)) == &b; continue; }
        else if (op == "show" || op == "show2") {            // builds and shows the model
            call = [=, &b]() -> B & {
                LDA<double> l = b;
                auto p = l.model_parameters<SMP>();
                std::string q = op == "show2" ? "2" : "";
                out(("alpha" + q).c_str(), p->alpha); out(("beta" + q).c_str(), p->beta); out(("eta" + q).c_str(), p->eta);
                return b;
            };
        } else if (op == "probe") {         // D want : how many threads infer, how many epochs
            long D = integer(); long want = integer();
            call = [=, &b]() -> B & {
                auto g = std::make_shared<Gate>(want);
                B c = b;
                c.set_e(g);
                LDA<double> l0 = c, l(std::move(l0));        // a trainer can be moved
                long W = l.model_parameters<SMP>()->beta.cols();
                long ep = 0;
                l.get_event_dispatcher()->add_listener([&ep](std::shared_ptr<events::Event> e) { if (e->id() == "EpochProgressEvent") ep++; });
                l.fit(MatrixXi::Ones(W, D));
                out("threads", g->ids.size()); out("most", g->most); out("epochs", ep);
                return b;
            };
        } else if (op == "run") {           // X y fit rounds iterations estep mstep : the same as a trainer put together directly
            auto X = mat<MatrixXi>(); auto y = vec<VectorXi>(); long fit = integer(), rounds = integer(), its = integer();
            EP e = estep(nullptr);
            MSP m = MS().direct();
            call = [=, &b]() -> B & {
                LDA<double> l0 = b, l(std::move(l0));
                auto p = l.model_parameters<SMP>();
                LDA<double> ref(std::make_shared<SMP>(p->alpha, p->beta, p->eta), e, m, its, 1);
                Seen x = run(ref, X, y, fit, rounds), z = run(l, X, y, fit, rounds);
                out("same_alpha", eq(x.alpha, z.alpha)); out("same_beta", eq(x.beta, z.beta)); out("same_eta", eq(x.eta, z.eta));
                out("same_epochs", x.epochs == z.epochs);
                bool s = x.ev.size() == z.ev.size();
                for (size_t i = 0; s && i < x.ev.size(); i++) s = x.ev[i] == z.ev[i] || (x.ev[i] != x.ev[i] && z.ev[i] != z.ev[i]);
                out("same_events", s);
                return b;
            };
        } else throw std::logic_error("op");
        if (at >= 0) continue;
        try { chained &= &call() == &b; } catch (const std::runtime_error &) { at = q; }
    }
    out("refused", at);
    out("chained", chained);
}
