#include "fix.hpp"
#include "chaos.hpp"
#include <atomic>
#include <mutex>
#include <thread>
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
using namespace drv;
namespace em = ldaplusplus::em;
#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if __has_feature(thread_sanitizer)
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0"; }
#endif
namespace {
std::atomic<int> live(0);
struct Live {
    Live() { live++; }
    ~Live() { live--; }
    void use() {}
};
// what the steps, the corpus and the listener saw; codes: kind + 100 * value
struct Log {
    std::vector<double> v;
    std::thread::id me;
    std::atomic<int> locked, away, alive;
    Log() : me(std::this_thread::get_id()), locked(0), away(0), alive(0) {}
    void add(int kind, double x) {
        if (chaos::held) locked++;
        if (std::this_thread::get_id() != me) { away++; return; }
        v.push_back(kind);
        v.push_back(x);
    }
    void ended() { if (live) alive++; }
    void print() {
        VectorXd o(v.size());
        for (size_t i = 0; i < v.size(); i++) o[i] = v[i];
        out("log", o);
        out("locked", locked);
        out("away", away);
        out("alive", alive);
    }
};
int ident(const VectorXi &w) { return w[0]; }
int label(long id) { return id % 4 - 1; }      // the first document has neither words nor a label
struct E : public em::EStepInterface<double> {
    Log &l; long epochs, K; std::vector<std::atomic<int> > seen; bool labels; std::atomic<int> wrong;
    E(Log &l_, long k, long D, bool lab) : l(l_), epochs(0), K(k), seen(D), labels(lab), wrong(0) { for (auto &s : seen) s = 0; }
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> p) override {
        if (std::this_thread::get_id() != l.me) { static thread_local Live here; here.use(); }
        if (chaos::held) l.locked++;
        int id = ident(doc->get_words());
        seen[id]++;
        if (labels && std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() != label(id)) wrong++;
        auto m = std::static_pointer_cast<MP>(p);
        chaos::pause();
        get_event_dispatcher()->dispatch<events::ExpectationProgressEvent<double> >(1000 * epochs + id);
        VectorXd g(K);
        for (long k = 0; k < K; k++) g[k] = m->alpha[k] + id * 10 + k;
        return std::make_shared<VP>(g, MatrixXd::Constant(K, 2, id));
    }
    void e_step() override { l.add(3, epochs); l.ended(); epochs++; }
};
struct M : public em::MStepInterface<double> {
    Log &l; parameters::Parameters *model;
    M(Log &l_) : l(l_), model(nullptr) {}
    void doc_m_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> v, std::shared_ptr<parameters::Parameters> m) override {
        auto vp = std::static_pointer_cast<VP>(v);
        int id = ident(d->get_words());
        l.add(2, vp->phi(0, 0) == id && m.get() == model ? id : -1);
        chaos::pause();
    }
    void m_step(std::shared_ptr<parameters::Parameters> m) override {
        l.add(4, m.get() == model);
        l.ended();
        std::static_pointer_cast<MP>(m)->beta(0, 0) += 1;
        get_event_dispatcher()->dispatch<events::MaximizationProgressEvent<double> >(7);
    }
};
struct C : public corpus::ClassificationCorpus {
    std::vector<int> order; Log &l; long n;
    C(long n_, Log &l_) : l(l_), n(n_) { for (long i = 0; i < n; i++) order.push_back(i); }
    size_t size() const override { return n; }
    const std::shared_ptr<corpus::Document> at(size_t i) const override {
        if (chaos::held) l.locked++;
        VectorXi w(2); w << order.at(i), order[i] != 0;
        return std::make_shared<FixDoc>(w, label(order[i]), nullptr);
    }
    void shuffle() override {
        l.add(1, live);
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[(i * 7 + order[0]) % i]);
    }
    float get_prior(int) const override { return .3f; }
};
struct Pub : public LDA<double> {
    using LDA<double>::LDA;
    using LDA<double>::decision_function;
    using LDA<double>::predict;
};
MatrixXi docs(long n) {
    MatrixXi X(2, n);
    for (long i = 0; i < n; i++) { X(0, i) = i; X(1, i) = i != 0; }
    return X;
}
}
// epochs <workers> <documents> <iterations> <chaos> <n> <call>*    calls: c (corpus) p (matrix, labels) f (fit with labels) u (fit without) t (transform)
COMMAND("epochs") {
    long w = integer(), D = integer(), it = integer();
    chaos::level = integer();
    bool moved = integer();
    long nc = integer();
    std::vector<std::string> calls;
    for (long i = 0; i < nc; i++) calls.push_back(word());
    bool labels = true;
    for (auto &c : calls) if (c == "u" || c == "t") labels = false;
    Log l;
    const long K = 3;
    auto model = std::make_shared<MP>(VectorXd::Constant(K, .5), MatrixXd::Constant(K, 4, 0));
    auto e = std::make_shared<E>(l, K, D, labels);
    auto m = std::make_shared<M>(l);
    m->model = model.get();
    LDA<double> first(model, e, m, it, w);
    LDA<double> other(std::make_shared<MP>(VectorXd::Constant(K, .5), MatrixXd::Constant(K, 4, 0)), std::make_shared<E>(l, K, 1, false), std::make_shared<M>(l), 0, 1);
    LDA<double> second(moved ? std::move(first) : std::move(other));
    LDA<double> &lda = moved ? second : first;
    if (w == 1) {}
    std::vector<double> order;
    lda.get_event_dispatcher()->add_listener<events::FunctionEventListener>([&](std::shared_ptr<events::Event> ev) {
        if (ev->id() == "EpochProgressEvent") {
            auto p = std::static_pointer_cast<events::EpochProgressEvent<double> >(ev)->model_parameters();
            l.add(5, p.get() == model.get() ? model->beta(0, 0) : -1);
            l.ended();
        } else if (ev->id() == "ExpectationProgressEvent") l.add(6, std::static_pointer_cast<events::ExpectationProgressEvent<double> >(ev)->likelihood());
        else l.add(7, 0);
    });
    auto c = std::make_shared<C>(D, l);
    auto X = docs(D);
    VectorXi y(D);
    for (long i = 0; i < D; i++) y[i] = label(i);
    long bad = 0;
    for (auto &k : calls) {
        l.add(0, k[0]);
        if (k == "c") lda.partial_fit(c);
        if (k == "p") lda.partial_fit(X, y);
        if (k == "f") lda.fit(X, y);
        if (k == "u") lda.fit(X);
        if (k == "t") {
            auto before = model->beta;
            MatrixXd g = lda.transform(X);
            if (g.rows() != K || g.cols() != D || before != model->beta) bad++;
            else for (long i = 0; i < D; i++) for (long j = 0; j < K; j++) if (g(j, i) != .5 + 10 * i + j) bad++;
        }
        l.add(8, live);
    }
    l.print();
    VectorXd seen(D);
    for (long i = 0; i < D; i++) seen[i] = e->seen[i];
    out("seen", seen);
    out("wrong", e->wrong);
    out("bad", bad);
    chaos::level = 0;
}
// infer workers chaos it tol like X alpha beta : transform and document by document
COMMAND("infer") {
    long w = integer();
    chaos::level = integer();
    long it = integer(); double tol = num();
    auto X = mat<MatrixXi>(); auto alpha = vec<VectorXd>(); auto beta = mat<MatrixXd>();
    Log l;
    auto model = std::make_shared<MP>(alpha, beta);
    LDA<double> lda(model, std::make_shared<em::UnsupervisedEStep<double> >(it, tol, 1.0, 0), std::make_shared<M>(l), 1, w);
    long ev = 0;
    lda.get_event_dispatcher()->add_listener<events::FunctionEventListener>([&](std::shared_ptr<events::Event>) { ev++; });
    out("gamma", lda.transform(X));
    out("again", lda.transform(X));
    out("events", ev);
    chaos::level = 0;
    em::UnsupervisedEStep<double> one(it, tol, 0, 0);
    one.set_event_dispatcher(lda.get_event_dispatcher());
    MatrixXd r(alpha.rows(), X.cols());
    for (long d = 0; d < X.cols(); d++) {
        auto doc = std::make_shared<corpus::EigenDocument>(X.col(d));
        r.col(d) = std::static_pointer_cast<VP>(one.doc_e_step(doc, std::make_shared<MP>(alpha, beta)))->gamma;
    }
    out("single", r);
    out("unchanged", model->alpha == alpha && model->beta == beta);
}
// scores workers it tol X alpha beta eta gammas
COMMAND("scores") {
    long w = integer(), it = integer(); double tol = num();
    auto X = mat<MatrixXi>(); auto alpha = vec<VectorXd>(); auto beta = mat<MatrixXd>(); auto eta = mat<MatrixXd>(); auto G = mat<MatrixXd>();
    Log l;
    auto model = std::make_shared<SMP>(alpha, beta, eta);
    Pub lda(model, std::make_shared<em::UnsupervisedEStep<double> >(it, tol, 0, 0), std::make_shared<M>(l), 1, w);
    MatrixXd T = lda.transform(X);
    out("T", T);
    out("dT", lda.decision_function(X));
    out("pX", lda.predict(X));
    auto tp = lda.transform_predict(X);
    out("tpT", std::get<0>(tp));
    out("tpY", std::get<1>(tp));
    out("dG", lda.decision_function(G));
    MatrixXd S = eta.transpose() * G;      // arbitrary scores
    out("S", S);
    out("pS", lda.predict(S));
    out("unchanged", model->alpha == alpha && model->beta == beta && model->eta == eta);
}
