#pragma once
#include "drv.hpp"
#include <cmath>
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
namespace drv {
using namespace ldaplusplus;
using MP = parameters::ModelParameters<double>;
using SMP = parameters::SupervisedModelParameters<double>;
using VP = parameters::VariationalParameters<double>;
using CVP = parameters::SupervisedCorrespondenceVariationalParameters<double>;

struct FixCorpus : public corpus::ClassificationCorpus {
    size_t n; double prior; std::vector<std::shared_ptr<corpus::Document> > docs; VectorXd priors;
    FixCorpus(size_t n_, double p) : n(n_), prior(p) {}
    size_t size() const override { return n; }
    const std::shared_ptr<corpus::Document> at(size_t i) const override { return docs.at(i); }
    void shuffle() override {}
    float get_prior(int y) const override { return priors.size() ? (float)priors[y] : (float)prior; }
};
struct FixDoc : public corpus::ClassificationDocument {
    VectorXi X; int y; std::shared_ptr<const corpus::Corpus> c;
    FixDoc(VectorXi x, int y_, std::shared_ptr<const corpus::Corpus> c_) : X(x), y(y_), c(c_) {}
    const std::shared_ptr<const corpus::Corpus> get_corpus() const override { return c; }
    const VectorXi &get_words() const override { return X; }
    int get_class() const override { return y; }
};
struct Recorder {
    std::vector<std::pair<std::string, double> > ev;
    std::function<void(std::shared_ptr<events::Event>)> fn() {
        return [this](std::shared_ptr<events::Event> e) {
            double v = NAN;
            if (e->id() == "ExpectationProgressEvent") v = std::static_pointer_cast<events::ExpectationProgressEvent<double> >(e)->likelihood();
            if (e->id() == "MaximizationProgressEvent") v = std::static_pointer_cast<events::MaximizationProgressEvent<double> >(e)->likelihood();
            ev.push_back({e->id(), v});
        };
    }
    void print() {
        out("events", (double)ev.size());
        std::string ids;
        VectorXd v(ev.size());
        for (size_t i = 0; i < ev.size(); i++) { ids += ev[i].first + ","; v[i] = ev[i].second; }
        outs("ids", ids);
        out("likes", v);
    }
};
}
