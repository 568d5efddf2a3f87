#include "fix.hpp"
using namespace drv;
// corpus <X> <labelled> <y> <seed> <shuffles>
COMMAND("corpus") {
    auto X = mat<MatrixXi>(); bool lab = integer(); auto y = vec<VectorXi>(); int seed = integer(); long sh = integer();
    std::shared_ptr<corpus::Corpus> c;
    if (lab) c = std::make_shared<corpus::EigenClassificationCorpus>(X, y, seed);
    else c = std::make_shared<corpus::EigenCorpus>(X, seed);
    long n = c->size();
    std::vector<std::shared_ptr<corpus::Document> > kept;
    long known = 1;
    for (long s = 0; s <= sh; s++) {
        out("size", c->size());
        MatrixXd D(X.rows() + 1, n);
        for (long i = 0; i < n; i++) {
            auto d = c->at(i);
            if (s == 0) kept.push_back(d);
            VectorXi w = d->get_words();
            D(X.rows(), i) = lab ? std::static_pointer_cast<corpus::ClassificationDocument>(d)->get_class() : 0;
            for (long r = 0; r < X.rows(); r++) D(r, i) = r < w.rows() ? w[r] : -999;
            if (w.rows() != X.rows()) D(0, i) = -999;
            if (lab && d->get_corpus().get() != c.get()) known = 0;
        }
        out("docs", D);
        if (s < sh) c->shuffle();
    }
    // documents handed out before keep their words and labels
    MatrixXd D(X.rows() + 1, n);
    for (long i = 0; i < n; i++) {
        D.col(i).head(X.rows()) = kept[i]->get_words().cast<double>();
        D(X.rows(), i) = lab ? std::static_pointer_cast<corpus::ClassificationDocument>(kept[i])->get_class() : 0;
    }
    out("kept", D);
    out("known", known);
    if (lab) {
        int C = y.rows() ? y.maxCoeff() : -1;
        VectorXd p(C < 0 ? 0 : C + 1);
        for (int k = 0; k < p.rows(); k++) p[k] = std::static_pointer_cast<corpus::ClassificationCorpus>(c)->get_prior(k);
        out("priors", p);
    }
}
