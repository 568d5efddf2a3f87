// saving and loading models, snapshots; everything happens in the directory given
#include "fix.hpp"
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include "applications/lda_io.hpp"
#include "applications/SnapshotEvery.hpp"
using namespace drv;
static std::shared_ptr<SMP> model() {
    auto a = vec<VectorXd>(); auto b = mat<MatrixXd>(); auto e = mat<MatrixXd>();
    return std::make_shared<SMP>(a, b, e);
}
static void show(const SMP &m) { out("alpha", m.alpha); out("beta", m.beta); out("eta", m.eta); }
static std::string slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str();
}
// saveload path alpha beta eta  [again with another model over it]
COMMAND("saveload") {
    std::string path = word(); long n = integer();
    for (long i = 0; i < n; i++) {
        auto m = model();
        SMP before(*m);
        io::save_lda(path, m);
        show(*io::load_lda(path));
        outs("file", slurp(path));
        out("kept", before.alpha == m->alpha && before.beta == m->beta && before.eta == m->eta);
    }
    unlink(path.c_str());
}
COMMAND("loadfile") {
    std::string path = word(), raw = bytes();
    { std::ofstream f(path, std::ios::binary); f << raw; }
    show(*io::load_lda(path));
    unlink(path.c_str());
}
// data path raw labels: the input files of the applications
COMMAND("data") {
    std::string path = word(), raw = bytes(); long labels = integer();
    { std::ofstream f(path, std::ios::binary); f << raw; }
    MatrixXi X, y;
    if (labels) io::parse_input_data(path, X, y); else io::parse_input_data(path, X);
    out("X", X);
    out("y", y);
    unlink(path.c_str());
}
// snaps dir name every n (epoch alpha beta eta | other)*
COMMAND("snaps") {
    std::string dir = word(), name = word(); long every = integer(), n = integer();
    mkdir(dir.c_str(), 0700);
    SnapshotEvery s(dir + "/" + name, every);
    for (long i = 0; i < n; i++) {
        std::string k = word();
        if (k == "epoch") { auto m = model(); s.on_event(std::make_shared<events::EpochProgressEvent<double> >(m)); }
        else if (k == "expectation") s.on_event(std::make_shared<events::ExpectationProgressEvent<double> >(num()));
        else s.on_event(std::make_shared<events::MaximizationProgressEvent<double> >(num()));
        std::string names;
        DIR *d = opendir(dir.c_str());
        std::vector<std::string> v;
        while (dirent *e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
        closedir(d);
        outs("new", v.empty() ? "" : v[0]);
        out("count", v.size());
        for (auto &f : v) { outs("file", slurp(dir + "/" + f)); show(*io::load_lda(dir + "/" + f)); unlink((dir + "/" + f).c_str()); }
    }
    rmdir(dir.c_str());
}
