#include "drv.hpp"
#include <cstring>
#include <fstream>
#include <sstream>
#include "ldaplusplus/NumpyFormat.hpp"
using namespace drv;
namespace nf = ldaplusplus::numpy_format;
template <class S> using MF = Eigen::Matrix<S, -1, -1, Eigen::ColMajor>;
template <class S> using MR = Eigen::Matrix<S, -1, -1, Eigen::RowMajor>;
template <class S> using V1 = Eigen::Matrix<S, -1, 1>;
template <class S> using R1 = Eigen::Matrix<S, 1, -1>;
// entries are given and shown row by row as raw bytes
template <class M> M fill(long r, long c, const std::string &raw) {
    typedef typename M::Scalar S;
    M m(r, c);
    for (long i = 0; i < r; i++)
        for (long j = 0; j < c; j++) { S x; std::memcpy(&x, raw.data() + (i * c + j) * sizeof(S), sizeof(S)); m(i, j) = x; }
    return m;
}
template <class M> void show(const M &m) {
    typedef typename M::Scalar S;
    std::string s;
    for (long i = 0; i < m.rows(); i++)
        for (long j = 0; j < m.cols(); j++) { S x = m(i, j); s.append((const char *)&x, sizeof(S)); }
    out("rows", m.rows());
    out("cols", m.cols());
    outs("data", s);
}
template <class M> void write_(std::ostream &o, long r, long c, const std::string &raw) { nf::save(o, fill<M>(r, c, raw)); }
template <class S> void wr(const std::string &k, std::ostream &o, long r, long c, const std::string &raw) {
    if (k == "F") write_<MF<S> >(o, r, c, raw);
    else if (k == "C") write_<MR<S> >(o, r, c, raw);
    else if (k == "V") write_<V1<S> >(o, r, c, raw);
    else write_<R1<S> >(o, r, c, raw);
}
template <class S> void rd(const std::string &k, std::istream &i) {
    if (k == "F") show(nf::load<S>(i));
    else if (k == "C") show(nf::load<S, -1, -1, Eigen::RowMajor>(i));
    else if (k == "V") show(nf::load<S, -1, 1>(i));
    else if (k == "R") show(nf::load<S, 1, -1, Eigen::RowMajor>(i));
    else {          // one object reused
        static nf::NumpyInput<S> ni;
        i >> ni;
        MF<S> m = ni;
        show(m);
    }
}
#define TYPES(F) \
    if (t == "i1") F(int8_t) else if (t == "i2") F(int16_t) else if (t == "i4") F(int32_t) else if (t == "i8") F(int64_t) \
    else if (t == "u1") F(uint8_t) else if (t == "u2") F(uint16_t) else if (t == "u4") F(uint32_t) else if (t == "u8") F(uint64_t) \
    else if (t == "f4") F(float) else if (t == "f8") F(double)
// npwrite n (type kind rows cols raw)* : n arrays to one stream
COMMAND("npwrite") {
    long n = integer();
    std::ostringstream o;
    for (long q = 0; q < n; q++) {
        std::string t = word(), k = word(); long r = integer(), c = integer(); std::string raw = bytes();
#define W(S) wr<S>(k, o, r, c, raw);
        TYPES(W)
    }
    outs("file", o.str());
}
// npread file n (type kind)*
COMMAND("npread") {
    std::istringstream i(bytes());
    long n = integer();
    std::vector<std::pair<std::string, std::string> > tk;
    for (long q = 0; q < n; q++) { std::string a = word(), b = word(); tk.push_back({a, b}); }
    for (auto &p : tk) {
        std::string t = p.first, k = p.second;
#define R(S) rd<S>(k, i);
        TYPES(R)
    }
}
// nppath path type kind rows cols raw: save to a path and load from it
COMMAND("nppath") {
    std::string path = word(), t = word(); long r = integer(), c = integer(); std::string raw = bytes();
#define B(S) { nf::save(path, fill<MF<S> >(r, c, raw)); show(nf::load<S>(path)); }
    TYPES(B)
}
