// Text-protocol driver around the real code of /repo.  One command per line group:
//   <command> <args...>            ->  lines "<key> <rows> <cols> <hexfloats...>", then "end ok" or "end exc <what>"
#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Core>

namespace drv {
using MatrixXd = Eigen::MatrixXd;
using VectorXd = Eigen::VectorXd;
using MatrixXi = Eigen::MatrixXi;
using VectorXi = Eigen::VectorXi;
using MatrixXf = Eigen::MatrixXf;
using VectorXf = Eigen::VectorXf;

inline std::string word() {
    std::string s;
    if (!(std::cin >> s)) std::exit(0);
    return s;
}
inline double num() { return std::strtod(word().c_str(), nullptr); }
inline long integer() { return std::strtol(word().c_str(), nullptr, 10); }
// a matrix argument: rows cols entries (row by row)
template <class M> M mat() {
    long r = integer(), c = integer();
    M m(r, c);
    for (long i = 0; i < r; i++)
        for (long j = 0; j < c; j++) m(i, j) = static_cast<typename M::Scalar>(num());
    return m;
}
template <class V> V vec() {
    long r = integer(); integer();
    V m(r);
    for (long i = 0; i < r; i++) m[i] = static_cast<typename V::Scalar>(num());
    return m;
}
template <class D> void out(const char *k, const Eigen::DenseBase<D> &m) {
    std::printf("%s %ld %ld", k, (long)m.rows(), (long)m.cols());
    for (long i = 0; i < m.rows(); i++)
        for (long j = 0; j < m.cols(); j++) std::printf(" %a", (double)m.derived().coeff(i, j));
    std::printf("\n");
}
inline void out(const char *k, double v) { std::printf("%s 1 1 %a\n", k, v); }
inline void outs(const char *k, const std::string &s) {
    std::printf("%s str", k);
    for (unsigned char c : s) std::printf(" %02x", c);
    std::printf("\n");
}
inline std::string bytes() {
    long n = integer();
    std::string s;
    for (long i = 0; i < n; i++) s.push_back((char)integer());
    return s;
}
std::map<std::string, std::function<void()>> &commands();
struct Reg {
    Reg(const std::string &n, std::function<void()> f) { commands()[n] = f; }
};
#define CAT2(a, b) a##b
#define CAT1(a, b) CAT2(a, b)
#define COMMAND(name) \
    static void CAT1(cmd_, __LINE__)(); \
    static drv::Reg CAT1(reg_, __LINE__)(name, CAT1(cmd_, __LINE__)); \
    static void CAT1(cmd_, __LINE__)()
}
