// Instantiates the numpy format templates of /repo, so that the front end sees their bodies.  Nothing here is verified.
#include "ldaplusplus/NumpyFormat.hpp"
#include <Eigen/Core>
#include <cstdint>
#include <fstream>
#include <sstream>
using namespace ldaplusplus;
template <class T> void verif_inst(std::ostream &o, std::istream &i) {
    typedef Eigen::Matrix<T, -1, -1> F;
    typedef Eigen::Matrix<T, -1, -1, Eigen::RowMajor> C;
    typedef Eigen::Matrix<T, -1, 1> V;
    F f; C c; V v;
    numpy_format::save(o, f);
    numpy_format::save(o, c);
    numpy_format::save(o, v);
    numpy_format::save(std::string("x"), f);
    numpy_format::NumpyInput<T> ni;
    i >> ni;
    (void)ni.shape(); (void)ni.data(); (void)ni.fortran_contiguous();
    numpy_format::swap_endianess(f.data(), 1);
    f = numpy_format::load<T>(i);
    f = numpy_format::load<T>(std::string("x"));
    c = numpy_format::load<T, -1, -1, Eigen::RowMajor>(i);
    v = numpy_format::load<T, -1, 1>(i);
}
void verif_all(std::ostream &o, std::istream &i) {
    verif_inst<int8_t>(o, i); verif_inst<int16_t>(o, i); verif_inst<int32_t>(o, i); verif_inst<int64_t>(o, i);
    verif_inst<uint8_t>(o, i); verif_inst<uint16_t>(o, i); verif_inst<uint32_t>(o, i); verif_inst<uint64_t>(o, i);
    verif_inst<float>(o, i); verif_inst<double>(o, i);
}
