// Instantiates what the numpy contracts of callers need, so that the front end sees the bodies.  Nothing here is verified.
#include "ldaplusplus/NumpyFormat.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/Parameters.hpp"
#include <memory>
using namespace ldaplusplus;
void verif_io(std::ostream &o, std::istream &i, Eigen::MatrixXd m) {
    numpy_format::NumpyInput<double> ni;
    i >> ni;
    numpy_format::NumpyOutput<double> no(m);
    o << no;
    (void)ni.shape(); (void)ni.data(); (void)ni.fortran_contiguous();
    (void)no.shape(); (void)no.data(); (void)no.fortran_contiguous();
    auto p = std::make_shared<parameters::SupervisedModelParameters<double> >();
    events::ExpectationProgressEvent<double> a(0.0);
    events::MaximizationProgressEvent<double> b(0.0);
    events::EpochProgressEvent<double> c(p);
    (void)c.model_parameters();
}
