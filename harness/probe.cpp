// The conversions of dates used by the bindings of pyfes (C23).
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>

#include "fes/python/datemanip.hpp"
#include "fes/python/datetime64.hpp"

namespace {
auto as_int64(const pybind11::handle& d) -> int64_t {
  return fes::python::datemanip::as_int64(d);
}
auto as_float64(const pybind11::handle& d) -> double {
  return fes::python::datemanip::as_float64(d);
}
auto to_epoch(pybind11::array& a) -> Eigen::VectorXd {
  return fes::python::npdatetime64_to_epoch(a);
}
}  // namespace

PYBIND11_MODULE(probe, m) {
  m.def("as_int64", &as_int64, pybind11::arg("date"));
  m.def("as_float64", &as_float64, pybind11::arg("date"));
  m.def("to_epoch", &to_epoch, pybind11::arg("dates"));
}
