// Dense matrices of Eigen.
#pragma once
#include <Eigen/Core>

#include "numpy.h"

namespace pybind11 {
namespace detail {

template <class S, int R, int C, int O>
struct dense {
  using M = Eigen::Matrix<S, R, C, O>;
  // Loads any array of the right shape, converted when allowed
  static bool load(handle h, bool convert, M& m) {
    auto is = PyObject_IsInstance(h.ptr(), numpy("ndarray").ptr()) == 1;
    if (!is && !convert) return false;
    object a;
    try {
      a = is ? object::borrow(h)
             : object::steal(PyObject_CallFunction(numpy("asarray").ptr(), "O",
                                                   h.ptr()));
      if (!convert &&
          std::string(str(a.attr("dtype"))) != code<S>::name())
        return false;
      auto b = contents(a, code<S>::name());
      auto d = b.shape.size();
      if (d != 1 && d != 2) return false;
      ssize_t rows = b.shape[0], cols = d == 2 ? b.shape[1] : 1;
      if (d == 1 && R == 1) std::swap(rows, cols);
      if (R != Eigen::Dynamic && rows != R) return false;
      if (C != Eigen::Dynamic && cols != C) return false;
      m.resize(rows, cols);
      auto* p = reinterpret_cast<const S*>(b.data.data());
      for (ssize_t i = 0; i < rows; ++i)
        for (ssize_t j = 0; j < cols; ++j) m(i, j) = p[i * cols + j];
      return true;
    } catch (const error_already_set&) {
      PyErr_Clear();
      return false;
    }
  }
  static object cast(const M& m) {
    std::vector<S> v;
    v.reserve(size_t(m.size()));
    for (Eigen::Index i = 0; i < m.rows(); ++i)
      for (Eigen::Index j = 0; j < m.cols(); ++j) v.push_back(m(i, j));
    auto shape = R == 1 || C == 1
                     ? std::vector<ssize_t>{m.size()}
                     : std::vector<ssize_t>{m.rows(), m.cols()};
    return array_from(v.data(), v.size() * sizeof(S), code<S>::name(), shape);
  }
};

template <class S, int R, int C, int O, int MR, int MC>
struct type_caster<Eigen::Matrix<S, R, C, O, MR, MC>>
    : value_caster<Eigen::Matrix<S, R, C, O, MR, MC>> {
  bool load(handle h, bool convert) {
    return dense<S, R, C, O>::load(h, convert, this->value);
  }
  static object cast(const Eigen::Matrix<S, R, C, O, MR, MC>& m) {
    return dense<S, R, C, O>::cast(m);
  }
};

template <class M, int O, class St>
struct type_caster<Eigen::Ref<M, O, St>> {
  using D = typename std::remove_const_t<M>::PlainObject;
  D value;
  std::unique_ptr<Eigen::Ref<M, O, St>> ref;
  bool load(handle h, bool convert) {
    type_caster<D> c;
    if (!c.load(h, convert)) return false;
    value = std::move(c.value);
    ref = std::make_unique<Eigen::Ref<M, O, St>>(value);
    return true;
  }
  template <class A>
  A get() {
    return *ref;
  }
};

}  // namespace detail
}  // namespace pybind11
