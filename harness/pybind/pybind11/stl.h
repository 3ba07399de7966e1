// Containers of the standard library and optional values.
#pragma once
#include "pybind11.h"

namespace pybind11 {
namespace detail {

template <class T>
struct type_caster<std::vector<T>> : value_caster<std::vector<T>> {
  bool load(handle h, bool convert) {
    if (!PySequence_Check(h.ptr()) || PyUnicode_Check(h.ptr()) ||
        PyBytes_Check(h.ptr()))
      return false;
    auto n = PySequence_Size(h.ptr());
    if (n < 0) {
      PyErr_Clear();
      return false;
    }
    this->value.clear();
    for (ssize_t i = 0; i < n; ++i) {
      auto o = object::steal(PySequence_GetItem(h.ptr(), i));
      type_caster<T> c;
      if (!c.load(o, convert)) return false;
      this->value.push_back(c.template get<T>());
    }
    return true;
  }
  static object cast(const std::vector<T>& v) {
    auto l = object::steal(PyList_New(0));
    for (const auto& x : v) PyList_Append(l.ptr(), to_python(x).ptr());
    return l;
  }
};

template <class K, class V>
struct type_caster<std::map<K, V>> : value_caster<std::map<K, V>> {
  static object cast(const std::map<K, V>& v) {
    auto d = object::steal(PyDict_New());
    for (const auto& x : v)
      PyDict_SetItem(d.ptr(), to_python(x.first).ptr(),
                     to_python(x.second).ptr());
    return d;
  }
};

template <class... T>
struct type_caster<std::tuple<T...>> : value_caster<std::tuple<T...>> {
  static object cast(const std::tuple<T...>& v) {
    auto t = object::steal(PyTuple_New(sizeof...(T)));
    fill(t, v, std::index_sequence_for<T...>{});
    return t;
  }
  template <size_t... I>
  static void fill(object& t, const std::tuple<T...>& v,
                   std::index_sequence<I...>) {
    (PyTuple_SET_ITEM(t.ptr(), I, to_python(std::get<I>(v)).release()), ...);
  }
};
template <class A, class B>
struct type_caster<std::pair<A, B>> : value_caster<std::pair<A, B>> {
  static object cast(const std::pair<A, B>& v) {
    return to_python(std::make_tuple(v.first, v.second));
  }
};

template <class O>
struct optional_caster : value_caster<O> {
  using T = typename O::value_type;
  bool load(handle h, bool convert) {
    if (h.is_none()) return true;
    type_caster<bare<T>> c;
    if (!c.load(h, convert)) return false;
    this->value = c.template get<T>();
    return true;
  }
  static object cast(const O& v) {
    if (!v) return object::borrow(Py_None);
    return to_python(*v);
  }
};
template <class T>
struct void_caster {
  bool load(handle h, bool) { return h.is_none(); }
  static object cast(const T&) { return object::borrow(Py_None); }
};

}  // namespace detail
}  // namespace pybind11
