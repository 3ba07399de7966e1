// Arrays of numpy.
#pragma once
#include "pybind11.h"

namespace pybind11 {
namespace detail {

inline object numpy(const char* name) {
  static PyObject* m = PyImport_ImportModule("numpy");
  if (m == nullptr) throw error_already_set();
  return handle(m).attr(name);
}

struct Proxy {
  int type_num;
};
inline std::shared_ptr<Proxy> array_descriptor_proxy(PyObject* d) {
  auto n = handle(d).attr("num");
  return std::make_shared<Proxy>(Proxy{int(PyLong_AsLong(n.ptr()))});
}

template <class T, class = void>
struct code {};
template <class T>
struct code<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static std::string name() { return sizeof(T) == 4 ? "float32" : "float64"; }
};
template <class T>
struct code<std::complex<T>> {
  static std::string name() {
    return sizeof(T) == 4 ? "complex64" : "complex128";
  }
};
template <class T>
struct code<T, std::enable_if_t<std::is_integral_v<T>>> {
  static std::string name() {
    if (std::is_same_v<T, bool>) return "bool";
    return (std::is_signed_v<T> ? "int" : "uint") +
           std::to_string(8 * sizeof(T));
  }
};
template <class T>
struct code<T, std::enable_if_t<std::is_enum_v<T>>>
    : code<std::underlying_type_t<T>> {};

// The bytes of a C contiguous array of the given type
struct Buffer {
  std::vector<ssize_t> shape;
  std::vector<char> data;
};
inline Buffer contents(handle a, const std::string& dtype) {
  auto c = object::steal(PyObject_CallFunction(
      numpy("ascontiguousarray").ptr(), "Os", a.ptr(), dtype.c_str()));
  auto shape = handle(a).attr("shape");
  Buffer b;
  for (ssize_t i = 0; i < PyTuple_Size(shape.ptr()); ++i)
    b.shape.push_back(PyLong_AsSsize_t(PyTuple_GetItem(shape.ptr(), i)));
  auto bytes = object::steal(PyObject_CallMethod(c.ptr(), "tobytes", nullptr));
  char* p = nullptr;
  ssize_t n = 0;
  PyBytes_AsStringAndSize(bytes.ptr(), &p, &n);
  b.data.assign(p, p + n);
  return b;
}
// An array from bytes in C order
inline object array_from(const void* p, size_t n, const std::string& dtype,
                         std::vector<ssize_t> shape) {
  auto bytes = object::steal(
      PyBytes_FromStringAndSize(static_cast<const char*>(p), n));
  auto flat = object::steal(PyObject_CallFunction(
      numpy("frombuffer").ptr(), "Os", bytes.ptr(), dtype.c_str()));
  auto t = object::steal(PyTuple_New(shape.size()));
  for (size_t i = 0; i < shape.size(); ++i)
    PyTuple_SET_ITEM(t.ptr(), i, PyLong_FromSsize_t(shape[i]));
  auto r = object::steal(
      PyObject_CallMethod(flat.ptr(), "reshape", "O", t.ptr()));
  return object::steal(PyObject_CallMethod(r.ptr(), "copy", nullptr));
}

}  // namespace detail

class dtype : public object {
 public:
  explicit dtype(object o) : object(std::move(o)) {}
};

namespace detail {
// An array as it is in memory
struct View {
  char* p = nullptr;
  ssize_t item = 0, size = 1;
  bool writeable = false;
  std::vector<ssize_t> shape, strides;
};
inline std::vector<ssize_t> sizes(handle t) {
  std::vector<ssize_t> v;
  for (ssize_t i = 0; i < PyTuple_Size(t.ptr()); ++i)
    v.push_back(PyLong_AsSsize_t(PyTuple_GetItem(t.ptr(), i)));
  return v;
}
inline View view_of(handle a) {
  View v;
  auto i = a.attr("__array_interface__");
  auto d = PyDict_GetItemString(i.ptr(), "data");
  v.p = static_cast<char*>(PyLong_AsVoidPtr(PyTuple_GetItem(d, 0)));
  v.writeable = PyTuple_GetItem(d, 1) == Py_False;
  v.item = PyLong_AsSsize_t(a.attr("itemsize").ptr());
  v.shape = sizes(a.attr("shape"));
  v.strides = sizes(a.attr("strides"));
  for (auto n : v.shape) v.size *= n;
  return v;
}
template <class T, int N>
struct Unchecked {
  View v;
  ssize_t size() const { return v.size; }
  ssize_t ndim() const { return ssize_t(v.shape.size()); }
  ssize_t shape(ssize_t i) const { return v.shape[size_t(i)]; }
  ssize_t itemsize() const { return ssize_t(sizeof(T)); }
  ssize_t nbytes() const { return size() * itemsize(); }
  template <class... I>
  T* at(I... i) const {
    auto* p = v.p;
    size_t k = 0;
    ((p += ssize_t(i) * v.strides[k++]), ...);
    return reinterpret_cast<T*>(p);
  }
  template <class... I>
  T& operator()(I... i) const {
    return *at(i...);
  }
  T& operator[](ssize_t i) const { return *at(i); }
  template <class... I>
  T* data(I... i) const {
    return at(i...);
  }
  template <class... I>
  T* mutable_data(I... i) const {
    return at(i...);
  }
};
}  // namespace detail

struct buffer_info {
  void* ptr = nullptr;
  ssize_t itemsize = 0, size = 0, ndim = 0;
  std::vector<ssize_t> shape, strides;
  bool readonly = false;
};

class array : public object {
 public:
  enum { c_style = 1, f_style = 2, forcecast = 16 };
  array() = default;
  explicit array(object o) : object(std::move(o)) {}
  static array ensure(handle h, int = 0) {
    auto* p = PyObject_CallFunction(detail::numpy("asarray").ptr(), "O",
                                    h.ptr());
    if (p == nullptr) {
      PyErr_Clear();
      return array();
    }
    return array(object::steal(p));
  }
  pybind11::dtype dtype() const { return pybind11::dtype(attr("dtype")); }
  ssize_t size() const { return view().size; }
  ssize_t ndim() const { return ssize_t(view().shape.size()); }
  ssize_t itemsize() const { return view().item; }
  ssize_t nbytes() const { return size() * itemsize(); }
  ssize_t shape(ssize_t i) const {
    auto v = view();
    if (i < 0 || i >= ssize_t(v.shape.size()))
      throw std::out_of_range("invalid axis");
    return v.shape[size_t(i)];
  }
  ssize_t strides(ssize_t i) const { return view().strides.at(size_t(i)); }
  bool writeable() const { return view().writeable; }
  template <class... I>
  const void* data(I... i) const {
    return detail::Unchecked<char, 1>{view()}.at(i...);
  }
  template <class... I>
  void* mutable_data(I... i) {
    if (!writeable()) throw std::domain_error("array is not writeable");
    return detail::Unchecked<char, 1>{view()}.at(i...);
  }
  buffer_info request(bool = false) const {
    auto v = view();
    return {v.p, v.item, v.size, ssize_t(v.shape.size()), v.shape, v.strides,
            !v.writeable};
  }
  // Whatever the type of the array
  template <class T, int N = 1>
  detail::Unchecked<const T, N> unchecked() const {
    return checked<const T, N>();
  }
  template <class T, int N = 1>
  detail::Unchecked<T, N> mutable_unchecked() {
    if (!writeable()) throw std::domain_error("array is not writeable");
    return checked<T, N>();
  }

 protected:
  detail::View view() const { return detail::view_of(*this); }
  template <class T, int N>
  detail::Unchecked<T, N> checked() const {
    if (N >= 0 && ndim() != N)
      throw std::domain_error("array has incorrect number of dimensions: " +
                              std::to_string(ndim()) + "; expected " +
                              std::to_string(N));
    return {view()};
  }
};

template <class T, int F = array::forcecast>
class array_t : public array {
 public:
  array_t() = default;
  explicit array_t(object o) : array(std::move(o)) {}
  explicit array_t(ssize_t n)
      : array(object::steal(PyObject_CallFunction(
            detail::numpy("zeros").ptr(), "ns", n,
            detail::code<T>::name().c_str()))) {}
  static array_t ensure(handle h) {
    auto* p = PyObject_CallFunction(
        detail::numpy((F & array::c_style) ? "ascontiguousarray" : "asarray")
            .ptr(),
        "Os", h.ptr(), detail::code<T>::name().c_str());
    if (p == nullptr) {
      PyErr_Clear();
      return array_t();
    }
    return array_t(object::steal(p));
  }
  template <class... I>
  const T* data(I... i) const {
    return reinterpret_cast<const T*>(
        detail::Unchecked<char, 1>{view()}.at(i...));
  }
  template <class... I>
  T* mutable_data(I... i) {
    return reinterpret_cast<T*>(detail::Unchecked<char, 1>{view()}.at(i...));
  }
  template <class... I>
  const T& at(I... i) const {
    return *data(i...);
  }
  template <class... I>
  T& mutable_at(I... i) {
    return *mutable_data(i...);
  }
  template <int N = 1>
  detail::Unchecked<const T, N> unchecked() const {
    return checked<const T, N>();
  }
  template <int N = 1>
  detail::Unchecked<T, N> mutable_unchecked() {
    return checked<T, N>();
  }
};

namespace detail {
template <>
struct type_caster<array> : value_caster<array> {
  bool load(handle h, bool) {
    if (PyObject_IsInstance(h.ptr(), numpy("ndarray").ptr()) != 1) return false;
    value = array(object::borrow(h));
    return true;
  }
  static object cast(const array& a) { return a; }
};
template <class T, int F>
struct type_caster<array_t<T, F>> : value_caster<array_t<T, F>> {
  bool load(handle h, bool convert) {
    if (!convert && (PyObject_IsInstance(h.ptr(), numpy("ndarray").ptr()) != 1 ||
                     std::string(str(h.attr("dtype"))) != code<T>::name()))
      return false;
    this->value = array_t<T, F>::ensure(h);
    return bool(this->value);
  }
  static object cast(const array& a) { return a; }
};
}  // namespace detail
}  // namespace pybind11
