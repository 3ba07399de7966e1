// A small stand-in for pybind11 (which this repository takes from a submodule
// that is not here): what the bindings of pyfes use, on the C API of Python.
//
// Differences from pybind11: every object is held by a std::shared_ptr, values
// returned by reference are copied, arrays are always copied.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <complex>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

using ssize_t = Py_ssize_t;

struct error_already_set : std::runtime_error {
  error_already_set() : std::runtime_error("Python error") {}
};

struct value_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct type_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct index_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct key_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
class object;

class handle {
 public:
  handle() = default;
  handle(PyObject* p) : m_ptr(p) {}
  PyObject* ptr() const { return m_ptr; }
  PyObject*& ptr() { return m_ptr; }
  bool is_none() const { return m_ptr == Py_None; }
  explicit operator bool() const { return m_ptr != nullptr; }
  handle get_type() const {
    return handle(reinterpret_cast<PyObject*>(Py_TYPE(m_ptr)));
  }
  inline object attr(const char* name) const;

 protected:
  PyObject* m_ptr = nullptr;
};

class object : public handle {
 public:
  object() = default;
  object(const object& o) : handle(o.m_ptr) { Py_XINCREF(m_ptr); }
  object(object&& o) noexcept : handle(o.m_ptr) { o.m_ptr = nullptr; }
  object& operator=(object o) {
    std::swap(m_ptr, o.m_ptr);
    return *this;
  }
  ~object() { Py_XDECREF(m_ptr); }
  static object steal(PyObject* p) {
    if (p == nullptr) throw error_already_set();
    object o;
    o.m_ptr = p;
    return o;
  }
  static object borrow(handle h) {
    Py_XINCREF(h.ptr());
    object o;
    o.m_ptr = h.ptr();
    return o;
  }
  PyObject* release() {
    auto* p = m_ptr;
    m_ptr = nullptr;
    return p;
  }
};

inline object handle::attr(const char* name) const {
  return object::steal(PyObject_GetAttrString(m_ptr, name));
}

class str : public object {
 public:
  explicit str(handle h) : object(object::steal(PyObject_Str(h.ptr()))) {}
  str(const std::string& s)
      : object(steal(PyUnicode_FromStringAndSize(s.data(), s.size()))) {}
  str(const char* s) : object(steal(PyUnicode_FromString(s))) {}
  operator std::string() const {
    ssize_t n = 0;
    const char* p = PyUnicode_AsUTF8AndSize(m_ptr, &n);
    if (p == nullptr) throw error_already_set();
    return std::string(p, n);
  }
};

class bytes : public object {
 public:
  bytes() = default;
  bytes(const std::string& s)
      : object(steal(PyBytes_FromStringAndSize(s.data(), s.size()))) {}
  explicit bytes(object o) : object(std::move(o)) {}
};

class none : public object {
 public:
  none() : object(borrow(Py_None)) {}
};
class list : public object {
 public:
  list() : object(steal(PyList_New(0))) {}
  explicit list(object o) : object(std::move(o)) {}
  size_t size() const { return size_t(PyList_Size(m_ptr)); }
  template <class T>
  inline void append(T&& v);
};
class tuple : public object {
 public:
  tuple() : object(steal(PyTuple_New(0))) {}
  explicit tuple(object o) : object(std::move(o)) {}
  size_t size() const { return size_t(PyTuple_Size(m_ptr)); }
  handle operator[](size_t i) const {
    return PyTuple_GetItem(m_ptr, ssize_t(i));
  }
};
class dict : public object {
 public:
  dict() : object(steal(PyDict_New())) {}
  explicit dict(object o) : object(std::move(o)) {}
  size_t size() const { return size_t(PyDict_Size(m_ptr)); }
};

struct gil_scoped_release {
  gil_scoped_release() : s(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s); }
  PyThreadState* s;
};
struct gil_scoped_acquire {
  gil_scoped_acquire() : s(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s); }
  PyGILState_STATE s;
};
template <class... G>
struct call_guard {};
template <size_t, size_t>
struct keep_alive {};
struct reference_cast_error : std::runtime_error {
  reference_cast_error() : std::runtime_error("none for a reference") {}
};

// ---------------------------------------------------------------- instances
namespace detail {

struct Type {
  PyTypeObject* type = nullptr;
  Type* base = nullptr;
  void* (*up)(void*) = nullptr;
};

struct Instance {
  PyObject_HEAD
  std::shared_ptr<void> holder;
};

inline std::unordered_map<std::type_index, std::unique_ptr<Type>>& types() {
  static auto* t =
      new std::unordered_map<std::type_index, std::unique_ptr<Type>>();
  return *t;
}
inline std::unordered_map<PyTypeObject*, Type*>& registered() {
  static auto* t = new std::unordered_map<PyTypeObject*, Type*>();
  return *t;
}
// The enumerations are classes of Python with an attribute `value`.
inline std::unordered_map<std::type_index, PyObject*>& enums() {
  static auto* t = new std::unordered_map<std::type_index, PyObject*>();
  return *t;
}
inline Type* type_of(const std::type_info& i) {
  auto it = types().find(i);
  return it == types().end() ? nullptr : it->second.get();
}
inline Type* type_of(PyTypeObject* t) {
  for (; t != nullptr; t = t->tp_base) {
    auto it = registered().find(t);
    if (it != registered().end()) return it->second;
  }
  return nullptr;
}
inline PyObject* instance_new(PyTypeObject* t, PyObject*, PyObject*) {
  auto* self = PyType_GenericAlloc(t, 0);
  if (self != nullptr)
    new (&reinterpret_cast<Instance*>(self)->holder) std::shared_ptr<void>();
  return self;
}
inline int instance_init(PyObject* self, PyObject*, PyObject*) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!",
               Py_TYPE(self)->tp_name);
  return -1;
}
inline void instance_dealloc(PyObject* self) {
  auto* t = Py_TYPE(self);
  using P = std::shared_ptr<void>;
  reinterpret_cast<Instance*>(self)->holder.~P();
  t->tp_free(self);
  Py_DECREF(t);
}
// The pointer to the T inside self, or null
inline void* find(handle self, Type* want) {
  auto* t = type_of(Py_TYPE(self.ptr()));
  if (t == nullptr) return nullptr;
  auto* p = reinterpret_cast<Instance*>(self.ptr())->holder.get();
  for (; t != nullptr && p != nullptr; t = t->base) {
    if (t == want) return p;
    if (t->up) p = t->up(p);
  }
  return nullptr;
}
inline object wrap(std::shared_ptr<void> p, Type* t, const char* name) {
  if (t == nullptr)
    throw std::runtime_error(std::string("unregistered type ") + name);
  auto o = object::steal(instance_new(t->type, nullptr, nullptr));
  reinterpret_cast<Instance*>(o.ptr())->holder = std::move(p);
  return o;
}

// ------------------------------------------------------------------ casters
template <class T>
using bare = std::remove_cv_t<
    std::remove_pointer_t<std::remove_cv_t<std::remove_reference_t<T>>>>;

// Classes
template <class T, class = void>
struct type_caster {
  T* p = nullptr;
  bool none = false;
  bool load(handle h, bool convert) {
    if (h.is_none()) return none = convert;
    p = static_cast<T*>(find(h, type_of(typeid(T))));
    return p != nullptr;
  }
  template <class A>
  A get() {
    if constexpr (std::is_pointer_v<std::remove_reference_t<A>>) {
      return p;
    } else {
      if (none) throw reference_cast_error();
      return static_cast<A>(*p);
    }
  }
  static object cast(const T& v) {
    return wrap(std::make_shared<T>(v), type_of(typeid(T)), typeid(T).name());
  }
  static object cast(T&& v) {
    return wrap(std::make_shared<T>(std::move(v)), type_of(typeid(T)),
                typeid(T).name());
  }
  static object cast(T* v) {
    if (v == nullptr) return object::borrow(Py_None);
    return wrap(std::shared_ptr<T>(v), type_of(typeid(T)), typeid(T).name());
  }
};

// A value of the caster itself
template <class T>
struct value_caster {
  T value{};
  template <class A>
  A get() {
    if constexpr (std::is_rvalue_reference_v<A> || !std::is_reference_v<A>)
      return std::move(value);
    else
      return value;
  }
};

template <class T>
struct type_caster<std::shared_ptr<T>> : value_caster<std::shared_ptr<T>> {
  bool load(handle h, bool convert) {
    if (h.is_none()) return convert;
    auto* p = static_cast<T*>(find(h, type_of(typeid(T))));
    if (p == nullptr) return false;
    this->value = std::shared_ptr<T>(
        reinterpret_cast<Instance*>(h.ptr())->holder, p);
    return true;
  }
  static object cast(const std::shared_ptr<T>& v) {
    if (!v) return object::borrow(Py_None);
    return wrap(std::const_pointer_cast<std::remove_const_t<T>>(v),
                type_of(typeid(T)), typeid(T).name());
  }
};

template <>
struct type_caster<bool> : value_caster<bool> {
  bool load(handle h, bool convert) {
    if (h.ptr() == Py_True) return value = true;
    if (h.ptr() == Py_False) return !(value = false);
    if (!convert && std::strcmp("numpy.bool_", Py_TYPE(h.ptr())->tp_name) &&
        std::strcmp("numpy.bool", Py_TYPE(h.ptr())->tp_name))
      return false;
    if (h.is_none()) return !(value = false);
    auto* n = Py_TYPE(h.ptr())->tp_as_number;
    if (n == nullptr || n->nb_bool == nullptr) return false;
    value = n->nb_bool(h.ptr()) > 0;
    PyErr_Clear();
    return true;
  }
  static object cast(bool v) { return object::borrow(v ? Py_True : Py_False); }
};

template <class T>
struct type_caster<T, std::enable_if_t<std::is_floating_point_v<T>>>
    : value_caster<T> {
  bool load(handle h, bool convert) {
    if (!convert && !PyFloat_Check(h.ptr())) return false;
    auto v = PyFloat_AsDouble(h.ptr());
    if (v == -1 && PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    this->value = T(v);
    return true;
  }
  static object cast(T v) { return object::steal(PyFloat_FromDouble(v)); }
};

template <class T>
struct type_caster<
    T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
    : value_caster<T> {
  bool load(handle h, bool convert) {
    if (PyFloat_Check(h.ptr())) return false;
    if (!convert && !PyLong_Check(h.ptr()) && !PyIndex_Check(h.ptr()))
      return false;
    auto* n = PyNumber_Index(h.ptr());
    if (n == nullptr && convert) {
      PyErr_Clear();
      n = PyNumber_Long(h.ptr());
    }
    if (n == nullptr) {
      PyErr_Clear();
      return false;
    }
    bool ok;
    if (std::is_signed_v<T>) {
      auto v = PyLong_AsLongLong(n);
      this->value = T(v);
      ok = !PyErr_Occurred() && static_cast<long long>(this->value) == v;
    } else {
      auto v = PyLong_AsUnsignedLongLong(n);
      this->value = T(v);
      ok = !PyErr_Occurred() &&
           static_cast<unsigned long long>(this->value) == v;
    }
    PyErr_Clear();
    Py_DECREF(n);
    return ok;
  }
  static object cast(T v) {
    return object::steal(std::is_signed_v<T> ? PyLong_FromLongLong(v)
                                             : PyLong_FromUnsignedLongLong(v));
  }
};

template <class T>
struct type_caster<T, std::enable_if_t<std::is_enum_v<T>>> : value_caster<T> {
  bool load(handle h, bool) {
    auto it = enums().find(typeid(T));
    if (it == enums().end() || PyObject_IsInstance(h.ptr(), it->second) != 1) {
      PyErr_Clear();
      return false;
    }
    this->value = T(PyLong_AsLongLong(h.attr("value").ptr()));
    return true;
  }
  static object cast(T v) {
    auto it = enums().find(typeid(T));
    if (it == enums().end())
      throw std::runtime_error("unregistered enumeration");
    return object::steal(PyObject_CallFunction(it->second, "L",
                                               static_cast<long long>(v)));
  }
};

template <class T>
struct type_caster<std::complex<T>> : value_caster<std::complex<T>> {
  bool load(handle h, bool convert) {
    if (!convert && !PyComplex_Check(h.ptr())) return false;
    auto v = PyComplex_AsCComplex(h.ptr());
    if (v.real == -1 && PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    this->value = std::complex<T>(T(v.real), T(v.imag));
    return true;
  }
  static object cast(const std::complex<T>& v) {
    return object::steal(PyComplex_FromDoubles(v.real(), v.imag()));
  }
};

template <>
struct type_caster<std::string> : value_caster<std::string> {
  bool load(handle h, bool) {
    ssize_t n = 0;
    if (PyUnicode_Check(h.ptr())) {
      const char* p = PyUnicode_AsUTF8AndSize(h.ptr(), &n);
      if (p == nullptr) {
        PyErr_Clear();
        return false;
      }
      value = std::string(p, n);
      return true;
    }
    char* p = nullptr;
    if (PyBytes_Check(h.ptr()) &&
        PyBytes_AsStringAndSize(h.ptr(), &p, &n) == 0) {
      value = std::string(p, n);
      return true;
    }
    return false;
  }
  static object cast(const std::string& v) {
    return object::steal(PyUnicode_DecodeUTF8(v.data(), v.size(), nullptr));
  }
};

template <>
struct type_caster<char> {
  static object cast(const char* v) {
    if (v == nullptr) return object::borrow(Py_None);
    return type_caster<std::string>::cast(v);
  }
};

template <>
struct type_caster<handle> : value_caster<handle> {
  bool load(handle h, bool) {
    value = h;
    return true;
  }
  static object cast(const handle& h) { return object::borrow(h); }
};
template <>
struct type_caster<object> : value_caster<object> {
  bool load(handle h, bool) {
    value = object::borrow(h);
    return true;
  }
  static object cast(const object& h) { return h; }
};
template <>
struct type_caster<bytes> : value_caster<bytes> {
  bool load(handle h, bool) {
    if (!PyBytes_Check(h.ptr())) return false;
    value = bytes(object::borrow(h));
    return true;
  }
  static object cast(const bytes& h) { return h; }
};

#define MINI_OBJECT(C, CHECK)                          \
  template <>                                          \
  struct type_caster<C> : value_caster<C> {            \
    bool load(handle h, bool) {                        \
      if (!CHECK(h.ptr())) return false;               \
      value = C(object::borrow(h));                    \
      return true;                                     \
    }                                                  \
    static object cast(const C& h) { return h; }       \
  };
MINI_OBJECT(list, PyList_Check)
MINI_OBJECT(tuple, PyTuple_Check)
MINI_OBJECT(dict, PyDict_Check)
template <>
struct type_caster<str> {
  static object cast(const str& h) { return h; }
};
template <>
struct type_caster<none> {
  static object cast(const none& h) { return h; }
};

template <class T>
object to_python(T&& v) {
  using B = std::remove_cv_t<std::remove_reference_t<T>>;
  if constexpr (std::is_pointer_v<B> || std::is_array_v<B>)
    return type_caster<bare<std::decay_t<T>>>::cast(
        static_cast<std::decay_t<T>>(v));
  else
    return type_caster<B>::cast(std::forward<T>(v));
}

}  // namespace detail

template <class T>
object cast(T&& v) {
  return detail::to_python(std::forward<T>(v));
}
template <class T, std::enable_if_t<!std::is_reference_v<T>, int> = 0>
T cast(handle h) {
  if constexpr (std::is_base_of_v<object, T>) {
    return T(object::borrow(h));
  } else {
    detail::type_caster<detail::bare<T>> c;
    if (!c.load(h, true)) throw std::runtime_error("cannot cast");
    return c.template get<T>();
  }
}
template <class T>
inline void list::append(T&& v) {
  PyList_Append(m_ptr, detail::to_python(std::forward<T>(v)).ptr());
}
template <class... A>
tuple make_tuple(A&&... a) {
  auto t = object::steal(PyTuple_New(sizeof...(A)));
  ssize_t i = 0;
  (PyTuple_SET_ITEM(t.ptr(), i++,
                    detail::to_python(std::forward<A>(a)).release()), ...);
  return tuple(t);
}
inline size_t len(handle h) {
  auto n = PyObject_Length(h.ptr());
  if (n < 0) throw error_already_set();
  return size_t(n);
}

// ---------------------------------------------------------------- functions
struct arg;
struct arg_v {
  std::string name;
  object value;
};
struct arg {
  explicit arg(const char* n) : name(n) {}
  arg& noconvert(bool = true) { return *this; }
  template <class T>
  arg_v operator=(T&& v) const {
    return arg_v{name, detail::to_python(std::forward<T>(v))};
  }
  std::string name;
};

namespace detail {

struct Param {
  std::string name;
  object value;
};
struct Record {
  // -> whether the arguments fit
  std::function<bool(const std::vector<handle>&, bool, object&)> call;
  std::vector<Param> params;
  size_t nargs = 0;
  bool method = false, guard = false;
};
struct Overloads {
  std::string name;
  std::vector<Record> records;
};

inline void extra(Record&, const char*) {}
inline void extra(Record& r, const arg& a) {
  r.params.push_back({a.name, object()});
}
inline void extra(Record& r, const arg_v& a) {
  r.params.push_back({a.name, a.value});
}
template <class... G>
void extra(Record& r, const call_guard<G...>&) {
  r.guard = true;
}
template <size_t A, size_t B>
void extra(Record&, const keep_alive<A, B>&) {}

inline bool resolve(const Record& r, PyObject* args, PyObject* kwargs,
                    std::vector<handle>& out) {
  auto given = size_t(PyTuple_GET_SIZE(args));
  if (given > r.nargs) return false;
  for (size_t i = 0; i < given; ++i) out.push_back(PyTuple_GET_ITEM(args, i));
  auto used = size_t(0);
  auto skip = r.method ? size_t(1) : size_t(0);
  for (auto i = given; i < r.nargs; ++i) {
    if (i < skip || i - skip >= r.params.size()) return false;
    auto& p = r.params[i - skip];
    auto* v = kwargs ? PyDict_GetItemString(kwargs, p.name.c_str()) : nullptr;
    if (v != nullptr)
      ++used;
    else
      v = p.value.ptr();
    if (v == nullptr) return false;
    out.push_back(v);
  }
  return kwargs == nullptr || used == size_t(PyDict_Size(kwargs));
}

inline void translate() {
  try {
    throw;
  } catch (const error_already_set&) {
  } catch (const std::bad_alloc& e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const value_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const type_error& e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (const index_error& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const key_error& e) {
    PyErr_SetString(PyExc_KeyError, e.what());
  } catch (const std::domain_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error& e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "unknown exception");
  }
}

inline PyObject* dispatch(PyObject* self, PyObject* args, PyObject* kwargs) {
  auto* f = static_cast<Overloads*>(PyCapsule_GetPointer(self, nullptr));
  try {
    for (bool convert : {false, true}) {
      for (auto& r : f->records) {
        std::vector<handle> given;
        if (!resolve(r, args, kwargs, given)) continue;
        object out;
        try {
          if (r.call(given, convert, out)) return out.release();
        } catch (const reference_cast_error&) {
        }
      }
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments",
                 f->name.c_str());
  } catch (...) {
    translate();
  }
  return nullptr;
}

struct no_guard {};

template <class R, class... A, class F, size_t... I>
Record record_of(F f, bool released, std::index_sequence<I...>) {
  Record r;
  r.nargs = sizeof...(A);
  r.call = [f, released](const std::vector<handle>& in, bool convert,
                         object& out) mutable {
    std::tuple<type_caster<bare<A>>...> c;
    if (!(std::get<I>(c).load(in[I], convert) && ... && true)) return false;
    auto run = [&]() -> R { return f(std::get<I>(c).template get<A>()...); };
    if constexpr (std::is_void_v<R>) {
      if (released) {
        gil_scoped_release g;
        run();
      } else {
        run();
      }
      out = object::borrow(Py_None);
    } else if constexpr (std::is_reference_v<R> || std::is_pointer_v<R>) {
      std::remove_reference_t<R>* p = nullptr;
      std::remove_cv_t<std::remove_reference_t<R>> q{};
      if (released) {
        gil_scoped_release g;
        if constexpr (std::is_pointer_v<R>)
          q = run();
        else
          p = &run();
      } else {
        if constexpr (std::is_pointer_v<R>)
          q = run();
        else
          p = &run();
      }
      if constexpr (std::is_pointer_v<R>)
        out = to_python(q);
      else
        out = to_python(*p);
    } else {
      auto result = [&]() -> R {
        if (!released) return run();
        gil_scoped_release g;
        return run();
      }();
      out = to_python(std::move(result));
    }
    return true;
  };
  return r;
}

template <class... E>
constexpr bool guarded() {
  return (... || std::is_same_v<std::decay_t<E>,
                                call_guard<gil_scoped_release>>);
}

template <class F>
struct signature : signature<decltype(&F::operator())> {};
#define MINI_SIGNATURE(Q)                              \
  template <class C, class R, class... A>              \
  struct signature<R (C::*)(A...) Q> {                 \
    template <class F>                                 \
    static Record make(F f, bool g) {                  \
      return record_of<R, A...>(                       \
          std::move(f), g, std::index_sequence_for<A...>{}); \
    }                                                  \
    template <class T>                                 \
    static Record method(R (C::*m)(A...) Q, bool g) {  \
      return record_of<R, T&, A...>(                   \
          [m](T& self, A... a) -> R {                  \
            return (self.*m)(std::forward<A>(a)...);   \
          },                                           \
          g, std::make_index_sequence<sizeof...(A) + 1>{}); \
    }                                                  \
  };
MINI_SIGNATURE()
MINI_SIGNATURE(const)
MINI_SIGNATURE(noexcept)
MINI_SIGNATURE(const noexcept)
template <class R, class... A>
struct signature<R (*)(A...)> {
  template <class F>
  static Record make(F f, bool g) {
    return record_of<R, A...>(std::move(f), g,
                              std::index_sequence_for<A...>{});
  }
};
template <class R, class... A>
struct signature<R (*)(A...) noexcept> : signature<R (*)(A...)> {};

// A function, a lambda or, of class T, a member
template <class T, class F, class... E>
Record make(F f, const E&... e) {
  constexpr bool g = guarded<E...>();
  Record r;
  if constexpr (std::is_member_function_pointer_v<F>)
    r = signature<F>::template method<T>(f, g);
  else
    r = signature<std::decay_t<F>>::make(std::move(f), g);
  (extra(r, e), ...);
  return r;
}

// The overloads of a callable, new or already there
inline Overloads* overloads(PyObject* scope, const char* name, PyObject** fn) {
  using Key = std::pair<PyObject*, std::string>;
  static auto* all =
      new std::map<Key, std::pair<Overloads*, PyObject*>>();
  auto& e = (*all)[Key(scope, name)];
  *fn = nullptr;
  if (e.first == nullptr) {
    e.first = new Overloads{name, {}};
    auto* def = new PyMethodDef{
        strdup(name),
        reinterpret_cast<PyCFunction>(
            reinterpret_cast<void (*)()>(
                static_cast<PyCFunctionWithKeywords>(&dispatch))),
        METH_VARARGS | METH_KEYWORDS, nullptr};
    auto self = object::steal(PyCapsule_New(e.first, nullptr, nullptr));
    e.second = PyCFunction_NewEx(def, self.ptr(), nullptr);
    *fn = e.second;
  }
  return e.first;
}

inline object callable(Record r, const char* name) {
  auto* o = new Overloads{name, {}};
  o->records.push_back(std::move(r));
  auto* def = new PyMethodDef{
      strdup(name),
      reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(
          static_cast<PyCFunctionWithKeywords>(&dispatch))),
      METH_VARARGS | METH_KEYWORDS, nullptr};
  auto self = object::steal(PyCapsule_New(o, nullptr, nullptr));
  return object::steal(PyCFunction_NewEx(def, self.ptr(), nullptr));
}

inline void set(PyObject* scope, const char* name, handle v) {
  if (PyObject_SetAttrString(scope, name, v.ptr()) != 0)
    throw error_already_set();
}

}  // namespace detail

// ------------------------------------------------------------------ modules
class module_ : public object {
 public:
  explicit module_(object o) : object(std::move(o)) {}
  template <class F, class... E>
  module_& def(const char* name, F f, const E&... e) {
    PyObject* fn = nullptr;
    auto* o = detail::overloads(m_ptr, name, &fn);
    o->records.push_back(detail::make<void>(std::move(f), e...));
    if (fn) detail::set(m_ptr, name, fn);
    return *this;
  }
  module_ def_submodule(const char* name, const char* = nullptr) {
    auto full = std::string(PyModule_GetName(m_ptr)) + "." + name;
    auto m = object::borrow(PyImport_AddModule(full.c_str()));
    detail::set(m_ptr, name, m);
    return module_(m);
  }
};
using module = module_;

// ------------------------------------------------------------------ classes
namespace detail {
template <class... A>
struct Init {};
template <class F>
struct InitFactory {
  F f;
};
template <class G, class S>
struct Pickle {
  G get;
  S set;
};
template <class T, class... O>
struct base_of {
  using type = void;
};
template <class T, class O, class... Os>
struct base_of<T, O, Os...> {
  using type =
      std::conditional_t<std::is_base_of_v<O, T> && !std::is_same_v<O, T>, O,
                         typename base_of<T, Os...>::type>;
};
template <class T>
std::shared_ptr<void> held(T&& v) {
  return std::make_shared<std::decay_t<T>>(std::move(v));
}
template <class T>
std::shared_ptr<void> held(T* v) {
  return std::shared_ptr<T>(v);
}
template <class T>
std::shared_ptr<void> held(std::unique_ptr<T> v) {
  return std::shared_ptr<T>(std::move(v));
}
template <class T>
std::shared_ptr<void> held(std::shared_ptr<T> v) {
  return v;
}
struct Self {
  handle h;
};
template <>
struct type_caster<Self> : value_caster<Self> {
  bool load(handle h, bool) {
    value.h = h;
    return type_of(Py_TYPE(h.ptr())) != nullptr;
  }
};
inline void put(Self& s, std::shared_ptr<void> p) {
  reinterpret_cast<Instance*>(s.h.ptr())->holder = std::move(p);
}
template <class F>
struct factory : factory<decltype(&F::operator())> {};
template <class C, class R, class... A>
struct factory<R (C::*)(A...) const> {
  template <class F>
  static auto into(F f) {
    return [f](Self& s, A... a) { put(s, held(f(std::forward<A>(a)...))); };
  }
};
template <class R, class... A>
struct factory<R (*)(A...)> {
  template <class F>
  static auto into(F f) {
    return [f](Self& s, A... a) { put(s, held(f(std::forward<A>(a)...))); };
  }
};
}  // namespace detail

template <class... A>
detail::Init<A...> init() {
  return {};
}
template <class F>
detail::InitFactory<F> init(F f) {
  return {f};
}
template <class G, class S>
detail::Pickle<G, S> pickle(G g, S s) {
  return {g, s};
}

template <class T, class... Options>
class class_ : public object {
 public:
  template <class... E>
  class_(handle scope, const char* name, const E&...) {
    using B = typename detail::base_of<T, Options...>::type;
    auto info = std::make_unique<detail::Type>();
    object bases;
    if constexpr (!std::is_void_v<B>) {
      info->base = detail::type_of(typeid(B));
      if (info->base == nullptr) throw std::runtime_error("base of " + std::string(name));
      info->up = [](void* p) -> void* {
        return static_cast<B*>(static_cast<T*>(p));
      };
      bases = object::steal(PyTuple_Pack(1, info->base->type));
    }
    auto where = PyModule_Check(scope.ptr())
                     ? std::string(PyModule_GetName(scope.ptr()))
                     : std::string(str(scope.attr("__module__"))) + "." +
                           std::string(str(scope.attr("__qualname__")));
    auto full = where + "." + name;
    PyType_Slot slots[] = {
        {Py_tp_new, reinterpret_cast<void*>(&detail::instance_new)},
        {Py_tp_init, reinterpret_cast<void*>(&detail::instance_init)},
        {Py_tp_dealloc, reinterpret_cast<void*>(&detail::instance_dealloc)},
        {0, nullptr}};
    PyType_Spec spec{strdup(full.c_str()), sizeof(detail::Instance), 0,
                     Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    auto t = object::steal(PyType_FromSpecWithBases(&spec, bases.ptr()));
    info->type = reinterpret_cast<PyTypeObject*>(t.ptr());
    detail::registered()[info->type] = info.get();
    detail::types()[typeid(T)] = std::move(info);
    Py_INCREF(t.ptr());
    detail::set(scope.ptr(), name, t);
    m_ptr = t.release();
  }
  template <class F, class... E>
  class_& def(const char* name, F f, const E&... e) {
    auto r = detail::make<T>(std::move(f), e...);
    return method(name, std::move(r));
  }
  template <class... A, class... E>
  class_& def(detail::Init<A...>, const E&... e) {
    return method("__init__",
                  detail::make<T>(
                      [](detail::Self& s, A... a) {
                        detail::put(s, std::shared_ptr<T>(
                                           new T(std::forward<A>(a)...)));
                      },
                      e...));
  }
  template <class F, class... E>
  class_& def(detail::InitFactory<F> f, const E&... e) {
    return method("__init__",
                  detail::make<T>(detail::factory<F>::into(f.f), e...));
  }
  template <class G, class S, class... E>
  class_& def(detail::Pickle<G, S> p, const E&...) {
    method("__getstate__", detail::make<T>(p.get));
    return method("__setstate__",
                  detail::make<T>(detail::factory<S>::into(p.set)));
  }
  template <class F, class... E>
  class_& def_static(const char* name, F f, const E&... e) {
    PyObject* fn = nullptr;
    auto* o = detail::overloads(m_ptr, name, &fn);
    o->records.push_back(detail::make<void>(std::move(f), e...));
    if (fn)
      detail::set(m_ptr, name, object::steal(PyStaticMethod_New(fn)));
    return *this;
  }
  template <class G, class... E>
  class_& def_property_readonly(const char* name, G g, const E&...) {
    return property(name, detail::callable(detail::make<T>(g), name),
                    object::borrow(Py_None));
  }
  template <class G, class S, class... E>
  class_& def_property(const char* name, G g, S s, const E&...) {
    return property(name, detail::callable(detail::make<T>(g), name),
                    detail::callable(detail::make<T>(s), name));
  }

 private:
  class_& method(const char* name, detail::Record r) {
    r.method = true;
    PyObject* fn = nullptr;
    auto* o = detail::overloads(m_ptr, name, &fn);
    o->records.push_back(std::move(r));
    if (fn)
      detail::set(m_ptr, name, object::steal(PyInstanceMethod_New(fn)));
    if (std::strcmp(name, "__eq__") == 0 &&
        reinterpret_cast<PyTypeObject*>(m_ptr)->tp_hash == nullptr) {
    }
    return *this;
  }
  class_& property(const char* name, object get, object put) {
    auto p = object::steal(PyObject_CallFunctionObjArgs(
        reinterpret_cast<PyObject*>(&PyProperty_Type), get.ptr(), put.ptr(),
        nullptr));
    detail::set(m_ptr, name, p);
    return *this;
  }
};

// ------------------------------------------------------------- enumerations
template <class T>
class enum_ : public object {
 public:
  template <class... E>
  enum_(handle scope, const char* name, const E&...) : scope_(scope) {
    static const char* source =
        "class Enum:\n"
        "    def __init__(self, value):\n"
        "        object.__setattr__(self, 'value', int(value))\n"
        "    def __setattr__(self, k, v):\n"
        "        raise AttributeError(k)\n"
        "    name = property(lambda s: s._names.get(s.value, '???'))\n"
        "    def __int__(self): return self.value\n"
        "    def __index__(self): return self.value\n"
        "    def __eq__(self, o):\n"
        "        return type(o) is type(self) and o.value == self.value\n"
        "    def __ne__(self, o): return not self == o\n"
        "    def __hash__(self): return hash(self.value)\n"
        "    def __repr__(self):\n"
        "        return '<%s.%s: %d>' % (type(self).__name__, self.name,\n"
        "                                self.value)\n"
        "    def __getstate__(self): return self.value\n"
        "    def __setstate__(self, v):\n"
        "        object.__setattr__(self, 'value', v)\n";
    auto space = object::steal(PyDict_New());
    PyDict_SetItemString(space.ptr(), "__builtins__", PyEval_GetBuiltins());
    object::steal(
        PyRun_String(source, Py_file_input, space.ptr(), space.ptr()));
    auto* base = PyDict_GetItemString(space.ptr(), "Enum");
    auto dict = object::steal(PyDict_New());
    auto where = PyModule_Check(scope.ptr())
                     ? object::steal(PyObject_GetAttrString(scope.ptr(), "__name__"))
                     : scope.attr("__module__");
    PyDict_SetItemString(dict.ptr(), "__module__", where.ptr());
    PyDict_SetItemString(dict.ptr(), "_names",
                         object::steal(PyDict_New()).ptr());
    PyDict_SetItemString(dict.ptr(), "__members__",
                         object::steal(PyDict_New()).ptr());
    m_ptr = PyObject_CallFunction(reinterpret_cast<PyObject*>(&PyType_Type),
                                  "s(O)O", name, base, dict.ptr());
    if (m_ptr == nullptr) throw error_already_set();
    detail::enums()[typeid(T)] = m_ptr;
    Py_INCREF(m_ptr);
    detail::set(scope.ptr(), name, *this);
  }
  enum_& value(const char* name, T v, const char* = nullptr) {
    auto o = detail::to_python(v);
    detail::set(m_ptr, name, o);
    PyDict_SetItem(attr("_names").ptr(),
                   object::steal(PyLong_FromLongLong((long long)(v))).ptr(),
                   object::steal(PyUnicode_FromString(name)).ptr());
    PyDict_SetItemString(attr("__members__").ptr(), name, o.ptr());
    return *this;
  }
  enum_& export_values() {
    PyObject *k = nullptr, *v = nullptr;
    ssize_t i = 0;
    auto m = attr("__members__");
    while (PyDict_Next(m.ptr(), &i, &k, &v))
      PyObject_SetAttr(scope_.ptr(), k, v);
    return *this;
  }

 private:
  handle scope_;
};

template <class I, class... E>
object make_iterator(I first, I last, const E&...) {
  auto l = object::steal(PyList_New(0));
  for (; first != last; ++first)
    PyList_Append(l.ptr(), detail::to_python(*first).ptr());
  return object::steal(PyObject_GetIter(l.ptr()));
}

}  // namespace pybind11

#define PYBIND11_OVERLOAD_PURE(ret, cname, fn, ...) \
  throw std::runtime_error("pure virtual function called: " #fn)
#define PYBIND11_OVERRIDE_PURE PYBIND11_OVERLOAD_PURE

#define PYBIND11_MODULE(name, var)                                         \
  static void mini_init_##name(pybind11::module_&);                        \
  extern "C" __attribute__((visibility("default"))) PyObject*              \
      PyInit_##name() {                                                    \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, "pyfes." #name,       \
                              nullptr, -1, nullptr, nullptr, nullptr,      \
                              nullptr, nullptr};                           \
    auto* m = PyModule_Create(&def);                                       \
    if (m == nullptr) return nullptr;                                      \
    try {                                                                  \
      /* submodules are found by their full name */                        \
      auto mod = pybind11::module_(pybind11::object::borrow(m));           \
      mini_init_##name(mod);                                               \
      return m;                                                            \
    } catch (...) {                                                        \
      pybind11::detail::translate();                                       \
      return nullptr;                                                      \
    }                                                                      \
  }                                                                        \
  static void mini_init_##name(pybind11::module_& var)
