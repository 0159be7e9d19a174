// A small re-implementation of the part of the pybind11 API that OpenSfM's
// binding sources use.  The pybind11 submodule is empty in this sandbox, so
// without it none of the eight extension modules could be built and nothing
// above the C++ libraries could be exercised.  The binding sources of the
// repository are compiled unmodified against this header.
//
// Semantics follow pybind11 2.x: overload resolution in two passes (without
// and with implicit conversions), return value policies, instance registry
// (one python object per C++ pointer and type), keep_alive, pickling.
#pragma once

#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

#define PYBIND11_NAMESPACE pybind11
#define PYBIND11_NAMESPACE_BEGIN(name) namespace name {
#define PYBIND11_NAMESPACE_END(name) }

namespace pybind11 {

enum class return_value_policy : uint8_t {
  automatic = 0,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};

// ---------------------------------------------------------------- exceptions
class error_already_set : public std::runtime_error {
 public:
  error_already_set();  // fetches the current python error
  error_already_set(const error_already_set&) = default;
  void restore() const;

 private:
  std::shared_ptr<PyObject> exc_;
};
class stop_iteration : public std::runtime_error {
 public:
  stop_iteration() : std::runtime_error("") {}
};
class cast_error : public std::runtime_error {
 public:
  explicit cast_error(const std::string& s) : std::runtime_error(s) {}
};
class reference_cast_error : public cast_error {
 public:
  reference_cast_error() : cast_error("") {}
};
class type_error : public std::runtime_error {
 public:
  explicit type_error(const std::string& s) : std::runtime_error(s) {}
};

// ------------------------------------------------------------------- objects
class handle {
 public:
  handle() = default;
  handle(PyObject* p) : m_ptr(p) {}
  PyObject* ptr() const { return m_ptr; }
  PyObject*& ptr() { return m_ptr; }
  const handle& inc_ref() const {
    Py_XINCREF(m_ptr);
    return *this;
  }
  const handle& dec_ref() const {
    Py_XDECREF(m_ptr);
    return *this;
  }
  explicit operator bool() const { return m_ptr != nullptr; }
  bool is_none() const { return m_ptr == Py_None; }
  bool is(handle o) const { return m_ptr == o.m_ptr; }
  template <typename T>
  T cast() const;

 protected:
  PyObject* m_ptr = nullptr;
};

class object : public handle {
 public:
  struct stolen_t {};
  struct borrowed_t {};
  object() = default;
  object(handle h, stolen_t) : handle(h) {}
  object(handle h, borrowed_t) : handle(h) { inc_ref(); }
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept : handle(o) { o.m_ptr = nullptr; }
  ~object() { dec_ref(); }
  object& operator=(const object& o) {
    o.inc_ref();
    dec_ref();
    m_ptr = o.m_ptr;
    return *this;
  }
  object& operator=(object&& o) noexcept {
    if (this != &o) {
      dec_ref();
      m_ptr = o.m_ptr;
      o.m_ptr = nullptr;
    }
    return *this;
  }
  handle release() {
    PyObject* t = m_ptr;
    m_ptr = nullptr;
    return handle(t);
  }
};

template <typename T>
T reinterpret_borrow(handle h) {
  return {h, object::borrowed_t{}};
}
template <typename T>
T reinterpret_steal(handle h) {
  return {h, object::stolen_t{}};
}

inline object steal_or_throw(PyObject* p) {
  if (!p) {
    throw error_already_set();
  }
  return object(handle(p), object::stolen_t{});
}

// obj[key]
class item_accessor {
 public:
  item_accessor(handle obj, object key)
      : obj_(obj, object::borrowed_t{}), key_(std::move(key)) {}
  object get() const {
    return steal_or_throw(PyObject_GetItem(obj_.ptr(), key_.ptr()));
  }
  operator object() const { return get(); }
  template <typename T>
  T cast() const {
    return get().cast<T>();
  }
  template <typename T>
  void operator=(T&& value);
  void operator=(const item_accessor& o) { *this = o.get(); }
  item_accessor operator[](const char* key) const;
  item_accessor operator[](size_t i) const;

 private:
  object obj_;
  object key_;
};

class none : public object {
 public:
  none() : object(handle(Py_None), borrowed_t{}) {}
};

class str : public object {
 public:
  using object::object;
  str(const char* s) : object(steal_or_throw(PyUnicode_FromString(s))) {}
  str(const std::string& s)
      : object(steal_or_throw(
            PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size()))) {}
  static bool check_(handle h) { return PyUnicode_Check(h.ptr()); }
};

class tuple : public object {
 public:
  tuple() : object(steal_or_throw(PyTuple_New(0))) {}
  explicit tuple(size_t n) : object(steal_or_throw(PyTuple_New(n))) {}
  tuple(handle h, borrowed_t t) : object(h, t) {}
  tuple(handle h, stolen_t t) : object(h, t) {}
  tuple(const object& o)
      : object(PyTuple_Check(o.ptr()) ? object(o)
                                      : steal_or_throw(PySequence_Tuple(o.ptr()))) {
  }
  static bool check_(handle h) { return PyTuple_Check(h.ptr()); }
  size_t size() const { return PyTuple_GET_SIZE(m_ptr); }
  object operator[](size_t i) const {
    PyObject* p = PyTuple_GetItem(m_ptr, (Py_ssize_t)i);
    if (!p) {
      throw error_already_set();
    }
    return object(handle(p), borrowed_t{});
  }
};

class list : public object {
 public:
  list() : object(steal_or_throw(PyList_New(0))) {}
  list(handle h, borrowed_t t) : object(h, t) {}
  list(handle h, stolen_t t) : object(h, t) {}
  list(const object& o)
      : object(PyList_Check(o.ptr()) ? object(o)
                                     : steal_or_throw(PySequence_List(o.ptr()))) {}
  static bool check_(handle h) { return PyList_Check(h.ptr()); }
  size_t size() const { return PyList_GET_SIZE(m_ptr); }
  item_accessor operator[](size_t i) const {
    return item_accessor(*this, steal_or_throw(PyLong_FromSize_t(i)));
  }
  template <typename T>
  void append(T&& v) const;
};

class dict : public object {
 public:
  dict() : object(steal_or_throw(PyDict_New())) {}
  dict(handle h, borrowed_t t) : object(h, t) {}
  dict(handle h, stolen_t t) : object(h, t) {}
  dict(const object& o)
      : object(PyDict_Check(o.ptr())
                   ? object(o)
                   : steal_or_throw(PyObject_CallFunctionObjArgs(
                         (PyObject*)&PyDict_Type, o.ptr(), nullptr))) {}
  static bool check_(handle h) { return PyDict_Check(h.ptr()); }
  size_t size() const { return PyDict_Size(m_ptr); }
  item_accessor operator[](const char* key) const {
    return item_accessor(*this, str(key));
  }
  item_accessor operator[](const std::string& key) const {
    return item_accessor(*this, str(key));
  }
  bool contains(const char* key) const {
    return PyDict_Contains(m_ptr, str(key).ptr()) == 1;
  }
  bool contains(const std::string& key) const {
    return contains(key.c_str());
  }
};

class iterator : public object {
 public:
  iterator() = default;
  iterator(handle h, borrowed_t t) : object(h, t) {}
  iterator(handle h, stolen_t t) : object(h, t) {}
  iterator(const object& o) : object(o) {}
  iterator(object&& o) : object(std::move(o)) {}
  static bool check_(handle h) { return PyIter_Check(h.ptr()); }
};

inline item_accessor item_accessor::operator[](const char* key) const {
  return item_accessor(get(), str(key));
}
inline item_accessor item_accessor::operator[](size_t i) const {
  return item_accessor(get(), steal_or_throw(PyLong_FromSize_t(i)));
}

inline size_t len(handle h) {
  Py_ssize_t n = PyObject_Length(h.ptr());
  if (n < 0) {
    throw error_already_set();
  }
  return (size_t)n;
}

class module_ : public object {
 public:
  module_() = default;
  module_(handle h, borrowed_t t) : object(h, t) {}
  static module_ import(const char* name) {
    object o = steal_or_throw(PyImport_ImportModule(name));
    return module_(o, borrowed_t{});
  }
  template <typename Func, typename... Extra>
  module_& def(const char* name, Func&& f, const Extra&... extra);
};
using module = module_;

// ---------------------------------------------------------------------- GIL
class gil_scoped_release {
 public:
  gil_scoped_release() : s_(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s_); }
  gil_scoped_release(const gil_scoped_release&) = delete;

 private:
  PyThreadState* s_;
};
class gil_scoped_acquire {
 public:
  gil_scoped_acquire() : s_(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s_); }
  gil_scoped_acquire(const gil_scoped_acquire&) = delete;

 private:
  PyGILState_STATE s_;
};

// ------------------------------------------------------------------- extras
template <int Nurse, int Patient>
struct keep_alive {};
template <typename... Ts>
struct call_guard {};
struct module_local {
  module_local(bool = true) {}
};
struct arg_v;
struct arg {
  explicit arg(const char* n) : name(n) {}
  template <typename T>
  arg_v operator=(T&& value) const;
  const char* name;
};
struct arg_v {
  const char* name;
  object value;
};

template <typename... Args>
struct init {};
template <typename Get, typename Set>
struct pickle_factory {
  Get get;
  Set set;
};
template <typename Get, typename Set>
pickle_factory<Get, Set> pickle(Get g, Set s) {
  return {g, s};
}

namespace detail {
template <typename... Args>
struct overload_cast_impl {
  template <typename Return>
  constexpr auto operator()(Return (*pf)(Args...)) const noexcept
      -> decltype(pf) {
    return pf;
  }
  template <typename Return, typename Class>
  constexpr auto operator()(Return (Class::*pmf)(Args...),
                            std::false_type = {}) const noexcept
      -> decltype(pmf) {
    return pmf;
  }
  template <typename Return, typename Class>
  constexpr auto operator()(Return (Class::*pmf)(Args...) const,
                            std::true_type) const noexcept -> decltype(pmf) {
    return pmf;
  }
};
}  // namespace detail
template <typename... Args>
static constexpr detail::overload_cast_impl<Args...> overload_cast = {};
static constexpr auto const_ = std::true_type{};

namespace detail {

// --------------------------------------------------------------- type registry
struct type_record {
  std::string cpp_name;  // typeid(T).name()
  PyTypeObject* type = nullptr;
  void (*destroy)(void*) = nullptr;
  long (*enum_get)(const void*) = nullptr;
  PyObject* enum_entries = nullptr;
};

struct instance {
  PyObject_HEAD
  void* value;
  const type_record* rec;
  bool owned;
  std::vector<PyObject*>* patients;
  PyObject* weakrefs;
};

type_record* find_type(const std::type_info& ti);
type_record* make_type(PyObject* scope, const char* name,
                       const std::type_info& ti);
type_record* get_type_info(const std::type_info& ti, bool throw_if_missing);

void register_instance(instance* self);
PyObject* find_instance(const void* p, const type_record* rec);
PyObject* wrap_instance(void* p, const type_record* rec, bool owned);
// How to copy and move a type; instantiated only where a value is cast.
struct value_ops {
  void* (*copy)(const void*) = nullptr;
  void* (*move)(void*) = nullptr;
};
template <typename T>
value_ops ops_of() {
  value_ops o;
  if constexpr (std::is_copy_constructible_v<T>) {
    o.copy = [](const void* p) -> void* { return new T(*(const T*)p); };
  }
  if constexpr (std::is_move_constructible_v<T>) {
    o.move = [](void* p) -> void* { return new T(std::move(*(T*)p)); };
  }
  return o;
}
// Casts a pointer with a policy (null -> None).
PyObject* cast_pointer(const void* p, const std::type_info& ti,
                       return_value_policy policy, handle parent,
                       value_ops ops);
// Steals ownership of a heap object.
PyObject* cast_owned(void* p, const std::type_info& ti);
// The C++ pointer in a python object; false if of another type.
bool load_pointer(handle src, const std::type_info& ti, void** out);
void keep_alive_impl(PyObject* nurse, PyObject* patient);

// -------------------------------------------------------------- type_caster
template <typename T>
using intrinsic_t =
    std::remove_cv_t<std::remove_pointer_t<std::remove_reference_t<T>>>;

template <typename T, typename SFINAE = void>
struct type_caster;
template <typename T>
using make_caster = type_caster<intrinsic_t<T>>;

template <typename T>
struct is_pyobject : std::is_base_of<handle, std::remove_reference_t<T>> {};
// specialised for wrappers with a caster of their own
template <typename T>
struct has_own_caster : std::false_type {};

// How a caster delivers an argument of type T
template <typename T, typename Caster>
decltype(auto) deliver(Caster& c) {
  return c.template get<T>();
}

template <typename T>
return_value_policy override_policy(return_value_policy p) {
  // by-value results are moved
  return (!std::is_lvalue_reference<T>::value && !std::is_pointer<T>::value)
             ? return_value_policy::move
             : p;
}

// value casters: hold a `value` member
template <typename T>
struct value_base {
  T value;
  template <typename U>
  decltype(auto) get() {
    if constexpr (std::is_pointer_v<U>) {
      return (U)&value;
    } else if constexpr (std::is_lvalue_reference_v<U>) {
      return (T&)value;
    } else {
      return T(std::move(value));
    }
  }
};

// registered classes and enums
template <typename T, typename SFINAE>
struct type_caster {
  static_assert(std::is_class_v<T> || std::is_enum_v<T>,
                "no python conversion for this type");
  void* ptr = nullptr;
  bool load(handle src, bool convert) {
    if (src.is_none()) {
      if (!convert) {
        return false;
      }
      ptr = nullptr;
      return true;
    }
    return load_pointer(src, typeid(T), &ptr);
  }
  template <typename U>
  decltype(auto) get() {
    if constexpr (std::is_pointer_v<U>) {
      return (T*)ptr;
    } else {
      if (!ptr) {
        throw reference_cast_error();
      }
      return *(T*)ptr;
    }
  }
  static PyObject* cast(const T& src, return_value_policy policy,
                        handle parent) {
    if (policy == return_value_policy::automatic ||
        policy == return_value_policy::automatic_reference) {
      policy = return_value_policy::copy;
    }
    return cast_pointer(&src, typeid(T), policy, parent, ops_of<T>());
  }
  static PyObject* cast(T&& src, return_value_policy, handle parent) {
    return cast_pointer(&src, typeid(T), return_value_policy::move, parent,
                        ops_of<T>());
  }
  static PyObject* cast(const T* src, return_value_policy policy,
                        handle parent) {
    if (policy == return_value_policy::automatic) {
      policy = return_value_policy::take_ownership;
    } else if (policy == return_value_policy::automatic_reference) {
      policy = return_value_policy::reference;
    }
    return cast_pointer(src, typeid(T), policy, parent, ops_of<T>());
  }
};

// unique_ptr results
template <typename T>
struct type_caster<std::unique_ptr<T>> {
  static PyObject* cast(std::unique_ptr<T>&& src, return_value_policy, handle) {
    return cast_owned(src.release(), typeid(T));
  }
};

// python object wrappers
template <typename T>
struct type_caster<
    T, std::enable_if_t<is_pyobject<T>::value && !has_own_caster<T>::value>>
    : value_base<T> {
  bool load(handle src, bool) {
    if constexpr (std::is_same_v<T, object> || std::is_same_v<T, handle>) {
    } else if (!T::check_(src)) {
      return false;
    }
    if constexpr (std::is_same_v<T, handle>) {
      this->value = src;
    } else {
      this->value = reinterpret_borrow<T>(src);
    }
    return true;
  }
  static PyObject* cast(const handle& src, return_value_policy, handle) {
    src.inc_ref();
    return src.ptr();
  }
};
template <>
struct type_caster<item_accessor> {
  static PyObject* cast(const item_accessor& src, return_value_policy, handle) {
    return src.get().release().ptr();
  }
};

// numbers
bool load_integer(handle src, bool convert, long long* out);
bool load_unsigned(handle src, bool convert, unsigned long long* out);
bool load_double(handle src, bool convert, double* out);
bool load_bool(handle src, bool convert, bool* out);
bool load_string(handle src, std::string* out);

template <typename T>
struct type_caster<T, std::enable_if_t<std::is_arithmetic_v<T>>>
    : value_base<T> {
  bool load(handle src, bool convert) {
    if (!src) {
      return false;
    }
    if constexpr (std::is_same_v<T, bool>) {
      return load_bool(src, convert, &this->value);
    } else if constexpr (std::is_floating_point_v<T>) {
      double d;
      if (!load_double(src, convert, &d)) {
        return false;
      }
      this->value = (T)d;
      return true;
    } else if constexpr (std::is_unsigned_v<T>) {
      unsigned long long v;
      if (!load_unsigned(src, convert, &v) ||
          (unsigned long long)(T)v != v) {
        return false;
      }
      this->value = (T)v;
      return true;
    } else {
      long long v;
      if (!load_integer(src, convert, &v) || (long long)(T)v != v) {
        return false;
      }
      this->value = (T)v;
      return true;
    }
  }
  static PyObject* cast(T v, return_value_policy, handle) {
    if constexpr (std::is_same_v<T, bool>) {
      return PyBool_FromLong(v);
    } else if constexpr (std::is_floating_point_v<T>) {
      return PyFloat_FromDouble((double)v);
    } else if constexpr (std::is_unsigned_v<T>) {
      return PyLong_FromUnsignedLongLong(v);
    } else {
      return PyLong_FromLongLong(v);
    }
  }
};

template <>
struct type_caster<std::string> : value_base<std::string> {
  bool load(handle src, bool) { return load_string(src, &value); }
  static PyObject* cast(const std::string& s, return_value_policy, handle) {
    PyObject* o = PyUnicode_DecodeUTF8(s.data(), (Py_ssize_t)s.size(), nullptr);
    if (!o) {
      throw error_already_set();
    }
    return o;
  }
};
template <>
struct type_caster<char> {
  static PyObject* cast(const char* s, return_value_policy, handle) {
    return PyUnicode_FromString(s);
  }
};
template <>
struct type_caster<std::nullopt_t> {
  static PyObject* cast(std::nullopt_t, return_value_policy, handle) {
    Py_RETURN_NONE;
  }
};

// casters return a PyObject* or, in user specialisations, a handle
inline PyObject* as_ptr(PyObject* p) { return p; }
inline PyObject* as_ptr(handle h) { return h.ptr(); }

template <typename T>
PyObject* cast_any(T&& v, return_value_policy policy, handle parent) {
  return as_ptr(make_caster<T>::cast(std::forward<T>(v), policy, parent));
}

}  // namespace detail

// --------------------------------------------------------------------- cast()
template <typename T>
T handle::cast() const {
  if constexpr (std::is_same_v<T, object>) {
    return reinterpret_borrow<object>(*this);
  } else {
    detail::make_caster<T> c;
    if (!c.load(*this, true)) {
      throw cast_error(
          std::string("Unable to cast Python instance of type ") +
          Py_TYPE(m_ptr)->tp_name + " to C++ type");
    }
    return c.template get<T>();
  }
}

template <typename T>
object cast(T&& v,
            return_value_policy policy = return_value_policy::automatic_reference,
            handle parent = handle()) {
  if (policy == return_value_policy::automatic_reference) {
    policy = std::is_pointer_v<std::remove_reference_t<T>>
                 ? return_value_policy::reference
             : std::is_lvalue_reference_v<T> ? return_value_policy::copy
                                             : return_value_policy::move;
  }
  return steal_or_throw(detail::cast_any(std::forward<T>(v), policy, parent));
}

template <typename T>
void item_accessor::operator=(T&& value) {
  object v = pybind11::cast(std::forward<T>(value));
  if (PyObject_SetItem(obj_.ptr(), key_.ptr(), v.ptr()) != 0) {
    throw error_already_set();
  }
}
template <typename T>
void list::append(T&& v) const {
  object o = pybind11::cast(std::forward<T>(v));
  if (PyList_Append(m_ptr, o.ptr()) != 0) {
    throw error_already_set();
  }
}
template <typename T>
arg_v arg::operator=(T&& value) const {
  return {name, pybind11::cast(std::forward<T>(value),
                               return_value_policy::automatic)};
}

template <return_value_policy policy = return_value_policy::automatic_reference,
          typename... Args>
tuple make_tuple(Args&&... args) {
  object objs[] = {pybind11::cast(std::forward<Args>(args), policy)...};
  tuple t(sizeof...(Args));
  for (size_t i = 0; i < sizeof...(Args); ++i) {
    PyTuple_SET_ITEM(t.ptr(), (Py_ssize_t)i, objs[i].release().ptr());
  }
  return t;
}

// ---------------------------------------------------------------- functions
namespace detail {

struct function_call {
  PyObject* const* args;  // borrowed
  bool convert;
  return_value_policy policy;
  PyObject* parent;  // first argument
};

struct arg_info {
  std::string name;
  PyObject* value = nullptr;  // default, owned
};

struct function_record {
  std::string name;
  // returns nullptr with *try_next=true to go on with the next overload
  PyObject* (*impl)(function_record&, function_call&, bool* try_next) = nullptr;
  void (*free_data)(function_record&) = nullptr;
  void* data[4] = {};  // the functor, in place or on the heap
  size_t nargs = 0;
  bool is_method = false;
  bool is_constructor = false;
  return_value_policy policy = return_value_policy::automatic;
  std::vector<arg_info> args;
  std::vector<std::pair<int, int>> keep_alives;
  function_record* next = nullptr;
};

// Wraps a record into a python callable; chains to `sibling` if it is ours.
PyObject* make_function(function_record* rec, PyObject* sibling);
void add_to_class(PyObject* cls, const char* name, PyObject* callable,
                  bool is_static);
void add_property(PyObject* cls, const char* name, PyObject* getter,
                  PyObject* setter);
void set_attr(PyObject* scope, const char* name, PyObject* value);
PyObject* get_own_attr(PyObject* scope, const char* name);  // borrowed or null

template <typename... Ts>
struct guard_of {
  struct none_guard {};
  using type = none_guard;
};
template <typename G, typename... Ts>
struct guard_of<call_guard<G>, Ts...> {
  using type = G;
};
template <typename T, typename... Ts>
struct guard_of<T, Ts...> : guard_of<Ts...> {};

struct apply_extra {
  function_record* r;
  void operator()(const return_value_policy& p) { r->policy = p; }
  void operator()(const arg& a) { add({a.name, nullptr}); }
  void operator()(const arg_v& a) { add({a.name, a.value.inc_ref().ptr()}); }
  template <int N, int P>
  void operator()(const keep_alive<N, P>&) {
    r->keep_alives.emplace_back(N, P);
  }
  template <typename... Ts>
  void operator()(const call_guard<Ts...>&) {}
  void operator()(const module_local&) {}
  void operator()(const char*) {}
  void add(arg_info a) {
    if (r->is_method && r->args.empty()) {
      r->args.push_back({"self", nullptr});
    }
    r->args.push_back(std::move(a));
  }
};

template <typename F>
struct remove_class {};
template <typename C, typename R, typename... A>
struct remove_class<R (C::*)(A...)> {
  using type = R(A...);
};
template <typename C, typename R, typename... A>
struct remove_class<R (C::*)(A...) const> {
  using type = R(A...);
};

template <typename Guard, typename F, typename Return, typename... Args,
          size_t... Is>
PyObject* call_impl(F& f, function_call& call, bool* try_next,
                    std::index_sequence<Is...>) {
  std::tuple<make_caster<Args>...> casters;
  (void)casters;
  bool ok = true;
  ((ok = ok &&
         std::get<Is>(casters).load(handle(call.args[Is]), call.convert)),
   ...);
  if (!ok) {
    *try_next = true;
    return nullptr;
  }
  try {
    if constexpr (std::is_void_v<Return>) {
      {
        Guard g;
        (void)g;
        f(std::get<Is>(casters).template get<Args>()...);
      }
      Py_RETURN_NONE;
    } else {
      const return_value_policy policy = override_policy<Return>(call.policy);
      auto invoke = [&]() -> Return {
        Guard g;
        (void)g;
        return f(std::get<Is>(casters).template get<Args>()...);
      };
      return as_ptr(
          make_caster<Return>::cast(invoke(), policy, handle(call.parent)));
    }
  } catch (reference_cast_error&) {
    *try_next = true;
    return nullptr;
  }
}

template <typename Return, typename... Args, typename F, typename... Extra>
function_record* build_record(F&& fn, const char* name, bool is_method,
                              const Extra&... extra) {
  using Fn = std::decay_t<F>;
  auto* rec = new function_record();
  rec->name = name;
  rec->nargs = sizeof...(Args);
  rec->is_method = is_method;
  constexpr bool inplace =
      sizeof(Fn) <= sizeof(rec->data) && std::is_trivially_copyable_v<Fn>;
  if constexpr (inplace) {
    new (&rec->data) Fn(std::forward<F>(fn));
  } else {
    rec->data[0] = new Fn(std::forward<F>(fn));
  }
  rec->impl = [](function_record& r, function_call& call,
                 bool* try_next) -> PyObject* {
    Fn& f = inplace ? *(Fn*)(void*)&r.data : *(Fn*)r.data[0];
    using Guard = typename guard_of<Extra...>::type;
    return call_impl<Guard, Fn, Return, Args...>(
        f, call, try_next, std::index_sequence_for<Args...>{});
  };
  apply_extra ap{rec};
  (void)ap;
  (ap(extra), ...);
  return rec;
}

// Free functions, member functions and functors
template <typename R, typename... A, typename... Extra>
function_record* record_of(R (*f)(A...), const char* name, bool is_method,
                           const Extra&... extra) {
  return build_record<R, A...>(f, name, is_method, extra...);
}
template <typename R, typename C, typename... A, typename... Extra>
function_record* record_of(R (C::*f)(A...), const char* name, bool is_method,
                           const Extra&... extra) {
  return build_record<R, C*, A...>(
      [f](C* c, A... args) -> R { return (c->*f)(std::forward<A>(args)...); },
      name, is_method, extra...);
}
template <typename R, typename C, typename... A, typename... Extra>
function_record* record_of(R (C::*f)(A...) const, const char* name,
                           bool is_method, const Extra&... extra) {
  return build_record<R, const C*, A...>(
      [f](const C* c, A... args) -> R {
        return (c->*f)(std::forward<A>(args)...);
      },
      name, is_method, extra...);
}
template <typename F, typename R, typename... A, typename... Extra>
function_record* record_of_functor(F&& f, R (*)(A...), const char* name,
                                   bool is_method, const Extra&... extra) {
  return build_record<R, A...>(std::forward<F>(f), name, is_method, extra...);
}
template <typename F, typename... Extra,
          typename = std::enable_if_t<std::is_class_v<std::decay_t<F>>>>
function_record* record_of(F&& f, const char* name, bool is_method,
                           const Extra&... extra) {
  using Sig = typename remove_class<
      decltype(&std::decay_t<F>::operator())>::type;
  return record_of_functor(std::forward<F>(f), (Sig*)nullptr, name, is_method,
                           extra...);
}

// The `self` of a constructor, whose value is not built yet
struct value_and_holder {
  instance* inst = nullptr;
};
void set_constructed(instance* self, void* value);
template <>
struct type_caster<value_and_holder> {
  value_and_holder v;
  bool load(handle src, bool) {
    v.inst = (instance*)src.ptr();
    return true;
  }
  template <typename U>
  value_and_holder& get() {
    return v;
  }
};

template <typename T>
void fill_class(type_record* rec) {
  rec->destroy = [](void* p) { delete (T*)p; };
}
}  // namespace detail

template <typename Func, typename... Extra>
module_& module_::def(const char* name, Func&& f, const Extra&... extra) {
  auto* rec = detail::record_of(std::forward<Func>(f), name, false, extra...);
  object fn = steal_or_throw(
      detail::make_function(rec, detail::get_own_attr(m_ptr, name)));
  detail::set_attr(m_ptr, name, fn.ptr());
  return *this;
}

template <typename T, typename... Options>
class class_ : public object {
 public:
  template <typename... Extra>
  class_(handle scope, const char* name, const Extra&...) {
    detail::type_record* rec = detail::make_type(scope.ptr(), name, typeid(T));
    detail::fill_class<T>(rec);
    m_ptr = (PyObject*)rec->type;
    inc_ref();
  }

  template <typename Func, typename... Extra,
            typename = std::enable_if_t<
                !std::is_base_of_v<class_, std::decay_t<Func>>>>
  class_& def(const char* name, Func&& f, const Extra&... extra) {
    auto* rec = detail::record_of(std::forward<Func>(f), name, true, extra...);
    add_method(name, rec);
    return *this;
  }
  template <typename... Args, typename... Extra>
  class_& def(const init<Args...>&, const Extra&... extra) {
    auto ctor = [](detail::value_and_holder& v, Args... args) {
      T* p;
      if constexpr (std::is_constructible_v<T, Args...>) {
        p = new T(std::forward<Args>(args)...);
      } else {
        p = new T{std::forward<Args>(args)...};
      }
      detail::set_constructed(v.inst, p);
    };
    auto* rec =
        detail::build_record<void, detail::value_and_holder&, Args...>(
            ctor, "__init__", true, extra...);
    rec->is_constructor = true;
    add_method("__init__", rec);
    return *this;
  }
  template <typename Get, typename Set, typename... Extra>
  class_& def(pickle_factory<Get, Set>&& pf, const Extra&...) {
    def("__getstate__", pf.get);
    using Sig = typename detail::remove_class<decltype(&Set::operator())>::type;
    def_setstate(pf.set, (Sig*)nullptr);
    return *this;
  }
  template <typename Func, typename... Extra>
  class_& def_static(const char* name, Func&& f, const Extra&... extra) {
    auto* rec = detail::record_of(std::forward<Func>(f), name, false, extra...);
    object fn = steal_or_throw(
        detail::make_function(rec, detail::get_own_attr(m_ptr, name)));
    detail::add_to_class(m_ptr, name, fn.ptr(), true);
    return *this;
  }

  template <typename Getter, typename... Extra>
  class_& def_property_readonly(const char* name, Getter&& g,
                                const Extra&... extra) {
    object get = getter(name, std::forward<Getter>(g), extra...);
    detail::add_property(m_ptr, name, get.ptr(), nullptr);
    return *this;
  }
  template <typename Getter, typename Setter, typename... Extra>
  class_& def_property(const char* name, Getter&& g, Setter&& s,
                       const Extra&... extra) {
    object get = getter(name, std::forward<Getter>(g), extra...);
    object set = steal_or_throw(detail::make_function(
        detail::record_of(std::forward<Setter>(s), name, true), nullptr));
    detail::add_property(m_ptr, name, get.ptr(), set.ptr());
    return *this;
  }
  template <typename C, typename D>
  class_& def_readwrite(const char* name, D C::*pm) {
    object get = getter(name, [pm](const T& c) -> const D& { return c.*pm; });
    object set = steal_or_throw(detail::make_function(
        detail::record_of([pm](T& c, const D& v) { c.*pm = v; }, name, true),
        nullptr));
    detail::add_property(m_ptr, name, get.ptr(), set.ptr());
    return *this;
  }
  template <typename C, typename D>
  class_& def_readonly(const char* name, D C::*pm) {
    object get = getter(name, [pm](const T& c) -> const D& { return c.*pm; });
    detail::add_property(m_ptr, name, get.ptr(), nullptr);
    return *this;
  }
  template <typename D>
  class_& def_readonly_static(const char* name, const D* p) {
    object v = pybind11::cast(*p);
    detail::set_attr(m_ptr, name, v.ptr());
    return *this;
  }

 private:
  template <typename Getter, typename... Extra>
  object getter(const char* name, Getter&& g, const Extra&... extra) {
    auto* rec = detail::record_of(std::forward<Getter>(g), name, true,
                                  return_value_policy::reference_internal,
                                  extra...);
    return steal_or_throw(detail::make_function(rec, nullptr));
  }
  void add_method(const char* name, detail::function_record* rec) {
    object fn = steal_or_throw(
        detail::make_function(rec, detail::get_own_attr(m_ptr, name)));
    detail::add_to_class(m_ptr, name, fn.ptr(), false);
  }
  template <typename F, typename R, typename A>
  void def_setstate(F f, R (*)(A)) {
    auto ctor = [f](detail::value_and_holder& v, A state) {
      detail::set_constructed(v.inst, new T(f(std::forward<A>(state))));
    };
    auto* rec = detail::build_record<void, detail::value_and_holder&, A>(
        ctor, "__setstate__", true);
    rec->is_constructor = true;
    add_method("__setstate__", rec);
  }
};

namespace detail {
void finish_enum(type_record* rec);
void enum_value(type_record* rec, const char* name, PyObject* value);
void enum_export(type_record* rec, PyObject* scope);
}  // namespace detail

template <typename T>
class enum_ : public object {
 public:
  enum_(handle scope, const char* name) : scope_(scope) {
    rec_ = detail::make_type(scope.ptr(), name, typeid(T));
    detail::fill_class<T>(rec_);
    rec_->enum_get = [](const void* p) -> long { return (long)*(const T*)p; };
    m_ptr = (PyObject*)rec_->type;
    inc_ref();
    auto ctor = [](detail::value_and_holder& v, long i) {
      detail::set_constructed(v.inst, new T((T)i));
    };
    auto* r = detail::build_record<void, detail::value_and_holder&, long>(
        ctor, "__init__", true);
    r->is_constructor = true;
    object fn = steal_or_throw(detail::make_function(r, nullptr));
    detail::add_to_class(m_ptr, "__init__", fn.ptr(), false);
    auto* s = detail::build_record<void, detail::value_and_holder&, long>(
        ctor, "__setstate__", true);
    s->is_constructor = true;
    object sn = steal_or_throw(detail::make_function(s, nullptr));
    detail::add_to_class(m_ptr, "__setstate__", sn.ptr(), false);
    detail::finish_enum(rec_);
  }
  enum_& value(const char* name, T v) {
    object o = pybind11::cast(v, return_value_policy::copy);
    detail::enum_value(rec_, name, o.ptr());
    return *this;
  }
  enum_& export_values() {
    detail::enum_export(rec_, scope_.ptr());
    return *this;
  }

 private:
  handle scope_;
  detail::type_record* rec_;
};

// ---------------------------------------------------------------- iterators
namespace detail {
template <typename It, typename Sent, bool Key, return_value_policy P>
struct iterator_state {
  It it;
  Sent end;
  bool first_or_done;
};
template <bool Key, return_value_policy Policy, typename It, typename Sent,
          typename Value, typename Access>
iterator make_iterator_impl(It first, Sent last, const char* name, Access) {
  using state = iterator_state<It, Sent, Key, Policy>;
  if (!get_type_info(typeid(state), false)) {
    class_<state>(handle(), name, module_local())
        .def("__iter__", [](state& s) -> state& { return s; })
        .def(
            "__next__",
            [](state& s) -> Value {
              if (!s.first_or_done) {
                ++s.it;
              } else {
                s.first_or_done = false;
              }
              if (s.it == s.end) {
                s.first_or_done = true;
                throw stop_iteration();
              }
              return Access::get(s.it);
            },
            Policy);
  }
  return cast(state{first, last, true});
}
struct access_value {
  template <typename It>
  static decltype(auto) get(It& it) {
    return *it;
  }
};
struct access_key {
  template <typename It>
  static auto& get(It& it) {
    return (*it).first;
  }
};
}  // namespace detail

template <return_value_policy Policy = return_value_policy::reference_internal,
          typename It, typename Sent>
iterator make_iterator(It first, Sent last) {
  using Value = decltype(*std::declval<It&>());
  return detail::make_iterator_impl<false, Policy, It, Sent, Value>(
      first, last, "iterator", detail::access_value{});
}
template <return_value_policy Policy = return_value_policy::reference_internal,
          typename It, typename Sent>
iterator make_key_iterator(It first, Sent last) {
  using Value = decltype(((*std::declval<It&>()).first)) &;
  return detail::make_iterator_impl<true, Policy, It, Sent, Value>(
      first, last, "key_iterator", detail::access_key{});
}

namespace detail {
PyObject* create_module(PyModuleDef* def, const char* name);
// Runs a module body, turning C++ exceptions into python errors.
PyObject* run_module_init(PyObject* m, void (*body)(module_&));
}  // namespace detail

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                     \
  static PyModuleDef mpb_module_def_##name;                                 \
  static void mpb_init_##name(::pybind11::module_&);                        \
  extern "C" __attribute__((visibility("default"))) PyObject*               \
      PyInit_##name() {                                                     \
    PyObject* m =                                                           \
        ::pybind11::detail::create_module(&mpb_module_def_##name, #name);   \
    return ::pybind11::detail::run_module_init(m, &mpb_init_##name);        \
  }                                                                         \
  void mpb_init_##name(::pybind11::module_& variable)

// ------------------------------------------------- pairs and tuples (in core)
namespace pybind11 {
namespace detail {
template <template <typename...> class Tuple, typename... Ts>
struct tuple_caster {
  using type = Tuple<Ts...>;
  std::tuple<make_caster<Ts>...> sub;
  bool load(handle src, bool convert) {
    if (!PySequence_Check(src.ptr()) ||
        PySequence_Size(src.ptr()) != (Py_ssize_t)sizeof...(Ts)) {
      PyErr_Clear();
      return false;
    }
    return load_impl(src, convert, std::index_sequence_for<Ts...>{});
  }
  template <size_t... Is>
  bool load_impl(handle src, bool convert, std::index_sequence<Is...>) {
    bool ok = true;
    // items are kept alive: they may be temporaries of a sequence
    ((items_[Is] = steal_or_throw(PySequence_GetItem(src.ptr(), Is)),
      ok = ok && std::get<Is>(sub).load(items_[Is], convert)),
     ...);
    return ok;
  }
  template <typename U>
  type get() {
    return build(std::index_sequence_for<Ts...>{});
  }
  template <size_t... Is>
  type build(std::index_sequence<Is...>) {
    return type(std::get<Is>(sub).template get<Ts>()...);
  }
  template <typename S>
  static PyObject* cast(S&& src, return_value_policy policy, handle parent) {
    return cast_tuple(std::forward<S>(src), policy, parent,
                      std::index_sequence_for<Ts...>{});
  }
  template <typename S, size_t... Is>
  static PyObject* cast_tuple(S&& src, return_value_policy policy,
                              handle parent, std::index_sequence<Is...>) {
    object objs[] = {steal_or_throw(as_ptr(make_caster<Ts>::cast(
        std::get<Is>(std::forward<S>(src)), policy, parent)))...};
    PyObject* t = PyTuple_New(sizeof...(Ts));
    size_t i = 0;
    for (auto& o : objs) {
      PyTuple_SET_ITEM(t, (Py_ssize_t)i++, o.release().ptr());
    }
    return t;
  }
  object items_[sizeof...(Ts)];
};
template <typename A, typename B>
struct type_caster<std::pair<A, B>> : tuple_caster<std::pair, A, B> {};
template <typename... Ts>
struct type_caster<std::tuple<Ts...>> : tuple_caster<std::tuple, Ts...> {};
}  // namespace detail
}  // namespace pybind11
