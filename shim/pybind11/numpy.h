#pragma once
#include "pybind11.h"

namespace pybind11 {

namespace detail {
// numpy type numbers, without its headers
enum npy_types {
  NPY_BOOL_ = 0,
  NPY_BYTE_ = 1,
  NPY_UBYTE_ = 2,
  NPY_SHORT_ = 3,
  NPY_USHORT_ = 4,
  NPY_INT_ = 5,
  NPY_UINT_ = 6,
  NPY_LONG_ = 7,
  NPY_ULONG_ = 8,
  NPY_LONGLONG_ = 9,
  NPY_ULONGLONG_ = 10,
  NPY_FLOAT_ = 11,
  NPY_DOUBLE_ = 12
};
template <typename T>
constexpr int npy_type() {
  if constexpr (std::is_same_v<T, bool>) return NPY_BOOL_;
  else if constexpr (std::is_same_v<T, signed char>) return NPY_BYTE_;
  else if constexpr (std::is_same_v<T, unsigned char>) return NPY_UBYTE_;
  else if constexpr (std::is_same_v<T, short>) return NPY_SHORT_;
  else if constexpr (std::is_same_v<T, unsigned short>) return NPY_USHORT_;
  else if constexpr (std::is_same_v<T, int>) return NPY_INT_;
  else if constexpr (std::is_same_v<T, unsigned>) return NPY_UINT_;
  else if constexpr (std::is_same_v<T, long>) return NPY_LONG_;
  else if constexpr (std::is_same_v<T, unsigned long>) return NPY_ULONG_;
  else if constexpr (std::is_same_v<T, float>) return NPY_FLOAT_;
  else {
    static_assert(std::is_same_v<T, double>, "unsupported array type");
    return NPY_DOUBLE_;
  }
}
bool array_check(PyObject* o, int type);            // dtype equivalent
bool array_check_c(PyObject* o, int type);          // and C-contiguous
PyObject* array_ensure(PyObject* o, int type, bool c_style, bool forcecast);
PyObject* array_any(PyObject* o);                   // any array, or nullptr
PyObject* array_new(int type, int nd, const ptrdiff_t* shape);
// view on data owned by base (may be null: then the data is copied)
PyObject* array_view(int type, int nd, const ptrdiff_t* shape,
                     const ptrdiff_t* strides, void* data, PyObject* base,
                     bool writeable);
int array_ndim(PyObject* a);
ptrdiff_t array_shape(PyObject* a, int i);
void* array_data(PyObject* a);
bool array_writeable(PyObject* a);
// copies `src` (any dtype and layout) to the given memory, shapes squeezed
bool array_copy_into(PyObject* src, int type, int nd, const ptrdiff_t* shape,
                     const ptrdiff_t* strides, void* data);
}  // namespace detail

class array : public object {
 public:
  enum { c_style = 1, f_style = 2, forcecast = 16 };
  array() = default;
  array(handle h, borrowed_t t) : object(h, t) {}
  array(handle h, stolen_t t) : object(h, t) {}
  int ndim() const { return detail::array_ndim(m_ptr); }
  ptrdiff_t shape(int i) const {
    if (i >= ndim()) {
      throw std::out_of_range("invalid axis: " + std::to_string(i) +
                              " (ndim = " + std::to_string(ndim()) + ")");
    }
    return detail::array_shape(m_ptr, i);
  }
  ptrdiff_t size() const {
    ptrdiff_t n = 1;
    for (int i = 0; i < ndim(); ++i) n *= detail::array_shape(m_ptr, i);
    return n;
  }
};

template <typename T, int Flags = array::forcecast>
class array_t : public array {
 public:
  array_t() : array_t(size_t(0)) {}
  array_t(handle h, borrowed_t t) : array(h, t) {}
  array_t(handle h, stolen_t t) : array(h, t) {}
  array_t(const object& o)
      : array(handle(detail::array_ensure(o.ptr(), detail::npy_type<T>(),
                                          Flags & array::c_style, true)),
              stolen_t{}) {
    if (!m_ptr) {
      throw error_already_set();
    }
  }
  explicit array_t(size_t n) {
    ptrdiff_t s[] = {(ptrdiff_t)n};
    m_ptr = detail::array_new(detail::npy_type<T>(), 1, s);
  }
  array_t(std::initializer_list<size_t> shape) {
    std::vector<ptrdiff_t> s(shape.begin(), shape.end());
    m_ptr = detail::array_new(detail::npy_type<T>(), (int)s.size(), s.data());
  }
  const T* data() const { return (const T*)detail::array_data(m_ptr); }
  T* mutable_data() {
    if (!detail::array_writeable(m_ptr)) {
      throw std::domain_error("array is not writeable");
    }
    return (T*)detail::array_data(m_ptr);
  }
  static bool check_(handle h) {
    return (Flags & array::c_style)
               ? detail::array_check_c(h.ptr(), detail::npy_type<T>())
               : detail::array_check(h.ptr(), detail::npy_type<T>());
  }
};

namespace detail {
template <typename T, int Flags>
struct has_own_caster<array_t<T, Flags>> : std::true_type {};
template <typename T, int Flags>
struct type_caster<array_t<T, Flags>> {
  using type = array_t<T, Flags>;
  object value;
  bool load(handle src, bool convert) {
    if (!convert && !type::check_(src)) {
      return false;
    }
    PyObject* p = array_ensure(src.ptr(), npy_type<T>(),
                               Flags & array::c_style, Flags & array::forcecast);
    if (!p) {
      PyErr_Clear();
      return false;
    }
    value = object(handle(p), object::stolen_t{});
    holder_ = type(value, object::borrowed_t{});
    return true;
  }
  template <typename U>
  decltype(auto) get() {
    if constexpr (std::is_lvalue_reference_v<U>) {
      return (type&)holder_;
    } else {
      return type(holder_);
    }
  }
  static PyObject* cast(const handle& src, return_value_policy, handle) {
    src.inc_ref();
    return src.ptr();
  }
  type holder_;
};
}  // namespace detail
}  // namespace pybind11
