#pragma once
#include <Eigen/Core>

#include "numpy.h"

namespace pybind11 {
namespace detail {

template <typename T>
struct is_eigen_plain : std::false_type {};
template <typename S, int R, int C, int O, int MR, int MC>
struct is_eigen_plain<Eigen::Matrix<S, R, C, O, MR, MC>> : std::true_type {};

template <typename Type>
struct type_caster<Type, std::enable_if_t<is_eigen_plain<Type>::value>>
    : value_base<Type> {
  using Scalar = typename Type::Scalar;
  static constexpr int R = Type::RowsAtCompileTime;
  static constexpr int C = Type::ColsAtCompileTime;
  static constexpr bool is_vector = Type::IsVectorAtCompileTime;
  static constexpr bool row_major = Type::IsRowMajor;

  bool load(handle src, bool convert) {
    if (!convert && !array_check(src.ptr(), npy_type<Scalar>())) {
      return false;
    }
    PyObject* p = array_any(src.ptr());
    if (!p) {
      PyErr_Clear();
      return false;
    }
    object buf(handle(p), object::stolen_t{});
    const int nd = array_ndim(p);
    Eigen::Index rows, cols;
    if (nd == 2) {
      rows = array_shape(p, 0);
      cols = array_shape(p, 1);
      if ((R != Eigen::Dynamic && rows != R) ||
          (C != Eigen::Dynamic && cols != C)) {
        return false;
      }
    } else if (nd == 1) {
      const Eigen::Index n = array_shape(p, 0);
      if (is_vector) {
        if (Type::SizeAtCompileTime != Eigen::Dynamic &&
            n != Type::SizeAtCompileTime) {
          return false;
        }
        rows = R == 1 ? 1 : n;
        cols = C == 1 ? 1 : n;
      } else if (R != Eigen::Dynamic && C != Eigen::Dynamic) {
        return false;
      } else if (C != Eigen::Dynamic) {
        if (n != C) {
          return false;
        }
        rows = 1;
        cols = n;
      } else {
        if (R != Eigen::Dynamic && R != n) {
          return false;
        }
        rows = n;
        cols = 1;
      }
    } else {
      return false;
    }
    this->value.resize(rows, cols);
    const ptrdiff_t e = sizeof(Scalar);
    const ptrdiff_t shape[] = {rows, cols};
    const ptrdiff_t strides[] = {row_major ? e * cols : e,
                                 row_major ? e : e * rows};
    if (!array_copy_into(p, npy_type<Scalar>(), 2, shape, strides,
                         this->value.data())) {
      PyErr_Clear();
      return false;
    }
    return true;
  }

  static PyObject* make(const Type& src, PyObject* base, bool writeable) {
    const ptrdiff_t e = sizeof(Scalar);
    if (is_vector) {
      const ptrdiff_t shape[] = {src.size()};
      const ptrdiff_t strides[] = {e};
      return array_view(npy_type<Scalar>(), 1, shape, strides,
                        (void*)src.data(), base, writeable);
    }
    const ptrdiff_t shape[] = {src.rows(), src.cols()};
    const ptrdiff_t strides[] = {row_major ? e * src.cols() : e,
                                 row_major ? e : e * src.rows()};
    return array_view(npy_type<Scalar>(), 2, shape, strides, (void*)src.data(),
                      base, writeable);
  }
  static PyObject* cast(const Type& src, return_value_policy policy,
                        handle parent) {
    return cast_lvalue(src, policy, parent, false);
  }
  static PyObject* cast(Type& src, return_value_policy policy, handle parent) {
    return cast_lvalue(src, policy, parent, true);
  }
  static PyObject* cast(Type&& src, return_value_policy, handle) {
    return make(src, nullptr, true);
  }
  static PyObject* cast_lvalue(const Type& src, return_value_policy policy,
                               handle parent, bool writeable) {
    if (policy == return_value_policy::reference_internal && parent.ptr()) {
      return make(src, parent.ptr(), writeable);
    }
    if (policy == return_value_policy::reference) {
      return make(src, Py_None, writeable);
    }
    return make(src, nullptr, true);
  }
};

}  // namespace detail
}  // namespace pybind11
