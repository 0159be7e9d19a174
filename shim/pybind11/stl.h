#pragma once
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

#include "pybind11.h"

namespace pybind11 {
namespace detail {

template <typename U, typename Container>
using fwd_elem_t =
    std::conditional_t<std::is_lvalue_reference_v<Container>, U&, U&&>;

template <typename Type, typename Value>
struct list_caster : value_base<Type> {
  bool load(handle src, bool convert) {
    if (!PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr()) ||
        PyBytes_Check(src.ptr())) {
      return false;
    }
    Py_ssize_t n = PySequence_Size(src.ptr());
    if (n < 0) {
      PyErr_Clear();
      return false;
    }
    this->value.clear();
    this->value.reserve(n);
    for (Py_ssize_t i = 0; i < n; ++i) {
      object item = steal_or_throw(PySequence_GetItem(src.ptr(), i));
      make_caster<Value> c;
      if (!c.load(item, convert)) {
        return false;
      }
      this->value.push_back(c.template get<Value>());
    }
    return true;
  }
  template <typename S>
  static PyObject* cast(S&& src, return_value_policy policy, handle parent) {
    if (!std::is_lvalue_reference_v<S>) {
      policy = override_policy<Value>(policy);
    }
    object l = steal_or_throw(PyList_New((Py_ssize_t)src.size()));
    Py_ssize_t i = 0;
    for (auto&& v : src) {
      object o = steal_or_throw(as_ptr(make_caster<Value>::cast(
          static_cast<fwd_elem_t<std::remove_reference_t<decltype(v)>, S>>(v),
          policy, parent)));
      PyList_SET_ITEM(l.ptr(), i++, o.release().ptr());
    }
    return l.release().ptr();
  }
};
template <typename T, typename A>
struct type_caster<std::vector<T, A>> : list_caster<std::vector<T, A>, T> {};

template <typename Type, typename Key>
struct set_caster : value_base<Type> {
  bool load(handle src, bool convert) {
    if (!PyAnySet_Check(src.ptr()) &&
        !(convert && PyDictKeys_Check(src.ptr()))) {
      return false;
    }
    this->value.clear();
    object it = steal_or_throw(PyObject_GetIter(src.ptr()));
    while (PyObject* p = PyIter_Next(it.ptr())) {
      object item(handle(p), object::stolen_t{});
      make_caster<Key> c;
      if (!c.load(item, convert)) {
        return false;
      }
      this->value.insert(c.template get<Key>());
    }
    return true;
  }
  template <typename S>
  static PyObject* cast(S&& src, return_value_policy policy, handle parent) {
    if (!std::is_lvalue_reference_v<S>) {
      policy = override_policy<Key>(policy);
    }
    object s = steal_or_throw(PySet_New(nullptr));
    for (auto&& v : src) {
      object o = steal_or_throw(as_ptr(make_caster<Key>::cast(v, policy, parent)));
      if (PySet_Add(s.ptr(), o.ptr()) != 0) {
        throw error_already_set();
      }
    }
    return s.release().ptr();
  }
};
template <typename K, typename C, typename A>
struct type_caster<std::set<K, C, A>> : set_caster<std::set<K, C, A>, K> {};
template <typename K, typename H, typename E, typename A>
struct type_caster<std::unordered_set<K, H, E, A>>
    : set_caster<std::unordered_set<K, H, E, A>, K> {};

template <typename Type, typename Key, typename Value>
struct map_caster : value_base<Type> {
  bool load(handle src, bool convert) {
    if (!PyDict_Check(src.ptr())) {
      return false;
    }
    this->value.clear();
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(src.ptr(), &pos, &k, &v)) {
      make_caster<Key> kc;
      make_caster<Value> vc;
      if (!kc.load(handle(k), convert) || !vc.load(handle(v), convert)) {
        return false;
      }
      this->value.emplace(kc.template get<Key>(), vc.template get<Value>());
    }
    return true;
  }
  template <typename S>
  static PyObject* cast(S&& src, return_value_policy policy, handle parent) {
    return_value_policy pk = policy, pv = policy;
    if (!std::is_lvalue_reference_v<S>) {
      pk = override_policy<Key>(pk);
      pv = override_policy<Value>(pv);
    }
    object d = steal_or_throw(PyDict_New());
    for (auto&& kv : src) {
      object k = steal_or_throw(as_ptr(make_caster<Key>::cast(kv.first, pk, parent)));
      object v = steal_or_throw(as_ptr(make_caster<Value>::cast(
          static_cast<
              fwd_elem_t<std::remove_reference_t<decltype((kv.second))>, S>>(
              kv.second),
          pv, parent)));
      if (PyDict_SetItem(d.ptr(), k.ptr(), v.ptr()) != 0) {
        throw error_already_set();
      }
    }
    return d.release().ptr();
  }
};
template <typename K, typename V, typename C, typename A>
struct type_caster<std::map<K, V, C, A>>
    : map_caster<std::map<K, V, C, A>, K, V> {};
template <typename K, typename V, typename H, typename E, typename A>
struct type_caster<std::unordered_map<K, V, H, E, A>>
    : map_caster<std::unordered_map<K, V, H, E, A>, K, V> {};

template <typename T>
struct type_caster<std::optional<T>> : value_base<std::optional<T>> {
  bool load(handle src, bool convert) {
    if (src.is_none()) {
      this->value = std::nullopt;
      return true;
    }
    make_caster<T> c;
    if (!c.load(src, convert)) {
      return false;
    }
    this->value.emplace(c.template get<T>());
    return true;
  }
  template <typename S>
  static PyObject* cast(S&& src, return_value_policy policy, handle parent) {
    if (!src) {
      Py_RETURN_NONE;
    }
    if (!std::is_lvalue_reference_v<S>) {
      policy = override_policy<T>(policy);
    }
    return as_ptr(make_caster<T>::cast(*std::forward<S>(src), policy, parent));
  }
};

}  // namespace detail
}  // namespace pybind11
