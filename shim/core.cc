// Run-time part of the pybind11 stand-in (see pybind11/pybind11.h).
#include "pybind11/pybind11.h"

#include <structmember.h>

#include <cstring>
#include <map>
#include <new>
#include <unordered_map>

#include "pybind11/numpy.h"

#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>

namespace pybind11 {

error_already_set::error_already_set()
    : std::runtime_error("python error"),
      exc_(PyErr_GetRaisedException(), [](PyObject* p) {
        PyGILState_STATE s = PyGILState_Ensure();
        Py_XDECREF(p);
        PyGILState_Release(s);
      }) {}
void error_already_set::restore() const {
  PyObject* e = exc_.get();
  Py_XINCREF(e);
  if (e) {
    PyErr_SetRaisedException(e);
  } else {
    PyErr_SetString(PyExc_SystemError, "unknown error in a binding");
  }
}

namespace detail {

// ------------------------------------------------------------------- registry
namespace {
std::map<std::string, type_record*>& types() {
  static auto* m = new std::map<std::string, type_record*>();
  return *m;
}
std::unordered_multimap<const void*, instance*>& instances() {
  static auto* m = new std::unordered_multimap<const void*, instance*>();
  return *m;
}

void unregister_instance(instance* self) {
  auto range = instances().equal_range(self->value);
  for (auto it = range.first; it != range.second; ++it) {
    if (it->second == self) {
      instances().erase(it);
      return;
    }
  }
}

void clear_instance(instance* self) {
  if (self->value) {
    unregister_instance(self);
    if (self->owned && self->rec) {
      self->rec->destroy(self->value);
    }
    self->value = nullptr;
  }
  if (self->patients) {
    std::vector<PyObject*>* p = self->patients;
    self->patients = nullptr;
    for (PyObject* o : *p) {
      Py_DECREF(o);
    }
    delete p;
  }
}

void instance_dealloc(PyObject* o) {
  instance* self = (instance*)o;
  PyTypeObject* type = Py_TYPE(o);
  PyObject* saved = PyErr_GetRaisedException();
  if (self->weakrefs) {
    PyObject_ClearWeakRefs(o);
  }
  clear_instance(self);
  if (saved) {
    PyErr_SetRaisedException(saved);
  }
  type->tp_free(o);
  Py_DECREF(type);
}

type_record* record_of_type(PyTypeObject* t) {
  // the closest registered base
  for (; t; t = t->tp_base) {
    for (auto& kv : types()) {
      if (kv.second->type == t) {
        return kv.second;
      }
    }
  }
  return nullptr;
}

PyObject* instance_new(PyTypeObject* type, PyObject*, PyObject*) {
  PyObject* o = type->tp_alloc(type, 0);
  if (!o) {
    return nullptr;
  }
  instance* self = (instance*)o;
  self->value = nullptr;
  self->rec = record_of_type(type);
  self->owned = false;
  self->patients = nullptr;
  self->weakrefs = nullptr;
  return o;
}

int instance_init(PyObject* self, PyObject*, PyObject*) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!",
               Py_TYPE(self)->tp_name);
  return -1;
}

PyMemberDef instance_members[] = {
    {"__weaklistoffset__", T_PYSSIZET, offsetof(instance, weakrefs), READONLY,
     nullptr},
    {nullptr, 0, 0, 0, nullptr}};

bool is_instance(PyObject* o) {
  for (PyTypeObject* t = Py_TYPE(o); t; t = t->tp_base) {
    if (t->tp_dealloc == instance_dealloc) {
      return true;
    }
  }
  return false;
}
}  // namespace

type_record* find_type(const std::type_info& ti) {
  auto it = types().find(ti.name());
  return it == types().end() ? nullptr : it->second;
}

type_record* get_type_info(const std::type_info& ti, bool throw_if_missing) {
  type_record* r = find_type(ti);
  if (!r && throw_if_missing) {
    throw type_error(std::string("unregistered type ") + ti.name());
  }
  return r;
}

type_record* make_type(PyObject* scope, const char* name,
                       const std::type_info& ti) {
  std::string module = "pybind11";
  if (scope) {
    PyObject* m = PyObject_GetAttrString(
        scope, PyModule_Check(scope) ? "__name__" : "__module__");
    if (!m) {
      throw error_already_set();
    }
    module = PyUnicode_AsUTF8(m);
    Py_DECREF(m);
  }
  char* full = strdup((module + "." + name).c_str());
  PyType_Slot slots[] = {{Py_tp_dealloc, (void*)instance_dealloc},
                         {Py_tp_new, (void*)instance_new},
                         {Py_tp_init, (void*)instance_init},
                         {Py_tp_members, (void*)instance_members},
                         {0, nullptr}};
  PyType_Spec spec = {full, (int)sizeof(instance), 0,
                      Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
  PyObject* t = PyType_FromSpec(&spec);
  if (!t) {
    throw error_already_set();
  }
  auto* rec = new type_record();
  rec->cpp_name = ti.name();
  rec->type = (PyTypeObject*)t;
  types()[rec->cpp_name] = rec;
  if (scope) {
    set_attr(scope, name, t);
  }
  return rec;
}

void register_instance(instance* self) {
  instances().emplace(self->value, self);
}

PyObject* find_instance(const void* p, const type_record* rec) {
  auto range = instances().equal_range(p);
  for (auto it = range.first; it != range.second; ++it) {
    if (it->second->rec == rec) {
      return (PyObject*)it->second;
    }
  }
  return nullptr;
}

PyObject* wrap_instance(void* p, const type_record* rec, bool owned) {
  PyObject* o = instance_new(rec->type, nullptr, nullptr);
  if (!o) {
    throw error_already_set();
  }
  instance* self = (instance*)o;
  self->value = p;
  self->rec = rec;
  self->owned = owned;
  register_instance(self);
  return o;
}

PyObject* cast_pointer(const void* p, const std::type_info& ti,
                       return_value_policy policy, handle parent,
                       value_ops ops) {
  if (!p) {
    Py_RETURN_NONE;
  }
  type_record* rec = get_type_info(ti, true);
  if (PyObject* o = find_instance(p, rec)) {
    Py_INCREF(o);
    return o;
  }
  switch (policy) {
    case return_value_policy::automatic:
    case return_value_policy::take_ownership:
      return wrap_instance((void*)p, rec, true);
    case return_value_policy::automatic_reference:
    case return_value_policy::reference:
      return wrap_instance((void*)p, rec, false);
    case return_value_policy::move:
      if (ops.move) {
        return wrap_instance(ops.move((void*)p), rec, true);
      }
      [[fallthrough]];
    case return_value_policy::copy:
      if (!ops.copy) {
        throw cast_error("return_value_policy = copy, but type is non-copyable");
      }
      return wrap_instance(ops.copy(p), rec, true);
    case return_value_policy::reference_internal: {
      PyObject* o = wrap_instance((void*)p, rec, false);
      keep_alive_impl(o, parent.ptr());
      return o;
    }
  }
  throw cast_error("unhandled return_value_policy");
}

PyObject* cast_owned(void* p, const std::type_info& ti) {
  return cast_pointer(p, ti, return_value_policy::take_ownership, handle(),
                      value_ops());
}

bool load_pointer(handle src, const std::type_info& ti, void** out) {
  type_record* rec = find_type(ti);
  if (!rec || !src.ptr()) {
    return false;
  }
  if (!PyObject_TypeCheck(src.ptr(), rec->type)) {
    return false;
  }
  *out = ((instance*)src.ptr())->value;
  // an object whose constructor did not run
  return *out != nullptr;
}

void keep_alive_impl(PyObject* nurse, PyObject* patient) {
  if (!nurse || !patient) {
    return;
  }
  if (nurse == Py_None || patient == Py_None) {
    return;
  }
  if (is_instance(nurse)) {
    instance* self = (instance*)nurse;
    if (!self->patients) {
      self->patients = new std::vector<PyObject*>();
    }
    for (PyObject* p : *self->patients) {
      if (p == patient) {
        return;
      }
    }
    Py_INCREF(patient);
    self->patients->push_back(patient);
    return;
  }
  // the patient is released by a weak reference callback
  static PyMethodDef release = {"release",
                                [](PyObject* patient, PyObject* weak) {
                                  Py_DECREF(patient);
                                  Py_DECREF(weak);
                                  Py_RETURN_NONE;
                                },
                                METH_O, nullptr};
  object cb = steal_or_throw(PyCFunction_New(&release, patient));
  PyObject* w = PyWeakref_NewRef(nurse, cb.ptr());
  if (!w) {
    throw error_already_set();
  }
  Py_INCREF(patient);
}

void set_constructed(instance* self, void* value) {
  if (self->value) {
    clear_instance(self);
  }
  self->value = value;
  self->owned = true;
  register_instance(self);
}

// -------------------------------------------------------------------- numbers
namespace {
template <typename T, typename Conv>
bool load_int(handle src, bool convert, T* out, Conv conv) {
  if (!src.ptr() || PyFloat_Check(src.ptr())) {
    return false;
  }
  const bool index = PyLong_Check(src.ptr()) || PyIndex_Check(src.ptr());
  if (!convert && !index) {
    return false;
  }
  PyObject* num = nullptr;
  if (index) {
    num = PyNumber_Index(src.ptr());
    if (!num) {
      PyErr_Clear();
    }
  }
  if (!num) {
    if (!convert || !PyNumber_Check(src.ptr())) {
      return false;
    }
    num = PyNumber_Long(src.ptr());
    if (!num) {
      PyErr_Clear();
      return false;
    }
  }
  *out = conv(num);
  const bool err = PyErr_Occurred() != nullptr;
  PyErr_Clear();
  Py_DECREF(num);
  return !err;
}
}  // namespace

bool load_integer(handle src, bool convert, long long* out) {
  return load_int(src, convert, out, PyLong_AsLongLong);
}
bool load_unsigned(handle src, bool convert, unsigned long long* out) {
  return load_int(src, convert, out, PyLong_AsUnsignedLongLong);
}
bool load_double(handle src, bool convert, double* out) {
  if (!src.ptr() || (!convert && !PyFloat_Check(src.ptr()))) {
    return false;
  }
  *out = PyFloat_AsDouble(src.ptr());
  if (*out == -1.0 && PyErr_Occurred()) {
    PyErr_Clear();
    if (convert && PyNumber_Check(src.ptr())) {
      PyObject* f = PyNumber_Float(src.ptr());
      PyErr_Clear();
      if (!f) {
        return false;
      }
      const bool ok = load_double(f, false, out);
      Py_DECREF(f);
      return ok;
    }
    return false;
  }
  return true;
}
bool load_bool(handle src, bool convert, bool* out) {
  if (src.ptr() == Py_True) {
    *out = true;
    return true;
  }
  if (src.ptr() == Py_False) {
    *out = false;
    return true;
  }
  const char* tn = Py_TYPE(src.ptr())->tp_name;
  if (convert || !strcmp(tn, "numpy.bool_") || !strcmp(tn, "numpy.bool")) {
    if (src.is_none()) {
      *out = false;
      return true;
    }
    PyNumberMethods* nb = Py_TYPE(src.ptr())->tp_as_number;
    if (nb && nb->nb_bool) {
      const int r = nb->nb_bool(src.ptr());
      if (r == 0 || r == 1) {
        *out = r == 1;
        return true;
      }
    }
    PyErr_Clear();
  }
  return false;
}
bool load_string(handle src, std::string* out) {
  if (PyUnicode_Check(src.ptr())) {
    Py_ssize_t n;
    const char* s = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
    if (!s) {
      PyErr_Clear();
      return false;
    }
    out->assign(s, (size_t)n);
    return true;
  }
  if (PyBytes_Check(src.ptr())) {
    out->assign(PyBytes_AS_STRING(src.ptr()),
                (size_t)PyBytes_GET_SIZE(src.ptr()));
    return true;
  }
  if (PyByteArray_Check(src.ptr())) {
    out->assign(PyByteArray_AS_STRING(src.ptr()),
                (size_t)PyByteArray_GET_SIZE(src.ptr()));
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ functions
namespace {
const char* const capsule_name = "opensfm_shim_function";

void set_python_error() {
  try {
    throw;
  } catch (error_already_set& e) {
    e.restore();
  } catch (stop_iteration& e) {
    PyErr_SetString(PyExc_StopIteration, e.what());
  } catch (type_error& e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (std::bad_alloc& e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (std::domain_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::invalid_argument& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::length_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::out_of_range& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (std::range_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::overflow_error& e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
}

// Runs one overload.  Returns nullptr with *try_next when it does not apply.
PyObject* try_record(function_record& r, PyObject* args, PyObject* kwargs,
                     bool convert, bool* try_next) {
  const size_t n_in = (size_t)PyTuple_GET_SIZE(args);
  *try_next = true;
  if (n_in > r.nargs || (n_in < r.nargs && r.args.size() < r.nargs)) {
    return nullptr;
  }
  std::vector<PyObject*> in(r.nargs + 1, nullptr);
  for (size_t i = 0; i < n_in; ++i) {
    in[i] = PyTuple_GET_ITEM(args, (Py_ssize_t)i);
  }
  size_t n_kw = kwargs ? (size_t)PyDict_GET_SIZE(kwargs) : 0;
  for (size_t i = n_in; i < r.nargs; ++i) {
    const arg_info& a = r.args[i];
    PyObject* v = kwargs ? PyDict_GetItemString(kwargs, a.name.c_str()) : nullptr;
    if (v) {
      --n_kw;
    } else {
      v = a.value;
    }
    if (!v) {
      return nullptr;
    }
    in[i] = v;
  }
  if (n_kw) {
    return nullptr;
  }
  // None is an acceptable `self` or argument only for pointers, which the
  // casters decide.
  function_call call{in.data(), convert, r.policy,
                     r.nargs ? in[0] : nullptr};
  *try_next = false;
  auto arg_at = [&](int i, PyObject* ret) {
    return i == 0 ? ret : (size_t)i <= r.nargs ? in[i - 1] : nullptr;
  };
  PyObject* ret = r.impl(r, call, try_next);
  if (ret) {
    for (auto& ka : r.keep_alives) {
      keep_alive_impl(arg_at(ka.first, ret), arg_at(ka.second, ret));
    }
  }
  return ret;
}

PyObject* dispatch(PyObject* capsule, PyObject* args, PyObject* kwargs) {
  auto* head =
      (function_record*)PyCapsule_GetPointer(capsule, capsule_name);
  if (!head) {
    return nullptr;
  }
  try {
    const bool overloaded = head->next != nullptr;
    for (int pass = overloaded ? 0 : 1; pass < 2; ++pass) {
      for (function_record* r = head; r; r = r->next) {
        bool try_next = false;
        PyObject* ret = try_record(*r, args, kwargs, pass == 1, &try_next);
        if (!try_next) {
          if (!ret && !PyErr_Occurred()) {
            PyErr_Format(PyExc_TypeError,
                         "%s(): unable to convert the result to python",
                         head->name.c_str());
          }
          return ret;
        }
      }
    }
  } catch (...) {
    set_python_error();
    return nullptr;
  }
  std::string got;
  for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(args); ++i) {
    got += i ? ", " : "";
    got += Py_TYPE(PyTuple_GET_ITEM(args, i))->tp_name;
  }
  PyErr_Format(PyExc_TypeError,
               "%s(): incompatible function arguments. Invoked with: (%s)%s",
               head->name.c_str(), got.c_str(), kwargs ? " and keywords" : "");
  return nullptr;
}

function_record* record_of_callable(PyObject* o) {
  if (!o) {
    return nullptr;
  }
  if (PyInstanceMethod_Check(o)) {
    o = PyInstanceMethod_GET_FUNCTION(o);
  }
  PyObject* unwrapped = nullptr;
  if (Py_IS_TYPE(o, &PyStaticMethod_Type)) {
    unwrapped = PyObject_GetAttrString(o, "__func__");
    PyErr_Clear();
    o = unwrapped;
  }
  function_record* r = nullptr;
  if (o && PyCFunction_Check(o)) {
    PyObject* self = PyCFunction_GET_SELF(o);
    if (self && PyCapsule_CheckExact(self) &&
        PyCapsule_IsValid(self, capsule_name)) {
      r = (function_record*)PyCapsule_GetPointer(self, capsule_name);
    }
  }
  Py_XDECREF(unwrapped);
  return r;
}
}  // namespace

PyObject* make_function(function_record* rec, PyObject* sibling) {
  if (function_record* head = record_of_callable(sibling)) {
    while (head->next) {
      head = head->next;
    }
    head->next = rec;
    PyObject* f = sibling;
    if (PyInstanceMethod_Check(f)) {
      f = PyInstanceMethod_GET_FUNCTION(f);
      Py_INCREF(f);
    } else if (Py_IS_TYPE(f, &PyStaticMethod_Type)) {
      f = PyObject_GetAttrString(f, "__func__");
    } else {
      Py_INCREF(f);
    }
    return f;
  }
  auto* def = new PyMethodDef();
  def->ml_name = strdup(rec->name.c_str());
  def->ml_meth = (PyCFunction)(void (*)(void))dispatch;
  def->ml_flags = METH_VARARGS | METH_KEYWORDS;
  object capsule = steal_or_throw(PyCapsule_New(rec, capsule_name, nullptr));
  return PyCFunction_NewEx(def, capsule.ptr(), nullptr);
}

void add_to_class(PyObject* cls, const char* name, PyObject* callable,
                  bool is_static) {
  object o = steal_or_throw(is_static ? PyStaticMethod_New(callable)
                                      : PyInstanceMethod_New(callable));
  set_attr(cls, name, o.ptr());
  // like python classes, __eq__ without __hash__ makes instances unhashable
  if (!is_static && !strcmp(name, "__eq__") &&
      !get_own_attr(cls, "__hash__")) {
    set_attr(cls, "__hash__", Py_None);
  }
}

void add_property(PyObject* cls, const char* name, PyObject* getter,
                  PyObject* setter) {
  object p = steal_or_throw(PyObject_CallFunctionObjArgs(
      (PyObject*)&PyProperty_Type, getter, setter ? setter : Py_None,
      Py_None, nullptr));
  set_attr(cls, name, p.ptr());
}

void set_attr(PyObject* scope, const char* name, PyObject* value) {
  if (PyObject_SetAttrString(scope, name, value) != 0) {
    throw error_already_set();
  }
}

PyObject* get_own_attr(PyObject* scope, const char* name) {
  PyObject* d = nullptr;
  if (PyType_Check(scope)) {
    d = ((PyTypeObject*)scope)->tp_dict;
  } else if (PyModule_Check(scope)) {
    d = PyModule_GetDict(scope);
  }
  return d ? PyDict_GetItemString(d, name) : nullptr;
}

// ---------------------------------------------------------------------- enums
namespace {
long enum_int(PyObject* o) {
  instance* self = (instance*)o;
  return self->value ? self->rec->enum_get(self->value) : 0;
}
const char* enum_name(PyObject* o) {
  instance* self = (instance*)o;
  PyObject *k, *v;
  Py_ssize_t pos = 0;
  while (PyDict_Next(self->rec->enum_entries, &pos, &k, &v)) {
    if (enum_int(v) == enum_int(o)) {
      return PyUnicode_AsUTF8(k);
    }
  }
  return "???";
}
const char* short_name(PyTypeObject* t) {
  const char* dot = strrchr(t->tp_name, '.');
  return dot ? dot + 1 : t->tp_name;
}
PyObject* enum_getter(PyObject* self, PyObject* args, PyObject* (*f)(PyObject*)) {
  (void)self;
  PyObject* o;
  if (!PyArg_ParseTuple(args, "O", &o)) {
    return nullptr;
  }
  return f(o);
}
PyObject* en_int(PyObject* s, PyObject* a) {
  return enum_getter(s, a, [](PyObject* o) { return PyLong_FromLong(enum_int(o)); });
}
PyObject* en_name(PyObject* s, PyObject* a) {
  return enum_getter(s, a,
                     [](PyObject* o) { return PyUnicode_FromString(enum_name(o)); });
}
PyObject* en_str(PyObject* s, PyObject* a) {
  return enum_getter(s, a, [](PyObject* o) {
    return PyUnicode_FromFormat("%s.%s", short_name(Py_TYPE(o)), enum_name(o));
  });
}
PyObject* en_repr(PyObject* s, PyObject* a) {
  return enum_getter(s, a, [](PyObject* o) {
    return PyUnicode_FromFormat("<%s.%s: %ld>", short_name(Py_TYPE(o)),
                                enum_name(o), enum_int(o));
  });
}
PyObject* en_eq(PyObject*, PyObject* args) {
  PyObject *a, *b;
  if (!PyArg_ParseTuple(args, "OO", &a, &b)) {
    return nullptr;
  }
  return PyBool_FromLong(Py_TYPE(a) == Py_TYPE(b) && enum_int(a) == enum_int(b));
}
PyObject* en_ne(PyObject*, PyObject* args) {
  PyObject *a, *b;
  if (!PyArg_ParseTuple(args, "OO", &a, &b)) {
    return nullptr;
  }
  return PyBool_FromLong(
      !(Py_TYPE(a) == Py_TYPE(b) && enum_int(a) == enum_int(b)));
}
PyMethodDef enum_methods[] = {
    {"__int__", en_int, METH_VARARGS, nullptr},
    {"__index__", en_int, METH_VARARGS, nullptr},
    {"__hash__", en_int, METH_VARARGS, nullptr},
    {"__getstate__", en_int, METH_VARARGS, nullptr},
    {"__repr__", en_repr, METH_VARARGS, nullptr},
    {"__str__", en_str, METH_VARARGS, nullptr},
    {"__eq__", en_eq, METH_VARARGS, nullptr},
    {"__ne__", en_ne, METH_VARARGS, nullptr},
};
PyMethodDef enum_name_def = {"name", en_name, METH_VARARGS, nullptr};
PyMethodDef enum_value_def = {"value", en_int, METH_VARARGS, nullptr};
}  // namespace

void finish_enum(type_record* rec) {
  PyObject* t = (PyObject*)rec->type;
  rec->enum_entries = PyDict_New();
  for (PyMethodDef& m : enum_methods) {
    object f = steal_or_throw(PyCFunction_New(&m, nullptr));
    object im = steal_or_throw(PyInstanceMethod_New(f.ptr()));
    set_attr(t, m.ml_name, im.ptr());
  }
  object n = steal_or_throw(PyCFunction_New(&enum_name_def, nullptr));
  object v = steal_or_throw(PyCFunction_New(&enum_value_def, nullptr));
  add_property(t, "name", n.ptr(), nullptr);
  add_property(t, "value", v.ptr(), nullptr);
  set_attr(t, "__members__", rec->enum_entries);
}
void enum_value(type_record* rec, const char* name, PyObject* value) {
  PyDict_SetItemString(rec->enum_entries, name, value);
  set_attr((PyObject*)rec->type, name, value);
}
void enum_export(type_record* rec, PyObject* scope) {
  PyObject *k, *v;
  Py_ssize_t pos = 0;
  while (PyDict_Next(rec->enum_entries, &pos, &k, &v)) {
    set_attr(scope, PyUnicode_AsUTF8(k), v);
  }
}

// -------------------------------------------------------------------- modules
namespace {
void* init_numpy() {
  import_array1(nullptr);
  return (void*)1;
}
void ensure_numpy() {
  static void* done = nullptr;
  if (!done) {
    done = init_numpy();
    if (!done) {
      throw error_already_set();
    }
  }
}
}  // namespace

PyObject* create_module(PyModuleDef* def, const char* name) {
  *def = PyModuleDef{PyModuleDef_HEAD_INIT, name,    nullptr, -1,
                     nullptr,               nullptr, nullptr, nullptr, nullptr};
  return PyModule_Create(def);
}
PyObject* run_module_init(PyObject* m, void (*body)(module_&)) {
  if (!m) {
    return nullptr;
  }
  try {
    ensure_numpy();
    module_ mod(handle(m), object::borrowed_t{});
    body(mod);
    return m;
  } catch (...) {
    set_python_error();
    return nullptr;
  }
}

// ---------------------------------------------------------------------- numpy
namespace {
bool same_type(PyArrayObject* a, int type) {
  PyArray_Descr* d = PyArray_DescrFromType(type);
  const bool r = PyArray_EquivTypes(PyArray_DESCR(a), d);
  Py_DECREF(d);
  return r;
}
}  // namespace
bool array_check(PyObject* o, int type) {
  return PyArray_Check(o) && same_type((PyArrayObject*)o, type);
}
bool array_check_c(PyObject* o, int type) {
  return array_check(o, type) && PyArray_IS_C_CONTIGUOUS((PyArrayObject*)o);
}
PyObject* array_ensure(PyObject* o, int type, bool c_style, bool forcecast) {
  int flags = NPY_ARRAY_ENSUREARRAY;
  if (c_style) {
    flags |= NPY_ARRAY_C_CONTIGUOUS;
  }
  if (forcecast) {
    flags |= NPY_ARRAY_FORCECAST;
  }
  return PyArray_FromAny(o, PyArray_DescrFromType(type), 0, 0, flags, nullptr);
}
PyObject* array_any(PyObject* o) {
  return PyArray_FromAny(o, nullptr, 0, 0, NPY_ARRAY_ENSUREARRAY, nullptr);
}
PyObject* array_new(int type, int nd, const ptrdiff_t* shape) {
  std::vector<npy_intp> s(shape, shape + nd);
  PyObject* a = PyArray_SimpleNew(nd, s.data(), type);
  if (!a) {
    throw error_already_set();
  }
  return a;
}
PyObject* array_view(int type, int nd, const ptrdiff_t* shape,
                     const ptrdiff_t* strides, void* data, PyObject* base,
                     bool writeable) {
  std::vector<npy_intp> sh(shape, shape + nd), st(strides, strides + nd);
  PyObject* a = PyArray_New(&PyArray_Type, nd, sh.data(), type, st.data(), data,
                            0, writeable ? NPY_ARRAY_WRITEABLE : 0, nullptr);
  if (!a) {
    throw error_already_set();
  }
  if (!base) {
    PyObject* c = PyArray_NewCopy((PyArrayObject*)a, NPY_ANYORDER);
    Py_DECREF(a);
    if (!c) {
      throw error_already_set();
    }
    return c;
  }
  Py_INCREF(base);
  PyArray_SetBaseObject((PyArrayObject*)a, base);
  return a;
}
int array_ndim(PyObject* a) { return PyArray_NDIM((PyArrayObject*)a); }
ptrdiff_t array_shape(PyObject* a, int i) {
  return PyArray_DIM((PyArrayObject*)a, i);
}
void* array_data(PyObject* a) { return PyArray_DATA((PyArrayObject*)a); }
bool array_writeable(PyObject* a) {
  return PyArray_ISWRITEABLE((PyArrayObject*)a);
}
bool array_copy_into(PyObject* src, int type, int nd, const ptrdiff_t* shape,
                     const ptrdiff_t* strides, void* data) {
  // a view of the destination with the number of dimensions of the source
  std::vector<npy_intp> sh, st;
  const int snd = array_ndim(src);
  if (snd == nd) {
    sh.assign(shape, shape + nd);
    st.assign(strides, strides + nd);
  } else if (snd == 1 && nd == 2) {
    const int k = shape[0] == 1 && shape[1] != 1 ? 1 : 0;
    sh = {shape[k]};
    st = {strides[k]};
  } else {
    return false;
  }
  PyObject* dst =
      PyArray_New(&PyArray_Type, snd, sh.data(), type, st.data(), data, 0,
                  NPY_ARRAY_WRITEABLE, nullptr);
  if (!dst) {
    return false;
  }
  const int r = PyArray_CopyInto((PyArrayObject*)dst, (PyArrayObject*)src);
  Py_DECREF(dst);
  return r == 0;
}

}  // namespace detail
}  // namespace pybind11
