// The variant of rx.c for the Python target: reactions are Python methods (rxpy.py), called as generated code calls them. Included by rx.c under RX_PY.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "pythontarget.h"
#ifdef MODAL_REACTORS
#include "modal_models/definitions.h"
#endif
static PyObject** PYB; static PyObject** PYH; // bodies and handlers
static PyObject* PYSER;
#if !defined(LF_SINGLE_THREADED)
static pthread_mutex_t gil_m = PTHREAD_MUTEX_INITIALIZER; // waiting for the interpreter's lock happens in the scheduler's sight
#define GIL_LOCK() pthread_mutex_lock(&gil_m)
#define GIL_UNLOCK() pthread_mutex_unlock(&gil_m)
#else
#define GIL_LOCK()
#define GIL_UNLOCK()
#endif

static PyObject* rxh_tr(PyObject* self, PyObject* s) { TR("%s\n", PyUnicode_AsUTF8(s)); Py_RETURN_NONE; }
static PyObject* rxh_advance(PyObject* self, PyObject* n) { vt_advance(PyLong_AsLongLong(n)); Py_RETURN_NONE; }
static PyObject* rxh_now(PyObject* self, PyObject* n) { return PyLong_FromLongLong(vt_now()); }
static PyObject* rxh_yield(PyObject* self, PyObject* n) { vt_yield(); Py_RETURN_NONE; }
static PyObject* rxh_roundtrip(PyObject* self, PyObject* o) {
  PyObject* b = custom_serialize(o, PYSER);
  PyObject* r = custom_deserialize(b, PYSER);
  Py_DECREF(b);
  return r;
}
static PyMethodDef rxh_methods[] = {{"tr", rxh_tr, METH_O, NULL}, {"advance", rxh_advance, METH_O, NULL}, {"now", rxh_now, METH_NOARGS, NULL},
  {"yield_", rxh_yield, METH_NOARGS, NULL}, {"roundtrip", rxh_roundtrip, METH_O, NULL}, {NULL, NULL, 0, NULL}};
static PyModuleDef rxh_def = {PyModuleDef_HEAD_INIT, "rxh", NULL, -1, rxh_methods};
static PyObject* rxh_init(void) { return PyModule_Create(&rxh_def); }

static void py_die(const char* what) {
  if (PyErr_Occurred()) PyErr_Print();
  fflush(NULL);
  TR("X python: %s\n", what);
  flush_out();
  _exit(96);
}
// Once, in the server (or before the run): the interpreter and the modules.
static void py_boot(void) {
  setenv("PYTHONMALLOC", "debug", 1);
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  setenv("PYTHONHASHSEED", "0", 1);
  setenv("PYTHONNOUSERSITE", "1", 1);
  PyImport_AppendInittab(TOSTRING(MODULE_NAME), GEN_NAME(PyInit_, MODULE_NAME));
  PyImport_AppendInittab("rxh", rxh_init);
  Py_InitializeEx(0);
  PyRun_SimpleString("import sys; sys.path.insert(0, '" RXPY_DIR "')");
  if (!PyImport_ImportModule("rxpy") || !PyImport_ImportModule("pickle")) { PyErr_Print(); exit(95); }
}
static PyObject* ops_list(int n, op_t* o) {
  PyObject* l = PyList_New(0);
  for (int i = 0; i < n; i++) PyList_Append(l, Py_BuildValue("(iLL(LLLLLL))", o[i].op, (long long)o[i].gm, (long long)o[i].ge, (long long)o[i].a[0], (long long)o[i].a[1],
    (long long)o[i].a[2], (long long)o[i].a[3], (long long)o[i].a[4], (long long)o[i].a[5]));
  return l;
}
static void py_setup(void) { // what the classes of the generated Python program would contain
  PyObject* m = PyImport_ImportModule("rxpy");
  for (int x = 0; x < nX; x++) {
    PyObject* reads = PyList_New(0);
    for (int i = 0; i < X[x].nread; i++) {
      int k = X[x].read[i].kind, id = X[x].read[i].id;
      PyList_Append(reads, Py_BuildValue("(iiii)", k, id, k == 1 ? A[id].ptype : I[id].ptype, k == 1 ? 0 : I[id].width));
    }
    PyObject* outs = PyDict_New();
    for (int i = 0; i < X[x].neff; i++) PyDict_SetItem(outs, PyLong_FromLong(X[x].eff[i]), Py_BuildValue("(ii)", O[X[x].eff[i]].ptype, O[X[x].eff[i]].width));
    PyObject* r = PyObject_CallMethod(m, "add", "iiiOOOO", x, X[x].reactor, X[x].number, reads, outs, ops_list(X[x].nbody, X[x].body), ops_list(X[x].nhand, X[x].hand));
    if (!r) py_die("add");
  }
  PyObject* acts = PyList_New(0);
  for (int i = 0; i < nA; i++) PyList_Append(acts, PyLong_FromLong(A[i].ptype));
  PyObject_SetAttrString(m, "ACTIONS", acts);
  if (!PyObject_CallMethod(m, "ready", "iL", nR, (long long)state0)) py_die("ready");
  PYSER = load_serializer("rxser");
}
static void py_functions(void) { // called where generated code looks its functions up
  PYB = calloc(nX + 1, sizeof *PYB); PYH = calloc(nX + 1, sizeof *PYH);
  for (int x = 0; x < nX; x++) {
    char n[40]; snprintf(n, sizeof n, "reaction_function_%d", X[x].number);
    PYB[x] = get_python_function("rxpy", "reactor_lst", X[x].reactor, n);
    if (X[x].has_handler) { snprintf(n, sizeof n, "deadline_function_%d", X[x].number); PYH[x] = get_python_function("rxpy", "reactor_lst", X[x].reactor, n); }
  }
}
#define PYW(id, w) ((w) == 1 && (id) % 2 == 0 ? -2 : (w)) // every other port of width 1 is not a multiport
static uint64_t py_exec(int xi, int kind, struct rself* self, int nops, op_t* ops) {
  rreaction_t* x = &X[xi];
  GIL_LOCK();
  PyGILState_STATE g = PyGILState_Ensure();
  PyObject* reads = PyList_New(0); PyObject* outs = PyDict_New(); PyObject* acts = PyDict_New(); PyObject* modes = PyDict_New();
  for (int i = 0; i < x->nread; i++) {
    int id = x->read[i].id; PyObject* c;
    if (x->read[i].kind == 1) {
      prep_action(&A[id]);
      c = convert_C_action_to_py(&A[id].act);
      PyDict_SetItem(acts, PyLong_FromLong(id), c);
    } else {
      int w = PYW(id, I[id].width);
      c = convert_C_port_to_py(w == -2 ? (void*)I[id].port[0] : (void*)I[id].port, w);
    }
    PyList_Append(reads, c); Py_INCREF(c);
  }
  for (int i = 0; i < x->neff; i++) {
    int id = x->eff[i], w = PYW(id, O[id].width);
    PyObject* c = convert_C_port_to_py(w == -2 ? (void*)O[id].ch[0] : (void*)O[id].ch, w);
    PyDict_SetItem(outs, PyLong_FromLong(id), c); Py_INCREF(c);
  }
  for (int k = 0; k < nops; k++) {
    int64_t* a = ops[k].a;
    if (ops[k].op == 7 || ops[k].op == 8 || ops[k].op == 9) {
      PyObject* id = PyLong_FromLong(a[0]);
      if (!PyDict_Contains(acts, id)) { prep_action(&A[a[0]]); PyObject* c = convert_C_action_to_py(&A[a[0]].act); PyDict_SetItem(acts, id, c); Py_INCREF(c); }
    }
#ifdef MODAL_REACTORS
    if (ops[k].op == 12) {
      PyObject* c = convert_C_mode_to_py(&MODE[a[0]], &self->base, a[1] == 1 ? reset_transition : history_transition);
      PyDict_SetItem(modes, Py_BuildValue("(LL)", (long long)a[0], (long long)a[1]), c); Py_INCREF(c);
    }
#endif
  }
  PyObject* r = PyObject_CallObject(kind == 'D' ? PYH[xi] : PYB[xi], Py_BuildValue("(OOOO)", reads, outs, acts, modes));
  if (r == NULL) py_die("a reaction raised an exception");
  uint64_t h = PyLong_AsUnsignedLongLong(r);
  if (PyErr_Occurred()) py_die("result");
  Py_DECREF(r);
  PyGILState_Release(g);
  GIL_UNLOCK();
  return h;
}
static int py_main_(int n, const char** av) {
  PyObject* l = PyList_New(0);
  for (int i = 0; i < n; i++) PyList_Append(l, PyUnicode_FromString(av[i]));
  PyObject* m = PyImport_ImportModule("rxpy");
  PyObject* r = PyObject_CallMethod(m, "main", "O", l);
  if (!r) py_die("main");
  if (Py_FinalizeEx() < 0) py_die("finalize");
  return 0;
}
