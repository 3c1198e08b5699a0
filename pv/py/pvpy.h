// reference counting as calls, for the analysis only
#define PY_SSIZE_T_CLEAN
#include <Python.h>
extern "C" { void pv_decref(PyObject*); void pv_xdecref(PyObject*); void pv_incref(PyObject*); }
#undef Py_DECREF
#undef Py_XDECREF
#undef Py_INCREF
#undef Py_XINCREF
#undef Py_CLEAR
#define Py_DECREF(o) pv_decref((PyObject*)(o))
#define Py_XDECREF(o) pv_xdecref((PyObject*)(o))
#define Py_INCREF(o) pv_incref((PyObject*)(o))
#define Py_XINCREF(o) pv_incref((PyObject*)(o))
#define Py_CLEAR(o) do{PyObject* pv_t=(PyObject*)(o);(o)=0;pv_xdecref(pv_t);}while(0)
