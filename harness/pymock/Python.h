/* Stand-in for the part of the CPython C API that the binding uses; implemented in harness/pyb.c. */
#ifndef VP_PYTHON_H
#define VP_PYTHON_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <limits.h>
typedef long Py_ssize_t;
typedef struct _object { long ob_refcnt; int kind; int slot; } PyObject;
typedef PyObject* (*PyCFunction)(PyObject*, PyObject*);
typedef PyObject* (*PyCFunctionWithKeywords)(PyObject*, PyObject*, PyObject*);
typedef struct PyMethodDef { const char* ml_name; PyCFunction ml_meth; int ml_flags; const char* ml_doc; } PyMethodDef;
typedef struct PyModuleDef_Base { int x; } PyModuleDef_Base;
#define PyModuleDef_HEAD_INIT {0}
typedef struct PyModuleDef {
  PyModuleDef_Base m_base; const char* m_name; const char* m_doc; Py_ssize_t m_size; PyMethodDef* m_methods;
  void* m_slots; void* m_traverse; void* m_clear; void* m_free;
} PyModuleDef;
#define PyMODINIT_FUNC PyObject*
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
PyObject* PyModule_Create(PyModuleDef*);
int PyArg_ParseTupleAndKeywords(PyObject*, PyObject*, const char*, char**, ...);
void PyErr_SetString(PyObject*, const char*);
PyObject* PyErr_Format(PyObject*, const char*, ...);
PyObject* PyErr_NoMemory(void);
PyObject* PyErr_Occurred(void);
PyObject* Py_BuildValue(const char*, ...);
PyObject* vp_tuple_pack(int, ...);
#define PyTuple_Pack vp_tuple_pack
extern PyObject *PyExc_TypeError, *PyExc_RuntimeError, *PyExc_IndexError, *PyExc_ValueError, *PyExc_MemoryError, *PyExc_OverflowError;
extern PyObject vp_none;
#define Py_None (&vp_none)
void vp_incref(PyObject*);
void vp_decref(PyObject*);
#define Py_INCREF(o) vp_incref((PyObject*)(o))
#define Py_DECREF(o) vp_decref((PyObject*)(o))
#define Py_XINCREF(o) do { PyObject* vp_o_ = (PyObject*)(o); if (vp_o_) vp_incref(vp_o_); } while (0)
#define Py_XDECREF(o) do { PyObject* vp_o_ = (PyObject*)(o); if (vp_o_) vp_decref(vp_o_); } while (0)
#define Py_CLEAR(o) do { PyObject* vp_o_ = (PyObject*)(o); (o) = NULL; if (vp_o_) vp_decref(vp_o_); } while (0)
#define Py_RETURN_NONE return vp_incref(Py_None), Py_None
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
#endif
