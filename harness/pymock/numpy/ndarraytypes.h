#ifndef VP_NDARRAYTYPES_H
#define VP_NDARRAYTYPES_H
#include <Python.h>
#define NPY_1_7_API_VERSION 7
#define NPY_INT 5
#define NPY_INT32 5
#define NPY_DOUBLE 12
#define NPY_FLOAT64 12
#define NPY_ARRAY_C_CONTIGUOUS 0x0001
#define NPY_ARRAY_ALIGNED 0x0100
#define NPY_ARRAY_WRITEABLE 0x0400
#define NPY_ARRAY_FORCECAST 0x0010
#define NPY_ARRAY_ENSURECOPY 0x0020
#define NPY_ARRAY_CARRAY (0x0001 | 0x0100 | 0x0400)
#define NPY_ARRAY_CARRAY_RO (0x0001 | 0x0100)
#define NPY_ARRAY_DEFAULT NPY_ARRAY_CARRAY
#define NPY_ARRAY_IN_ARRAY NPY_ARRAY_CARRAY_RO
typedef long npy_intp;
typedef struct { PyObject ob; int nd; npy_intp dims[4]; int type; void* data; int input; } PyArrayObject;
#endif
