#ifndef VP_ARRAYOBJECT_H
#define VP_ARRAYOBJECT_H
#include <numpy/ndarraytypes.h>
#define import_array() vp_import_array()
void vp_import_array(void);
PyObject* PyArray_FROM_OTF(PyObject*, int type, int flags);
PyObject* PyArray_SimpleNew(int nd, npy_intp* dims, int type);
PyObject* PyArray_ZEROS(int nd, npy_intp* dims, int type, int fortran);
int PyArray_NDIM(PyArrayObject*);
npy_intp PyArray_DIM(PyArrayObject*, int);
npy_intp* PyArray_DIMS(PyArrayObject*);
npy_intp PyArray_SIZE(PyArrayObject*);
void* PyArray_DATA(PyArrayObject*);
#define PyArray_SHAPE PyArray_DIMS
#define PyArray_Check(o) (((PyObject*)(o))->kind == 1)
#endif
