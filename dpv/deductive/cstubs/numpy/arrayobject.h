/* Declarations of the NumPy C API used to parse the extension modules. */
#ifndef DPV_ARRAYOBJECT_H
#define DPV_ARRAYOBJECT_H
#include <Python.h>
typedef long npy_intp; typedef double npy_double; typedef struct { double real, imag; } npy_cdouble;
typedef struct { PyObject base; int nd; } PyArrayObject;
enum { NPY_BOOL = 0, NPY_INT = 5, NPY_LONG = 7, NPY_FLOAT = 11, NPY_DOUBLE = 12, NPY_CFLOAT = 14, NPY_CDOUBLE = 15 };
enum { NPY_ARRAY_C_CONTIGUOUS = 1, NPY_ARRAY_ALIGNED = 0x100, NPY_ARRAY_WRITEABLE = 0x400, NPY_ARRAY_ENSURECOPY = 0x20,
       NPY_ARRAY_IN_ARRAY = 0x101, NPY_ARRAY_CARRAY = 0x501, NPY_ARRAY_DEFAULT = 0x501, NPY_ARRAY_INOUT_ARRAY = 0x501, NPY_ARRAY_OUT_ARRAY = 0x501 };
PyObject *PyArray_FROM_OTF(PyObject *, int, int);
PyObject *PyArray_SimpleNew(int, npy_intp *, int);
PyObject *PyArray_ZEROS(int, npy_intp *, int, int);
PyObject *PyArray_Return(PyArrayObject *);
void *PyArray_DATA(PyArrayObject *); npy_intp PyArray_DIM(PyArrayObject *, int); npy_intp *PyArray_DIMS(PyArrayObject *);
npy_intp *PyArray_SHAPE(PyArrayObject *); int PyArray_NDIM(PyArrayObject *); npy_intp PyArray_SIZE(PyArrayObject *); void *PyArray_BYTES(PyArrayObject *);
void import_array(void);
#endif
