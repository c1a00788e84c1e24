/* Declarations of the CPython API used to parse the extension modules (types and names only). */
#ifndef DPV_PYTHON_H
#define DPV_PYTHON_H
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
typedef long Py_ssize_t;
typedef struct _object { Py_ssize_t ob_refcnt; } PyObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct { int dummy; } PyModuleDef_Base;
struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods;
                     void *m_slots; void *m_traverse; void *m_clear; void *m_free; };
typedef struct PyModuleDef PyModuleDef;
#define PyModuleDef_HEAD_INIT {0}
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define PyMODINIT_FUNC PyObject *
typedef struct { int dummy; } PyThreadState;
PyObject *PyModule_Create(PyModuleDef *);
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
int PyArg_ParseTuple(PyObject *, const char *, ...);
void Py_XDECREF(void *); void Py_DECREF(void *); void Py_INCREF(void *); void Py_XINCREF(void *); void Py_CLEAR(void *);
extern PyObject *PyExc_ValueError, *PyExc_TypeError, *PyExc_RuntimeError, *PyExc_MemoryError, *PyExc_IndexError;
void PyErr_SetString(PyObject *, const char *); PyObject *PyErr_NoMemory(void); PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_Occurred(void); void PyErr_Clear(void);
PyThreadState *PyEval_SaveThread(void); void PyEval_RestoreThread(PyThreadState *);
#define Py_BEGIN_ALLOW_THREADS { PyThreadState *_save; _save = PyEval_SaveThread();
#define Py_END_ALLOW_THREADS PyEval_RestoreThread(_save); }
PyObject *Py_BuildValue(const char *, ...); PyObject *PyFloat_FromDouble(double); PyObject *PyLong_FromLong(long);
double PyFloat_AsDouble(PyObject *); long PyLong_AsLong(PyObject *);
void *PyMem_Malloc(size_t); void PyMem_Free(void *); void *PyMem_Calloc(size_t, size_t);
extern PyObject *Py_None;
#endif
