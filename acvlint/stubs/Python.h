/* Just enough of the C API, as plain functions, for clang to build a syntax tree of the extension. */
#pragma once
#include <stddef.h>
#define PY_MAJOR_VERSION 3
typedef long Py_ssize_t;
struct PyObject { int x; };
struct PyModuleDef { int base; const char *name; const char *doc; Py_ssize_t size; struct PyMethodDef *methods; void *a, *b, *c, *d; };
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
struct PyMethodDef { const char *name; PyCFunction meth; int flags; const char *doc; };
#define PyModuleDef_HEAD_INIT 0
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define PyMODINIT_FUNC extern "C" PyObject *
extern PyObject *PyExc_ValueError, *PyExc_TypeError, *PyExc_RuntimeError, *PyExc_MemoryError, *PyExc_IndexError, *PyExc_Exception;
extern PyObject _Py_NoneStruct;
#define Py_None (&_Py_NoneStruct)
template <class T> void Py_INCREF(T *);
template <class T> void Py_XINCREF(T *);
template <class T> void Py_DECREF(T *);
template <class T> void Py_XDECREF(T *);
template <class T> void Py_CLEAR(T *&);
int PyArg_ParseTuple(PyObject *, const char *, ...);
PyObject *Py_BuildValue(const char *, ...);
PyObject *PyModule_Create(PyModuleDef *);
PyObject *PyFloat_FromDouble(double);
PyObject *PyLong_FromLong(long);
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_NoMemory();
PyObject *PyErr_Occurred();
void PyErr_Clear();
struct PyThreadState;
PyThreadState *PyEval_SaveThread();
void PyEval_RestoreThread(PyThreadState *);
#define Py_BEGIN_ALLOW_THREADS { PyThreadState *_save = PyEval_SaveThread();
#define Py_END_ALLOW_THREADS PyEval_RestoreThread(_save); }
#define Py_RETURN_NONE return Py_BuildValue("")
