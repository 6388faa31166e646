#pragma once
typedef long npy_intp;
struct PyArrayObject : PyObject { int y; };
enum NPY_TYPES { NPY_BOOL, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG, NPY_LONGLONG, NPY_FLOAT, NPY_DOUBLE, NPY_INT32, NPY_INT64, NPY_FLOAT32, NPY_FLOAT64 };
enum NPY_FLAGS { NPY_ARRAY_IN_ARRAY = 1, NPY_ARRAY_OUT_ARRAY = 2, NPY_ARRAY_INOUT_ARRAY = 4, NPY_ARRAY_INOUT_ARRAY2 = 8, NPY_ARRAY_FORCECAST = 16, NPY_ARRAY_C_CONTIGUOUS = 32, NPY_ARRAY_ALIGNED = 64, NPY_ARRAY_WRITEABLE = 128, NPY_ARRAY_DEFAULT = 256, NPY_ARRAY_CARRAY = 512 };
PyObject *PyArray_FROM_OTF(PyObject *, NPY_TYPES, int);
PyObject *PyArray_FROM_OF(PyObject *, int);
npy_intp PyArray_DIM(PyArrayObject *, int);
npy_intp *PyArray_DIMS(PyArrayObject *);
npy_intp PyArray_SIZE(PyArrayObject *);
int PyArray_NDIM(PyArrayObject *);
void *PyArray_DATA(PyArrayObject *);
int PyArray_ResolveWritebackIfCopy(PyArrayObject *);
#define import_array()
