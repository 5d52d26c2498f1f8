#ifndef SYM_NUMPY_H
#define SYM_NUMPY_H
#include <Python.h>
typedef Py_ssize_t npy_intp;
typedef size_t npy_uintp;
typedef unsigned char npy_bool;
typedef double npy_double;
typedef float npy_float;
typedef int64_t npy_int64;
typedef int32_t npy_int32;
typedef int npy_int;
typedef long npy_long;
typedef uint64_t npy_uint64;
typedef uint8_t npy_uint8;
typedef struct { PyObject ob_base; } PyArrayObject;
typedef struct { PyObject ob_base; } PyArray_Descr;
extern PyTypeObject PyArray_Type;
enum { NPY_BOOL=0, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG, NPY_LONGLONG, NPY_ULONGLONG, NPY_FLOAT, NPY_DOUBLE };
#define NPY_INT64 NPY_LONG
#define NPY_INTP NPY_LONG
#define NPY_FLOAT64 NPY_DOUBLE
#define NPY_TRUE 1
#define NPY_FALSE 0
#define NPY_1_7_API_VERSION 7
void *SymArray_DATA(void *);
npy_intp SymArray_DIM(void *, int);
npy_intp *SymArray_DIMS(void *);
int SymArray_NDIM(void *);
npy_intp SymArray_SIZE(void *);
PyObject *SymArray_ZEROS(int, npy_intp *, int, int);
PyObject *SymArray_EMPTY(int, npy_intp *, int, int);
int PyArray_Check(void *);
#define PyArray_DATA(a) SymArray_DATA((void *)(a))
#define PyArray_BYTES(a) ((char *)SymArray_DATA((void *)(a)))
#define PyArray_DIM(a, n) SymArray_DIM((void *)(a), (n))
#define PyArray_DIMS(a) SymArray_DIMS((void *)(a))
#define PyArray_SHAPE(a) SymArray_DIMS((void *)(a))
#define PyArray_NDIM(a) SymArray_NDIM((void *)(a))
#define PyArray_SIZE(a) SymArray_SIZE((void *)(a))
#define PyArray_ZEROS(nd, dims, t, f) SymArray_ZEROS((nd), (dims), (t), (f))
#define PyArray_EMPTY(nd, dims, t, f) SymArray_EMPTY((nd), (dims), (t), (f))
#define PyArray_SimpleNew(nd, dims, t) SymArray_EMPTY((nd), (dims), (t), 0)
#define PyArray_GETPTR1(a, i) ((void *)((char *)SymArray_DATA((void *)(a)) + 8 * (i)))
#define import_array() do { } while (0)
#define import_array1(r) do { } while (0)
#endif
