/* Environment model of the CPython API, for lowering lambdapic's C sources to
   LLVM IR.  Every function is external: the executor supplies its meaning. */
#ifndef SYM_PYTHON_H
#define SYM_PYTHON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <limits.h>
#include <errno.h>
#include <assert.h>
#include <sys/types.h>
typedef ssize_t Py_ssize_t;
typedef struct _object { Py_ssize_t ob_refcnt; void *ob_type; } PyObject;
typedef struct _typeobject { PyObject ob_base; } PyTypeObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*PyCFunctionWithKeywords)(PyObject *, PyObject *, PyObject *);
typedef void (*PyCapsule_Destructor)(PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct { PyObject ob_base; void *m_init; Py_ssize_t m_index; PyObject *m_copy; } PyModuleDef_Base;
typedef struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size;
  PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT {{1, NULL}, NULL, 0, NULL}
#define PyObject_HEAD PyObject ob_base;
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define PyMODINIT_FUNC PyObject *
extern PyObject SymPy_None, SymPy_True, SymPy_False;
#define Py_None (&SymPy_None)
#define Py_True (&SymPy_True)
#define Py_False (&SymPy_False)
#define Py_RETURN_NONE return Py_None
#define Py_RETURN_TRUE return Py_True
#define Py_RETURN_FALSE return Py_False
#define Py_BEGIN_ALLOW_THREADS { SymPy_gil(0);
#define Py_END_ALLOW_THREADS SymPy_gil(1); }
#define Py_BLOCK_THREADS SymPy_gil(1);
#define Py_UNBLOCK_THREADS SymPy_gil(0);
void SymPy_gil(int);
extern PyObject *PyExc_ValueError, *PyExc_RuntimeError, *PyExc_TypeError, *PyExc_MemoryError, *PyExc_IndexError, *PyExc_KeyError, *PyExc_AttributeError, *PyExc_Exception, *PyExc_OverflowError;
int PyArg_ParseTuple(PyObject *, const char *, ...);
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
PyObject *PyObject_GetAttrString(PyObject *, const char *);
PyObject *PyObject_GetAttr(PyObject *, PyObject *);
int PyObject_SetAttrString(PyObject *, const char *, PyObject *);
int PyObject_HasAttrString(PyObject *, const char *);
int PyObject_IsTrue(PyObject *);
PyObject *PyObject_CallMethod(PyObject *, const char *, const char *, ...);
PyObject *PyObject_CallObject(PyObject *, PyObject *);
PyObject *PyList_GetItem(PyObject *, Py_ssize_t);
PyObject *SymPyList_GET_ITEM(PyObject *, Py_ssize_t);
#define PyList_GET_ITEM(l, i) SymPyList_GET_ITEM((PyObject *)(l), (i))
Py_ssize_t PyList_Size(PyObject *);
#define PyList_GET_SIZE(l) PyList_Size((PyObject *)(l))
PyObject *PyList_New(Py_ssize_t);
int PyList_SetItem(PyObject *, Py_ssize_t, PyObject *);
int PyList_Append(PyObject *, PyObject *);
#define PyList_SET_ITEM(l, i, o) PyList_SetItem((PyObject *)(l), (i), (o))
int PyList_Check(PyObject *);
PyObject *PySequence_GetItem(PyObject *, Py_ssize_t);
Py_ssize_t PySequence_Size(PyObject *);
PyObject *PyTuple_Pack(Py_ssize_t, ...);
PyObject *PyTuple_New(Py_ssize_t);
PyObject *PyTuple_GetItem(PyObject *, Py_ssize_t);
int PyTuple_SetItem(PyObject *, Py_ssize_t, PyObject *);
Py_ssize_t PyTuple_Size(PyObject *);
#define PyTuple_GET_ITEM PyTuple_GetItem
#define PyTuple_SET_ITEM PyTuple_SetItem
#define PyTuple_GET_SIZE PyTuple_Size
PyObject *PyDict_New(void);
int PyDict_SetItemString(PyObject *, const char *, PyObject *);
PyObject *PyDict_GetItemString(PyObject *, const char *);
long PyLong_AsLong(PyObject *);
long long PyLong_AsLongLong(PyObject *);
Py_ssize_t PyLong_AsSsize_t(PyObject *);
PyObject *PyLong_FromLong(long);
PyObject *PyLong_FromLongLong(long long);
PyObject *PyLong_FromSsize_t(Py_ssize_t);
PyObject *PyBool_FromLong(long);
double PyFloat_AsDouble(PyObject *);
PyObject *PyFloat_FromDouble(double);
PyObject *PyUnicode_FromString(const char *);
const char *PyUnicode_AsUTF8(PyObject *);
int PyUnicode_CompareWithASCIIString(PyObject *, const char *);
PyObject *Py_BuildValue(const char *, ...);
void SymPy_incref(PyObject *);
void SymPy_decref(PyObject *);
#define Py_INCREF(o) SymPy_incref((PyObject *)(o))
#define Py_XINCREF(o) SymPy_incref((PyObject *)(o))
#define Py_DECREF(o) SymPy_decref((PyObject *)(o))
#define Py_XDECREF(o) SymPy_decref((PyObject *)(o))
#define Py_IncRef(o) SymPy_incref((PyObject *)(o))
#define Py_DecRef(o) SymPy_decref((PyObject *)(o))
#define Py_CLEAR(o) do { SymPy_decref((PyObject *)(o)); (o) = NULL; } while (0)
PyObject *PyCapsule_New(void *, const char *, PyCapsule_Destructor);
void *PyCapsule_GetPointer(PyObject *, const char *);
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
void PyErr_Clear(void);
PyObject *PyErr_Occurred(void);
PyObject *PyErr_NoMemory(void);
void PyErr_Print(void);
PyObject *PyModule_Create(PyModuleDef *);
int PyModule_AddObject(PyObject *, const char *, PyObject *);
void *PyMem_Malloc(size_t);
void *PyMem_RawMalloc(size_t);
void PyMem_Free(void *);
void PyMem_RawFree(void *);
#endif
