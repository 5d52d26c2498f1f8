#ifndef SYM_MPI4PY_H
#define SYM_MPI4PY_H
#include <Python.h>
#include <mpi.h>
extern PyTypeObject PyMPIComm_Type;
MPI_Comm *PyMPIComm_Get(PyObject *);
#define import_mpi4py() (0)
#endif
