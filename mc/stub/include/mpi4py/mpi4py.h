// Stub of the mpi4py C API on top of the simulated MPI.
#ifndef MC_STUB_MPI4PY_H
#define MC_STUB_MPI4PY_H
#include "../mpi.h"
#include <map>

static PyTypeObject* mc_comm_type = NULL;
static inline int import_mpi4py(void) {
    PyObject* m = PyImport_ImportModule("mpi4py.MPI");
    if (!m) return -1;
    PyObject* t = PyObject_GetAttrString(m, "Comm");
    Py_DECREF(m);
    if (!t) return -1;
    mc_comm_type = (PyTypeObject*)t;
    return 0;
}
#define PyMPIComm_Type (*mc_comm_type)
static inline MPI_Comm* PyMPIComm_Get(PyObject* comm) {
    static std::map<int, MPI_Comm> handles;
    PyObject* h = PyObject_GetAttrString(comm, "_mc_handle");
    if (!h) return NULL;
    int v = (int)PyLong_AsLong(h);
    Py_DECREF(h);
    MPI_Comm& slot = handles[v];
    slot = v;
    return &slot;
}
static inline PyObject* PyMPIComm_New(MPI_Comm c) {
    PyObject* f = PyObject_GetAttrString(mcmpi::module(), "_c_wrap");
    if (!f) return NULL;
    PyObject* r = PyObject_CallFunction(f, "i", c);
    Py_DECREF(f);
    return r;
}
#endif
