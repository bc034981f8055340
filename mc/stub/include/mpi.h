// Stub MPI used by the model checker: every call is forwarded to the Python
// object mpi4py.MPI (the simulated MPI), which performs the rendezvous between
// the simulated ranks.  All functions must be called with the GIL held, which
// is the case for every call made by the repast4py extension modules.
#ifndef MC_STUB_MPI_H
#define MC_STUB_MPI_H
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <string.h>
#include <stdlib.h>

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Group;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_COMM_NULL (-1)
#define MPI_COMM_WORLD (-2)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_INFO_NULL 0
#define MPI_IN_PLACE ((void*)1)
// datatypes: the value is the size in bytes | kind << 8 (0 int, 1 unsigned, 2 float)
#define MPI_BYTE            (1)
#define MPI_CHAR            (1)
#define MPI_UNSIGNED_CHAR   (1 | (1 << 8))
#define MPI_SHORT           ((int)sizeof(short))
#define MPI_INT             ((int)sizeof(int))
#define MPI_UNSIGNED        ((int)sizeof(int) | (1 << 8))
#define MPI_LONG            ((int)sizeof(long))
#define MPI_UNSIGNED_LONG   ((int)sizeof(long) | (1 << 8))
#define MPI_LONG_LONG       ((int)sizeof(long long))
#define MPI_LONG_LONG_INT   ((int)sizeof(long long))
#define MPI_FLOAT           ((int)sizeof(float) | (2 << 8))
#define MPI_DOUBLE          ((int)sizeof(double) | (2 << 8))
#define MPI_INT64_T         8
#define MPI_INT32_T         4
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 7

namespace mcmpi {
inline size_t size_of(MPI_Datatype t) { return (size_t)(t & 0xff); }
inline PyObject* module() {
    static PyObject* mod = NULL;
    if (!mod) {
        mod = PyImport_ImportModule("mpi4py.MPI");
        if (!mod) { PyErr_Print(); abort(); }
    }
    return mod;
}
// Calls mpi4py.MPI.<fn>(...). Never leaves a Python error pending: the
// simulated MPI raises again at the rank's next Python level operation.
inline PyObject* call(const char* fn, PyObject* args) {
    PyObject *t, *v, *tb;
    PyErr_Fetch(&t, &v, &tb);
    PyObject* res = NULL;
    PyObject* f = PyObject_GetAttrString(module(), fn);
    if (f && args) res = PyObject_Call(f, args, NULL);
    Py_XDECREF(f);
    Py_XDECREF(args);
    if (!res) PyErr_Clear();
    PyErr_Restore(t, v, tb);
    return res;
}
inline int as_int(PyObject* o, int dflt = 0) {
    if (!o) return dflt;
    long v = PyLong_AsLong(o);
    if (v == -1 && PyErr_Occurred()) { PyErr_Clear(); v = dflt; }
    Py_DECREF(o);
    return (int)v;
}
inline PyObject* int_list(const int* v, int n) {
    PyObject* l = PyList_New(n);
    for (int i = 0; i < n; ++i) PyList_SET_ITEM(l, i, PyLong_FromLong(v[i]));
    return l;
}
inline void read_ints(PyObject* seq, int* out, int n) {
    for (int i = 0; i < n; ++i) {
        PyObject* o = seq ? PySequence_GetItem(seq, i) : NULL;
        out[i] = as_int(o);
    }
    PyErr_Clear();
}
inline int copy_bytes(PyObject* b, void* out, size_t n) {
    int ok = b && PyBytes_Check(b) && (size_t)PyBytes_GET_SIZE(b) == n;
    if (ok) memcpy(out, PyBytes_AS_STRING(b), n);
    else memset(out, 0, n);
    Py_XDECREF(b);
    return ok ? MPI_SUCCESS : MPI_ERR_OTHER;
}
}

static inline int MPI_Comm_size(MPI_Comm c, int* size) {
    *size = mcmpi::as_int(mcmpi::call("_c_size", Py_BuildValue("(i)", c)), 1);
    return MPI_SUCCESS;
}
static inline int MPI_Comm_rank(MPI_Comm c, int* rank) {
    *rank = mcmpi::as_int(mcmpi::call("_c_rank", Py_BuildValue("(i)", c)), 0);
    return MPI_SUCCESS;
}
static inline int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
static inline int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) {
    *out = mcmpi::as_int(mcmpi::call("_c_dup", Py_BuildValue("(i)", c)), MPI_COMM_NULL);
    return MPI_SUCCESS;
}
static inline int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
static inline int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
static inline double MPI_Wtime() { return 0.0; }
static inline int MPI_Barrier(MPI_Comm c) {
    Py_XDECREF(mcmpi::call("_c_barrier", Py_BuildValue("(i)", c)));
    return MPI_SUCCESS;
}
static inline int MPI_Abort(MPI_Comm, int code) { abort(); return code; }
static inline int MPI_Dims_create(int nnodes, int ndims, int* dims) {
    PyObject* r = mcmpi::call("_c_dims_create", Py_BuildValue("(iN)", nnodes, mcmpi::int_list(dims, ndims)));
    if (!r) return MPI_ERR_OTHER;
    mcmpi::read_ints(r, dims, ndims);
    Py_DECREF(r);
    return MPI_SUCCESS;
}
static inline int MPI_Cart_create(MPI_Comm c, int ndims, const int* dims, const int* periods, int reorder, MPI_Comm* out) {
    *out = mcmpi::as_int(mcmpi::call("_c_cart_create", Py_BuildValue("(iNNi)", c, mcmpi::int_list(dims, ndims),
        mcmpi::int_list(periods, ndims), reorder)), MPI_COMM_NULL);
    return MPI_SUCCESS;
}
static inline int MPI_Cart_coords(MPI_Comm c, int rank, int maxdims, int* coords) {
    PyObject* r = mcmpi::call("_c_cart_coords", Py_BuildValue("(ii)", c, rank));
    if (!r) return MPI_ERR_OTHER;
    int n = (int)PySequence_Size(r);
    mcmpi::read_ints(r, coords, n < maxdims ? n : maxdims);
    Py_DECREF(r);
    return MPI_SUCCESS;
}
static inline int MPI_Cartdim_get(MPI_Comm c, int* nd) {
    *nd = mcmpi::as_int(mcmpi::call("_c_cartdim", Py_BuildValue("(i)", c)), 0);
    return MPI_SUCCESS;
}
static inline int MPI_Cart_get(MPI_Comm c, int maxdims, int* dims, int* periods, int* coords) {
    PyObject* r = mcmpi::call("_c_cart_get", Py_BuildValue("(i)", c));
    if (!r) return MPI_ERR_OTHER;
    PyObject *d, *p, *x;
    if (PyArg_ParseTuple(r, "OOO", &d, &p, &x)) {
        int n = (int)PySequence_Size(d);
        if (n > maxdims) n = maxdims;
        mcmpi::read_ints(d, dims, n); mcmpi::read_ints(p, periods, n); mcmpi::read_ints(x, coords, n);
    }
    PyErr_Clear();
    Py_DECREF(r);
    return MPI_SUCCESS;
}
static inline int MPI_Cart_rank(MPI_Comm c, const int* coords, int* rank) {
    int nd = 0;
    MPI_Cartdim_get(c, &nd);
    *rank = mcmpi::as_int(mcmpi::call("_c_cart_rank", Py_BuildValue("(iN)", c, mcmpi::int_list(coords, nd))), MPI_PROC_NULL);
    return MPI_SUCCESS;
}
static inline int MPI_Cart_shift(MPI_Comm c, int direction, int disp, int* src, int* dst) {
    PyObject* r = mcmpi::call("_c_cart_shift", Py_BuildValue("(iii)", c, direction, disp));
    int v[2] = {MPI_PROC_NULL, MPI_PROC_NULL};
    if (r) { mcmpi::read_ints(r, v, 2); Py_DECREF(r); }
    *src = v[0]; *dst = v[1];
    return MPI_SUCCESS;
}
static inline int MPI_Allgather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, MPI_Comm c) {
    int size = 1;
    MPI_Comm_size(c, &size);
    size_t each = mcmpi::size_of(rt) * (size_t)rc;
    PyObject* b;
    if (sb == MPI_IN_PLACE) {
        int rank = 0;
        MPI_Comm_rank(c, &rank);
        b = PyBytes_FromStringAndSize((const char*)rb + each * rank, (Py_ssize_t)each);
    } else {
        b = PyBytes_FromStringAndSize((const char*)sb, (Py_ssize_t)(mcmpi::size_of(st) * (size_t)sc));
    }
    return mcmpi::copy_bytes(mcmpi::call("_c_allgather", Py_BuildValue("(iN)", c, b)), rb, each * size);
}
static inline int MPI_Allreduce(const void* sb, void* rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    size_t n = mcmpi::size_of(t) * (size_t)count;
    PyObject* b = PyBytes_FromStringAndSize((const char*)(sb == MPI_IN_PLACE ? rb : sb), (Py_ssize_t)n);
    return mcmpi::copy_bytes(mcmpi::call("_c_allreduce", Py_BuildValue("(iNii)", c, b, t, op)), rb, n);
}
static inline int MPI_Bcast(void* buf, int count, MPI_Datatype t, int root, MPI_Comm c) {
    size_t n = mcmpi::size_of(t) * (size_t)count;
    PyObject* b = PyBytes_FromStringAndSize((const char*)buf, (Py_ssize_t)n);
    return mcmpi::copy_bytes(mcmpi::call("_c_bcast", Py_BuildValue("(iNi)", c, b, root)), buf, n);
}
#endif
