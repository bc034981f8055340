// Coroutines for the simulated ranks: one C stack and one PyThreadState each,
// all on the calling OS thread.  switch_to(i) parks the running coroutine and
// continues coroutine i (-1: the main program).
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <sys/mman.h>
#include <ucontext.h>

#define MAXCO 64
#define STACK (32u << 20)

typedef struct { ucontext_t ctx; PyThreadState* ts; void* stack; PyObject* fn; } Co;
static Co co_tab[MAXCO + 1];   // 0 is the main program
static int cur = 0;

static void go(int to) {
    int from = cur;
    if (to == from) return;
    if (from == 0) co_tab[0].ts = PyThreadState_Get();
    cur = to;
    PyThreadState_Swap(co_tab[to].ts);
    swapcontext(&co_tab[from].ctx, &co_tab[to].ctx);
}

static void entry(void) {
    for (;;) {
        Co* me = &co_tab[cur];
        PyObject* fn = me->fn;
        me->fn = NULL;
        long next = -1;
        if (fn) {
            PyObject* r = PyObject_CallNoArgs(fn);
            Py_DECREF(fn);
            if (r) { next = PyLong_AsLong(r); Py_DECREF(r); }
            if (PyErr_Occurred()) { PyErr_Print(); next = -1; }
        }
        go((int)next + 1);
    }
}

static PyObject* prepare(PyObject* self, PyObject* args) {
    int i; PyObject* fn;
    if (!PyArg_ParseTuple(args, "iO", &i, &fn)) return NULL;
    if (i < 0 || i >= MAXCO) { PyErr_SetString(PyExc_ValueError, "too many ranks"); return NULL; }
    Co* c = &co_tab[i + 1];
    if (!c->stack) {
        c->stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
        if (c->stack == MAP_FAILED) { c->stack = NULL; return PyErr_NoMemory(); }
        mprotect(c->stack, 4096, PROT_NONE);
    }
    if (!c->ts) {
        c->ts = PyThreadState_New(PyInterpreterState_Get());
        getcontext(&c->ctx);
        c->ctx.uc_stack.ss_sp = c->stack;
        c->ctx.uc_stack.ss_size = STACK;
        c->ctx.uc_link = NULL;
        makecontext(&c->ctx, entry, 0);
    }
    Py_XDECREF(c->fn);
    Py_INCREF(fn);
    c->fn = fn;
    Py_RETURN_NONE;
}

static PyObject* switch_to(PyObject* self, PyObject* arg) {
    long i = PyLong_AsLong(arg);
    if (i == -1 && PyErr_Occurred()) return NULL;
    if (i < -1 || i >= MAXCO || (i >= 0 && !co_tab[i + 1].ts)) { PyErr_SetString(PyExc_ValueError, "no such coroutine"); return NULL; }
    go((int)i + 1);
    Py_RETURN_NONE;
}

// after a fork the interpreter drops every thread state but the current one
static PyObject* reset(PyObject* self, PyObject* noargs) {
    for (int i = 1; i <= MAXCO; ++i) { co_tab[i].ts = NULL; co_tab[i].fn = NULL; }
    cur = 0;
    Py_RETURN_NONE;
}

static PyMethodDef methods[] = {
    {"prepare", prepare, METH_VARARGS, ""}, {"switch_to", switch_to, METH_O, ""}, {"reset", reset, METH_NOARGS, ""}, {NULL}};
static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, "mcco", NULL, -1, methods};
PyMODINIT_FUNC PyInit_mcco(void) { return PyModule_Create(&def); }
