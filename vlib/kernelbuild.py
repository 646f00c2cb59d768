"""Builds the compiled engine from /repo's current _kernel.pyx into a scratch directory:

 kernel.ll     LLVM IR produced by Cython + clang from the source (no optimisation besides register promotion)
 kernel_ir.py  that IR translated, instruction by instruction, for the symbolic interpreter (vlib.llsym)
 _kernel.so    the same IR as an importable extension whose OpenMP calls and uniform draws go through hooks
 pvmem.so      numpy allocation tracker (bounds of every array)
"""
import os, re, subprocess, sys, sysconfig, tempfile, json

REPO = os.environ.get("PV_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang"
OPT = "/usr/lib/llvm-18/bin/opt"
PY = "/opt/venv/bin/python"

OMP_H = """#ifndef PV_OMP_H
#define PV_OMP_H
extern int omp_get_thread_num(void);
extern int omp_get_num_threads(void);
extern int omp_get_max_threads(void);
extern void omp_set_num_threads(int);
#endif
"""

STUB_C = r"""
#include <stddef.h>
typedef long long i64;
typedef int (*fork_fn)(void*, int, void**);
fork_fn pv_fork_hook = 0;
int pv_tid = 0;
int omp_get_thread_num(void) { return pv_tid; }
int omp_get_num_threads(void) { return 1; }
int omp_get_max_threads(void) { return 1; }
void omp_set_num_threads(int n) {}
int __kmpc_global_thread_num(void* l) { return 0; }
void __kmpc_push_num_threads(void* l, int g, int n) {}
void __kmpc_barrier(void* l, int g) {}
void __kmpc_critical(void* l, int g, void* k) {}
void __kmpc_end_critical(void* l, int g, void* k) {}
int __kmpc_single(void* l, int g) { return 1; }
void __kmpc_end_single(void* l, int g) {}
int __kmpc_master(void* l, int g) { return 1; }
void __kmpc_end_master(void* l, int g) {}
void __kmpc_flush(void* l) {}
int __kmpc_reduce_nowait(void* l, int g, int n, size_t s, void* d, void* f, void* k) { return 1; }
void __kmpc_end_reduce_nowait(void* l, int g, void* k) {}
int __kmpc_reduce(void* l, int g, int n, size_t s, void* d, void* f, void* k) { return 1; }
void __kmpc_end_reduce(void* l, int g, void* k) {}
static i64 d_next, d_ub, d_st, d_done, d_lb;
/* simulated schedule: order of iterations, the thread of each, number of threads (0: one thread, one chunk) */
i64* pv_perm = 0; int* pv_tids = 0; i64 pv_nperm = 0; int pv_nthreads = 0;
static void d_init(i64 lb, i64 ub, i64 st) { d_next = pv_perm ? 0 : lb; d_lb = lb; d_ub = ub; d_st = st; d_done = 0; }
static int d_take(int* last, i64* lo, i64* up, i64* st) {
  if (pv_perm) {
    while (d_next < pv_nperm && pv_tids[pv_perm[d_next]] != pv_tid) d_next++;
    if (d_next >= pv_nperm) return 0;
    *lo = *up = d_lb + d_st * pv_perm[d_next++]; *st = d_st; if (last) *last = *lo == d_ub; return 1; }
  if (d_done || d_next > d_ub) return 0;
  *lo = d_next; *up = d_ub; *st = d_st; if (last) *last = 1; d_done = 1; return 1; }
void __kmpc_dispatch_init_8(void* l, int g, int s, i64 lb, i64 ub, i64 st, i64 c) { d_init(lb, ub, st); }
int __kmpc_dispatch_next_8(void* l, int g, int* last, i64* lo, i64* up, i64* st) { return d_take(last, lo, up, st); }
void __kmpc_dispatch_init_4(void* l, int g, int s, int lb, int ub, int st, int c) { d_init(lb, ub, st); }
int __kmpc_dispatch_next_4(void* l, int g, int* last, int* lo, int* up, int* st) {
  i64 a, b, c; int r = d_take(last, &a, &b, &c); if (r) { *lo = (int)a; *up = (int)b; *st = (int)c; } return r; }
void __kmpc_dispatch_deinit(void* l, int g) {}
void __kmpc_for_static_init_8(void* l, int g, int s, int* last, i64* lo, i64* up, i64* st, i64 inc, i64 c) { if (last) *last = 1; }
void __kmpc_for_static_init_4(void* l, int g, int s, int* last, int* lo, int* up, int* st, int inc, int c) { if (last) *last = 1; }
void __kmpc_for_static_fini(void* l, int g) {}
typedef void (*mt)(int*, int*, void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,
   void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
#include <stdarg.h>
void __kmpc_fork_call(void* l, int argc, void* fn, ...) {
  void* a[40]; int i, g = 0, b = 0; va_list ap;
  for (i = 0; i < 40; i++) a[i] = 0;
  va_start(ap, fn); for (i = 0; i < argc && i < 40; i++) a[i] = va_arg(ap, void*); va_end(ap);
  if (pv_fork_hook && pv_fork_hook(fn, argc, a)) return;
  for (pv_tid = 0; pv_tid < (pv_nthreads > 1 ? pv_nthreads : 1); pv_tid++) {
  ((mt)fn)(&g, &b, a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15],a[16],a[17],a[18],a[19],
     a[20],a[21],a[22],a[23],a[24],a[25],a[26],a[27],a[28],a[29],a[30],a[31],a[32],a[33],a[34],a[35],a[36],a[37]);
  }
  pv_tid = 0;
}
"""

RNG_C = r"""
typedef double (*rng_fn)(void*);
rng_fn pv_rng_hook = 0;
extern double pv_rng_orig(void*);
double %s(void* r) { return pv_rng_hook ? pv_rng_hook(r) : pv_rng_orig(r); }
"""

MEM_C = r"""
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include <string.h>
#define PAD 512
#define MAXB 65536
static struct { char* p; size_t n; } blk[MAXB];
static int nblk = 0, top = 0;
static void add(char* p, size_t n) { int i; for (i = 0; i < top; i++) if (!blk[i].p) break; if (i == top) { if (top >= MAXB) return; top++; } blk[i].p = p; blk[i].n = n; nblk++; }
static int del(char* p) { int i; for (i = top - 1; i >= 0; i--) if (blk[i].p == p) { blk[i].p = 0; nblk--; while (top && !blk[top-1].p) top--; return 1; } return 0; }
static void* m_malloc(void* c, size_t n) { char* q = malloc(n + 2 * PAD); if (!q) return 0; memset(q, 0xA5, n + 2*PAD); add(q + PAD, n); return q + PAD; }
static void* m_calloc(void* c, size_t k, size_t s) { char* p = m_malloc(c, k * s); if (p) memset(p, 0, k * s); return p; }
static void m_free(void* c, void* p, size_t n) { if (!p) return; if (del(p)) free((char*)p - PAD); }
static void* m_realloc(void* c, void* p, size_t n) { char* q; int i; size_t old = 0; if (!p) return m_malloc(c, n);
  for (i = 0; i < top; i++) if (blk[i].p == p) old = blk[i].n; q = m_malloc(c, n); if (q) memcpy(q, p, old < n ? old : n); m_free(c, p, 0); return q; }
static PyDataMem_Handler h = {"pvmem", 1, {NULL, m_malloc, m_calloc, m_realloc, m_free}};
static PyObject* saved = NULL;
static PyObject* start(PyObject* s, PyObject* a) { PyObject* cap; if (saved) Py_RETURN_NONE; cap = PyCapsule_New(&h, "mem_handler", NULL); if (!cap) return NULL; saved = PyDataMem_SetHandler(cap); Py_DECREF(cap); if (!saved) return NULL; Py_RETURN_NONE; }
static PyObject* find(PyObject* s, PyObject* a) { unsigned long long x; int i; if (!PyArg_ParseTuple(a, "K", &x)) return NULL;
  for (i = 0; i < top; i++) if (blk[i].p && x >= (unsigned long long)blk[i].p && x < (unsigned long long)blk[i].p + (blk[i].n ? blk[i].n : 1)) return Py_BuildValue("KK", (unsigned long long)blk[i].p, (unsigned long long)blk[i].n);
  Py_RETURN_NONE; }
static PyMethodDef M[] = {{"start", start, METH_NOARGS, ""}, {"find", find, METH_VARARGS, ""}, {NULL}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "pvmem", "", -1, M};
PyMODINIT_FUNC PyInit_pvmem(void) { import_array(); return PyModule_Create(&D); }
"""


class BuildError(Exception):
    pass


def sh(cmd, cwd):
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        raise BuildError(" ".join(cmd)[:200] + "\n" + p.stdout[-3000:])
    return p.stdout


def prepare():
    d = tempfile.mkdtemp(prefix="pvkern-")
    build(d)
    return d


def build(d):
    import shutil
    from vlib import llsym_translate
    src = os.path.join(REPO, "pvtrace", "engine", "_kernel.pyx")
    os.makedirs(os.path.join(d, "inc"))
    with open(os.path.join(d, "inc", "omp.h"), "w") as f:
        f.write(OMP_H)
    shutil.copy(src, os.path.join(d, "_kernel.pyx"))
    for f in os.listdir(os.path.dirname(src)):
        if f.endswith((".pxd", ".pxi", ".h")):
            shutil.copy(os.path.join(os.path.dirname(src), f), d)
    sh([PY, "-m", "cython", "-3", "_kernel.pyx", "-o", "_kernel.c", "--module-name", "pvtrace.engine._kernel"], d)
    inc = json.loads(sh([PY, "-c", "import sysconfig,numpy,json;print(json.dumps([sysconfig.get_path('include'),numpy.get_include()]))"], d))
    flags = ["-fPIC", "-Iinc", "-I.", "-w", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"] + ["-I" + i for i in inc]
    sh([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fopenmp", "-S", "-emit-llvm", *flags,
        "_kernel.c", "-o", "k0.ll"], d)
    sh([OPT, "-S", "-passes=sroa,mem2reg", "k0.ll", "-o", "kernel.ll"], d)
    ll = open(os.path.join(d, "kernel.ll")).read()
    info = llsym_translate.translate(ll, os.path.join(d, "kernel_ir.py"))
    rng = info["rng"]
    out = re.sub(r"^define internal ", "define ", ll, flags=re.M)
    out = re.sub(r"^(@\S+ = )internal (?=(unnamed_addr )?(global|constant))", r"\1", out, flags=re.M)
    stub = STUB_C
    if rng:
        out = re.sub(r"^(define [^\n]*)@" + re.escape(rng) + r"\(", r"\1@pv_rng_orig(", out, flags=re.M)
        out += "\ndeclare double @%s(ptr)\n" % rng
        stub += RNG_C % rng
    else:
        stub += "typedef double (*rng_fn)(void*);\nrng_fn pv_rng_hook = 0;\n"
    with open(os.path.join(d, "k1.ll"), "w") as f:
        f.write(out)
    with open(os.path.join(d, "stub.c"), "w") as f:
        f.write(stub)
    with open(os.path.join(d, "pvmem.c"), "w") as f:
        f.write(MEM_C)
    sh([CLANG, "-O1", "-ffp-contract=off", "-fPIC", "-w", "-c", "k1.ll", "-o", "k1.o"], d)
    sh([CLANG, "-O1", "-fPIC", "-w", "-shared", "-Wl,-Bsymbolic", "k1.o", "stub.c", "-o", "_kernel.so", "-lm"], d)
    sh([CLANG, "-O1", *flags, "-shared", "pvmem.c", "-o", "pvmem.so"], d)
    with open(os.path.join(d, "info.json"), "w") as f:
        json.dump(info, f)
    for f in ("_kernel.c", "k0.ll", "k1.ll", "k1.o"):
        os.unlink(os.path.join(d, f))
    return d


if __name__ == "__main__":
    print(prepare())
