// P18: /repo/python/heffte.py inside simulated ranks: every rank is a Python thread state on its own fiber.  The
// library is found in this executable; the foreign function interface releases the interpreter lock around every
// call, so ranks change over inside MPI calls while no thread state is attached.
#include <dlfcn.h>
#include <unistd.h>
#include "tx.h"
#include "heap.h"
#include "heffte_c_defines.h"
using namespace hx;
extern "C" {
typedef struct _object PyObject; typedef struct _ts PyThreadState; typedef struct _is PyInterpreterState;
extern int Py_DontWriteBytecodeFlag, Py_IgnoreEnvironmentFlag, Py_HashRandomizationFlag, Py_NoUserSiteDirectory;
void Py_InitializeEx(int); int PyRun_SimpleString(char const*); PyObject *PyImport_ImportModule(char const*); PyObject *PyObject_GetAttrString(PyObject*, char const*);
PyObject *PyObject_CallFunction(PyObject*, char const*, ...); char const *PyUnicode_AsUTF8(PyObject*); void Py_DecRef(PyObject*); void PyErr_Print(void); PyObject *PyErr_GetRaisedException(void); PyObject *PyObject_Repr(PyObject*);
PyThreadState *PyEval_SaveThread(void); void PyEval_RestoreThread(PyThreadState*); PyThreadState *PyThreadState_New(PyInterpreterState*); PyInterpreterState *PyInterpreterState_Get(void);
void PyThreadState_Clear(PyThreadState*); void PyThreadState_DeleteCurrent(void);
// ---- for the Python side
int p18_rank(){ return sim::rank(); }
void p18_barrier(){ sim::barrier(); }
long p18_ops(){ return (long)sim::mpi_log()[sim::rank()].size(); }
long p18_blocks(){ return live_blocks; }
int p18_options_size(){ return (int)sizeof(heffte_plan_options); }
int p18_plan_size(){ return (int)sizeof(heffte_fft_plan); }
int p18_grid(int a, int b, int c, int p, int *g){
    bool ok = false; for(int i=1; i<=p; i++) for(int j=1; i*j<=p; j++) if (p % i == 0 && (p / i) % j == 0 && i <= a && j <= b && p / i / j <= c) ok = true;
    if (!ok) return 0;
    auto r = heffte::proc_setup_min_surface(heffte::box3d<>({0,0,0}, {a-1,b-1,c-1}), p); for(int i=0; i<3; i++) g[i] = r[i]; return 1;
}
// boxes as low, high, order; 9 numbers each
int p18_split(int const *w, int const *g, int *out){
    auto v = heffte::split_world(heffte::box3d<>({w[0],w[1],w[2]}, {w[3],w[4],w[5]}, {w[6],w[7],w[8]}), {g[0],g[1],g[2]});
    for(size_t i=0; i<v.size(); i++) for(int d=0; d<3; d++){ out[9*i+d] = v[i].low[d]; out[9*i+3+d] = v[i].high[d]; out[9*i+6+d] = v[i].order[d]; }
    return (int)v.size();
}
}
static PyObject *f_prepare, *f_rank; static PyInterpreterState *interp; static PyThreadState *main_ts;
static std::string take(PyObject *r){
    if (!r){ PyObject *e = PyErr_GetRaisedException(), *s = e ? PyObject_Repr(e) : nullptr; std::string t = s ? PyUnicode_AsUTF8(s) : "?"; return "python: " + t; }
    std::string t = PyUnicode_AsUTF8(r); Py_DecRef(r); return t;
}
static void start(){
    static bool done = false; if (done) return; done = true;
    Py_DontWriteBytecodeFlag = 1; Py_IgnoreEnvironmentFlag = 1; Py_HashRandomizationFlag = 0; Py_NoUserSiteDirectory = 1;
    Py_InitializeEx(0);
    std::string me = __FILE__; std::string dir = me.substr(0, me.rfind('/')); char const *repo = getenv("VERIF_REPO");
    std::string code = "import sys\nsys.path.insert(0, '" + dir + "')\nimport p18_body\np18_body.start('" + std::string(repo ? repo : "/repo") + "')\n";
    if (PyRun_SimpleString(code.c_str()) != 0){ fprintf(stderr, "python did not start\n"); _exit(3); }
    PyObject *m = PyImport_ImportModule("p18_body"); f_prepare = PyObject_GetAttrString(m, "prepare"); f_rank = PyObject_GetAttrString(m, "rank");
    interp = PyInterpreterState_Get(); main_ts = PyEval_SaveThread();
}
static std::string run(std::string const &key, int np, int policy){
    start();
    PyEval_RestoreThread(main_ts); std::string e = take(PyObject_CallFunction(f_prepare, "si", key.c_str(), np)); main_ts = PyEval_SaveThread();
    if (!e.empty()) return e;
    sim::log_ops = true;
    return mc::simulate(np, [&](int me){
        PyThreadState *ts = PyThreadState_New(interp); PyEval_RestoreThread(ts);
        std::string e = take(PyObject_CallFunction(f_rank, "i", me));
        PyThreadState_Clear(ts); PyThreadState_DeleteCurrent();
        if (!e.empty()) sim::fail(fmt("rank %d: ", me) + e);
    }, policy);
}
static void add(mc::Ctx &c, std::string const &key, int np, int policy){ c.test(key, [=]{ return run(key, np, policy); }); }
static std::string parts(TC const &t){ return fmt("n=%d,%d,%d in=%s out=%s oi=%d oo=%d r2c=%d pol=%d", t.w.n[0], t.w.n[1], t.w.n[2], str(t.in).c_str(), str(t.out).c_str(), t.oi, t.oo, t.r2c, t.policy); }
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; Rotate rot({6, 6, 4}); int k = 0;
    for(int p=1; p<=(th ? 24 : 12); p++) add(c, fmt("proc_setup procs=%d max=%d", p, th ? 9 : 6), 1, 0);
    for(int a=1; a<=(th ? 7 : 5); a++) for(int b=1; b<=(th ? 7 : 5); b++) for(int d=1; d<=(th ? 7 : 5); d++) add(c, fmt("split_world n=%d,%d,%d", a, b, d), 1, 0);
    add(c, "misc", 1, 0);
    std::vector<World> ws = {W(2,3,4), W(4,4,4), W(5,3,2), W(1,4,3)}; if (th){ ws.push_back(W(6,5,4)); ws.push_back(W(3,7,2)); ws.push_back(W(4,1,5)); }
    for(int be=0; be<2; be++) for(int r2c=0; r2c<2; r2c++) for(auto const &l : layouts(r2c ? 2 : 0, ws, th ? std::vector<int>{1,2,3,4,6} : std::vector<int>{1,2,3,4}, th ? 2 : 1)) for(int v=0; v<(th ? 4 : 2); v++){
        TC t = tc_of(l); auto const &q = rot.next(); if (v){ t.oi = q[0]; t.oo = q[1]; } t.policy = q[2]; if (!feasible(t)) continue;
        add(c, fmt("transform be=%d ", be) + parts(t), t.np(), t.policy);
        add(c, fmt("reject be=%d ", be) + parts(t), t.np(), t.policy);
        if (v == 0) add(c, fmt("create be=%d ", be) + parts(t), t.np(), t.policy);
    }
    // two plans in use at once, every order of their creation, use and destruction
    for(auto const &l : layouts(2, {W(2,3,4), W(4,3,2)}, {1,2,3}, 1)) for(int s=0; s<20; s++){ TC t = tc_of(l); t.policy = (k++ + s) % 4; if (!feasible(t)) continue; add(c, fmt("pair s=%d ", s) + parts(t), t.np(), t.policy); }
}
MC_MAIN("P18_python", enumerate)
