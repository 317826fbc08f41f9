// Conformance of the MPI simulator: the same programs under Open MPI and under the simulator.  Every rank prints, for each case, the digest
// of the MPI operations that it asked for (operation, peer, count, in order) and of all result bits.  Compiled with -DSIM against sim/mpi.h.
#include "heffte.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#ifdef SIM
#include "mc.h"
#include "mpisim.h"
static size_t ops_at(int me){ return sim::mpi_log()[me].size(); }
static void ops_text(int me, size_t from, std::string &s){ auto const &l = sim::mpi_log()[me]; char b[128]; for(size_t i=from; i<l.size(); i++){ snprintf(b, sizeof b, "%s:%d:%ld ", l[i].op, l[i].peer, l[i].n); s += b; } }
#else
static std::vector<std::string> g_ops;
static void rec(char const *op, int peer, long n){ char b[128]; snprintf(b, sizeof b, "%s:%d:%ld ", op, peer, n); g_ops.push_back(b); }
extern "C" int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c){ rec("MPI_Send", d, n); return PMPI_Send(b, n, t, d, g, c); }
extern "C" int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r){ rec("MPI_Isend", d, n); return PMPI_Isend(b, n, t, d, g, c, r); }
extern "C" int MPI_Irecv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r){ rec("MPI_Irecv", d, n); return PMPI_Irecv(b, n, t, d, g, c, r); }
extern "C" int MPI_Alltoall(const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, MPI_Comm c){ rec("MPI_Alltoall", 0, n); return PMPI_Alltoall(a, n, t, b, m, u, c); }
extern "C" int MPI_Alltoallv(const void *a, const int *x, const int *y, MPI_Datatype t, void *b, const int *z, const int *w, MPI_Datatype u, MPI_Comm c){ rec("MPI_Alltoallv", 0, 0); return PMPI_Alltoallv(a, x, y, t, b, z, w, u, c); }
static size_t ops_at(int){ return g_ops.size(); }
static void ops_text(int, size_t from, std::string &s){ for(size_t i=from; i<g_ops.size(); i++) s += g_ops[i]; }
#endif
using namespace heffte;
typedef unsigned long long u64;
static u64 fnv(void const *p, size_t n, u64 h = 1469598103934665603ull){ for(size_t i=0; i<n; i++) h = (h ^ ((unsigned char const*)p)[i]) * 1099511628211ull; return h; }
template<class V> static u64 bits(V const &v, u64 h){ return fnv(v.data(), v.size() * sizeof(v[0]), h); }
static void grids(int np, std::vector<std::array<int,3>> &g){ for(int a=1; a<=np; a++) for(int b=1; b<=np; b++) for(int c=1; c<=np; c++) if (a * b * c == np) g.push_back({{a, b, c}}); }
static std::vector<box3d<>> cut(box3d<> w, std::array<int,3> g, int rot, std::array<int,3> order){
    auto v = split_world(box3d<>(w.low, w.high, order), g); std::vector<box3d<>> r; for(size_t i=0; i<v.size(); i++) r.push_back(v[(i + rot) % v.size()]); return r; }
template<class X> struct fillv { static X at(size_t i){ return X((double)((i * 37 + 11) % 23) - 11.0); } };
template<class R> struct fillv<std::complex<R>> { static std::complex<R> at(size_t i){ return std::complex<R>(R((i * 37 + 11) % 23) - 11, R((i * 17 + 5) % 19) - 9); } };
template<class X> static std::vector<X> data(size_t n, int me){ std::vector<X> v(n); for(size_t i=0; i<n; i++) v[i] = fillv<X>::at(i + 1000 * me); return v; }
template<class P, class In, class Out> static u64 use(P &p, int me, int batch){
    auto x = data<In>(batch * p.size_inbox(), me); std::vector<Out> y(batch * p.size_outbox()), w(batch * p.size_workspace()); u64 h = 7;
    p.forward(batch, x.data(), y.data(), w.data(), scale::symmetric); h = bits(y, h); p.backward(batch, y.data(), x.data(), w.data(), scale::none); return bits(x, h);
}
static void body(int me, int np, std::string &out){
    std::vector<std::array<int,3>> g; grids(np, g); int n = 0; char b[200];
    box3d<> w({0,0,0}, {15,14,14}); std::array<int,3> O[2] = {{{0,1,2}}, {{2,0,1}}};
    for(size_t i=0; i<g.size(); i++) for(size_t o=0; o<g.size(); o++) for(int alg=0; alg<4; alg++) for(int kind=0; kind<4; kind++) for(int batch=1; batch<3; batch++){
        plan_options po = default_options<backend::stock>(); po.algorithm = alg == 0 ? reshape_algorithm::alltoall : alg == 1 ? reshape_algorithm::alltoallv : alg == 2 ? reshape_algorithm::p2p : reshape_algorithm::p2p_plined;
        po.use_reorder = (n & 1); po.use_pencils = (n >> 1) & 1; if (n % 5 == 4 && np > 1) po.use_num_subranks(np / 2);
        auto in = cut(w, g[i], n % 3, O[(n >> 2) & 1]); u64 h = 0; size_t at = ops_at(me);
        if (kind == 0){ auto ob = cut(w, g[o], n % 2, O[(n >> 3) & 1]); fft3d<backend::stock> p(in[me], ob[me], MPI_COMM_WORLD, po); h = use<decltype(p), std::complex<double>, std::complex<double>>(p, me, batch); }
        else if (kind == 1){ int d = n % 3; auto ob = cut(w.r2c(d), g[o], n % 2, O[(n >> 3) & 1]); fft3d_r2c<backend::stock> p(in[me], ob[me], d, MPI_COMM_WORLD, po); h = use<decltype(p), float, std::complex<float>>(p, me, batch); }
        else if (kind == 2){ auto ob = cut(w, g[o], n % 2, O[(n >> 3) & 1]); po.use_reorder = true; fft3d<backend::stock_cos> p(in[me], ob[me], MPI_COMM_WORLD, po); h = use<decltype(p), double, double>(p, me, batch); }
        else{ auto ob = cut(w, g[o], n % 2, O[(n >> 3) & 1]); auto r = make_reshape3d<backend::stock>(nullptr, in, ob, MPI_COMM_WORLD, po);
            if (r){ auto x = data<double>(batch * in[me].count(), me); std::vector<double> y(batch * ob[me].count()), ws(batch * r->size_workspace()); r->apply(batch, x.data(), y.data(), ws.data()); h = bits(y, 7); } }
        std::string ops; ops_text(me, at, ops);
        snprintf(b, sizeof b, "np=%d case=%d rank=%d ops=%zu:%016llx result=%016llx\n", np, n, me, ops_at(me) - at, fnv(ops.data(), ops.size()), h); out += b; n++;
    }
}
#ifdef SIM
int main(int argc, char **argv){
    int np = atoi(argv[1]), policy = argc > 2 ? atoi(argv[2]) : 0; std::vector<std::string> out(np); sim::log_ops = true;
    std::string e = mc::simulate(np, [&](int me){ body(me, np, out[me]); }, policy);
    if (!e.empty()){ printf("ERROR %s\n", e.c_str()); return 1; }
    for(auto const &s : out) fputs(s.c_str(), stdout);
}
#else
int main(int argc, char **argv){
    MPI_Init(&argc, &argv); int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
    std::string s; body(me, np, s); char f[500]; snprintf(f, sizeof f, "%s.%d", argv[1], me); FILE *o = fopen(f, "w"); fputs(s.c_str(), o); fclose(o); MPI_Finalize();
}
#endif
