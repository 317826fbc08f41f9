// P19: the Fortran modules do what the corresponding C++ calls do.  fdriver.f90 uses the public interface of a generated
// module from Fortran; the wrappers and the modules are the ones of /repo.  One back end per executable (VERIF_FBE).
#include "tx.h"
#include "heap.h"
using namespace hx;
typedef heffte::backend::VERIF_FBE BE;
extern "C" {
#define FX_OBJ(K) void fx_##K##_new(void **h, int kind, int const *b, int dir, int comm, int reorder, int alg, int pencils); \
    void fx_##K##_sizes(void *h, long long *q, double *f); void fx_##K##_release(void *h); void fx_##K##_drop(void *h); void *fx_##K##_alias(void *h);
FX_OBJ(c2c) FX_OBJ(r2c)
#define FX_RUN(N) void N(void *h, int ov, int batch, void const *in, size_t nin, void *out, size_t nout, void *work, size_t nwork, int sc);
FX_RUN(fx_c2c_fwd_rf) FX_RUN(fx_c2c_fwd_cf) FX_RUN(fx_c2c_fwd_rd) FX_RUN(fx_c2c_fwd_cd) FX_RUN(fx_c2c_bwd_rf) FX_RUN(fx_c2c_bwd_cf) FX_RUN(fx_c2c_bwd_rd) FX_RUN(fx_c2c_bwd_cd)
FX_RUN(fx_r2c_fwd_rf) FX_RUN(fx_r2c_fwd_rd) FX_RUN(fx_r2c_bwd_rf) FX_RUN(fx_r2c_bwd_rd)
int fx_scale(int i);
}
typedef void (*run_t)(void*, int, int, void const*, size_t, void*, size_t, void*, size_t, int);
template<bool R2C> struct F;
template<> struct F<false> {
    static void make(void **h, int kind, int const *b, int, int comm, int r, int a, int p){ fx_c2c_new(h, kind, b, 0, comm, r, a, p); }
    static void sizes(void *h, long long *q, double *f){ fx_c2c_sizes(h, q, f); }
    static void release(void *h){ fx_c2c_release(h); }
    static void drop(void *h){ fx_c2c_drop(h); }
    static void *alias(void *h){ return fx_c2c_alias(h); }
    static run_t fwd(float){ return fx_c2c_fwd_rf; } static run_t fwd(double){ return fx_c2c_fwd_rd; } static run_t fwd(std::complex<float>){ return fx_c2c_fwd_cf; } static run_t fwd(std::complex<double>){ return fx_c2c_fwd_cd; }
    static run_t bwd(float){ return fx_c2c_bwd_rf; } static run_t bwd(double){ return fx_c2c_bwd_rd; } static run_t bwd(std::complex<float>){ return fx_c2c_bwd_cf; } static run_t bwd(std::complex<double>){ return fx_c2c_bwd_cd; }
};
template<> struct F<true> {
    static void make(void **h, int kind, int const *b, int d, int comm, int r, int a, int p){ fx_r2c_new(h, kind, b, d, comm, r, a, p); }
    static void sizes(void *h, long long *q, double *f){ fx_r2c_sizes(h, q, f); }
    static void release(void *h){ fx_r2c_release(h); }
    static void drop(void *h){ fx_r2c_drop(h); }
    static void *alias(void *h){ return fx_r2c_alias(h); }
    static run_t fwd(float){ return fx_r2c_fwd_rf; } static run_t fwd(double){ return fx_r2c_fwd_rd; }
    static run_t bwd(float){ return fx_r2c_bwd_rf; } static run_t bwd(double){ return fx_r2c_bwd_rd; }
};
struct Live { int c, g, r; };
static Live live(){ return {sim::live_comms(), sim::live_groups(), sim::live_requests()}; }
static void unchanged(Live a, char const *when){ Live b = live(); HX_REQUIRE(a.c == b.c && a.g == b.g && a.r == b.r, "%s: %d communicators, %d groups, %d requests remain", when, b.c - a.c, b.g - a.g, b.r - a.r); }
static std::string ops_since(int me, size_t at){ std::string s; auto const &l = sim::mpi_log()[me]; for(size_t i=at; i<l.size(); i++) s += fmt("%s:%d:%ld ", l[i].op, l[i].peer, l[i].n); return s; }
// t.sub is the constructor: 0 boxes only, 1 with orders, 2 with options
template<bool R2C> struct Drive {
    typedef typename PlanOf<BE, int, R2C>::type P; typedef F<R2C> X;
    static heffte::plan_options opts(TC const &t){ heffte::plan_options o = heffte::default_options<BE>(); if (t.sub == 2){ o.use_reorder = t.reorder; o.algorithm = ALGS[t.alg]; o.use_pencils = t.pencils; } return o; }
    static P *mk(TC const &t, int me, MPI_Comm comm, std::false_type){ return new P(tobox<int>(t.in[me], ORDERS[t.oi]), tobox<int>(t.out[me], ORDERS[t.oo]), comm, opts(t)); }
    static P *mk(TC const &t, int me, MPI_Comm comm, std::true_type){ return new P(tobox<int>(t.in[me], ORDERS[t.oi]), tobox<int>(t.out[me], ORDERS[t.oo]), t.r2c, comm, opts(t)); }
    static P *make(TC const &t, int me, MPI_Comm comm){ return mk(t, me, comm, std::integral_constant<bool, R2C>()); }
    static void fmake(TC const &t, int me, MPI_Comm comm, void **h){
        int b[18]; B bi = t.in[me], bo = t.out[me]; I3 oi = ORDERS[t.oi], oo = ORDERS[t.oo];
        for(int d=0; d<3; d++){ b[d] = bi.lo[d]; b[3+d] = bi.hi[d]; b[6+d] = oi[d]; b[9+d] = bo.lo[d]; b[12+d] = bo.hi[d]; b[15+d] = oo[d]; }
        X::make(h, t.sub, b, t.r2c, MPI_Comm_c2f(comm), t.reorder, (int)ALGS[t.alg], t.pencils);
    }
    static void queries(void *h, P &p, int me){
        long long q[4]; double f[3]; X::sizes(h, q, f);
        HX_REQUIRE(q[0] == p.size_inbox() && q[1] == p.size_outbox() && q[2] == (long long)p.size_workspace() && q[3] == (long long)p.size_comm_buffers(), "rank %d: sizes %lld %lld %lld %lld from Fortran, %lld %lld %lld %lld from C++", me, q[0], q[1], q[2], q[3], (long long)p.size_inbox(), (long long)p.size_outbox(), (long long)p.size_workspace(), (long long)p.size_comm_buffers());
        for(int s=0; s<3; s++) HX_REQUIRE(f[s] == p.get_scale_factor(SCALES[s]), "rank %d: get_scale_factor %d gives %.17g from Fortran, %.17g from C++", me, s, f[s], p.get_scale_factor(SCALES[s]));
    }
    // one overload; the C++ call is the one of the same form
    template<bool fwd, class IN, class OUT> static void one(void *h, P &p, TC const &t, Ref const &r, double tol, int ov, int s, int me){
        typedef typename std::conditional<scal<IN>::cplx, IN, OUT>::type WK; int batch = t.batch, given = ov % 2 == 0;
        std::string what = fmt("%s %s%d>%s%d overload %d scaling %d", fwd ? "forward" : "backward", scal<IN>::cplx ? "complex" : "real", (int)sizeof(typename scal<IN>::real), scal<OUT>::cplx ? "complex" : "real", (int)sizeof(typename scal<IN>::real), ov, s);
        B bi = fwd ? t.in[me] : t.out[me], bo = fwd ? t.out[me] : t.in[me]; I3 oi = ORDERS[t.sub ? (fwd ? t.oi : t.oo) : 0], oo = ORDERS[t.sub ? (fwd ? t.oo : t.oi) : 0];
        std::vector<Field const*> src = fwd ? r.fin : r.bin, dst = fwd ? r.fout : r.bout; int nb = ov < 4 ? 1 : batch;
        src.resize(nb); dst.resize(nb);
        bool buffered = ov == 2 || ov == 3 || ov == 4 || ov == 5;
        Buf<IN> in = fill<IN>(t.w, bi, oi, src, t.shift); auto snap = in.snapshot();
        Buf<OUT> x(count(bo) * nb, 0x22, t.shift), y(count(bo) * nb, 0x22, t.shift); Buf<WK> work;
        size_t nw = buffered ? p.size_workspace() * nb : 0;
        heffte::scale sc = SCALES[given ? s : 0]; double f = scale_of(r.full, given ? s : 0) * (fwd ? 1 : r.bfac);
        work.init(nw, 0xEE, t.shift);
        int wr = sim::rank(); size_t a0 = sim::mpi_log()[wr].size();
        IN const *ci = in.data(); OUT *cx = x.data(); WK *cw = work.data();
        if constexpr (fwd) switch(ov){ case 0: p.forward(ci, cx, sc); break; case 1: p.forward(ci, cx); break; case 2: p.forward(ci, cx, cw, sc); break; case 3: p.forward(ci, cx, cw); break;
                             case 4: p.forward(nb, ci, cx, cw, sc); break; case 5: p.forward(nb, ci, cx, cw); break; case 6: p.forward(nb, ci, cx, sc); break; default: p.forward(nb, ci, cx); }
        else switch(ov){ case 0: p.backward(ci, cx, sc); break; case 1: p.backward(ci, cx); break; case 2: p.backward(ci, cx, cw, sc); break; case 3: p.backward(ci, cx, cw); break;
                         case 4: p.backward(nb, ci, cx, cw, sc); break; case 5: p.backward(nb, ci, cx, cw); break; case 6: p.backward(nb, ci, cx, sc); break; default: p.backward(nb, ci, cx); }
        std::string lx = ops_since(wr, a0); size_t a1 = sim::mpi_log()[wr].size();
        work.init(nw, 0xEE, t.shift);
        run_t run; if constexpr (fwd) run = X::fwd(IN()); else run = X::bwd(OUT());
        run(h, ov, nb, ci, in.size(), y.data(), y.size(), work.data(), nw, fx_scale(s));
        std::string ly = ops_since(wr, a1);
        HX_REQUIRE(in.same(snap), "rank %d: %s changed its input", me, what.c_str());
        HX_REQUIRE(in.guards_ok() && y.guards_ok() && work.guards_ok(), "rank %d: %s wrote outside a buffer", me, what.c_str());
        compare(what.c_str(), t.w, bo, oo, dst, f, tol * f, y);
        for(size_t i=0; i<y.size(); i++) HX_REQUIRE(memcmp(&x[i], &y[i], sizeof(OUT)) == 0, "rank %d: %s differs from the C++ call at %zu: %.9g %.9g instead of %.9g %.9g", me, what.c_str(), i, (double)std::real(y[i]), (double)std::imag(y[i]), (double)std::real(x[i]), (double)std::imag(x[i]));
        HX_REQUIRE(lx == ly, "rank %d: %s performs the MPI operations %s and the C++ call %s", me, what.c_str(), ly.c_str(), lx.c_str());
    }
    template<class T> struct Refs { Ref real, cplx; Refs(TC const &t){ TC u = t; if (u.r2c < 0) u.realin = 1; real = make_ref<BE, T>(u); u.realin = 0; u.r2c = -1; cplx = make_ref<BE, T>(u); } };
    template<class T> static void cplx(void*, P&, TC const&, Refs<T> const&, int, int, int, std::true_type){}
    template<class T> static void cplx(void *h, P &p, TC const &t, Refs<T> const &r, int ov, int s, int me, std::false_type){
        typedef std::complex<T> C;
        one<true, C, C>(h, p, t, r.cplx, r.cplx.ftol, ov, s, me); one<false, C, C>(h, p, t, r.cplx, r.cplx.btol, ov, s, me);
    }
    template<class T> static void transforms(void *h, P &p, TC const &t, Refs<T> const &r, int me, bool all){
        typedef std::complex<T> C;
        for(int ov=0; ov<8; ov++) for(int s=0; s<(ov % 2 ? 1 : 3); s++){
            if (!all && ov % 2 == 0 && (ov / 2 + t.salt) % 3 != s) continue;
            one<true, T, C>(h, p, t, r.real, r.real.ftol, ov, s, me); one<false, C, T>(h, p, t, r.real, r.real.btol, ov, s, me);
            cplx<T>(h, p, t, r, ov, s, me, std::integral_constant<bool, R2C>());
        }
    }
};
template<bool R2C> static std::string mirror(TC const &t, bool all, bool shifted){
    typedef Drive<R2C> D; typename D::template Refs<float> rf(t); typename D::template Refs<double> rd(t);
    int extra = shifted ? 1 : 0, np = t.np();
    return steady([&]{ sim::log_ops = true; std::string e = mc::simulate(np + extra, [&](int world){
        MPI_Comm comm = MPI_COMM_WORLD; int me = world;
        if (extra){ MPI_Comm_split(MPI_COMM_WORLD, world == 0 ? MPI_UNDEFINED : 0, world, &comm); me = world - 1; if (me < 0){ sim::barrier(); sim::barrier(); return; } }
        Live before = live(); sim::barrier();
        {
            size_t a0 = sim::mpi_log()[world].size(); TC u = t; if (t.sub == 0) u.oi = u.oo = 0;
            std::unique_ptr<typename D::P> p(D::make(u, me, comm));
            std::string lx = ops_since(world, a0); size_t a1 = sim::mpi_log()[world].size();
            void *h = nullptr; D::fmake(t, me, comm, &h);
            std::string ly = ops_since(world, a1);
            HX_REQUIRE(lx == ly, "rank %d: the Fortran constructor performs %s instead of %s", me, ly.c_str(), lx.c_str());
            D::queries(h, *p, me);
            D::template transforms<double>(h, *p, t, rd, me, all); D::template transforms<float>(h, *p, t, rf, me, all);
            D::queries(h, *p, me);
            D::X::release(h); D::X::drop(h);
        }
        sim::barrier(); if (extra) MPI_Comm_free(&comm); else unchanged(before, "after the release of the plan");
    }, t.policy); sim::log_ops = false; return e; });
}
// histories of Fortran variables: A, B complex plans, C a real-to-complex plan.  Operations: assign a new plan (also over a live
// one), use, release, and an alias of A that is used and released before A
static std::string sequence(std::vector<int> const &ops, int np, int v){
    World w = v & 1 ? W(4,2,3) : W(2,3,4); auto gs = grids(w, np);
    TC c[3]; for(int i=0; i<3; i++){ c[i].w = w; c[i].in = gs[(v + i) % gs.size()]; c[i].out = gs[(v + 1 + i) % gs.size()]; c[i].sub = (v + i) % 3; c[i].oi = (v * 5 + i) % 6; c[i].oo = (v + 2 * i) % 6; c[i].alg = (v + i) % 4; c[i].pencils = v & 1; c[i].reorder = (v >> 1) & 1; c[i].salt = i; }
    c[2].r2c = v % 3; auto hs = grids(half(w, c[2].r2c), np); c[2].out = hs[v % hs.size()];
    for(int i=0; i<3; i++){ TC f = c[i]; f.sub = -1; if (!feasible(f)) return ""; f.pencils = 1; if (!feasible(f)) return ""; }
    typedef Drive<false> D; typedef Drive<true> E; D::Refs<double> q0(c[0]), q1(c[1]); E::Refs<float> q2(c[2]);
    return steady([&]{ sim::log_ops = true; std::string e = mc::simulate(np, [&](int me){
        Live before = live(); sim::barrier();
        std::unique_ptr<D::P> p[2]; for(int i=0; i<2; i++){ TC u = c[i]; if (!u.sub) u.oi = u.oo = 0; p[i].reset(D::make(u, me, MPI_COMM_WORLD)); }
        TC u2 = c[2]; if (!u2.sub) u2.oi = u2.oo = 0; std::unique_ptr<E::P> p2(E::make(u2, me, MPI_COMM_WORLD));
        void *h[3] = {nullptr, nullptr, nullptr}; bool live_[3] = {false, false, false}; int holds[3] = {0, 1, 2};
        auto use = [&](int k){
            if (k == 2){ E::transforms<float>(h[2], *p2, c[2], q2, me, false); E::queries(h[2], *p2, me); }
            else{ int x = holds[k]; D::transforms<double>(h[k], *p[x], c[x], x ? q1 : q0, me, false); D::queries(h[k], *p[x], me); }
        };
        for(int o : ops){ int k = o % 3;
            if (o < 3){ if (k < 2 && live_[k]) holds[k] = 1 - holds[k]; if (k == 2) E::fmake(c[2], me, MPI_COMM_WORLD, &h[2]); else D::fmake(c[holds[k]], me, MPI_COMM_WORLD, &h[k]); live_[k] = true; }
            else if (o < 6){ if (live_[k]) use(k); }
            else if (o < 9){ if (live_[k]){ if (k == 2) E::X::release(h[2]); else D::X::release(h[k]); live_[k] = false; } }
            else if (live_[k]){ if (k == 2){ void *a = E::X::alias(h[2]); E::transforms<float>(a, *p2, c[2], q2, me, false); E::X::release(a); E::X::drop(a); } else{ void *a = D::X::alias(h[k]); int x = holds[k]; D::transforms<double>(a, *p[x], c[x], x ? q1 : q0, me, false); D::X::release(a); D::X::drop(a); } use(k); }
        }
        for(int k=0; k<3; k++) if (h[k]){ if (live_[k]) use(k); if (k == 2){ E::X::release(h[2]); E::X::drop(h[2]); } else{ D::X::release(h[k]); D::X::drop(h[k]); } }
        p[0].reset(); p[1].reset(); p2.reset();
        sim::barrier(); unchanged(before, "at the end");
    }); sim::log_ops = false; return e; });
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; Rotate rot({6, 6, 4, 3, 4, 3, 4, 5}), rs({3, 24});
    for(int r2c=0; r2c<2; r2c++) for(auto const &l : layouts(r2c ? 2 : 0, th ? std::vector<World>{W(2,3,4), W(4,4,4), W(5,3,2), W(1,4,3), W(6,5,4)} : std::vector<World>{W(2,3,4), W(5,3,2)}, th ? std::vector<int>{1,2,3,4,6,8} : std::vector<int>{1,2,3,4}, th ? 2 : 1))
        for(int ctor=0; ctor<3; ctor++) for(int o=0; o<(ctor == 2 ? 16 : 1); o++) for(int rep=0; rep<(th ? 4 : l.np() == 1 ? 3 : 1); rep++){
            
            TC t = tc_of(l); auto const &q = rot.next(); t.sub = ctor; t.alg = o & 3; t.reorder = (o >> 2) & 1; t.pencils = (o >> 3) & 1; t.oi = q[0]; t.oo = q[1]; t.policy = q[2]; t.salt = q[3]; t.shift = 16 * q[4]; t.batch = 1 + q[5];
            bool all = th || q[6] == 0, sub = q[7] == 0;
            if (ctor == 0) t.oi = t.oo = 0;
            { TC f = t; f.sub = -1; if (ctor < 2){ f.alg = 1; f.reorder = 1; f.pencils = heffte::default_options<BE>().use_pencils; } if (!feasible(f)) continue; }
            c.test([=]{ TC u = t; u.sub = -1; return fmt("%s constructor=%d%s%s ", r2c ? "r2c" : "c2c", ctor, all ? " all" : "", sub ? " sub" : "") + str(u); }, [=]{ return r2c ? mirror<true>(t, all, sub) : mirror<false>(t, all, sub); });
        }
    int depth = std::string(bek<BE>::name()) == "fftw" ? (th ? 5 : 4) : (th ? 4 : 3);   // the wrappers of the back ends are generated from one interface file
    for(int n=1; n<=depth; n++){
        long tot = 1; for(int i=0; i<n; i++) tot *= 12;
        for(long a=0; a<tot; a++){
            std::vector<int> ops; long y = a; int alive = 0, known = 0; bool ok = true;
            for(int i=0; i<n; i++){ int o = y % 12; y /= 12; ops.push_back(o); int b = 1 << o % 3; if (o < 3){ if (o == 1 && !(known & 1)) ok = false; alive |= b; known |= b; } else{ if (!(alive & b)) ok = false; if (o >= 6 && o < 9) alive &= ~b; } }
            if (!ok) continue;
            auto const &q = rs.next(); int np = 1 + q[0], v = q[1];
            c.test([=]{ std::string s = fmt("sequence np=%d v=%d ", np, v); for(int o : ops) s += fmt("%c%d", "nura"[o / 3], o % 3); return s; }, [=]{ return sequence(ops, np, v); });
        }
    }
}
MC_MAIN("P19_fortran", enumerate)
