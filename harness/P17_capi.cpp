// P17: the C interface does what the corresponding C++ calls do; invalid requests return a code.
#include "tx.h"
#include "heap.h"
#include "capi.h"
using namespace hx;
static capi_table const &A = *capi();
#ifdef Heffte_ENABLE_FFTW
typedef heffte::backend::fftw BE1;
#else
typedef heffte::backend::stock BE1;
#endif
#ifdef VERIF_MKL
typedef heffte::backend::mkl BE2;
#else
typedef heffte::backend::stock BE2;
#endif
typedef heffte::backend::stock BE0;
struct Live { int c, g, r; };
static Live live(){ return {sim::live_comms(), sim::live_groups(), sim::live_requests()}; }
static void unchanged(Live a, char const *when){
    Live b = live();
    HX_REQUIRE(a.c == b.c && a.g == b.g && a.r == b.r, "%s: %d communicators, %d groups, %d requests remain", when, b.c - a.c, b.g - a.g, b.r - a.r);
}
// options of the C interface for an index 0..25: 0 NULL, 1 defaults, then all combinations
static bool c_options(int i, int be, heffte_plan_options &o){
    if (i == 0) return false;
    if (i == 1){ memset(&o, 0x5A, sizeof o); HX_REQUIRE(A.set_default(A.backend[be], &o) == A.success, "set_default_options refuses backend %d", be); return true; }
    i -= 2; int algs[3] = {A.alltoallv, A.p2p_plined, A.p2p}, yes[2] = {1, -7};
    o.algorithm = algs[i % 3]; i /= 3; o.use_reorder = i & 1 ? yes[i & 2 ? 1 : 0] : 0; o.use_pencils = i & 2 ? yes[i & 1] : 0; o.use_gpu_aware = i & 4 ? 1 : 0;
    return true;
}
enum { NOPT = 26 };
template<class BE> heffte::plan_options cpp_options(int i){
    heffte::plan_options o = heffte::default_options<BE>();
    if (i < 2) return o;
    i -= 2; alg algs[3] = {alg::alltoallv, alg::p2p_plined, alg::p2p};
    o.algorithm = algs[i % 3]; i /= 3; o.use_reorder = (i & 1) != 0; o.use_pencils = (i & 2) != 0; o.use_gpu_aware = (i & 4) != 0;
    return o;
}
static std::string ops_since(int me, size_t at){ std::string s; auto const &l = sim::mpi_log()[me]; for(size_t i=at; i<l.size(); i++) s += fmt("%s:%d:%ld ", l[i].op, l[i].peer, l[i].n); return s; }
static int c_scale(int s){ return s == 0 ? A.scale_none : s == 1 ? A.scale_full : s == 2 ? A.scale_symmetric : s == 3 ? 17 : -1; }   // other numbers: no scaling
template<class X> static void identical(char const *what, int me, Buf<X> const &a, Buf<X> const &b){
    HX_REQUIRE(a.size() == b.size(), "rank %d: %s: sizes", me, what);
    for(size_t i=0; i<a.size(); i++) HX_REQUIRE(memcmp(&a[i], &b[i], sizeof(X)) == 0, "rank %d: %s differs from the C++ call at %zu: %.9g %.9g instead of %.9g %.9g", me, what, i, (double)std::real(a[i]), (double)std::imag(a[i]), (double)std::real(b[i]), (double)std::imag(b[i]));
}
// one transform through both interfaces
template<class Plan, class IN, class OUT, class FC, class FX> static void both(char const *what, heffte_plan cp, Plan &p, World const &w, B const &bi, I3 const &oi, B const &bo, I3 const &oo, std::vector<Field const*> const &src, std::vector<Field const*> const &dst, double factor, double tolabs, bool buffered, size_t shift, int me, FC const &fc, FX const &fx){
    Buf<IN> in = fill<IN>(w, bi, oi, src, shift); auto snap = in.snapshot();
    Buf<OUT> x(count(bo), 0x22, shift), y(count(bo), 0x22, shift); typedef typename std::conditional<scal<IN>::cplx, IN, OUT>::type WK; Buf<WK> work;
    if (buffered) work.init(p.size_workspace(), 0xEE, shift);
    int wr = sim::rank(); size_t a0 = sim::mpi_log()[wr].size();
    fx(in.data(), x.data(), work.data());
    std::string lx = ops_since(wr, a0); size_t a1 = sim::mpi_log()[wr].size();
    if (buffered) work.init(p.size_workspace(), 0xEE, shift);
    fc(cp, in.data(), y.data(), work.data());
    std::string ly = ops_since(wr, a1);
    HX_REQUIRE(in.same(snap), "rank %d: %s changed its input", me, what);
    HX_REQUIRE(in.guards_ok() && y.guards_ok() && work.guards_ok(), "rank %d: %s wrote outside a buffer", me, what);
    compare(what, w, bo, oo, dst, factor, tolabs, y);
    identical(what, me, y, x);
    HX_REQUIRE(lx == ly, "rank %d: %s performs the MPI operations %s and the C++ call %s", me, what, ly.c_str(), lx.c_str());
}
// t.alg: option index; t.oi, t.oo: order index, -1 for a null pointer
template<class BE, bool R2C> struct Drive {
    typedef typename PlanOf<BE, int, R2C>::type P;
    static P *make(TC const &t, int me, MPI_Comm comm){ return mk(t, me, comm, std::integral_constant<bool, R2C>()); }
    static P *mk(TC const &t, int me, MPI_Comm comm, std::false_type){ return new P(tobox<int>(t.in[me], ORDERS[std::max(0, t.oi)]), tobox<int>(t.out[me], ORDERS[std::max(0, t.oo)]), comm, cpp_options<BE>(t.alg)); }
    static P *mk(TC const &t, int me, MPI_Comm comm, std::true_type){ return new P(tobox<int>(t.in[me], ORDERS[std::max(0, t.oi)]), tobox<int>(t.out[me], ORDERS[std::max(0, t.oo)]), t.r2c, comm, cpp_options<BE>(t.alg)); }
    static int cmake(TC const &t, int be, int me, MPI_Comm comm, heffte_plan *cp){
        heffte_plan_options o; bool given = c_options(t.alg, be, o);
        // the arrays are gone after the call
        std::vector<int> il(t.in[me].lo.begin(), t.in[me].lo.end()), ih(t.in[me].hi.begin(), t.in[me].hi.end()), ol(t.out[me].lo.begin(), t.out[me].lo.end()), oh(t.out[me].hi.begin(), t.out[me].hi.end());
        int const *oi = t.oi < 0 ? nullptr : ORDERS[t.oi].data(), *oo = t.oo < 0 ? nullptr : ORDERS[t.oo].data();
        return R2C ? A.create_r2c(A.backend[be], il.data(), ih.data(), oi, ol.data(), oh.data(), oo, t.r2c, comm, given ? &o : nullptr, cp)
                   : A.create(A.backend[be], il.data(), ih.data(), oi, ol.data(), oh.data(), oo, comm, given ? &o : nullptr, cp);
    }
    static void queries(heffte_plan cp, P &p, int be, int me){
        HX_REQUIRE(A.size_inbox(cp) == p.size_inbox() && A.size_outbox(cp) == p.size_outbox() && A.size_workspace(cp) == (int)p.size_workspace(), "rank %d: sizes %d %d %d by the C interface, %d %d %d by the C++ plan", me, A.size_inbox(cp), A.size_outbox(cp), A.size_workspace(cp), (int)p.size_inbox(), (int)p.size_outbox(), (int)p.size_workspace());
        HX_REQUIRE(A.get_backend(cp) == A.backend[be] && A.is_r2c(cp) == (R2C ? 1 : 0), "rank %d: get_backend %d is_r2c %d", me, A.get_backend(cp), A.is_r2c(cp));
    }
    template<class T> struct Refs { Ref real, cplx; Refs(TC const &t){ TC u = t; u.batch = 1; if (u.r2c < 0) u.realin = 1; real = make_ref<BE, T>(u); u.realin = 0; u.r2c = -1; cplx = make_ref<BE, T>(u); } };
    template<class T> static void transforms(heffte_plan cp, P &p, TC const &t, Refs<T> const &r, int me, bool all){
        typedef std::complex<T> C; int pr = sizeof(T) == 8; World w = t.w;
        I3 oi = ORDERS[std::max(0, t.oi)], oo = ORDERS[std::max(0, t.oo)]; B bi = t.in[me], bo = t.out[me];
        for(int buf=0; buf<2; buf++) for(int s=0; s<5; s++){
            if (!all && (s + buf + t.salt) % 5 > 1) continue;
            heffte::scale sc = SCALES[s < 3 ? s : 0]; int cs = c_scale(s); double f = scale_of(r.real.full, s < 3 ? s : 0);
            both<P, T, C>(buf ? "forward real buffered" : "forward real", cp, p, w, bi, oi, bo, oo, r.real.fin, r.real.fout, f, r.real.ftol * f, buf, t.shift, me,
                [&](heffte_plan q, T const *i, C *o, C *k){ if (buf) A.fwd_real_buf[pr](q, i, o, k, cs); else A.fwd_real[pr](q, i, o, cs); },
                [&](T const *i, C *o, C *k){ if (buf) p.forward(i, o, k, sc); else p.forward(i, o, sc); });
            both<P, C, T>(buf ? "backward real buffered" : "backward real", cp, p, w, bo, oo, bi, oi, r.real.bin, r.real.bout, f * r.real.bfac, r.real.btol * f, buf, t.shift, me,
                [&](heffte_plan q, C const *i, T *o, C *k){ if (buf) A.bwd_real_buf[pr](q, i, o, k, cs); else A.bwd_real[pr](q, i, o, cs); },
                [&](C const *i, T *o, C *k){ if (buf) p.backward(i, o, k, sc); else p.backward(i, o, sc); });
            cplx<T>(cp, p, t, r, me, buf, s, std::integral_constant<bool, R2C>());
        }
    }
    template<class T> static void cplx(heffte_plan, P&, TC const&, Refs<T> const&, int, int, int, std::true_type){}
    template<class T> static void cplx(heffte_plan cp, P &p, TC const &t, Refs<T> const &r, int me, int buf, int s, std::false_type){
        typedef std::complex<T> C; int pr = sizeof(T) == 8; World w = t.w;
        I3 oi = ORDERS[std::max(0, t.oi)], oo = ORDERS[std::max(0, t.oo)]; B bi = t.in[me], bo = t.out[me];
        heffte::scale sc = SCALES[s < 3 ? s : 0]; int cs = c_scale(s); double f = scale_of(r.cplx.full, s < 3 ? s : 0);
        both<P, C, C>(buf ? "forward complex buffered" : "forward complex", cp, p, w, bi, oi, bo, oo, r.cplx.fin, r.cplx.fout, f, r.cplx.ftol * f, buf, t.shift, me,
            [&](heffte_plan q, C const *i, C *o, C *k){ if (buf) A.fwd_cplx_buf[pr](q, i, o, k, cs); else A.fwd_cplx[pr](q, i, o, cs); },
            [&](C const *i, C *o, C *k){ if (buf) p.forward(i, o, k, sc); else p.forward(i, o, sc); });
        both<P, C, C>(buf ? "backward complex buffered" : "backward complex", cp, p, w, bo, oo, bi, oi, r.cplx.bin, r.cplx.bout, f * r.cplx.bfac, r.cplx.btol * f, buf, t.shift, me,
            [&](heffte_plan q, C const *i, C *o, C *k){ if (buf) A.bwd_cplx_buf[pr](q, i, o, k, cs); else A.bwd_cplx[pr](q, i, o, cs); },
            [&](C const *i, C *o, C *k){ if (buf) p.backward(i, o, k, sc); else p.backward(i, o, sc); });
    }
};
static heffte_plan const JUNK = (heffte_plan)(uintptr_t)0x10;
template<class BE, bool R2C> static std::string mirror(TC const &t, int be, bool all, bool shifted_comm){
    typedef Drive<BE, R2C> D;
    typename D::template Refs<float> rf(t); typename D::template Refs<double> rd(t);
    int extra = shifted_comm ? 1 : 0, np = t.np();
    return steady([&]{ sim::log_ops = true; std::string e = mc::simulate(np + extra, [&](int world){
        MPI_Comm comm = MPI_COMM_WORLD; int me = world;
        if (extra){ MPI_Comm_split(MPI_COMM_WORLD, world == 0 ? MPI_UNDEFINED : 0, world, &comm); me = world - 1; if (me < 0){ sim::barrier(); sim::barrier(); return; } }
        Live before = live(); sim::barrier();
        {
            heffte_plan cp = JUNK; size_t a0 = sim::mpi_log()[world].size();
            std::unique_ptr<typename D::P> p; bool threw = false;
            try{ p.reset(D::make(t, me, comm)); }catch(std::runtime_error &){ threw = true; }
            std::string lx = ops_since(world, a0); size_t a1 = sim::mpi_log()[world].size();
            int rc = 0; std::string ex;
            try{ rc = D::cmake(t, be, me, comm, &cp); }catch(std::exception &x){ ex = x.what(); }
            HX_REQUIRE(ex.empty(), "rank %d: the C interface throws %s", me, ex.c_str());
            std::string ly = ops_since(world, a1);
            if (threw){ HX_REQUIRE(rc == 2 && cp == nullptr, "rank %d: the C++ constructor fails, plan_create returns %d, the plan is %s", me, rc, cp ? "not null" : "null"); }
            else{
                HX_REQUIRE(rc == A.success && cp != JUNK && cp != nullptr, "rank %d: plan_create returns %d", me, rc);
                HX_REQUIRE(lx == ly, "rank %d: plan_create performs %s instead of %s", me, ly.c_str(), lx.c_str());
                D::queries(cp, *p, be, me);
                D::template transforms<double>(cp, *p, t, rd, me, all); D::template transforms<float>(cp, *p, t, rf, me, all); D::queries(cp, *p, be, me);
                int saved = cp->backend_type; cp->backend_type = 97;
                int bad = A.destroy(cp); HX_REQUIRE(bad == 3, "rank %d: destroying a corrupted plan returns %d", me, bad);
                cp->backend_type = saved;
                int d = A.destroy(cp); HX_REQUIRE(d == A.success, "rank %d: plan_destroy returns %d", me, d);
            }
        }
        sim::barrier(); if (extra) MPI_Comm_free(&comm); else unchanged(before, "after the destruction of the plan");
    }, t.policy); sim::log_ops = false; return e; });
}
template<bool R2C> static std::string mirror_be(TC const &t, int be, bool all, bool sub){ return be == 0 ? mirror<BE0, R2C>(t, be, all, sub) : be == 1 ? mirror<BE1, R2C>(t, be, all, sub) : mirror<BE2, R2C>(t, be, all, sub); }

// ---- invalid requests
enum { I_BACKEND, I_ALGORITHM, I_LOST, I_TWICE, I_GROWN, I_COUNT };
static char const *const IN_[] = {"backend", "algorithm", "lost box", "box twice", "box grown"};
static std::string invalid(TC const &t, int be, int what, int value, bool out, bool opt){
    bool r2c = t.r2c >= 0; int np = t.np();
    return steady([&]{ return mc::simulate(np, [&](int me){
        Live before = live(); sim::barrier();
        Part in = t.in, ot = t.out; Part &v = out ? ot : in; int other = (value + 1) % np;
        switch(what){
            case I_LOST: v[value] = {{{0,0,0}}, {{-1,-1,-1}}}; break;
            case I_TWICE: v[value] = v[other]; break;
            case I_GROWN: v[value].hi[value % 3]++; break;
        }
        heffte_plan_options o; memset(&o, 0, sizeof o); bool given = opt; o.use_pencils = 1; o.use_reorder = 1; o.algorithm = A.alltoallv;
        if (what == I_ALGORITHM){ o.algorithm = value; given = true; }
        int backend = what == I_BACKEND ? value : A.backend[be], rc = -1;
        for(int round=0; round<2; round++){
            heffte_plan cp = JUNK;
            try{
                rc = r2c ? A.create_r2c(backend, in[me].lo.data(), in[me].hi.data(), nullptr, ot[me].lo.data(), ot[me].hi.data(), nullptr, t.r2c, MPI_COMM_WORLD, given ? &o : nullptr, &cp)
                         : A.create(backend, in[me].lo.data(), in[me].hi.data(), nullptr, ot[me].lo.data(), ot[me].hi.data(), nullptr, MPI_COMM_WORLD, given ? &o : nullptr, &cp);
            }catch(std::exception &e){ sim::fail(fmt("rank %d: exception through the C interface: %s", me, e.what())); }
            if (what == I_BACKEND) HX_REQUIRE(rc == 1 && (cp == JUNK || cp == nullptr), "rank %d: an invalid backend gives code %d, plan %s", me, rc, cp == JUNK || !cp ? "unset" : "set");
            else HX_REQUIRE(rc == 2 && cp == nullptr, "rank %d: an invalid request gives code %d and the plan is %s", me, rc, cp == JUNK ? "untouched" : cp ? "dangling" : "null");
            if (what == I_BACKEND){
                heffte_plan_options d; memset(&d, 0x77, sizeof d);
                HX_REQUIRE(A.set_default(value, &d) == 1, "rank %d: default options for an invalid backend", me);
            }
        }
        sim::barrier(); unchanged(before, "after the failed creation"); sim::barrier();
        int one = 1, sum = 0; MPI_Allreduce(&one, &sum, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); HX_REQUIRE(sum == np, "the communicator is not usable");
    }); });
}
template<class BE> static std::string defaults(int be, int fillbyte){
    heffte_plan_options o; memset(&o, fillbyte, sizeof o); heffte::plan_options d = heffte::default_options<BE>();
    int rc = A.set_default(A.backend[be], &o); if (rc != A.success) return fmt("set_default_options returns %d", rc);
    if ((o.use_reorder != 0) != d.use_reorder || (o.use_pencils != 0) != d.use_pencils || (o.use_gpu_aware != 0) != d.use_gpu_aware) return fmt("default options: reorder %d pencils %d gpu-aware %d instead of %d %d %d", o.use_reorder, o.use_pencils, o.use_gpu_aware, d.use_reorder, d.use_pencils, d.use_gpu_aware);
    if (d.algorithm != alg::alltoallv || o.algorithm != A.alltoallv) return "default algorithm";
    return "";
}
// ---- histories of several C plans: every sequence of create/use/destroy on three handles of different kinds
static std::string sequence(std::vector<int> const &ops, int np, int be, int v){
    World w = v & 1 ? W(4,2,3) : W(2,3,4); auto gs = grids(w, np); 
    TC c; c.w = w; c.in = gs[v % gs.size()]; c.out = gs[(v + 1) % gs.size()]; c.alg = 0; c.oi = c.oo = -1;
    TC r = c; r.r2c = v % 3; auto hs = grids(half(w, r.r2c), np); r.out = hs[v % hs.size()]; r.alg = 2 + v % 24;
    TC s = c; s.alg = 2 + (v * 5) % 24; s.oi = v % 6; s.oo = (v / 2) % 6;
    if (!feasible(c) || !feasible(r)) return "";
    typedef Drive<BE1, false> D0; typedef Drive<BE0, true> D1; typedef Drive<BE0, false> D2;
    (void)be; int be1 = A.backend[1] >= 0 ? 1 : 0;
    D0::Refs<double> q0(c); D1::Refs<double> q1(r); D2::Refs<float> q2(s);
    return steady([&]{ return mc::simulate(np, [&](int me){
        Live before = live(); sim::barrier();
        heffte_plan h[3] = {nullptr, nullptr, nullptr}; std::unique_ptr<D0::P> p0(D0::make(c, me, MPI_COMM_WORLD)); std::unique_ptr<D1::P> p1(D1::make(r, me, MPI_COMM_WORLD)); std::unique_ptr<D2::P> p2(D2::make(s, me, MPI_COMM_WORLD));
        auto use = [&](int k){
            TC a = k == 0 ? c : k == 1 ? r : s; a.salt = 0;
            if (k == 0){ D0::transforms<double>(h[0], *p0, c, q0, me, false); D0::queries(h[0], *p0, be1, me); }
            if (k == 1){ D1::transforms<double>(h[1], *p1, r, q1, me, false); D1::queries(h[1], *p1, 0, me); }
            if (k == 2){ D2::transforms<float>(h[2], *p2, s, q2, me, false); D2::queries(h[2], *p2, 0, me); }
        };
        for(int o : ops){ int k = o % 3;
            if (o < 3){ if (h[k]) use(k); else{ int rc = k == 0 ? D0::cmake(c, be1, me, MPI_COMM_WORLD, &h[0]) : k == 1 ? D1::cmake(r, 0, me, MPI_COMM_WORLD, &h[1]) : D2::cmake(s, 0, me, MPI_COMM_WORLD, &h[2]); HX_REQUIRE(rc == A.success, "plan_create returns %d", rc); } }
            else if (h[k]){ HX_REQUIRE(A.destroy(h[k]) == A.success, "plan_destroy"); h[k] = nullptr; }
        }
        for(int k=0; k<3; k++) if (h[k]){ use(k); HX_REQUIRE(A.destroy(h[k]) == A.success, "plan_destroy"); }
        p0.reset(); p1.reset(); p2.reset();
        sim::barrier(); unchanged(before, "at the end");
    }); });
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; Rotate rot({7, 7, 4, 5, 4, 4, 5}), rs({3, 24});
    static char const *const BN[] = {"stock", "fftw", "mkl"};
    auto stock_too = [](int be)->bool{ return be == 0 && (A.backend[1] >= 0 || A.backend[2] >= 0); }; // the job with stock alone covers more
    for(int be=0; be<3; be++) if (A.backend[be] >= 0) for(int fb : {0, 0xFF, 0x5A}) c.test([=]{ return fmt("defaults %s fill=%d", BN[be], fb); }, [=]{ return be == 0 ? defaults<BE0>(be, fb) : be == 1 ? defaults<BE1>(be, fb) : defaults<BE2>(be, fb); });
    for(int be=0; be<3; be++) if (A.backend[be] >= 0) for(int r2c=0; r2c<2; r2c++) for(auto const &l : layouts(r2c ? 2 : 0, th ? std::vector<World>{W(2,3,4), W(4,4,4), W(5,3,2), W(1,4,3), W(6,5,4)} : stock_too(be) ? std::vector<World>{W(2,3,4)} : std::vector<World>{W(2,3,4), W(4,4,4), W(5,3,2)}, th ? std::vector<int>{1,2,3,4,6,8} : std::vector<int>{1,2,3,4}, th ? 2 : 1))
        for(int rep=0; rep<(th ? 6 : l.np() == 1 ? 4 : 1); rep++) for(int o=0; o<NOPT; o++){
            auto const &q = rot.next();
            TC t = tc_of(l); t.alg = o; t.oi = q[0] - 1; t.oo = q[1] - 1; t.policy = q[2]; t.salt = q[3]; t.shift = 16 * q[4];
            bool all = th || q[5] == 0, sub = q[6] == 0;
            if (!feasible(t)) continue;
            c.test([=]{ TC u = t; u.alg = 0; u.oi = std::max(0, t.oi); u.oo = std::max(0, t.oo); return fmt("%s%s opt=%d ord=%d,%d%s%s ", BN[be], r2c ? "_r2c" : "", o, t.oi, t.oo, all ? " all" : "", sub ? " sub" : "") + str(u); }, [=]{ return r2c ? mirror_be<true>(t, be, all, sub) : mirror_be<false>(t, be, all, sub); });
        }
    // invalid requests
    std::set<int> valid; for(int b : A.backend) valid.insert(b);
    for(int r2c=0; r2c<2; r2c++) for(auto const &l : layouts(r2c ? 2 : 0, {W(4,3,3), W(2,3,4)}, {1,2,3,4}, th ? 2 : 1)) for(int be=0; be<3; be++) if (A.backend[be] >= 0){
        TC t = tc_of(l); if (!feasible(t)) continue;
        for(int w=0; w<I_COUNT; w++){
            std::vector<int> vals;
            if (w == I_BACKEND){ if (be) continue; for(int b : {-1, 0, 1, 2, 3, 4, 9, 10, 11, 12, 100, -2147483647}) if (!valid.count(b)) vals.push_back(b); }
            else if (w == I_ALGORITHM) for(int a : {-1, 3, 4, 100, -2147483647}) vals.push_back(a);
            else for(int i=0; i<l.np(); i++) vals.push_back(i);
            for(int v : vals) for(int out=0; out<(w >= I_LOST ? 2 : 1); out++) for(int opt=0; opt<(w == I_ALGORITHM ? 1 : 2); opt++){
                Part const &p = out ? t.out : t.in;
                if (w == I_LOST && empty(p[v])) continue;
                if (w == I_TWICE && (l.np() == 1 || empty(p[(v+1)%l.np()]) || count(p[v]) == 0)) continue;
                if (w == I_LOST && l.np() == 1) continue;
                if (w == I_GROWN && empty(p[v])) continue;
                if (w >= I_LOST){ // boxes that span another world are assertions, see P14
                    Part q = p; if (w == I_LOST) q[v] = {{{0,0,0}}, {{-1,-1,-1}}}; if (w == I_TWICE) q[v] = q[(v+1)%l.np()]; if (w == I_GROWN) q[v].hi[v % 3]++;
                    B h = {{{9,9,9}}, {{-9,-9,-9}}}; for(auto const &b : q) if (!empty(b)) for(int d=0; d<3; d++){ h.lo[d] = std::min(h.lo[d], b.lo[d]); h.hi[d] = std::max(h.hi[d], b.hi[d]); }
                    World ww = out && t.r2c >= 0 ? half(t.w, t.r2c) : t.w; B full = whole(ww); if (h.lo != full.lo || h.hi != full.hi) continue;
                }
                c.test([=]{ return fmt("invalid %s %d out=%d opt=%d %s ", IN_[w], v, out, opt, BN[be]) + str(t); }, [=]{ return invalid(t, be, w, v, out, opt); });
            }
        }
    }
    // sequences of create-or-use (0..2) and destroy (3..5)
    int depth = th ? 7 : 5;
    for(int n=1; n<=depth; n++){
        long tot = 1; for(int i=0; i<n; i++) tot *= 6;
        for(long a=0; a<tot; a++){
            std::vector<int> ops; long y = a; int live = 0; bool ok = true;
            for(int i=0; i<n; i++){ int o = y % 6; y /= 6; ops.push_back(o); if (o < 3) live |= 1 << o; else{ if (!(live >> (o - 3) & 1)) ok = false; live &= ~(1 << (o - 3)); } }
            if (!ok) continue;
            auto const &q = rs.next(); int np = 1 + q[0], v = q[1];
            c.test([=]{ std::string s = fmt("sequence np=%d v=%d ", np, v); for(int o : ops) s += "ABCabc"[o]; return s; }, [=]{ return sequence(ops, np, 0, v); });
        }
    }
}
MC_MAIN("P17_capi", enumerate)
