// Generic runner of one distributed transform configuration on all ranks, compared with the reference transform.
#ifndef VERIF_TX_H
#define VERIF_TX_H
#include "hx.h"
namespace hx {
typedef heffte::reshape_algorithm alg;
static const alg ALGS[4] = {alg::alltoall, alg::alltoallv, alg::p2p, alg::p2p_plined};
static char const *const ALGN[4] = {"a2a", "a2av", "p2p", "plined"};
static const heffte::scale SCALES[3] = {heffte::scale::none, heffte::scale::full, heffte::scale::symmetric};

template<class BE> struct bek { enum { fft = 1 }; static Kind f(){ return K_DFT_F; } static Kind b(){ return K_DFT_B; } static char const *name(){ return "?"; } };
#define HX_BEK(be, isfft, kf, kb) template<> struct bek<heffte::backend::be> { enum { fft = isfft }; static Kind f(){ return kf; } static Kind b(){ return kb; } static char const *name(){ return #be; } };
HX_BEK(stock, 1, K_DFT_F, K_DFT_B) HX_BEK(stock_cos, 0, K_COS, K_ICOS) HX_BEK(stock_sin, 0, K_SIN, K_ISIN) HX_BEK(stock_cos1, 0, K_COS1, K_ICOS1)
HX_BEK(fftw, 1, K_DFT_F, K_DFT_B) HX_BEK(fftw_cos, 0, K_COS, K_ICOS) HX_BEK(fftw_sin, 0, K_SIN, K_ISIN) HX_BEK(fftw_cos1, 0, K_COS1, K_ICOS1) HX_BEK(fftw_sin1, 0, K_SIN1, K_ISIN1)
HX_BEK(mkl, 1, K_DFT_F, K_DFT_B) HX_BEK(mkl_cos, 0, K_COS, K_ICOS) HX_BEK(mkl_sin, 0, K_SIN, K_ISIN)

struct TC {
    World w; Part in, out; int oi = 0, oo = 0;      // outer boxes: for real-to-complex `out` partitions half(w, r2c)
    int r2c = -1;
    int alg = 1, reorder = 1, pencils = 1, sub = -1, gpu = 1;
    int batch = 1, salt = 0, sf = 0, sb = 0, mf = 0, mb = 0, policy = 0, realin = 0;
    size_t shift = 0;
    int np() const { return (int)in.size(); }
};
inline std::string str(TC const &t){
    std::string s = fmt("%s in=[%s] out=[%s] o=%d>%d", str(t.w).c_str(), str(t.in).c_str(), str(t.out).c_str(), t.oi, t.oo);
    if (t.r2c >= 0) s += fmt(" r2c=%d", t.r2c);
    s += fmt(" %s%s%s", ALGN[t.alg], t.reorder ? " reord" : "", t.pencils ? "" : " slab");
    if (t.sub > 0) s += fmt(" sub=%d", t.sub);
    if (!t.gpu) s += " nogpu";
    s += fmt(" b=%d salt=%d s=%d%d m=%d%d pol=%d", t.batch, t.salt, t.sf, t.sb, t.mf, t.mb, t.policy);
    if (t.realin) s += " realin";
    if (t.shift) s += fmt(" sh=%d", (int)t.shift);
    return s;
}
template<class BE> heffte::plan_options options(TC const &t){
    heffte::plan_options o = heffte::default_options<BE>();
    o.use_reorder = t.reorder; o.algorithm = ALGS[t.alg]; o.use_pencils = t.pencils; o.use_gpu_aware = t.gpu;
    if (t.sub > 0) o.use_num_subranks(t.sub);
    return o;
}

template<class BE, class index, bool R2C> struct PlanOf { typedef heffte::fft3d<BE, index> type;
    static std::unique_ptr<type> make(TC const &t, int me, MPI_Comm comm = MPI_COMM_WORLD){ return std::unique_ptr<type>(new type(tobox<index>(t.in[me], ORDERS[t.oi]), tobox<index>(t.out[me], ORDERS[t.oo]), comm, options<BE>(t))); } };
template<class BE, class index> struct PlanOf<BE, index, true> { typedef heffte::fft3d_r2c<BE, index> type;
    static std::unique_ptr<type> make(TC const &t, int me, MPI_Comm comm = MPI_COMM_WORLD){ return std::unique_ptr<type>(new type(tobox<index>(t.in[me], ORDERS[t.oi]), tobox<index>(t.out[me], ORDERS[t.oo]), t.r2c, comm, options<BE>(t))); } };

enum Mode { M_PTR_WORK, M_PTR, M_VEC, M_BATCH_WORK, M_BATCH, M_INPLACE_WORK, M_INPLACE, M_INPLACE_BATCH, M_COUNT };
static char const *const MODEN[] = {"ptr+work", "ptr", "vector", "batch+work", "batch", "inplace+work", "inplace", "inplace batch+work"};
inline bool mode_ok(int m, int batch, bool same_type){
    if (!same_type && (m == M_INPLACE_WORK || m == M_INPLACE || m == M_INPLACE_BATCH)) return false;
    if (batch != 1 && m != M_BATCH && m != M_BATCH_WORK && m != M_INPLACE_BATCH) return false;
    return true;
}

template<class Plan, class IN, class OUT> struct Inplace { static bool fwd(Plan&, int, int, Buf<IN> const&, Buf<OUT>&, heffte::scale, size_t, size_t){ return false; } static bool bwd(Plan&, int, int, Buf<IN> const&, Buf<OUT>&, heffte::scale, size_t, size_t){ return false; } };
template<class Plan, class T> struct Inplace<Plan, T, T> {
    template<class F> static bool any(Plan &p, int mode, int batch, Buf<T> const &in, Buf<T> &out, size_t nout, size_t shift, F const &f){
        if (mode != M_INPLACE && mode != M_INPLACE_WORK && mode != M_INPLACE_BATCH) return false;
        Buf<T> b(std::max(in.size(), nout * batch), 0x11, shift), work;
        std::copy(in.data(), in.data() + in.size(), b.data());
        if (mode != M_INPLACE) work.init(p.size_workspace() * batch, 0xEE, shift);
        f(b.data(), work.data());
        HX_REQUIRE(b.guards_ok() && work.guards_ok(), "rank %d: wrote outside a buffer", sim::rank());
        out.init(nout * batch, 0x22, shift);
        std::copy(b.data(), b.data() + nout * batch, out.data());
        return true;
    }
    static bool fwd(Plan &p, int mode, int batch, Buf<T> const &in, Buf<T> &out, heffte::scale s, size_t nout, size_t shift){
        return any(p, mode, batch, in, out, nout, shift, [&](T *d, T *w){ if (mode == M_INPLACE) p.forward(d, d, s); else if (mode == M_INPLACE_WORK) p.forward(d, d, w, s); else p.forward(batch, d, d, w, s); });
    }
    static bool bwd(Plan &p, int mode, int batch, Buf<T> const &in, Buf<T> &out, heffte::scale s, size_t nout, size_t shift){
        return any(p, mode, batch, in, out, nout, shift, [&](T *d, T *w){ if (mode == M_INPLACE) p.backward(d, d, s); else if (mode == M_INPLACE_WORK) p.backward(d, d, w, s); else p.backward(batch, d, d, w, s); });
    }
};
template<class BE, class index, class T> std::vector<T> vec_bwd_real(heffte::fft3d<BE, index> &p, std::vector<std::complex<T>> const &v, heffte::scale s){ return p.backward_real(v, s); }
template<class BE, class index, class T> std::vector<T> vec_bwd_real(heffte::fft3d_r2c<BE, index> &p, std::vector<std::complex<T>> const &v, heffte::scale s){ return p.backward(v, s); }
template<class Plan, class T> std::vector<T> vec_bwd(Plan &p, std::vector<T> const &v, heffte::scale s, T*){ return p.backward(v, s); }
template<class Plan, class T> std::vector<T> vec_bwd(Plan &p, std::vector<std::complex<T>> const &v, heffte::scale s, T*){ return vec_bwd_real(p, v, s); }
// a vector forward call on real input produces the type of the plan's output
template<class Plan, class IN, class OUT> void vec_fwd(Plan &p, std::vector<IN> const &v, heffte::scale s, size_t nout, Buf<OUT> &out, size_t shift){
    std::vector<OUT> r = p.forward(v, s);
    HX_REQUIRE(r.size() == nout, "rank %d: forward returned a vector of size %zu, expected %zu", sim::rank(), r.size(), nout);
    out.init(nout, 0x22, shift); std::copy(r.begin(), r.end(), out.data());
}

template<class OUT, class IN, class Plan>
Buf<OUT> call_fwd(Plan &p, int mode, int batch, Buf<IN> const &in, heffte::scale s, size_t shift = 0){
    size_t nout = p.size_outbox(); Buf<OUT> out; int me = sim::rank();
    if (Inplace<Plan, IN, OUT>::fwd(p, mode, batch, in, out, s, nout, shift)) return out;
    auto snap = in.snapshot();
    if (mode == M_VEC){
        std::vector<IN> v(in.data(), in.data() + in.size());
        vec_fwd<Plan, IN, OUT>(p, v, s, nout, out, shift);
        HX_REQUIRE(v.empty() || memcmp((void const*)v.data(), snap.data(), snap.size()) == 0, "rank %d: forward changed its input vector", me);
        return out;
    }
    out.init(nout * batch, 0x22, shift); Buf<OUT> work;
    if (mode == M_PTR_WORK || mode == M_BATCH_WORK) work.init(p.size_workspace() * batch, 0xEE, shift);
    switch(mode){
        case M_PTR_WORK: p.forward(in.data(), out.data(), work.data(), s); break;
        case M_PTR: p.forward(in.data(), out.data(), s); break;
        case M_BATCH_WORK: p.forward(batch, in.data(), out.data(), work.data(), s); break;
        case M_BATCH: p.forward(batch, in.data(), out.data(), s); break;
        default: sim::fail("bad mode");
    }
    HX_REQUIRE(in.same(snap), "rank %d: forward changed its input", me);
    HX_REQUIRE(in.guards_ok() && out.guards_ok() && work.guards_ok(), "rank %d: forward wrote outside a buffer", me);
    return out;
}
template<class OUT, class IN, class Plan>
Buf<OUT> call_bwd(Plan &p, int mode, int batch, Buf<IN> const &in, heffte::scale s, size_t shift = 0){
    size_t nout = p.size_inbox(); Buf<OUT> out; int me = sim::rank();
    if (Inplace<Plan, IN, OUT>::bwd(p, mode, batch, in, out, s, nout, shift)) return out;
    auto snap = in.snapshot();
    if (mode == M_VEC){
        std::vector<IN> v(in.data(), in.data() + in.size());
        std::vector<OUT> r = vec_bwd(p, v, s, (OUT*)nullptr);
        HX_REQUIRE(r.size() == nout, "rank %d: backward returned a vector of size %zu, expected %zu", me, r.size(), nout);
        HX_REQUIRE(v.empty() || memcmp((void const*)v.data(), snap.data(), snap.size()) == 0, "rank %d: backward changed its input vector", me);
        out.init(nout, 0x22, shift); std::copy(r.begin(), r.end(), out.data());
        return out;
    }
    out.init(nout * batch, 0x22, shift); Buf<IN> work;
    if (mode == M_PTR_WORK || mode == M_BATCH_WORK) work.init(p.size_workspace() * batch, 0xEE, shift);
    switch(mode){
        case M_PTR_WORK: p.backward(in.data(), out.data(), work.data(), s); break;
        case M_PTR: p.backward(in.data(), out.data(), s); break;
        case M_BATCH_WORK: p.backward(batch, in.data(), out.data(), work.data(), s); break;
        case M_BATCH: p.backward(batch, in.data(), out.data(), s); break;
        default: sim::fail("bad mode");
    }
    HX_REQUIRE(in.same(snap), "rank %d: backward changed its input", me);
    HX_REQUIRE(in.guards_ok() && out.guards_ok() && work.guards_ok(), "rank %d: backward wrote outside a buffer", me);
    return out;
}

// number of points of the scaling: product of the logical lengths
template<class BE> double full_scale(World const &w){
    double N = (double)count(w); Kind k = bek<BE>::f();
    if (bek<BE>::fft) return 1.0 / N;
    bool st = std::is_same<BE, heffte::backend::stock_cos>::value || std::is_same<BE, heffte::backend::stock_sin>::value || std::is_same<BE, heffte::backend::stock_cos1>::value
           || std::is_same<BE, heffte::backend::mkl_cos>::value || std::is_same<BE, heffte::backend::mkl_sin>::value;
    double c = st ? 64.0 : 8.0;
    if (k == K_COS1) return 1.0 / (c * (w.n[0]-1.0) * (w.n[1]-1.0) * (w.n[2]-1.0));
    if (k == K_SIN1) return 1.0 / (c * (w.n[0]+1.0) * (w.n[1]+1.0) * (w.n[2]+1.0));
    return 1.0 / (c * N);
}
inline double scale_of(double full, int s){ return s == 0 ? 1.0 : s == 1 ? full : std::sqrt(full); }

// data of a call: global field per batch entry and its expected result (unscaled)
struct Data { std::vector<Field const*> in, out; std::vector<double> mag; double factor = 1; };
inline double magnitude(World const &w, int batch, int salt, bool cplx, Kind k){
    static std::map<std::vector<int>, double> cache;
    std::vector<int> key = {w.n[0], w.n[1], w.n[2], batch, salt, cplx, (int)k};
    auto it = cache.find(key); if (it != cache.end()) return it->second;
    if (cache.size() > 20000) cache.clear();
    return cache[key] = (double)maxabs(reference(w, batch, salt, cplx, k));
}

template<class T> struct setval { static T get(cld const &v){ return (T)v.real(); } };
template<class T> struct setval<std::complex<T>> { static std::complex<T> get(cld const &v){ return {(T)v.real(), (T)v.imag()}; } };

template<class T> Buf<T> fill(World const &w, B const &b, I3 const &o, std::vector<Field const*> const &f, size_t shift){
    size_t n = count(b); Buf<T> r(n * f.size(), 0x44, shift);
    for(size_t j=0; j<f.size(); j++) each(w, b, o, [&](long l, long g, I3 const &){ r[j * n + l] = setval<T>::get((*f[j])[g]); });
    return r;
}
// compares, returns the worst relative deviation
template<class T> void compare(char const *what, World const &w, B const &b, I3 const &o, std::vector<Field const*> const &f, double factor, double tolabs, Buf<T> const &got){
    size_t n = count(b);
    HX_REQUIRE(got.size() == n * f.size(), "rank %d: %s result has %zu entries, expected %zu", sim::rank(), what, got.size(), n * f.size());
    for(size_t j=0; j<f.size(); j++) each(w, b, o, [&](long l, long g, I3 const &c){
        cld e = (*f[j])[g] * (long double)factor;
        cld x = cld(std::real(got[j * n + l]), std::imag(got[j * n + l]));
        if (!scal<T>::cplx) e = cld(e.real(), 0);
        long double d = std::abs(x - e);
        HX_REQUIRE(d <= tolabs, "rank %d: %s wrong at batch %zu point (%d,%d,%d): got (%.9Lg,%.9Lg) expected (%.9Lg,%.9Lg)", sim::rank(), what, j, c[0], c[1], c[2], x.real(), x.imag(), e.real(), e.imag());
    });
}

// can the ranks be arranged in a two-dimensional grid orthogonal to d that gives everyone a point, for all d
inline bool grid_feasible(World const &w, int p){
    for(int d=0; d<3; d++){
        int a = w.n[(d+1)%3], b = w.n[(d+2)%3]; bool ok = false;
        for(int i=1; i<=p; i++) if (p % i == 0 && i <= a && p / i <= b) ok = true;
        if (!ok) return false;
    }
    return true;
}
inline bool feasible(TC const &t){
    int p = t.sub > 0 && t.sub < t.np() ? t.sub : t.np();
    return grid_feasible(t.w, p) && (t.r2c < 0 || grid_feasible(half(t.w, t.r2c), p));
}

// expected fields of one direction
struct Expect { std::vector<Field const*> src, ref; double tol_unit; };

// Fields kept alive for the duration of a case: reference() may drop its cache, so copies are shared per process
struct Pool {
    std::map<std::vector<int>, std::shared_ptr<Field>> m;
    Field const *get(World const &w, int batch, int salt, bool cplx, int kind){
        std::vector<int> key = {w.n[0], w.n[1], w.n[2], batch, salt, (int)cplx, kind};
        auto &p = m[key];
        if (!p) p = std::make_shared<Field>(kind < 0 ? source(w, batch, salt, cplx) : kind >= 100 ? [&]{ Field f = reference(w, batch, salt, cplx, (Kind)(kind - 100)); return f; }() : reference(w, batch, salt, cplx, (Kind)kind));
        return p.get();
    }
    void trim(){ if (m.size() > 4000) m.clear(); }
};
inline Pool &pool(){ static Pool p; return p; }

template<class BE, class T, bool R2C> struct Types { typedef std::complex<T> cin, out; typedef T rin; };

struct Ref {
    std::vector<Field const*> fin, fout, bin, bout;   // forward input/result, backward input/result (both unscaled; bout relative to bfac)
    double ftol, btol, bfac, full;
};
template<class BE, class T>
Ref make_ref(TC const &t){
    Ref r; pool().trim(); Kind kf = bek<BE>::f(), kb = bek<BE>::b();
    bool fft = bek<BE>::fft, realin = t.r2c >= 0 || t.realin || !fft;
    r.full = full_scale<BE>(t.w); r.bfac = 1;
    double mf = 1, mb = 1;
    for(int j=0; j<t.batch; j++){
        r.fin.push_back(pool().get(t.w, j, t.salt, !realin, -1));
        r.fout.push_back(pool().get(t.w, j, t.salt, !realin, kf));
        mf = std::max(mf, magnitude(t.w, j, t.salt, !realin, kf));
        int s2 = t.salt >= 1000 ? t.salt : t.salt + 50;
        if (fft && realin){   // backward input must be the spectrum of a real signal
            r.bin.push_back(pool().get(t.w, j, s2, false, K_DFT_F));
            r.bout.push_back(pool().get(t.w, j, s2, false, -1)); r.bfac = (double)count(t.w);
            mb = std::max(mb, 1.5 * count(t.w));
        }else if (fft){
            r.bin.push_back(pool().get(t.w, j, s2, true, -1));
            r.bout.push_back(pool().get(t.w, j, s2, true, kb));
            mb = std::max(mb, magnitude(t.w, j, s2, true, kb));
        }else{
            r.bin.push_back(pool().get(t.w, j, s2, false, -1));
            r.bout.push_back(pool().get(t.w, j, s2, false, kb)); r.bfac = 1.0 / r.full;
            mb = std::max(mb, magnitude(t.w, j, s2, false, kb) / r.full);
        }
    }
    int k = fft ? 1 : 4;
    r.ftol = tol<T>(t.w, k) * mf; r.btol = tol<T>(t.w, k) * mb;
    return r;
}

struct Shared { int rejected = 0; };

template<class IN, class OUT, class Plan>
void fwd_check(Plan &p, TC const &t, Ref const &r, int me, int mode){
    Buf<IN> in = fill<IN>(t.w, t.in[me], ORDERS[t.oi], r.fin, t.shift);
    Buf<OUT> out = call_fwd<OUT>(p, mode, t.batch, in, SCALES[t.sf], t.shift);
    double s = scale_of(r.full, t.sf);
    compare("forward", t.w, t.out[me], ORDERS[t.oo], r.fout, s, r.ftol * s, out);
}
template<class IN, class OUT, class Plan>
void bwd_check(Plan &p, TC const &t, Ref const &r, int me, int mode){
    Buf<IN> in = fill<IN>(t.w, t.out[me], ORDERS[t.oo], r.bin, t.shift);
    Buf<OUT> out = call_bwd<OUT>(p, mode, t.batch, in, SCALES[t.sb], t.shift);
    double s = scale_of(r.full, t.sb) ;
    compare("backward", t.w, t.in[me], ORDERS[t.oi], r.bout, s * r.bfac, r.btol * s, out);
}
// dispatch on the class of transform
template<class BE, class T, class index, bool R2C> struct Dir;
template<class BE, class T, class index> struct Dir<BE, T, index, true> {
    template<class P> static void fwd(P &p, TC const &t, Ref const &r, int me){ fwd_check<T, std::complex<T>>(p, t, r, me, t.mf); }
    template<class P> static void bwd(P &p, TC const &t, Ref const &r, int me){ bwd_check<std::complex<T>, T>(p, t, r, me, t.mb); }
};
template<class BE, class T, class index, bool FFT> struct DirF {
    template<class P> static void fwd(P &p, TC const &t, Ref const &r, int me){ if (t.realin) fwd_check<T, std::complex<T>>(p, t, r, me, t.mf); else fwd_check<std::complex<T>, std::complex<T>>(p, t, r, me, t.mf); }
    template<class P> static void bwd(P &p, TC const &t, Ref const &r, int me){ if (t.realin) bwd_check<std::complex<T>, T>(p, t, r, me, t.mb); else bwd_check<std::complex<T>, std::complex<T>>(p, t, r, me, t.mb); }
};
template<class BE, class T, class index> struct DirF<BE, T, index, false> {
    template<class P> static void fwd(P &p, TC const &t, Ref const &r, int me){ fwd_check<T, T>(p, t, r, me, t.mf); }
    template<class P> static void bwd(P &p, TC const &t, Ref const &r, int me){ bwd_check<T, T>(p, t, r, me, t.mb); }
};
template<class BE, class T, class index> struct Dir<BE, T, index, false> : DirF<BE, T, index, bek<BE>::fft> {};

template<class Plan> void check_queries(Plan &p, TC const &t, double full, int me){
    HX_REQUIRE(p.size_inbox() == count(t.in[me]) && p.size_outbox() == count(t.out[me]), "rank %d: size_inbox %lld size_outbox %lld, expected %ld %ld", me, (long long)p.size_inbox(), (long long)p.size_outbox(), count(t.in[me]), count(t.out[me]));
    auto bi = p.inbox(), bo = p.outbox();
    for(int d=0; d<3; d++) HX_REQUIRE(bi.low[d] == t.in[me].lo[d] && bi.high[d] == t.in[me].hi[d] && bo.low[d] == t.out[me].lo[d] && bo.high[d] == t.out[me].hi[d]
        && bi.order[d] == ORDERS[t.oi][d] && bo.order[d] == ORDERS[t.oo][d], "rank %d: inbox() or outbox() differ from the boxes of the plan", me);
    double a = p.get_scale_factor(heffte::scale::full), b = p.get_scale_factor(heffte::scale::symmetric);
    HX_REQUIRE(std::abs(a - full) <= 1e-14 * full && std::abs(b - std::sqrt(full)) <= 1e-14 * std::sqrt(full), "rank %d: scale factors %.17g %.17g, expected %.17g %.17g", me, a, b, full, std::sqrt(full));
}

// runs the configuration; body(plan, me) performs the calls.  A rejection for lack of points is accepted only when justified
template<class BE, class index, bool R2C, class F>
std::string with_plan(TC const &t, F const &body, sim::Options const *so = nullptr, mc::Explorer *ex = nullptr){
    int rejected = 0;
    auto rank_body = [&](int me){
        std::unique_ptr<typename PlanOf<BE, index, R2C>::type> plan;
        try{ plan = PlanOf<BE, index, R2C>::make(t, me); }
        catch(std::runtime_error &e){
            HX_REQUIRE(!feasible(t), "rank %d: plan creation failed: %s", me, e.what());
            rejected++; return;
        }
        body(*plan, me);
    };
    std::string e = so ? mc::simulate(*so, rank_body, ex) : mc::simulate(t.np(), rank_body, t.policy);
    if (e.empty() && rejected && rejected != t.np()) e = "only some ranks rejected the plan";
    if (rejected) mc::ctx->count("rejected_too_few_points");
    return e;
}
template<class BE, class T, class index, bool R2C>
std::string run_tc(TC const &t, sim::Options const *so = nullptr, mc::Explorer *ex = nullptr){
    Ref r = make_ref<BE, T>(t);
    return with_plan<BE, index, R2C>(t, [&](typename PlanOf<BE, index, R2C>::type &p, int me){
        check_queries(p, t, r.full, me);
        Dir<BE, T, index, R2C>::fwd(p, t, r, me);
        Dir<BE, T, index, R2C>::bwd(p, t, r, me);
    }, so, ex);
}
template<class BE, class T, class index = int>
void test_tc(mc::Ctx &c, TC const &t){
    bool fl = sizeof(T) == 4, ll = sizeof(index) == 8;
    c.test([=]{ return fmt("%s%s%s ", bek<BE>::name(), fl ? " f" : " d", ll ? " L" : "") + str(t); }, [=]{ return run_tc<BE, T, index, false>(t); });
}
template<class BE, class T, class index = int>
void test_r2c(mc::Ctx &c, TC const &t){
    bool fl = sizeof(T) == 4, ll = sizeof(index) == 8;
    c.test([=]{ return fmt("%s%s%s ", bek<BE>::name(), fl ? " f" : " d", ll ? " L" : "") + str(t); }, [=]{ return run_tc<BE, T, index, true>(t); });
}

// The parameters of the k-th call sequence that are not part of the enumerated configuration (algorithm, schedule policy,
// scaling, batch, alignment, entry points, precision): row k modulo a prime of a pairwise covering array.
inline std::vector<int> vary(TC &t, uint64_t k, bool same_type, int nbatch = 3){
    static std::map<int, Rotate> rot; auto it = rot.find(nbatch); if (it == rot.end()) it = rot.emplace(nbatch, Rotate({4, 4, 3, 3, nbatch, 4, M_COUNT, M_COUNT, 2, 2})).first;
    auto const &r = it->second.rows[(k % it->second.n) % it->second.rows.size()];
    t.alg = r[0]; t.policy = r[1]; t.sf = r[2]; t.sb = r[3]; t.batch = 1 + r[4];
    t.shift = 16 * r[5]; // other alignments: see P08
    t.mf = r[6]; t.mb = r[7];
    while(!mode_ok(t.mf, t.batch, same_type)) t.mf = (t.mf + 1) % M_COUNT;
    while(!mode_ok(t.mb, t.batch, same_type)) t.mb = (t.mb + 3) % M_COUNT;
    return r;
}
}

namespace hx {
// all transform kinds behind one index; f.run<backend, real type, is r2c>()
enum { KIND_COUNT = 11 };
// built with MKL, its back ends stand in for those of FFTW and the stock ones are left out
#ifdef VERIF_MKL
#define HX_FFTW(n) mkl ## n
inline bool kind_enabled(int k){ return k == 0 || k == 2 || k == 4 || k == 6; }
#else
#define HX_FFTW(n) fftw ## n
inline bool kind_enabled(int){ return true; }
#endif
inline char const *kind_name(int k){
#ifdef VERIF_MKL
    static char const *m[] = {"mkl", "", "mkl_r2c", "", "mkl_cos", "", "mkl_sin"}; if (kind_enabled(k)) return m[k];
#endif
    static char const *n[] = {"fftw", "stock", "fftw_r2c", "stock_r2c", "fftw_cos", "stock_cos", "fftw_sin", "stock_sin", "fftw_cos1", "stock_cos1", "fftw_sin1"}; return n[k]; }
inline bool kind_r2c(int k){ return k == 2 || k == 3; }
inline bool kind_r2r(int k){ return k >= 4; }
inline bool kind_same_type(int k){ return !kind_r2c(k); }
inline bool kind_world_ok(int k, World const &w){ return (k != 8 && k != 9) || (w.n[0] > 1 && w.n[1] > 1 && w.n[2] > 1); }
template<class F> std::string dispatch(int kind, bool fl, F &&f){
    namespace be = heffte::backend;
    #define HX_D(k, b, r) case k: return fl ? f.template run<be::b, float, r>() : f.template run<be::b, double, r>();
    switch(kind){
        HX_D(0, HX_FFTW(), false) HX_D(2, HX_FFTW(), true) HX_D(4, HX_FFTW(_cos), false) HX_D(6, HX_FFTW(_sin), false)
#ifndef VERIF_MKL
        HX_D(1, stock, false) HX_D(3, stock, true) HX_D(5, stock_cos, false) HX_D(7, stock_sin, false)
        HX_D(8, fftw_cos1, false) HX_D(9, stock_cos1, false) HX_D(10, fftw_sin1, false)
#endif
    }
    #undef HX_D
    return "bad kind";
}
// types of the data of a transform kind
template<class BE, class T, bool R2C> struct XT { typedef typename std::conditional<bek<BE>::fft && !R2C, std::complex<T>, T>::type in; typedef typename std::conditional<bek<BE>::fft, std::complex<T>, T>::type out; };
// output world of a plan
inline World out_world(TC const &t){ return t.r2c >= 0 ? half(t.w, t.r2c) : t.w; }
inline std::string head(int kind, bool fl){ return std::string(kind_name(kind)) + (fl ? " f " : " d "); }

// ---- layouts: (world, input partition, output partition, reduced direction) for one kind of transform
struct Lay { World w; Part in, out; int r2c = -1; int np() const { return (int)in.size(); } };
inline Part put(Part const &p, int np){    // spread the boxes over np ranks, the rest stays idle
    Part r(np, B{{{0,0,0}}, {{-1,-1,-1}}}); int n = (int)p.size();
    for(int i=0; i<n; i++) r[(size_t)((long)i * np / n)] = p[i];
    return r;
}
// set 0: each grid with three others; set 1: every pair of grids; set 2: every pair of grids with reversed ranks and idle ranks
inline std::vector<Lay> layouts(int kind, std::vector<World> const &ws, std::vector<int> const &nps, int set){
    std::vector<Lay> r;
    for(auto const &w : ws) if (kind_world_ok(kind, w)) for(int np : nps) for(int rd = kind_r2c(kind) ? 0 : -1; rd < (kind_r2c(kind) ? 3 : 0); rd++){
        World wo = rd < 0 ? w : half(w, rd);
        auto gi = grids(w, np), go = grids(wo, np);
        if (set == 2){
            gi = with_perms(gi, false); go = with_perms(go, false);
            if (np > 1) for(auto const &p : grids(w, (np + 1) / 2)) add_unique(gi, put(p, np));
            if (np > 1) for(auto const &p : grids(wo, (np + 1) / 2)) add_unique(go, put(p, np));
        }
        for(size_t i=0; i<gi.size(); i++) for(size_t j=0; j<go.size(); j++){
            // set 0: every grid once as input and once as output, next to itself, its neighbor and the one opposite
            if (set == 0){ size_t d = (j + go.size() - i % go.size()) % go.size(); if (d != 0 && d != 1 && d != go.size() / 2) continue; }
            Lay l; l.w = w; l.in = gi[i]; l.out = go[j]; l.r2c = rd; r.push_back(l);
        }
    }
    return r;
}
inline TC tc_of(Lay const &l){ TC t; t.w = l.w; t.in = l.in; t.out = l.out; t.r2c = l.r2c; return t; }
// Parameters that are not enumerated by the loops of a harness: one row of a pairwise covering array per configuration.
inline std::vector<int> sec_levels(){ return {6, 6, 4, 4, 3, 3, 4, 2, 3, 2, 2, 5}; }
struct Sec {
    Rotate r; Sec() : r(sec_levels()){}
    bool fl = false; int extra = 0;
    void operator()(TC &t){
        auto const &q = r.next();
        t.oi = q[0]; t.oo = q[1]; t.alg = q[2]; t.policy = q[3]; t.sf = q[4]; t.sb = q[5]; t.shift = 16 * q[6]; fl = q[7];
        t.batch = 1 + q[8]; t.reorder = q[9]; t.pencils = q[10]; extra = q[11];
    }
};
// body.template run<BE, T, R2C>() for a test case
template<class F> void test_kind(mc::Ctx &c, int kind, bool fl, std::string const &key, F const &f){
    if (!kind_enabled(kind)) return;
    c.test([&]{ return head(kind, fl) + key; }, [&]{ F g = f; return dispatch(kind, fl, g); });
}
}
#endif
