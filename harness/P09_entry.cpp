// P09: all entry points and buffer modes of one plan give the same result.
#include "tx.h"
// complex types of a user, recognised as the documentation describes
struct user_c { float re, im; }; struct user_z { double re, im; };
namespace heffte { template<> struct is_ccomplex<user_c> : std::true_type{}; template<> struct is_zcomplex<user_z> : std::true_type{}; }
using namespace hx;
template<class X> static void same(char const *what, int m0, int m, int me, Buf<X> const &a, Buf<X> const &b, double tolabs){
    HX_REQUIRE(a.size() == b.size(), "rank %d: %s by %s has %zu entries and by %s %zu", me, what, MODEN[m0], a.size(), MODEN[m], b.size());
    for(size_t i=0; i<a.size(); i++) HX_REQUIRE(dist(a[i], b[i]) <= tolabs, "rank %d: %s by %s differs from %s at %zu by %g", me, what, MODEN[m], MODEN[m0], i, dist(a[i], b[i]));
}
template<class BE, class T, bool C2C> struct RealIn { template<class P> static void run(P&, TC const&, int){} };
template<class BE, class T> struct RealIn<BE, T, true> {
    typedef std::complex<T> C;
    // real data through a complex plan: the same as complex data with zero imaginary part
    template<class P> static void run(P &p, TC const &t0, int me){
        TC t = t0; t.realin = 1; Ref r = make_ref<BE, T>(t);
        double sf = scale_of(r.full, t.sf), sb = scale_of(r.full, t.sb);
        Buf<T> in = fill<T>(t.w, t.in[me], ORDERS[t.oi], r.fin, t.shift);
        Buf<C> cin = fill<C>(t.w, t.in[me], ORDERS[t.oi], r.fin, t.shift);
        Buf<C> bin = fill<C>(t.w, t.out[me], ORDERS[t.oo], r.bin, t.shift);
        Buf<C> cref = call_fwd<C>(p, t.batch == 1 ? M_PTR_WORK : M_BATCH_WORK, t.batch, cin, SCALES[t.sf], t.shift);
        Buf<C> bref = call_bwd<C>(p, t.batch == 1 ? M_PTR_WORK : M_BATCH_WORK, t.batch, bin, SCALES[t.sb], t.shift);
        for(int m=0; m<M_COUNT; m++) if (mode_ok(m, t.batch, false)){
            Buf<C> x = call_fwd<C>(p, m, t.batch, in, SCALES[t.sf], t.shift);
            same("forward of real data", M_PTR_WORK, m, me, cref, x, r.ftol * sf);
            Buf<T> y = call_bwd<T>(p, m, t.batch, bin, SCALES[t.sb], t.shift);
            HX_REQUIRE(y.size() == bref.size(), "rank %d: backward size", me);
            for(size_t i=0; i<y.size(); i++) HX_REQUIRE(std::abs(y[i] - bref[i].real()) <= r.btol * sb, "rank %d: backward to real data by %s differs at %zu: %g instead of %g", me, MODEN[m], i, (double)y[i], (double)bref[i].real());
        }
    }
};
struct F {
    TC t;
    template<class BE, class T, bool R2C> std::string run(){
        typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT;
        Ref r = make_ref<BE, T>(t);
        double sf = scale_of(r.full, t.sf), sb = scale_of(r.full, t.sb);
        return with_plan<BE, int, R2C>(t, [&](typename PlanOf<BE, int, R2C>::type &p, int me){
            int m0 = -1; Buf<OUT> fo; Buf<IN> bo;
            Buf<IN> in = fill<IN>(t.w, t.in[me], ORDERS[t.oi], r.fin, t.shift);
            Buf<OUT> bin = fill<OUT>(t.w, t.out[me], ORDERS[t.oo], r.bin, t.shift);
            for(int m=0; m<M_COUNT; m++) if (mode_ok(m, t.batch, std::is_same<IN, OUT>::value)){
                Buf<OUT> x = call_fwd<OUT>(p, m, t.batch, in, SCALES[t.sf], t.shift);
                compare(MODEN[m], t.w, t.out[me], ORDERS[t.oo], r.fout, sf, r.ftol * sf, x);
                Buf<IN> y = call_bwd<IN>(p, m, t.batch, bin, SCALES[t.sb], t.shift);
                compare(MODEN[m], t.w, t.in[me], ORDERS[t.oi], r.bout, sb * r.bfac, r.btol * sb, y);
                if (m0 < 0){ m0 = m; fo = std::move(x); bo = std::move(y); }
                else{ same("forward", m0, m, me, fo, x, r.ftol * sf); same("backward", m0, m, me, bo, y, r.btol * sb); }
            }
            RealIn<BE, T, bek<BE>::fft && !R2C>::run(p, t, me);
        });
    }
};
// every constructor and factory makes the same plan
template<class BE, class index, bool R2C> struct Make {
    typedef heffte::fft3d<BE, index> P; typedef std::unique_ptr<P> U;
    static U make(int v, TC const &t, int me, heffte::plan_options const &o){
        auto a = tobox<index>(t.in[me], ORDERS[t.oi]), b = tobox<index>(t.out[me], ORDERS[t.oo]); MPI_Comm c = MPI_COMM_WORLD;
        #define BX(x) (int)x.low[0], (int)x.low[1], (int)x.low[2], (int)x.high[0], (int)x.high[1], (int)x.high[2]
        #define OX(x) BX(x), x.order[0], x.order[1], x.order[2]
        switch(v){
            case 0: return U(new P((void*)nullptr, a, b, c, o));
            case 1: return U(new P(OX(a), OX(b), c, o.use_reorder, (int)o.algorithm, o.use_pencils));
            case 2: return U(new P(OX(a), OX(b), c));
            case 3: return U(new P(BX(a), BX(b), c));
            case 4: return U(new P(heffte::make_fft3d<BE>(a, b, c, o)));
            case 5: return U(new P(heffte::make_fft3d<BE>(a, b, c)));
            case 6: return U(new P(box3d<index>(a.low, a.high), box3d<index>(b.low, b.high), c));
            case 7: return U(new P((void*)nullptr, a, b, c));
            case 8: return U(new heffte::fft2d<BE, index>(heffte::box2d<index>(std::array<index, 2>{{a.low[0], a.low[1]}}, std::array<index, 2>{{a.high[0], a.high[1]}}), heffte::box2d<index>(std::array<index, 2>{{b.low[0], b.low[1]}}, std::array<index, 2>{{b.high[0], b.high[1]}}), c));
        }
        return U();
    }
};
template<class BE, class index> struct Make<BE, index, true> {
    typedef heffte::fft3d_r2c<BE, index> P; typedef std::unique_ptr<P> U;
    static U make(int v, TC const &t, int me, heffte::plan_options const &o){
        auto a = tobox<index>(t.in[me], ORDERS[t.oi]), b = tobox<index>(t.out[me], ORDERS[t.oo]); MPI_Comm c = MPI_COMM_WORLD; int d = t.r2c;
        switch(v){
            case 0: return U(new P((void*)nullptr, a, b, d, c, o));
            case 1: return U(new P(OX(a), OX(b), d, c, o.use_reorder, (int)o.algorithm, o.use_pencils));
            case 2: return U(new P(OX(a), OX(b), d, c));
            case 3: return U(new P(BX(a), BX(b), d, c));
            case 4: return U(new P(heffte::make_fft3d_r2c<BE>(a, b, d, c, o)));
            case 5: return U(new P(heffte::make_fft3d_r2c<BE>(a, b, d, c)));
            case 6: return U(new P(box3d<index>(a.low, a.high), box3d<index>(b.low, b.high), d, c));
            case 7: return U(new P((void*)nullptr, a, b, d, c));
            case 8: return U(new heffte::fft2d_r2c<BE, index>(heffte::box2d<index>(std::array<index, 2>{{a.low[0], a.low[1]}}, std::array<index, 2>{{a.high[0], a.high[1]}}), heffte::box2d<index>(std::array<index, 2>{{b.low[0], b.low[1]}}, std::array<index, 2>{{b.high[0], b.high[1]}}), d, c));
        }
        return U();
    }
};
static char const *const CTOR[] = {"stream and options", "integers with orders and options", "integers with orders", "integers", "factory with options", "factory", "boxes without order", "stream", "2D boxes"};
struct FC {
    TC t; bool L;
    template<class BE, class T, bool R2C> std::string run(){ return L ? go<BE, T, R2C, long long>() : go<BE, T, R2C, int>(); }
    template<class BE, class T, bool R2C, class index> std::string go(){
        typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT;
        Ref r = make_ref<BE, T>(t); double sf = scale_of(r.full, t.sf), sb = scale_of(r.full, t.sb);
        return with_plan<BE, index, R2C>(t, [&](typename PlanOf<BE, index, R2C>::type &p, int me){
            Buf<IN> in = fill<IN>(t.w, t.in[me], ORDERS[t.oi], r.fin, t.shift);
            Buf<OUT> bin = fill<OUT>(t.w, t.out[me], ORDERS[t.oo], r.bin, t.shift);
            Buf<OUT> x = call_fwd<OUT>(p, t.mf, t.batch, in, SCALES[t.sf], t.shift); Buf<IN> y = call_bwd<IN>(p, t.mb, t.batch, bin, SCALES[t.sb], t.shift);
            bool flat = t.w.n[2] == 1; for(auto const *q : {&t.in, &t.out}) for(auto const &b : *q) if (b.lo[2] != 0 || b.hi[2] != 0) flat = false;
            for(int v=0; v<9; v++){
                if ((v == 3 || v == 6 || v == 8) && (t.oi || t.oo)) continue;
                if (v == 8 && !flat) continue;
                auto q = Make<BE, index, R2C>::make(v, t, me, options<BE>(t));
                check_queries(*q, t, r.full, me);
                if (v <= 1 || v == 4) HX_REQUIRE(q->size_workspace() == p.size_workspace() && q->size_comm_buffers() == p.size_comm_buffers(), "rank %d: the plan made from %s has other workspace sizes", me, CTOR[v]);
                Buf<OUT> x2 = call_fwd<OUT>(*q, t.mf, t.batch, in, SCALES[t.sf], t.shift); Buf<IN> y2 = call_bwd<IN>(*q, t.mb, t.batch, bin, SCALES[t.sb], t.shift);
                HX_REQUIRE(x.size() == x2.size() && y.size() == y2.size(), "rank %d: sizes of the plan made from %s", me, CTOR[v]);
                for(size_t i=0; i<x.size(); i++) HX_REQUIRE(dist(x[i], x2[i]) <= r.ftol * sf, "rank %d: forward of the plan made from %s differs at %zu", me, CTOR[v], i);
                for(size_t i=0; i<y.size(); i++) HX_REQUIRE(dist(y[i], y2[i]) <= r.btol * sb, "rank %d: backward of the plan made from %s differs at %zu", me, CTOR[v], i);
            }
        });
    }
};
// complex types of the user
template<class T> struct UC { typedef user_z type; }; template<> struct UC<float> { typedef user_c type; };
struct FU {
    TC t;
    template<class BE, class T, bool R2C> std::string run(){ return go<BE, T, R2C>(std::integral_constant<int, !bek<BE>::fft ? 0 : R2C ? 1 : 2>()); }
    template<class BE, class T, bool R2C> std::string go(std::integral_constant<int, 0>){ return ""; }
    // inputs and outputs of the type A and B, as the library sees them: XA and XB
    template<class A, class B, class XA, class XB, class P> void calls(P &p, TC const &t, Ref const &r, int me, char const *what){
        double sf = scale_of(r.full, t.sf), sb = scale_of(r.full, t.sb); auto f = SCALES[t.sf], b = SCALES[t.sb]; int n = t.batch;
        Buf<A> in = fill<A>(t.w, t.in[me], ORDERS[t.oi], r.fin, t.shift); Buf<B> bin = fill<B>(t.w, t.out[me], ORDERS[t.oo], r.bin, t.shift);
        XA *pi = reinterpret_cast<XA*>(in.data()); XB *pb = reinterpret_cast<XB*>(bin.data());
        for(int m=0; m<3; m++){      // (the batched calls without a workspace do not compile for these types)
            if (n != 1 && m < 2) continue;
            Buf<B> out(p.size_outbox() * n, 0x22, t.shift), work(p.size_workspace() * n, 0xEE, t.shift); XB *po = reinterpret_cast<XB*>(out.data()), *pw = reinterpret_cast<XB*>(work.data());
            if (m == 0) p.forward(pi, po, pw, f); else if (m == 1) p.forward(pi, po, f); else p.forward(n, pi, po, pw, f);
            HX_REQUIRE(out.guards_ok() && work.guards_ok() && in.guards_ok(), "rank %d: wrote outside a buffer", me);
            compare(what, t.w, t.out[me], ORDERS[t.oo], r.fout, sf, r.ftol * sf, out);
            Buf<A> y(p.size_inbox() * n, 0x22, t.shift); XA *py = reinterpret_cast<XA*>(y.data());
            if (m == 0) p.backward(pb, py, pw, b); else if (m == 1) p.backward(pb, py, b); else p.backward(n, pb, py, pw, b);
            HX_REQUIRE(y.guards_ok() && work.guards_ok() && bin.guards_ok(), "rank %d: wrote outside a buffer", me);
            compare(what, t.w, t.in[me], ORDERS[t.oi], r.bout, sb * r.bfac, r.btol * sb, y);
        }
    }
    template<class BE, class T, bool R2C> std::string go(std::integral_constant<int, 1>){
        typedef std::complex<T> C; typedef typename UC<T>::type U; Ref r = make_ref<BE, T>(t);
        return with_plan<BE, int, true>(t, [&](typename PlanOf<BE, int, true>::type &p, int me){ calls<T, C, T, U>(p, t, r, me, "transform to the complex type of the user"); });
    }
    template<class BE, class T, bool R2C> std::string go(std::integral_constant<int, 2>){
        typedef std::complex<T> C; typedef typename UC<T>::type U; Ref r = make_ref<BE, T>(t); TC tr = t; tr.realin = 1; Ref rr = make_ref<BE, T>(tr);
        return with_plan<BE, int, false>(t, [&](typename PlanOf<BE, int, false>::type &p, int me){
            calls<C, C, U, U>(p, t, r, me, "transform of the complex type of the user"); calls<C, C, U, C>(p, t, r, me, "transform to std::complex"); calls<C, C, C, U>(p, t, r, me, "transform from std::complex");
            calls<T, C, T, U>(p, tr, rr, me, "transform of real data to the complex type of the user");
        });
    }
};
static void enumerate(mc::Ctx &c){
    bool th = c.thorough;
    std::vector<World> ws = {{{{2,2,2}}, {{0,0,0}}}, {{{3,4,5}}, {{0,0,0}}}, {{{1,3,4}}, {{0,0,0}}}, {{{4,1,6}}, {{0,0,0}}}, {{{5,2,3}}, {{0,0,0}}}, {{{6,3,2}}, {{0,0,0}}}};
    if (th) for(auto const &w : {W(8,9,5), W(11,2,6)}) ws.push_back(w);
    Sec sec;
    for(int kind=0; kind<KIND_COUNT; kind++){
        for(auto const &l : layouts(kind, {{{{3,4,2}}, {{0,0,0}}}, {{{2,3,5}}, {{0,0,0}}}, {{{1,1,4}}, {{0,0,0}}}, {{{5,1,1}}, {{0,0,0}}}}, {1}, 1)) for(int oi=0; oi<6; oi++) for(int oo=0; oo<6; oo++) for(int p=0; p<4; p++){
            TC t = tc_of(l); sec(t); t.batch = 1; t.oi = oi; t.oo = oo; t.reorder = p & 1; t.pencils = p >> 1;
            test_kind(c, kind, sec.fl, str(t), F{t});
        }
        for(auto const &l : layouts(kind, {W(3,4,2), W(4,3,1), W(2,6,5)}, th ? std::vector<int>{1, 2, 3, 4, 6} : std::vector<int>{1, 2, 4}, th ? 1 : 0)) for(int p=0; p<8; p++) for(int v=0; v<2; v++){
            TC t = tc_of(l); sec(t); t.reorder = p & 1; t.pencils = p >> 1 & 1; t.batch = 1 + (p + v) % 2; if (p >> 2) t.oi = t.oo = 0;
            t.mf = t.mb = t.batch == 1 ? M_PTR_WORK : M_BATCH_WORK;
            test_kind(c, kind, sec.fl, fmt("constructors%s ", v ? " L" : "") + str(t), FC{t, v == 1});
            if (!kind_r2r(kind) && v == 0) test_kind(c, kind, sec.fl, "user type " + str(t), FU{t});
        }
        for(auto const &l : layouts(kind, ws, th ? std::vector<int>{2, 3, 4, 5, 6, 8} : std::vector<int>{2, 3, 4, 6}, th ? 2 : 1)) for(int p=0; p<4; p++) for(int b=1; b<=2; b++) for(int fl=0; fl<2; fl++){
            TC t = tc_of(l); sec(t); t.reorder = p & 1; t.pencils = p >> 1; t.batch = b;
            test_kind(c, kind, fl, str(t), F{t});
        }
    }
}
MC_MAIN("P09_entry", enumerate)
