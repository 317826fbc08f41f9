// P07: a batched transform equals the single transforms of its entries.
#include "tx.h"
using namespace hx;
struct F {
    TC t; int nb;
    template<class X> static void same(char const *what, int me, size_t n, size_t off, Buf<X> const &a, Buf<X> const &b, double tolabs){
        for(size_t i=0; i<n; i++) HX_REQUIRE(dist(a[off + i], b[i]) <= tolabs, "rank %d: %s of entry %zu differs from the single transform by %g", me, what, off / (n ? n : 1), dist(a[off + i], b[i]));
    }
    template<class BE, class T, bool R2C> std::string run(){
        typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT;
        TC tt = t; tt.batch = nb;
        Ref r = make_ref<BE, T>(tt);
        double sf = scale_of(r.full, t.sf), sb = scale_of(r.full, t.sb);
        return with_plan<BE, int, R2C>(tt, [&](typename PlanOf<BE, int, R2C>::type &p, int me){
            size_t ni = p.size_inbox(), no = p.size_outbox();
            std::vector<Buf<OUT>> f1; std::vector<Buf<IN>> b1;
            for(int j=0; j<nb; j++){
                Buf<IN> in = fill<IN>(t.w, t.in[me], ORDERS[t.oi], {r.fin[j]}, 0);
                f1.push_back(call_fwd<OUT>(p, M_PTR, 1, in, SCALES[t.sf]));
                Buf<OUT> bin = fill<OUT>(t.w, t.out[me], ORDERS[t.oo], {r.bin[j]}, 0);
                b1.push_back(call_bwd<IN>(p, M_PTR, 1, bin, SCALES[t.sb]));
            }
            for(int b=nb; b>=1; b--) for(int m : {M_BATCH_WORK, M_BATCH, M_INPLACE_BATCH}) if (mode_ok(m, b, std::is_same<IN, OUT>::value)){
                TC q = t; q.batch = b; Ref rb = r; rb.fin.resize(b); rb.fout.resize(b); rb.bin.resize(b); rb.bout.resize(b);
                Buf<IN> in = fill<IN>(t.w, t.in[me], ORDERS[t.oi], rb.fin, t.shift);
                Buf<OUT> out = call_fwd<OUT>(p, m, b, in, SCALES[t.sf], t.shift);
                compare("forward", t.w, t.out[me], ORDERS[t.oo], rb.fout, sf, r.ftol * sf, out);
                for(int j=0; j<b; j++) same("forward", me, no, no * j, out, f1[j], r.ftol * sf);
                Buf<OUT> bin = fill<OUT>(t.w, t.out[me], ORDERS[t.oo], rb.bin, t.shift);
                Buf<IN> bo = call_bwd<IN>(p, m, b, bin, SCALES[t.sb], t.shift);
                compare("backward", t.w, t.in[me], ORDERS[t.oi], rb.bout, sb * r.bfac, r.btol * sb, bo);
                for(int j=0; j<b; j++) same("backward", me, ni, ni * j, bo, b1[j], r.btol * sb);
            }
        });
    }
};
// real input of a complex plan
struct FR {
    TC t; int nb;
    template<class BE, class T, bool R2C> std::string run(){ return go<BE, T>(std::integral_constant<bool, bek<BE>::fft && !R2C>()); }
    template<class BE, class T> std::string go(std::false_type){ return ""; }
    template<class BE, class T> std::string go(std::true_type){
        TC tt = t; tt.batch = nb; tt.realin = 1; tt.mf = tt.mb = (t.policy & 1) ? M_BATCH : M_BATCH_WORK;
        return run_tc<BE, T, int, false>(tt);
    }
};
static void enumerate(mc::Ctx &c){
    bool th = c.thorough;
    std::vector<World> ws = {{{{2,2,2}}, {{0,0,0}}}, {{{3,4,5}}, {{0,0,0}}}, {{{1,3,4}}, {{0,0,0}}}, {{{4,1,6}}, {{0,0,0}}}, {{{5,2,3}}, {{0,0,0}}}, {{{6,3,2}}, {{0,0,0}}}};
    if (th) for(auto const &w : {W(8,9,5), W(11,2,6)}) ws.push_back(w);
    Sec sec;
    for(int kind=0; kind<KIND_COUNT; kind++){
        // one rank: all order pairs, all planners
        for(auto const &l : layouts(kind, {{{{3,4,2}}, {{0,0,0}}}, {{{2,3,5}}, {{0,0,0}}}}, {1}, 1)) for(int oi=0; oi<6; oi++) for(int oo=0; oo<6; oo++) for(int p=0; p<4; p++){
            TC t = tc_of(l); sec(t); t.batch = 1; t.oi = oi; t.oo = oo; t.reorder = p & 1; t.pencils = p >> 1;
            test_kind(c, kind, sec.fl, fmt("nb=%d ", 4) + str(t), F{t, 4});
        }
        // every planner with every algorithm
        for(auto const &l : layouts(kind, ws, th ? std::vector<int>{2, 3, 4, 5, 6, 8, 12} : std::vector<int>{2, 3, 4, 6}, th ? 2 : 1)) for(int p=0; p<4; p++) for(int a=0; a<4; a++){
            TC t = tc_of(l); sec(t); t.batch = 1; t.alg = a; t.reorder = p & 1; t.pencils = p >> 1;
            int nb = 2 + sec.extra % (th ? 5 : 3);
            test_kind(c, kind, sec.fl, fmt("nb=%d ", nb) + str(t), F{t, nb});
            if (kind < 2) test_kind(c, kind, sec.fl, fmt("real nb=%d ", nb) + str(t), FR{t, nb});
        }
        // large batches
        for(auto const &l : layouts(kind, {W(2,3,2), W(4,2,3)}, {1, 2, 4}, 1)) for(int nb : {5, 8, 13, 16, 33}) for(int a=0; a<4; a++){
            TC t = tc_of(l); sec(t); t.batch = 1; t.alg = a; test_kind(c, kind, sec.fl, fmt("nb=%d ", nb) + str(t), F{t, nb});
        }
    }
}
MC_MAIN("P07_batch", enumerate)
