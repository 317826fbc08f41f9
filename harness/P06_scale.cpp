// P06: scaling factors and round trips, every scaling in every calling mode.
#include "tx.h"
using namespace hx;
struct F {
    TC t;
    template<class BE, class T, bool R2C> std::string run(){
        typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT;
        Ref r = make_ref<BE, T>(t);
        return with_plan<BE, int, R2C>(t, [&](typename PlanOf<BE, int, R2C>::type &p, int me){
            check_queries(p, t, r.full, me);
            HX_REQUIRE(p.get_scale_factor(heffte::scale::none) == 1.0, "rank %d: the factor of no scaling is %g", me, p.get_scale_factor(heffte::scale::none));
            HX_REQUIRE(std::abs(p.get_scale_factor(heffte::scale::symmetric) * p.get_scale_factor(heffte::scale::symmetric) - r.full) <= 1e-14 * r.full, "rank %d: symmetric factor is not the root of the full one", me);
            TC q = t;
            for(int m=0; m<M_COUNT; m++) if (mode_ok(m, t.batch, std::is_same<IN, OUT>::value)) for(int s=0; s<3; s++){
                q.sf = q.sb = s;
                fwd_check<IN, OUT>(p, q, r, me, m);
                bwd_check<OUT, IN>(p, q, r, me, m);
                // round trip with complementary scalings
                int s2 = s == 2 ? 2 : 1 - s;
                Buf<IN> in = fill<IN>(t.w, t.in[me], ORDERS[t.oi], r.fin, 0);
                Buf<OUT> mid = call_fwd<OUT>(p, m, t.batch, in, SCALES[s]);
                Buf<IN> back = call_bwd<IN>(p, m, t.batch, mid, SCALES[s2]);
                compare("round trip", t.w, t.in[me], ORDERS[t.oi], r.fin, 1.0, tol<T>(t.w, bek<BE>::fft ? 2 : 8) * 4, back);
                mid = call_fwd<OUT>(p, m, t.batch, back, SCALES[s]);
                compare("forward of the round trip", t.w, t.out[me], ORDERS[t.oo], r.fout, scale_of(r.full, s), 6 * r.ftol * scale_of(r.full, s), mid);
            }
        });
    }
};
// plans of worlds too large to execute: the reported factors, sizes and boxes with both index types
struct FF {
    TC t;
    template<class BE, class T, bool R2C> std::string run(){
        double full = full_scale<BE>(t.w);
        std::string e = with_plan<BE, int, R2C>(t, [&](typename PlanOf<BE, int, R2C>::type &p, int me){ check_queries(p, t, full, me); });
        return !e.empty() ? e : with_plan<BE, long long, R2C>(t, [&](typename PlanOf<BE, long long, R2C>::type &p, int me){ check_queries(p, t, full, me); });
    }
};
static void enumerate(mc::Ctx &c){
    bool th = c.thorough;
    std::vector<World> ws = {{{{2,2,2}}, {{0,0,0}}}, {{{3,4,5}}, {{0,0,0}}}, {{{1,1,1}}, {{0,0,0}}}, {{{4,1,6}}, {{0,0,0}}}, {{{7,2,3}}, {{0,0,0}}}, {{{8,9,2}}, {{0,0,0}}}, {{{11,4,4}}, {{0,0,0}}}};
    if (th) for(auto const &w : {W(16,3,5), W(5,13,2), W(6,6,6), W(2,3,17)}) ws.push_back(w);
    Sec sec;
    for(int kind=0; kind<KIND_COUNT; kind++) for(int fl=0; fl<2; fl++){
        for(auto const &l : layouts(kind, worlds(1, th ? 5 : 3), {1}, 0)) for(int b=1; b<=2; b++) for(int p=0; p<4; p++){ TC t = tc_of(l); sec(t); t.batch = b; t.reorder = p & 1; t.pencils = p >> 1; test_kind(c, kind, fl, str(t), F{t}); }
        for(auto const &l : layouts(kind, ws, th ? std::vector<int>{1, 2, 3, 4, 5, 6, 8, 12} : std::vector<int>{1, 2, 4, 6}, th ? 2 : 1)) for(int p=0; p<4; p++){
            TC t = tc_of(l); sec(t); t.reorder = p & 1; t.pencils = p >> 1;
            test_kind(c, kind, fl, str(t), F{t});
        }
        if (!fl) for(auto const &w : {W(512,512,512), W(1290,1291,1300), W(2048,2048,1024), W(1300,1300,2600), W(1,65536,65536), W(65536,65536,1), W(3000,2900,2800), W(3,30000,40000)})
            for(int np : th ? std::vector<int>{16, 24, 32} : std::vector<int>{24}) for(int rd = kind_r2c(kind) ? 0 : -1; rd < (kind_r2c(kind) ? 3 : 0); rd++){
                if (!kind_world_ok(kind, w)) continue;
                auto gi = grids(w, np), go = grids(rd < 0 ? w : half(w, rd), np);
                for(size_t i=0; i<gi.size(); i++) for(int p=0; p<4; p++){
                    TC t; t.w = w; t.in = gi[i]; t.out = go[(i * 5 + 2 * p) % go.size()]; t.r2c = rd; sec(t); t.batch = 1; t.reorder = p & 1; t.pencils = p >> 1;
                    bool big = false; for(int j=0; j<np; j++) if (count(t.in[j]) >= (1l << 28) || count(t.out[j]) >= (1l << 28)) big = true;
                    if (!big) test_kind(c, kind, fl, "factor " + str(t), FF{t});
                }
            }
    }
}
MC_MAIN("P06_scale", enumerate)
