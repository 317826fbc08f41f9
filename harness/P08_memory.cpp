// P08: exactly sized buffers at every alignment; run plain (guard bytes) and under AddressSanitizer (exact heap blocks).
#include "tx.h"
using namespace hx;
struct F {
    TC t;
    template<class BE, class T, bool R2C> std::string run(){
        typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT;
        Ref r = make_ref<BE, T>(t);
        return with_plan<BE, int, R2C>(t, [&](typename PlanOf<BE, int, R2C>::type &p, int me){
            for(int m=0; m<M_COUNT; m++) if (mode_ok(m, t.batch, std::is_same<IN, OUT>::value)){
                fwd_check<IN, OUT>(p, t, r, me, m);
                bwd_check<OUT, IN>(p, t, r, me, m);
            }
        });
    }
};
struct FR {
    TC t;
    template<class BE, class T, bool R2C> std::string run(){ return go<BE, T>(std::integral_constant<bool, bek<BE>::fft && !R2C>()); }
    template<class BE, class T> std::string go(std::false_type){ return ""; }
    template<class BE, class T> std::string go(std::true_type){
        TC tt = t; tt.realin = 1; Ref r = make_ref<BE, T>(tt);
        return with_plan<BE, int, false>(tt, [&](typename PlanOf<BE, int, false>::type &p, int me){
            for(int m=0; m<M_COUNT; m++) if (mode_ok(m, t.batch, false)){
                fwd_check<T, std::complex<T>>(p, tt, r, me, m);
                bwd_check<std::complex<T>, T>(p, tt, r, me, m);
            }
        });
    }
};
static void enumerate(mc::Ctx &c){
    bool th = c.thorough;
#ifdef __SANITIZE_ADDRESS__
    bool asan = true;
#else
    bool asan = false;
#endif
    std::vector<World> ws = {W(3,4,5), W(2,2,2), W(1,3,4), W(4,1,6), W(5,3,3)};
    Rotate rot({6, 6, 4, 4, 3, 3, 8, 2, 3, 5, 2, 2});
    for(int kind=0; kind<KIND_COUNT; kind++){
        auto add = [&](Lay const &l, bool fl, int v){
            auto const &r = rot.next();
            TC t = tc_of(l); t.oi = r[0]; t.oo = r[1]; t.alg = r[2]; t.policy = r[3]; t.sf = r[4]; t.sb = r[5]; t.batch = 1 + r[8];
            t.reorder = v & 1; t.pencils = (v >> 1) & 1; if (asan && !th){ t.reorder = r[10]; t.pencils = r[11]; }
            if (r[9] == 4) t.sub = 1 + r[0] % l.np();
            // single precision: every multiple of the element; double precision: FFTW needs 16 bytes for complex (see below)
            bool stock = (kind & 1) && kind != 10, real_only = kind_r2r(kind);
#ifdef VERIF_MKL
            stock = true; // MKL accepts every alignment of the type as well
#endif
            if (fl) t.shift = 8 * r[6] + (real_only ? 4 * r[7] : 0);
            else t.shift = (stock || real_only) ? 8 * r[6] : 16 * (r[6] % 4);
            test_kind(c, kind, fl, str(t), F{t});
            if (kind < 2) test_kind(c, kind, fl, "real " + str(t), FR{t});
        };
        int nv = (asan && !th) ? 1 : 4;
        for(auto const &l : layouts(kind, worlds(1, asan && th ? 3 : th ? 4 : 3), {1}, 0)) for(int fl=0; fl<2; fl++) for(int v=0; v<nv; v++) add(l, fl, v);
        for(auto const &l : layouts(kind, ws, th ? std::vector<int>{2, 3, 4, 5, 6, 8} : std::vector<int>{2, 3, 4, 6}, th ? 2 : asan ? 0 : 1)) for(int fl=0; fl<2; fl++) for(int v=0; v<nv; v++) add(l, fl, v);
    }
    // complex double data that is only aligned to its element type (8 bytes)
    if (!asan) for(int kind : {0, 2}) for(auto const &l : layouts(kind, {W(4,4,4), W(2,2,2), W(3,5,4)}, {1, 2}, 0)) for(int re=0; re<2; re++){
        TC t = tc_of(l); t.reorder = re; t.shift = 8;
        c.test([&]{ return "misaligned " + head(kind, false) + str(t); }, [&]{ return mc::forked([&]{ F g{t}; return dispatch(kind, false, g); }); });
    }
}
MC_MAIN("P08_memory", enumerate)
