// P10: every option combination gives the same transform; limits on the working ranks are respected.
#include "tx.h"
using namespace hx;
template<class index> static bool user_shape(std::vector<box3d<index>> const &s, std::vector<box3d<index>> const &u, int skip){
    for(size_t i=0; i<s.size(); i++) for(int d=0; d<3; d++) if (d != skip && (s[i].low[d] != u[i].low[d] || s[i].high[d] != u[i].high[d])) return false;
    return true;
}
struct F {
    TC t;
    template<class BE, class T, bool R2C> std::string run(){
        typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT;
        Ref r = make_ref<BE, T>(t);
        return with_plan<BE, int, R2C>(t, [&](typename PlanOf<BE, int, R2C>::type &p, int me){
            check_queries(p, t, r.full, me);
            if (t.sub > 0 && t.sub < t.np()){
                // distributions chosen by the library use at most the requested number of ranks
                heffte::ioboxes<int> io; io.in = toboxes(t.in, ORDERS[t.oi]); io.out = toboxes(t.out, ORDERS[t.oo]);
                auto lp = heffte::plan_operations(io, t.r2c, heffte::set_options<BE, R2C>(options<BE>(t)), me);
                for(int i=0; i<3; i++){
                    auto const &s = lp.out_shape[i];
                    HX_REQUIRE((int)s.size() == t.np(), "rank %d: shape %d has %zu boxes", me, i, s.size());
                    if (user_shape(s, io.in, t.r2c) || user_shape(s, io.out, t.r2c)) continue;
                    int busy = 0; for(auto const &b : s) busy += !b.empty();
                    HX_REQUIRE(busy <= t.sub, "rank %d: stage %d works on %d ranks, limit %d", me, i, busy, t.sub);
                }
            }
            fwd_check<IN, OUT>(p, t, r, me, t.mf);
            bwd_check<OUT, IN>(p, t, r, me, t.mb);
        });
    }
};
// the limit by a sub-communicator: results, and the internal distributions must stay inside the given ranks
struct FS {
    TC t; int mask;
    template<class BE, class T, bool R2C> std::string run(){
        typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT;
        Ref r = make_ref<BE, T>(t);
        return mc::simulate(t.np(), [&](int me){
            std::vector<int> ranks; for(int i=0; i<t.np(); i++) if (mask >> i & 1) ranks.push_back(i);
            MPI_Comm sub = heffte::mpi::new_comm_from_group(ranks, MPI_COMM_WORLD);
            if (!(mask >> me & 1)) sub = MPI_COMM_NULL;
            auto o = options<BE>(t); o.use_subcomm(sub);
            {
                std::unique_ptr<heffte::fft3d<BE>> p(new heffte::fft3d<BE>(tobox<int>(t.in[me], ORDERS[t.oi]), tobox<int>(t.out[me], ORDERS[t.oo]), MPI_COMM_WORLD, o));
                if (sub != MPI_COMM_NULL) MPI_Comm_free(&sub);   // only used by the constructor
                fwd_check<IN, OUT>(*p, t, r, me, t.mf);
                bwd_check<OUT, IN>(*p, t, r, me, t.mb);
                sim::barrier();
                heffte::ioboxes<int> io; io.in = toboxes(t.in, ORDERS[t.oi]); io.out = toboxes(t.out, ORDERS[t.oo]);
                auto lp = heffte::plan_operations(io, t.r2c, o, me);
                for(int i=0; i<3; i++){
                    auto const &s = lp.out_shape[i];
                    if (user_shape(s, io.in, -1) || user_shape(s, io.out, -1)) continue;
                    for(int j=0; j<t.np(); j++) HX_REQUIRE(s[j].empty() || (mask >> j & 1), "internal distribution %d uses rank %d outside the sub-communicator", i, j);
                }
            }
        }, t.policy);
    }
};
static void enumerate(mc::Ctx &c){
    bool th = c.thorough;
    typedef std::pair<std::vector<World>, std::vector<int>> PR;
    std::vector<PR> plan = {PR({W(3,4,5), W(2,5,2), W(1,4,6), W(4,4,1)}, {1, 2, 3, 4}), PR({W(6,5,4)}, {6})};
    if (th) plan = {PR({W(3,4,5), W(2,5,2), W(1,4,6), W(4,4,1), W(2,2,2), W(7,1,3)}, {1, 2, 3, 4}), PR({W(6,5,4), W(5,6,7)}, {5, 6, 8})};
    Sec sec;
    for(int kind=0; kind<KIND_COUNT; kind++) for(auto const &x : plan) for(auto const &l : layouts(kind, x.first, x.second, th ? 1 : 0)){
        // the full product of the algorithm, the flags and every limit on the number of working ranks
        for(int a=0; a<4; a++) for(int reord=0; reord<2; reord++) for(int pen=0; pen<2; pen++) for(int sub=0; sub<=l.np(); sub++) for(int gpu=0; gpu<2; gpu++){
            TC t = tc_of(l); sec(t); t.shift = 0; t.alg = a; t.reorder = reord; t.pencils = pen; t.sub = sub ? sub : -1; t.gpu = gpu;
            t.mf = t.mb = t.batch == 1 ? M_PTR_WORK : M_BATCH_WORK;
            test_kind(c, kind, sec.fl, str(t), F{t});
        }
    }
    // more ranks: limits around the divisors
    for(int kind=0; kind<KIND_COUNT; kind++) for(auto const &l : layouts(kind, {W(5,6,7), W(9,4,3)}, th ? std::vector<int>{7, 9, 10, 12, 16} : std::vector<int>{9, 12}, 0)) for(int sub : {-1, 1, 2, 4, 5, 6, 7, 8, 11}) for(int v=0; v<4; v++){
        if (sub >= l.np()) continue;
        TC t = tc_of(l); sec(t); t.shift = 0; t.reorder = v & 1; t.pencils = v >> 1; t.sub = sub; t.mf = t.mb = t.batch == 1 ? M_PTR_WORK : M_BATCH_WORK;
        test_kind(c, kind, sec.fl, str(t), F{t});
    }
    // sub-communicators: every non-empty subset of four ranks
    for(auto const &l : layouts(0, {{{{3,4,5}}, {{0,0,0}}}}, {4}, 1)) for(int mask=1; mask<15; mask++) for(int pen=0; pen<2; pen++){
        TC t = tc_of(l); sec(t); t.shift = 0; t.batch = 1; t.pencils = pen; t.mf = t.mb = M_PTR;
        c.test([&]{ return fmt("subcomm mask=%d ", mask) + str(t); }, [&]{ return FS{t, mask}.run<heffte::backend::fftw, double, false>(); });
    }
}
MC_MAIN("P10_options", enumerate)
