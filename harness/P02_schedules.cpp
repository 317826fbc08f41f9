// P02: every interleaving, completion order and amount of send buffering gives the same result, terminates and obeys MPI.
#include "tx.h"
using namespace hx;
struct Bud { int sched, waitany, send; };   // deviations explored, -1: all; send -2: no send is buffered
static std::string str(Bud const &b){ auto s = [](int x){ return x == -1 ? std::string("all") : x == -2 ? std::string("always") : std::to_string(x); }; return "sched=" + s(b.sched) + " waitany=" + s(b.waitany) + " sync=" + s(b.send); }
static std::string explored(int np, Bud const &b, uint64_t cap, std::function<std::string(sim::Options const&, mc::Explorer&)> const &body){
    sim::Options o; o.np = np; o.sched_choice = b.sched != 0; o.waitany_choice = true; o.send_mode = b.send == -2 ? 1 : b.send ? 2 : 0;
    mc::Explorer ex; ex.budget[sim::CK_SCHED] = b.sched; ex.budget[sim::CK_WAITANY] = b.waitany; ex.budget[sim::CK_SENDMODE] = b.send == -2 ? 0 : b.send; ex.cap = cap;
    std::string e = mc::explore(ex, [&](mc::Explorer &x){ return body(o, x); });
    mc::ctx->count("schedules", ex.executions); if (ex.capped){ mc::ctx->count("capped_cases"); mc::ctx->count(fmt("capped np=%d %s", np, str(b).c_str())); } mc::ctx->count(fmt("cases np=%d %s", np, str(b).c_str())); mc::ctx->count(fmt("execs np=%d %s", np, str(b).c_str()), ex.executions); mc::ctx->count("choice_points", ex.choice_points); mc::ctx->count("merged_states", ex.pruned);
    return e;
}
template<typename T> static T val(long g, int b){ return scal<T>::make((double)(g + 1) + 512.0 * b, -(double)(2 * g + 1) - 512.0 * b); }
struct RC { World w; Part in, out; int oi, oo, a, batch, reps; bool inplace; };
template<typename T> static std::string reshape(RC const &r, sim::Options const &so, mc::Explorer &ex){
    return mc::simulate(so, [&](int me){
        auto in = toboxes<int>(r.in, ORDERS[r.oi]), out = toboxes<int>(r.out, ORDERS[r.oo]);
        heffte::plan_options opt = heffte::default_options<heffte::backend::stock>(); opt.algorithm = ALGS[r.a];
        auto shaper = heffte::make_reshape3d<heffte::backend::stock, int>(nullptr, in, out, MPI_COMM_WORLD, opt);
        if (!shaper) return;
        size_t ni = count(r.in[me]), no = count(r.out[me]);
        for(int k=0; k<r.reps; k++){ // no barrier in between: messages of consecutive calls may overlap
            Buf<T> src((r.inplace ? std::max(ni, no) : ni) * r.batch), dst, work(shaper->size_workspace() * r.batch);
            if (!r.inplace) dst.init(no * r.batch, 0x77, 0);
            each(r.w, r.in[me], ORDERS[r.oi], [&](long l, long g, I3 const&){ for(int b=0; b<r.batch; b++) src[b * ni + l] = val<T>(g + 64 * k, b); });
            auto snap = src.snapshot();
            Buf<T> &res = r.inplace ? src : dst;
            shaper->apply(r.batch, src.data(), res.data(), work.data());
            each(r.w, r.out[me], ORDERS[r.oo], [&](long l, long g, I3 const &c){ for(int b=0; b<r.batch; b++) HX_REQUIRE(res[b * no + l] == val<T>(g + 64 * k, b), "rank %d: call %d left a wrong element at local index %ld (point %d,%d,%d) of batch %d", me, k, l, c[0], c[1], c[2], b); });
            HX_REQUIRE(r.inplace || src.same(snap), "rank %d: the input was modified", me);
            HX_REQUIRE(src.guards_ok() && dst.guards_ok() && work.guards_ok(), "rank %d: wrote outside a buffer", me);
        }
    }, &ex);
}
static void test(mc::Ctx &c, RC const &r, int type, Bud const &b, uint64_t cap = 0){
    c.test([&]{ return fmt("reshape %s in=[%s] out=[%s] o=%d>%d %s b=%d x%d%s t=%d ", hx::str(r.w).c_str(), hx::str(r.in).c_str(), hx::str(r.out).c_str(), r.oi, r.oo, ALGN[r.a], r.batch, r.reps, r.inplace ? " inplace" : "", type) + str(b); },
        [&]{ return explored((int)r.in.size(), b, cap, [&](sim::Options const &o, mc::Explorer &x){ return type == 0 ? reshape<double>(r, o, x) : type == 1 ? reshape<std::complex<float>>(r, o, x) : type == 2 ? reshape<float>(r, o, x) : reshape<std::complex<double>>(r, o, x); }); });
}
struct PL {
    TC t; Bud b; uint64_t cap;
    template<class BE, class T, bool R2C> std::string run(){ TC q = t; return explored(t.np(), b, cap, [&](sim::Options const &o, mc::Explorer &x){ return run_tc<BE, T, int, R2C>(q, &o, &x); }); }
};
static void plan(mc::Ctx &c, int kind, bool fl, TC const &t, Bud const &b, uint64_t cap = 0){
    PL p{t, b, cap}; test_kind(c, kind, fl, "plan " + hx::str(t) + " " + str(b), p);
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; Rotate ro({6, 6, 2, 4, 2, 2}); Sec sec;
    // A: reshapes on two ranks, the whole space of schedules
    {
        std::vector<World> ws = {W(2,2,1), W(2,1,2), W(1,2,2), W(2,2,2)}; if (th){ ws.push_back(W(3,2,1)); ws.push_back(W(3,2,2)); }
        for(auto const &w : ws){
            auto parts = with_perms(guillotine(w, 2, true), true);
            for(auto const &pi : parts) for(auto const &po : parts) for(int a=0; a<4; a++){
                auto const &v = ro.next(); RC r{w, pi, po, v[0], v[1], a, 1 + v[2], 2, v[4] != 0}; test(c, r, v[3], {-1, -1, -1});
            }
        }
    }
    // B: three ranks: every completion order and every choice of buffering, bounded preemptions
    {
        std::vector<World> ws = {W(3,1,1), W(2,2,1), W(1,3,2), W(3,2,1)}; if (th){ ws.push_back(W(3,3,1)); ws.push_back(W(2,2,2)); }
        for(auto const &w : ws){
            auto pin = guillotine(w, 3, false), pout = guillotine(w, 3, true); if (th || count(w) <= 4) pout = with_perms(pout, true); // every numbering of the ranks
            for(auto const &pi : pin) for(auto const &po : pout){
                for(int a=0; a<4; a++){ auto const &v = ro.next(); RC r{w, pi, po, v[0], v[1], a, 1 + v[2], a < 2 ? 1 : 1 + v[5], v[4] != 0}; test(c, r, v[3], Bud{th ? -1 : a < 2 ? -1 : 2, -1, th ? -1 : a < 2 ? -1 : 1}, th ? 1000000 : 50000); if (a > 1 && !th) test(c, r, v[3], Bud{2, -1, -2}); }
            }
        }
    }
    // C: everybody talks to everybody
    for(int np : {3, 4}) for(int a=0; a<4; a++) for(int o=0; o<3; o++){
        World w = np == 3 ? W(3,3,1) : W(4,4,1);
        Part x, y; for(int i=0; i<np; i++){ x.push_back({{{i,0,0}}, {{i,np-1,0}}}); y.push_back({{{0,i,0}}, {{np-1,i,0}}}); }
        RC r{w, x, y, o, (o + 2) % 6, a, 1, 1 + o % 2, false};
        test(c, r, o, {np == 3 ? 2 : 1, -1, 0}, th ? 1000000 : 80000);
        test(c, r, o, {1, np == 3 || th ? -1 : 1, np == 3 || th ? 2 : 1}, th ? 1000000 : 80000);
        test(c, r, o, {0, -1, np == 3 || th ? -1 : 1}, th ? 1000000 : 80000);
    }
    // D: complete plans, creation and destruction included
    for(int kind : {0, 1, 2, 3, 5, 6}) for(int np : {2, 3, 4}) {
        auto ls = layouts(kind, kind ? std::vector<World>{W(2,3,2)} : std::vector<World>{W(2,2,2), W(3,4,2)}, {np}, th ? 2 : 0);
        for(auto const &l : ls){
            for(int a=0; a<4; a++){ TC t = tc_of(l); sec(t); t.shift = 0; t.alg = a; t.batch = std::min(t.batch, 2); t.policy = 0; t.sf = t.sb = 0; t.mf = t.mb = t.batch > 1 ? M_BATCH : M_PTR; if (!feasible(t)) continue;
                plan(c, kind, sec.fl, t, np == 2 ? Bud{-1, -1, th ? -1 : 2} : np == 3 ? Bud{1, 1, 1} : Bud{1, 1, 0}, th ? 300000 : 50000); if (a > 1 && np > 2) plan(c, kind, sec.fl, t, Bud{1, 1, -2}, th ? 300000 : 50000); }
        }
    }
}
MC_MAIN("P02_schedules", enumerate)
