// P21: plans release every communicator, group, request, message and heap block, and stay within their communicator.
#include "tx.h"
#include "heap.h"
using namespace hx;
struct Live { int c, g, r; };
static Live live(){ return {sim::live_comms(), sim::live_groups(), sim::live_requests()}; }
static void unchanged(Live a, char const *when){
    Live b = live();
    HX_REQUIRE(a.c == b.c, "%s: %d communicators remain", when, b.c - a.c);
    HX_REQUIRE(a.g == b.g, "%s: %d groups remain", when, b.g - a.g);
    HX_REQUIRE(a.r == b.r, "%s: %d requests remain", when, b.r - a.r);
}
// the communicator of the user works as before
static void usable(MPI_Comm comm, int n){
    int one = 1, sum = 0; MPI_Allreduce(&one, &sum, 1, MPI_INT, MPI_SUM, comm); HX_REQUIRE(sum == n, "the communicator of the user gives %d instead of %d", sum, n);
}
enum { H_CREATE, H_FWD, H_BWD, H_BOTH2, H_MOVE, H_TWO, H_TWO_REV, H_COUNT };
static char const *const HN[] = {"create", "forward", "backward", "batch twice", "move", "two plans", "two plans reversed"};
template<class BE, class T, bool R2C> static void history(TC const &t, int h, int me, MPI_Comm comm, Ref const &r){
    typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT; typedef typename PlanOf<BE, int, R2C>::type P;
    auto p = PlanOf<BE, int, R2C>::make(t, me, comm);
    auto f = [&](P &x, int mode){ fwd_check<IN, OUT>(x, t, r, me, t.batch > 1 ? (mode == M_PTR_WORK ? M_BATCH_WORK : M_BATCH) : mode); };
    auto b = [&](P &x, int mode){ bwd_check<OUT, IN>(x, t, r, me, t.batch > 1 ? (mode == M_PTR_WORK ? M_BATCH_WORK : M_BATCH) : mode); };
    switch(h){
        case H_CREATE: break;
        case H_FWD: f(*p, M_VEC); break;
        case H_BWD: b(*p, M_VEC); break;
        case H_BOTH2: for(int i=0; i<2; i++){ f(*p, M_PTR); b(*p, M_PTR_WORK); } break;
        case H_MOVE: { P q(std::move(*p)); p.reset(); f(q, M_PTR); P z(std::move(q)); b(z, M_PTR); break; }
        case H_TWO: case H_TWO_REV: { TC u = t; u.alg = (t.alg + 2) % 4; std::swap(u.oi, u.oo);
            auto q = PlanOf<BE, int, R2C>::make(u, me, comm); f(*p, M_PTR); fwd_check<IN, OUT>(*q, u, r, me, t.batch > 1 ? M_BATCH : M_VEC);
            if (h == H_TWO){ p.reset(); bwd_check<OUT, IN>(*q, u, r, me, t.batch > 1 ? M_BATCH : M_VEC); q.reset(); } else { q.reset(); b(*p, M_PTR); p.reset(); } break; }
    }
}
struct One {
    TC t; int h;
    template<class BE, class T, bool R2C> std::string run(){
        Ref r = make_ref<BE, T>(t);
        return steady([&]{ return mc::simulate(t.np(), [&](int me){
            Live before = live(); sim::barrier();
            history<BE, T, R2C>(t, h, me, MPI_COMM_WORLD, r);
            sim::barrier(); unchanged(before, "after the destruction of the plans"); sim::barrier();
            usable(MPI_COMM_WORLD, t.np());
        }, t.policy); });
    }
};
// plans on disjoint sub-communicators: every rank has a color (-1: none), ranks of one color are ordered by ascending or descending rank
struct Sub {
    std::vector<TC> t; std::vector<int> color; bool rev; int h, policy;
    template<class BE, class T, bool R2C> std::string run(){
        int np = (int)color.size();
        std::vector<Ref> r; for(auto &x : t) r.push_back(make_ref<BE, T>(x));
        std::string e = steady([&]{
            std::string e = mc::simulate(np, [&](int w){
                int c = color[w]; MPI_Comm comm; MPI_Comm_split(MPI_COMM_WORLD, c < 0 ? MPI_UNDEFINED : c, rev ? -w : w, &comm);
                sim::barrier(); sim::counters()[w] = sim::RankCounters(); Live before = live(); sim::barrier();
                if (c >= 0){ int me; MPI_Comm_rank(comm, &me); history<BE, T, R2C>(t[c], (h + c) % H_COUNT, me, comm, r[c]); }
                sim::barrier(); unchanged(before, "after the destruction of the plans");
                for(int o=0; o<np; o++) if (o != w && (sim::counters()[w].peers_mask >> o & 1)) HX_REQUIRE(c >= 0 && color[o] == c, "rank %d of group %d communicated with rank %d of group %d", w, c, o, color[o]);
                if (c < 0) HX_REQUIRE(sim::counters()[w].sends == 0 && sim::counters()[w].recvs == 0 && sim::counters()[w].colls == 0, "rank %d without a plan communicated", w);
                sim::barrier();
                if (c >= 0){ usable(comm, t[c].np()); MPI_Comm_free(&comm); }
            }, policy);
            return e;
        });
        return e;
    }
};
// creations that fail by an exception on all ranks, in between successful ones
struct Fail {
    TC good; std::vector<B> in, out; int rounds;
    template<class BE, class T, bool R2C> std::string run(){
        Ref r = make_ref<BE, T>(good); int np = good.np();
        return steady([&]{ int threw = 0; std::string e = mc::simulate(np, [&](int me){
            Live before = live(); sim::barrier();
            auto keep = PlanOf<BE, int, R2C>::make(good, me); sim::barrier(); Live mid = live(); sim::barrier();
            for(int k=0; k<rounds; k++){
                TC bad = good; bad.in = in; bad.out = out;
                try{ auto p = PlanOf<BE, int, R2C>::make(bad, me); }catch(std::exception &){ threw++; }
                sim::barrier(); unchanged(mid, "after a failed creation"); sim::barrier();
                if (keep->size_inbox() > 0) try{ keep->forward(std::vector<typename XT<BE, T, R2C>::in>(keep->size_inbox() - 1)); }catch(std::invalid_argument &){}
                sim::barrier(); unchanged(mid, "after a rejected vector"); sim::barrier();
            }
            fwd_check<typename XT<BE, T, R2C>::in, typename XT<BE, T, R2C>::out>(*keep, good, r, me, M_PTR);
            keep.reset(); sim::barrier(); unchanged(before, "at the end"); sim::barrier(); usable(MPI_COMM_WORLD, np);
        }); if (e.empty() && threw != np * rounds) e = fmt("only %d of %d creations failed", threw, np * rounds); return e; });
    }
};
static std::string group(int np, int from, std::vector<int> const &g, int policy){
    return mc::simulate(np, [&](int me){
        MPI_Comm user = MPI_COMM_WORLD;
        if (from) MPI_Comm_split(MPI_COMM_WORLD, me == 0 ? MPI_UNDEFINED : 0, np - me, &user); // without rank 0, in reversed order
        if (user != MPI_COMM_NULL){
            int n = heffte::mpi::comm_size(user), r = heffte::mpi::comm_rank(user); Live before = live();
            HX_REQUIRE(n == (from ? np - 1 : np) && r == (from ? np - 1 - me : me), "comm_size() %d, comm_rank() %d", n, r);
            for(int round=0; round<2; round++){
                MPI_Comm x = heffte::mpi::new_comm_from_group(g, user); auto at = std::find(g.begin(), g.end(), r);
                HX_REQUIRE((x == MPI_COMM_NULL) == (at == g.end()), "rank %d is%s in the list but has%s a communicator", r, at == g.end() ? " not" : "", x == MPI_COMM_NULL ? " not" : "");
                if (x != MPI_COMM_NULL){ HX_REQUIRE(heffte::mpi::comm_size(x) == (int)g.size() && heffte::mpi::comm_rank(x) == (int)(at - g.begin()), "wrong size or rank"); usable(x, (int)g.size()); heffte::mpi::comm_free(x); }
                usable(user, n);
            }
            MPI_Barrier(user); Live after = live(); HX_REQUIRE(after.g == before.g || n > 1, "%d groups remain", after.g - before.g); HX_REQUIRE(after.c == before.c, "%d communicators remain", after.c - before.c);
            MPI_Barrier(user); if (from) MPI_Comm_free(&user);
        }
    }, policy);
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; Sec sec; int k = 0;
    auto opts = [&](TC &t){ sec(t); t.shift = 0; t.batch = std::min(t.batch, 2); if (sec.extra < 2 && t.np() > 1) t.sub = 1 + t.oi % t.np(); };
    for(int kind=0; kind<KIND_COUNT; kind++) for(auto const &l : layouts(kind, {W(2,3,4), W(4,3,2), W(4,4,4)}, th ? std::vector<int>{1,2,3,4,6} : std::vector<int>{1,2,3,4}, th ? 2 : 1))
        for(int h=0; h<H_COUNT; h++){ TC t = tc_of(l); opts(t); if (!feasible(t)){ t.sub = -1; if (!feasible(t)) continue; }
            One o{t, h}; test_kind(c, kind, sec.fl, fmt("%s ", HN[h]) + hx::str(t), o); }
    Rotate rg({2, H_COUNT, 4, 2});
    // sub-communicators: every assignment of the ranks to at most three groups or none
    for(int np=2; np<=(th ? 6 : 5); np++){
        long total = 1; for(int i=0; i<np; i++) total *= 4;
        for(long a=0; a<total; a++){
            std::vector<int> color; long y = a; for(int i=0; i<np; i++){ color.push_back((int)(y % 4) - 1); y /= 4; }
            std::vector<int> n(3, 0); int top = -1; bool canon = true; for(int x : color) if (x >= 0){ if (x > top + 1) canon = false; top = std::max(top, x); n[x]++; }
            if (!canon || top < 0) continue;
            for(int v=0; v<(np <= 4 ? 4 : 1); v++){
                k++; int kind = k % KIND_COUNT; auto const &q = rg.next();
                Sub s; s.color = color; s.rev = q[0]; s.h = q[1]; s.policy = q[2];
                for(int g=0; g<=top; g++){ auto ls = layouts(kind, n[g] == 5 ? std::vector<World>{W(5,5,5)} : std::vector<World>{W(4,3,4), W(3,4,4), W(4,4,3)}, {n[g]}, 1); TC t = tc_of(ls[(k * 3 + g * 5) % ls.size()]); opts(t); if (!feasible(t)) t.sub = -1; if (!feasible(t)) abort(); s.t.push_back(t); }
                std::string key = fmt("groups%s %s ", s.rev ? " reversed" : "", HN[s.h]); for(int q : color) key += q < 0 ? '-' : (char)('a' + q); for(auto &t : s.t) key += " {" + hx::str(t) + "}";
                test_kind(c, kind, q[3], key, s);
            }
        }
    }
    // the helper that makes a communicator from a list of ranks (the reshapes and users rely on it): every ordered list, on the world and on a sub-communicator
    for(int np=1; np<=(th ? 5 : 4); np++) for(int from=0; from<2; from++){
        int n = from ? np - 1 : np; if (n < 1) continue; long total = 1; for(int i=0; i<n; i++) total *= n + 1;
        for(long a=0; a<total; a++){
            std::vector<int> g; long y = a; bool ok = true, end = false; for(int i=0; i<n; i++){ int x = (int)(y % (n + 1)) - 1; y /= n + 1; if (x < 0) end = true; else if (end || std::find(g.begin(), g.end(), x) != g.end()) ok = false; else g.push_back(x); }
            if (!ok) continue;
            for(int policy=0; policy<4; policy++) c.test([=]{ std::string k = fmt("comm np=%d from=%d pol=%d ", np, from, policy); for(int x : g) k += std::to_string(x); return k; }, [=]{ return group(np, from, g, policy); });
        }
    }
    // failing creations: one box lost, doubled, grown
    for(int kind : {0, 1, 2, 3, 5, 8}) for(auto const &l : layouts(kind, {W(4,3,3), W(3,4,3)}, {1,2,3,4}, 1)) for(int f=0; f<4; f++) for(int i=0; i<l.np(); i++){
        TC t = tc_of(l); k++; opts(t); t.sub = -1; t.batch = 1; if (!feasible(t)) continue;
        Fail q; q.good = t; q.in = t.in; q.out = t.out; q.rounds = 2; auto &v = f < 2 ? q.in : q.out;
        if (f % 2){ if (empty(v[i])) continue; v[i].lo[k % 3]--; }
        else if (l.np() == 1 || empty(v[(i + 1) % l.np()])) continue; else v[i] = v[(i + 1) % l.np()];
        test_kind(c, kind, k & 1, fmt("failed %d@%d ", f, i) + hx::str(t), q);
    }
}
MC_MAIN("P21_resources", enumerate)
