// P01: a reshape moves every element to exactly its place, for every pair of decompositions, order, algorithm, batch and type.
#include "hx.h"
using namespace hx;
typedef heffte::reshape_algorithm alg;
static const alg ALGS[4] = {alg::alltoall, alg::alltoallv, alg::p2p, alg::p2p_plined};
static char const *ALGN[4] = {"a2a", "a2av", "p2p", "plined"};

template<typename T> T val(long g, int b){ return scal<T>::make((double)(g + 1) + 512.0 * b, -(double)(2 * g + 1) - 512.0 * b); }

template<typename T, typename index>
std::string one(World const &w, Part const &pin, Part const &pout, int oi, int oo, int a, int batch, int policy, bool inplace, size_t shift, mc::Explorer *ex = nullptr, sim::Options *so = nullptr){
    int np = (int)pin.size();
    auto body = [&](int me){
        Boxes<index> in = toboxes<index>(pin, ORDERS[oi]), out = toboxes<index>(pout, ORDERS[oo]);
        heffte::plan_options opt = heffte::default_options<heffte::backend::stock>(); opt.algorithm = ALGS[a];
        auto shaper = heffte::make_reshape3d<heffte::backend::stock, index>(nullptr, in, out, MPI_COMM_WORLD, opt);
        size_t ni = count(pin[me]), no = count(pout[me]);
        Buf<T> src((inplace ? std::max(ni, no) : ni) * batch, 0x5A, shift), dst, work;
        each(w, pin[me], ORDERS[oi], [&](long l, long g, I3 const &){ for(int b=0; b<batch; b++) src[b * ni + l] = val<T>(g, b); });
        auto snap = src.snapshot();
        if (!inplace) dst.init(no * batch, 0x77, shift);
        Buf<T> &res = inplace ? src : dst;
        int reps = 2; // a reshape object can be applied any number of times
        if (!shaper){
            // nothing to do for this rank: either the data is already in place everywhere or the rank has no data at all
            HX_REQUIRE(str(pin[me]) == str(pout[me]) || (ni == 0 && no == 0), "rank %d: no reshape was created but its boxes differ", me);
            HX_REQUIRE(oi == oo || ni == 0, "rank %d: no reshape was created but the order differs", me);
            return;
        }
        for(int r=0; r<reps; r++){
            if (inplace && r) each(w, pin[me], ORDERS[oi], [&](long l, long g, I3 const &){ for(int b=0; b<batch; b++) src[b * ni + l] = val<T>(g, b); });
            work.init(shaper->size_workspace() * batch, 0x33, shift);
            if (r && !inplace) memset((void*)dst.data(), 0x78, dst.size() * sizeof(T));
            shaper->apply(batch, src.data(), res.data(), work.data());
            each(w, pout[me], ORDERS[oo], [&](long l, long g, I3 const &c){
                for(int b=0; b<batch; b++) HX_REQUIRE(res[b * no + l] == val<T>(g, b), "rank %d: wrong element at local index %ld (point %d,%d,%d) of batch %d", me, l, c[0], c[1], c[2], b);
            });
            HX_REQUIRE(inplace || src.same(snap), "rank %d: the input was modified", me);
            HX_REQUIRE(src.guards_ok() && dst.guards_ok() && work.guards_ok(), "rank %d: wrote outside a buffer", me);
        }
    };
    if (ex) return mc::simulate(*so, body, ex);
    return mc::simulate(np, body, policy);
}

template<typename T, typename index>
void test(mc::Ctx &c, World const &w, Part const &pin, Part const &pout, int oi, int oo, int a, int batch, int policy, bool inplace = false, size_t shift = 0){
    c.test([=]{ return fmt("%s in=[%s] out=[%s] o=%d>%d %s b=%d %s%s pol=%d ip=%d sh=%d", str(w).c_str(), str(pin).c_str(), str(pout).c_str(), oi, oo, ALGN[a], batch, scal<T>::name(), sizeof(index) == 8 ? "L" : "", policy, (int)inplace, (int)shift); },
           [=]{ return one<T,index>(w, pin, pout, oi, oo, a, batch, policy, inplace, shift); });
}
template<typename index = int>
void test_t(mc::Ctx &c, int t, World const &w, Part const &pin, Part const &pout, int oi, int oo, int a, int batch, int policy, bool inplace = false, size_t shift = 0){
    switch(t & 3){
        case 0: test<std::complex<double>, index>(c, w, pin, pout, oi, oo, a, batch, policy, inplace, shift); break;
        case 1: test<float, index>(c, w, pin, pout, oi, oo, a, batch, policy, inplace, shift); break;
        case 2: test<double, index>(c, w, pin, pout, oi, oo, a, batch, policy, inplace, shift); break;
        case 3: test<std::complex<float>, index>(c, w, pin, pout, oi, oo, a, batch, policy, inplace, shift); break;
    }
}

static void enumerate(mc::Ctx &c){
    bool th = c.thorough;
    // parameters that are rotated: element type, batch, schedule policy, in-place, orders
    Rotate r1({4, 3, 4, 2}), r2({4, 3, 4, 2, 6, 6}), r3({4, 3, 4, 2, 6, 6, 4});
    auto t1 = [&](World const &w, Part const &pi, Part const &po, int oi, int oo, int a){ auto const &r = r1.next(); test_t(c, r[0], w, pi, po, oi, oo, a, 1 + r[1], r[2], r[3], 0); };
    auto t2 = [&](World const &w, Part const &pi, Part const &po, int a){ auto const &r = r2.next(); test_t(c, r[0], w, pi, po, r[4], r[5], a, 1 + r[1], r[2], r[3], 0); };
    auto t3 = [&](World const &w, Part const &pi, Part const &po){ auto const &r = r3.next(); test_t(c, r[0], w, pi, po, r[4], r[5], r[6], 1 + r[1], r[2], r[3], 0); };
    // A: np = 1 and 2: every pair of partitions (every cut, empty boxes, every permutation of the ranks), every pair of orders, every algorithm
    std::vector<World> small = {{{{2,2,2}}, {{0,0,0}}}, {{{3,2,2}}, {{0,0,0}}}, {{{2,3,1}}, {{0,0,0}}}, {{{1,2,3}}, {{-1,2,5}}}, {{{1,1,4}}, {{0,0,0}}}};
    small.push_back({{{3,3,3}}, {{0,0,0}}}); if (th){ small.push_back({{{3,3,2}}, {{0,0,0}}}); small.push_back({{{2,3,3}}, {{0,-4,7}}}); small.push_back({{{4,3,2}}, {{1,1,1}}}); small.push_back({{{5,2,3}}, {{0,0,0}}}); }
    for(int np=1; np<=2; np++) for(auto const &w : small){
        auto parts = with_perms(guillotine(w, np, true), true);
        for(auto const &pi : parts) for(auto const &po : parts) for(int oi=0; oi<6; oi++) for(int oo=0; oo<6; oo++) for(int a=0; a<4; a++) t1(w, pi, po, oi, oo, a);
    }
    // A': the full product of every parameter on grids of two worlds
    for(auto const &w : std::vector<World>{{{{3,2,2}}, {{0,0,0}}}, {{{2,1,4}}, {{0,3,0}}}}) for(int np=1; np<=(th ? 4 : 3); np++){
        auto parts = grids(w, np);
        for(auto const &pi : parts) for(auto const &po : parts) for(int oi=0; oi<6; oi++) for(int oo=0; oo<6; oo++) for(int a=0; a<4; a++)
            for(int t=0; t<4; t++) for(int b=1; b<=2; b++) for(int ip=0; ip<2; ip++) for(int pol=0; pol<(np > 1 ? 2 : 1); pol++) test_t(c, t, w, pi, po, oi, oo, a, b, pol * 3, ip, 0);
    }
    // B: np = 3: every pair of partitions with every permutation of the ranks on one side
    {
        std::vector<World> ws = {{{{2,2,2}}, {{0,0,0}}}, {{{3,2,2}}, {{0,0,0}}}, {{{2,2,3}}, {{0,0,0}}}};
        if (true){ ws.push_back({{{3,3,2}}, {{0,0,0}}}); ws.push_back({{{2,4,2}}, {{3,0,-2}}}); }
        for(auto const &w : ws){
            auto pi_all = guillotine(w, 3, false); auto po_all = with_perms(guillotine(w, 3, true), true);
            for(auto const &pi : pi_all) for(auto const &po : po_all){
                for(int rep=0; rep<(th ? 12 : 1); rep++) for(int a=0; a<4; a++) t2(w, pi, po, a);
            }
        }
    }
    // C: every pair of grids of 4 to 8 ranks (and the reversed numbering), all algorithms
    {
        std::vector<std::pair<int, World>> ws = {{4, {{{4,3,2}}, {{0,0,0}}}}, {6, {{{3,4,5}}, {{0,0,0}}}}, {8, {{{4,4,4}}, {{0,0,0}}}}, {5, {{{3,3,3}}, {{0,0,0}}}}, {7, {{{2,3,4}}, {{0,0,0}}}}};
        { ws.push_back({9, {{{3,5,4}}, {{0,0,0}}}}); ws.push_back({12, {{{4,5,6}}, {{2,2,2}}}}); ws.push_back({16, {{{4,4,5}}, {{0,0,0}}}}); } if (th){ ws.push_back({10, {{{5,4,4}}, {{0,0,0}}}}); ws.push_back({18, {{{6,5,4}}, {{0,0,0}}}}); ws.push_back({24, {{{6,6,6}}, {{-5,0,5}}}}); ws.push_back({27, {{{6,6,6}}, {{0,0,0}}}}); }
        for(auto const &pw : ws){
            std::vector<Part> parts = with_perms(grids(pw.second, pw.first), false);
            for(auto const &pi : parts) for(auto const &po : parts) for(int a=0; a<4; a++) t2(pw.second, pi, po, a);
        }
        // irregular (not grid) partitions for four ranks: every pair
        std::vector<World> irr = {{{{2,2,1}}, {{0,0,0}}}, {{{1,2,3}}, {{0,0,0}}}, {{{2,2,2}}, {{0,0,0}}}};
        irr.push_back({{{3,2,2}}, {{0,0,0}}});
        for(auto const &w : irr){
            auto g = guillotine(w, 4), q = g; if (count(w) <= 6) q = with_perms(guillotine(w, 4, true), true);
            for(auto const &pi : g) for(auto const &po : q) for(int rep=0; rep<(th ? 6 : 1); rep++){ if (th || count(w) <= 6) for(int a=0; a<4; a++) t2(w, pi, po, a); else t3(w, pi, po); }
        }
    }
    // F: slabs with every cut (the exchange graph is a chain, a few chains, or idle ranks), and long chains of many ranks
    for(int d=0; d<3; d++) for(int np=3; np<=(th ? 6 : 5); np++){
        World w = {{{2,2,2}}, {{0,0,0}}}; w.n[d] = th ? 9 : 8;
        std::vector<Part> parts; std::vector<int> one1{2};
        for(auto const &q : cuts(w.n[d], np, np < 4)) parts.push_back(d == 0 ? grid_part(w, q, one1, one1) : d == 1 ? grid_part(w, one1, q, one1) : grid_part(w, one1, one1, q));
        for(auto const &pi : parts) for(auto const &po : parts) if (np == 3 || th) for(int a=0; a<4; a++) t2(w, pi, po, a); else t3(w, pi, po);
    }
    for(int np=6; np<=(th ? 32 : 16); np++) for(int d=0; d<3; d++) for(int a=0; a<4; a++) for(int perm=0; perm<3; perm++) for(int shift=1; shift<=3; shift++){
        World w = {{{1,1,1}}, {{0,0,0}}}; w.n[d] = 2 * np; std::vector<int> x(np, 2), y(np, 2), one1{1};
        if (shift <= 2){ y[0] = 1; y[np-1] = 3; if (shift == 2) std::reverse(y.begin(), y.end()); }
        else { y.assign(np, 0); y[0] = np; y[np/2] = np - 1; y[np-1] = 1; } // most of the ranks receive nothing
        auto gp = [&](std::vector<int> const &q){ return d == 0 ? grid_part(w, q, one1, one1) : d == 1 ? grid_part(w, one1, q, one1) : grid_part(w, one1, one1, q); };
        Part pi = gp(x), po = gp(y);
        if (perm == 1){ std::reverse(pi.begin(), pi.end()); std::reverse(po.begin(), po.end()); }
        if (perm == 2){ std::rotate(po.begin(), po.begin() + np / 2, po.end()); }
        t2(w, pi, po, a);
    }
    // D: 64 bit indexes
    for(auto const &w : std::vector<World>{{{{3,2,2}}, {{0,0,0}}}, {{{2,3,4}}, {{1,-1,0}}}}) for(int np : {2, 4}){
        auto parts = with_perms(grids(w, np), false);
        for(auto const &pi : parts) for(auto const &po : parts) for(int a=0; a<4; a++){ auto const &r = r2.next(); test_t<long long>(c, r[0], w, pi, po, r[4], r[5], a, 1 + r[1], r[2], r[3]); }
    }
    // E: larger boxes and long lines (every pair of grids)
    std::vector<World> large = {{{{17,3,2}}, {{0,0,0}}}, {{{2,19,5}}, {{0,0,0}}}, {{{5,4,33}}, {{0,0,0}}}, {{{70,2,3}}, {{0,0,0}}}, {{{3,66,2}}, {{0,0,0}}}, {{{3,4,130}}, {{0,0,0}}}, {{{16,16,16}}, {{0,0,0}}}, {{{1,300,7}}, {{0,0,0}}}};
    if (th){ large.push_back({{{40,40,40}}, {{0,0,0}}}); large.push_back({{{257,9,8}}, {{0,0,0}}}); large.push_back({{{6,513,5}}, {{0,0,0}}}); large.push_back({{{5,6,1025}}, {{0,0,0}}}); }
    for(auto const &w : large) for(int np : {1, 2, 3, 4}){
        auto parts = with_perms(grids(w, np), false);
        for(auto const &pi : parts) for(auto const &po : parts) for(int a=0; a<4; a++) t2(w, pi, po, a);
    }
}
MC_MAIN("P01_reshape", enumerate)
