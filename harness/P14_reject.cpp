// P14: geometry that is not a distribution of one world is rejected on every rank; undersized vectors are rejected
// before any communication.
#include "tx.h"
using namespace hx;
namespace be = heffte::backend;
static B const NONE = {{{0,0,0}}, {{-1,-1,-1}}};
struct G { std::vector<B> in, out; std::vector<int> oi, oo; int r2c = -1; bool real = false; };
static std::string str(G const &g){ std::string a, b; for(size_t i=0; i<g.in.size(); i++){ a += hx::str(g.in[i]) + fmt("/%d;", g.oi[i]); b += hx::str(g.out[i]) + fmt("/%d;", g.oo[i]); } return "in=[" + a + "] out=[" + b + "]" + fmt(" r2c=%d", g.r2c); }
// set semantics: the boxes partition the bounding box of their ranges, which starts at the origin
static bool exact(std::vector<B> const &v, World &w){
    I3 lo = {{1000,1000,1000}}, hi = {{-1000,-1000,-1000}}; long sum = 0;
    for(auto const &b : v){ for(int d=0; d<3; d++){ lo[d] = std::min(lo[d], b.lo[d]); hi[d] = std::max(hi[d], b.hi[d]); } sum += count(b); }
    w.low = lo; for(int d=0; d<3; d++) w.n[d] = hi[d] - lo[d] + 1;
    for(int d=0; d<3; d++) if (lo[d] != 0 || hi[d] < 0) return false;
    if (sum != count(w)) return false;
    std::vector<int> hit(count(w), 0); for(auto const &b : v) each(w, b, ORDERS[0], [&](long, long g, I3 const&){ hit[g]++; });
    for(int h : hit) if (h != 1) return false;
    return true;
}
static bool valid(G const &g, World &w){
    World o; if (!exact(g.in, w) || !exact(g.out, o)) return false;
    if (g.r2c < -1 || g.r2c > 2 || (g.real && g.r2c < 0)) return false;
    World e = g.r2c >= 0 ? half(w, g.r2c) : w; if (o.n != e.n) return false;
    for(size_t i=1; i<g.oi.size(); i++) if (g.oi[i] != g.oi[0] || g.oo[i] != g.oo[0]) return false;
    return true;
}
template<class BE, bool R2C> struct Mk { static heffte::fft3d<BE> *make(G const &g, int me, heffte::plan_options o){ return new heffte::fft3d<BE>(tobox<int>(g.in[me], ORDERS[g.oi[me]]), tobox<int>(g.out[me], ORDERS[g.oo[me]]), MPI_COMM_WORLD, o); } typedef heffte::fft3d<BE> type; };
template<class BE> struct Mk<BE, true> { static heffte::fft3d_r2c<BE> *make(G const &g, int me, heffte::plan_options o){ return new heffte::fft3d_r2c<BE>(tobox<int>(g.in[me], ORDERS[g.oi[me]]), tobox<int>(g.out[me], ORDERS[g.oo[me]]), g.r2c, MPI_COMM_WORLD, o); } typedef heffte::fft3d_r2c<BE> type; };
template<class BE, bool R2C> static std::string attempt(G const &g, int var){
    World w; bool ok = valid(g, w); int np = (int)g.in.size();
    TC t; t.alg = var % 4; t.reorder = (var >> 2) & 1; t.pencils = (var >> 3) & 1; if (ok){ t.w = w; t.in = g.in; t.out = g.out; t.oi = g.oi[0]; t.oo = g.oo[0]; t.r2c = g.r2c; }
    bool must = ok && feasible(t); // a valid distribution with fewer points than the ranks need may be turned down, by all ranks alike
    int made = 0, threw = 0; std::string what;
    std::string e = mc::simulate(np, [&](int me){
        std::unique_ptr<typename Mk<BE, R2C>::type> p;
        try{ p.reset(Mk<BE, R2C>::make(g, me, options<BE>(t))); made++; }
        catch(std::exception &x){ threw++; what = x.what(); }
        if (p && ok){ auto r = make_ref<BE, double>(t); check_queries(*p, t, r.full, me); typedef std::complex<double> C; typedef typename std::conditional<R2C, double, C>::type IN; fwd_check<IN, C>(*p, t, r, me, M_PTR); }
    }, var % 4);
    if (ok) { mc::ctx->count("valid"); if (e.empty() && !must && threw == np){ mc::ctx->count("rejected_too_few_points"); return ""; } return e.empty() && made != np ? fmt("a valid distribution was rejected: %s", what.c_str()) : e; }
    mc::ctx->count("invalid");
    if (made) return fmt("%d of %d ranks made a plan for an invalid distribution", made, np);
    if (e.find("assertion failed") != std::string::npos){ mc::ctx->count("rejected_by_assertion"); return ""; }
    if (e.empty() && threw == np){ mc::ctx->count("rejected_by_exception"); return ""; }
    return e.empty() ? fmt("only %d of %d ranks rejected the distribution", threw, np) : e;
}
static void test(mc::Ctx &c, G const &g, int var){
    bool none = true; for(auto *v : {&g.in, &g.out}) for(auto const &b : *v) none = none && empty(b);
    if (none) return; // a world without points: neither promised nor excluded
    c.test([&]{ return fmt("%s var=%d ", g.real ? "fft3d_r2c" : "fft3d", var) + str(g); }, [&]{ return g.real ? attempt<be::stock, true>(g, var) : attempt<be::fftw, false>(g, var); }); }
// all single changes of one list of boxes
static std::vector<std::pair<std::vector<B>, std::vector<int>>> perturb(std::vector<B> const &v, std::vector<int> const &o){
    std::vector<std::pair<std::vector<B>, std::vector<int>>> r;
    auto add = [&](std::vector<B> x){ for(auto &b : x) if (empty(b)) b = NONE; r.push_back({x, o}); };
    for(size_t i=0; i<v.size(); i++){
        if (!empty(v[i])) for(int d=0; d<3; d++) for(int s=-1; s<=1; s+=2){
            auto x = v; x[i].lo[d] += s; add(x); x = v; x[i].hi[d] += s; add(x); x = v; x[i].lo[d] += s; x[i].hi[d] += s; add(x);
        }
        if (!empty(v[i])){ auto x = v; x[i] = NONE; add(x); for(int d=0; d<3; d++){ x = v; std::swap(x[i].lo[d], x[i].lo[(d+1)%3]); std::swap(x[i].hi[d], x[i].hi[(d+1)%3]); add(x); } }
        for(size_t j=0; j<v.size(); j++) if (i != j){ auto x = v; x[i] = v[j]; add(x); x = v; std::swap(x[i], x[j]); add(x); }
        auto y = o; y[i] = (o[i] + 1) % 6; r.push_back({v, y}); y[i] = (o[i] + 4) % 6; r.push_back({v, y});
    }
    for(int d=0; d<3; d++) for(int s=-1; s<=1; s+=2){ auto x = v; for(auto &b : x) if (!empty(b)){ b.lo[d] += s; b.hi[d] += s; } add(x); }
    return r;
}
// ---- vectors
struct FV {
    TC t; int extra;
    template<class BE, class T, bool R2C> std::string run(){
        typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT; typedef std::complex<T> C;
        Ref r = make_ref<BE, T>(t);
        return with_plan<BE, int, R2C>(t, [&](typename PlanOf<BE, int, R2C>::type &p, int me){
            size_t ni = p.size_inbox(), no = p.size_outbox();
            sim::barrier(); uint64_t before = sim::stats().transitions; sim::barrier();
            int bad = 0, miss = 0;
            auto expect = [&](char const *what, size_t n, std::function<void()> const &f){ bad++; try{ f(); }catch(std::invalid_argument &){ return; } miss++; sim::fail(fmt("rank %d: %s accepted a vector of %zu entries", me, what, n)); };
            for(size_t n=0; n<ni; n++) expect("forward", n, [&]{ p.forward(std::vector<IN>(n)); });
            for(size_t n=0; n<no; n++) expect("backward", n, [&]{ vec_bwd(p, std::vector<OUT>(n), heffte::scale::none, (IN*)nullptr); });
            more(p, ni, no, expect, std::integral_constant<bool, bek<BE>::fft && !R2C>(), (T*)nullptr);
            sim::barrier(); HX_REQUIRE(sim::stats().transitions == before, "rank %d: a rejected call communicated", me); sim::barrier();
            mc::ctx->count("undersized_vectors", bad);
            // vectors that are exactly or more than large enough are accepted
            Buf<IN> in = fill<IN>(t.w, t.in[me], ORDERS[t.oi], r.fin, 0); std::vector<IN> v(in.data(), in.data() + ni); v.resize(ni + extra);
            auto o = p.forward(v); HX_REQUIRE(o.size() == no, "rank %d: forward returned %zu entries", me, o.size());
            Buf<OUT> ob(no); std::copy(o.begin(), o.end(), ob.data()); compare("forward", t.w, t.out[me], ORDERS[t.oo], r.fout, 1, r.ftol, ob);
            Buf<OUT> bi = fill<OUT>(t.w, t.out[me], ORDERS[t.oo], r.bin, 0); std::vector<OUT> u(bi.data(), bi.data() + no); u.resize(no + extra);
            auto q = vec_bwd(p, u, heffte::scale::none, (IN*)nullptr); HX_REQUIRE(q.size() == ni, "rank %d: backward returned %zu entries", me, q.size());
            Buf<IN> qb(ni); std::copy(q.begin(), q.end(), qb.data()); compare("backward", t.w, t.in[me], ORDERS[t.oi], r.bout, r.bfac, r.btol, qb);
        });
    }
    template<class P, class E, class T> static void more(P &p, size_t ni, size_t no, E const &expect, std::true_type, T*){
        for(size_t n=0; n<ni; n++) expect("forward of real data", n, [&]{ p.forward(std::vector<T>(n)); });
        for(size_t n=0; n<no; n++) expect("backward_real", n, [&]{ p.backward_real(std::vector<std::complex<T>>(n)); });
    }
    template<class P, class E, class T> static void more(P &, size_t, size_t, E const &, std::false_type, T*){}
};
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; int k = 0; Sec sec;
    std::vector<std::pair<int, World>> base = {{1, W(2,2,2)}, {1, W(3,1,2)}, {1, W(1,1,1)}, {2, W(2,2,2)}, {2, W(3,2,1)}, {2, W(2,3,4)}, {3, W(3,3,2)}, {3, W(1,4,3)}, {4, W(2,2,3)}, {4, W(4,4,1)}, {6, W(3,2,2)}};
    if (th) for(auto x : std::vector<std::pair<int, World>>{{2, W(5,3,2)}, {3, W(2,2,5)}, {5, W(5,5,2)}, {8, W(2,4,4)}}) base.push_back(x);
    for(auto const &x : base) for(int r2c=-1; r2c<3; r2c++){
        World h = r2c < 0 ? x.second : half(x.second, r2c);
        auto gi = x.first <= 3 ? guillotine(x.second, x.first, x.first == 2) : grids(x.second, x.first), go = x.first <= 3 ? guillotine(h, x.first, false) : grids(h, x.first);
        for(size_t a=0; a<gi.size(); a++) {
            G g; g.in = gi[a]; g.out = go[a % go.size()]; for(auto *v : {&g.in, &g.out}) for(auto &b : *v) if (empty(b)) b = NONE;
            g.oi.assign(x.first, a % 6); g.oo.assign(x.first, (a + 2) % 6); g.r2c = r2c; g.real = r2c >= 0;
            test(c, g, k++ % 16);
            auto pi = perturb(g.in, g.oi), po = perturb(g.out, g.oo);
            for(auto const &q : pi){ G y = g; y.in = q.first; y.oi = q.second; test(c, y, k++ % 16); }
            for(auto const &q : po){ G y = g; y.out = q.first; y.oo = q.second; test(c, y, k++ % 16); }
            // two changes: counts may be preserved although the boxes overlap; input and output changed alike
            if (a < (th ? 20u : x.first <= 2 ? 4u : 2u)){
                for(auto const &q : pi){ auto p2 = perturb(q.first, q.second); for(size_t i=0; i<p2.size(); i += (!th && x.first > 3 ? 7 : 1)){ G y = g; y.in = p2[i].first; y.oi = p2[i].second; test(c, y, k++ % 16); } }
                for(auto const &q : po){ auto p2 = perturb(q.first, q.second); for(size_t i=0; i<p2.size(); i += (!th && x.first > 3 ? 7 : 1)){ G y = g; y.out = p2[i].first; y.oo = p2[i].second; test(c, y, k++ % 16); } }
                for(size_t i=0; i<std::min(pi.size(), po.size()); i++){ G y = g; y.in = pi[i].first; y.oi = pi[i].second; y.out = po[i].first; y.oo = po[i].second; test(c, y, k++ % 16); }
            }
            // wrong reduced direction, complex boxes of full size, real boxes for the complex side
            if (r2c >= 0){
                for(int d : {0, 1, 2, -2, -1, 3, 7}) if (d != r2c){ G y = g; y.r2c = d; test(c, y, k++ % 16); }
                { G y = g; y.out = gi[a]; test(c, y, k++ % 16); }
                { G y = g; y.in = g.out; test(c, y, k++ % 16); }
                { G y = g; std::swap(y.in, y.out); test(c, y, k++ % 16); }
            }
        }
    }
    // undersized vectors
    for(int kind=0; kind<KIND_COUNT; kind++) for(auto const &l : layouts(kind, {W(2,2,2), W(3,2,4), W(1,3,2), W(4,2,2)}, {1,2,3,4}, 2)){ FV f; f.t = tc_of(l); sec(f.t); f.t.batch = 1; f.t.shift = 0; f.extra = sec.extra % 3 * 2;
        for(int fl=0; fl<2; fl++) test_kind(c, kind, fl, fmt("vectors +%d ", f.extra) + hx::str(f.t), f); }
}
MC_MAIN("P14_reject", enumerate)
