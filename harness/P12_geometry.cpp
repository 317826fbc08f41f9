// P12: splits, box predicates and the internal distributions agree with sets of index points.
#include "tx.h"
using namespace hx;
static std::string in_sim(std::function<void()> const &f, int np = 1){ return mc::simulate(np, [&](int){ f(); }, 0); }
template<class index> static bool has(box3d<index> const &b, I3 const &c){ for(int d=0; d<3; d++) if (c[d] < b.low[d] || c[d] > b.high[d]) return false; return true; }
// calls f for every point of a cube
template<class F> static void cube(int lo, int hi, F const &f){ I3 c; for(c[2]=lo; c[2]<=hi; c[2]++) for(c[1]=lo; c[1]<=hi; c[1]++) for(c[0]=lo; c[0]<=hi; c[0]++) f(c); }
template<class index> static std::string S(box3d<index> const &b){ return fmt("[%d,%d,%d - %d,%d,%d]", (int)b.low[0], (int)b.low[1], (int)b.low[2], (int)b.high[0], (int)b.high[1], (int)b.high[2]); }

// boxes are disjoint and cover the world exactly; every non-empty box is full in `full`
template<class index> static void partition(char const *what, World const &w, std::vector<box3d<index>> const &all, I3 const *order, std::vector<int> const &full){
    bool large = count(w) > 1000000; __int128 sum = 0; std::vector<int> hit(large ? 0 : count(w), 0);
    for(size_t i=0; i<all.size(); i++){
        auto const &b = all[i];
        for(int d=0; d<3; d++) HX_REQUIRE(b.size[d] == b.high[d] - b.low[d] + 1, "%s: box %zu has a wrong size", what, i);
        if (order) for(int d=0; d<3; d++) HX_REQUIRE(b.order[d] == (*order)[d], "%s: box %zu has the wrong order", what, i);
        if (b.empty()) continue;
        for(int d=0; d<3; d++) HX_REQUIRE(b.low[d] >= w.low[d] && b.high[d] < w.low[d] + w.n[d], "%s: box %zu %s leaves the world", what, i, S(b).c_str());
        if (large){ // no point by point bookkeeping: pairwise disjoint and of the right total volume
            __int128 v = 1; for(int d=0; d<3; d++) v *= b.size[d]; sum += v;
            for(size_t j=0; j<i; j++){ bool apart = false; for(int d=0; d<3; d++) if (all[j].high[d] < b.low[d] || all[j].low[d] > b.high[d]) apart = true; HX_REQUIRE(apart || all[j].empty(), "%s: boxes %zu and %zu overlap", what, j, i); }
        }else each(w, fromb(b), ORDERS[0], [&](long, long g, I3 const&){ hit[g]++; });
        for(int d : full) HX_REQUIRE(b.size[d] == w.n[d], "%s: box %zu %s is not full in direction %d", what, i, S(b).c_str(), d);
    }
    if (large){ HX_REQUIRE(sum == (__int128)count(w), "%s: the boxes hold %lld of %ld points", what, (long long)sum, count(w)); return; }
    for(long g=0; g<count(w); g++) HX_REQUIRE(hit[g] == 1, "%s: point %ld is in %d boxes", what, g, hit[g]);
}
template<class index> static void split(World const &w, I3 g, int order){
    box3d<index> world = tobox<index>(whole(w), ORDERS[order]);
    auto v = heffte::split_world(world, g);
    HX_REQUIRE(v.size() == (size_t)g[0] * g[1] * g[2], "split_world made %zu boxes", v.size());
    partition("split_world", w, v, &ORDERS[order], {});
    // grid order: dimension 0 fastest, consecutive pieces that differ by at most one point, same cut for the whole grid
    I3 c; for(c[2]=0; c[2]<g[2]; c[2]++) for(c[1]=0; c[1]<g[1]; c[1]++) for(c[0]=0; c[0]<g[0]; c[0]++){
        auto const &b = v[((size_t)c[2] * g[1] + c[1]) * g[0] + c[0]];
        for(int d=0; d<3; d++){
            HX_REQUIRE(b.size[d] >= w.n[d] / g[d] && b.size[d] <= (w.n[d] + g[d] - 1) / g[d], "piece %d of direction %d has %d of %d points, %d pieces", c[d], d, (int)b.size[d], w.n[d], g[d]);
            HX_REQUIRE(c[d] ? b.low[d] == v[((size_t)(c[2] - (d==2)) * g[1] + c[1] - (d==1)) * g[0] + c[0] - (d==0)].high[d] + 1 : b.low[d] == w.low[d], "pieces are not in grid order");
        }
    }
    // limited number of working ranks
    int n = (int)v.size();
    for(int extra : {0, 1, 3}){
        heffte::rank_remap r(0); r.set_subranks((size_t)(n + extra), n);
        auto u = heffte::split_world(world, g, r);
        HX_REQUIRE((int)u.size() == n + extra, "remapped split has %zu boxes", u.size());
        for(int i=0; i<n+extra; i++) HX_REQUIRE(i < n ? u[i] == v[i] : u[i].empty(), "remapped box %d", i);
        partition("remapped split_world", w, u, &ORDERS[order], {});
    }
}
static std::vector<std::pair<int,int>> intervals(int n){ std::vector<std::pair<int,int>> r; for(int a=0; a<n; a++) for(int b=a-1; b<n; b++) r.push_back({a, b}); return r; }
template<class index> static void relations(box3d<index> const &a, int n, int oa){
    auto iv = intervals(n); World w = {{{n,n,n}}, {{0,0,0}}};
    long cnt = 0; cube(0, n-1, [&](I3 const &c){ cnt += has(a, c); });
    HX_REQUIRE(a.count() == cnt && a.empty() == (cnt == 0), "count of %s is %lld", S(a).c_str(), a.count());
    HX_REQUIRE(a.is2d() == (a.size[0] == 1 || a.size[1] == 1 || a.size[2] == 1), "is2d");
    for(int d=0; d<3; d++){
        HX_REQUIRE(a.order[a.find_order(d)] == d && a.osize(d) == a.size[a.order[d]], "order of %s", S(a).c_str());
        auto h = a.r2c(d);
        if (cnt == 0) HX_REQUIRE(h.empty(), "r2c of an empty box");
        else{ for(int e=0; e<3; e++) HX_REQUIRE(h.low[e] == a.low[e] && h.size[e] == (e == d ? a.size[e] / 2 + 1 : a.size[e]) && h.high[e] == h.low[e] + h.size[e] - 1 && h.order[e] == a.order[e], "r2c(%d) of %s is %s", d, S(a).c_str(), S(h).c_str()); }
        if (cnt){
            // lines of the box: stride between points of a line, number of lines sharing a block
            long stride = 1; for(int e=0; e<a.find_order(d); e++) stride *= a.osize(e);
            HX_REQUIRE(heffte::fft1d_get_stride(a, d) == stride, "stride of %s direction %d", S(a).c_str(), d);
            long hm = a.find_order(d) == 0 ? a.osize(1) * a.osize(2) : a.find_order(d) == 1 ? a.osize(0) : a.osize(0) * a.osize(1);
            HX_REQUIRE(heffte::fft1d_get_howmany(a, d) == hm, "number of lines of %s direction %d", S(a).c_str(), d);
        }
    }
    // every second box of the range
    for(auto x : iv) for(auto y : iv) for(auto z : iv){
        box3d<index> b({x.first, y.first, z.first}, {x.second, y.second, z.second}, ORDERS[(oa + 1) % 6]);
        auto c = a.collide(b);
        bool same = true; for(int d=0; d<3; d++) if (a.low[d] != b.low[d] || a.high[d] != b.high[d]) same = false;
        HX_REQUIRE((a == b) == same && (a != b) == !same, "comparison of %s and %s", S(a).c_str(), S(b).c_str());
        long n2 = 0; bool ok = true; cube(0, n-1, [&](I3 const &p){ bool in = has(a, p) && has(b, p); n2 += in; if (in != (!c.empty() && has(c, p))) ok = false; });
        HX_REQUIRE(ok && c.count() == n2 && c.empty() == (n2 == 0), "intersection of %s and %s is %s", S(a).c_str(), S(b).c_str(), S(c).c_str());
        if (n2) HX_REQUIRE(c.ordered_same_as(a) && !c.ordered_same_as(b), "order of the intersection");
    }
}
// completeness test of lists of boxes against sets of points
template<class index> static void complete(std::vector<box3d<index>> const &v, int n, bool offset, long &good, long &bad){
    (void) offset;
    auto w = heffte::find_world(v);
    I3 lo = {{1000,1000,1000}}, hi = {{-1000,-1000,-1000}};
    for(auto const &b : v) for(int d=0; d<3; d++){ lo[d] = std::min<int>(lo[d], b.low[d]); hi[d] = std::max<int>(hi[d], b.high[d]); }
    for(int d=0; d<3; d++) HX_REQUIRE(w.low[d] == lo[d] && w.high[d] == hi[d], "find_world");
    bool exact = true; cube(0, n, [&](I3 const &p){ int k = 0; for(auto const &b : v) k += has(b, p); if (k != (has(w, p) ? 1 : 0)) exact = false; });
    bool want = exact && w.low[0] == 0 && w.low[1] == 0 && w.low[2] == 0, got = false;
    try{ got = heffte::world_complete(v, w); }catch(std::invalid_argument &){ got = false; }
    if (want) good++; else bad++;
    std::string s; if (got != want) for(auto const &b : v) s += S(b);
    HX_REQUIRE(got == want, "boxes %s are %s, the completeness test says the opposite", s.c_str(), want ? "a partition" : "not a partition");
    // match compares ranges rank by rank
    auto u = v; HX_REQUIRE(heffte::match(u, v), "match"); u.pop_back(); HX_REQUIRE(!heffte::match(u, v), "match of lists of different length");
}
// pencils and slabs for planning
static bool grid_ok(World const &w, int d, int p){ int a = w.n[(d+1)%3], b = w.n[(d+2)%3]; for(int i=1; i<=p; i++) if (p % i == 0 && i <= a && p / i <= b) return true; return false; }
static heffte::rank_remap remap_of(int np, int sub){ heffte::rank_remap r(0); if (sub > 0 && sub < np) r.set_subranks((size_t)np, sub); return r; }
template<class index> static void planning(World const &w, Part const &src, int order){
    int np = (int)src.size(); box3d<index> world = tobox<index>(whole(w));
    auto source = toboxes<index>(src);
    for(int sub=0; sub<np; sub++){
        auto rm = remap_of(np, sub); int p = sub ? sub : np;
        auto pg = heffte::make_procgrid(p);
        for(int d=0; d<3; d++){
            bool already = true; for(auto const &b : source) if (b.size[d] != w.n[d]) already = false;
            HX_REQUIRE(heffte::is_pencils(world, source, d) == already, "is_pencils");
            try{
                auto v = heffte::make_pencils(world, pg, d, source, ORDERS[order], rm);
                HX_REQUIRE((int)v.size() == np, "make_pencils made %zu boxes for %d ranks", v.size(), np);
                partition("make_pencils", w, v, &ORDERS[order], {d});
                int busy = 0; for(auto const &b : v) busy += !b.empty();
                if (!already) HX_REQUIRE(busy <= p, "make_pencils uses %d ranks, limit %d", busy, p);
                else for(int i=0; i<np; i++) HX_REQUIRE(v[i] == source[i], "make_pencils moved data that is already in pencils");
            }catch(std::runtime_error &e){ HX_REQUIRE(!grid_ok(w, d, p) && !already, "make_pencils failed: %s", e.what()); }
            for(int e=0; e<3; e++) if (e != d){
                bool sl = already; for(auto const &b : source) if (b.size[e] != w.n[e]) sl = false;
                HX_REQUIRE(heffte::is_slab(world, source, d, e) == sl, "is_slab");
                auto v = heffte::make_slabs(world, p, d, e, source, ORDERS[order], rm);
                HX_REQUIRE((int)v.size() == np, "make_slabs made %zu boxes for %d ranks", v.size(), np);
                partition("make_slabs", w, v, &ORDERS[order], {d, e});
                int busy = 0; for(auto const &b : v) busy += !b.empty();
                HX_REQUIRE(busy <= p, "make_slabs uses %d ranks, limit %d", busy, p);
            }
        }
    }
    auto r = heffte::reorder(source, ORDERS[order]);
    HX_REQUIRE(heffte::match(r, source), "reorder changed a range"); for(auto const &b : r) HX_REQUIRE(b.ordered_same_as(box3d<index>({0,0,0}, {0,0,0}, ORDERS[order])), "reorder");
    // connections of two distributions
    auto o = heffte::split_world(world, {1, np, 1}); long long cc = 0; for(auto const &a : o) for(auto const &b : source) if (!a.empty() && !b.empty()){ bool in = false; each(w, fromb(a), ORDERS[0], [&](long, long, I3 const &c){ if (has(b, c)) in = true; }); cc += in; }
    HX_REQUIRE(heffte::count_connections(o, source) == cc, "count_connections");
}
// the whole plan: consecutive distributions, every direction transformed once on full lines
template<class index> static void logic(TC const &t){
    heffte::ioboxes<index> io; io.in = toboxes<index>(t.in, ORDERS[t.oi]); io.out = toboxes<index>(t.out, ORDERS[t.oo]);
    heffte::plan_options o = options<heffte::backend::fftw>(t); World h = out_world(t);
    bool rejected = false;
    try{
        auto p = heffte::plan_operations(io, t.r2c, o, 0);
        HX_REQUIRE(p.index_count == count(t.w), "index_count %lld", p.index_count);
        int seen = 0; for(int i=0; i<3; i++){ HX_REQUIRE(p.fft_direction[i] >= 0 && p.fft_direction[i] < 3, "direction %d", p.fft_direction[i]); seen |= 1 << p.fft_direction[i]; }
        { std::array<long, 3> a, b; for(int i=0; i<3; i++){ a[i] = (long)p.fft_sizes[i]; b[i] = t.w.n[i]; } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); HX_REQUIRE(a == b, "the lengths of the transforms are not those of the world"); }
        HX_REQUIRE(seen == 7, "a direction is transformed twice");
        if (t.r2c >= 0) HX_REQUIRE(p.fft_direction[0] == t.r2c, "the reduced direction has to be first");
        for(int i=0; i<4; i++){
            World const &wi = (t.r2c >= 0 && i > 0) ? h : t.w;
            HX_REQUIRE((int)p.in_shape[i].size() == t.np() && (int)p.out_shape[i].size() == t.np(), "number of boxes of stage %d", i);
            partition("input of a stage", wi, p.in_shape[i], (I3 const*)nullptr, {});
            partition("output of a stage", wi, p.out_shape[i], (I3 const*)nullptr, i < 3 ? std::vector<int>{p.fft_direction[i]} : std::vector<int>{});
            auto const &b = p.out_shape[i][0]; for(auto const &x : p.out_shape[i]) HX_REQUIRE(x.ordered_same_as(b), "mixed orders in stage %d", i);
            if (t.reorder && i < 3 && !b.empty()) HX_REQUIRE(b.order[0] == p.fft_direction[i], "stage %d is not contiguous although reorder is set", i);
        }
        for(int i=0; i<t.np(); i++){
            HX_REQUIRE(p.in_shape[0][i] == io.in[i] && p.in_shape[0][i].ordered_same_as(io.in[i]), "the first shape is not the input");
            HX_REQUIRE(p.out_shape[3][i] == io.out[i] && p.out_shape[3][i].ordered_same_as(io.out[i]), "the last shape is not the output");
            for(int s=1; s<4; s++) if (!(t.r2c >= 0 && s == 1)) HX_REQUIRE(p.in_shape[s][i] == p.out_shape[s-1][i] && p.in_shape[s][i].ordered_same_as(p.out_shape[s-1][i]), "stage %d does not continue stage %d", s, s-1);
            if (t.r2c >= 0){ auto x = p.out_shape[0][i].r2c(t.r2c); HX_REQUIRE((x.empty() && p.in_shape[1][i].empty()) || (x == p.in_shape[1][i] && x.ordered_same_as(p.in_shape[1][i])), "the reduced boxes do not match"); }
        }
    }catch(std::runtime_error &e){ rejected = true; HX_REQUIRE(!feasible(t), "planning failed: %s", e.what()); }
    if (rejected) mc::ctx->count("rejected_too_few_points");
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; int N = th ? 7 : 5, G = th ? 6 : 5, k = 0; Sec sec;
    for(auto w : worlds(1, N)){
        w.low = {{k % 4 ? 0 : 2, k % 3, k % 5 ? 0 : 7}};
        for(int a=1; a<=G; a++) for(int b=1; b<=G; b++) for(int d=1; d<=G; d++){ k++; int o = k % 6; c.test([&]{ return fmt("split %s grid %d.%d.%d order=%d", str(w).c_str(), a, b, d, o); }, [&]{ return in_sim([&]{ split<int>(w, {{a,b,d}}, o); split<long long>(w, {{a,b,d}}, (o + 1) % 6); }); }); }
    }
    for(int n : {16, 17, 100, 1000}) for(int p=1; p<=(th ? 64 : 33); p++) for(int d=0; d<3; d++){ World w = W(2,3,1); w.n[d] = n; I3 g = {{1,1,1}}; g[d] = p; c.test(fmt("split %s grid %d.%d.%d", str(w).c_str(), g[0], g[1], g[2]), [&]{ return in_sim([&]{ split<int>(w, g, 0); split<long long>(w, g, 0); }); }); }
    int n = th ? 4 : 3; auto iv = intervals(n); int oa = 0;
    for(auto x : iv) for(auto y : iv) for(auto z : iv){ oa++; c.test([&]{ return fmt("relations %d.%d %d.%d %d.%d order=%d", x.first, x.second, y.first, y.second, z.first, z.second, oa % 6); }, [&]{ return in_sim([&]{
        relations<int>(box3d<int>({x.first, y.first, z.first}, {x.second, y.second, z.second}, ORDERS[oa % 6]), n, oa % 6); relations<long long>(box3d<long long>({x.first, y.first, z.first}, {x.second, y.second, z.second}, ORDERS[(oa + 3) % 6]), n, (oa + 3) % 6); }); }); }
    // lists of up to four boxes, also displaced ones
    { std::vector<box3d<int>> bx; auto i2 = intervals(2);
      for(auto x : i2) for(auto y : i2) for(auto z : i2){ bool e = x.second < x.first || y.second < y.first || z.second < z.first; if (!e || (bx.empty() && x.first == 0 && x.second == -1)) bx.push_back(box3d<int>({x.first, y.first, z.first}, {x.second, y.second, z.second})); }
      bx.push_back(box3d<int>({0,0,0}, {-1,-1,-1})); bx.push_back(box3d<int>({0,0,0}, {2,0,0})); bx.push_back(box3d<int>({1,1,1}, {2,2,2}));
      std::vector<box3d<long long>> bl; for(auto const &b : bx) bl.push_back(box3d<long long>({b.low[0], b.low[1], b.low[2]}, {b.high[0], b.high[1], b.high[2]}));
      int m = (int)bx.size(), deep = th ? 5 : 4;
      for(int i=0; i<m; i++) for(int j=0; j<m; j++) c.test([&]{ return fmt("complete %s%s", S(bx[i]).c_str(), S(bx[j]).c_str()); }, [&]{ return in_sim([&]{
          long good = 0, bad = 0; std::vector<int> id = {i, j};
          std::function<void()> rec = [&]{ std::vector<box3d<int>> v; std::vector<box3d<long long>> u; for(int q : id){ v.push_back(bx[q]); u.push_back(bl[q]); }
              complete(v, 2, false, good, bad); if (id.size() < 4) complete(u, 2, false, good, bad);
              if ((int)id.size() < deep) for(int q=(id.size() > 2 ? id.back() : 0); q<m; q++){ id.push_back(q); rec(); id.pop_back(); } };
          if (i == j){ id = {i}; std::vector<box3d<int>> v(1, bx[i]); complete(v, 2, false, good, bad); id = {i, j}; }
          rec(); mc::ctx->count("partitions", good); mc::ctx->count("non_partitions", bad); }); });
    }
    // shapes for planning
    for(auto const &w : worlds(1, th ? 5 : 4)) for(int np=1; np<=(th ? 8 : 6); np++) for(auto const &s : grids(w, np)){ int o = k++ % 6; c.test([&]{ return fmt("planning %s [%s] order=%d", str(w).c_str(), str(s).c_str(), o); }, [&]{ return in_sim([&]{ planning<int>(w, s, o); planning<long long>(w, s, (o + 2) % 6); }); }); }
    for(auto const &w : {W(3,2,2), W(2,3,3), W(3,3,1)}) for(int np : {2, 3, 4}) for(auto const &s : guillotine(w, np, np < 4)){ int o = k++ % 6; c.test([&]{ return fmt("planning %s [%s] order=%d", str(w).c_str(), str(s).c_str(), o); }, [&]{ return in_sim([&]{ planning<int>(w, s, o); planning<long long>(w, s, (o + 2) % 6); }); }); }
    // complete plans
    auto plan = [&](TC const &t){ c.test([&]{ return "plan " + str(t); }, [&]{ return in_sim([&]{ logic<int>(t); if (t.np() < 4) logic<long long>(t); }, 1); }); };
    std::vector<World> ws = worlds(1, th ? 4 : 3); for(auto x : {W(4,4,4), W(2,5,3), W(6,2,4), W(1,6,6), W(7,3,1)}) ws.push_back(x);
    for(int kind : {0, 2}) for(auto const &l : layouts(kind, ws, th ? std::vector<int>{1,2,3,4,5,6,8,12} : std::vector<int>{1,2,3,4,6,8}, 1)) for(int v=0; v<4; v++) for(int sub=0; sub<l.np(); sub += (l.np() > 4 ? 2 : 1)){
        TC t = tc_of(l); sec(t); t.batch = 1; t.shift = 0; t.reorder = v & 1; t.pencils = v >> 1; t.sub = sub ? sub : -1; plan(t);
        if (t.sub < 0){ std::swap(t.oi, t.oo); plan(t); t.oi = t.oo = 0; plan(t); }
    }
    for(int kind : {0, 2}) for(auto const &l : layouts(kind, {W(4,4,4), W(6,2,4), W(8,9,5), W(12,13,1), W(24,1,24), W(7,11,13)}, {9, 10, 12, 13, 16, 18, 24, 32}, th ? 1 : 0)) for(int v=0; v<4; v++) for(int sub=0; sub<l.np(); sub += l.np() / 3){
        TC t = tc_of(l); sec(t); t.batch = 1; t.shift = 0; t.reorder = v & 1; t.pencils = v >> 1; t.sub = sub ? sub : -1; plan(t);
    }
    // worlds and boxes of more points than a 32-bit integer counts
    for(int kind : {0, 2}) for(auto const &l : layouts(kind, {W(1024,1024,1024), W(1,30000,60000), W(2000,3,100000), W(640,641,643), W(3000,2900,2800), W(1300,1300,2600), W(100000,90000,50000), W(46341,46341,1), W(65536,65536,2)}, th ? std::vector<int>{1,2,3,4,6,8,12,16,30} : std::vector<int>{1,2,3,4,6,12}, 1)) for(int v=0; v<4; v++) for(int sub=0; sub<l.np(); sub += (l.np() > 4 ? l.np() / 3 : 1)){
        TC t = tc_of(l); sec(t); t.batch = 1; t.shift = 0; t.reorder = v & 1; t.pencils = v >> 1; t.sub = sub ? sub : -1; plan(t);
    }
    for(auto const &w : {W(3,2,2), W(2,3,3)}) for(int r2c=-1; r2c<3; r2c++) for(int np : {2, 3}){
        World h = r2c < 0 ? w : half(w, r2c);
        for(auto const &a : guillotine(w, np, true)) for(auto const &b : guillotine(h, np, true)){ if (np == 3 && !th && empty(a.back()) && empty(b.back())) continue;
            TC t; t.w = w; t.in = a; t.out = b; t.r2c = r2c; sec(t); t.batch = 1; t.shift = 0; plan(t); }
    }
}
MC_MAIN("P12_geometry", enumerate)
