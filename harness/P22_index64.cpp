// P22: plans with 64-bit indexes behave as plans with 32-bit indexes.
#include "tx.h"
using namespace hx;
template<class A, class Bx> static bool eqbox(A const &a, Bx const &b){ for(int d=0; d<3; d++) if (a.low[d] != b.low[d] || a.high[d] != b.high[d] || a.size[d] != b.size[d] || a.order[d] != b.order[d]) return false; return true; }
struct Obs { std::vector<std::vector<unsigned char>> f, b; std::vector<long long> q; std::vector<sim::RankCounters> c; };
struct F {
    TC t;
    template<class BE, class T, bool R2C> std::string run(){
        Obs a, b; std::string e = one<BE, T, R2C, int>(a); if (!e.empty()) return "32-bit: " + e;
        e = one<BE, T, R2C, long long>(b); if (!e.empty()) return "64-bit: " + e;
        if (a.q != b.q) return "sizes reported by the plans differ";
        for(int i=0; i<t.np(); i++){
            if (a.f[i] != b.f[i] || a.b[i] != b.b[i]) return fmt("rank %d: results differ", i);
            if (a.c[i].sends != b.c[i].sends || a.c[i].bytes_sent != b.c[i].bytes_sent || a.c[i].recvs != b.c[i].recvs || a.c[i].colls != b.c[i].colls || a.c[i].peers_mask != b.c[i].peers_mask) return fmt("rank %d: communication differs: sends %d %d bytes %d %d recvs %d %d collectives %d %d peers %x %x", i, (int)a.c[i].sends, (int)b.c[i].sends, (int)a.c[i].bytes_sent, (int)b.c[i].bytes_sent, (int)a.c[i].recvs, (int)b.c[i].recvs, (int)a.c[i].colls, (int)b.c[i].colls, (unsigned)a.c[i].peers_mask, (unsigned)b.c[i].peers_mask);
        }
        return "";
    }
    template<class BE, class T, bool R2C, class index> std::string one(Obs &o){
        typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT;
        Ref r = make_ref<BE, T>(t);
        o.f.resize(t.np()); o.b.resize(t.np()); o.q.assign(t.np() * 4, 0);
        std::vector<sim::RankCounters> base(t.np()); bool ran = false;
        std::string e = with_plan<BE, index, R2C>(t, [&](typename PlanOf<BE, index, R2C>::type &p, int me){
            ran = true; base[me] = sim::counters()[me];      // the box exchange of the creation carries wider integers
            check_queries(p, t, r.full, me);
            o.q[me*4] = p.size_inbox(); o.q[me*4+1] = p.size_outbox(); o.q[me*4+2] = p.size_workspace(); o.q[me*4+3] = p.size_comm_buffers();
            Buf<IN> in = fill<IN>(t.w, t.in[me], ORDERS[t.oi], r.fin, 0);
            Buf<OUT> out = call_fwd<OUT>(p, t.mf, t.batch, in, SCALES[t.sf]);
            double s = scale_of(r.full, t.sf);
            compare("forward", t.w, t.out[me], ORDERS[t.oo], r.fout, s, r.ftol * s, out);
            o.f[me] = out.snapshot();
            Buf<OUT> bin = fill<OUT>(t.w, t.out[me], ORDERS[t.oo], r.bin, 0);
            Buf<IN> y = call_bwd<IN>(p, t.mb, t.batch, bin, SCALES[t.sb]);
            s = scale_of(r.full, t.sb);
            compare("backward", t.w, t.in[me], ORDERS[t.oi], r.bout, s * r.bfac, r.btol * s, y);
            o.b[me] = y.snapshot();
        });
        o.c = sim::counters(); for(int i=0; i<t.np(); i++){ if (ran) o.c[i].bytes_sent -= base[i].bytes_sent; else o.c[i].bytes_sent = 0; }
        return e;
    }
};
// plans of worlds too large to execute report the same sizes and boxes
struct FS {
    TC t;
    template<class BE, class T, bool R2C, class index> std::string one(std::vector<long long> &q){
        q.assign(t.np() * 16, 0);
        return with_plan<BE, index, R2C>(t, [&](typename PlanOf<BE, index, R2C>::type &p, int me){
            auto bi = p.inbox(), bo = p.outbox(); long long *o = q.data() + me * 16;
            *o++ = p.size_inbox(); *o++ = p.size_outbox(); *o++ = p.size_workspace(); *o++ = p.size_comm_buffers();
            for(int d=0; d<3; d++){ *o++ = bi.low[d]; *o++ = bi.high[d]; *o++ = bo.low[d]; *o++ = bo.high[d]; }
            check_queries(p, t, full_scale<BE>(t.w), me);
            HX_REQUIRE(p.size_workspace() >= p.size_comm_buffers() && p.size_workspace() < (1ull << 40), "rank %d: workspace of %llu with communication buffers of %llu", me, (unsigned long long)p.size_workspace(), (unsigned long long)p.size_comm_buffers());
        });
    }
    template<class BE, class T, bool R2C> std::string run(){
        std::vector<long long> a, b;
        std::string e = one<BE, T, R2C, int>(a); if (!e.empty()) return "32-bit: " + e;
        e = one<BE, T, R2C, long long>(b); if (!e.empty()) return "64-bit: " + e;
        for(size_t i=0; i<a.size(); i++) if (a[i] != b[i]) return fmt("rank %d: value %d (inbox, outbox, workspace, communication buffers, boxes) is %lld with 32-bit and %lld with 64-bit indexes", (int)i / 16, (int)i % 16, a[i], b[i]);
        return "";
    }
};
// the logic plans agree box by box
static std::string logic(TC const &t){
    return mc::simulate(1, [&](int){
        auto o = options<heffte::backend::fftw>(t);
        heffte::ioboxes<int> a; a.in = toboxes(t.in, ORDERS[t.oi]); a.out = toboxes(t.out, ORDERS[t.oo]);
        heffte::ioboxes<long long> b; b.in = toboxes<long long>(t.in, ORDERS[t.oi]); b.out = toboxes<long long>(t.out, ORDERS[t.oo]);
        try{
            auto p = heffte::plan_operations(a, t.r2c, o, 0); auto q = heffte::plan_operations(b, t.r2c, o, 0);
            HX_REQUIRE(p.fft_direction == q.fft_direction && p.index_count == q.index_count, "directions or counts differ");
            for(int i=0; i<4; i++) for(size_t j=0; j<t.in.size(); j++)
                HX_REQUIRE(eqbox(p.in_shape[i][j], q.in_shape[i][j]) && eqbox(p.out_shape[i][j], q.out_shape[i][j]), "shape %d of rank %zu differs", i, j);
            for(int i=0; i<3; i++) HX_REQUIRE(p.fft_sizes[i] == q.fft_sizes[i], "sizes differ");
        }catch(std::runtime_error &e){ HX_REQUIRE(!feasible(t), "rejected: %s", e.what()); }
    }, 0);
}
// the boxes themselves, up to the largest 32-bit index and (for the number of points) the largest 64-bit integer
static std::string boxes(std::array<long long,3> const &n, std::array<long long,3> const &lo){
    return mc::simulate(1, [&](int){
        typedef heffte::box3d<int> S; typedef heffte::box3d<long long> L;
        for(auto const &o : ORDERS){
            std::array<int,3> sl, sh; std::array<long long,3> ll, lh; __int128 points = 1;
            for(int d=0; d<3; d++){ ll[d] = lo[d]; lh[d] = lo[d] + n[d] - 1; sl[d] = (int)ll[d]; sh[d] = (int)lh[d]; points *= n[d]; }
            S a(sl, sh, o); L b(ll, lh, o);
            HX_REQUIRE(eqbox(a, b), "the box differs");
            HX_REQUIRE((__int128)a.count() == points && (__int128)b.count() == points, "count() is %lld with 32-bit and %lld with 64-bit indexes, there are %lld points", (long long)a.count(), (long long)b.count(), (long long)points);
            HX_REQUIRE(a.empty() == b.empty() && a.is2d() == b.is2d() && !a.empty(), "empty() or is2d() differ");
            for(int d=0; d<3; d++) HX_REQUIRE(a.osize(d) == b.osize(d) && a.osize(d) == n[o[d]], "osize() differs");
            for(int d=0; d<3; d++) if (n[d] < 2147483647){ auto x = a.r2c(d); auto y = b.r2c(d); HX_REQUIRE(eqbox(x, y) && y.size[d] == n[d] / 2 + 1, "r2c(%d) differs", d); }
            for(auto const &g : std::vector<std::array<int,3>>{{{1,1,1}}, {{2,1,1}}, {{1,2,3}}, {{3,2,1}}, {{2,2,2}}}){
                if (g[0] > n[0] || g[1] > n[1] || g[2] > n[2] || n[0] > 700000000 || n[1] > 700000000 || n[2] > 700000000) continue;
                auto x = heffte::split_world(a, g); auto y = heffte::split_world(b, g);
                HX_REQUIRE(x.size() == y.size() && x.size() == (size_t)(g[0] * g[1] * g[2]), "split_world gives %zu and %zu boxes", x.size(), y.size());
                __int128 sum = 0; for(size_t i=0; i<x.size(); i++){ HX_REQUIRE(eqbox(x[i], y[i]), "piece %zu differs", i); __int128 v = 1; for(int d=0; d<3; d++) v *= y[i].size[d]; sum += v; auto cx = a.collide(x[i]); auto cy = b.collide(y[i]); HX_REQUIRE(eqbox(cx, cy) && eqbox(cx, y[i]), "intersection with piece %zu differs", i); }
                HX_REQUIRE(sum == points, "the pieces do not hold all points");
                if (lo[0] == 0) HX_REQUIRE(heffte::world_complete(x, a) && heffte::world_complete(y, b), "the pieces do not make the world");
                if (lo[0] == 0) HX_REQUIRE(eqbox(heffte::find_world(x), heffte::find_world(y)), "find_world differs");
            }
        }
    }, 0);
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; Sec sec; Rotate rm({M_COUNT, M_COUNT});
    std::vector<World> ws = {{{{3,4,5}}, {{0,0,0}}}, {{{2,2,2}}, {{0,0,0}}}, {{{1,4,6}}, {{0,0,0}}}, {{{5,2,3}}, {{0,0,0}}}};
    for(int kind=0; kind<KIND_COUNT; kind++) for(auto const &l : layouts(kind, ws, th ? std::vector<int>{1, 2, 3, 4, 5, 6, 8} : std::vector<int>{1, 2, 3, 4, 6}, th ? 2 : 1)) for(int a=0; a<4; a++) for(int p=0; p<4; p++) for(int v=0; v<(th ? 4 : 1); v++){
        TC t = tc_of(l); sec(t); t.shift = 0; t.alg = a; t.reorder = p & 1; t.pencils = p >> 1;
        if (sec.extra < 2) t.sub = 1 + t.oi % l.np();
        auto const &q = rm.next(); t.mf = q[0]; t.mb = q[1];
        while(!mode_ok(t.mf, t.batch, kind_same_type(kind))) t.mf = (t.mf + 1) % M_COUNT;
        while(!mode_ok(t.mb, t.batch, kind_same_type(kind))) t.mb = (t.mb + 3) % M_COUNT;
        test_kind(c, kind, sec.fl, str(t), F{t});
    }
    std::vector<long long> V = {1, 2, 3, 1000, 32768, 46341, 65536, 100000, 1 << 20, 1 << 30, 2147483647};
    for(long long x : V) for(long long y : V) for(long long z : V) for(long long lo : {0ll, 1ll, 7ll, 1000000ll}){
        bool fit = (__int128)x * y * z <= (__int128)9223372036854775807ll; for(long long n : {x, y, z}) if (n + lo > 2147483647ll) fit = false;
        if (fit) c.test([=]{ return fmt("boxes %lldx%lldx%lld+%lld", x, y, z, lo); }, [=]{ return boxes({{x, y, z}}, {{lo, lo, lo}}); });
    }
    for(int kind=0; kind<KIND_COUNT; kind++) for(auto const &w : {W(2048,2048,1024), W(1300,1300,2600), W(65536,1,65536), W(3000,2900,2800)}) for(int np : th ? std::vector<int>{16, 18, 24} : std::vector<int>{18}) for(int rd = kind_r2c(kind) ? 0 : -1; rd < (kind_r2c(kind) ? 3 : 0); rd++){
        if (!kind_world_ok(kind, w)) continue;
        auto gi = grids(w, np), go = grids(rd < 0 ? w : half(w, rd), np);
        for(size_t i=0; i<gi.size(); i++) for(int p=0; p<4; p++) for(int k=0; k<2; k++){
            TC t; t.w = w; t.in = gi[i]; t.out = go[(i * 5 + 2 * p + 7 * k) % go.size()]; t.r2c = rd; sec(t); t.batch = 1; t.shift = 0; t.reorder = p & 1; t.pencils = p >> 1;
            bool big = false; for(int j=0; j<np; j++) if (count(t.in[j]) >= (1l << 28) || count(t.out[j]) >= (1l << 28)) big = true;
            if (!big) test_kind(c, kind, false, "plan " + str(t), FS{t});
        }
    }
    // geometry beyond what can be executed: large worlds that still fit 32-bit indexes
    for(int kind : {0, 2}) for(auto const &l : layouts(kind, {{{{1024,1024,1024}}, {{0,0,0}}}, {{{1,30000,60000}}, {{0,0,0}}}, {{{2000,3,100000}}, {{0,0,0}}}, {{{640,641,643}}, {{0,0,0}}}, {{{3000,2900,2800}}, {{0,0,0}}}, {{{1300,1300,2600}}, {{0,0,0}}}, {{{100000,90000,50000}}, {{0,0,0}}}}, th ? std::vector<int>{1, 2, 3, 6, 12, 16, 30} : std::vector<int>{1, 2, 3, 6, 12}, th ? 2 : 1)) for(int p=0; p<4; p++) for(int sub=0; sub<3; sub++){
        TC t = tc_of(l); sec(t); t.batch = 1; t.shift = 0; t.reorder = p & 1; t.pencils = p >> 1; if (sub) t.sub = sub == 1 ? 1 + l.np() / 3 : std::max(1, l.np() - 1);
        c.test([&]{ return "logic " + str(t); }, [&]{ return logic(t); });
    }
}
MC_MAIN("P22_index64", enumerate)
