// P13: processor grids.
#include "hx.h"
using namespace hx;
static std::string in_sim(std::function<void()> const &f){ return mc::simulate(1, [&](int){ f(); }, 0); }
template<class index> static void grid3(World const &w, int p){
    box3d<index> world = tobox<index>(whole(w));
    auto area = [&](I3 const &g){ long long b[3]; for(int d=0; d<3; d++) b[d] = w.n[d] / g[d]; return b[0] * b[1] + b[1] * b[2] + b[2] * b[0]; };
    long long best = -1; for(auto const &g : factor3(p)) if (g[0] <= w.n[0] && g[1] <= w.n[1] && g[2] <= w.n[2]){ long long a = area(g); if (best < 0 || a < best) best = a; }
    if (best < 0){ mc::ctx->count("no_grid_fits"); return; }     // nothing is promised
    auto r = heffte::proc_setup_min_surface(world, p); I3 g = {{r[0], r[1], r[2]}};
    HX_REQUIRE(r[0] >= 1 && r[1] >= 1 && r[2] >= 1 && (long)r[0] * r[1] * r[2] == p, "grid %dx%dx%d for %d ranks", r[0], r[1], r[2], p);
    for(int d=0; d<3; d++) HX_REQUIRE(g[d] <= w.n[d], "grid %dx%dx%d cuts a direction into more pieces than it has points, world %s", r[0], r[1], r[2], str(w).c_str());
    HX_REQUIRE(area(g) == best, "grid %dx%dx%d has surface %lld, the smallest is %lld", r[0], r[1], r[2], area(g), best);
}
static void grid2(int p){
    auto f = heffte::make_procgrid(p);
    HX_REQUIRE(f[0] >= 1 && f[1] >= 1 && f[0] * f[1] == p, "grid %dx%d for %d ranks", f[0], f[1], p);
    for(int i=1; i*i<=p; i++) if (p % i == 0) HX_REQUIRE(std::abs(f[0] - f[1]) <= p / i - i, "grid %dx%d for %d ranks is not the most square", f[0], f[1], p);
    auto v = heffte::get_factors(p); std::vector<int> seen(p + 1, 0); for(auto const &x : v){ HX_REQUIRE(x[0] * x[1] == p, "factors"); seen[x[0]] = 1; }
    for(int i=1; i<=p; i++) HX_REQUIRE(seen[i] == (p % i == 0), "factor %d of %d", i, p);
}
// grid orthogonal to a direction: the candidate if it fits, otherwise the most square one that fits
template<class index> static void grid_dir(World const &w, int p){
    box3d<index> world = tobox<index>(whole(w));
    for(int dir=0; dir<3; dir++) for(int i=1; i<=p; i++) if (p % i == 0){
        int a = dir == 0 ? 1 : 0, b = dir == 2 ? 1 : 2;
        bool fits = i <= w.n[a] && p / i <= w.n[b], any = false; int sum = 1 << 30;
        for(int j=1; j<=p; j++) if (p % j == 0 && j <= w.n[a] && p / j <= w.n[b]){ any = true; sum = std::min(sum, j + p / j); }
        try{
            auto g = heffte::make_procgrid2d(world, dir, {i, p / i});
            HX_REQUIRE(any, "grid %dx%dx%d does not fit", g[0], g[1], g[2]);
            HX_REQUIRE(g[dir] == 1 && g[0] * g[1] * g[2] == p && g[a] <= w.n[a] && g[b] <= w.n[b], "grid %dx%dx%d for %d ranks orthogonal to %d", g[0], g[1], g[2], p, dir);
            if (fits) HX_REQUIRE(g[a] == i && g[b] == p / i, "the candidate %dx%d was replaced by %dx%dx%d", i, p / i, g[0], g[1], g[2]);
            else HX_REQUIRE(g[a] + g[b] == sum, "grid %dx%dx%d is not the most square that fits", g[0], g[1], g[2]);
        }catch(std::runtime_error &e){ HX_REQUIRE(!any, "no grid found: %s", e.what()); }
    }
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; int N = th ? 24 : 12, P = th ? 128 : 64;
    for(auto const &w : worlds(1, N)) c.test([&]{ return "grid3 " + str(w); }, [&]{ return in_sim([&]{ for(int p=1; p<=P; p++){ grid3<int>(w, p); grid3<long long>(w, p); } }); });
    for(auto const &w : {W(512,512,512), W(1024,64,33), W(2000,1,77), W(17,4096,3), W(100,1000,1), W(31,37,41), W(6,6,5000), W(7,11,900)}) for(int lo=1; lo<=(th ? 8192 : 2048); lo+=32) c.test(fmt("grid3 %s %d", str(w).c_str(), lo), [&]{ return in_sim([&]{ for(int p=lo; p<lo+32; p++){ grid3<int>(w, p); grid3<long long>(w, p); } }); });
    for(int lo=1; lo<(th ? 20000 : 5000); lo+=50) c.test(fmt("grid2 %d", lo), [&]{ return in_sim([&]{ for(int p=lo; p<lo+50; p++) grid2(p); }); });
    for(auto const &w : worlds(1, th ? 14 : 9)) c.test([&]{ return "gridd " + str(w); }, [&]{ return in_sim([&]{ for(int p=1; p<=(th ? 100 : 60); p++){ grid_dir<int>(w, p); grid_dir<long long>(w, p); } }); });
}
MC_MAIN("P13_grids", enumerate)
