// P05: the cosine and sine transforms equal their defining sums, for every distribution.
#include "tx.h"
using namespace hx;
namespace be = heffte::backend;
static uint64_t K = 0;
template<class BE> void run(mc::Ctx &c, TC const &t, bool fl){ if (fl) test_tc<BE, float>(c, t); else test_tc<BE, double>(c, t); }
// one pair of layouts; kind: 0 cos 1 sin 2 cos1 3 sin1; every back end that has the transform, pencils and slabs
static void one(mc::Ctx &c, World const &w, Part const &in, Part const &out, int oi, int oo, int kind, int salt = 0){
    if (kind == 2 && (w.n[0] < 2 || w.n[1] < 2 || w.n[2] < 2)) return;   // type I cosine needs two points
    bool full = c.thorough && in.size() > 1;
    for(int v=0; v<(full ? 64 : 8); v++){
        TC t; t.w = w; t.in = in; t.out = out; t.oi = oi; t.oo = oo; t.salt = salt;
        auto r = vary(t, K++, true, 2);
        t.pencils = v & 1; t.reorder = (v >> 1) & 1; bool fl = r[8], st = (v >> 2) & 1;
        if (full){ t.alg = (v >> 3) & 3; fl = (v >> 5) & 1; }
#ifdef VERIF_MKL
        if (st) continue;
        if (kind == 0) run<be::mkl_cos>(c, t, fl); else if (kind == 1) run<be::mkl_sin>(c, t, fl);
        continue;
#endif
        if (st && t.reorder == 0) continue; // stock always reorders
        switch(kind){
            case 0: if (st) run<be::stock_cos>(c, t, fl); else run<be::fftw_cos>(c, t, fl); break;
            case 1: if (st) run<be::stock_sin>(c, t, fl); else run<be::fftw_sin>(c, t, fl); break;
            case 2: if (st) run<be::stock_cos1>(c, t, fl); else run<be::fftw_cos1>(c, t, fl); break;
            case 3: if (!st) run<be::fftw_sin1>(c, t, fl); break;
        }
    }
}
static int next4(){ static int i = 0; return (i = (i + 1) % 5) % 4; }
static void enumerate(mc::Ctx &c){
    bool th = c.thorough;
    for(auto const &w : worlds(1, th ? 5 : 3)) for(int kind=0; kind<4; kind++) for(int oi=0; oi<6; oi++) for(int oo=0; oo<6; oo++) one(c, w, {whole(w)}, {whole(w)}, oi, oo, kind);
    std::vector<World> wb = {W(2,2,2), W(3,2,2), W(2,3,1), W(1,3,4), W(2,4,3)};
    for(auto const &w : wb){
        auto parts = with_perms(guillotine(w, 2, true), true);
        for(auto const &pi : parts) for(auto const &po : parts) for(int oi=0; oi<6; oi++) for(int oo=0; oo<6; oo++) one(c, w, pi, po, oi, oo, next4());
    }
    for(auto const &w : std::vector<World>{W(3,3,2), W(2,2,4)}){
        auto pi = guillotine(w, 3, true), po = with_perms(guillotine(w, 3, true), th);
        for(auto const &a : pi) for(auto const &b : po){ int o = next36(); one(c, w, a, b, o % 6, o / 6, next4()); }
    }
    std::vector<std::pair<int, World>> wd = {{4, W(4,3,5)}, {4, W(2,2,2)}, {5, W(5,6,5)}, {6, W(6,5,6)}, {7, W(7,8,7)}, {8, W(4,4,4)}, {8, W(8,4,9)}, {4, W(4,5,1)}};
    if (th){ wd.push_back({9, W(9,4,10)}); wd.push_back({12, W(6,7,8)}); }
    for(auto const &x : wd){
        auto g = with_perms(grids(x.second, x.first), false);
        for(auto const &a : g) for(auto const &b : g){ int o = next36(); one(c, x.second, a, b, o % 6, o / 6, next4()); }
    }
    for(auto const &w : std::vector<World>{W(3,3,3), W(2,2,5)}){
        auto e = guillotine(w, 2, false); B none = {{{0,0,0}}, {{-1,-1,-1}}};
        for(auto const &a : e) for(auto const &b : e) for(int v=0; v<(th ? 36 : 6); v++){
            Part p = {none, a[0], none, a[1]}, q = {b[1], none, none, b[0]}, u = {none, none, whole(w), none};
            int o = next36(); one(c, w, p, q, o % 6, o / 6, next4()); one(c, w, p, u, o / 6, o % 6, next4()); o = next36(); one(c, w, u, q, o % 6, o / 6, next4()); one(c, w, u, u, o / 6, o % 6, next4());
        }
    }
    for(auto const &w : std::vector<World>{W(3,2,4), W(2,5,3)}) for(int kind=0; kind<4; kind++) for(int np : {1, 2, 4}){
        auto g = grids(w, np);
        for(auto const &a : g) for(auto const &b : g) for(int d=0; d<count(w); d++) one(c, w, a, b, d % 6, (d / 2) % 6, kind, 1000 + d);
    }
    // every length up to 40 in each direction
    for(int n=2; n<=(th ? 70 : 40); n++) for(int d=0; d<3; d++) for(int kind=0; kind<4; kind++) for(int np : {1, 2}){
        World w = {{{2,2,2}}, {{0,0,0}}}; w.n[d] = n; auto g = grids(w, np);
        for(auto const &a : g) for(auto const &b : g){ int o = next36(); one(c, w, a, b, o % 6, o / 6, kind); }
    }
    // more ranks
    for(auto const &x : std::vector<std::pair<int, World>>{{9, W(9,4,10)}, {10, W(10,10,1)}, {12, W(6,7,8)}, {13, W(13,2,13)}, {16, W(8,6,4)}, {24, W(5,6,7)}, {32, W(8,8,8)}}) for(auto const &l : layouts(4, {x.second}, {x.first}, th ? 1 : 0)){ int o = next36(); one(c, l.w, l.in, l.out, o % 6, o / 6, next4()); }
}
MC_MAIN("P05_r2r", enumerate)
