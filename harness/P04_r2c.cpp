// P04: the real-to-complex transform is the non-redundant half of the DFT, for every distribution.
#include "tx.h"
using namespace hx;
#ifdef VERIF_MKL   // MKL in the place of FFTW, the stock back end is left out
typedef heffte::backend::mkl FFTW;
enum { HAVE_STOCK = 0 };
#else
typedef heffte::backend::fftw FFTW;
enum { HAVE_STOCK = 1 };
#endif
typedef heffte::backend::stock STOCK;
static uint64_t K = 0;
// one pair of layouts: both back ends, with and without reorder, pencils and slabs (thorough: all algorithms, both precisions)
static void one(mc::Ctx &c, World const &w, int d, Part const &in, Part const &out, int oi, int oo, int salt = 0){
    bool full = c.thorough && in.size() > 1;
    for(int v=0; v<(full ? 64 : 8); v++) if (HAVE_STOCK || (v & 4) == 0){
        TC t; t.w = w; t.in = in; t.out = out; t.oi = oi; t.oo = oo; t.salt = salt; t.r2c = d;
        auto r = vary(t, K++, false, 3);
        t.reorder = v & 1; t.pencils = (v >> 1) & 1; bool fl = r[8];
        if (full){ t.alg = (v >> 3) & 3; fl = (v >> 5) & 1; }
        if (v & 4){ if (fl) test_r2c<STOCK, float>(c, t); else test_r2c<STOCK, double>(c, t); }
        else{ if (fl) test_r2c<FFTW, float>(c, t); else test_r2c<FFTW, double>(c, t); }
    }
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough;
    for(auto const &w : worlds(1, th ? 6 : 4)) for(int d=0; d<3; d++) for(int oi=0; oi<6; oi++) for(int oo=0; oo<6; oo++) one(c, w, d, {whole(w)}, {whole(half(w, d))}, oi, oo);
    std::vector<World> wb = {{{{2,2,2}}, {{0,0,0}}}, {{{3,2,2}}, {{0,0,0}}}, {{{2,3,1}}, {{0,0,0}}}, {{{1,3,4}}, {{0,0,0}}}, {{{4,2,3}}, {{0,0,0}}}};
    if (th){ wb.push_back({{{3,4,5}}, {{0,0,0}}}); wb.push_back({{{5,1,5}}, {{0,0,0}}}); }
    for(auto const &w : wb) for(int d=0; d<3; d++){
        auto pi = with_perms(guillotine(w, 2, true), true), po = with_perms(guillotine(half(w, d), 2, true), true);
        for(auto const &a : pi) for(auto const &b : po) for(int oi=0; oi<6; oi++) for(int oo=0; oo<6; oo++)one(c, w, d, a, b, oi, oo);
    }
    for(auto const &w : std::vector<World>{{{{3,3,2}}, {{0,0,0}}}, {{{2,2,4}}, {{0,0,0}}}, {{{4,3,3}}, {{0,0,0}}}}) for(int d=0; d<3; d++){
        auto pi = guillotine(w, 3, true), po = with_perms(guillotine(half(w, d), 3, true), th);
        for(auto const &a : pi) for(auto const &b : po){ int o = next36(); one(c, w, d, a, b, o % 6, o / 6); }
    }
    std::vector<std::pair<int, World>> wd = {{4, {{{4,3,5}}, {{0,0,0}}}}, {4, {{{2,2,2}}, {{0,0,0}}}}, {5, {{{9,10,8}}, {{0,0,0}}}}, {6, {{{6,5,6}}, {{0,0,0}}}}, {6, {{{11,6,11}}, {{0,0,0}}}}, {7, {{{13,12,13}}, {{0,0,0}}}}, {8, {{{4,6,7}}, {{0,0,0}}}}, {8, {{{8,4,9}}, {{0,0,0}}}}, {4, {{{8,9,1}}, {{0,0,0}}}}, {6, {{{1,12,11}}, {{0,0,0}}}}, {4, {{{8,1,7}}, {{0,0,0}}}}};
    if (th){ wd.push_back({9, {{{9,6,10}}, {{0,0,0}}}}); wd.push_back({12, {{{6,7,8}}, {{0,0,0}}}}); wd.push_back({16, {{{8,8,8}}, {{0,0,0}}}}); wd.push_back({10, {{{20,19,1}}, {{0,0,0}}}}); }
    for(auto const &x : wd) for(int d=0; d<3; d++){
        auto g = with_perms(grids(x.second, x.first), false), h = with_perms(grids(half(x.second, d), x.first), false);
        for(auto const &a : g) for(auto const &b : h) { int o = next36(); one(c, x.second, d, a, b, o % 6, o / 6); }
    }
    // idle ranks
    for(auto const &w : std::vector<World>{W(3,3,3), W(2,2,5), W(4,3,2)}) for(int d=0; d<3; d++){
        auto e = guillotine(w, 2, false), f = guillotine(half(w, d), 2, false); B none = {{{0,0,0}}, {{-1,-1,-1}}};
        for(auto const &a : e) for(auto const &b : f) for(int v=0; v<(th ? 36 : 3); v++){
            Part p = {none, a[0], none, a[1]}, q = {b[1], none, none, b[0]}, u = {none, none, whole(w), none}, uo = {none, none, whole(half(w, d)), none};
            int o = next36(); one(c, w, d, p, q, o % 6, o / 6); one(c, w, d, p, uo, o / 6, o % 6); o = next36(); one(c, w, d, u, q, o % 6, o / 6); one(c, w, d, u, uo, o / 6, o % 6);
        }
    }
    // basis vectors
    for(auto const &w : std::vector<World>{{{{3,2,4}}, {{0,0,0}}}, {{{2,5,3}}, {{0,0,0}}}}) for(int d=0; d<3; d++) for(int np : {1, 2, 4}){
        auto g = grids(w, np), h = grids(half(w, d), np);
        for(auto const &a : g) for(auto const &b : h) for(int q=0; q<count(w); q++) one(c, w, d, a, b, q % 6, (q / 2) % 6, 1000 + q);
    }
    for(auto const &w : std::vector<World>{{{{16,9,4}}, {{0,0,0}}}, {{{7,12,25}}, {{0,0,0}}}, {{{32,3,11}}, {{0,0,0}}}, {{{13,20,6}}, {{0,0,0}}}}) for(int d=0; d<3; d++) for(int np : {1, 2, 3, 6}){
        auto g = grids(w, np), h = grids(half(w, d), np);
        for(auto const &a : g) for(auto const &b : h){ int o = next36(); one(c, w, d, a, b, o % 6, o / 6); }
    }
    // more ranks
    for(auto const &x : std::vector<std::pair<int, World>>{{9, W(9,4,10)}, {10, W(10,10,1)}, {12, W(6,7,8)}, {13, W(13,2,13)}, {16, W(8,6,4)}, {24, W(5,6,7)}, {32, W(8,8,8)}}) for(auto const &l : layouts(2, {x.second}, {x.first}, th ? 1 : 0)){ int o = next36(); one(c, l.w, l.r2c, l.in, l.out, o % 6, o / 6); }
}
MC_MAIN("P04_r2c", enumerate)
