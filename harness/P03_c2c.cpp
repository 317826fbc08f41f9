// P03: the complex transform equals the 3D DFT for every distribution of the boxes.
#include "tx.h"
using namespace hx;
#ifdef VERIF_MKL   // MKL in the place of FFTW, the stock back end is left out
typedef heffte::backend::mkl FFTW;
enum { HAVE_STOCK = 0 };
#else
typedef heffte::backend::fftw FFTW;
enum { HAVE_STOCK = 1 };
#endif
typedef heffte::backend::stock STOCK;

static uint64_t K = 0;
// one pair of layouts: both back ends, with and without reorder, pencils and slabs (thorough: all algorithms, both precisions)
static void one(mc::Ctx &c, World const &w, Part const &in, Part const &out, int oi, int oo, int salt = 0){
    bool full = c.thorough && in.size() > 1;
    for(int v=0; v<(full ? 64 : 8); v++) if (HAVE_STOCK || (v & 4) == 0){
        TC t; t.w = w; t.in = in; t.out = out; t.oi = oi; t.oo = oo; t.salt = salt;
        uint64_t k = K++; t.realin = k % 5 == 0;
        auto r = vary(t, k, !t.realin, 2);
        t.reorder = v & 1; t.pencils = (v >> 1) & 1; bool fl = r[8];
        if (full){ t.alg = (v >> 3) & 3; fl = (v >> 5) & 1; }
        if (v & 4){ if (fl) test_tc<STOCK, float>(c, t); else test_tc<STOCK, double>(c, t); }
        else{ if (fl) test_tc<FFTW, float>(c, t); else test_tc<FFTW, double>(c, t); }
    }
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough;
    // A: one rank: every small world, every order pair, every planner
    for(auto const &w : worlds(1, th ? 6 : 4)) for(int oi=0; oi<6; oi++) for(int oo=0; oo<6; oo++) one(c, w, {whole(w)}, {whole(w)}, oi, oo);
    // B: two ranks: every pair of guillotine partitions with empty ranks and both rank orders
    std::vector<World> wb = {{{{2,2,2}}, {{0,0,0}}}, {{{3,2,2}}, {{0,0,0}}}, {{{2,3,1}}, {{0,0,0}}}, {{{1,3,4}}, {{0,0,0}}}, {{{2,4,3}}, {{0,0,0}}}};
    if (th){ wb.push_back({{{3,4,5}}, {{0,0,0}}}); wb.push_back({{{5,1,5}}, {{0,0,0}}}); }
    for(auto const &w : wb){
        auto parts = with_perms(guillotine(w, 2, true), true);
        for(auto const &pi : parts) for(auto const &po : parts) for(int oi=0; oi<6; oi++) for(int oo=0; oo<6; oo++) one(c, w, pi, po, oi, oo);
    }
    // C: three ranks: every pair of guillotine partitions, with empty ranks on the output side
    std::vector<World> wc = {{{{3,3,2}}, {{0,0,0}}}, {{{2,2,4}}, {{0,0,0}}}};
    for(auto const &w : wc){
        auto pi = guillotine(w, 3, true), po = with_perms(guillotine(w, 3, true), th);
        for(auto const &a : pi) for(auto const &b : po) { int o = next36(); one(c, w, a, b, o % 6, o / 6); o = next36(); one(c, w, b, a, o % 6, o / 6); }
    }
    // D: grids of 4..8 ranks (bricks, pencils, slabs), all orders for the natural rank order
    std::vector<std::pair<int, World>> wd = {{4, {{{4,3,5}}, {{0,0,0}}}}, {4, {{{2,2,2}}, {{0,0,0}}}}, {5, {{{5,6,5}}, {{0,0,0}}}}, {6, {{{6,5,6}}, {{0,0,0}}}}, {6, {{{6,3,2}}, {{0,0,0}}}}, {7, {{{7,8,7}}, {{0,0,0}}}}, {8, {{{4,4,4}}, {{0,0,0}}}}, {8, {{{8,2,9}}, {{0,0,0}}}}, {4, {{{4,5,1}}, {{0,0,0}}}}, {6, {{{1,6,7}}, {{0,0,0}}}}, {6, {{{8,1,6}}, {{0,0,0}}}}};
    if (th){ wd.push_back({9, {{{9,4,10}}, {{0,0,0}}}}); wd.push_back({12, {{{6,7,8}}, {{0,0,0}}}}); wd.push_back({16, {{{8,8,8}}, {{0,0,0}}}}); wd.push_back({10, {{{10,10,1}}, {{0,0,0}}}}); }
    for(auto const &x : wd){
        auto g = with_perms(grids(x.second, x.first), false);
        for(auto const &a : g) for(auto const &b : g) { int o = next36(); one(c, x.second, a, b, o % 6, o / 6); }
    }
    // E: four ranks: every pair of irregular partitions; idle ranks
    std::vector<World> we = {W(2,2,2), W(3,2,1)}; if (th){ we.push_back(W(3,2,2)); we.push_back(W(1,4,3)); }
    for(auto const &w : we){
        auto g = guillotine(w, 4, false);
        for(auto const &a : g) for(auto const &b : g){ int o = next36(); one(c, w, a, Part(b.rbegin(), b.rend()), o % 6, o / 6); }
    }
    for(auto const &w : std::vector<World>{W(3,3,3), W(2,2,5)}){
        auto e = guillotine(w, 2, false); B none = {{{0,0,0}}, {{-1,-1,-1}}};
        for(auto const &a : e) for(auto const &b : e) for(int v=0; v<(th ? 36 : 6); v++){
            Part p = {none, a[0], none, a[1]}, q = {b[1], none, none, b[0]}, u = {none, none, whole(w), none};
            int o = next36(); one(c, w, p, q, o % 6, o / 6); one(c, w, p, u, o / 6, o % 6); o = next36(); one(c, w, u, q, o % 6, o / 6);
        }
    }
    // F: every basis vector of small worlds
    for(auto const &w : std::vector<World>{{{{3,2,4}}, {{0,0,0}}}, {{{2,5,3}}, {{0,0,0}}}}) for(int np : {1, 2, 4}){
        auto g = grids(w, np);
        for(auto const &a : g) for(auto const &b : g) for(int d=0; d<count(w); d++) one(c, w, a, b, d % 6, (d / 2) % 6, 1000 + d);
    }
    // G: longer lines, mixed radices
    for(auto const &w : std::vector<World>{{{{16,9,4}}, {{0,0,0}}}, {{{7,12,25}}, {{0,0,0}}}, {{{32,3,11}}, {{0,0,0}}}, {{{13,20,6}}, {{0,0,0}}}}) for(int np : {1, 2, 3, 6}){
        auto g = grids(w, np);
        for(auto const &a : g) for(auto const &b : g){ int o = next36(); one(c, w, a, b, o % 6, o / 6); }
    }
    // H: more ranks
    for(auto const &x : std::vector<std::pair<int, World>>{{9, W(9,4,10)}, {10, W(10,10,1)}, {12, W(6,7,8)}, {13, W(13,2,13)}, {16, W(8,6,4)}, {24, W(5,6,7)}, {32, W(8,8,8)}}) for(auto const &l : layouts(0, {x.second}, {x.first}, th ? 1 : 0)){ int o = next36(); one(c, l.w, l.in, l.out, o % 6, o / 6); }
}
MC_MAIN("P03_c2c", enumerate)
