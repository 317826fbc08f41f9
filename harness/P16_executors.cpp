// P16: every local executor transforms exactly the lines of its box.
#include "tx.h"
using namespace hx;
namespace be = heffte::backend;
using heffte::make_executor; using heffte::make_executor_r2c;

// how the executor is made: dims listed in `dirs` (1, 2 or 3 of them)
struct Ex { World w; int order; std::vector<int> dirs; };
static std::string str(Ex const &e){ std::string s = hx::str(e.w) + fmt(" order=%d dirs=", e.order); for(int d : e.dirs) s += std::to_string(d); return s; }
template<class BE, class index> std::unique_ptr<typename heffte::one_dim_backend<BE>::executor> make(Ex const &e){
    auto b = tobox<index>(whole(e.w), ORDERS[e.order]);
    if (e.dirs.size() == 1) return make_executor<BE>(nullptr, b, e.dirs[0]);
    if (e.dirs.size() == 2) return make_executor<BE>(nullptr, b, e.dirs[0], e.dirs[1]);
    return make_executor<BE>(nullptr, b);
}
static Field ref_of(Ex const &e, Field f, Kind k){ for(int d : e.dirs) apply_dim(e.w, f, d, k); return f; }
template<class T> static double mag(Field const &f){ return std::max<double>(1, (double)maxabs(f)); }
template<class T> static Buf<T> load(World const &w, int o, Field const &f, size_t shift = 0){ std::vector<Field const*> v(1, &f); return fill<T>(w, whole(w), ORDERS[o], v, shift); }
template<class T> static void check(char const *what, World const &w, int o, Field const &f, double factor, double tl, Buf<T> const &b){
    std::vector<Field const*> v(1, &f); compare(what, w, whole(w), ORDERS[o], v, factor, tl, b);
    HX_REQUIRE(b.guards_ok(), "%s wrote outside the data", what);
}
template<class X> static void sizes(X const &x, Ex const &e){ HX_REQUIRE(x.box_size() == count(e.w), "box_size %d, expected %ld", x.box_size(), count(e.w)); }

// complex transforms, also with the real-valued convenience overloads
template<class BE, class T, class index = int> static void c2c(Ex const &e, int salt){
    typedef std::complex<T> C;
    auto x = make<BE, index>(e); sizes(*x, e);
    HX_REQUIRE(x->complex_size() == count(e.w), "complex_size");
    Field src = source(e.w, 0, salt, true), F = ref_of(e, src, K_DFT_F), G = ref_of(e, src, K_DFT_B), rs = source(e.w, 0, salt, false), RF = ref_of(e, rs, K_DFT_F);
    double tl = tol<C>(e.w, 2), npt = 1; for(int d : e.dirs) npt *= e.w.n[d];
    for(int rep=0; rep<2; rep++){
        size_t sh = rep ? 32 : 0;
        Buf<C> work(x->workspace_size(), 0xEE);
        { auto b = load<C>(e.w, e.order, src, sh); x->forward(b.data(), work.data()); check("forward", e.w, e.order, F, 1, tl * mag<T>(F), b); }
        { auto b = load<C>(e.w, e.order, src, sh); x->backward(b.data(), work.data()); check("backward", e.w, e.order, G, 1, tl * mag<T>(G), b); }
        { auto r = load<T>(e.w, e.order, rs); auto s = r.snapshot(); Buf<C> o(count(e.w), 0x33, sh); x->forward(r.data(), o.data(), work.data()); check("real forward", e.w, e.order, RF, 1, tl * mag<T>(RF), o); HX_REQUIRE(r.same(s), "the real input was changed"); }
        { auto b = load<C>(e.w, e.order, RF); Buf<T> o(count(e.w), 0x33); x->backward(b.data(), o.data(), work.data()); check("real backward", e.w, e.order, rs, npt, tl * npt * mag<T>(rs), o); HX_REQUIRE(b.guards_ok(), "wrote outside the data"); }
        HX_REQUIRE(work.guards_ok(), "wrote outside the workspace");
    }
}
// the shortened spectrum of real data
template<class BE, class T, class index = int> static void r2c(Ex const &e, int salt){
    typedef std::complex<T> C; int d = e.dirs[0]; World h = half(e.w, d);
    auto x = make_executor_r2c<BE>(nullptr, tobox<index>(whole(e.w), ORDERS[e.order]), d); sizes(*x, e);
    HX_REQUIRE(x->complex_size() == count(h), "complex_size %d, expected %ld", x->complex_size(), count(h));
    Field src = source(e.w, 0, salt, false), full = ref_of(e, src, K_DFT_F), F(count(h));
    for(int c2=0; c2<h.n[2]; c2++) for(int c1=0; c1<h.n[1]; c1++) for(int c0=0; c0<h.n[0]; c0++) F[((long)c2 * h.n[1] + c1) * h.n[0] + c0] = full[((long)c2 * e.w.n[1] + c1) * e.w.n[0] + c0];
    double tl = tol<C>(e.w, 2);
    for(int rep=0; rep<2; rep++){
        Buf<C> work(x->workspace_size(), 0xEE);
        { auto b = load<T>(e.w, e.order, src); auto s = b.snapshot(); Buf<C> o(count(h), 0x33); x->forward(b.data(), o.data(), work.data()); check("r2c", h, e.order, F, 1, tl * mag<T>(F), o); HX_REQUIRE(b.same(s), "the real input was changed"); }
        { auto b = load<C>(h, e.order, F); Buf<T> o(count(e.w), 0x33); x->backward(b.data(), o.data(), work.data()); check("c2r", e.w, e.order, src, e.w.n[d], tl * e.w.n[d] * mag<T>(src), o); HX_REQUIRE(b.guards_ok(), "wrote outside the data"); }
        HX_REQUIRE(work.guards_ok(), "wrote outside the workspace");
    }
}
template<class BE, class T, class index = int> static void r2r(Ex const &e, int salt){
    auto x = make<BE, index>(e); sizes(*x, e);
    Kind kf = bek<BE>::f(), kb = bek<BE>::b();
    Field src = source(e.w, 0, salt, false), F = ref_of(e, src, kf), G = ref_of(e, src, kb);
    double fac = 1; World u; for(int d : e.dirs){ u.low = {{0,0,0}}; u.n = {{2, 2, 2}}; double base = full_scale<BE>(u); u.n[d] = e.w.n[d]; double c = std::cbrt(1.0 / (base * (kf == K_COS1 ? 1 : kf == K_SIN1 ? 27 : 8))); fac *= c * (kf == K_COS1 ? e.w.n[d] - 1 : kf == K_SIN1 ? e.w.n[d] + 1 : e.w.n[d]); }
    double tl = tol<T>(e.w, 4) * 2;
    for(int rep=0; rep<2; rep++){
        Buf<T> work(x->workspace_size(), 0xEE);
        { auto b = load<T>(e.w, e.order, src); x->forward(b.data(), work.data()); check("forward", e.w, e.order, F, 1, tl * mag<T>(F), b); }
        { auto b = load<T>(e.w, e.order, src); x->backward(b.data(), work.data()); check("backward", e.w, e.order, G, fac, tl * fac * mag<T>(G), b); }
        HX_REQUIRE(work.guards_ok(), "wrote outside the workspace");
    }
}
static std::string in_sim(std::function<void()> const &f){ return mc::simulate(1, [&](int){ f(); }, 0); }
template<class F> static void t1(mc::Ctx &c, char const *n, Ex const &e, int salt, F const &f){ c.test([&]{ return std::string(n) + " " + str(e) + fmt(" salt=%d", salt); }, [&]{ return in_sim([&]{ f(e, salt); }); }); }
template<class BE> static void fft(mc::Ctx &c, Ex const &e, int salt = 0){
    std::string n = bek<BE>::name();
    bool ok = e.dirs.size() == 1 || (e.dirs.size() == 2 && heffte::has_executor2d<BE>()) || (e.dirs.size() == 3 && heffte::has_executor3d<BE>());
    if (ok){
        t1(c, (n + " d").c_str(), e, salt, [](Ex const &x, int s){ c2c<BE, double>(x, s); });
        t1(c, (n + " f").c_str(), e, salt, [](Ex const &x, int s){ c2c<BE, float>(x, s); });
        t1(c, (n + " dL").c_str(), e, salt, [](Ex const &x, int s){ c2c<BE, double, long long>(x, s); });
    }
    if (e.dirs.size() == 1){
        t1(c, (n + "_r2c d").c_str(), e, salt, [](Ex const &x, int s){ r2c<BE, double>(x, s); });
        t1(c, (n + "_r2c f").c_str(), e, salt, [](Ex const &x, int s){ r2c<BE, float>(x, s); });
        t1(c, (n + "_r2c fL").c_str(), e, salt, [](Ex const &x, int s){ r2c<BE, float, long long>(x, s); });
    }
}
template<class BE> static void rr(mc::Ctx &c, Ex const &e, bool ordered, int salt = 0){
    std::string n = bek<BE>::name();
    if (ordered && (e.dirs.size() != 1 || e.dirs[0] != ORDERS[e.order][0])) return;
    if (!(e.dirs.size() == 1 || (e.dirs.size() == 2 && heffte::has_executor2d<BE>()) || (e.dirs.size() == 3 && heffte::has_executor3d<BE>()))) return;
    if (bek<BE>::f() == K_COS1) for(int d : e.dirs) if (e.w.n[d] < 2) return;
    t1(c, (n + " d").c_str(), e, salt, [](Ex const &x, int s){ r2r<BE, double>(x, s); });
    t1(c, (n + " f").c_str(), e, salt, [](Ex const &x, int s){ r2r<BE, float>(x, s); });
}
static void all(mc::Ctx &c, Ex const &e, int salt = 0){
#ifdef VERIF_MKL
    fft<be::mkl>(c, e, salt); rr<be::mkl_cos>(c, e, true, salt); rr<be::mkl_sin>(c, e, true, salt);
#else
    fft<be::fftw>(c, e, salt); fft<be::stock>(c, e, salt);
    rr<be::fftw_cos>(c, e, false, salt); rr<be::fftw_sin>(c, e, false, salt); rr<be::fftw_cos1>(c, e, false, salt); rr<be::fftw_sin1>(c, e, false, salt);
    rr<be::stock_cos>(c, e, true, salt); rr<be::stock_sin>(c, e, true, salt); rr<be::stock_cos1>(c, e, true, salt);
#endif
}
static const std::vector<std::vector<int>> DIRS = {{0}, {1}, {2}, {0,1}, {1,0}, {0,2}, {2,0}, {1,2}, {2,1}, {0,1,2}};
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; int k = 0;
    for(auto w : worlds(1, th ? 6 : 5)) for(int o=0; o<6; o++) for(auto const &d : DIRS){ if (k++ % 3 == 1) w.low = {{3, 1, 2}}; else w.low = {{0,0,0}}; all(c, {w, o, d}); }
    // every basis vector: the matrix of the linear map
    for(auto const &w : std::vector<World>{W(3,2,4), W(2,3,1), W(4,1,3)}) for(int o=0; o<6; o++) for(auto const &d : DIRS) for(int i=0; i<count(w); i++) all(c, {w, o, d}, 1000 + i);
    // long lines with every number of lines around the vector width, in each direction and position of the order
    for(int n=5; n<=(th ? 100 : 40); n++) for(int dir=0; dir<3; dir++) for(int o=0; o<6; o++) for(int m=0; m<(th ? 9 : 5); m++){
        World w = W(1 + (n + m) % 4, 1 + (n / 3 + 2 * m) % 5, 1 + (n + o + m) % 3); w.n[dir] = n; all(c, {w, o, {dir}});
    }
    for(int a=2; a<=(th ? 20 : 10); a+=2) for(int b=3; b<=(th ? 20 : 9); b+=3) for(int o=0; o<6; o++) for(auto const &d : DIRS) if (d.size() > 1) all(c, {W(a, b, 1 + (a + b) % 4), o, d});
    // empty boxes have no executor
    for(int o=0; o<6; o++) c.test(fmt("empty %d", o), [=]{ return in_sim([&]{
        for(auto const &hi : std::vector<std::array<int,3>>{{{-1,2,2}}, {{2,-1,2}}, {{2,2,-1}}, {{-1,-1,-1}}}){
            box3d<> b({{0,0,0}}, hi, ORDERS[o]);
            HX_REQUIRE(!make_executor<be::fftw>(nullptr, b, 0) && !make_executor<be::fftw>(nullptr, b, 0, 1) && !make_executor<be::fftw>(nullptr, b) && !make_executor_r2c<be::fftw>(nullptr, b, 1), "executor of an empty box");
            HX_REQUIRE(!make_executor<be::stock>(nullptr, b, 0) && !make_executor_r2c<be::stock>(nullptr, b, 1), "executor of an empty box");
        } }); });
}
MC_MAIN("P16_executors", enumerate)
