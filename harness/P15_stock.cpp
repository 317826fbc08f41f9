// P15: the built-in one-dimensional FFT equals the DFT for every length and layout.
#include "hx.h"
using namespace hx;
using heffte::direction;
typedef long double ld;
static std::vector<cld> const &twid(int n){
    static std::map<int, std::vector<cld>> m; auto &v = m[n];
    if (v.empty()){ const ld PI = 3.141592653589793238462643383279502884L; for(int i=0; i<n; i++) v.push_back(cld(cosl(2 * PI * i / n), sinl(2 * PI * i / n))); if (m.size() > 400){ auto x = v; m.clear(); m[n] = x; return m[n]; } }
    return v;
}
// forward has the negative exponent
static std::vector<cld> dft(std::vector<cld> const &x, bool fwd){
    int n = (int)x.size(); auto const &t = twid(n); std::vector<cld> y(n);
    for(int k=0; k<n; k++){ cld s = 0; for(int j=0; j<n; j++){ if (x[j] == cld(0)) continue; cld w = t[(long)k * j % n]; s += x[j] * (fwd ? std::conj(w) : w); } y[k] = s; }
    return y;
}
static ld l1(std::vector<cld> const &x){ ld s = 0; for(auto const &v : x) s += std::abs(v); return s; }
template<class F> static double eps(){ return sizeof(F) == 4 ? 6e-8 : 1.2e-16; }
static double worst = 0; static bool delta = false;
// allowed error per unit of the 1-norm of the input: the twiddle factors are made by recurrences
template<class F> static double allow(int n){ return eps<F>() * (16 + 5.0 * n + (delta ? 0.6 : 0.12) * n * n); }
template<class F> static void cmp(char const *what, int n, int line, int k, std::complex<F> got, cld want, ld norm){
    ld d = std::abs(cld(got.real(), got.imag()) - want); ld r = d / (eps<F>() * std::max<ld>(norm, 1e-30L));
    if (r > worst) worst = r;
    HX_REQUIRE(d <= allow<F>(n) * norm && d == d, "%s n=%d line %d entry %d: got (%.9g,%.9g) expected (%.9Lg,%.9Lg)", what, n, line, k, (double)got.real(), (double)got.imag(), want.real(), want.imag());
}
static cld input(int salt, int n, int line, int j, bool cplx){
    if (salt > 0) return (j == (salt - 1 + line) % n) ? cld(1 + line, cplx ? -0.5L : 0) : cld(0);
    return cld(rnd(j, line * 131 + n, 3), cplx ? rnd(j, line * 131 + n, 4) : 0);
}
struct L { int n, num, stride, dist; };
template<class F, direction dir> static void c2c(L const &l, int salt){
    typedef std::complex<F> C;
    size_t len = (size_t)(l.n - 1) * l.stride + (size_t)(l.num - 1) * l.dist + 1;
    Buf<C> b(len, 0x5A); std::vector<unsigned char> used(len, 0);
    auto before = b.snapshot(); delta = salt > 0;
    for(int p=0; p<l.num; p++) for(int j=0; j<l.n; j++){ cld v = input(salt, l.n, p, j, true); b[(size_t)p * l.dist + (size_t)j * l.stride] = C((F)v.real(), (F)v.imag()); used[(size_t)p * l.dist + (size_t)j * l.stride] = 1; }
    std::vector<std::vector<cld>> x(l.num);
    for(int p=0; p<l.num; p++) for(int j=0; j<l.n; j++){ C v = b[(size_t)p * l.dist + (size_t)j * l.stride]; x[p].push_back(cld(v.real(), v.imag())); }
    heffte::plan_stock_fft<C, dir> plan(l.n, l.num, l.stride, l.dist);
    std::vector<std::vector<cld>> ref; std::vector<ld> nrm; for(int p=0; p<l.num; p++) { ref.push_back(dft(x[p], dir == direction::forward)); nrm.push_back(l1(x[p])); }
    for(int rep=0; rep<2; rep++){
        plan.execute(b.data());
        HX_REQUIRE(b.guards_ok(), "n=%d wrote outside the data", l.n);
        for(size_t i=0; i<len; i++) if (!used[i]) HX_REQUIRE(memcmp(&b[i], &before[i * sizeof(C)], sizeof(C)) == 0, "n=%d num=%d stride=%d dist=%d: wrote between the lines at %zu", l.n, l.num, l.stride, l.dist, i);
        for(int p=0; p<l.num; p++){
            auto const &y = ref[p];
            for(int k=0; k<l.n; k++) cmp<F>(dir == direction::forward ? "forward" : "backward", l.n, p, k, b[(size_t)p * l.dist + (size_t)k * l.stride], y[k], nrm[p]);
        }
        if (rep == 0) for(int p=0; p<l.num; p++) for(int j=0; j<l.n; j++) b[(size_t)p * l.dist + (size_t)j * l.stride] = C((F)x[p][j].real(), (F)x[p][j].imag());
    }
}
// real to complex and back; the layouts of both sides share the stride
template<class F> static void r2c(L const &l, int cdist, int salt){
    typedef std::complex<F> C; int nc = l.n / 2 + 1;
    size_t rl = (size_t)(l.n - 1) * l.stride + (size_t)(l.num - 1) * l.dist + 1, cl = (size_t)(nc - 1) * l.stride + (size_t)(l.num - 1) * cdist + 1;
    Buf<F> r(rl, 0x5A); Buf<C> c(cl, 0x6B); std::vector<unsigned char> ur(rl, 0), uc(cl, 0);
    auto cb = c.snapshot(); delta = salt > 0;
    std::vector<std::vector<cld>> x(l.num);
    for(int p=0; p<l.num; p++) for(int j=0; j<l.n; j++){ F v = (F)input(salt, l.n, p, j, false).real(); size_t q = (size_t)p * l.dist + (size_t)j * l.stride; r[q] = v; ur[q] = 1; x[p].push_back(cld(v, 0)); }
    auto rb = r.snapshot();
    heffte::plan_stock_fft<F, direction::forward> f(l.n, l.num, l.stride, l.dist, cdist);
    f.execute(r.data(), c.data());
    HX_REQUIRE(r.same(rb) && r.guards_ok() && c.guards_ok(), "r2c n=%d changed its input or wrote outside", l.n);
    std::vector<std::vector<cld>> ref; std::vector<ld> nrm;
    for(int p=0; p<l.num; p++){
        ref.push_back(dft(x[p], true)); nrm.push_back(l1(x[p])); auto const &y = ref[p];
        for(int k=0; k<nc; k++){ size_t q = (size_t)p * cdist + (size_t)k * l.stride; uc[q] = 1; cmp<F>("r2c", l.n, p, k, c[q], y[k], nrm[p]); }
    }
    for(size_t i=0; i<cl; i++) if (!uc[i]) HX_REQUIRE(memcmp(&c[i], &cb[i * sizeof(C)], sizeof(C)) == 0, "r2c n=%d: wrote between the lines at %zu", l.n, i);
    // back: the exact spectrum rounded to the precision
    for(int p=0; p<l.num; p++){ auto const &y = ref[p]; for(int k=0; k<nc; k++) c[(size_t)p * cdist + (size_t)k * l.stride] = C((F)y[k].real(), (k == 0 || 2 * k == l.n) ? (F)0 : (F)y[k].imag()); }
    auto cs = c.snapshot(); Buf<F> o(rl, 0x7C); auto ob = o.snapshot();
    heffte::plan_stock_fft<F, direction::backward> g(l.n, l.num, l.stride, l.dist, cdist);
    g.execute(c.data(), o.data());
    HX_REQUIRE(c.same(cs) && o.guards_ok() && c.guards_ok(), "c2r n=%d changed its input or wrote outside", l.n);
    for(int p=0; p<l.num; p++) for(int j=0; j<l.n; j++) cmp<F>("c2r", l.n, p, j, std::complex<F>(o[(size_t)p * l.dist + (size_t)j * l.stride], 0), x[p][j] * (ld)l.n, nrm[p] * std::max(1, l.n));
    for(size_t i=0; i<rl; i++) if (!ur[i]) HX_REQUIRE(memcmp(&o[i], &ob[i * sizeof(F)], sizeof(F)) == 0, "c2r n=%d: wrote between the lines at %zu", l.n, i);
}
// Rader's algorithm on primes below the size where the planner selects it; V lanes with different data
template<class F, int V> static void raderT(int n){
    using namespace heffte::stock;
    size_t nodes = 1 + getNumNodes(n - 1);
    std::unique_ptr<biFuncNode<F, V>[]> root(new biFuncNode<F, V>[nodes]);
    size_t a = primeRoot(n);
    { std::vector<int> seen(n, 0); size_t v = 1; for(int i=0; i<n-1; i++){ HX_REQUIRE(v > 0 && !seen[v], "primeRoot(%d) = %zu is not a primitive root", n, a); seen[v] = 1; v = v * a % n; } }
    size_t ainv = modPow(a, n - 2, n);
    HX_REQUIRE(a * ainv % n == 1, "inverse of the root of %d", n);
    root[0] = biFuncNode<F, V>(n, a, ainv); init_fft_tree(root.get() + 1, n - 1); root[0].left = 1; root[0].right = 1 + getNumNodes(n - 1);
    constexpr int K = V == 1 ? 1 : V / 2;
    for(int d=0; d<2; d++) for(int salt : {0, 1, 2, n}){
        complex_vector<F, V> x(n), y(n); std::vector<std::vector<cld>> in(K);
        for(int j=0; j<n; j++){
            std::complex<F> v[K + 8];
            for(int l=0; l<K; l++){ cld s = input(salt, n, l, j, true); v[l] = std::complex<F>((F)s.real(), (F)s.imag()); in[l].push_back(cld(v[l].real(), v[l].imag())); }
            x[j] = Complex<F, V>(v);
        }
        root[0].fptr(x.data(), y.data(), 1, 1, root.get(), d ? direction::backward : direction::forward);
        for(int l=0; l<K; l++){
            auto w = dft(in[l], d == 0);
            for(int k=0; k<n; k++){
                // the phase p(km + a^k) is evaluated in the working precision: the error grows with the square of n
                std::complex<F> g = y[k][l]; ld e = std::abs(cld(g.real(), g.imag()) - w[k]);
                HX_REQUIRE(e <= eps<F>() * (20 + 8.0 * n * n) * std::max<ld>(l1(in[l]), 1e-30L), "rader n=%d lanes=%d lane %d entry %d: got (%g,%g) expected (%Lg,%Lg)", n, V, l, k, (double)g.real(), (double)g.imag(), w[k].real(), w[k].imag());
            }
        }
    }
}
static bool isprime(size_t n){ if (n < 2) return false; for(size_t k=2; k*k<=n; k++) if (n % k == 0) return false; return true; }
static std::string classify(size_t lo, size_t hi){
    using namespace heffte::stock;
    for(size_t n=lo; n<hi; n++){
        auto p = fptrFactorHelper(n);
        switch(p.first){
            case pow2: { size_t k = n; while(k % 2 == 0) k /= 2; if (k != 1 || n < 2) return fmt("length %zu taken for a power of two", n); break; }
            case pow4: { size_t k = n; while(k % 4 == 0) k /= 4; if (k != 1 || n < 4) return fmt("length %zu taken for a power of four", n); break; }
            case pow3: { size_t k = n; while(k % 3 == 0) k /= 3; if (k != 1 || n < 3) return fmt("length %zu taken for a power of three", n); break; }
            case composite: if (p.second <= 1 || p.second >= n || n % p.second) return fmt("length %zu split by %zu", n, p.second); break;
            case discrete: if (p.second != n) return fmt("length %zu: direct sum over %zu", n, p.second); break;
            case rader: if (!isprime(n) || p.second != n - 1) return fmt("length %zu is not a prime but is given to the prime algorithm", n); break;
        }
    }
    return "";
}
template<class F, int V> static size_t tree(size_t n){ std::unique_ptr<heffte::stock::biFuncNode<F, V>[]> r(new heffte::stock::biFuncNode<F, V>[heffte::stock::getNumNodes(n) + 64]); return heffte::stock::init_fft_tree(r.get(), n); }
// construction from and storage to primitives, modulus (packs of at least one full complex number)
template<class F, int V> struct Prim { static void check(std::complex<F> const *a, heffte::stock::Complex<F, V> &x){
    using heffte::stock::Complex; constexpr int K = V / 2; alignas(64) F raw[V], out[V], mod[V];
    for(int i=0; i<K; i++){ raw[2*i] = a[i].real(); raw[2*i+1] = a[i].imag(); }
    Complex<F, V> r(raw), l(std::initializer_list<std::complex<F>>{a[0]}), z; x.get(out); x.modulus(mod); auto mv = x.modulus();
    for(int i=0; i<K; i++){
        HX_REQUIRE(r[i] == a[i] && l[i] == a[0] && z[i] == std::complex<F>(0), "lane %d of %d construction", i, K);
        HX_REQUIRE(out[2*i] == a[i].real() && out[2*i+1] == a[i].imag(), "lane %d of %d stored", i, K);
        HX_REQUIRE(std::abs(mod[i] - std::abs(a[i])) <= 40 * (F)eps<F>() * (std::abs(a[i]) + 1) && mv[2*i] == mod[i], "lane %d of %d modulus", i, K);
    }
} };
template<class F> struct Prim<F, 1> { static void check(std::complex<F> const *, heffte::stock::Complex<F, 1> &){} };
template<class F, int V> static void lanes(){
    using heffte::stock::Complex; constexpr int K = V == 1 ? 1 : V / 2; typedef std::complex<F> C;
    auto near = [](C a, C b, F m){ return std::abs(a - b) <= (F)(eps<F>() * 40) * (m + 1); };
    for(int s=0; s<40; s++){
        C a[8 + K], b[8 + K], c[8 + K]; for(int i=0; i<K; i++){ a[i] = C((F)rnd(s, i, 1) * 3, (F)rnd(s, i, 2) * 3); b[i] = C((F)rnd(s, i, 3) * 3, (F)rnd(s, i, 4) + 2); c[i] = C((F)rnd(s, i, 5), (F)rnd(s, i, 6)); }
        Complex<F, V> x(a), y(b), z(c); F m = 40;
        Complex<F, V> sum = x + y, dif = x - y, mul = x * y, quo = x / y, neg = -x, con = x.conjugate(), fma_ = x.fmadd(y, z), fms = x.fmsub(y, z), mi = x.__mul_i(), mni = x.__mul_neg_i(), sc = x * (F)1.5, dv = x / (F)1.5;
        Complex<F, V> e1 = x; e1 += y; Complex<F, V> e2 = x; e2 -= y; Complex<F, V> e3 = x; e3 *= y; Complex<F, V> e4 = x; e4 /= y;
        F q = (F)(s - 11) / 4; Complex<F, V> ra = x + q, rs = x - q, pr((F)s, q);
        Complex<F, V> f1 = x; f1 += q; Complex<F, V> f2 = x; f2 -= q; Complex<F, V> f3 = x; f3 *= (F)1.5; Complex<F, V> f4 = x; f4 /= (F)1.5;
        Prim<F, V>::check(a, x);
        for(int i=0; i<K; i++){
            HX_REQUIRE(near(ra[i], a[i] + q, m) && near(rs[i], a[i] - q, m) && near(f1[i], a[i] + q, m) && near(f2[i], a[i] - q, m) && pr[i] == C((F)s, q), "lane %d of %d real sum", i, K);
            HX_REQUIRE(near(f3[i], a[i] * (F)1.5, m) && near(f4[i], a[i] / (F)1.5, m), "lane %d of %d compound real scaling", i, K);
            HX_REQUIRE(x[i] == a[i], "lane %d of %d load", i, K);
            HX_REQUIRE(near(sum[i], a[i] + b[i], m) && near(dif[i], a[i] - b[i], m) && near(mul[i], a[i] * b[i], m) && near(quo[i], a[i] / b[i], m), "lane %d of %d arithmetic", i, K);
            HX_REQUIRE(near(e1[i], a[i] + b[i], m) && near(e2[i], a[i] - b[i], m) && near(e3[i], a[i] * b[i], m) && near(e4[i], a[i] / b[i], m), "lane %d of %d compound arithmetic", i, K);
            HX_REQUIRE(near(neg[i], -a[i], m) && con[i] == std::conj(a[i]), "lane %d of %d negation or conjugate", i, K);
            HX_REQUIRE(near(fma_[i], a[i] * b[i] + c[i], m) && near(fms[i], a[i] * b[i] - c[i], m), "lane %d of %d fused", i, K);
            HX_REQUIRE(near(mi[i], a[i] * C(0, 1), m) && near(mni[i], a[i] * C(0, -1), m), "lane %d of %d rotation", i, K);
            HX_REQUIRE(near(sc[i], a[i] * (F)1.5, m) && near(dv[i], a[i] / (F)1.5, m), "lane %d of %d real scaling", i, K);
        }
        C st[8][K + 8]; for(int str=1; str<4; str++){ C d[64]; for(int i=0; i<64; i++) d[i] = C((F)i, (F)-i); Complex<F, V> w(d, str); for(int i=0; i<K; i++) HX_REQUIRE(w[i] == d[i * str], "strided load, stride %d lane %d", str, i); } (void) st;
    }
}
static std::string in_sim(std::function<void()> const &f){ return mc::simulate(1, [&](int){ f(); }, 0); }
template<class F> static void all_of(mc::Ctx &c, L const &l, int salt){
    char const *fn = sizeof(F) == 4 ? "float" : "double";
    c.test([=]{ return fmt("c2c %s n=%d num=%d stride=%d dist=%d salt=%d", fn, l.n, l.num, l.stride, l.dist, salt); }, [=]{ return in_sim([&]{ c2c<F, direction::forward>(l, salt); c2c<F, direction::backward>(l, salt); }); });
    int nc = l.n / 2 + 1, cd = l.dist >= l.n * l.stride ? l.dist - (l.n - nc) * l.stride : l.dist;   // contiguous or interleaved lines
    c.test([=]{ return fmt("r2c %s n=%d num=%d stride=%d dist=%d cdist=%d salt=%d", fn, l.n, l.num, l.stride, l.dist, cd, salt); }, [=]{ return in_sim([&]{ r2c<F>(l, cd, salt); }); });
}
static void both(mc::Ctx &c, L const &l, int salt = 0){ all_of<double>(c, l, salt); all_of<float>(c, l, salt); }
static void enumerate(mc::Ctx &c){
    bool th = c.thorough;
    for(int n=1; n<=(th ? 200 : 100); n++) for(int num=1; num<=(th ? 17 : 9); num++){
        both(c, {n, num, 1, n}); both(c, {n, num, num, 1}); both(c, {n, num, 1, n + 3}); both(c, {n, num, 2, 2 * n + 1}); both(c, {n, num, num + 2, 1});
    }
    // every basis vector: the whole matrix of the linear map
    for(int n=1; n<=(th ? 96 : 40); n++) for(int d=0; d<n; d++) both(c, {n, 1 + d % 5, 1, n}, 1 + d);
    // longer lengths
    for(int n=(th ? 201 : 101); n<=(th ? 2600 : 500); n++) both(c, {n, 1 + n % 5, n % 2 ? 1 : 1 + n % 5, n % 2 ? n : 1});
    std::vector<int> big = {729, 768, 1000, 1024, 1125, 1331, 1369, 1681, 1009, 2048, 2187, 2197, 2209, 4096, 1213, 1217, 2434, 3651};
    if (th) for(int n : {4913, 5041, 6561, 6889, 8192, 10007, 12167, 16384, 19683}) big.push_back(n);
    for(int n : big) both(c, {n, 1, 1, n}, 2);
    for(int n=3; n<=(th ? 400 : 100); n++) if (isprime(n)){
        c.test(fmt("rader n=%d", n), [=]{ return in_sim([&]{
            raderT<double, 1>(n); if (n < 60) raderT<float, 1>(n);
#ifdef Heffte_ENABLE_AVX
            raderT<double, 4>(n); if (n < 60){ raderT<float, 8>(n); raderT<float, 4>(n); }
            raderT<double, 2>(n);
#endif
#ifdef Heffte_ENABLE_AVX512
            raderT<double, 8>(n); if (n < 60) raderT<float, 16>(n);
#endif
        }); });
    }
    c.test("lanes", []{ return in_sim([]{ lanes<double, 1>(); lanes<float, 1>();
#ifdef Heffte_ENABLE_AVX
        lanes<double, 2>(); lanes<double, 4>(); lanes<float, 4>(); lanes<float, 8>();
#endif
#ifdef Heffte_ENABLE_AVX512
        lanes<double, 8>(); lanes<float, 16>();
#endif
    }); });
    // classification of every length and the size of the call tree
    size_t top = th ? 6000000 : 1600000, step = 20000;
    for(size_t lo=1; lo<top; lo+=step) c.test(fmt("classify %zu", lo), [=]{ return classify(lo, lo + step); });
    for(size_t lo=1; lo<(th ? 20000u : 5000u); lo+=50) c.test(fmt("tree %zu", lo), [=]() -> std::string {
        for(size_t n=lo; n<lo+50; n++) if (tree<double, 1>(n) != heffte::stock::getNumNodes(n)) return fmt("call tree of length %zu does not fit its allocation", n);
        return "";
    });
    if (getenv("VERIF_WORST")) printf("worst %g\n", worst);
}
MC_MAIN("P15_stock", enumerate)
