// Shared pieces of the harnesses: geometry enumeration, reference data, reference transforms, guarded buffers.
#ifndef VERIF_HX_H
#define VERIF_HX_H
#include "heffte.h"
#include "mc.h"
#include <array>
#include <algorithm>
#include <cmath>
#include <complex>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <vector>

namespace hx {
using heffte::box3d;
using mc::fmt;
typedef std::array<int,3> I3;
template<typename index> using Boxes = std::vector<box3d<index>>;

static const I3 ORDERS[6] = {{{0,1,2}}, {{0,2,1}}, {{1,0,2}}, {{1,2,0}}, {{2,0,1}}, {{2,1,0}}};

inline uint64_t mix(uint64_t x){ x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
// pseudo random data in [-1, 1] with 12 significant bits, a fixed function of its arguments
inline double rnd(uint64_t a, uint64_t b = 0, uint64_t c = 0){ return ((int)(mix(a * 0x9e3779b97f4a7c15ULL + mix(b * 0x632be59bd9b4e019ULL + mix(c + 1))) % 4095) - 2047) / 2047.0; }

// ------------------------------------------------------------------------------------------------- geometry
struct World { I3 n; I3 low; };
inline World W(int a, int b, int c){ return {{{a, b, c}}, {{0, 0, 0}}}; }
inline long count(World const &w){ return (long)w.n[0] * w.n[1] * w.n[2]; }
inline std::string str(World const &w){ return (w.low == I3{{0,0,0}}) ? fmt("%dx%dx%d", w.n[0], w.n[1], w.n[2]) : fmt("%dx%dx%d@%d,%d,%d", w.n[0], w.n[1], w.n[2], w.low[0], w.low[1], w.low[2]); }

struct B { I3 lo, hi; };            // inclusive corners, empty when hi < lo in any direction
inline bool empty(B const &b){ return b.hi[0] < b.lo[0] || b.hi[1] < b.lo[1] || b.hi[2] < b.lo[2]; }
inline long count(B const &b){ return empty(b) ? 0 : (long)(b.hi[0]-b.lo[0]+1) * (b.hi[1]-b.lo[1]+1) * (b.hi[2]-b.lo[2]+1); }
typedef std::vector<B> Part;        // one box per rank, disjoint, covering the world
inline std::string str(B const &b){ return empty(b) ? std::string("e") : fmt("%d.%d.%d-%d.%d.%d", b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2]); }
inline std::string str(Part const &p){ std::string s; for(auto const &b : p) s += (s.empty() ? "" : ";") + str(b); return s; }
inline B whole(World const &w){ return {w.low, {{w.low[0]+w.n[0]-1, w.low[1]+w.n[1]-1, w.low[2]+w.n[2]-1}}}; }

template<typename index = int>
inline box3d<index> tobox(B const &b, I3 const &order = ORDERS[0]){
    std::array<index,3> lo, hi; for(int i=0; i<3; i++){ lo[i] = b.lo[i]; hi[i] = b.hi[i]; }
    return box3d<index>(lo, hi, order);
}
template<typename index = int>
inline Boxes<index> toboxes(Part const &p, I3 const &order = ORDERS[0]){ Boxes<index> r; for(auto const &b : p) r.push_back(tobox<index>(b, order)); return r; }
template<typename index>
inline B fromb(box3d<index> const &b){ return {{{(int)b.low[0], (int)b.low[1], (int)b.low[2]}}, {{(int)b.high[0], (int)b.high[1], (int)b.high[2]}}}; }

// all ways to cut n points into p consecutive pieces; zero-length pieces only when allowed
inline void cuts_rec(int n, int p, int minlen, std::vector<int> &cur, std::vector<std::vector<int>> &out){
    if (p == 1){ if (n >= minlen){ cur.push_back(n); out.push_back(cur); cur.pop_back(); } return; }
    for(int k=minlen; k<=n; k++){ cur.push_back(k); cuts_rec(n - k, p - 1, minlen, cur, out); cur.pop_back(); }
}
inline std::vector<std::vector<int>> cuts(int n, int p, bool allow_empty){
    std::vector<std::vector<int>> out; std::vector<int> cur; cuts_rec(n, p, allow_empty ? 0 : 1, cur, out); return out;
}
// balanced cut, pieces differ by at most one (the larger ones last, unlike the library); short pieces when p > n
inline std::vector<int> balanced(int n, int p){ std::vector<int> r; for(int i=0; i<p; i++) r.push_back((int)((long)n * (i+1) / p - (long)n * i / p)); return r; }

inline Part grid_part(World const &w, std::vector<int> const &a, std::vector<int> const &b, std::vector<int> const &c){
    Part r; int z = w.low[2];
    for(int k : c){ int y = w.low[1];
        for(int j : b){ int x = w.low[0];
            for(int i : a){ r.push_back({{{x, y, z}}, {{x + i - 1, y + j - 1, z + k - 1}}}); x += i; }
            y += j; }
        z += k; }
    for(auto &q : r) if (empty(q)) q = {{{w.low[0], w.low[1], w.low[2]}}, {{w.low[0]-1, w.low[1]-1, w.low[2]-1}}};
    return r;
}
inline std::vector<I3> factor3(int p){
    std::vector<I3> r; for(int i=1; i<=p; i++) if (p % i == 0) for(int j=1; j<=p/i; j++) if ((p/i) % j == 0) r.push_back({{i, j, p/i/j}}); return r;
}
inline void add_unique(std::vector<Part> &v, Part const &p){
    std::string s = str(p); for(auto const &q : v) if (str(q) == s) return; v.push_back(p);
}
// all balanced grid partitions of np ranks
inline std::vector<Part> grids(World const &w, int np){
    std::vector<Part> r; for(auto const &g : factor3(np)) add_unique(r, grid_part(w, balanced(w.n[0], g[0]), balanced(w.n[1], g[1]), balanced(w.n[2], g[2]))); return r;
}
// all partitions into np boxes made by successive full cuts (every position, every direction); empties put all on one rank
inline void guillotine_rec(B const &b, int np, std::vector<Part> &out, bool allow_empty){
    if (np == 1){ out.push_back({b}); return; }
    for(int d=0; d<3; d++) for(int c=b.lo[d]; c<b.hi[d]; c++) for(int l=1; l<np; l++){
        B x = b, y = b; x.hi[d] = c; y.lo[d] = c + 1;
        std::vector<Part> px, py; guillotine_rec(x, l, px, allow_empty); guillotine_rec(y, np - l, py, allow_empty);
        for(auto const &p : px) for(auto const &q : py){ Part r = p; r.insert(r.end(), q.begin(), q.end()); out.push_back(r); }
    }
    if (allow_empty){ // one rank gets nothing
        std::vector<Part> px; guillotine_rec(b, np - 1, px, allow_empty);
        B e = {b.lo, {{b.lo[0]-1, b.lo[1]-1, b.lo[2]-1}}};
        for(auto const &p : px){ Part r = p; r.push_back(e); out.push_back(r); }
    }
}
inline std::vector<Part> guillotine(World const &w, int np, bool allow_empty = false){
    std::vector<Part> raw, r; guillotine_rec(whole(w), np, raw, allow_empty);
    std::map<std::string, bool> seen; for(auto const &p : raw) if (!seen[str(p)]){ seen[str(p)] = true; r.push_back(p); }
    return r;
}
inline std::vector<Part> with_perms(std::vector<Part> const &v, bool all){
    std::vector<Part> r; std::map<std::string, bool> seen;
    for(auto const &p : v){
        std::vector<int> idx(p.size()); std::iota(idx.begin(), idx.end(), 0);
        int k = 0;
        do{
            Part q; for(int i : idx) q.push_back(p[i]);
            if (!seen[str(q)]){ seen[str(q)] = true; r.push_back(q); }
            if (!all && ++k >= 1){ // identity and reverse only
                Part q2(p.rbegin(), p.rend()); if (!seen[str(q2)]){ seen[str(q2)] = true; r.push_back(q2); }
                break;
            }
        }while(std::next_permutation(idx.begin(), idx.end()));
    }
    return r;
}
inline std::vector<World> worlds(int lo, int hi){
    std::vector<World> r; for(int a=lo; a<=hi; a++) for(int b=lo; b<=hi; b++) for(int c=lo; c<=hi; c++) r.push_back({{{a,b,c}}, {{0,0,0}}}); return r;
}

// calls f(local linear index, global linear index, global coordinates) for every point of a box, in storage order
template<typename F>
inline void each(World const &w, B const &b, I3 const &o, F const &f){
    if (empty(b)) return;
    long l = 0; I3 c;
    for(c[o[2]] = b.lo[o[2]]; c[o[2]] <= b.hi[o[2]]; c[o[2]]++)
        for(c[o[1]] = b.lo[o[1]]; c[o[1]] <= b.hi[o[1]]; c[o[1]]++)
            for(c[o[0]] = b.lo[o[0]]; c[o[0]] <= b.hi[o[0]]; c[o[0]]++)
                f(l++, ((long)(c[2]-w.low[2]) * w.n[1] + (c[1]-w.low[1])) * w.n[0] + (c[0]-w.low[0]), c);
}

// ------------------------------------------------------------------------------------------------- scalars
template<typename T> struct scal { static T make(double re, double){ return (T)re; } typedef T real; enum { cplx = 0 }; static char const *name(){ return sizeof(T) == 4 ? "f" : "d"; } };
template<typename T> struct scal<std::complex<T>> { static std::complex<T> make(double re, double im){ return {(T)re, (T)im}; } typedef T real; enum { cplx = 1 }; static char const *name(){ return sizeof(T) == 4 ? "c" : "z"; } };
template<typename T> inline double dist(T const &a, T const &b){ double d = (double)std::abs(a - b); return d == d ? d : 1e300; }

// ------------------------------------------------------------------------------------------------- buffers
// exactly n elements, guard bytes on both sides (heap red zones in addition when built with ASan);
// `shift` bytes of extra misalignment relative to a 64 byte boundary
template<typename T>
struct Buf {
    unsigned char *raw = nullptr; size_t n = 0, total = 0, front = 0;
    enum { G = 256 };
    Buf(){}
    explicit Buf(size_t cn, unsigned fill = 0xAB, size_t shift = 0){ init(cn, fill, shift); }
    Buf(Buf const&) = delete; Buf& operator=(Buf const&) = delete;
    Buf(Buf &&o){ raw = o.raw; n = o.n; total = o.total; front = o.front; o.raw = nullptr; }
    Buf& operator=(Buf &&o){ std::swap(raw, o.raw); std::swap(n, o.n); std::swap(total, o.total); std::swap(front, o.front); return *this; }
    ~Buf(){ free(raw); }
    void init(size_t cn, unsigned fill = 0xAB, size_t shift = 0){
        free(raw); n = cn;
#ifdef __SANITIZE_ADDRESS__
        front = 0; total = n * sizeof(T); (void) shift;
        if (shift) { front = shift; total += shift; }
        raw = (unsigned char*) malloc(total ? total : 1);
#else
        front = G + shift; total = front + n * sizeof(T) + G;
        void *q = nullptr; if (posix_memalign(&q, 64, total)) abort(); raw = (unsigned char*) q;
        memset(raw, 0xD5, total);
#endif
        if (n) memset((void*)(raw + front), (int)fill, n * sizeof(T));
    }
    T *data(){ return (T*)(raw + front); }
    T const *data() const { return (T const*)(raw + front); }
    T &operator[](size_t i){ return data()[i]; }
    T const &operator[](size_t i) const { return data()[i]; }
    size_t size() const { return n; }
    bool guards_ok() const {
#ifndef __SANITIZE_ADDRESS__
        for(size_t i=0; i<front; i++) if (raw[i] != 0xD5) return false;
        for(size_t i=front + n * sizeof(T); i<total; i++) if (raw[i] != 0xD5) return false;
#endif
        return true;
    }
    std::vector<unsigned char> snapshot() const { return std::vector<unsigned char>((unsigned char const*)data(), (unsigned char const*)data() + n * sizeof(T)); }
    bool same(std::vector<unsigned char> const &s) const { return s.size() == n * sizeof(T) && (s.empty() || memcmp(s.data(), data(), s.size()) == 0); }
};

// ------------------------------------------------------------------------------------------------- reference transforms
// separable naive transforms in long double; kinds per direction
enum Kind { K_DFT_F, K_DFT_B, K_COS, K_SIN, K_COS1, K_SIN1, K_ICOS, K_ISIN, K_ICOS1, K_ISIN1, K_NONE };
typedef std::complex<long double> cld;
typedef std::vector<cld> Field;

inline cld kernel(Kind k, int n, int out, int in){
    const long double PI = 3.141592653589793238462643383279502884L;
    switch(k){
        case K_DFT_F: case K_DFT_B: { long t = ((long)out * in) % n; long double a = 2 * PI * t / n; return cld(cosl(a), k == K_DFT_F ? -sinl(a) : sinl(a)); }
        case K_COS:  return 2 * cosl(PI * (in + 0.5L) * out / n);                              // REDFT10
        case K_SIN:  return 2 * sinl(PI * (in + 0.5L) * (out + 1) / n);                        // RODFT10
        case K_COS1: return ((in == 0 || in == n - 1) ? 1 : 2) * cosl(PI * in * out / (n - 1)); // REDFT00
        case K_SIN1: return 2 * sinl(PI * (in + 1) * (out + 1) / (n + 1));                     // RODFT00
        // exact inverses
        case K_ICOS: return ((in == 0) ? 1 : 2) * cosl(PI * in * (out + 0.5L) / n) / (2 * n);
        case K_ISIN: return ((in == n - 1) ? 1 : 2) * sinl(PI * (in + 1) * (out + 0.5L) / n) / (2 * n);
        case K_ICOS1: return kernel(K_COS1, n, out, in) / (long double)(2 * (n - 1));
        case K_ISIN1: return kernel(K_SIN1, n, out, in) / (long double)(2 * (n + 1));
        case K_NONE: return (in == out) ? 1 : 0;
    }
    return 0;
}
inline void apply_dim(World const &w, Field &f, int d, Kind k){
    if (k == K_NONE) return;
    int n = w.n[d]; long stride = d == 0 ? 1 : d == 1 ? w.n[0] : (long)w.n[0] * w.n[1];
    std::vector<cld> M((size_t)n * n); for(int o=0; o<n; o++) for(int i=0; i<n; i++) M[(size_t)o * n + i] = kernel(k, n, o, i);
    std::vector<cld> line(n);
    for(long g=0; g<(long)f.size(); g++){
        if ((g / stride) % n) continue;
        for(int o=0; o<n; o++){ cld s = 0; for(int i=0; i<n; i++) s += M[(size_t)o * n + i] * f[g + i * stride]; line[o] = s; }
        for(int o=0; o<n; o++) f[g + o * stride] = line[o];
    }
}
inline Field transform(World const &w, Field f, Kind k){ for(int d=0; d<3; d++) apply_dim(w, f, d, k); return f; }

// source data: salt 0.. generic, salt >= 1000: delta at (salt - 1000) with value 1 - 0.5i (or 1)
inline double src_re(World const &w, long g, int batch, int salt){ if (salt >= 1000) return g == (salt - 1000 + batch) % count(w) ? 1 + batch : 0; return rnd(g, batch * 131 + salt, w.n[0] * 10000 + w.n[1] * 100 + w.n[2]); }
inline double src_im(World const &w, long g, int batch, int salt){ if (salt >= 1000) return g == (salt - 1000 + batch) % count(w) ? -0.5 : 0; return rnd(g + 7777777, batch * 131 + salt, w.n[0] * 10000 + w.n[1] * 100 + w.n[2]); }
inline Field source(World const &w, int batch, int salt, bool cplx){
    Field f(count(w)); for(long g=0; g<count(w); g++) f[g] = cld(src_re(w, g, batch, salt), cplx ? src_im(w, g, batch, salt) : 0); return f;
}
// cached reference result of the transform of source(w, batch, salt, cplx)
inline Field const &reference(World const &w, int batch, int salt, bool cplx, Kind k){
    static std::map<std::vector<int>, Field> cache;
    std::vector<int> key = {w.n[0], w.n[1], w.n[2], batch, salt, cplx, (int)k};
    auto it = cache.find(key); if (it != cache.end()) return it->second;
    if (cache.size() > 3000) cache.clear();
    return cache[key] = transform(w, source(w, batch, salt, cplx), k);
}
template<typename T> inline double tol(World const &w, int kinds = 1){
    double n = (double)count(w);
    return (sizeof(typename scal<T>::real) == 4 ? 2e-6 : 4e-15) * (20 + 8 * std::sqrt(n)) * kinds;
}
inline long double maxabs(Field const &f){ long double m = 0; for(auto const &x : f) m = std::max(m, std::abs(x)); return m; }

// message wrapper used inside rank bodies
#define HX_REQUIRE(cond, ...) do { if (!(cond)) sim::fail(mc::fmt(__VA_ARGS__)); } while(0)

// symmetric half of the spectrum in direction d
inline World half(World const &w, int d){ World h = w; h.n[d] = w.n[d] / 2 + 1; return h; }

// Covering array: rows over factors with the given numbers of levels in which every combination of levels of every t
// factors occurs (greedy, deterministic). Used to cross secondary parameters with every primary configuration.
inline std::vector<std::vector<int>> const &covering(std::vector<int> const &levels, int t){
    static std::map<std::pair<std::vector<int>, int>, std::vector<std::vector<int>>> memo;
    auto &rows = memo[{levels, t}]; if (!rows.empty()) return rows;
    int f = (int)levels.size(); t = std::min(t, f);
    std::vector<std::vector<int>> sets; std::vector<int> pick;
    std::function<void(int)> rec = [&](int from){ if ((int)pick.size() == t){ sets.push_back(pick); return; } for(int i=from; i<f; i++){ pick.push_back(i); rec(i + 1); pick.pop_back(); } };
    rec(0);
    auto key = [&](std::vector<int> const &set, std::vector<int> const &row){ int k = 0; for(int i : set) k = k * levels[i] + row[i]; return k; };
    std::vector<std::vector<char>> open; size_t left = 0;
    for(auto const &q : sets){ int n = 1; for(int i : q) n *= levels[i]; open.push_back(std::vector<char>(n, 1)); left += n; }
    uint64_t seed = 1;
    while(left){
        // start from the first open tuple, then give each other factor the level that covers most
        std::vector<int> row(f, -1); 
        for(size_t q=0; q<sets.size(); q++){ auto it = std::find(open[q].begin(), open[q].end(), 1); if (it == open[q].end()) continue; int k = (int)(it - open[q].begin()); for(int i=t-1; i>=0; i--){ row[sets[q][i]] = k % levels[sets[q][i]]; k /= levels[sets[q][i]]; } break; }
        for(int i=0; i<f; i++) if (row[i] < 0){
            int best = -1, bestn = -1; int off = (int)(mix(seed++) % levels[i]);
            for(int v=0; v<levels[i]; v++){ row[i] = (v + off) % levels[i]; int n = 0; for(size_t q=0; q<sets.size(); q++){ bool full = true, has = false; for(int j : sets[q]){ if (row[j] < 0) full = false; if (j == i) has = true; } if (full && has && open[q][key(sets[q], row)]) n++; } if (n > bestn){ bestn = n; best = row[i]; } }
            row[i] = best;
        }
        for(size_t q=0; q<sets.size(); q++){ char &o = open[q][key(sets[q], row)]; if (o){ o = 0; left--; } }
        rows.push_back(row);
    }
    return rows;
}
// pairs of storage orders in a cycle of length 37 (36 of them and one twice), coprime to the loops around it
inline int next36(){ static int i = 0; i = (i + 1) % 37; return i % 36; }
// Rotation through a pairwise covering array of secondary parameters, one row per primary configuration; the cycle length is
// raised to a prime (the first rows repeat) so that the rotation does not lock to the loops around it.
struct Rotate {
    std::vector<std::vector<int>> rows; size_t n, k = 0;
    explicit Rotate(std::vector<int> const &levels, int t = 2) : rows(covering(levels, t)), n(rows.size()){
        auto prime = [](size_t x){ for(size_t i=2; i*i<=x; i++) if (x % i == 0) return false; return x > 1; };
        while(!prime(n)) n++;
    }
    std::vector<int> const &next(){ k = (k + 1) % n; return rows[k % rows.size()]; }
};
}
#endif
