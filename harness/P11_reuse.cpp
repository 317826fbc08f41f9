// P11, second part: objects that live one after the other at the same address. The allocator of this executable gives
// a rank the block that it freed last when it asks for the same size again, so that the next plan (or reshape) lands
// where the one before it was: whatever the library remembers about an object must die with it.
#include "tx.h"
#include <new>
using namespace hx;
static bool reuse = false; enum { RANKS = 8, CLASSES = 4096 };
static void *heads[RANKS + 1][CLASSES];
void *operator new(size_t n){
    if (n < 16) n = 16;
    size_t c = (n + 15) / 16; // the class is in the header
    int r = sim::rank() + 1; void *p = nullptr;
    if (reuse && c < CLASSES && r <= RANKS && heads[r][c]){ p = heads[r][c]; memcpy(&heads[r][c], p, sizeof(void*)); return p; }
    p = malloc(c * 16 + 16); if (!p) throw std::bad_alloc();
    *(size_t*)p = c; return (char*)p + 16;
}
void operator delete(void *p) noexcept {
    if (!p) return;
    size_t c = *(size_t*)((char*)p - 16); int r = sim::rank() + 1;
    if (reuse && c < CLASSES && r <= RANKS){ memset(p, 0xDD, c * 16); memcpy(p, &heads[r][c], sizeof(void*)); heads[r][c] = p; return; }
    free((char*)p - 16);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void *operator new[](size_t n){ return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ---- reshapes
struct RC { World w; Part in, out; int oi, oo; };
template<typename T> struct RS {
    std::unique_ptr<heffte::reshape3d_base<int>> p; RC const *c = nullptr; void *at = nullptr;
    void make(RC const &rc, int alg){
        c = &rc; heffte::plan_options opt = heffte::default_options<heffte::backend::stock>(); opt.algorithm = ALGS[alg];
        p = heffte::make_reshape3d<heffte::backend::stock, int>(nullptr, toboxes<int>(rc.in, ORDERS[rc.oi]), toboxes<int>(rc.out, ORDERS[rc.oo]), MPI_COMM_WORLD, opt);
    }
    void apply(int batch, int salt, int me){
        size_t ni = count(c->in[me]), no = count(c->out[me]);
        Buf<T> src(ni * batch, 0x5A), dst(no * batch, 0x77), work(p ? p->size_workspace() * batch : 0, 0x33);
        auto v = [&](long g, int b){ return scal<T>::make((double)(g + 1) + 512.0 * b + 4096.0 * salt, -(double)(2 * g + 1)); };
        each(c->w, c->in[me], ORDERS[c->oi], [&](long l, long g, I3 const &){ for(int b=0; b<batch; b++) src[b * ni + l] = v(g, b); });
        if (!p) return;
        p->apply(batch, src.data(), dst.data(), work.data());
        each(c->w, c->out[me], ORDERS[c->oo], [&](long l, long g, I3 const &q){
            for(int b=0; b<batch; b++) HX_REQUIRE(dst[b * no + l] == v(g, b), "rank %d: wrong element at local index %ld (point %d,%d,%d) of batch %d", me, l, q[0], q[1], q[2], b); });
        HX_REQUIRE(src.guards_ok() && dst.guards_ok() && work.guards_ok(), "rank %d: wrote outside a buffer", me);
    }
};
// letter = (config, batch of 1, 2 or 3, type)
static std::string reshapes(std::vector<RC> const &cf, std::vector<int> const &word, int alg, int policy){
    reuse = true;
    std::string e = mc::simulate((int)cf[0].in.size(), [&](int me){
        void *last = nullptr; int n = (int)cf.size(), salt = 0;
        for(int l : word){
            RC const &rc = cf[l % n]; int batch = 1 + (l / n) % 3; salt++;
            if ((l / n) / 3){ RS<std::complex<float>> r; r.make(rc, alg); if (r.p.get() && (void*)r.p.get() == last) mc::ctx->count("objects_at_a_reused_address", 1); last = r.p.get(); r.apply(batch, salt, me); }
            else{ RS<double> r; r.make(rc, alg); if (r.p.get() && (void*)r.p.get() == last) mc::ctx->count("objects_at_a_reused_address", 1); last = r.p.get(); r.apply(batch, salt, me); }
        }
    }, policy);
    reuse = false; memset(heads, 0, sizeof(heads)); // what is in the lists is given up: one case is one process
    return e;
}
// ---- plans
struct PC { TC t; };
static char const *const PN[5] = {"F", "F2", "B2", "f3", "FB"};
template<class BE, bool R2C> static std::string plans(std::vector<TC> const &cf, std::vector<int> const &word, int policy){
    reuse = true;
    std::string e = mc::simulate(cf[0].np(), [&](int me){
        int n = (int)cf.size(), salt = 0;
        for(int l : word){
            TC q = cf[l % n]; q.salt = ++salt; int op = l / n;
            auto p = PlanOf<BE, int, R2C>::make(q, me);
            auto fwd = [&](auto tag, int b, int mode){ typedef decltype(tag) T; q.batch = b; Ref r = make_ref<BE, T>(q); fwd_check<typename XT<BE, T, R2C>::in, typename XT<BE, T, R2C>::out>(*p, q, r, me, mode); };
            auto bwd = [&](auto tag, int b, int mode){ typedef decltype(tag) T; q.batch = b; Ref r = make_ref<BE, T>(q); bwd_check<typename XT<BE, T, R2C>::out, typename XT<BE, T, R2C>::in>(*p, q, r, me, mode); };
            switch(op){
                case 0: fwd(double(), 1, M_PTR_WORK); break;
                case 1: fwd(double(), 2, M_BATCH_WORK); break;
                case 2: bwd(double(), 2, M_BATCH_WORK); break;
                case 3: fwd(float(), 3, M_BATCH); break;
                case 4: fwd(double(), 1, M_PTR); bwd(float(), 1, M_VEC); break;
            }
        }
    }, policy);
    reuse = false; memset(heads, 0, sizeof(heads));
    return e;
}
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; Sec sec;
    for(int np : {1, 2, 3, 4}){
        // A: words over reshapes: 5 configurations x 3 batch sizes x 2 types
        World w = W(4,4,5), w2 = W(5,4,4);
        auto slab = [&](World const &q, int d){ std::vector<int> one[3] = {{q.n[0]}, {q.n[1]}, {q.n[2]}}; one[d] = balanced(q.n[d], np); return grid_part(q, one[0], one[1], one[2]); };
        std::vector<RC> cf = {{w, slab(w, 0), slab(w, 1), 0, 0}, {w, slab(w, 1), slab(w, 2), 0, 0}, {w, slab(w, 2), slab(w, 0), 0, 3}, {w2, slab(w2, 0), slab(w2, 1), 0, 0}, {w2, slab(w2, 1), slab(w2, 0), 2, 2}};
        int L = (int)cf.size() * 6;
        for(int alg=0; alg<4; alg++) for(int len=2; len<=3; len++){
            long n = 1; for(int i=0; i<len; i++) n *= L;
            for(long x=0; x<n; x++){
                std::vector<int> word; long y = x; for(int i=0; i<len; i++){ word.push_back(y % L); y /= L; }
                if (np == 1 && len == 3) continue; // without communication: pairs only
                c.test([&]{ std::string s; for(int l : word) s += fmt(" %d%s%d", l % (int)cf.size(), (l / (int)cf.size()) / 3 ? "c" : "d", 1 + (l / (int)cf.size()) % 3); return fmt("reshapes np=%d %s:", np, ALGN[alg]) + s; },
                       [&]{ return reshapes(cf, word, alg, (int)(x % 4)); });
            }
        }
        // B: words over plans: 4 configurations x 5 uses
        for(int kind : {0, 1, 2, 3}) for(int alg=0; alg<4; alg++) for(int v=0; v<(th ? 3 : 1); v++){
            std::vector<TC> tc;
            auto l = layouts(kind, {W(4,4,4), W(3,4,5)}, {np}, 1);
            for(int i=0; i<4; i++){ TC t = tc_of(l[(i * (l.size() / 4 + 1) + v * 5 + alg) % l.size()]); sec(t); t.batch = 1; t.shift = 0; t.policy = 0; t.sf = t.sb = 0; t.alg = alg; if (!feasible(t)) abort(); tc.push_back(t); }
            int M = 4 * 5, len = th ? 3 : 2; long n = 1; for(int i=0; i<len; i++) n *= M;
            for(long x=0; x<n; x++){
                std::vector<int> word; long y = x; for(int i=0; i<len; i++){ word.push_back(y % M); y /= M; }
                c.test([&]{ std::string s, d; for(int q : word) s += fmt(" %d%s", q % 4, PN[q / 4]); for(auto const &t : tc) d += " {" + str(t) + "}"; return fmt("plans %s np=%d %s v=%d:", kind_name(kind), np, ALGN[alg], v) + s + " |" + d; },
                       [&]{ int pol = (int)(x % 4); return kind == 0 ? plans<heffte::backend::fftw, false>(tc, word, pol) : kind == 1 ? plans<heffte::backend::stock, false>(tc, word, pol) : kind == 2 ? plans<heffte::backend::fftw, true>(tc, word, pol) : plans<heffte::backend::stock, true>(tc, word, pol); });
            }
        }
    }
}
MC_MAIN("P11_reuse", enumerate)
