// P11: every sequence of operations on coexisting plans gives, call by call, the result of a fresh plan.
#include "tx.h"
using namespace hx;
struct Any { virtual ~Any(){} virtual void call(int op, int step, int me) = 0; virtual Any *moved() = 0; };
enum { OPS = 9 };
static char const *const OPN[OPS] = {"Fd", "Bd", "Ff", "Bf", "Fd2", "Bf2", "inpl", "move", "new"};
template<class BE, bool R2C> struct Holder : Any {
    typedef typename PlanOf<BE, int, R2C>::type Plan;
    TC t; std::unique_ptr<Plan> p;
    Holder(TC const &ct, int me) : t(ct), p(PlanOf<BE, int, R2C>::make(ct, me)) {}
    Holder(TC const &ct, std::unique_ptr<Plan> &&cp) : t(ct), p(std::move(cp)) {}
    Any *moved() override { std::unique_ptr<Plan> q(new Plan(std::move(*p))); p.reset(); return new Holder(t, std::move(q)); }
    template<class T> void fwd(TC q, int me, int mode){
        Ref r = make_ref<BE, T>(q);
        fwd_check<typename XT<BE, T, R2C>::in, typename XT<BE, T, R2C>::out>(*p, q, r, me, mode);
    }
    template<class T> void bwd(TC q, int me, int mode){
        Ref r = make_ref<BE, T>(q);
        bwd_check<typename XT<BE, T, R2C>::out, typename XT<BE, T, R2C>::in>(*p, q, r, me, mode);
    }
    void call(int op, int step, int me) override {
        TC q = t; q.salt = 1 + step; q.sf = (step + op) % 3; q.sb = (step + op + 1) % 3;
        check_queries(*p, q, full_scale<BE>(q.w), me);
        switch(op){
            case 0: fwd<double>(q, me, step % 2 ? M_PTR : M_VEC); break;
            case 1: bwd<double>(q, me, step % 2 ? M_VEC : M_PTR_WORK); break;
            case 2: fwd<float>(q, me, step % 2 ? M_VEC : M_PTR_WORK); break;
            case 3: bwd<float>(q, me, step % 2 ? M_PTR : M_VEC); break;
            case 4: q.batch = 2; fwd<double>(q, me, step % 2 ? M_BATCH : M_BATCH_WORK); break;
            case 5: q.batch = 2 + step % 2; bwd<float>(q, me, step % 2 ? M_BATCH_WORK : M_BATCH); break;
            case 6: if (R2C){ fwd<float>(q, me, M_BATCH); bwd<double>(q, me, M_BATCH_WORK); } else { fwd<float>(q, me, M_INPLACE_WORK); bwd<double>(q, me, M_INPLACE); } break;
        }
    }
};
static Any *make(int kind, TC const &t, int me){
    namespace be = heffte::backend;
    switch(kind){
        case 0: return new Holder<be::fftw, false>(t, me); case 1: return new Holder<be::stock, false>(t, me);
        case 2: return new Holder<be::fftw, true>(t, me); case 3: return new Holder<be::stock, true>(t, me);
        case 4: return new Holder<be::fftw_cos, false>(t, me); case 5: return new Holder<be::stock_cos, false>(t, me);
        case 6: return new Holder<be::fftw_sin, false>(t, me); case 7: return new Holder<be::stock_sin, false>(t, me);
        case 8: return new Holder<be::fftw_cos1, false>(t, me); case 9: return new Holder<be::stock_cos1, false>(t, me); default: return new Holder<be::fftw_sin1, false>(t, me);
    }
}
struct Cfg { int kind; TC t; };
// word: letter = slot * OPS + op
static std::string run(std::vector<Cfg> const &cfg, int slots, std::vector<int> const &word, int policy){
    return mc::simulate(cfg[0].t.np(), [&](int me){
        std::vector<std::unique_ptr<Any>> s(slots); std::vector<int> at(slots);
        for(int i=0; i<slots; i++){ at[i] = i; s[i].reset(make(cfg[i].kind, cfg[i].t, me)); }
        for(size_t k=0; k<word.size(); k++){
            int i = word[k] / OPS, op = word[k] % OPS;
            if (op == 7) s[i].reset(s[i]->moved());
            else if (op == 8){
                at[i] = (at[i] + slots) % (int)cfg.size();
                if (k % 2) s[i].reset();                                    // destroy before, or after the new one exists
                s[i].reset(make(cfg[at[i]].kind, cfg[at[i]].t, me));
            }else s[i]->call(op, (int)k, me);
        }
        for(int i=0; i<slots; i++) s[i]->call((int)word.size() % 2, (int)word.size() + 1, me);   // everyone still works
        for(int i=0; i<slots; i++) s[(i + 1) % slots].reset();
    }, policy);
}
static std::string text(std::vector<int> const &word){ std::string s; for(int l : word) s += fmt("%s%c.%s", s.empty() ? "" : " ", 'A' + l / OPS, OPN[l % OPS]); return s; }
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; Sec sec;
    // the v-th set of plans: consecutive pairs of grids and rows of the covering array
    auto cfgs = [&](std::vector<int> const &kinds, int np, int v){
        std::vector<Cfg> r; std::vector<World> ws = {W(3,4,5), W(4,4,3), W(4,5,4), W(5,3,4)};
        for(size_t i=0; i<kinds.size(); i++){
            auto l = layouts(kinds[i], {ws[(i + v) % 4]}, {np}, 1);
            TC t = tc_of(l[(i * 5 + v * 7 + 1) % l.size()]); sec(t); t.batch = 1; t.shift = 0; t.policy = 0; t.sf = t.sb = 0;
            if (!feasible(t)) abort();
            r.push_back({kinds[i], t});
        }
        return r;
    };
    struct Setup { std::vector<int> kinds; int np, slots, depth; };
    std::vector<Setup> setups;
    for(int np : {1, 2, 3, 4}){
        setups.push_back({{0, 2, 1, 3}, np, 2, th ? 4 : 3});
        setups.push_back({{2, 3, 0, 4}, np, 2, th ? 4 : 3});
        setups.push_back({{0, 0, 2, 2}, np, 2, th ? 4 : 3});      // the same class and back end twice
        setups.push_back({{4, 5, 6, 7}, np, 2, 3});
        setups.push_back({{1, 8, 9, 10}, np, 2, 3});
        setups.push_back({{0}, np, 1, th ? 5 : 4}); setups.push_back({{2}, np, 1, th ? 5 : 4}); setups.push_back({{3, 2}, np, 1, th ? 5 : 4}); setups.push_back({{1}, np, 1, th ? 5 : 4});
        setups.push_back({{7, 4, 10}, np, 1, 4});
        if (th) setups.push_back({{0, 2, 5, 3, 1, 6}, np, 3, 3});
    }
    for(auto const &s : setups) for(int v=0; v<(th && s.np > 1 ? 3 : 1); v++){
        auto cf = cfgs(s.kinds, s.np, v);
        int L = s.slots * OPS; long n = 1; for(int i=0; i<s.depth; i++) n *= L;
        for(long x=0; x<n; x++){
            std::vector<int> w; long y = x; for(int i=0; i<s.depth; i++){ w.push_back(y % L); y /= L; }
            int pol = (int)((x + x / 4 + x / 16) % 4);
            c.test([&]{ std::string d; for(auto const &q : cf) d += std::string(kind_name(q.kind)) + "{" + str(q.t) + "} "; return fmt("%d slots pol=%d ", s.slots, pol) + text(w) + " | " + d; }, [&]{ return run(cf, s.slots, w, pol); });
        }
    }
}
MC_MAIN("P11_sequences", enumerate)
