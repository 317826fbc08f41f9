// Harness framework: exhaustive case enumeration over worker processes, schedule explorer, crash and hang
// attribution, replay before report.  See DESIGN.md.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include "mpisim.h"
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <sstream>
#include <set>
#include <array>

namespace mc {

std::string fmt(char const *f, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------------------------------------------ explorer
// Depth first search over all choice sequences.  Kinds with budget < 0 are explored without bound, the others
// up to `budget` deviations from the default.  A choice point in an already expanded state is not expanded again.
struct Explorer : sim::Chooser {
    int budget[sim::CK_KINDS] = {-1, -1, -1, -1};
    bool prune = true;
    struct Step { int c, n, kind; bool expand; };
    std::vector<int> prefix;
    std::vector<int> prefix_n;
    std::vector<Step> path;
    typedef std::array<int, sim::CK_KINDS> Used;
    std::unordered_map<uint64_t, std::vector<Used>> visited;   // state -> minimal deviations (per kind) it was expanded with
    bool diverged = false;
    uint64_t executions = 0, pruned = 0, choice_points = 0;
    bool capped = false; uint64_t cap = 0;
    bool replay_only = false;

    void begin(){ path.clear(); diverged = false; }
    Used used(size_t upto) const {
        Used u{}; for(size_t i=0; i<upto; i++) if (budget[path[i].kind] >= 0 && path[i].c != 0) u[path[i].kind]++; return u;
    }
    bool covered(uint64_t state, Used const &u){
        auto &v = visited[state];
        auto le = [](Used const &a, Used const &b){ for(int k=0; k<sim::CK_KINDS; k++) if (a[k] > b[k]) return false; return true; };
        for(auto const &x : v) if (le(x, u)) return true;
        size_t n = 0; for(size_t i=0; i<v.size(); i++) if (!le(u, v[i])) v[n++] = v[i];
        v.resize(n); v.push_back(u); return false;
    }
    int choose(int n, int kind, uint64_t state) override {
        size_t i = path.size();
        int c = 0; bool expand = false;
        if (i < prefix.size()){
            c = prefix[i];
            if (c >= n || (i < prefix_n.size() && prefix_n[i] != n)){ diverged = true; return -1; }
            expand = true;
        }else if (!replay_only){
            choice_points++;
            if (!prune || !covered(state, used(i))) expand = true;
            else pruned++;
        }
        path.push_back({c, n, kind, expand});
        return c;
    }
    // prepare the next execution; false when the space is exhausted
    bool next(){
        executions++;
        if (cap && executions >= cap){ capped = true; return false; }
        for(size_t i=path.size(); i-- > 0;){
            Step const &s = path[i];
            if (!s.expand || s.c + 1 >= s.n) continue;
            if (budget[s.kind] >= 0){
                int u = 0; for(size_t k=0; k<i; k++) if (path[k].kind == s.kind && path[k].c != 0) u++;
                if (u + 1 > budget[s.kind]) continue;
            }
            prefix.clear(); prefix_n.clear();
            for(size_t k=0; k<i; k++){ prefix.push_back(path[k].c); prefix_n.push_back(path[k].n); }
            prefix.push_back(s.c + 1); prefix_n.push_back(s.n);
            return true;
        }
        return false;
    }
    std::string text() const {
        size_t last = 0; for(size_t i=0; i<path.size(); i++) if (path[i].c) last = i + 1;
        std::string s; for(size_t i=0; i<last; i++) s += (i ? "." : "") + std::to_string(path[i].c);
        return s.empty() ? "-" : s;
    }
    static std::vector<int> parse(std::string const &s){
        std::vector<int> v; if (s == "-" || s.empty()) return v;
        std::stringstream ss(s); std::string t; while(std::getline(ss, t, '.')) v.push_back(std::stoi(t)); return v;
    }
};

// ------------------------------------------------------------------------------------------------ cases
// Every case has a unique textual key.  A failing case is re-run alone in a fresh process before it is reported.
struct Ctx {
    // run one case; key must be deterministic and unique.  body returns "" on success or a description of the failure
    void test(std::string const &key, std::function<std::string()> const &body);
    // cheap variant that builds the key only when needed
    void test(std::function<std::string()> const &key, std::function<std::string()> const &body);
    bool mine(); // true when the case about to be numbered belongs to this worker; call next_case() to skip it
    bool thorough = false;
    uint64_t seed = 1;
    void count(std::string const &name, uint64_t n = 1);       // named coverage counter (summed over workers)
    void outcome(uint64_t h);                                   // distinct outcome (set union over workers, capped)
    void sample(std::string const &s);                          // keep a few descriptions for the evidence
    void cap(std::string const &what);                          // a bound of the plan was cut short
    std::string schedule;                                       // replay: choice sequence for the selected case
    bool replaying = false;
    std::string failing_schedule;                               // set by run_schedules on failure
};
extern Ctx *ctx;

// explores the executions of one case: body() performs one complete execution and returns "" or a failure
std::string explore(Explorer &ex, std::function<std::string(Explorer&)> const &body);

// runs the body in a child process; a crash becomes a failure text instead of ending the worker
std::string forked(std::function<std::string()> const &body);

// harness entry point: enumerate() calls ctx.test() for every case in a fixed order
int main_impl(int argc, char **argv, char const *name, std::function<void(Ctx&)> const &enumerate);

// run rank bodies under the simulator with a fixed policy; returns "" or the error
std::string simulate(int np, std::function<void(int)> const &body, int policy = 0);
std::string simulate(sim::Options const &o, std::function<void(int)> const &body, Explorer *ex = nullptr);
}
#define MC_MAIN(name, fn) int main(int argc, char **argv){ return mc::main_impl(argc, argv, name, fn); }
#endif
