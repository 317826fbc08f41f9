#include "mc.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <algorithm>
#include <fstream>

namespace mc {

std::string fmt(char const *f, ...){
    char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof(buf), f, ap); va_end(ap); return buf;
}
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Shared {              // one per worker, shared with the parent
    volatile long index;     // case being executed
    volatile double since;   // when it started
    volatile long cases;     // cases executed
    volatile int state;      // 0 running, 1 finished, 2 failed
    volatile int stage;      // 1 while a case is executed
    char key[8192];
    char sched[8192];
    char error[16384];
    volatile int capped;
    char capwhat[512];
};

Ctx *ctx = nullptr;

static const long MAX_CASES = 1l << 26;
struct Impl {
    long claim = -1; long *next = nullptr; unsigned char *owner = nullptr;   // shared: next unclaimed case, worker + 1 of every case
    long index = 0;            // running case number
    int worker = 0, workers = 1;
    Shared *sh = nullptr;
    std::string only;          // replay key
    bool only_mode = false, found = false;
    long upto = -1;            // replay of a whole worker history: stop after this case
    double deadline = 0;
    bool stop = false;
    std::map<std::string, uint64_t> counts;
    std::unordered_set<uint64_t> outcomes; uint64_t states = 0;
    std::vector<std::string> samples;
    bool list = false;
    struct Known { std::string id, casekey, err; };
    std::vector<Known> known;  // findings listed in known_findings.txt: exact case key prefix and error text
    std::map<std::string, uint64_t> known_hits;
};
static Impl im;

void Ctx::count(std::string const &n, uint64_t k){ im.counts[n] += k; }
void Ctx::outcome(uint64_t h){ if (im.outcomes.size() < 2000000) im.outcomes.insert(h); }
void Ctx::sample(std::string const &s){ if (im.samples.size() < 4) im.samples.push_back(s); }
void Ctx::cap(std::string const &w){ if (im.sh && !im.sh->capped){ im.sh->capped = 1; snprintf(im.sh->capwhat, sizeof(im.sh->capwhat), "%s", w.c_str()); } }

static void set_str(char *dst, size_t n, std::string const &s){ size_t k = std::min(n - 1, s.size()); memcpy(dst, s.data(), k); dst[k] = 0; }

static bool skip_case(){
    long i = im.index++;
    if (im.stop) return true;
    if (im.only_mode) return false;
    if (im.upto >= 0){ // repeat what one worker did
        if (i > im.upto){ im.stop = true; return true; }
        return i >= MAX_CASES || im.owner[i] != im.worker + 1;
    }
    if (im.claim < i) im.claim = __atomic_fetch_add(im.next, 1, __ATOMIC_RELAXED);
    if (i != im.claim) return true;
    if (i < MAX_CASES) im.owner[i] = (unsigned char)(im.worker + 1);
    if (im.deadline > 0 && now() > im.deadline){ im.stop = true; ctx->cap("time budget reached at case " + std::to_string(i)); return true; }
    return false;
}
static void do_case(std::string const &key, std::function<std::string()> const &body){
    if (im.list){ puts(key.c_str()); return; }
    im.sh->index = im.index - 1;
    set_str(im.sh->key, sizeof(im.sh->key), key);
    im.sh->sched[0] = 0;
    im.sh->since = now();
    im.sh->stage = 1;
    sim::state_salt = std::hash<std::string>()(key);
    ctx->failing_schedule.clear();
    std::string err = body();
    im.sh->stage = 0;
    im.sh->cases = im.sh->cases + 1;
    // states are salted with the case key, so the sets of different cases are disjoint
    im.states += sim::seen_states().size(); sim::seen_states().clear();
    if (im.samples.size() < 2) im.samples.push_back(key);
    if (!err.empty()) for(auto &k : im.known)
        if (key.compare(0, k.casekey.size(), k.casekey) == 0 && err.find(k.err) != std::string::npos){ im.known_hits[k.id]++; return; }
    if (!err.empty()){
        set_str(im.sh->error, sizeof(im.sh->error), err);
        set_str(im.sh->sched, sizeof(im.sh->sched), ctx->failing_schedule);
        im.sh->state = 2;
        im.stop = true;
    }
}
void Ctx::test(std::string const &key, std::function<std::string()> const &body){
    if (skip_case()) return;
    if (im.only_mode){ if (key != im.only) return; im.found = true; }
    do_case(key, body);
}
void Ctx::test(std::function<std::string()> const &key, std::function<std::string()> const &body){
    if (skip_case()) return;
    std::string k = key();
    if (im.only_mode){ if (k != im.only) return; im.found = true; }
    do_case(k, body);
}

std::string forked(std::function<std::string()> const &body){
    fflush(stdout); fflush(stderr);
    int fd[2]; if (pipe(fd)) abort();
    pid_t p = fork();
    if (p == 0){
        close(fd[0]); std::string e = body();
        if (write(fd[1], e.data(), e.size())){} close(fd[1]); _exit(0);
    }
    close(fd[1]); std::string e; char b[4096]; ssize_t k; while((k = read(fd[0], b, sizeof(b))) > 0) e.append(b, k);
    close(fd[0]); int st; waitpid(p, &st, 0);
    ctx->count("executions");
    if (WIFSIGNALED(st)) return fmt("crash: signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st)) return fmt("crash: exit %d", WEXITSTATUS(st));
    return e;
}

std::string explore(Explorer &ex, std::function<std::string(Explorer&)> const &body){
    if (ctx->replaying && !ctx->schedule.empty()){
        ex.replay_only = true;
        ex.prefix = Explorer::parse(ctx->schedule); ex.prefix_n.clear();
        ex.begin();
        std::string e = body(ex);
        ex.executions++;
        if (ex.diverged) return "replay diverged";
        ctx->failing_schedule = ex.text();
        return e;
    }
    while(true){
        ex.begin();
        // make the schedule visible to the parent before anything can crash
        { std::string p; for(size_t i=0; i<ex.prefix.size(); i++) p += (i ? "." : "") + std::to_string(ex.prefix[i]);
          set_str(im.sh->sched, sizeof(im.sh->sched), p.empty() ? "-" : p); im.sh->since = now(); }
        std::string e = body(ex);
        if (ex.diverged) return "the harness is not deterministic: an execution diverged while replaying a prefix";
        if (!e.empty()){ ctx->failing_schedule = ex.text(); ex.executions++; return e; }
        if (!ex.next()) break;
    }
    if (ex.capped) ctx->cap("execution cap reached in one case");
    return "";
}

std::string simulate(sim::Options const &o, std::function<void(int)> const &body, Explorer *ex){
    sim::Result r = sim::run(o, body, ex);
    ctx->count("executions");
    if (r.ok) ctx->outcome(r.final_state);
    return r.ok ? "" : r.error;
}
std::string simulate(int np, std::function<void(int)> const &body, int policy){
    sim::Options o; o.np = np;
    switch(policy & 3){
        case 0: break;
        case 1: o.sched_policy = 1; o.send_mode = 1; o.waitany_policy = 1; break;
        case 2: o.sched_policy = 2; break;
        case 3: o.sched_policy = 2; o.send_mode = 1; o.waitany_policy = 1; break;
    }
    return simulate(o, body, nullptr);
}

static void write_partial(std::string const &file){
    FILE *f = fopen(file.c_str(), "w"); if (!f) return;
    for(auto &p : im.counts) fprintf(f, "C %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
    sim::Stats &s = sim::stats();
    fprintf(f, "C sim_transitions %llu\nC sim_switches %llu\nC sim_messages %llu\nC sim_collectives %llu\nC sim_choice_points %llu\n",
            (unsigned long long)s.transitions, (unsigned long long)s.switches, (unsigned long long)s.messages,
            (unsigned long long)s.collectives, (unsigned long long)s.choice_points_multi);
    for(auto &k : im.known_hits) fprintf(f, "K %s %llu\n", k.first.c_str(), (unsigned long long)k.second);
    fprintf(f, "O %zu\nS %llu\n", im.outcomes.size(), (unsigned long long)im.states);
    for(auto &x : im.samples){ std::string t = x; for(char &c : t) if (c == '\n') c = ' '; fprintf(f, "X %s\n", t.c_str()); }
    fclose(f);
}

int main_impl(int argc, char **argv, char const *name, std::function<void(Ctx&)> const &enumerate){
    Ctx c; ctx = &c;
    int workers = 8; std::string out, replay, sched; double budget = 0, hang = 120; std::string tier = "quick"; bool list = false;
    bool only = false; long upto = -1; int one_worker = -1;
    for(int i=1; i<argc; i++){
        std::string a = argv[i];
        auto val = [&]{ return std::string(argv[++i]); };
        if (a == "--workers") workers = std::stoi(val());
        else if (a == "--out") out = val();
        else if (a == "--tier") tier = val();
        else if (a == "--case"){ replay = val(); only = true; }
        else if (a == "--schedule") sched = val();
        else if (a == "--budget") budget = std::stod(val());
        else if (a == "--hang") hang = std::stod(val());
        else if (a == "--seed") c.seed = std::stoull(val());
        else if (a == "--known"){ // lines: id <tab> case key prefix <tab> part of the error text
            std::ifstream f(val()); std::string line;
            while(std::getline(f, line)){
                size_t p = line.find('\t'), q = p == std::string::npos ? p : line.find('\t', p + 1);
                if (q != std::string::npos) im.known.push_back({line.substr(0, p), line.substr(p + 1, q - p - 1), line.substr(q + 1)});
            }
        }
        else if (a == "--list") list = true;
        else if (a == "--upto") upto = std::stol(val());
        else if (a == "--worker") one_worker = std::stoi(val());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    c.thorough = tier == "thorough";
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (list){ im.list = true; im.only_mode = false; im.workers = 1; Shared s{}; im.sh = &s; enumerate(c); return 0; }

    Shared *sh = (Shared*)mmap(nullptr, sizeof(Shared) * (size_t)std::max(workers, 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof(Shared) * workers);
    im.next = (long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    im.owner = (unsigned char*)mmap(nullptr, MAX_CASES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (im.next == MAP_FAILED || im.owner == MAP_FAILED){ perror("mmap"); return 2; }

    // result of a child: 0 ok, 1 failure, 2 crash, 3 hang, 4 not found
    struct Child { pid_t pid; int idx; bool done; int status; };
    auto spawn = [&](int idx, int worker, int nworkers, bool only_mode, std::string const &key, std::string const &schedule, long stop_after, std::string const &partial, std::string const &errfile){
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0){
            im.sh = &sh[idx]; im.worker = worker; im.workers = nworkers; im.only_mode = only_mode; im.only = key; im.upto = stop_after;
            c.replaying = only_mode; c.schedule = schedule;
            im.deadline = (budget > 0 && !only_mode && stop_after < 0) ? now() + budget : 0;
            sim::record_states = true;
            if (!errfile.empty()){ int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0){ dup2(fd, 2); close(fd); } }
            enumerate(c);
            if (im.only_mode && !im.found) _exit(4);
            if (im.sh->state == 0) im.sh->state = 1;
            if (!partial.empty()) write_partial(partial);
            _exit(im.sh->state == 2 ? 1 : 0);
        }
        return p;
    };
    auto wait_one = [&](pid_t p, int idx, double limit)->int{
        double start = now();
        while(true){
            int st; pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p){
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh[idx].state == 2) return 1;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 4) return 4;
                return 2;
            }
            double ref = sh[idx].stage ? sh[idx].since : start;
            if (now() - std::max(ref, start) > limit){ kill(p, SIGKILL); waitpid(p, &st, 0); return 3; }
            usleep(20000);
        }
    };
    auto tail = [](std::string const &file){
        std::ifstream f(file); std::string line, res; int n = 0;
        while(std::getline(f, line) && n < 12){ if (line.find("ERROR") != std::string::npos || line.find("SUMMARY") != std::string::npos || line.find("    #") != std::string::npos || line.find("what()") != std::string::npos || line.find("terminate") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("fatal") != std::string::npos || line.find("assertion") != std::string::npos){ res += (res.empty() ? "" : " | ") + line; n++; } }
        return res;
    };

    std::string base = out.empty() ? std::string("/tmp/mc_") + name + "_" + std::to_string(getpid()) : out;
    if (only){
        memset(sh, 0, sizeof(Shared));
        std::string ef = base + ".replay.err";
        int r = wait_one(spawn(0, 0, 1, true, replay, sched, -1, "", ef), 0, hang);
        if (r == 0){ printf("REPLAY ok: the case passes\n"); return 0; }
        if (r == 4){ printf("REPLAY case not found\n"); return 2; }
        std::string e = r == 1 ? std::string(sh[0].error) : (r == 3 ? "hang: the case did not finish in time" : "crash: " + tail(ef));
        printf("REPLAY FAIL case=[%s] schedule=[%s]\n%s\n", replay.c_str(), sh[0].sched, e.c_str());
        return 1;
    }

    double t0 = now();
    std::vector<pid_t> pids; std::vector<int> res(workers, -1);
    for(int w=0; w<workers; w++) pids.push_back(one_worker >= 0 && w != one_worker ? -1 : spawn(w, w, workers, false, "", "", upto, base + ".w" + std::to_string(w), base + ".err" + std::to_string(w)));
    std::vector<double> started(workers, now());
    int bad = -1;
    while(true){
        bool all = true;
        for(int w=0; w<workers; w++){
            if (pids[w] < 0){ res[w] = 0; continue; }
            if (res[w] >= 0) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]){
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) res[w] = 0;
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh[w].state == 2) res[w] = 1;
                else res[w] = 2;
            }else{
                double ref = sh[w].stage ? (double)sh[w].since : now();
                if (now() - ref > hang){ kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); res[w] = 3; }
                else all = false;
            }
            if (res[w] > 0 && (bad < 0 || sh[w].index < sh[bad].index)) bad = w;
        }
        if (bad >= 0){ // one failure is enough: stop the others
            for(int w=0; w<workers; w++) if (res[w] < 0 && pids[w] > 0){ int st; kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); res[w] = 9; }
            break;
        }
        if (all) break;
        usleep(10000);
    }
    long cases = 0; bool capped = false; std::string capwhat;
    for(int w=0; w<workers; w++){ cases += sh[w].cases; if (sh[w].capped){ capped = true; capwhat = sh[w].capwhat; } }
    int rc = 0;
    std::string fkey, fsched, ferr, fkind;
    if (bad >= 0){
        fkey = sh[bad].key; fsched = sh[bad].sched; long fidx = sh[bad].index;
        ferr = res[bad] == 1 ? std::string(sh[bad].error) : res[bad] == 3 ? "hang" : "crash: " + tail(base + ".err" + std::to_string(bad));
        // replay before report: alone, in a fresh process
        std::string ef = base + ".replay.err";
        memset(&sh[0], 0, sizeof(Shared));
        int r = wait_one(spawn(0, 0, 1, true, fkey, fsched, -1, "", ef), 0, res[bad] == 3 ? 3 * hang : hang);
        fkind = "alone";
        if (r == 0 && !fsched.empty()){ memset(&sh[0], 0, sizeof(Shared)); r = wait_one(spawn(0, 0, 1, true, fkey, "", -1, "", ef), 0, 3 * hang); }
        if (r == 0){
            // depends on the history of the worker: repeat the worker up to this case
            memset(&sh[0], 0, sizeof(Shared));
            r = wait_one(spawn(0, bad, workers, false, "", "", fidx, "", ef), 0, 3 * hang);
            fkind = fmt("worker %d/%d up to case %ld", bad, workers, fidx);
        }
        if (r == 1){ ferr = sh[0].error; if (sh[0].sched[0]) fsched = sh[0].sched; }
        else if (r == 3) ferr = "hang: the case did not finish in time";
        else if (r == 2) ferr = "crash: " + tail(ef);
        rc = (r == 1 || r == 2 || r == 3) ? 1 : 3; // 3: not reproducible
    }
    double wall = now() - t0;
    // merge
    std::map<std::string, uint64_t> counts, khits; uint64_t outs = 0, states = 0; std::vector<std::string> samples;
    for(int w=0; w<workers; w++){
        std::ifstream f(base + ".w" + std::to_string(w)); std::string line;
        while(std::getline(f, line)){
            if (line[0] == 'C'){ size_t p = line.rfind(' '); counts[line.substr(2, p - 2)] += std::stoull(line.substr(p + 1)); }
            else if (line[0] == 'K'){ size_t p = line.rfind(' '); khits[line.substr(2, p - 2)] += std::stoull(line.substr(p + 1)); }
            else if (line[0] == 'O') outs += std::stoull(line.substr(2));
            else if (line[0] == 'S') states += std::stoull(line.substr(2));
            else if (line[0] == 'X' && samples.size() < 6 && std::find(samples.begin(), samples.end(), line.substr(2)) == samples.end()) samples.push_back(line.substr(2));
        }
        unlink((base + ".w" + std::to_string(w)).c_str());
        unlink((base + ".err" + std::to_string(w)).c_str());
    }
    auto esc = [](std::string const &s){ std::string r; for(char ch : s){ if (ch == '"' || ch == '\\'){ r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r; };
    std::string js = "{\"name\":\"" + std::string(name) + "\",\"tier\":\"" + tier + "\",\"cases\":" + std::to_string(cases) + ",\"rc\":" + std::to_string(rc)
        + ",\"wall\":" + std::to_string(wall) + ",\"capped\":" + (capped ? "true" : "false") + ",\"capwhat\":\"" + esc(capwhat) + "\""
        + ",\"distinct_outcomes\":" + std::to_string(outs) + ",\"distinct_states\":" + std::to_string(states) + ",\"counts\":{";
    bool first = true; for(auto &p : counts){ js += (first ? "" : ",") + std::string("\"") + esc(p.first) + "\":" + std::to_string(p.second); first = false; }
    js += "},\"samples\":["; first = true; for(auto &s : samples){ js += (first ? "\"" : ",\"") + esc(s) + "\""; first = false; }
    js += "],\"known\":{"; first = true; for(auto &p : khits){ js += (first ? "" : ",") + std::string("\"") + esc(p.first) + "\":" + std::to_string(p.second); first = false; }
    js += "}";
    if (bad >= 0) js += ",\"failure\":{\"case\":\"" + esc(fkey) + "\",\"schedule\":\"" + esc(fsched) + "\",\"error\":\"" + esc(ferr) + "\",\"how\":\"" + esc(fkind) + "\"}";
    js += "}";
    if (!out.empty()){ FILE *f = fopen(out.c_str(), "w"); fputs(js.c_str(), f); fputs("\n", f); fclose(f); }
    printf("%s cases=%ld wall=%.1fs capped=%d states=%zu outcomes=%zu rc=%d\n", name, cases, wall, (int)capped, (size_t)states, (size_t)outs, rc);
    if (out.empty()) puts(js.c_str());
    if (bad >= 0) printf("FAIL case=[%s] schedule=[%s] %s\n  %s\n", fkey.c_str(), fsched.c_str(), fkind.c_str(), ferr.c_str());
    return rc;
}
}
