#include "mpisim.h"
#include "mpi.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <link.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <cxxabi.h>

#if defined(__SANITIZE_ADDRESS__)
#define VSIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VSIM_ASAN 1
#endif
#endif
#ifdef VSIM_ASAN
extern "C" void __sanitizer_start_switch_fiber(void **fake_stack_save, const void *bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void *fake_stack_save, const void **bottom_old, size_t *size_old);
#include <sanitizer/asan_interface.h>
#endif

namespace __cxxabiv1 { extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace sim {

bool record_states = false;
bool log_ops = false;
static std::vector<std::vector<MpiOp>> g_log;
std::vector<std::vector<MpiOp>> &mpi_log(){ return g_log; }
uint64_t state_salt = 0;
void (*on_switch_out)(int) = nullptr;
void (*on_switch_in)(int) = nullptr;

static inline uint64_t mix(uint64_t h, uint64_t v){
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
static uint64_t hash_bytes(void const *p, size_t n){
    uint64_t h = 1469598103934665603ull;
    unsigned char const *c = (unsigned char const*)p;
    size_t i = 0;
    for(; i + 8 <= n; i += 8){ uint64_t v; memcpy(&v, c + i, 8); h = mix(h, v); }
    for(; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}

constexpr size_t STACK = 1u << 20;
constexpr unsigned char POISON = 0xC7;

struct EhGlobals { void *caught; unsigned int uncaught; };

struct Fiber {
    ucontext_t ctx;
    char *stack = nullptr;
    bool done = false, started = false;
    std::function<bool()> ready;   // empty: runnable
    EhGlobals eh{nullptr, 0};
    uint64_t hist = 0;
    std::string where;             // last MPI call
#ifdef VSIM_ASAN
    void *fake = nullptr;
#endif
};

struct Message {
    int src, dst, tag, comm;       // ranks are world ranks
    std::vector<char> data;
    void const *buf; uint64_t hash;
    bool matched = false;
    int send_req = 0;              // request handle of the sender, 0 for blocking
    bool sync = false;
    long seq;
};
typedef std::shared_ptr<Message> Msg;

struct Request {
    bool used = false;
    bool is_recv = false;
    int owner = -1;
    void *buf = nullptr; size_t bytes = 0;
    int src = 0, tag = 0, comm = 0;
    std::vector<char> orig;        // content of the buffer when the receive was posted
    Msg msg;                       // matched message (receive) or own message (send)
    long seq = 0;
};

struct Comm {
    std::vector<int> members;      // world ranks
    std::vector<char> freed;       // per member
    bool builtin = false;
    std::vector<long> coll_seq;    // per member
};
struct Group { std::vector<int> members; bool used = false; int owner = -1; };

struct CollArgs {
    void const *sbuf = nullptr; void *rbuf = nullptr;
    std::vector<int> scounts, sdispl, rcounts, rdispl;
    int ssize = 0, rsize = 0; int root = -1; int op = 0; int dtype = 0;
    std::vector<int> group; int color = 0, key = 0;
    std::vector<char> sdata;       // snapshot of everything that is sent
};
struct Coll { std::string op; int arrived = 0, left = 0; std::map<int, CollArgs> args; std::vector<int> new_comm_of; bool made = false; std::map<int,int> newcomm; };

struct World {
    Options opt;
    Chooser *chooser = nullptr;
    std::vector<Fiber> fibers;
    ucontext_t main_ctx;
#ifdef VSIM_ASAN
    void *main_fake = nullptr; const void *main_bottom = nullptr; size_t main_size = 0;
#endif
    EhGlobals main_eh{nullptr, 0};
    int cur = -1;
    bool failed = false;
    std::string error;
    std::vector<Comm> comms;
    std::vector<Group> groups;
    std::vector<Request> reqs;
    std::list<Msg> unmatched;              // in order of sending
    std::vector<int> pending_recvs;        // handles in order of posting
    std::map<std::pair<int,long>, Coll> colls;
    long seq = 0;
    long steps = 0;
    int barrier_count = 0; long barrier_epoch = 0;
    std::vector<double> clock;
    std::function<void(int)> const *body = nullptr;
};
static World *W = nullptr;
static Stats g_stats;
static std::unordered_set<uint64_t> g_seen;
static std::vector<RankCounters> g_counters;
static std::vector<char*> stack_pool;
static long overlap_checks = 0;

Stats &stats(){ return g_stats; }
std::unordered_set<uint64_t> &seen_states(){ return g_seen; }
std::vector<RankCounters> &counters(){ return g_counters; }
long active_send_overlap_checks(){ return overlap_checks; }

bool active(){ return W != nullptr && W->cur >= 0; }
int rank(){ return W ? W->cur : 0; }
int size(){ return W ? W->opt.np : 1; }

static char *get_stack(){
    if (!stack_pool.empty()){ char *s = stack_pool.back(); stack_pool.pop_back(); return s; }
    char *s = (char*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s == MAP_FAILED){ perror("mmap"); _exit(98); }
    mprotect(s, 4096, PROT_NONE);
    return s;
}

// ------------------------------------------------------------------------------- process-global state of the library
// In a real run every rank is a process of its own: static and thread-local variables of the library are private to
// it. The linker script ranks.ld collects the former in one region, the latter are in the TLS block of the program;
// both are swapped when a rank is resumed and when it stops.
extern "C" __attribute__((weak)) char __heffte_state_start[], __heffte_state_end[];
bool keep_rank_state = false;
static std::vector<char> state_main; static std::map<int, std::vector<char>> state_rank;
static char *tls_at = nullptr; static size_t tls_size = 0;
#define RAW __attribute__((no_sanitize("address"), optimize("no-tree-loop-distribute-patterns"), noinline))
#ifdef VSIM_ASAN
static RAW void raw_copy(char *to, char const *from, size_t n){ for(size_t i=0; i<n; i++) to[i] = from[i]; }
#else
static void raw_copy(char *to, char const *from, size_t n){ if (n) memcpy(to, from, n); }
#endif
static int find_tls(struct dl_phdr_info *info, size_t, void*){ // the first object is the program
    for(int i=0; i<info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_TLS){ tls_at = (char*)info->dlpi_tls_data; tls_size = tls_at ? info->dlpi_phdr[i].p_memsz : 0; }
    return 1;
}
static size_t state_size(){ return (size_t)(__heffte_state_end - __heffte_state_start); }
static void state_get(std::vector<char> &v){ if (v.size() != state_size() + tls_size) v.resize(state_size() + tls_size); raw_copy(v.data(), __heffte_state_start, state_size()); raw_copy(v.data() + state_size(), tls_at, tls_size); }
static void state_set(std::vector<char> const &v){ raw_copy(__heffte_state_start, v.data(), state_size()); raw_copy(tls_at, v.data() + state_size(), tls_size); }
static void state_begin(){ tls_at = nullptr; tls_size = 0; dl_iterate_phdr(find_tls, nullptr); if (!keep_rank_state) state_rank.clear(); state_get(state_main); }
static void state_in(int r){ if (state_main.empty()) return; auto i = state_rank.find(r); if (i == state_rank.end()) i = state_rank.emplace(r, state_main).first; state_set(i->second); }
static void state_out(int r){ if (state_main.empty()) return; state_get(state_rank[r]); state_set(state_main); }

static void switch_to_main(bool final){
    World *w = W; int me = w->cur;
    Fiber &f = w->fibers[me];
    EhGlobals *g = (EhGlobals*)__cxxabiv1::__cxa_get_globals();
    f.eh = *g; *g = w->main_eh;
    if (on_switch_out) on_switch_out(me);
    w->cur = -1;
#ifdef VSIM_ASAN
    __sanitizer_start_switch_fiber(final ? nullptr : &f.fake, w->main_bottom, w->main_size);
#endif
    (void)final;
    swapcontext(&f.ctx, &w->main_ctx);
#ifdef VSIM_ASAN
    __sanitizer_finish_switch_fiber(f.fake, &w->main_bottom, &w->main_size);
#endif
    w->cur = me;
    if (on_switch_in) on_switch_in(me);
    w->main_eh = *g; *g = f.eh;
}

void fail(std::string const &msg){
    if (!W || W->cur < 0){ fprintf(stderr, "sim::fail outside of a run: %s\n", msg.c_str()); abort(); }
    if (!W->failed){
        W->failed = true;
        W->error = "rank " + std::to_string(W->cur) + ": " + msg;
    }
    switch_to_main(true);
    abort(); // a failed execution is never resumed
}

static uint64_t global_state(){
    uint64_t h = mix(0x1234567, state_salt);
    for(auto &f : W->fibers){ h = mix(h, f.hist); h = mix(h, f.done ? 2 : (f.ready ? 3 : 1)); }
    return h;
}
static void record_state(){ if (record_states) g_seen.insert(global_state()); }

static int do_choose(int n, int kind){
    g_stats.choices++;
    if (n < 2) return 0;
    g_stats.choice_points_multi++;
    int c = W->chooser ? W->chooser->choose(n, kind, mix(mix(global_state(), W->cur + 10), kind)) : 0;
    if (c < 0 || c >= n) { if (W->cur >= 0) fail("explorer divergence: choice out of range"); W->failed = true; W->error = "explorer divergence"; return 0; }
    return c;
}

static void note(char const *op, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0){
    Fiber &f = W->fibers[W->cur];
    f.hist = mix(mix(mix(mix(f.hist, hash_bytes(op, strlen(op))), a), b), c);
    f.where = op;
}

// block the current fiber until pred() holds
static void wait_until(std::function<bool()> const &pred){
    Fiber &f = W->fibers[W->cur];
    f.ready = pred;
    while(!f.ready()) switch_to_main(false);
    f.ready = nullptr;
}

// an MPI call begins: this is a scheduling point
static void enter(char const *op, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0){
    if (!W || W->cur < 0){ fprintf(stderr, "MPI call %s outside of a simulated rank\n", op); abort(); }
    note(op, a, b, c);
    g_stats.transitions++;
    if (++W->steps > W->opt.step_limit) fail(std::string("livelock: the execution did not end within the step limit, at ") + op);
    record_state();
    if (W->opt.sched_choice || W->opt.sched_policy == 2){
        Fiber &f = W->fibers[W->cur];
        f.ready = nullptr;
        switch_to_main(false);
    }
}
static void log_op(char const *op, int peer, long n){ if (log_ops) g_log[W->cur].push_back({op, peer, n}); }
void point(){ enter("point"); }
void barrier(){
    // all bodies take part
    long epoch = W->barrier_epoch;
    if (++W->barrier_count == W->opt.np){ W->barrier_count = 0; W->barrier_epoch++; return; }
    wait_until([epoch]{ return W->barrier_epoch != epoch; });
}

static void trampoline(){
#ifdef VSIM_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &W->main_bottom, &W->main_size);
#endif
    int me = W->cur;
    {
        EhGlobals *g = (EhGlobals*)__cxxabiv1::__cxa_get_globals();
        W->main_eh = *g; *g = EhGlobals{nullptr, 0};
    }
    if (on_switch_in) on_switch_in(me);
    try{
        (*W->body)(me);
    }catch(std::exception &e){
        if (!W->failed){ W->failed = true; W->error = "rank " + std::to_string(me) + ": uncaught exception: " + e.what(); }
    }catch(...){
        if (!W->failed){ W->failed = true; W->error = "rank " + std::to_string(me) + ": uncaught exception"; }
    }
    W->fibers[me].done = true;
    note("end");
    switch_to_main(true);
    abort();
}

static void resume(int r){
    Fiber &f = W->fibers[r];
    g_stats.switches++;
    W->cur = r;
#ifdef VSIM_ASAN
    __sanitizer_start_switch_fiber(&W->main_fake, f.stack + 4096, STACK);
#endif
    state_in(r);
    swapcontext(&W->main_ctx, &f.ctx);
    state_out(r);
#ifdef VSIM_ASAN
    __sanitizer_finish_switch_fiber(W->main_fake, nullptr, nullptr);
#endif
}

int live_comms(){ int n = 0; for(auto &c : W->comms) if (!c.builtin && !c.members.empty()) for(char f : c.freed) if (!f){ n++; break; } return n; }
int live_groups(){ int n = 0; for(auto &g : W->groups) if (g.used) n++; return n; }
int live_requests(){ int n = 0; for(auto &r : W->reqs) if (r.used) n++; return n; }

Result run(Options const &opt, std::function<void(int)> const &body, Chooser *chooser){
    World w; W = &w;
    if (log_ops) g_log.assign(opt.np, std::vector<MpiOp>());
    w.opt = opt; w.chooser = chooser; w.body = &body;
    w.fibers.resize(opt.np); w.clock.resize(opt.np); for(int i=0; i<opt.np; i++) w.clock[i] = 20000.0 + 7.0 * i;   // clocks of different ranks are not synchronized
    g_counters.assign(opt.np, RankCounters());
    w.comms.resize(3); w.groups.resize(2); w.reqs.resize(1);
    w.comms[1].builtin = w.comms[2].builtin = true;
    for(int i=0; i<opt.np; i++) w.comms[1].members.push_back(i);
    w.comms[1].coll_seq.assign(opt.np, 0);
    for(int i=0; i<opt.np; i++){
        Fiber &f = w.fibers[i];
        f.stack = get_stack();
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack + 4096; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr;
        f.hist = mix(77, i);
        makecontext(&f.ctx, (void(*)())trampoline, 0);
    }
    state_begin();
    record_state();
    int last = -1;
    while(!w.failed){
        std::vector<int> ready;
        bool all_done = true;
        auto consider = [&](int r){
            Fiber &f = w.fibers[r];
            if (f.done) return;
            all_done = false;
            if (!f.ready || f.ready()) ready.push_back(r);
        };
        // canonical order: the running rank first if still enabled, then by the policy
        if (opt.sched_policy == 2 && !opt.sched_choice){
            for(int k=1; k<=opt.np; k++) consider((last + k + opt.np) % opt.np);
        }else{
            if (last >= 0) consider(last);
            if (opt.sched_policy == 1){ for(int r=opt.np-1; r>=0; r--) if (r != last) consider(r); }
            else for(int r=0; r<opt.np; r++) if (r != last) consider(r);
        }
        if (all_done) break;
        if (ready.empty()){
            w.failed = true;
            std::string who;
            for(int r=0; r<opt.np; r++) if (!w.fibers[r].done) who += " " + std::to_string(r) + ":" + w.fibers[r].where;
            w.error = "deadlock: no rank can make progress; blocked ranks and calls:" + who;
            break;
        }
        int pick = 0;
        if (opt.sched_choice) pick = do_choose((int)ready.size(), CK_SCHED);
        if (w.failed) break;
        last = ready[pick];
        resume(last);
    }
    Result res;
    if (!w.failed && opt.check_leaks){
        if (live_requests() != 0){ w.failed = true; w.error = "a communication request was never completed"; }
        else if (!w.unmatched.empty()){ w.failed = true; w.error = "a message was sent that no rank received (from rank "
            + std::to_string(w.unmatched.front()->src) + " to rank " + std::to_string(w.unmatched.front()->dst) + ")"; }
        else if (live_comms() != 0){ w.failed = true; w.error = "a communicator created by the library was not freed by every member"; }
        else if (live_groups() != 0){ w.failed = true; w.error = "an MPI group created by the library was not freed"; }
    }
    if (w.failed) state_rank.clear(); // ranks that never came to their end
    res.ok = !w.failed; res.error = w.error; 
    { uint64_t h = 0; for(auto &f : w.fibers) h = mix(h, f.hist); res.final_state = h; }
    for(auto &f : w.fibers){ // also of abandoned fibers: the objects there are never destroyed, but nothing refers to them any more
#ifdef VSIM_ASAN
        ASAN_UNPOISON_MEMORY_REGION(f.stack + 4096, STACK);
#endif
        stack_pool.push_back(f.stack);
    }
    W = nullptr;
    return res;
}

// ---------------------------------------------------------------------------------------------- helpers
static int tsize(MPI_Datatype t){ int s = t & 0xff; if (s == 0 || t <= 0) fail("invalid MPI datatype"); return s; }
static Comm &get_comm(MPI_Comm c, char const *op){
    if (c == MPI_COMM_NULL) fail(std::string(op) + " called with MPI_COMM_NULL");
    if (c < 0 || c >= (int)W->comms.size()) fail(std::string(op) + " called with an invalid communicator");
    Comm &m = W->comms[c];
    if (c == MPI_COMM_SELF) return m;
    for(size_t i=0; i<m.members.size(); i++)
        if (m.members[i] == W->cur){
            if (!m.freed.empty() && m.freed[i]) fail(std::string(op) + " called with a communicator that was already freed");
            return m;
        }
    fail(std::string(op) + " called by a rank that is not a member of the communicator");
}
static int comm_rank(MPI_Comm c, Comm const &m){
    if (c == MPI_COMM_SELF) return 0;
    for(size_t i=0; i<m.members.size(); i++) if (m.members[i] == W->cur) return (int)i;
    return -1;
}
static int comm_size(MPI_Comm c, Comm const &m){ return c == MPI_COMM_SELF ? 1 : (int)m.members.size(); }
static int to_world(MPI_Comm c, Comm const &m, int r, char const *op){
    int n = comm_size(c, m);
    if (r < 0 || r >= n) fail(std::string(op) + ": rank " + std::to_string(r) + " is out of range for the communicator");
    return c == MPI_COMM_SELF ? W->cur : m.members[r];
}
static int new_req(){
    for(size_t i=1; i<W->reqs.size(); i++) if (!W->reqs[i].used){ W->reqs[i] = Request(); W->reqs[i].used = true; return (int)i; }
    W->reqs.emplace_back(); W->reqs.back().used = true; return (int)W->reqs.size() - 1;
}
static bool overlap(void const *a, size_t na, void const *b, size_t nb){
    char const *x = (char const*)a, *y = (char const*)b;
    return na && nb && x < y + nb && y < x + na;
}
// the buffers of operations that are in flight on this rank must not overlap when one of them is a receive
static void check_inflight(void const *buf, size_t bytes, bool is_recv, char const *op){
    if (!bytes) return;
    for(size_t i=1; i<W->reqs.size(); i++){
        Request &r = W->reqs[i];
        if (!r.used || r.owner != W->cur) continue;
        overlap_checks++;
        if ((is_recv || r.is_recv) && overlap(buf, bytes, r.buf, r.bytes))
            fail(std::string(op) + ": the buffer overlaps the buffer of a communication that is still in flight");
    }
}
static bool matches(Request const &r, Message const &m){
    return r.comm == m.comm && r.owner == m.dst && (r.tag == MPI_ANY_TAG || r.tag == m.tag)
        && (r.src == MPI_ANY_SOURCE || r.src == m.src);
}
static void bind(int h, Msg const &m){
    Request &r = W->reqs[h];
    if (m->data.size() > r.bytes) fail("message truncation: rank " + std::to_string(m->src) + " sent " + std::to_string(m->data.size())
        + " bytes to rank " + std::to_string(m->dst) + " which expects at most " + std::to_string(r.bytes));
    m->matched = true; r.msg = m;
    if (r.src == MPI_ANY_SOURCE || r.tag == MPI_ANY_TAG){ // the match is part of the receiver's history
        Fiber &f = W->fibers[r.owner]; f.hist = mix(mix(f.hist, 0xabcd), mix(m->src, m->tag));
    }
}
static void post_message(Msg const &m){
    m->seq = W->seq++;
    for(size_t i=0; i<W->pending_recvs.size(); i++){
        int h = W->pending_recvs[i];
        if (matches(W->reqs[h], *m)){
            W->pending_recvs.erase(W->pending_recvs.begin() + i);
            bind(h, m);
            return;
        }
    }
    W->unmatched.push_back(m);
}
static void post_recv(int h){
    Request &r = W->reqs[h];
    // candidates: the oldest message of every source
    std::vector<std::list<Msg>::iterator> cand;
    std::vector<int> srcs;
    for(auto it = W->unmatched.begin(); it != W->unmatched.end(); ++it)
        if (matches(r, **it) && std::find(srcs.begin(), srcs.end(), (*it)->src) == srcs.end()){
            cand.push_back(it); srcs.push_back((*it)->src);
        }
    if (cand.empty()){ W->pending_recvs.push_back(h); return; }
    std::sort(cand.begin(), cand.end(), [](std::list<Msg>::iterator const &a, std::list<Msg>::iterator const &b){ return (*a)->src < (*b)->src; });
    int c = cand.size() > 1 ? do_choose((int)cand.size(), CK_MATCH) : 0;
    Msg m = *cand[c];
    W->unmatched.erase(cand[c]);
    bind(h, m);
}
static Msg make_message(void const *buf, size_t bytes, int dst, int tag, MPI_Comm comm){
    Msg m = std::make_shared<Message>();
    m->src = W->cur; m->dst = dst; m->tag = tag; m->comm = comm; m->buf = buf;
    m->data.assign((char const*)buf, (char const*)buf + bytes);
    m->hash = hash_bytes(buf, bytes);
    g_stats.messages++; g_stats.bytes += bytes;
    RankCounters &c = g_counters[W->cur];
    c.sends++; c.bytes_sent += bytes;
    if (dst != W->cur) c.peers_mask |= 1ull << (dst & 63); else c.self_sends++;
    return m;
}
static bool request_complete(int h){
    Request &r = W->reqs[h];
    if (r.is_recv) return r.msg != nullptr;
    return !r.msg->sync || r.msg->matched;
}
static void fill_status(MPI_Status *s, Request const &r){
    if (!s) return;
    if (r.is_recv && r.msg){
        s->MPI_SOURCE = r.msg->src; s->MPI_TAG = r.msg->tag; s->MPI_ERROR = MPI_SUCCESS; s->internal_bytes = (long long)r.msg->data.size();
        Comm &c = W->comms[r.comm];
        if (r.comm != MPI_COMM_SELF) for(size_t i=0; i<c.members.size(); i++) if (c.members[i] == r.msg->src) s->MPI_SOURCE = (int)i;
    }else{ s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->MPI_ERROR = MPI_SUCCESS; s->internal_bytes = 0; }
}
static void finish(int h, MPI_Status *s){
    Request &r = W->reqs[h];
    if (r.is_recv){
        char *b = (char*)r.buf;
        for(size_t i=0; i<r.bytes; i++) if ((unsigned char)b[i] != POISON)
            fail("a receive buffer was modified between posting the receive and its completion");
        size_t n = r.msg->data.size();
        if (n) memcpy(b, r.msg->data.data(), n);
        if (n < r.bytes) memcpy(b + n, r.orig.data() + n, r.bytes - n);
        g_counters[W->cur].recvs++;
    }else{
        if (hash_bytes(r.buf, r.bytes) != r.msg->hash)
            fail("a send buffer was modified before the send completed");
    }
    fill_status(s, r);
    W->reqs[h] = Request();
}
static Request &check_req(int h, char const *op){
    if (h <= 0 || h >= (int)W->reqs.size() || !W->reqs[h].used) fail(std::string(op) + ": invalid or already completed request");
    if (W->reqs[h].owner != W->cur) fail(std::string(op) + ": request belongs to a different rank");
    return W->reqs[h];
}
} // namespace sim
using namespace sim;

template<typename T> static void reduce_t(T *acc, T const *x, int n, MPI_Op op){
    for(int i=0; i<n; i++) switch(op){
        case MPI_MAX: acc[i] = std::max(acc[i], x[i]); break;
        case MPI_MIN: acc[i] = std::min(acc[i], x[i]); break;
        case MPI_SUM: acc[i] = acc[i] + x[i]; break;
        case MPI_PROD: acc[i] = acc[i] * x[i]; break;
        case MPI_LAND: acc[i] = acc[i] && x[i]; break;
        case MPI_LOR: acc[i] = acc[i] || x[i]; break;
        default: sim::fail("reduction operation is not modelled");
    }
}

extern "C" {
int MPI_Init(int*, char***){ return 0; }
int MPI_Init_thread(int*, char***, int req, int *prov){ *prov = req; return 0; }
int MPI_Finalize(void){ return 0; }
int MPI_Initialized(int *f){ *f = 1; return 0; }
int MPI_Finalized(int *f){ *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int code){ sim::fail("MPI_Abort called with code " + std::to_string(code)); }
double MPI_Wtime(void){ if (!sim::active()) return 0.0; return W->clock[W->cur] += 1.0e-6; }
int MPI_Get_processor_name(char *n, int *l){ strcpy(n, "sim"); *l = 3; return 0; }

// Fortran handles are other integers than the C handles, so a missing conversion is an invalid handle
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ return (MPI_Comm)(f - 100000); }
MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return (MPI_Fint)(c + 100000); }
int MPI_Comm_rank(MPI_Comm c, int *r){ Comm &m = get_comm(c, "MPI_Comm_rank"); *r = comm_rank(c, m); return 0; }
int MPI_Comm_size(MPI_Comm c, int *s){ Comm &m = get_comm(c, "MPI_Comm_size"); *s = comm_size(c, m); return 0; }
static int new_group(std::vector<int> const &members){
    for(size_t i=2; i<W->groups.size(); i++) if (!W->groups[i].used){ W->groups[i].members = members; W->groups[i].used = true; W->groups[i].owner = W->cur; return (int)i; }
    Group g; g.members = members; g.used = true; g.owner = W->cur; W->groups.push_back(g); return (int)W->groups.size() - 1;
}
static Group &get_group(MPI_Group g, char const *op){
    if (g <= 0 || g >= (int)W->groups.size() || (g > 1 && (!W->groups[g].used || W->groups[g].owner != W->cur)))
        sim::fail(std::string(op) + ": invalid or freed group");
    return W->groups[g];
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g){
    Comm &m = get_comm(c, "MPI_Comm_group");
    *g = new_group(c == MPI_COMM_SELF ? std::vector<int>{W->cur} : m.members); return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int *ranks, MPI_Group *out){
    std::vector<int> base = get_group(g, "MPI_Group_incl").members, sub;
    for(int i=0; i<n; i++){
        if (ranks[i] < 0 || ranks[i] >= (int)base.size()) sim::fail("MPI_Group_incl: rank out of range");
        if (std::find(sub.begin(), sub.end(), base[ranks[i]]) != sub.end()) sim::fail("MPI_Group_incl: duplicate rank");
        sub.push_back(base[ranks[i]]);
    }
    *out = n == 0 ? MPI_GROUP_EMPTY : new_group(sub); return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *ranks, MPI_Group *out){
    std::vector<int> base = get_group(g, "MPI_Group_excl").members, sub;
    for(size_t i=0; i<base.size(); i++) if (std::find(ranks, ranks + n, (int)i) == ranks + n) sub.push_back(base[i]);
    *out = sub.empty() ? MPI_GROUP_EMPTY : new_group(sub); return 0;
}
int MPI_Group_size(MPI_Group g, int *s){ *s = (int)get_group(g, "MPI_Group_size").members.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *r){
    auto &m = get_group(g, "MPI_Group_rank").members; *r = MPI_UNDEFINED;
    for(size_t i=0; i<m.size(); i++) if (m[i] == W->cur) *r = (int)i;
    return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb){
    auto &ma = get_group(a, "MPI_Group_translate_ranks").members; auto &mb = get_group(b, "MPI_Group_translate_ranks").members;
    for(int i=0; i<n; i++){ rb[i] = MPI_UNDEFINED; for(size_t j=0; j<mb.size(); j++) if (mb[j] == ma.at(ra[i])) rb[i] = (int)j; }
    return 0;
}
int MPI_Group_free(MPI_Group *g){
    get_group(*g, "MPI_Group_free");
    if (*g != MPI_GROUP_EMPTY){ W->groups[*g].used = false; W->groups[*g].members.clear(); }
    *g = MPI_GROUP_NULL; return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *res){
    if (a == b){ *res = MPI_IDENT; return 0; }
    auto x = get_comm(a, "MPI_Comm_compare").members, y = get_comm(b, "MPI_Comm_compare").members;
    if (x == y) *res = MPI_CONGRUENT; else { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); *res = x == y ? MPI_SIMILAR : MPI_UNEQUAL; }
    return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler){ return 0; }
int MPI_Comm_free(MPI_Comm *c){
    enter("MPI_Comm_free", *c);
    Comm &m = get_comm(*c, "MPI_Comm_free");
    if (m.builtin) sim::fail("MPI_Comm_free called on a communicator that was not created by the caller");
    for(size_t i=0; i<m.members.size(); i++) if (m.members[i] == W->cur) m.freed[i] = 1;
    *c = MPI_COMM_NULL; return 0;
}

// ------------------------------------------------------------------------------------------------ collectives
static Coll &arrive(MPI_Comm c, char const *op, CollArgs &&a, std::pair<int,long> &key){
    Comm &m = get_comm(c, op);
    int me = comm_rank(c, m);
    g_stats.collectives++;
    g_counters[W->cur].colls++;
    key = {c, m.coll_seq[me]++};
    Coll &k = W->colls[key];
    if (k.arrived == 0) k.op = op;
    if (k.op != op) sim::fail(std::string("collective mismatch: this rank calls ") + op + " while another rank calls " + k.op + " on the same communicator");
    k.args[me] = std::move(a);
    k.arrived++;
    int n = comm_size(c, m);
    Coll *pk = &k;
    wait_until([pk, n]{ return pk->arrived == n; });
    return k;
}
static void leave(std::pair<int,long> const &key){
    Coll &k = W->colls[key];
    if (++k.left == k.arrived) W->colls.erase(key);
}
int MPI_Barrier(MPI_Comm c){
    enter("MPI_Barrier", c);
    if (c == MPI_COMM_SELF) return 0;
    std::pair<int,long> key; arrive(c, "MPI_Barrier", CollArgs(), key); leave(key); return 0;
}
static int alltoallv(MPI_Comm c, char const *op, const void *sb, std::vector<int> sc, std::vector<int> sd, int ss,
                     void *rb, std::vector<int> rc, std::vector<int> rd, int rs){
    Comm &m = get_comm(c, op);
    int n = comm_size(c, m), me = comm_rank(c, m);
    for(int i=0; i<n; i++) if (sc[i] < 0 || rc[i] < 0) sim::fail(std::string(op) + ": negative count");
    for(int i=0; i<n; i++) for(int j=0; j<i; j++)
        if (rc[i] > 0 && rc[j] > 0 && rd[i] < rd[j] + rc[j] && rd[j] < rd[i] + rc[i]) sim::fail(std::string(op) + ": overlapping receive blocks");
    for(int i=0; i<n; i++){
        for(int j=0; j<n; j++)
            if (sc[i] > 0 && rc[j] > 0 && overlap((char const*)sb + (long)sd[i] * ss, (size_t)sc[i] * ss, (char*)rb + (long)rd[j] * rs, (size_t)rc[j] * rs))
                sim::fail(std::string(op) + ": the send and receive buffers overlap");
        if (rc[i] > 0) check_inflight((char*)rb + (long)rd[i] * rs, (size_t)rc[i] * rs, true, op);
        if (sc[i] > 0) check_inflight((char const*)sb + (long)sd[i] * ss, (size_t)sc[i] * ss, false, op);
    }
    CollArgs a; a.ssize = ss; a.rsize = rs; a.sbuf = sb; a.rbuf = rb;
    a.scounts = sc; a.rcounts = rc; a.rdispl = rd; a.sdispl.assign(n, 0);
    size_t total = 0; for(int i=0; i<n; i++){ a.sdispl[i] = (int)total; total += (size_t)sc[i] * ss; }
    a.sdata.resize(total);
    for(int i=0; i<n; i++) if (sc[i] > 0) memcpy(a.sdata.data() + a.sdispl[i], (char const*)sb + (long)sd[i] * ss, (size_t)sc[i] * ss);
    for(int i=0; i<n; i++) if (sc[i] > 0 && i != me){ g_stats.messages++; g_stats.bytes += (uint64_t)sc[i] * ss; g_counters[W->cur].bytes_sent += (uint64_t)sc[i] * ss;
        g_counters[W->cur].peers_mask |= 1ull << ((c == MPI_COMM_SELF ? W->cur : m.members[i]) & 63); }
    auto deliver = [&](std::map<int, CollArgs> &args){
        for(int i=0; i<n; i++){
            CollArgs &o = args[i];
            size_t sbytes = (size_t)o.scounts[me] * o.ssize, rbytes = (size_t)rc[i] * rs;
            if (sbytes != rbytes) sim::fail(std::string(op) + ": rank " + std::to_string(i) + " of the communicator sends " + std::to_string(sbytes)
                + " bytes to rank " + std::to_string(me) + " which expects " + std::to_string(rbytes));
            if (rbytes) memcpy((char*)rb + (long)rd[i] * rs, o.sdata.data() + o.sdispl[me], rbytes);
        }
    };
    if (c == MPI_COMM_SELF){ std::map<int, CollArgs> args; args[0] = a; deliver(args); return 0; }
    std::pair<int,long> key; Coll &k = arrive(c, op, std::move(a), key);
    deliver(k.args);
    leave(key); return 0;
}
static std::vector<int> iota_displ(int n, int count){ std::vector<int> d(n); for(int i=0; i<n; i++) d[i] = i * count; return d; }
int MPI_Alltoall(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm c){
    enter("MPI_Alltoall", c, sc, rc);
    log_op("MPI_Alltoall", 0, sc);
    Comm &m = get_comm(c, "MPI_Alltoall"); int n = comm_size(c, m);
    if (sb == MPI_IN_PLACE) sim::fail("MPI_Alltoall with MPI_IN_PLACE is not modelled");
    return alltoallv(c, "MPI_Alltoall", sb, std::vector<int>(n, sc), iota_displ(n, sc), tsize(st), rb, std::vector<int>(n, rc), iota_displ(n, rc), tsize(rt));
}
int MPI_Alltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c){
    enter("MPI_Alltoallv", c);
    log_op("MPI_Alltoallv", 0, 0);
    Comm &m = get_comm(c, "MPI_Alltoallv"); int n = comm_size(c, m);
    if (sb == MPI_IN_PLACE) sim::fail("MPI_Alltoallv with MPI_IN_PLACE is not modelled");
    return alltoallv(c, "MPI_Alltoallv", sb, {sc, sc + n}, {sd, sd + n}, tsize(st), rb, {rc, rc + n}, {rd, rd + n}, tsize(rt));
}
int MPI_Allgatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c){
    enter("MPI_Allgatherv", c, sc);
    Comm &m = get_comm(c, "MPI_Allgatherv"); int n = comm_size(c, m), me = comm_rank(c, m);
    if (sb == MPI_IN_PLACE){ sb = (char*)rb + (long)rd[me] * tsize(rt); sc = rc[me]; st = rt; 
        std::vector<char> tmp((char const*)sb, (char const*)sb + (size_t)sc * tsize(st));
        return alltoallv(c, "MPI_Allgatherv", tmp.data(), std::vector<int>(n, sc), std::vector<int>(n, 0), tsize(st), rb, {rc, rc + n}, {rd, rd + n}, tsize(rt)); }
    return alltoallv(c, "MPI_Allgatherv", sb, std::vector<int>(n, sc), std::vector<int>(n, 0), tsize(st), rb, {rc, rc + n}, {rd, rd + n}, tsize(rt));
}
int MPI_Allgather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm c){
    enter("MPI_Allgather", c, sc, rc);
    Comm &m = get_comm(c, "MPI_Allgather"); int n = comm_size(c, m), me = comm_rank(c, m);
    std::vector<char> tmp;
    if (sb == MPI_IN_PLACE){ char *p = (char*)rb + (long)me * rc * tsize(rt); tmp.assign(p, p + (size_t)rc * tsize(rt)); sb = tmp.data(); sc = rc; st = rt; }
    return alltoallv(c, "MPI_Allgather", sb, std::vector<int>(n, sc), std::vector<int>(n, 0), tsize(st), rb, std::vector<int>(n, rc), iota_displ(n, rc), tsize(rt));
}
int MPI_Gather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c){
    enter("MPI_Gather", c, sc, root);
    Comm &m = get_comm(c, "MPI_Gather"); int n = comm_size(c, m), me = comm_rank(c, m);
    std::vector<int> scv(n, 0); scv.at(root) = sc;
    std::vector<int> rcv(n, me == root ? rc : 0);
    return alltoallv(c, "MPI_Gather", sb, scv, std::vector<int>(n, 0), tsize(st), rb, rcv, iota_displ(n, rc), me == root ? tsize(rt) : 1);
}
int MPI_Bcast(void *b, int count, MPI_Datatype t, int root, MPI_Comm c){
    enter("MPI_Bcast", c, count, root);
    Comm &m = get_comm(c, "MPI_Bcast"); int n = comm_size(c, m), me = comm_rank(c, m);
    std::vector<int> scv(n, me == root ? count : 0), rcv(n, 0);
    if (me == root) scv[root] = 0; else rcv.at(root) = count;
    return alltoallv(c, "MPI_Bcast", b, scv, std::vector<int>(n, 0), tsize(t), b, rcv, std::vector<int>(n, 0), tsize(t));
}
static int reduce(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, char const *name){
    enter(name, c, count, op);
    Comm &m = get_comm(c, name); int n = comm_size(c, m), me = comm_rank(c, m);
    size_t bytes = (size_t)count * tsize(t);
    if (sb == MPI_IN_PLACE) sb = rb;
    std::vector<char> mine((char const*)sb, (char const*)sb + bytes), all(bytes * n);
    alltoallv(c, name, mine.data(), std::vector<int>(n, (int)bytes), std::vector<int>(n, 0), 1, all.data(), std::vector<int>(n, (int)bytes), iota_displ(n, (int)bytes), 1);
    if (root >= 0 && me != root) return 0;
    std::vector<char> acc(all.begin(), all.begin() + bytes);
    for(int i=1; i<n; i++){
        void *a = acc.data(); void const *x = all.data() + bytes * i;
        switch(t){
            case MPI_INT: case MPI_INT32_T: reduce_t((int*)a, (int const*)x, count, op); break;
            case MPI_UNSIGNED: reduce_t((unsigned*)a, (unsigned const*)x, count, op); break;
            case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: reduce_t((long*)a, (long const*)x, count, op); break;
            case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: reduce_t((unsigned long*)a, (unsigned long const*)x, count, op); break;
            case MPI_FLOAT: reduce_t((float*)a, (float const*)x, count, op); break;
            case MPI_DOUBLE: reduce_t((double*)a, (double const*)x, count, op); break;
            case MPI_CHAR: case MPI_BYTE: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_C_BOOL: reduce_t((unsigned char*)a, (unsigned char const*)x, count, op); break;
            default: sim::fail("reduction type is not modelled");
        }
    }
    memcpy(rb, acc.data(), bytes);
    return 0;
}
int MPI_Allreduce(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c){ return reduce(sb, rb, count, t, op, -1, c, "MPI_Allreduce"); }
int MPI_Reduce(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c){ return reduce(sb, rb, count, t, op, root, c, "MPI_Reduce"); }

static int make_comm(std::vector<int> const &members){
    Comm c; c.members = members; c.freed.assign(members.size(), 0); c.coll_seq.assign(members.size(), 0);
    W->comms.push_back(c); return (int)W->comms.size() - 1;
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *out){
    enter("MPI_Comm_create", c);
    std::vector<int> members = get_group(g, "MPI_Comm_create").members;
    if (c == MPI_COMM_SELF){ *out = members.empty() ? MPI_COMM_NULL : make_comm(members); return 0; }
    { Comm &m = get_comm(c, "MPI_Comm_create");
      for(int r : members) if (std::find(m.members.begin(), m.members.end(), r) == m.members.end()) sim::fail("MPI_Comm_create: the group is not a subset of the communicator"); }
    CollArgs a; a.group = members;
    std::pair<int,long> key; Coll &k = arrive(c, "MPI_Comm_create", std::move(a), key);
    // ranks may pass different groups (MPI 2.2), but all members of a non-empty group must pass that same group
    std::vector<int> const world_members = get_comm(c, "MPI_Comm_create").members;
    for(auto &p : k.args) for(auto &q : k.args)
        if (std::find(p.second.group.begin(), p.second.group.end(), world_members[q.first]) != p.second.group.end() && q.second.group != p.second.group)
            sim::fail("MPI_Comm_create: the members of a group pass different groups");
    if (!k.made){ k.made = true; for(auto &p : k.args) if (!p.second.group.empty() && !k.newcomm.count(p.second.group[0])){ int h = make_comm(p.second.group); k.newcomm[p.second.group[0]] = h; } }
    *out = std::find(members.begin(), members.end(), W->cur) != members.end() ? k.newcomm[members[0]] : MPI_COMM_NULL;
    note("comm", members.size());
    leave(key); return 0;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int, MPI_Comm *out){
    (void)c; (void)g; (void)out; sim::fail("MPI_Comm_create_group is not modelled");
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out){
    enter("MPI_Comm_dup", c);
    if (c == MPI_COMM_SELF){ *out = make_comm({W->cur}); return 0; }
    std::vector<int> members = get_comm(c, "MPI_Comm_dup").members;
    std::pair<int,long> key; Coll &k = arrive(c, "MPI_Comm_dup", CollArgs(), key);
    if (!k.made){ k.made = true; int h = make_comm(members); k.newcomm[0] = h; }
    *out = k.newcomm[0]; leave(key); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int keyv, MPI_Comm *out){
    enter("MPI_Comm_split", c, color, keyv);
    std::vector<int> members = get_comm(c, "MPI_Comm_split").members;
    CollArgs a; a.color = color; a.key = keyv;
    std::pair<int,long> key; Coll &k = arrive(c, "MPI_Comm_split", std::move(a), key);
    if (!k.made){
        k.made = true;
        std::map<int, std::vector<std::pair<int,int>>> byc;
        for(auto &p : k.args) if (p.second.color != MPI_UNDEFINED) byc[p.second.color].push_back({p.second.key, p.first});
        for(auto &b : byc){
            std::sort(b.second.begin(), b.second.end());
            std::vector<int> mem; for(auto &x : b.second) mem.push_back(members[x.second]);
            int h = make_comm(mem); k.newcomm[b.first] = h;
        }
    }
    *out = color == MPI_UNDEFINED ? MPI_COMM_NULL : k.newcomm[color];
    leave(key); return 0;
}

// -------------------------------------------------------------------------------------------- point to point
static size_t nbytes(int count, MPI_Datatype t, char const *op){
    if (count < 0) sim::fail(std::string(op) + ": negative count");
    return (size_t)count * tsize(t);
}
static bool pick_sync(bool force){
    if (force || W->opt.send_mode == 1) return true;
    if (W->opt.send_mode == 2){ int c = do_choose(2, CK_SENDMODE); note("sync", c); return c == 1; }
    return false;
}
static int send_impl(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, char const *op, bool force){
    enter(op, dst, ((uint64_t)tag << 32) | (unsigned)n, c);
    Comm &m = get_comm(c, op);
    if (dst == MPI_PROC_NULL) return 0;
    log_op(op, dst, n);
    size_t bytes = nbytes(n, t, op);
    int w = to_world(c, m, dst, op);
    check_inflight(b, bytes, false, op);
    Msg msg = make_message(b, bytes, w, tag, c);
    msg->sync = pick_sync(force);
    post_message(msg);
    if (msg->sync) wait_until([msg]{ return msg->matched; });
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c){ return send_impl(b, n, t, dst, tag, c, "MPI_Send", false); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c){ return send_impl(b, n, t, dst, tag, c, "MPI_Rsend", false); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c){ return send_impl(b, n, t, dst, tag, c, "MPI_Ssend", true); }
static int isend_impl(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *req, char const *op, bool force){
    enter(op, dst, ((uint64_t)tag << 32) | (unsigned)n, c);
    Comm &m = get_comm(c, op);
    if (dst == MPI_PROC_NULL){ *req = MPI_REQUEST_NULL; return 0; }
    log_op(op, dst, n);
    size_t bytes = nbytes(n, t, op);
    int w = to_world(c, m, dst, op);
    check_inflight(b, bytes, false, op);
    int h = new_req();
    Msg msg = make_message(b, bytes, w, tag, c);
    msg->sync = pick_sync(force);
    msg->send_req = h;
    Request &r = W->reqs[h]; r.is_recv = false; r.owner = W->cur; r.buf = const_cast<void*>(b); r.bytes = bytes; r.comm = c; r.msg = msg; r.seq = W->seq++;
    *req = h;
    post_message(msg);
    return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r){ return isend_impl(b, n, t, dst, tag, c, r, "MPI_Isend", false); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r){ return isend_impl(b, n, t, dst, tag, c, r, "MPI_Issend", true); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *req){
    enter("MPI_Irecv", src, ((uint64_t)tag << 32) | (unsigned)n, c);
    Comm &m = get_comm(c, "MPI_Irecv");
    if (src == MPI_PROC_NULL){ *req = MPI_REQUEST_NULL; return 0; }
    log_op("MPI_Irecv", src, n);
    size_t bytes = nbytes(n, t, "MPI_Irecv");
    int w = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : to_world(c, m, src, "MPI_Irecv");
    check_inflight(b, bytes, true, "MPI_Irecv");
    int h = new_req();
    Request &r = W->reqs[h]; r.is_recv = true; r.owner = W->cur; r.buf = b; r.bytes = bytes; r.src = w; r.tag = tag; r.comm = c; r.seq = W->seq++;
    r.orig.assign((char*)b, (char*)b + bytes);
    memset(b, POISON, bytes);
    *req = h;
    post_recv(h);
    return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s){
    MPI_Request r = MPI_REQUEST_NULL;
    MPI_Irecv(b, n, t, src, tag, c, &r);
    return MPI_Wait(&r, s);
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int dst, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *s){
    MPI_Request r[2];
    MPI_Irecv(rb, rn, rt, src, rtag, c, &r[0]);
    MPI_Isend(sb, sn, st, dst, stag, c, &r[1]);
    MPI_Wait(&r[0], s);
    return MPI_Wait(&r[1], MPI_STATUS_IGNORE);
}
int MPI_Wait(MPI_Request *r, MPI_Status *s){
    enter("MPI_Wait");
    if (*r == MPI_REQUEST_NULL) return 0;
    check_req(*r, "MPI_Wait");
    int h = *r;
    wait_until([h]{ return request_complete(h); });
    finish(h, s); *r = MPI_REQUEST_NULL; return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s){
    enter("MPI_Waitall", n);
    std::vector<int> hs;
    for(int i=0; i<n; i++) if (r[i] != MPI_REQUEST_NULL){ check_req(r[i], "MPI_Waitall"); hs.push_back(r[i]); }
    wait_until([&hs]{ for(int h : hs) if (!request_complete(h)) return false; return true; });
    for(int i=0; i<n; i++) if (r[i] != MPI_REQUEST_NULL){ finish(r[i], s ? s + i : nullptr); r[i] = MPI_REQUEST_NULL; }
    return 0;
}
static int pick_complete(std::vector<int> const &idx){
    if (idx.size() < 2) return 0;
    if (W->opt.waitany_choice) return do_choose((int)idx.size(), CK_WAITANY);
    return W->opt.waitany_policy == 0 ? 0 : (int)idx.size() - 1;
}
int MPI_Waitany(int n, MPI_Request *r, int *index, MPI_Status *s){
    enter("MPI_Waitany", n);
    std::vector<int> act;
    for(int i=0; i<n; i++) if (r[i] != MPI_REQUEST_NULL){ check_req(r[i], "MPI_Waitany"); act.push_back(i); }
    if (act.empty()){ *index = MPI_UNDEFINED; return 0; }
    wait_until([&act, r]{ for(int i : act) if (request_complete(r[i])) return true; return false; });
    std::vector<int> done;
    for(int i : act) if (request_complete(r[i])) done.push_back(i);
    *index = done[pick_complete(done)];
    finish(r[*index], s); r[*index] = MPI_REQUEST_NULL;
    note("picked", *index);
    return 0;
}
int MPI_Waitsome(int n, MPI_Request *r, int *outcount, int *indices, MPI_Status *s){
    int i = 0; MPI_Waitany(n, r, &i, s);
    if (i == MPI_UNDEFINED){ *outcount = MPI_UNDEFINED; return 0; }
    *outcount = 1; indices[0] = i; return 0;
}
// polling calls hand control to the other ranks first, otherwise a polling loop would never end
static void poll_yield(){
    long before = W->steps; bool first = true;
    int me = W->cur;
    bool others = false;
    for(size_t i=0; i<W->fibers.size(); i++) if ((int)i != me && !W->fibers[i].done && (!W->fibers[i].ready || W->fibers[i].ready())) others = true;
    if (!others) return;
    W->fibers[me].ready = [before, first]() mutable { if (first){ first = false; return false; } (void)before; return true; };
    switch_to_main(false);
    W->fibers[me].ready = nullptr;
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *s){
    enter("MPI_Test");
    if (*r == MPI_REQUEST_NULL){ *flag = 1; return 0; }
    check_req(*r, "MPI_Test");
    if (!request_complete(*r)) poll_yield();
    *flag = request_complete(*r) ? 1 : 0;
    note("flag", *flag);
    if (*flag){ finish(*r, s); *r = MPI_REQUEST_NULL; }
    return 0;
}
int MPI_Testany(int n, MPI_Request *r, int *index, int *flag, MPI_Status *s){
    enter("MPI_Testany", n);
    std::vector<int> act, done;
    for(int i=0; i<n; i++) if (r[i] != MPI_REQUEST_NULL){ check_req(r[i], "MPI_Testany"); act.push_back(i); }
    if (act.empty()){ *flag = 1; *index = MPI_UNDEFINED; return 0; }
    for(int i : act) if (request_complete(r[i])) done.push_back(i);
    if (done.empty()){ poll_yield(); for(int i : act) if (request_complete(r[i])) done.push_back(i); }
    if (done.empty()){ *flag = 0; *index = MPI_UNDEFINED; return 0; }
    *flag = 1; *index = done[pick_complete(done)];
    finish(r[*index], s); r[*index] = MPI_REQUEST_NULL; note("picked", *index);
    return 0;
}
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *s){
    enter("MPI_Testall", n);
    bool all = true;
    for(int i=0; i<n; i++) if (r[i] != MPI_REQUEST_NULL){ check_req(r[i], "MPI_Testall"); all = all && request_complete(r[i]); }
    if (!all){ poll_yield(); all = true; for(int i=0; i<n; i++) if (r[i] != MPI_REQUEST_NULL) all = all && request_complete(r[i]); }
    *flag = all ? 1 : 0; note("flag", *flag);
    if (all) for(int i=0; i<n; i++) if (r[i] != MPI_REQUEST_NULL){ finish(r[i], s ? s + i : nullptr); r[i] = MPI_REQUEST_NULL; }
    return 0;
}
int MPI_Request_free(MPI_Request *r){
    enter("MPI_Request_free");
    Request &q = check_req(*r, "MPI_Request_free");
    if (q.is_recv) sim::fail("MPI_Request_free on a receive is not modelled");
    sim::fail("MPI_Request_free: the completion of the send can never be established");
}
int MPI_Cancel(MPI_Request*){ sim::fail("MPI_Cancel is not modelled"); }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n){ *n = (int)(s->internal_bytes / tsize(t)); return 0; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *s){
    enter("MPI_Probe", src, tag, c);
    Comm &m = get_comm(c, "MPI_Probe");
    Request q; q.owner = W->cur; q.src = src == MPI_ANY_SOURCE ? src : to_world(c, m, src, "MPI_Probe"); q.tag = tag; q.comm = c;
    Msg found;
    auto look = [&]{ for(auto &x : W->unmatched) if (matches(q, *x)){ found = x; return true; } return false; };
    wait_until(look);
    if (s){ Request r2 = q; r2.is_recv = true; r2.msg = found; fill_status(s, r2); }
    return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *s){
    enter("MPI_Iprobe", src, tag, c);
    Comm &m = get_comm(c, "MPI_Iprobe");
    Request q; q.owner = W->cur; q.src = src == MPI_ANY_SOURCE ? src : to_world(c, m, src, "MPI_Iprobe"); q.tag = tag; q.comm = c;
    Msg found;
    auto look = [&]{ for(auto &x : W->unmatched) if (matches(q, *x)){ found = x; return true; } return false; };
    if (!look()) { poll_yield(); look(); }
    *flag = found ? 1 : 0;
    if (found && s){ Request r2 = q; r2.is_recv = true; r2.msg = found; fill_status(s, r2); }
    return 0;
}
int MPI_Type_size(MPI_Datatype t, int *s){ *s = tsize(t); return 0; }

// failed assertions inside a simulated rank end the execution instead of the process
void __assert_fail(const char *expr, const char *file, unsigned int line, const char *func){
    std::string f = file; size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
    std::string msg = std::string("assertion failed: ") + expr + " (" + f + ":" + std::to_string(line) + ")";
    (void)func;
    if (sim::active()) sim::fail(msg);
    fprintf(stderr, "%s\n", msg.c_str());
    abort();
}
}
