// P20: tracing is complete, well-formed and has no effect on results.  Compiled twice: without tracing this harness
// records the history hash of every case, with tracing it compares with them and checks the log files.
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <fstream>
#include "tx.h"
using namespace hx;
#ifdef Heffte_ENABLE_TRACING
static const bool TRACED = true;
static std::vector<std::deque<heffte::event>> logs(64); static std::vector<std::string> names(64);
static void out_(int r){ logs[r].swap(heffte::event_log); names[r].swap(heffte::log_filename); }
static void in_(int r){ logs[r].swap(heffte::event_log); names[r].swap(heffte::log_filename); }
static void hooks(bool on){ for(auto &l : logs) l.clear(); for(auto &n : names) n.clear(); heffte::event_log.clear(); heffte::log_filename.clear(); sim::on_switch_out = on ? out_ : nullptr; sim::on_switch_in = on ? in_ : nullptr; }
#else
static const bool TRACED = false;
static void hooks(bool){}
#endif
static std::string dir;
static int hash_file(){ static int fd = -1; if (fd < 0){ char const *f = getenv("VERIF_BUILD"); fd = open(((f ? f : "/verif/build") + std::string("/P20.hashes")).c_str(), TRACED ? O_RDONLY : O_RDWR | O_CREAT, 0644); } return fd; }
static std::vector<std::string> listing(){ std::vector<std::string> r; DIR *d = opendir(dir.c_str()); if (d){ while(dirent *e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(d); } std::sort(r.begin(), r.end()); return r; }
struct Line { std::string name; double start, dur; };
static std::vector<Line> parse(std::string const &file, bool &ok){
    std::vector<Line> r; std::ifstream f(file); ok = f.good(); std::string l;
    while(std::getline(f, l)){
        std::vector<std::string> w; std::stringstream s(l); std::string x; while(s >> x) w.push_back(x);
        if (w.size() < 3){ ok = false; return r; }
        Line e; char *p; e.start = strtod(w[w.size() - 2].c_str(), &p); if (*p) ok = false; e.dur = strtod(w.back().c_str(), &p); if (*p) ok = false;
        for(size_t i=0; i+2<w.size(); i++) e.name += (i ? " " : "") + w[i];
        r.push_back(e);
    }
    return r;
}
struct Call { size_t from, to; bool scaled, r2c, fwd; };
// what the events of the calls have to contain
static void check_log(int me, std::string const &file, std::vector<Call> const &calls, double t0, double t1){
    bool ok; auto ev = parse(file, ok);
    HX_REQUIRE(ok, "rank %d: log file %s is missing or malformed", me, file.c_str());
    std::vector<std::string> want, got, src, from; std::map<std::string, int> n, m; int fft = 0;
    for(auto const &e : ev){
        HX_REQUIRE(e.dur >= 0, "rank %d: event '%s' has a negative duration", me, e.name.c_str());
        HX_REQUIRE(e.dur >= 0.5e-6, "rank %d: event '%s' has the duration %g, but the clock advances with each reading", me, e.name.c_str(), e.dur);
        HX_REQUIRE(e.start >= t0 - 1e-9 && e.start + e.dur <= t1 + 1e-9, "rank %d: event '%s' at %.9f + %.9f is outside of the traced interval %.9f ... %.9f", me, e.name.c_str(), e.start, e.dur, t0, t1);
        std::string a = e.name.substr(0, e.name.find(' '));
        if (a == "irecv" || a == "isend" || a == "send" || a == "all2all" || a == "all2allv") got.push_back(e.name);
        if (e.name.compare(0, 15, "unpacking from ") == 0) from.push_back(e.name.substr(15)); else n[e.name]++;
        if (e.name == "fft-1d") fft++; else if (e.name == "fft-1d x3") fft += 3;
    }
    auto const &log = sim::mpi_log()[me]; int sends = 0, recvs = 0, colls = 0, scaled = 0;
    for(auto const &c : calls){
        scaled += c.scaled;
        for(size_t i=c.from; i<c.to; i++){
            std::string o = log[i].op;
            if (o == "MPI_Irecv"){ want.push_back(fmt("irecv %ld from %d", log[i].n, log[i].peer)); src.push_back(std::to_string(log[i].peer)); recvs++; }
            else if (o == "MPI_Send"){ want.push_back(fmt("send %ld for %d", log[i].n, log[i].peer)); sends++; }
            else if (o == "MPI_Isend"){ want.push_back(fmt("isend %ld for %d", log[i].n, log[i].peer)); sends++; }
            else if (o == "MPI_Alltoall"){ want.push_back("all2all"); colls++; }
            else if (o == "MPI_Alltoallv"){ want.push_back("all2allv"); colls++; }
        }
    }
    auto text = [](std::vector<std::string> const &v){ std::string s; for(auto &x : v) s += "[" + x + "]"; return s.substr(0, 700); };
    HX_REQUIRE(got == want, "rank %d: messages in the log %s, messages performed %s", me, text(got).c_str(), text(want).c_str());
    std::sort(src.begin(), src.end()); std::sort(from.begin(), from.end());
    HX_REQUIRE(from == src, "rank %d: unpacking from %s, received from %s", me, text(from).c_str(), text(src).c_str());
    HX_REQUIRE(n["packing"] == sends + colls, "rank %d: %d packing events for %d sends and %d collectives", me, n["packing"], sends, colls);
    HX_REQUIRE(n["unpacking"] == colls, "rank %d: %d unpacking events for %d collectives", me, n["unpacking"], colls);
    HX_REQUIRE(n["waitany"] == recvs, "rank %d: %d waits for %d receives", me, n["waitany"], recvs);
    HX_REQUIRE(n["self packing"] == n["self unpacking"], "rank %d: %d self packing and %d self unpacking events", me, n["self packing"], n["self unpacking"]);
    HX_REQUIRE(fft == 3 * (int)calls.size(), "rank %d: the log has %d one-dimensional transforms for %zu calls", me, fft, calls.size());
    HX_REQUIRE(n["scale"] == scaled, "rank %d: the log has %d scalings for %d scaled calls", me, n["scale"], scaled);
}
// words: I, J initialise with two roots; F, B the first plan; G, H the second plan; Z finalise
struct Hist {
    TC t, u; std::string word; long idx; int color; // color 1: plans live on a reversed sub-communicator of the even ranks
    template<class BE, class T, bool R2C> std::string run(){
        typedef typename XT<BE, T, R2C>::in IN; typedef typename XT<BE, T, R2C>::out OUT;
        Ref rt = make_ref<BE, T>(t), ru = make_ref<BE, T>(u);
        if (TRACED && dir.empty()){ char const *f = getenv("VERIF_WORK"); std::string d = (f ? f : "/tmp") + std::string("/logs_XXXXXX"); if (!mkdtemp(&d[0])) abort(); dir = d; }
        if (TRACED) for(auto const &f : listing()) unlink((dir + "/" + f).c_str());
        hooks(true); sim::log_ops = true;
        sim::Options o; o.np = color ? 2 * t.np() : t.np(); if (t.policy & 1){ o.send_mode = 1; o.waitany_policy = 1; o.sched_policy = 1; } if (t.policy & 2) o.sched_policy = 2;
        std::vector<std::string> files(1); std::set<std::string> want_files;
        sim::Result res = sim::run(o, [&](int w){
            MPI_Comm comm = MPI_COMM_WORLD; int me = w;
            if (color){ MPI_Comm_split(MPI_COMM_WORLD, w % 2 ? MPI_UNDEFINED : 0, -w, &comm); if (comm != MPI_COMM_NULL) MPI_Comm_rank(comm, &me); }
            std::string root; double t0 = 0; std::vector<Call> calls; size_t k = 0;
            bool member = comm != MPI_COMM_NULL;
            std::unique_ptr<typename PlanOf<BE, int, R2C>::type> p, q;
            if (member){ p = PlanOf<BE, int, R2C>::make(t, me, comm); q = PlanOf<BE, int, R2C>::make(u, me, comm); }
            auto mark = [&]{ return sim::mpi_log()[w].size(); };
            for(char c : word){ k++;
                if (c == 'I' || c == 'J'){ root = dir + (c == 'I' ? "/one" : "/two_2"); t0 = MPI_Wtime(); calls.clear(); heffte::init_tracing(root); }
                else if (c == 'Z'){
                    heffte::finalize_tracing(); double t1 = MPI_Wtime();
                    if (TRACED){ std::string f = root + "_" + std::to_string(w) + ".log"; want_files.insert(f.substr(dir.size() + 1)); check_log(w, f, calls, t0, t1); }
                }else if (member){
                    size_t from = mark(); bool second = c == 'G' || c == 'H'; TC x = second ? u : t; Ref &r = second ? ru : rt; x.sf = (k + x.sf) % 3; x.sb = (k + x.sb) % 3;
                    int mode = x.batch > 1 ? (k % 2 ? M_BATCH : M_BATCH_WORK) : (int)(k % 3);
                    bool f = c == 'F' || c == 'G';
                    if (f) fwd_check<IN, OUT>(second ? *q : *p, x, r, me, mode); else bwd_check<OUT, IN>(second ? *q : *p, x, r, me, mode);
                    calls.push_back({from, mark(), (f ? x.sf : x.sb) != 0, R2C, f});
                }
            }
            p.reset(); q.reset(); if (color && member) MPI_Comm_free(&comm);
        });
        sim::log_ops = false; hooks(false); mc::ctx->count("executions");
        if (!res.ok) return res.error;
        if (TRACED){
            auto l = listing(); std::vector<std::string> wf(want_files.begin(), want_files.end());
            if (l != wf) return fmt("%zu files were written, expected %zu", l.size(), wf.size());
            uint64_t h = 0; if (pread(hash_file(), &h, 8, idx * 8) != 8 || h == 0) return "no execution without tracing was recorded for this case (run the job P20_plain first)";
            if (h != res.final_state) return "with tracing the calls to MPI or their data differ from those without tracing";
            mc::ctx->count("compared_with_untraced");
        }else if (pwrite(hash_file(), &res.final_state, 8, idx * 8) != 8) return "cannot write the hash file";
        mc::ctx->outcome(res.final_state);
        return "";
    }
};
static void enumerate(mc::Ctx &c){
    bool th = c.thorough; Sec sec; long idx = 0;
    auto test = [&](int kind, bool fl, TC const &t, TC const &u, std::string const &word, int color){
        Hist h; h.t = t; h.u = u; h.word = word; h.idx = idx++; h.color = color;
        test_kind(c, kind, fl, fmt("%s%s {", word.c_str(), color ? " sub" : "") + hx::str(t) + "} {" + hx::str(u) + "}", h);
    };
    auto opts = [&](TC &t){ sec(t); t.shift = 0; };
    // every layout, algorithm and option once
    for(int kind=0; kind<KIND_COUNT; kind++) for(auto const &l : layouts(kind, {W(2,3,4), W(4,3,2), W(4,4,4), W(1,3,4)}, {1,2,3,4,6}, th ? 2 : 1)) for(int a=0; a<4; a++){
        TC t = tc_of(l); opts(t); t.alg = a; if (!feasible(t)) continue; TC u = t; u.batch = 1 + sec.extra % 2; u.alg = (a + 1) % 4;
        test(kind, sec.fl, t, u, "IFBGHZ", 0);
    }
    // every history
    for(int kind : {0, 3, 5}) for(int np : {1, 2, 3, 4}) for(int v=0; v<(th ? 3 : 1); v++){
        auto ls = layouts(kind, {W(4,3,4), W(3,4,4)}, {np}, 1); TC t = tc_of(ls[(v * 5 + np) % ls.size()]), u = tc_of(ls[(v * 7 + 3 * np + 1) % ls.size()]); opts(t); opts(u); t.policy = u.policy;
        if (!feasible(t) || !feasible(u)) abort();
        int depth = th ? 6 : 5; long total = 1; std::string al = "IJFBGZ"; for(int i=0; i<depth; i++) total *= 6;
        for(int len=2; len<=depth; len++){ long n = 1; for(int i=0; i<len; i++) n *= 6;
            for(long y=0; y<n; y++){ std::string w; long z = y; for(int i=0; i<len; i++){ w += al[z % 6]; z /= 6; }
                size_t i = w.find_first_of("IJ"), zf = w.find('Z'); if (i == std::string::npos || w.back() != 'Z' || zf < i) continue; // a log needs to be initialised first
                test(kind, v & 1, t, u, w, np <= 3 && y % 7 == np ? 1 : 0); }
        }
    }
}
int main(int argc, char **argv){ int r = mc::main_impl(argc, argv, TRACED ? "P20_trace" : "P20_plain", enumerate); return r; }
