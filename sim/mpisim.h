// Controlled MPI simulator: every rank is a fiber, all MPI nondeterminism goes through Chooser.
#ifndef VERIF_MPISIM_H
#define VERIF_MPISIM_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <unordered_set>

namespace sim {

enum ChoiceKind { CK_SCHED = 0, CK_WAITANY = 1, CK_SENDMODE = 2, CK_MATCH = 3, CK_KINDS = 4 };

struct Chooser {
    virtual ~Chooser() {}
    // n >= 2 alternatives, 0 is the default; state is a hash of the global history state
    virtual int choose(int n, int kind, uint64_t state) = 0;
};

struct Options {
    int np = 1;
    // 0: sends complete eagerly; 1: sends complete only when matched (synchronous); 2: choose per message
    int send_mode = 0;
    // 0: run a rank until it blocks, next rank is ascending; 1: same, descending ; 2: round-robin at every MPI call;
    int sched_policy = 0;
    bool sched_choice = false;    // ask the chooser which runnable rank goes next, at every MPI call
    bool waitany_choice = false;  // ask the chooser which completed request Waitany returns
    int waitany_policy = 0;       // when not asking: 0 lowest index, 1 highest index
    long step_limit = 2000000;
    bool check_leaks = true;      // communicators, groups and requests all released when the bodies return
};

struct Stats {
    uint64_t transitions = 0;     // MPI operations executed
    uint64_t switches = 0;
    uint64_t messages = 0;
    uint64_t bytes = 0;
    uint64_t collectives = 0;
    uint64_t choices = 0;
    uint64_t choice_points_multi = 0;
};

struct Result {
    bool ok = true;
    std::string error;           // first violation of MPI discipline, deadlock, exception, or harness failure
    uint64_t final_state = 0;    // hash of the histories of all ranks
};

// body is called once per rank in its own fiber
Result run(Options const &opt, std::function<void(int)> const &body, Chooser *chooser = nullptr);

// to be used from inside a body
int rank();
int size();
bool active();
[[noreturn]] void fail(std::string const &msg);   // ends the execution with an error
void point();                                     // extra scheduling point
void barrier();                                   // harness-level barrier (not counted as an MPI call of the code under test)

Stats &stats();                                   // accumulated over all runs of the process
std::unordered_set<uint64_t> &seen_states();      // distinct global history states (filled when record_states)
extern bool record_states;
extern uint64_t state_salt;                       // mixed into state hashes: identifies the configuration

// counters of the current/last run, per rank
struct RankCounters { uint64_t sends = 0, bytes_sent = 0, recvs = 0, colls = 0, peers_mask = 0, self_sends = 0; };
std::vector<RankCounters> &counters();

// what every rank asked for, in terms of the communicator of the call (recorded when log_ops is set; cleared by run())
struct MpiOp { char const *op; int peer; long n; };
extern bool log_ops;
std::vector<std::vector<MpiOp>> &mpi_log();

// the ranks keep their copies of the static variables of the library from one run() to the next (else each run starts fresh)
extern bool keep_rank_state;

// hooks for process-global state of the code under test that has to be private to each rank
extern void (*on_switch_out)(int rank);
extern void (*on_switch_in)(int rank);

// allow the harness to know how many communicators are live
int live_comms();
int live_groups();
int live_requests();
long active_send_overlap_checks();
}
#endif
