// Deterministic simulator for slalib: shared declarations.
#ifndef SLASIM_H
#define SLASIM_H
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <csetjmp>
#include "ops_gen.h"

typedef std::vector<uint8_t> Blob;

// ---------------------------------------------------------------- randomness: one PRNG, seeded per run
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t) ((next() >> 32) * (uint64_t) n >> 32) : 0; }
    int range(int lo, int hi) { return lo + (int) below((uint32_t) (hi - lo + 1)); }
    double unit() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool chance(double p) { return unit() < p; }
    double gauss();
};

// ---------------------------------------------------------------- API description
enum ArgMode { AM_i, AM_o, AM_x };
struct ArgDesc { uint8_t type, mode, kind, byval; };
struct FnDesc {
    const char* name;
    void (*call)(void** p, void* ret);
    uint8_t ret;
    int nargs;
    ArgDesc args[12];
    uint8_t custom;
};
extern const FnDesc* FNS;
extern int NFN;
int fnByName(const char* name);
extern int FN_random, FN_gresid, FN_wait, FN_obs, FN_vers, FN_veri, FN_permut, FN_combn;
inline bool isRng(int fn) { return fn == FN_random || fn == FN_gresid; }
size_t typeSize(int type); // 0 for variable-size / pointer types
size_t elemSize(int type);

// ---------------------------------------------------------------- plans
struct Link { uint8_t dst; int srcOp; int8_t srcArg; };           // input dst := output srcArg (-1: return value) of srcOp
enum TFKind { TF_EINTR = 1, TF_LATE, TF_JUMP };
struct TFault { uint8_t kind; int64_t a; int64_t b; };             // a: position in the sleep (per mille), b: ns
struct Op {
    int id = 0, fn = 0, thread = 0;
    std::vector<Blob> a;
    uint64_t scrib = 0;      // seed of the garbage put in dead stack memory before the call (0: zeros)
    uint64_t ambient = 0;    // seed of the ambient perturbation (0: none)
    uint64_t failMask = 0;   // which resource requests of the call fail
    bool shareIn = false;    // input objects are shared with equal inputs of other calls
    bool reuse = false;      // arguments are placed at the addresses of an earlier call's
    bool stage = false;      // arguments are placed in the one working area every such call uses
    uint8_t rmode = 0;       // floating-point settings of the caller: rounding direction (0-3), 4 flush to zero, 8 denormals are zero, 16 traps enabled
    bool redo = false;       // re-executed from its saved inputs after being abandoned or crashed
    int group = -1;          // multi-call computation / walk / stream this call belongs to
    int tag = 0;             // property specific
    std::vector<Link> links;
    std::vector<TFault> tf;
};
enum EvKind { EV_SWITCH = 1, EV_PICK, EV_INTR, EV_ABANDON, EV_STALL, EV_RESTART, EV_LIFE };
// a step of the life of the process or thread (argument of EV_LIFE)
enum Life { LF_INIT1 = 1, LF_INITALL, LF_INITREV, LF_EXIT1, LF_EXITALL, LF_FORK, LF_THREADEND, LF_QUICK1, LF_QUICKALL };
const int MODE_LIFE = 11;                            // the run begins before the library's own initialisers
struct Event { int op; uint32_t y; uint8_t kind; int arg; int att; };
const uint32_t Y_END = 0xffffffffu, Y_BLOCK = 0x80000000u;
struct Policy {
    int kind = 0;            // 0 none, 1 random with mean gap, 2 only at accesses to library data, 3 lockstep
    double gap = 100;
    double pShared = 0;
};
struct Plan {
    std::string prop;
    uint64_t seed = 0;
    int mode = 0;            // property specific run type
    int nthreads = 1;
    std::vector<Op> ops;     // index == id
    std::vector<Event> ev;
    Policy pol;
    int weak = 0;            // 1: stores become visible late, 2: are seen late, unless ordered by synchronisation
    bool replay = false;     // schedule is taken from ev only
    bool monitor = false, ambientCheck = false, faultCheck = false, maskOut = false, rngAtomic = false, boundSteps = false;
};

enum OutKind { OK_NONE, OK_DONE, OK_ASSERT, OK_EXC, OK_CRASH, OK_LIMIT, OK_ABANDONED };
struct Outcome {
    int kind = OK_NONE;
    std::vector<Blob> out;   // per argument (empty for inputs) and, last, the return value
    uint64_t steps = 0;
    bool operator==(const Outcome& o) const { return kind == o.kind && out == o.out; }
};
struct TextRef { const char* p; std::string copy; int op; };
struct RunResult {
    bool violation = false;
    std::string cls, detail;
    std::vector<Outcome> out;
    std::vector<int> order;               // op ids by completion
    std::vector<int64_t> t0, t1;          // simulated monotonic ns
    std::vector<Event> recorded;
    uint64_t hash = 0, schedHash = 0;
    uint64_t yields = 0, switches = 0, inOpSwitches = 0;
    int64_t simNs = 0;
    std::vector<int64_t> lateBudget;      // per op: injected lateness
};
struct Stats {
    uint64_t runs = 0, nontrivial = 0, ops = 0, yields = 0, switches = 0, preempt = 0, solo = 0;
    double simSeconds = 0;
    std::map<std::string, uint64_t> faults, probes;
};
extern Stats ST;

// ---------------------------------------------------------------- runtime (rt.cc)
void rtInit(const char* libName);
void pristine();                                     // library data and TLS as in a freshly started process
Outcome solo(const Op& op, bool fresh);              // run alone on the oracle thread; fresh: from pristine state
RunResult simulate(const Plan& plan, const std::vector<Outcome>& expected, const std::vector<std::vector<Blob>>& masks,
                   std::function<std::string(const Op&, const Outcome&)> onDone);
extern bool soloWroteState;                          // last solo(): library data or TLS written outside static init
extern bool soloTouchedTls;
extern std::vector<uint32_t> soloYs;                 // last solo(): yield numbers of accesses to library data, TLS, locks
extern std::set<uintptr_t>* noteR; extern std::set<uintptr_t>* noteW;
uint32_t covEdges(); uint32_t covHit();              // instrumented edges, edges reached so far
bool covNew();                                       // new edges since last asked
std::string outText(int fn, const Outcome& o);
void setReservedStacks();

// ---------------------------------------------------------------- operations (ops.cc)
void opsInit(const char* dictFile);
void exoticOp(Op& o, Rng& r);
bool sizedFn(int fn);                        // takes matrices of any size
Op genOp(int fn, Rng& r);
Op mutateOp(const Op& o, Rng& r);
std::string opText(const Op& op);
std::string hex(const Blob& b);
Blob unhex(const std::string& s);
extern std::vector<std::string> stationIds;

// ---------------------------------------------------------------- properties (props.cc)
struct Ctx {
    std::vector<int> targets;                        // functions by weight
    std::vector<int> stateful;                       // functions seen to keep state
    std::vector<std::vector<int>> related;           // functions that touch the same library data
    std::vector<std::vector<Op>> corpus;             // interesting calls by function
    bool ts1 = true;                                 // library built for multi-threaded use
};
extern Ctx CTX;
Plan makePlan(const std::string& prop, uint64_t seed, uint64_t index);
RunResult runPlan(const Plan& p);                    // computes expectations, simulates, checks histories
bool nontrivial(const Plan& p, const RunResult& r);
std::string planText(const Plan& p, const RunResult& r);
bool planParse(const std::string& text, Plan& p, std::string& cls);
Plan minimise(Plan p, const std::string& cls, int budget, int& execs);

inline uint64_t fnv(uint64_t h, const void* d, size_t n) {
    const uint8_t* p = (const uint8_t*) d;
    for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t fnv64(uint64_t h, uint64_t v) { return fnv(h, &v, 8); }
#endif
