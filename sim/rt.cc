// Simulator runtime: fibres, seeded scheduler, memory-access hooks, TLS, locks, clock, allocator and OS seams.
// The library under test is compiled with ThreadSanitizer's *instrumentation* (no TSan runtime) and emulated TLS, so
// every load/store/branch of library code and every thread-local access calls one of the functions below.
#ifndef __NO_INLINE__
#define __NO_INLINE__ 1
#endif
#include "sim.h"
#include "slalib.h"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <ctime>
#include <random>
#include <dlfcn.h>
#include <malloc.h>
#include <fcntl.h>
#include <link.h>
#include <locale.h>
#include <locale>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/random.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <threads.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <sys/sysinfo.h>
#include <sys/times.h>
#include <sys/utsname.h>
#include <sys/ioctl.h>
#include <syslog.h>
#include <sys/time.h>
#include <unistd.h>
#include <xmmintrin.h>
#include <set>
#include <memory>
#include <algorithm>

Stats ST;

// ------------------------------------------------------------------------------------------------ arena
static const size_t SLOT = 96 * 1024, NSLOT = 352, NEARSLOT = 48, SHLEN = 1024 * 1024;
static uint8_t* ARENA;
static uint16_t* TAG;                       // per arena byte: 0 red zone, else argument/object number + 1
static const size_t ARENALEN = SLOT * NSLOT + SHLEN;
static const size_t STK = 4096 * 1024;
static const int MAXT = 300;

enum { J_NONE = 0, J_ASSERT = 2, J_CRASH, J_LIMIT, J_ABANDON, J_STOP };

struct Worker { void* (*fn)(void*); void* arg; pthread_t h; uint32_t due; };
struct Frame {
    const Op* op = nullptr;
    uint32_t y = 0;
    uint32_t stopY = 0;
    size_t nextEv = 0;
    std::vector<Event> ev;                  // planned events of this attempt
    uint32_t limit = 0;
    uint32_t polY = 0;
    sigjmp_buf jb;
    Frame* parent = nullptr;
    int slot = -1;
    std::vector<int> shared;                // shared object ids of this call
    int nreq = 0, nsleep = 0, nclock = 0;
    bool trapped = false;
    std::vector<struct Worker> pend;         // threads the library started and that have not run yet
    uint32_t pendY = 0xf0000000u;            // step at which the first of them is due
    int nwork = 0, inWork = 0;
    uint32_t effects = 0;
    int ext = 0;
    Rng amb{1};
    bool armed = false;
    int64_t late = 0, started = 0, asleep = 0;
    int nsleeps = 0;
    locale_t loc = LC_GLOBAL_LOCALE;
    std::vector<std::pair<size_t, size_t>> placed;  // argument objects in the arena (offset, length)
    uint32_t fp0 = 0, fp1 = 0;
    bool staged = false;
    uint64_t sigmask = 0x8000;               // what the caller has blocked (SIGTERM)
};
// a store to library data or to memory allocated by the library (weak-memory runs)
struct WStore { uintptr_t a; uint8_t n, age; bool hide; uint8_t old[16], cur[16]; };
enum FSt { F_NEW, F_READY, F_SLEEP, F_BLOCK, F_DEP, F_STALL, F_DONE };
struct TlsSlot { void* ctl; void* mem; };
struct Fibre {
    int id = 0;
    void* sp = nullptr;
    char* stk = nullptr;
    FSt st = F_NEW;
    std::vector<int> ops;
    size_t pos = 0;
    Frame* top = nullptr;
    int64_t wake = 0;
    int wakeClock = CLOCK_MONOTONIC;
    bool interrupted = false;
    void* waitObj = nullptr;
    int guardDepth = 0;
    std::vector<TlsSlot> tls;
    bool wasStalled = false;
    int err = 0;                            // this thread's errno and sticky floating-point flags between calls
    uint32_t flags = 0;
    int ident = -1;                         // what pthread_self() yields; identities of ended threads are used again
    std::vector<std::pair<void (*)(void*), void*>> dtors;
    std::vector<WStore> pend;               // weak memory: stores of this thread that others need not see yet
    bool hidden = false;                    // ... are at present undone in memory
    std::vector<WStore> stale;              // weak memory: stores of others that this thread does not see yet
    size_t seen = 0;                        // length of the store log when the thread was last switched out
};
struct ShObj { size_t off, len; Blob content; };
struct Timed { int64_t at; int64_t delta; };

static struct {
    bool inlib;
    bool mon, targeted, weak, watch;
    uintptr_t rwLo, rwLen, imgLo, imgLen;
    Frame* frame;
    Fibre* cur;
    bool soloMode;
    uint8_t* snap;
    void* schedSp;
} G;
static Fibre FB[MAXT + 1];                  // last one: oracle fibre (solo)
static int FBUSED;                          // fibres 0..FBUSED-1 may hold state
static const Plan* PL;
static RunResult* RR;
static Rng SR(1);
static int nextHint = -1;
static const std::vector<Outcome>* EXP;
static const std::vector<std::vector<Blob>>* MASKS;
static std::function<std::string(const Op&, const Outcome&)> ONDONE;
static std::vector<std::vector<Event>> evByOp;
static std::vector<int> attempts;           // how often each call was begun anew (redone, process restarted)
static std::vector<ShObj> SH;
static size_t shUsed;
static bool slotBusy[NSLOT];
static std::vector<std::pair<void (*)(void*), void*>> ATEXIT, ATQUICK;
static std::map<void*, int> LOCKS;          // mutex / once / guard address -> owner fibre
static std::map<void*, int> RDCNT, RECUR;
static int64_t MONO, REALOFF, JUMPED;
static std::vector<Timed> TIMED;
static std::vector<TextRef> TEXTS;
static uint32_t SIMRAND;
static bool stopRun;
static int restartReq;
static std::set<uint64_t> dummySet;
bool soloWroteState, soloTouchedTls;

static void viol(const std::string& cls, const std::string& detail) {
    if (RR && !RR->violation) { RR->violation = true; RR->cls = cls; RR->detail = detail; }
    stopRun = true;
}

// ------------------------------------------------------------------------------------------------ context switch
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");
extern "C" void sim_switch(void** save, void* to);

static void fibreMain();
static void initFibre(Fibre& f) {
    uintptr_t top = (uintptr_t) f.stk + STK - 64;
    top &= ~(uintptr_t) 15;
    uint64_t* sp = (uint64_t*) top;
    *--sp = 0;                               // alignment / fake return address
    *--sp = (uint64_t) (void*) fibreMain;
    for (int i = 0; i < 6; i++) *--sp = 0;
    --sp;
    uint32_t mx = _mm_getcsr() & ~0x3fu;
    ((uint32_t*) sp)[0] = mx;
    uint16_t cw = 0x37f;
    ((uint32_t*) sp)[1] = cw;
    f.sp = sp;
    f.st = F_READY;
    f.top = nullptr;
}
struct EhGlobals { void* caught; unsigned uncaught; };
extern "C" EhGlobals* __cxa_get_globals();
// ------------------------------------------------------------------------------------------------ weak memory
// Plain and relaxed stores become visible to other threads late and in any order (weak == 1), or are seen late and in any order by
// threads that have done nothing to acquire them (weak == 2), as the language permits for accesses that are not ordered by synchronisation.
// A thread's undelivered stores are undone in memory while others run; unseen stores of others are undone while the thread itself runs.
struct OutOfLib { bool was; OutOfLib() : was(G.inlib) { G.inlib = false; } ~OutOfLib() { G.inlib = was; } };
static std::vector<WStore> WLOG;            // weak == 2: all such stores of the run
static std::map<uintptr_t, size_t> LIBHEAP; // blocks the library has allocated in this run
static void weakSync();
static bool weakRange(uintptr_t a, unsigned n) {
    if (a - G.rwLo < G.rwLen) return true;
    if (LIBHEAP.empty()) return false;
    auto it = LIBHEAP.upper_bound(a);
    if (it == LIBHEAP.begin()) return false;
    --it;
    return a + n <= it->first + it->second;
}
static void showStale() {
    if (!G.cur) return;
    Fibre& f = *G.cur;
    for (auto& e : f.stale) if (e.n) memcpy((void*) e.a, e.cur, e.n);
    f.stale.clear();
}
static void weakStore(uintptr_t a, unsigned n) {
    OutOfLib x;
    for (unsigned o = 0; o < n; o += 16) {
        WStore e;
        e.a = a + o; e.n = (uint8_t) std::min(n - o, 16u); e.age = 0; e.hide = false;
        memcpy(e.old, (void*) e.a, e.n);
        Fibre& f = *G.cur;
        for (auto& q : f.stale) if (q.a < e.a + e.n && e.a < q.a + q.n) { showStale(); memcpy(e.old, (void*) e.a, e.n); break; }
        auto& l = PL->weak == 1 ? f.pend : WLOG;
        if (l.size() > 20000) { if (PL->weak == 2) for (int i = 0; i < PL->nthreads; i++) FB[i].seen = ~(size_t) 0; l.clear(); }
        l.push_back(e);
    }
}
// which stores stay unseen: all, any subset of the words, all but the last word, those before some point
static void weakChoose(std::vector<WStore>& l, uint64_t h) {
    const uint64_t mode = h % 4;
    std::map<uintptr_t, unsigned> word;     // word -> order of first appearance (addresses differ from process to process)
    for (auto& e : l) word.insert({e.a >> 3, (unsigned) word.size()});
    const unsigned cut = word.empty() ? 0 : (unsigned) ((h >> 8) % (word.size() + 1));
    const uintptr_t last = l.empty() ? 0 : l.back().a >> 3;
    for (auto& e : l) {
        const unsigned k = word[e.a >> 3];
        e.hide = e.age < 3 && (mode == 0 || (mode == 1 && fnv64(h, k) >> 20 & 1) || (mode == 2 && (e.a >> 3) != last) || (mode == 3 && k < cut));
    }
}
static uint64_t weakHash() {
    uint64_t h = fnv64(fnv64(1469598103934665603ull, PL->seed), (uint64_t) G.cur->id);
    if (Frame* f = G.cur->top) h = fnv64(fnv64(h, (uint64_t) f->op->fn), f->y);
    return h ^ h >> 31;
}
static void weakLeave() {                   // the thread is about to be switched out
    if (!PL || !PL->weak) return;
    Fibre& f = *G.cur;
    showStale();
    f.seen = WLOG.size();
    if (f.pend.empty()) return;
    weakChoose(f.pend, weakHash());
    size_t n = 0;
    for (size_t i = f.pend.size(); i-- > 0;) {
        WStore& e = f.pend[i];
        if (!e.hide) continue;
        memcpy(e.cur, (void*) e.a, e.n);
        memcpy((void*) e.a, e.old, e.n);
        e.age++;
        n++;
    }
    if (n) ST.faults["store_delayed"]++;
    f.hidden = true;
}
static void weakEnter() {                   // the thread goes on
    if (!PL || !PL->weak) return;
    Fibre& f = *G.cur;
    if (f.hidden) {
        f.hidden = false;
        size_t k = 0;
        for (auto& e : f.pend) if (e.hide) {        // (what has been shown stays shown)
            if (e.n) { uint8_t now[16]; memcpy(now, (void*) e.a, e.n); memcpy((void*) e.a, e.cur, e.n); memcpy(e.old, now, e.n); }
            f.pend[k++] = e;
        }
        f.pend.resize(k);
    }
    if (PL->weak == 2 && f.top && f.seen < WLOG.size()) {
        std::vector<WStore> l(WLOG.begin() + (long) f.seen, WLOG.end());
        weakChoose(l, weakHash());
        for (size_t i = l.size(); i-- > 0;) {
            WStore& e = l[i];
            if (!e.hide || !e.n) continue;
            memcpy(e.cur, (void*) e.a, e.n);
            memcpy((void*) e.a, e.old, e.n);
        }
        for (auto& e : l) if (e.hide && e.n) f.stale.push_back(e);
        if (!f.stale.empty()) ST.faults["store_seen_late"]++;
    }
}
static void weakSync() {                    // release and acquire: everything the thread has done is visible, everything done is seen
    if (!G.weak || !G.cur) return;
    showStale();
    G.cur->pend.clear();
}
static void weakReset() {
    for (int i = 0; i <= MAXT; i++) { FB[i].pend.clear(); FB[i].stale.clear(); FB[i].hidden = false; FB[i].seen = ~(size_t) 0; }
    WLOG.clear(); LIBHEAP.clear();
}
static void weakFreed(void* p) {
    static bool busy;
    if (!G.weak || busy) return;
    OutOfLib x;
    auto it = LIBHEAP.find((uintptr_t) p);
    if (it == LIBHEAP.end()) return;
    struct Busy { Busy() { busy = true; } ~Busy() { busy = false; } } b;
    const uintptr_t lo = it->first, hi = lo + it->second;
    LIBHEAP.erase(it);
    showStale();
    auto drop = [&](std::vector<WStore>& l) { for (auto& e : l) if (e.a >= lo && e.a < hi) e.n = 0; };
    drop(WLOG);
    for (int i = 0; i < PL->nthreads; i++) drop(FB[i].pend);
}
static void toSched() {
    weakLeave();
    Fibre* me = G.cur;
    EhGlobals* eg = __cxa_get_globals(), es = *eg;   // exception state is per simulated thread
    eg->caught = nullptr; eg->uncaught = 0;
    int err = errno;
    sim_switch(&me->sp, G.schedSp);
    G.cur = me;
    G.frame = me->top;
    weakEnter();
    *eg = es;
    errno = err;
}

// ------------------------------------------------------------------------------------------------ library image
static int phdrCb(struct dl_phdr_info* i, size_t, void*) {
    if (!i->dlpi_name || !strstr(i->dlpi_name, "libslasim_")) return 0;
    uintptr_t roLo = 0, roHi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
            roLo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            roHi = (roLo + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul;
        }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr)& p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD) { if (!G.imgLo) G.imgLo = i->dlpi_addr + p.p_vaddr; G.imgLen = i->dlpi_addr + p.p_vaddr + p.p_memsz - G.imgLo; }
        if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
        uintptr_t lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
        if (roHi > lo && roLo <= lo) lo = roHi < hi ? roHi : hi;
        if (hi > lo) {
            if (G.rwLen) { fprintf(stderr, "slasim: two writable segments\n"); exit(2); }
            G.rwLo = lo; G.rwLen = hi - lo;
        }
    }
    return 1;
}
// the library before its own initialisers ran, and these
static uint8_t* snap0;
static std::vector<void (*)(int, char**, char**)>* INITS;
static std::vector<void (*)(int, char**, char**)> pendInit, pendFini;
static std::vector<void (*)()> FORKPRE, FORKCHILD;
static int PIDSHIFT;
static int dynCb(struct dl_phdr_info* i, size_t, void* out) {
    if (!i->dlpi_name || !strstr(i->dlpi_name, "libslasim_")) return 0;
    uintptr_t arr[2] = {0, 0}, len[2] = {0, 0};
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_DYNAMIC)
        for (const ElfW(Dyn)* d = (const ElfW(Dyn)*) (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); d->d_tag != DT_NULL; d++) {
            if (d->d_tag == DT_INIT_ARRAY) arr[0] = i->dlpi_addr + d->d_un.d_ptr;
            if (d->d_tag == DT_INIT_ARRAYSZ) len[0] = d->d_un.d_val / 8;
            if (d->d_tag == DT_FINI_ARRAY) arr[1] = i->dlpi_addr + d->d_un.d_ptr;
            if (d->d_tag == DT_FINI_ARRAYSZ) len[1] = d->d_un.d_val / 8;
        }
    auto* v = (std::vector<void (*)(int, char**, char**)>*) out;
    for (int w = 0; w < 2; w++) for (uintptr_t k = 0; k < len[w]; k++) {
        auto f = ((void (**)(int, char**, char**)) arr[w])[k];
        if (f && (intptr_t) f != -1) v[w].push_back(f);
    }
    return 1;
}
extern "C" void slasim_early() {
    if (snap0) return;
    dl_iterate_phdr(phdrCb, nullptr);
    if (!G.rwLen) return;
    snap0 = (uint8_t*) mmap(nullptr, G.rwLen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memcpy(snap0, (void*) G.rwLo, G.rwLen);
}
// thread-specific data (pthread keys): the values are kept with the thread's other thread-local objects
struct Key { bool used, early; void (*dtor)(void*); };
static const unsigned KEY0 = 512, NKEYS = 1024;  // below KEY0: keys of the C library, made when the program was loaded
static Key KEYS[NKEYS];
static unsigned keysTop = KEY0;
static int tfdNext;                         // timer descriptors made so far
// values of an ended thread that have destructors: one round, as in glibc
static bool keyRound(std::vector<TlsSlot>& tls, std::vector<std::pair<void (*)(void*), void*>>& l) {
    l.clear();
    for (auto& t : tls) if (t.ctl >= (void*) KEYS && t.ctl < (void*) (KEYS + NKEYS)) {
        Key* k = (Key*) t.ctl; void*& v = *(void**) t.mem;
        if (k->used && k->dtor && v) { l.push_back({k->dtor, v}); v = nullptr; }
    }
    return !l.empty();
}
static void clearTls(Fibre& f) {
    for (auto& t : f.tls) free(t.mem);
    f.tls.clear();
    f.dtors.clear();
    f.ident = -1;
}
static void quarFlush(); static bool quarTouched();
void pristine() {
    quarFlush();
    memcpy((void*) G.rwLo, G.snap, G.rwLen);
    for (int i = 0, n = FBUSED; i <= n; i++) { Fibre& f = FB[i == n ? MAXT : i]; clearTls(f); f.guardDepth = 0; f.err = 0; f.flags = 0; }
    LOCKS.clear(); ATEXIT.clear(); ATQUICK.clear(); RDCNT.clear(); RECUR.clear();
    FORKPRE.clear(); FORKCHILD.clear(); PIDSHIFT = 0;
    for (; keysTop > KEY0; keysTop--) KEYS[keysTop - 1] = Key{};
    SIMRAND = 1; tfdNext = 0;
}

// ------------------------------------------------------------------------------------------------ coverage
static uint32_t nEdges; static std::vector<uint8_t>* edgeHit; static uint32_t nHit; static bool newCov;
uint32_t covEdges() { return nEdges; }
uint32_t covHit() { return nHit; }
bool covNew() { bool b = newCov; newCov = false; return b; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* s, uint32_t* e) {
    if (s == e || *s) return;
    for (uint32_t* p = s; p < e; p++) *p = ++nEdges;
}

// ------------------------------------------------------------------------------------------------ yield points
static void weakAcquire() { if (G.weak) showStale(); }
static void weakRelease() { if (G.weak) G.cur->pend.clear(); }
static void slowYield(bool sharedAccess);
static inline void bump() {
    Frame* f = G.frame;
    if (++f->y >= f->stopY) slowYield(false);
}
std::vector<uint32_t> soloYs;
std::set<uintptr_t>* noteR; std::set<uintptr_t>* noteW;   // discovery: library data read and written
static void noteState(uintptr_t a, bool w);
static void noteY(uint32_t y) { if (soloYs.size() < soloYs.capacity() && G.cur->guardDepth == 0) soloYs.push_back(y); }
static void monitorAccess(uintptr_t a, unsigned n, bool w);
static inline void access(void* p, unsigned n, bool w) {
    if (!G.inlib) return;
    uintptr_t a = (uintptr_t) p;
    if (a - G.rwLo < G.rwLen) {
        if (w && G.cur->guardDepth == 0) soloWroteState = true;
        if (noteR) noteState(a, w);
        Frame* f = G.frame;
        ++f->y;
        if (G.soloMode) noteY(f->y);
        if (f->y >= f->stopY || G.targeted) slowYield(true);
        if (w && G.weak) weakStore(a, n);
        return;
    }
    if (G.watch) {
        if (G.mon) monitorAccess(a, n, w);
        bump();
        if (w && G.weak && weakRange(a, n)) weakStore(a, n);
        return;
    }
    bump();
}
extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!G.inlib) return;
    uint32_t e = *g;
    if (e && !(*edgeHit)[e]) { (*edgeHit)[e] = 1; nHit++; newCov = true; }
    bump();
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, N, false); } \
    void __tsan_write##N(void* p) { access(p, N, true); } \
    void __tsan_read_write##N(void* p) { access(p, N, true); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
    void __tsan_unaligned_read_write##N(void* p) { access(p, N, true); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, true); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, (unsigned) n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, (unsigned) n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
// block operations are performed in chunks so that they can be torn by preemption
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    for (size_t o = 0; o < n; o += 8) {
        size_t k = n - o < 8 ? n - o : 8;
        access((char*) s + o, (unsigned) k, false); access((char*) d + o, (unsigned) k, true);
        memcpy((char*) d + o, (char*) s + o, k);
    }
    return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    for (size_t o = 0; o < n; o += 8) { size_t k = n - o < 8 ? n - o : 8; access((char*) s + o, (unsigned) k, false); access((char*) d + o, (unsigned) k, true); }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    for (size_t o = 0; o < n; o += 8) { size_t k = n - o < 8 ? n - o : 8; access((char*) d + o, (unsigned) k, true); memset((char*) d + o, c, k); }
    return d;
}
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) { access((void*) p, N / 8, false); if (mo && G.inlib) weakAcquire(); return *p; } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { access((void*) p, N / 8, true); if (mo >= 3 && G.inlib) weakRelease(); *p = v; } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { access((void*) p, N / 8, true); if (G.inlib) weakSync(); T o = *p; *p = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { access((void*) p, N / 8, true); if (G.inlib) weakSync(); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { access((void*) p, N / 8, true); if (G.inlib) weakSync(); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { access((void*) p, N / 8, true); if (G.inlib) weakSync(); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { access((void*) p, N / 8, true); if (G.inlib) weakSync(); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { access((void*) p, N / 8, true); if (G.inlib) weakSync(); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int) { access((void*) p, N / 8, true); if (G.inlib) weakSync(); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((void*) p, N / 8, true); if (G.inlib) weakSync(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access((void*) p, N / 8, true); if (G.inlib) weakSync(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access((void*) p, N / 8, true); if (G.inlib) weakSync(); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (mo && G.inlib) weakSync(); }
void __tsan_atomic_signal_fence(int) {}
}

static bool runnable(const Fibre& f) { return f.st == F_READY; }
static void record(int op, uint32_t y, uint8_t k, int arg) {
    RR->recorded.push_back(Event{op, y, k, arg, k == EV_PICK ? 0 : attempts[op]});
    RR->schedHash = fnv64(fnv64(RR->schedHash, ((uint64_t) PL->ops[op].fn << 32) | y), ((uint64_t) k << 32) ^ (uint32_t) arg ^ ((uint64_t) op << 40));
}
static int pickOther(int me) {
    int c[MAXT], n = 0;
    for (int i = 0; i < PL->nthreads; i++) if (i != me && runnable(FB[i])) c[n++] = i;
    return n ? c[SR.below(n)] : -1;
}
static void setPol(Frame* f) {
    const Policy& p = PL->pol;
    f->polY = 0xf0000000u;
    if (PL->replay) return;
    if (p.kind == 1) {
        double u = SR.unit();
        double g = -std::log(1.0 - u) * p.gap + 1;
        f->polY = f->y + (uint32_t) (g > 1e8 ? 1e8 : g);
    } else if (p.kind == 3) {
        f->polY = f->y + 1 + SR.below((uint32_t) p.gap);
    }
}
static void setStop(Frame* f) {
    uint32_t s = f->limit;
    if (f->polY < s) s = f->polY;
    if (f->nextEv < f->ev.size()) { uint32_t e = f->ev[f->nextEv].y; if (e < s) s = e; }
    if (f->pendY < s) s = f->pendY;
    f->stopY = s;
}
static void switchNow(int u) {
    // leaves the current fibre READY and lets the scheduler continue with thread u
    if (G.frame && G.frame->op && G.frame->y) RR->inOpSwitches++;
    RR->switches++;
    MONO += 100;
    nextHint = u;
    toSched();
}
static Outcome runOp(const Op& op, uint32_t limit, Frame* parent);
static void completeOp(const Op& op, Outcome& o);
// one-time initialisation in progress: a guard or once flag is held, or std::call_once has set up its hand-over variable
extern "C" char onceCtl asm("__emutls_v._ZSt15__once_callable");
static bool guarded() {
    if (G.cur->guardDepth > 0) return true;
    for (auto& t : G.cur->tls) if (t.ctl == (void*) &onceCtl && *(void**) t.mem) return true;
    return false;
}
static bool rngFrame(Frame* f) { for (; f; f = f->parent) if (f->op && isRng(f->op->fn)) return true; return false; }

static void lifeStep(int what);
// handles the planned events due at the current yield of frame f; may not return (abandon, restart)
static void dueEvents(Frame* f) {
    while (f->nextEv < f->ev.size() && f->ev[f->nextEv].y <= f->y) {
        const Event e = f->ev[f->nextEv];
        if (e.kind != EV_SWITCH && e.kind != EV_RESTART && e.kind != EV_PICK && guarded()) {
            // deferred past one-time static initialisation (excepted by the properties)
            if (f->y + 1 < f->limit) { f->stopY = f->y + 1; }
            return;
        }
        f->nextEv++;
        switch (e.kind) {
        case EV_SWITCH: {
            if (PL->rngAtomic && rngFrame(f)) break;
            if (e.arg >= 0 && e.arg < PL->nthreads && e.arg != G.cur->id && runnable(FB[e.arg])) {
                if (PL->replay) RR->schedHash = fnv64(RR->schedHash, e.y);
                switchNow(e.arg);
            } else if (e.arg < 0) {                 // planned preemption point, target chosen now
                int u = pickOther(G.cur->id);
                if (u >= 0) { record(f->op->id, f->y, EV_SWITCH, u); switchNow(u); }
            }
            break;
        }
        case EV_INTR: {
            if (e.arg < 0 || e.arg >= (int) PL->ops.size()) break;
            int depth = 0;
            for (Frame* g = f; g; g = g->parent) depth++;
            if (depth > 80) break;
            ST.faults["interrupt"]++;
            record(f->op->id, f->y, EV_INTR, e.arg);
            const Op& n = PL->ops[e.arg];
            int serr = G.cur->err; uint32_t sfl = G.cur->flags;
            G.cur->flags = 0;                // a handler starts with default floating-point settings
            Outcome o = runOp(n, 0, f);
            G.cur->err = serr; G.cur->flags = sfl;
            G.frame = f; G.cur->top = f;
            completeOp(n, o);
            if (stopRun) { G.inlib = false; siglongjmp(f->jb, J_STOP); }
            break;
        }
        case EV_LIFE:                        // a fork from a signal handler
            if (e.arg != LF_FORK) break;
            record(f->op->id, f->y, EV_LIFE, e.arg);
            lifeStep(e.arg);
            if (stopRun) { G.inlib = false; siglongjmp(f->jb, J_STOP); }
            break;
        case EV_ABANDON:
            ST.faults["abandon"]++;
            record(f->op->id, f->y, EV_ABANDON, 0);
            siglongjmp(f->jb, J_ABANDON);
        case EV_STALL:
            ST.faults["stall"]++;
            record(f->op->id, f->y, EV_STALL, 0);
            G.cur->st = F_STALL;
            G.cur->wasStalled = true;
            toSched();
            break;
        case EV_RESTART:
            ST.faults["crash_restart"]++;
            record(f->op->id, f->y, EV_RESTART, 0);
            restartReq = 1;
            toSched();
            break;
        default: break;
        }
    }
}
static void runDueWorkers(Frame* f);
static void slowYield2(bool sharedAccess) {
    Frame* f = G.frame;
    if (f->y >= f->limit && G.weak && !G.cur->stale.empty()) { showStale(); f->limit += 100000; }
    if (f->y >= f->limit) {
        // a caller that keeps polling: let the others run before calling it a hang (unless that is the very question)
        int u = -1;
        if (!G.soloMode && PL && !PL->boundSteps && f->ext < 24)
            for (int k = 1; k < PL->nthreads && u < 0; k++) { int t = (G.cur->id + k) % PL->nthreads; if (runnable(FB[t])) u = t; }
        // a delay served in many small sleeps is no hang as long as its time is not up
        if (u < 0 && !G.soloMode && f->op->fn == FN_wait && f->nsleeps > 0 && MONO - f->started < (int64_t) 2200000000 * 1000000000ll) {
            float s; memcpy(&s, f->op->a[0].data(), 4);
            if (f->y < 300000 && s > 0 && (double) (MONO - f->started) * 1e-9 < (double) s + 1) { f->limit += 100000; setStop(f); return; }
            if (s > 0 && (double) (MONO - f->started) * 1e-9 < (double) s + 1) {
                G.inlib = false;
                ST.probes["inconclusive_wait"]++;
                stopRun = true; siglongjmp(f->jb, J_STOP);
            }
        }
        if (u < 0) { G.inlib = false; siglongjmp(f->jb, J_LIMIT); }
        f->ext++; f->limit += 100000;
        G.inlib = false;
        ST.probes["polling_call_yielded"]++;
        switchNow(u);
        if (stopRun) siglongjmp(f->jb, J_STOP);
        G.inlib = true;
    }
    if (G.soloMode) { setStop(f); return; }
    if (f->y >= f->pendY) runDueWorkers(f);
    G.inlib = false;
    dueEvents(f);
    if (!PL->replay && !(PL->rngAtomic && rngFrame(f))) {
        bool sw = false;
        if (f->y >= f->polY) sw = true;
        else if (sharedAccess && G.targeted && SR.chance(PL->pol.pShared)) sw = true;
        if (sw) {
            int u = pickOther(G.cur->id);
            if (u >= 0) { record(f->op->id, f->y, EV_SWITCH, u); ST.faults["preempt"]++; switchNow(u); }
            setPol(f);
        }
    }
    if (stopRun) { G.inlib = false; siglongjmp(f->jb, J_STOP); }
    uint32_t keep = f->stopY;
    setStop(f);
    if (guarded() && keep == f->y + 1 && keep < f->stopY) f->stopY = keep;
    G.inlib = true;
}
static void slowYield(bool sharedAccess) {
    // simulator code runs with its own errno and floating-point settings
    int err = errno;
    unsigned mx = _mm_getcsr();
    _mm_setcsr(0x1f80);
    slowYield2(sharedAccess);
    _mm_setcsr(mx);
    errno = err;
}
static void monViol(const char* what, const char* cls) {
    G.inlib = false;
    const char* fn = FNS[G.frame->op->fn].name;
    viol(std::string(cls) + ":" + fn, std::string(fn) + " " + what);
    siglongjmp(G.frame->jb, J_STOP);
}
static void monitorAccess(uintptr_t a, unsigned n, bool w) {
    uintptr_t off = a - (uintptr_t) ARENA;
    if (off >= ARENALEN) return;
    Frame* f = G.frame;
    if (off < SLOT * NSLOT) {
        if ((int) (off / SLOT) != f->slot)
            monViol(w ? "wrote to an object belonging to another or to an earlier call" : "read an object belonging to another or to an earlier call", w ? "memwrite" : "memread");
        for (unsigned i = 0; i < n; i++) {
            uint16_t t = TAG[off + i];
            if (!t) monViol(w ? "wrote outside its argument objects" : "read outside its argument objects", w ? "memwrite" : "memread");
            if (w && FNS[f->op->fn].args[t - 1].mode == AM_i) monViol("wrote to one of its input objects", "memwrite");
        }
    } else {
        if (w) monViol("wrote to an input object shared with other calls", "memwrite");
        for (unsigned i = 0; i < n; i++) {
            uint16_t t = TAG[off + i];
            bool ok = false;
            for (int s : f->shared) if (s + 1 == t) ok = true;
            if (!ok) monViol("read outside its argument objects", "memread");
        }
    }
}

// ------------------------------------------------------------------------------------------------ running one call
static void __attribute__((noinline)) scribble(uint64_t seed) {
    volatile uint64_t buf[3072];             // 24 KB of dead stack below the call
    if (!seed) { for (auto& b : buf) b = 0; return; }
    Rng r(seed);
    uint64_t m = r.next();
    static const double vals[] = {1.0, -1.0, 0.5, 1e300, -1e-300, 3.14159, 51544.5, 2000.0};
    for (unsigned i = 0; i < 3072; i++) {
        if ((m & 3) == 0) buf[i] = r.next();
        else if ((m & 3) == 1) { double d = vals[(i + m) & 7]; uint64_t u; memcpy(&u, &d, 8); buf[i] = u; }
        else if ((m & 3) == 2) buf[i] = 0x0101010101010101ull * ((m >> 8) & 0xff);
        else buf[i] = ((uint64_t) (i & 15) << 32) | (i & 7);
    }
}
static size_t slotNext;
static int takeSlot(bool reuse) {
    // reuse: the lowest free slot (same addresses as an earlier call); else a fresh one
    for (size_t k = 0; k < NEARSLOT - 1; k++) {
        size_t i = 1 + (reuse ? k : (slotNext + k) % (NEARSLOT - 1));
        if (!slotBusy[i]) { slotBusy[i] = true; if (!reuse) slotNext = i % (NEARSLOT - 1); return (int) i; }
    }
    for (size_t i = NEARSLOT; i < NSLOT; i++) if (!slotBusy[i]) { slotBusy[i] = true; return (int) i; }
    fprintf(stderr, "slasim: out of slots\n"); exit(2);
}
static void freeSlot(const Frame& f, uint64_t seed) {
    for (auto& o : f.placed) {
        if (!f.staged) memset(ARENA + o.first, (int) (0x81 + (seed & 0x3f)), o.second);
        memset(TAG + o.first, 0, o.second * sizeof(uint16_t));
    }
    slotBusy[f.slot] = false;
}
// one working area whose objects are at the same addresses in every call that uses it, type by type: a caller that copies
// its saved objects into the same variables before each call. -> offset, or 0
static const int STAGE = 0;
static size_t stageOff(int type, size_t len, int nth, size_t& big) {
    if (typeSize(type) && typeSize(type) <= 240 && nth < 4) return STAGE * SLOT + 64 + ((size_t) type * 4 + (size_t) nth) * 256;
    size_t o = STAGE * SLOT + 32768 + big;
    big += 3072;
    return len <= 3072 - 48 && big <= SLOT - 32768 ? o : 0;
}
static int shareObj(const Blob& b) {
    for (size_t i = 0; i < SH.size(); i++) if (SH[i].content == b) return (int) i;
    size_t off = (shUsed + 15) & ~(size_t) 15;
    if (off + b.size() + 64 > SHLEN) return -1;
    ShObj o{SLOT * NSLOT + off, b.size(), b};
    memcpy(ARENA + o.off, b.data(), b.size());
    SH.push_back(o);
    for (size_t k = 0; k < b.size(); k++) TAG[o.off + k] = (uint16_t) SH.size();
    shUsed = off + b.size() + 48;
    return (int) SH.size() - 1;
}
static std::string safeText(const char* p) {
    // texts handed out by the library; anything outside its image is read through a pipe, which survives bad pointers
    if (!p) return "(null)";
    std::string s;
    bool image = (uintptr_t) p - G.imgLo < G.imgLen - 128;
    for (int i = 0; i < 100; i++) {
        char c;
        if (image) c = p[i];
        else {
            static int fd[2] = {-1, -1};
            if (fd[0] < 0 && pipe(fd)) return "(?)";
            if (syscall(SYS_write, fd[1], p + i, 1) != 1) return s + "(bad pointer)";
            if (syscall(SYS_read, fd[0], &c, 1) != 1) return "(?)";
        }
        if (!c) break;
        s += c;
    }
    return s;
}
static Blob toBlob(const std::string& s) { return Blob(s.begin(), s.end()); }
static void inputsOf(const Op& op, std::vector<Blob>& a) {
    a = op.a;
    if (!RR) return;
    for (auto& l : op.links) {
        const Outcome& o = RR->out[l.srcOp];
        const Blob& src = l.srcArg < 0 ? o.out.back() : o.out[l.srcArg];
        Blob& d = a[l.dst];
        if (d.size() == src.size()) d = src;
        else if (!src.empty()) { for (size_t i = 0; i < d.size(); i++) d[i] = src[i % src.size()]; }
    }
}
enum { EFF_OUTPUT = 1, EFF_SIGNAL = 2, EFF_LOCALE = 4, EFF_ENV = 8, EFF_FPENV = 16, EFF_FILE = 32, EFF_MASK = 64 };
static uint32_t fpControl() { uint16_t cw; asm volatile("fnstcw %0" : "=m"(cw)); return (_mm_getcsr() & ~0x3fu) | ((uint32_t) cw << 16); }
static uint64_t sigMaskNow() { uint64_t m = 0; syscall(SYS_rt_sigprocmask, 0, nullptr, &m, 8); return m; }

struct CommaPunct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};
static std::locale* commaLoc = new std::locale(std::locale::classic(), new CommaPunct);
struct CallState { void* p[12]; uint64_t sc[12][4]; alignas(16) uint8_t ret[64]; };
static void leaveLib(Frame& fr) {
    G.cur->err = errno;
    fr.fp1 = fpControl();
    G.cur->flags = _mm_getcsr() & 0x3f;
    _mm_setcsr(0x1f80);
    uint16_t cw = 0x37f;
    asm volatile("fldcw %0" : : "m"(cw));
}
// the call itself, in its own function so that sigsetjmp's caller keeps nothing live in registers
static int __attribute__((noinline)) guardedCall(Frame& fr, const FnDesc& d, CallState& cs, uint64_t scribSeed) {
    int j = sigsetjmp(fr.jb, 0);
    if (j) { G.inlib = false; _mm_setcsr(0x1f80); uint16_t cw = 0x37f; asm volatile("fnclex\n\tfldcw %0" : : "m"(cw)); return j; }
    try {
        scribble(scribSeed);
        int err = G.cur->err;
        uint32_t mx = 0x1f80u | G.cur->flags;
        uint16_t cw = 0x37f;
        if (fr.armed) { err = (int) fr.amb.below(40); mx |= fr.amb.below(64); }
        if (uint32_t m = fr.op->rmode) {     // the caller's rounding direction, flush-to-zero, denormals-are-zero
            mx |= (m & 3) << 13; cw |= (uint16_t) ((m & 3) << 10);
            if (m & 4) mx |= 0x8000;
            if (m & 8) mx |= 0x40;
            if (m & 16) { mx &= ~0x680u; cw &= (uint16_t) ~0x0du; }   // traps for invalid operation, division by zero, overflow
        }
        fr.fp0 = fr.fp1 = (mx & ~0x3fu) | ((uint32_t) cw << 16);
        asm volatile("fnclex\n\tfldcw %0" : : "m"(cw));
        _mm_setcsr(mx);
        if (fr.armed && (fr.op->ambient >> 7) & 1) { std::locale::global(*commaLoc); }   // the caller's locale for C++ streams
        errno = err;
        G.inlib = true;
        d.call(cs.p, cs.ret);
        G.inlib = false;
        leaveLib(fr);
    } catch (...) {
        G.inlib = false;
        leaveLib(fr);
        return 100;
    }
    return 0;
}
static void runWorker(Frame* f, size_t k) noexcept;
static void __attribute__((noinline)) lateWorkers(Frame& fr) {
    if (sigsetjmp(fr.jb, 0) == 0) {
        fr.limit = std::max(fr.limit, fr.y + 400000);
        setStop(&fr);
        G.inlib = true;
        while (!fr.pend.empty()) runWorker(&fr, 0);
    }
    G.inlib = false;
    _mm_setcsr(0x1f80);
}
static Outcome runOp(const Op& op, uint32_t limit, Frame* parent) {
    const FnDesc& d = FNS[op.fn];
    Frame fr;
    fr.op = &op;
    fr.parent = parent;
    fr.armed = op.ambient != 0;
    fr.amb = Rng(op.ambient);
    Outcome o;
    std::vector<Blob> a;
    inputsOf(op, a);
    CallState cs;
    memset(&cs, 0, sizeof cs);
    if (op.stage && !G.mon && !slotBusy[STAGE]) {
        fr.staged = true;
        size_t big = 0;
        for (int i = 0; i < d.nargs; i++) if (!d.args[i].byval && !stageOff(d.args[i].type, a[i].size(), 0, big)) fr.staged = false;
    }
    if (fr.staged) { fr.slot = STAGE; slotBusy[STAGE] = true; } else fr.slot = takeSlot(op.reuse);
    size_t off = fr.slot * SLOT + 64, stageBig = 0;
    memset(ARENA + fr.slot * SLOT, 0xCB, 64);
    int nth[64] = {0};
    const bool backwards = !G.soloMode && PL && !fr.staged && ((PL->seed >> 9 ^ (uint64_t) op.id) & 1);   // objects lie in any order
    for (int ii = 0; ii < d.nargs; ii++) {
        const int i = backwards ? d.nargs - 1 - ii : ii;
        const ArgDesc& ad = d.args[i];
        if (ad.byval) { memcpy(cs.sc[i], a[i].data(), std::min(a[i].size(), sizeof cs.sc[i])); cs.p[i] = cs.sc[i]; continue; }
        if (a[i].empty() && ad.type == AT_st) { cs.p[i] = nullptr; continue; }
        if (op.shareIn && ad.mode == AM_i && !a[i].empty()) {
            int s = shareObj(a[i]);
            if (s >= 0) { fr.shared.push_back(s); cs.p[i] = ARENA + SH[s].off; continue; }
        }
        if (fr.staged) {
            size_t at = stageOff(ad.type, a[i].size(), nth[ad.type & 63]++, stageBig);
            memcpy(ARENA + at, a[i].data(), a[i].size());
            for (size_t k = 0; k < a[i].size(); k++) TAG[at + k] = (uint16_t) (i + 1);
            memset(ARENA + at + a[i].size(), 0xCB, 16);
            fr.placed.push_back({at, a[i].size()});
            cs.p[i] = ARENA + at;
            continue;
        }
        // objects lie at any address their type allows
        if (!G.soloMode) { size_t al = elemSize(ad.type) >= 8 || ad.type == AT_ob ? 8 : elemSize(ad.type) >= 4 ? 4 : 1; off += al * (((size_t) op.id * 7 + (size_t) i * 3 + op.reuse) % (16 / al)); }
        if (off + a[i].size() + 96 > fr.slot * SLOT + SLOT) { fprintf(stderr, "slasim: slot overflow in %s\n", d.name); exit(2); }
        memset(ARENA + off - 16, 0xCB, 16);
        memcpy(ARENA + off, a[i].data(), a[i].size());
        for (size_t k = 0; k < a[i].size(); k++) TAG[off + k] = (uint16_t) (i + 1);
        cs.p[i] = ARENA + off;
        fr.placed.push_back({off, a[i].size()});
        off += a[i].size();
        memset(ARENA + off, 0xCB, 48);
        off = (off + 48 + 15) & ~(size_t) 15;
    }
    Blob fill;
    if (G.mon) fill.assign(ARENA + fr.slot * SLOT, ARENA + off);
    if (limit == 0) {
        uint64_t l = 400000;
        if (EXP && op.id < (int) EXP->size()) l = (*EXP)[op.id].steps * 4 + 200000;
        limit = (uint32_t) std::min<uint64_t>(l, 60000000);
    }
    fr.limit = limit;
    if (!G.soloMode && op.id < (int) evByOp.size())
        for (auto& e : evByOp[op.id]) if (e.y && e.att == attempts[op.id]) fr.ev.push_back(e);
    if (!G.soloMode) setPol(&fr); else fr.polY = 0xf0000000u;
    setStop(&fr);
    Frame* saved = G.frame;
    G.frame = &fr;
    G.cur->top = &fr;
    uint64_t sm0 = 0;
    bool amb = !G.soloMode && PL && PL->ambientCheck;
    if (amb) sm0 = sigMaskNow();
    if (fr.armed) { int64_t jump = (int64_t) (fr.amb.unit() * 4e15); MONO += jump; JUMPED += jump; ST.faults["ambient_change"]++; REALOFF = (int64_t) (fr.amb.uni(0, 4e18)); }
    fr.started = MONO;
    if (RR && op.id < (int) RR->t0.size()) RR->t0[op.id] = MONO;
    int j = guardedCall(fr, d, cs, op.scrib);
    G.frame = &fr;
    weakSync();
    if (fr.armed || amb) {
        const bool comma = fr.armed && (op.ambient >> 7) & 1;
        if (PL && PL->nthreads == 1 && j == 0 && !(std::locale() == (comma ? *commaLoc : std::locale::classic()))) fr.effects |= EFF_LOCALE;
        if (!(std::locale() == std::locale::classic())) std::locale::global(std::locale::classic());
    }
    if (fr.trapped) { fr.fp0 |= 0x1f80u | 0x3fu << 16; fr.fp1 |= 0x1f80u | 0x3fu << 16; }
    if (fr.fp1 != fr.fp0) fr.effects |= EFF_FPENV;
    if (amb && sigMaskNow() != sm0) { fr.effects |= EFF_MASK; syscall(SYS_rt_sigprocmask, SIG_SETMASK, &sm0, nullptr, 8); }
    if (fr.loc != LC_GLOBAL_LOCALE) fr.effects |= EFF_LOCALE;
    if (fr.sigmask != 0x8000) fr.effects |= EFF_MASK;
    o.steps = fr.y;
    switch (j) {
    case 0: o.kind = OK_DONE; break;
    case 100: o.kind = OK_EXC; break;
    case J_ASSERT: o.kind = OK_ASSERT; break;
    case J_CRASH: o.kind = OK_CRASH; break;
    case J_LIMIT: o.kind = OK_LIMIT; break;
    case J_ABANDON: o.kind = OK_ABANDONED; break;
    default: o.kind = OK_NONE; break;
    }
    if (o.kind == OK_DONE) {
        o.out.resize(d.nargs + 1);
        {
            for (int i = 0; i < d.nargs; i++) {
                if (d.args[i].mode == AM_i) continue;
                if (d.args[i].type == AT_ob) {
                    const sla::Observatory* ob = (const sla::Observatory*) cs.p[i];
                    std::string s = safeText(ob->o_id) + "|" + safeText(ob->o_name) + "|";
                    Blob b = toBlob(s);
                    const double v[3] = {ob->o_long, ob->o_lat, ob->o_height};
                    b.insert(b.end(), (const uint8_t*) v, (const uint8_t*) v + sizeof v);
                    o.out[i] = b;
                    if (!G.soloMode) {
                        TEXTS.push_back(TextRef{ob->o_id, safeText(ob->o_id), op.id});
                        TEXTS.push_back(TextRef{ob->o_name, safeText(ob->o_name), op.id});
                    }
                } else if (cs.p[i]) o.out[i].assign((uint8_t*) cs.p[i], (uint8_t*) cs.p[i] + (d.args[i].type == AT_cr ? 17 : a[i].size())); // (no padding)
            }
            if (d.ret == AT_st) {
                const char* t = *(const char**) cs.ret;
                o.out[d.nargs] = toBlob(safeText(t));
                if (!G.soloMode) TEXTS.push_back(TextRef{t, safeText(t), op.id});
            } else if (d.ret != AT_void) o.out[d.nargs].assign(cs.ret, cs.ret + typeSize(d.ret));
        }
    }
    if (j == 0 && !fr.pend.empty() && !stopRun) { // threads left behind by the call
        lateWorkers(fr);
        G.frame = &fr;
        for (int i = 0; i < d.nargs && !stopRun; i++)
            if (d.args[i].mode != AM_i && d.args[i].type != AT_ob && cs.p[i] && !d.args[i].byval && memcmp(o.out[i].data(), cs.p[i], o.out[i].size()))
                viol(std::string("latewrite:") + d.name, std::string(d.name) + " changed an output object after it had returned");
    }
    if (G.mon && !stopRun && j != J_STOP) {
        // block operations of the C library are not instrumented: compare afterwards
        const uint8_t* s0 = ARENA + fr.slot * SLOT;
        for (size_t k = 0; k < fill.size() && !stopRun; k++) {
            size_t o2 = fr.slot * SLOT + k;
            if (TAG[o2] == 0) { if (s0[k] != fill[k]) viol(std::string("memwrite:") + d.name, std::string(d.name) + " changed memory outside its argument objects"); }
            else if (d.args[TAG[o2] - 1].mode == AM_i && s0[k] != fill[k]) viol(std::string("memwrite:") + d.name, std::string(d.name) + " changed one of its input objects");
        }
        for (int s : fr.shared) if (memcmp(ARENA + SH[s].off, SH[s].content.data(), SH[s].len)) viol(std::string("memwrite:") + d.name, std::string(d.name) + " changed an input object shared with other calls");
    }
    if (!G.soloMode && !stopRun && quarTouched()) viol(std::string("memwrite:") + d.name, std::string(d.name) + " wrote to memory the library had given back");
    if (RR && op.id < (int) RR->t1.size()) { RR->t1[op.id] = MONO; RR->lateBudget[op.id] += fr.late; }
    if (PL && PL->boundSteps && !G.soloMode && !stopRun && op.fn != FN_wait && fr.asleep > 100000000)
        viol(std::string("held:") + d.name, std::string(d.name) + " slept " + std::to_string(fr.asleep / 1000000) + " ms while other threads were suspended; alone it does not sleep");
    freeSlot(fr, op.scrib + op.id);
    G.frame = saved;
    G.cur->top = parent ? parent : nullptr;
    ST.yields += fr.y;
    if (!G.soloMode && amb && fr.effects && !stopRun) {
        std::string w;
        if (fr.effects & EFF_OUTPUT) w += " wrote to an output stream;";
        if (fr.effects & EFF_FILE) w += " opened or changed a file;";
        if (fr.effects & EFF_SIGNAL) w += " changed signal handling;";
        if (fr.effects & EFF_MASK) w += " changed the signal mask;";
        if (fr.effects & EFF_LOCALE) w += " changed the locale;";
        if (fr.effects & EFF_ENV) w += " changed the environment or working directory;";
        if (fr.effects & EFF_FPENV) w += " changed the floating-point control settings;";
        viol(std::string("effect:") + d.name, std::string(d.name) + w);
    }
    return o;
}
Outcome solo(const Op& op, bool fresh) {
    if (fresh) pristine();
    RunResult* srr = RR; const Plan* spl = PL; const std::vector<Outcome>* sexp = EXP;
    RR = nullptr; PL = nullptr; EXP = nullptr;
    G.soloMode = true; G.cur = &FB[MAXT]; G.mon = false; G.targeted = false; G.weak = G.watch = false;
    int64_t sm = MONO, sr = REALOFF;
    MONO = 1000000000000ll; REALOFF = 1600000000000000000ll; TIMED.clear();
    soloWroteState = soloTouchedTls = false;
    soloYs.clear();
    slotNext = 0;
    Outcome o = runOp(op, op.fn == FN_wait ? 300000 : 8000000, nullptr);
    ST.solo++;
    MONO = sm; REALOFF = sr;
    G.soloMode = false; RR = srr; PL = spl; EXP = sexp;
    return o;
}

std::string outText(int fn, const Outcome& o) {
    static const char* K[] = {"none", "done", "assert", "exception", "crash", "step-limit", "abandoned"};
    std::string s = K[o.kind];
    const FnDesc& d = FNS[fn];
    char b[64];
    for (size_t i = 0; i < o.out.size(); i++) {
        if (o.out[i].empty()) continue;
        int t = i < (size_t) d.nargs ? d.args[i].type : d.ret;
        s += i < (size_t) d.nargs ? " a" + std::to_string(i) + "=" : " ret=";
        if (t == AT_ob || t == AT_st) { s += "\""; for (uint8_t c : o.out[i]) s += (c >= 32 && c < 127) ? (char) c : '.'; s += "\""; continue; }
        size_t es = elemSize(t);
        for (size_t k = 0; k + es <= o.out[i].size() && k < es * 16; k += es) {
            if (es == 8) { double v; memcpy(&v, &o.out[i][k], 8); snprintf(b, sizeof b, "%.17g", v); }
            else if (t == AT_i || t == AT_ia || t == AT_cr || t == AT_dt) { int v; memcpy(&v, &o.out[i][k], 4); snprintf(b, sizeof b, "%d", v); }
            else if (es == 4) { float v; memcpy(&v, &o.out[i][k], 4); snprintf(b, sizeof b, "%.9g", v); }
            else snprintf(b, sizeof b, "%d", o.out[i][k]);
            s += (k ? "," : ""); s += b;
        }
    }
    return s;
}

// ------------------------------------------------------------------------------------------------ completion checks
static std::string diffText(const Op& op, const Outcome& got, const Outcome& exp) {
    return std::string(FNS[op.fn].name) + ": got {" + outText(op.fn, got) + "} expected {" + outText(op.fn, exp) + "}";
}
static bool sameMasked(const Op& op, const Outcome& got, const Outcome& exp, const std::vector<Blob>& mask) {
    // mask: 1 = byte left untouched by the reference call, must still hold this call's prefill
    if (got.kind != exp.kind || got.out.size() != exp.out.size()) return false;
    for (size_t i = 0; i < got.out.size(); i++) {
        if (got.out[i].size() != exp.out[i].size()) return false;
        for (size_t k = 0; k < got.out[i].size(); k++) {
            bool un = i < mask.size() && k < mask[i].size() && mask[i][k];
            uint8_t want = un ? op.a[i][k] : exp.out[i][k];
            if (got.out[i][k] != want) return false;
        }
    }
    return true;
}
static void checkTexts() {
    for (auto& t : TEXTS) {
        std::string now = safeText(t.p);
        if (now != t.copy) {
            viol(std::string("text:") + FNS[PL->ops[t.op].fn].name, "text returned by call " + std::to_string(t.op) + " changed from \"" + t.copy + "\" to \"" + now + "\"");
            return;
        }
    }
}
static void completeOp(const Op& op, Outcome& o) {
    if (o.kind == OK_NONE) return;           // run stopped
    ST.ops++;
    RR->out[op.id] = o;
    RR->order.push_back(op.id);
    MONO += 20000;
    uint64_t h = RR->hash;
    h = fnv64(h, ((uint64_t) op.id << 8) | o.kind);
    for (auto& b : o.out) h = fnv(h, b.data(), b.size());
    RR->hash = h;
    if (stopRun) return;
    if (o.kind == OK_ABANDONED) return;
    const char* nm = FNS[op.fn].name;
    if (o.kind == OK_LIMIT) { viol(std::string("hang:") + nm, std::string(nm) + " did not complete within its step bound"); return; }
    if (EXP && op.id < (int) EXP->size() && (*EXP)[op.id].kind != OK_NONE) {
        const Outcome& e = (*EXP)[op.id];
        bool same = PL->maskOut && op.id < (int) MASKS->size() ? sameMasked(op, o, e, (*MASKS)[op.id]) : (o.kind == e.kind && o.out == e.out);
        if (!same && PL->faultCheck && op.failMask && o.kind == OK_EXC) same = true;
        if (!same) {
            const char* c = o.kind == OK_CRASH ? "crash:" : "mismatch:";
            viol(std::string(c) + nm, diffText(op, o, e));
            return;
        }
    } else if (o.kind != OK_DONE && EXP && !(PL->faultCheck && op.failMask && o.kind == OK_EXC)) {
        viol(std::string("crash:") + nm, std::string(nm) + " ended abnormally: " + outText(op.fn, o));
        return;
    }
    if (ONDONE) {
        std::string m = ONDONE(op, o);
        if (!m.empty()) { viol(std::string("oracle:") + nm, m); return; }
    }
    if (!TEXTS.empty()) checkTexts();
}

// ------------------------------------------------------------------------------------------------ scheduler
static bool depsReady(const Op& op) {
    for (auto& l : op.links) if (RR->out[l.srcOp].kind != OK_DONE) return false;
    return true;
}
static void endThread(Fibre& f);
static void runExit(std::vector<std::pair<void (*)(void*), void*>>& l, const char* when);
static void fibreMain() {
    Fibre& f = *G.cur;
    while (f.pos < f.ops.size() && !stopRun) {
        const Op& op = PL->ops[f.ops[f.pos]];
        // yield point 0: before the call starts
        const std::vector<Event> pre = evByOp[op.id];
        for (auto& e : pre) if (e.att != attempts[op.id]) continue;
        else if (e.y == 0 && e.kind == EV_SWITCH && e.arg != f.id && e.arg < PL->nthreads && e.arg >= 0 && runnable(FB[e.arg])) {
            RR->switches++; nextHint = e.arg; toSched();
        } else if (e.y == 0 && e.kind == EV_RESTART) {
            ST.faults["crash_restart"]++; record(op.id, 0, EV_RESTART, 0);
            restartReq = 1; toSched();
        } else if (e.y == 0 && e.kind == EV_LIFE && !stopRun) {
            record(op.id, 0, EV_LIFE, e.arg);
            lifeStep(e.arg);
        }
        if (!PL->replay && PL->pol.kind && SR.chance(0.3)) {
            int u = pickOther(f.id);
            if (u >= 0) { record(op.id, 0, EV_SWITCH, u); RR->switches++; nextHint = u; toSched(); }
        }
        if (stopRun) break;
        while (!depsReady(op) && !stopRun) { f.st = F_DEP; toSched(); }
        if (stopRun) break;
        Outcome o = runOp(op, 0, nullptr);
        if (o.kind == OK_ABANDONED && op.redo) { attempts[op.id]++; f.guardDepth = 0; continue; }
        completeOp(op, o);
        f.pos++;
    }
    if (!stopRun) endThread(f);
    f.st = F_DONE;
    toSched();
    abort();
}
static void fireTimed() {
    for (size_t i = 0; i < TIMED.size();) if (TIMED[i].at <= MONO) { REALOFF += TIMED[i].delta; TIMED.erase(TIMED.begin() + i); } else i++;
}
static int64_t monoWake(const Fibre& f) {
    // simulated monotonic time at which f's sleep ends (given the present wall-clock offset)
    return f.wakeClock == CLOCK_REALTIME ? f.wake - REALOFF : f.wake;
}
static void wakeSleepers() {
    fireTimed();
    for (int i = 0; i < PL->nthreads; i++) if (FB[i].st == F_SLEEP && monoWake(FB[i]) <= MONO) FB[i].st = F_READY;
    for (int i = 0; i < PL->nthreads; i++) if (FB[i].st == F_DEP && depsReady(PL->ops[FB[i].ops[FB[i].pos]])) FB[i].st = F_READY;
}
static void doRestart() {
    // the process dies and a new one starts: only completed calls' outputs (held by the caller) survive
    restartReq = 0;
    weakReset();
    pristine();
    memset(slotBusy, 0, sizeof slotBusy);
    SH.clear(); shUsed = 0; TEXTS.clear(); TIMED.clear();
    for (int i = 0; i < PL->nthreads; i++) if (FB[i].st != F_DONE) {
        if (FB[i].pos < FB[i].ops.size()) attempts[FB[i].ops[FB[i].pos]]++;
        initFibre(FB[i]);
    }
}
RunResult simulate(const Plan& plan, const std::vector<Outcome>& expected, const std::vector<std::vector<Blob>>& masks,
                   std::function<std::string(const Op&, const Outcome&)> onDone) {
    RunResult rr;
    rr.hash = rr.schedHash = 1469598103934665603ull;
    rr.out.resize(plan.ops.size());
    rr.t0.assign(plan.ops.size(), 0); rr.t1.assign(plan.ops.size(), 0); rr.lateBudget.assign(plan.ops.size(), 0);
    PL = &plan; RR = &rr; EXP = &expected; MASKS = &masks; ONDONE = onDone;
    pristine();
    pendInit.clear(); pendFini.clear();
    if (plan.mode == MODE_LIFE) { memcpy((void*) G.rwLo, snap0, G.rwLen); pendInit = INITS[0]; pendFini = INITS[1]; }
    memset(slotBusy, 0, sizeof slotBusy);
    slotNext = 0;
    memset(TAG + SLOT * NSLOT, 0, (shUsed + 64) * sizeof(uint16_t));
    SH.clear(); shUsed = 0; TEXTS.clear(); TIMED.clear();
    stopRun = false; restartReq = 0; nextHint = -1;
    MONO = 1000000000000ll + (int64_t) (plan.seed % 1000003) * 1000; REALOFF = 1600000000000000000ll;
    int64_t t00 = MONO;
    JUMPED = 0;
    uint64_t y0 = ST.yields;
    SR = Rng(plan.seed ^ 0x5bd1e995u);
    evByOp.assign(plan.ops.size(), {});
    attempts.assign(plan.ops.size(), 0);
    for (auto& e : plan.ev) if (e.op >= 0 && e.op < (int) plan.ops.size() && !(e.kind == EV_PICK)) evByOp[e.op].push_back(e);
    std::map<std::pair<int, uint32_t>, std::vector<int>> picks; // consumed front to back
    if (plan.replay) for (auto& e : plan.ev) if (e.kind == EV_PICK) picks[{e.op, e.y}].push_back(e.arg);
    for (auto& v : evByOp) std::stable_sort(v.begin(), v.end(), [](const Event& a, const Event& b) { return a.y < b.y; });
    FBUSED = plan.nthreads;
    for (int i = 0; i < plan.nthreads; i++) {
        Fibre& f = FB[i];
        f.id = i; f.ops.clear(); f.pos = 0; f.interrupted = false; f.waitObj = nullptr; f.guardDepth = 0; f.wasStalled = false;
        for (auto& o : plan.ops) if (o.thread == i) f.ops.push_back(o.id);
        initFibre(f);
        if (f.ops.empty()) f.st = F_DONE;
    }
    G.mon = plan.monitor;
    weakReset();
    G.weak = plan.weak && plan.nthreads > 1;
    G.watch = G.mon || G.weak;
    G.targeted = !plan.replay && plan.pol.pShared > 0;
    G.soloMode = false;
    int last = -1;
    for (;;) {
        if (restartReq) doRestart();
        if (stopRun) break;
        wakeSleepers();
        int c[MAXT], n = 0;
        for (int i = 0; i < plan.nthreads; i++) if (runnable(FB[i])) c[n++] = i;
        int pick = -1;
        if (nextHint >= 0 && runnable(FB[nextHint])) pick = nextHint;
        nextHint = -1;
        if (pick < 0 && n == 0) {
            int64_t best = INT64_MAX;
            bool stalled = false, busy = false;
            for (int i = 0; i < plan.nthreads; i++) {
                if (FB[i].st == F_SLEEP) best = std::min(best, monoWake(FB[i]));
                if (FB[i].st == F_STALL) stalled = true;
                if (FB[i].st == F_BLOCK || FB[i].st == F_DEP) busy = true;
            }
            if (best != INT64_MAX) {
                for (auto& t : TIMED) best = std::min(best, t.at);
                MONO = std::max(MONO + 1, best);
                continue;
            }
            if (busy) {
                std::string who;
                for (int i = 0; i < plan.nthreads; i++) if (FB[i].st == F_BLOCK && FB[i].top) { who = FNS[FB[i].top->op->fn].name; break; }
                viol("blocked:" + who, stalled ? who + " is held up by a suspended call of another thread" : who + " waits for ever");
                break;
            }
            if (stalled) { for (int i = 0; i < plan.nthreads; i++) if (FB[i].st == F_STALL) FB[i].st = F_READY; continue; }
            G.cur = &FB[0];
            runExit(ATEXIT, "process"); runExit(ATQUICK, "process");
            break;                            // all done
        }
        if (pick < 0) {
            // the previous fibre finished, blocked or was stopped: choose who continues
            int lo = last >= 0 && !FB[last].ops.empty() ? FB[last].ops[std::min(FB[last].pos, FB[last].ops.size() - 1)] : plan.ops.empty() ? 0 : plan.ops[0].id;
            uint32_t ly = last >= 0 && FB[last].st != F_DONE ? Y_BLOCK | (FB[last].top ? FB[last].top->y : 0) : Y_END;
            if (plan.replay) {
                auto it = picks.find({lo, ly});
                if (it != picks.end() && !it->second.empty()) {
                    int t = it->second.front();
                    it->second.erase(it->second.begin());
                    if (t >= 0 && t < plan.nthreads && runnable(FB[t])) pick = t;
                }
                if (pick < 0) {
                    for (int k = 1; k <= plan.nthreads && pick < 0; k++) { int t = ((last < 0 ? -1 : last) + k + plan.nthreads) % plan.nthreads; if (runnable(FB[t])) pick = t; }
                }
            } else {
                pick = n == 1 ? c[0] : c[SR.below(n)];
                record(lo, ly, EV_PICK, pick);
            }
        }
        last = pick;
        G.cur = &FB[pick];
        G.frame = FB[pick].top;
        sim_switch(&G.schedSp, FB[pick].sp);
    }
    G.inlib = false;
    if (!rr.violation) checkTexts();
    rr.yields = ST.yields - y0;
    rr.simNs = MONO - t00 - JUMPED;
    rr.hash = fnv(rr.hash, rr.cls.data(), rr.cls.size());
    PL = nullptr; RR = nullptr; EXP = nullptr; MASKS = nullptr; ONDONE = nullptr;
    G.mon = false; G.targeted = false; G.weak = G.watch = false;
    return rr;
}

// ------------------------------------------------------------------------------------------------ init
static void crashHandler(int sig, siginfo_t*, void* u) {
    if (sig == SIGFPE && G.inlib && G.frame && (G.frame->op->rmode & 16)) { // the caller's own handler: notes the exception, turns traps off, carries on
        auto* fp = ((ucontext_t*) u)->uc_mcontext.fpregs;
        fp->mxcsr = (fp->mxcsr | 0x1f80u) & ~0x3fu;
        fp->cwd |= 0x3f;
        fp->swd &= (uint16_t) ~0x80ffu;
        G.frame->trapped = true;
        ST.probes["fp_trap"]++;
        return;
    }
    if (G.inlib && G.frame) {
        G.inlib = false;
        siglongjmp(G.frame->jb, J_CRASH);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}
void rtInit(const char*) {
    __libc_single_threaded = 0;             // (libstdc++ then counts references atomically, as in a program with threads)
    { std::shared_ptr<int> a = std::make_shared<int>(1), b = std::atomic_load(&a); std::atomic_store(&b, a); }   // (sets up the lock pool of libstdc++)
    soloYs.reserve(256);
    if (!edgeHit) edgeHit = new std::vector<uint8_t>(nEdges + 1, 0);
    edgeHit->resize(nEdges + 2);
    ARENA = (uint8_t*) mmap((void*) 0x600000000000ull, ARENALEN + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    TAG = (uint16_t*) mmap(nullptr, (ARENALEN + 65536) * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (auto& f : FB) {
        char* m = (char*) mmap(nullptr, STK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(m, 4096, PROT_NONE);
        f.stk = m + 4096;
    }
    if (!G.rwLen) dl_iterate_phdr(phdrCb, nullptr);
    INITS = new std::vector<void (*)(int, char**, char**)>[2];
    dl_iterate_phdr(dynCb, INITS);
    if (!G.rwLen || !snap0) { fprintf(stderr, "slasim: library image not found\n"); exit(2); }
    G.snap = (uint8_t*) malloc(G.rwLen);
    memcpy(G.snap, (void*) G.rwLo, G.rwLen);
    stack_t ss{};
    ss.ss_sp = malloc(65536); ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = crashHandler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) syscall(SYS_rt_sigaction, 0, 0, 0, 0), sigaction(s, &sa, nullptr);
}

// ------------------------------------------------------------------------------------------------ seams: TLS
struct EmuCtl { size_t size, align; void* obj; const void* init; };
extern "C" void* __emutls_get_address(EmuCtl* c) {
    bool in = G.inlib;
    Fibre* f = G.cur ? G.cur : &FB[MAXT];
    if (in && noteR) { noteState((uintptr_t) c, false); noteState((uintptr_t) c, true); }
    if (in) { soloTouchedTls = true; if (G.soloMode && G.frame) noteY(G.frame->y); }
    G.inlib = false;
    void* m = nullptr;
    for (auto& t : f->tls) if (t.ctl == c) { m = t.mem; break; }
    if (!m) {
        size_t al = c->align < 16 ? 16 : c->align;
        m = aligned_alloc(al, (c->size + al - 1) / al * al);
        if (c->init) memcpy(m, c->init, c->size); else memset(m, 0, c->size);
        f->tls.push_back(TlsSlot{c, m});
    }
    G.inlib = in;
    return m;
}
static void noteState(uintptr_t a, bool w) {
    if (G.cur->guardDepth) return;
    bool in = G.inlib;
    G.inlib = false;
    (w ? noteW : noteR)->insert(a & ~(uintptr_t) 7);
    G.inlib = in;
}
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* p, void*) {
    bool in = G.inlib;
    G.inlib = false;
    if (G.cur) G.cur->dtors.push_back({f, p});
    G.inlib = in;
    return 0;
}
// a thread ends: destructors of its thread-local objects run, its storage and identity become available to later threads
// what the library left to be run when a thread or the process ends (destructors, exit handlers); an environment check watches it
static Op exitOp;
static void runExit(std::vector<std::pair<void (*)(void*), void*>>& l, const char* when) {
    if (!PL || !PL->ambientCheck || G.soloMode || stopRun || l.empty()) { while (!l.empty()) { auto d = l.back(); l.pop_back(); if (*when == 't') d.first(d.second); } return; }
    Frame fr; Frame* saved = G.frame;
    fr.op = &exitOp; fr.limit = 20000000; setStop(&fr); fr.stopY = fr.limit;
    G.frame = &fr;
    G.soloMode = true;                       // nothing here waits for other threads
    if (sigsetjmp(fr.jb, 0) == 0) {
        try { while (!l.empty()) { auto d = l.back(); l.pop_back(); G.inlib = true; d.first(d.second); G.inlib = false; } } catch (...) {}
    }
    G.inlib = false;
    l.clear();
    G.soloMode = false;
    G.frame = saved;
    if (fr.effects & (EFF_OUTPUT | EFF_FILE)) viol("effect:exit", std::string("code left by a library call to be run when the ") + when + " ends wrote to a stream or file");
}
extern "C" int __cxa_atexit(void (*f)(void*), void* p, void* d) {
    static int (*real)(void (*)(void*), void*, void*) = nullptr;
    if (G.inlib) { bool in = G.inlib; G.inlib = false; if (ATEXIT.size() < 4096) ATEXIT.push_back({f, p}); G.inlib = in; return 0; }
    if (!real) real = (int (*)(void (*)(void*), void*, void*)) dlsym(RTLD_NEXT, "__cxa_atexit");
    return real(f, p, d);
}
extern "C" int __cxa_at_quick_exit(void (*f)(), void*) {
    if (!G.inlib) return 0;
    G.inlib = false;
    if (ATQUICK.size() < 4096) ATQUICK.push_back({(void (*)(void*)) f, nullptr});
    G.inlib = true;
    return 0;
}
extern "C" int slasim_atexit(void (*f)(void*), void* p) {
    if (!G.inlib) return 0;                  // objects made when the program was loaded outlive every simulated process
    G.inlib = false;
    if (ATEXIT.size() < 4096) ATEXIT.push_back({f, p});
    G.inlib = true;
    return 0;
}
extern "C" int slasim_atfork(void (*a)(), void (*)(), void (*c)()) {
    if (!G.inlib) return 0;
    G.inlib = false;
    if (a && FORKPRE.size() < 4096) FORKPRE.push_back(a);
    if (c && FORKCHILD.size() < 4096) FORKCHILD.push_back(c);
    G.inlib = true;
    return 0;
}
// library code that runs outside any call: initialisers, destructors, exit and fork handlers. It is not preempted; alone: it may not wait.
static bool outside(const std::function<void()>& code, const char* what, bool alone) {
    Frame fr; Frame* saved = G.frame; Frame* top = G.cur->top;
    bool wasSolo = G.soloMode;
    fr.op = &PL->ops[0]; fr.limit = 20000000; fr.polY = 0xf0000000u; setStop(&fr); fr.stopY = fr.limit;
    G.frame = &fr; G.cur->top = &fr;
    if (alone) G.soloMode = true;
    int j = sigsetjmp(fr.jb, 0);
    if (j == 0) { try { code(); } catch (...) { j = 100; } }
    G.inlib = false;
    _mm_setcsr(0x1f80);
    G.soloMode = wasSolo;
    G.frame = saved; G.cur->top = top;
    if (stopRun) return false;
    if (j == J_CRASH || j == J_ASSERT) { viol("crash:outside", std::string("library code run ") + what + " crashed"); return false; }
    return true;
}
static void runInit(size_t k) {
    auto f = pendInit[k];
    pendInit.erase(pendInit.begin() + (long) k);
    outside([&] { static char* none[] = {nullptr}; G.inlib = true; f(0, none, none); G.inlib = false; }, "before main()", true);
}
static bool runHandler(std::vector<std::pair<void (*)(void*), void*>>& l, const char* what) {
    if (l.empty()) return false;
    auto d = l.back(); l.pop_back();
    ST.probes["exit_handlers_run"]++;
    outside([&] { G.inlib = true; d.first(d.second); G.inlib = false; }, what, true);
    return true;
}
// one step of the life of the process, taken by the running thread
static void lifeStep(int what) {
    Fibre& me = *G.cur;
    static const char* N[] = {"?", "life_one_initialiser", "life_initialisers", "life_initialisers_backwards", "life_one_exit_handler", "life_exit", "life_fork", "life_thread_end", "life_one_quick_handler", "life_quick_exit"};
    if (what == LF_FORK) for (int i = 0; i < PL->nthreads; i++) if (&FB[i] != &me) {   // one-time initialisation under way elsewhere: excepted
        Fibre* c = G.cur; G.cur = &FB[i]; bool g = guarded(); G.cur = c;
        if (g) return;
    }
    ST.faults[N[what]]++;
    switch (what) {
    case LF_INIT1: if (!pendInit.empty()) runInit(0); break;
    case LF_INITALL: while (!pendInit.empty() && !stopRun) runInit(0); break;
    case LF_INITREV: while (!pendInit.empty() && !stopRun) runInit(pendInit.size() - 1); break;
    case LF_EXIT1: runHandler(ATEXIT, "while the process ends"); break;
    case LF_EXITALL:
        while (!stopRun && runHandler(me.dtors, "while its thread ends")) {}   // exit() leaves thread-specific data alone
        while (!stopRun && runHandler(ATEXIT, "while the process ends")) {}
        while (!stopRun && !pendFini.empty()) {
            auto f = pendFini.back(); pendFini.pop_back();
            outside([&] { G.inlib = true; ((void (*)()) f)(); G.inlib = false; }, "while the process ends", true);
        }
        break;
    case LF_QUICK1: runHandler(ATQUICK, "while the process leaves through quick_exit()"); break;
    case LF_QUICKALL: while (!stopRun && runHandler(ATQUICK, "while the process leaves through quick_exit()")) {} break;
    case LF_THREADEND: {
        while (!stopRun && runHandler(me.dtors, "while its thread ends")) {}
        std::vector<std::pair<void (*)(void*), void*>> l;
        for (int i = 0; i < 4 && !stopRun && keyRound(me.tls, l); i++) { std::reverse(l.begin(), l.end()); while (!stopRun && runHandler(l, "while its thread ends")) {} }
        break;
    }
    case LF_FORK:
        for (size_t k = FORKPRE.size(); k-- > 0 && !stopRun;) outside([&] { G.inlib = true; FORKPRE[k](); G.inlib = false; }, "before a fork", false);
        for (int i = 0; i < PL->nthreads; i++) if (&FB[i] != &me) { FB[i].st = F_DONE; FB[i].waitObj = nullptr; }   // only the forking thread goes on
        PIDSHIFT++;
        for (size_t k = 0; k < FORKCHILD.size() && !stopRun; k++) outside([&] { G.inlib = true; FORKCHILD[k](); G.inlib = false; }, "after a fork", false);
        break;
    default: break;
    }
}
static void endTls(std::vector<TlsSlot>& tls, std::vector<std::pair<void (*)(void*), void*>>& dtors) {
    while (!dtors.empty()) { auto d = dtors.back(); dtors.pop_back(); d.first(d.second); }
    std::vector<std::pair<void (*)(void*), void*>> l;
    for (int i = 0; i < 4 && keyRound(tls, l); i++) for (auto& d : l) d.first(d.second);
    for (auto& t : tls) free(t.mem);
    tls.clear();
}
static void endThread(Fibre& f) {
    runExit(f.dtors, "thread");
    std::vector<std::pair<void (*)(void*), void*>> l;
    for (int i = 0; i < 4 && keyRound(f.tls, l); i++) runExit(l, "thread");
    clearTls(f);
}
static int identOf(Fibre& f) {
    if (f.ident < 0) for (int k = 0;; k++) {
        bool used = false;
        for (int i = 0, n = FBUSED; i <= n; i++) { Fibre& o = FB[i == n ? MAXT : i]; if (&o != &f && o.ident == k) used = true; }
        if (!used) { f.ident = k; break; }
    }
    return f.ident;
}

// ------------------------------------------------------------------------------------------------ seams: locks
// Threads started by library code run on the stack of the call that started them, each as a whole but interruptible like any code: at
// once, some steps later, when they are waited for, or after the call returned (a function of seed and call, so that replays agree).
static void endTls(std::vector<TlsSlot>& tls, std::vector<std::pair<void (*)(void*), void*>>& dtors);
static void runWorker(Frame* f, size_t k) noexcept {
    Worker w = f->pend[k];
    G.inlib = false;
    f->pend.erase(f->pend.begin() + (long) k);
    f->pendY = 0xf0000000u;
    for (auto& p : f->pend) f->pendY = std::min(f->pendY, p.due);
    Fibre* me = G.cur;
    std::vector<TlsSlot> tls; std::vector<std::pair<void (*)(void*), void*>> dtors;
    me->tls.swap(tls); me->dtors.swap(dtors);
    int ident = me->ident; me->ident = -1;
    f->inWork++;
    setStop(f);
    ST.probes["library_thread"]++;
    unsigned mx = _mm_getcsr(); _mm_setcsr(0x1f80);
    G.inlib = true;
    w.fn(w.arg);
    G.inlib = false;
    _mm_setcsr(mx);
    f->inWork--;
    endTls(me->tls, me->dtors);
    me->tls.swap(tls); me->dtors.swap(dtors);
    me->ident = ident;
    G.inlib = true;
}
static bool holdsLock() { for (auto& l : LOCKS) if (l.second == G.cur->id) return true; return false; }
static void runDueWorkers(Frame* f) {
    if (f->inWork > 3 || holdsLock() || guarded()) { f->pendY = f->y + 40; return; }
    for (size_t k = 0; k < f->pend.size(); k++) if (f->pend[k].due <= f->y) { runWorker(f, k); return; }
    f->pendY = 0xf0000000u;
    for (auto& p : f->pend) f->pendY = std::min(f->pendY, p.due);
}
// a call that has to wait lets the threads it started run
static bool runAnyWorker() {
    Frame* f = G.frame;
    if (!f || f->pend.empty()) return false;
    bool in = G.inlib;
    runWorker(f, 0);
    G.inlib = in;
    return true;
}
static void blockOn(void* o) {
    // called with inlib == false
    if (runAnyWorker()) return;
    if (G.soloMode) siglongjmp(G.frame->jb, J_LIMIT);
    G.cur->st = F_BLOCK;
    G.cur->waitObj = o;
    ST.probes["lock_contention"]++;
    toSched();
    if (stopRun) siglongjmp(G.frame->jb, J_STOP);
}
static void wakeAll(void* o) { if (G.soloMode || !PL) return; for (int i = 0; i < PL->nthreads; i++) if ((FB[i].st == F_BLOCK || FB[i].st == F_SLEEP) && FB[i].waitObj == o) { FB[i].st = F_READY; FB[i].waitObj = nullptr; } }
extern "C" bool failReq(const char* what);
static void yieldHere() { if (G.inlib) bump(); }
extern "C" {
int __cxa_guard_acquire(uint64_t* g) {
    yieldHere();
    if (G.inlib) weakSync();
    if (*(uint8_t*) g) return 0;
    if (!G.inlib) return 1;
    OutOfLib x;
    for (;;) {
        if (*(uint8_t*) g) { weakSync(); return 0; }
        auto it = LOCKS.find(g);
        if (it == LOCKS.end()) break;
        blockOn(g);
    }
    LOCKS[g] = G.cur->id;
    G.cur->guardDepth++;
    ST.probes["static_init"]++;
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    if (G.inlib) weakSync();
    *(uint8_t*) g = 1;
    if (!G.inlib) return;
    OutOfLib x;
    if (LOCKS.erase(g)) G.cur->guardDepth--;
    wakeAll(g);
}
void __cxa_guard_abort(uint64_t* g) {
    if (!G.inlib) return;
    OutOfLib x;
    if (LOCKS.erase(g)) G.cur->guardDepth--;
    wakeAll(g);
}
// LOCKS: owner (exclusive). RDCNT: number of readers. RECUR: extra holds of a recursive mutex.
static bool recursiveHeld(pthread_mutex_t* m) {
    auto it = LOCKS.find(m);
    return it != LOCKS.end() && it->second == G.cur->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
}
static int lockEx(void* m, bool mayWait, bool recursive) {
    bump();
    OutOfLib x;
    if (G.soloMode) { noteY(G.frame->y + 1); soloWroteState = true; if (noteR) noteState((uintptr_t) m, true); }
    if (recursive && recursiveHeld((pthread_mutex_t*) m)) { RECUR[m]++; return 0; }
    while (LOCKS.count(m) || RDCNT.count(m)) { if (!mayWait) return EBUSY; blockOn(m); }
    LOCKS[m] = G.cur->id;
    weakSync();
    return 0;
}
static int lockSh(void* m, bool mayWait) {
    bump();
    OutOfLib x;
    if (G.soloMode) { noteY(G.frame->y + 1); soloWroteState = true; }
    while (LOCKS.count(m)) { if (!mayWait) return EBUSY; blockOn(m); }
    RDCNT[m]++;
    weakSync();
    return 0;
}
static int unlockAny(void* m) {
    {
        OutOfLib x;
        weakSync();
        auto rc = RECUR.find(m);
        if (rc != RECUR.end()) { if (--rc->second == 0) RECUR.erase(rc); }
        else {
            auto rd = RDCNT.find(m);
            if (rd != RDCNT.end()) { if (--rd->second == 0) RDCNT.erase(rd); } else LOCKS.erase(m);
            wakeAll(m);
        }
    }
    bump();
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return G.inlib ? lockEx(m, true, true) : 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return G.inlib ? lockEx(m, false, true) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { return G.inlib ? unlockAny(m) : 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return G.inlib ? lockSh(m, true) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return G.inlib ? lockSh(m, false) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return G.inlib ? lockEx(m, true, false) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return G.inlib ? lockEx(m, false, false) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return G.inlib ? unlockAny(m) : 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { return G.inlib ? lockEx((void*) m, true, false) : 0; }
int pthread_spin_trylock(pthread_spinlock_t* m) { return G.inlib ? lockEx((void*) m, false, false) : 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { return G.inlib ? unlockAny((void*) m) : 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!G.inlib) { if (*(int*) o == 0) { *(int*) o = 2; fn(); } return 0; }
    bump();
    {
        OutOfLib x;
        volatile int* st = (volatile int*) o;   // the state lives in the object, as in glibc: it may be on the heap or the stack
        while (*st == 1) blockOn(o);
        weakSync();
        if (*st == 2) return 0;
        *st = 1;
        G.cur->guardDepth++;                 // one-time initialisation: treated like the guard of a local static
        ST.probes["static_init"]++;
    }
    try { fn(); }
    catch (...) {                            // an initialiser that throws leaves the flag unset, as in glibc
        OutOfLib x;
        *(volatile int*) o = 0;
        if (G.cur->guardDepth > 0) G.cur->guardDepth--;
        wakeAll(o);
        throw;
    }
    OutOfLib x;
    weakSync();
    *(volatile int*) o = 2;
    if (G.cur->guardDepth > 0) G.cur->guardDepth--;
    wakeAll(o);
    return 0;
}
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) __THROW {
    static int (*real)(pthread_key_t*, void (*)(void*)) = nullptr;
    if (!G.inlib) {
        if (!real) real = (int (*)(pthread_key_t*, void (*)(void*))) dlsym(RTLD_NEXT, "pthread_key_create");
        int e = real(k, d);
        if (!e && *k < KEY0) KEYS[*k] = Key{true, true, d};
        return e;
    }
    bump();
    if (failReq("key")) return EAGAIN;
    OutOfLib x;
    if (noteR) noteState((uintptr_t) KEYS, true);
    for (unsigned i = KEY0; i < NKEYS; i++) if (!KEYS[i].used) { KEYS[i] = Key{true, false, d}; keysTop = std::max(keysTop, i + 1); *k = i; return 0; }
    return EAGAIN;
}
int pthread_key_delete(pthread_key_t k) __THROW {
    if (k >= NKEYS || !KEYS[k].used) return EINVAL;
    if (!G.inlib && k < KEY0) return 0;
    KEYS[k].used = false;
    OutOfLib x;                              // the values are dropped without being destroyed
    for (int i = 0, n = FBUSED; i <= n; i++) for (auto& t : FB[i == n ? MAXT : i].tls) if (t.ctl == (void*) &KEYS[k]) *(void**) t.mem = nullptr;
    if (k < KEY0) KEYS[k].used = true;
    return 0;
}
static void** keySlot(pthread_key_t k, bool make) {
    Fibre* f = G.cur ? G.cur : &FB[MAXT];
    if (G.inlib && noteR) { noteState((uintptr_t) &KEYS[k], make); }
    if (G.inlib) { soloTouchedTls = true; if (G.soloMode && G.frame) noteY(G.frame->y); }
    for (auto& t : f->tls) if (t.ctl == (void*) &KEYS[k]) return (void**) t.mem;
    if (!make) return nullptr;
    bool in = G.inlib; G.inlib = false;
    void** m = (void**) calloc(1, sizeof(void*));
    f->tls.push_back(TlsSlot{&KEYS[k], m});
    G.inlib = in;
    return m;
}
void* pthread_getspecific(pthread_key_t k) __THROW {
    static void* (*real)(pthread_key_t) = nullptr;
    if (!G.inlib && k < KEY0) {
        if (!real) real = (void* (*)(pthread_key_t)) dlsym(RTLD_NEXT, "pthread_getspecific");
        return real(k);
    }
    if (k >= NKEYS || !KEYS[k].used) return nullptr;
    if (G.inlib) bump();
    void** m = keySlot(k, false);
    return m ? *m : nullptr;
}
int pthread_setspecific(pthread_key_t k, const void* v) __THROW {
    static int (*real)(pthread_key_t, const void*) = nullptr;
    if (!G.inlib && k < KEY0) {
        if (!real) real = (int (*)(pthread_key_t, const void*)) dlsym(RTLD_NEXT, "pthread_setspecific");
        return real(k, v);
    }
    if (k >= NKEYS || !KEYS[k].used) return EINVAL;
    if (G.inlib) { bump(); if (!keySlot(k, false) && failReq("key")) return ENOMEM; }
    *keySlot(k, true) = (void*) v;
    return 0;
}
int tss_create(tss_t* k, void (*d)(void*)) { return pthread_key_create(k, d) ? thrd_error : thrd_success; }
void tss_delete(tss_t k) { pthread_key_delete(k); }
void* tss_get(tss_t k) { return pthread_getspecific(k); }
int tss_set(tss_t k, void* v) { return pthread_setspecific(k, v) ? thrd_error : thrd_success; }
int mtx_lock(mtx_t* m) { return pthread_mutex_lock((pthread_mutex_t*) m) ? thrd_error : thrd_success; }
int mtx_trylock(mtx_t* m) { int e = pthread_mutex_trylock((pthread_mutex_t*) m); return e == EBUSY ? thrd_busy : e ? thrd_error : thrd_success; }
int mtx_unlock(mtx_t* m) { return pthread_mutex_unlock((pthread_mutex_t*) m) ? thrd_error : thrd_success; }
void call_once(once_flag* f, void (*fn)(void)) { pthread_once((pthread_once_t*) f, fn); }
int sched_yield() { if (!G.inlib) return 0; bump(); if (runAnyWorker()) return 0; OutOfLib x; MONO += 1000; if (!G.soloMode && PL && !PL->replay) { int u = pickOther(G.cur->id); if (u >= 0) { record(G.frame->op->id, G.frame->y, EV_SWITCH, u); switchNow(u); } } return 0; }
pthread_t pthread_self() { if (!G.inlib) return (pthread_t) 0x1000; if (!G.cur) return (pthread_t) 0x1000; OutOfLib x; return (pthread_t) (0x7f0000001000ull + 0x801000ull * (unsigned) identOf(*G.cur) + (G.frame && G.frame->inWork ? 0x100000000ull * (unsigned) G.frame->nwork : 0)); }
pid_t gettid() __THROW { if (!G.inlib) return 1; OutOfLib x; return 4243 + identOf(*G.cur); }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) __THROW {
    if (!G.inlib) return EAGAIN;
    if (failReq("thread")) return EAGAIN;
    OutOfLib x;
    weakSync();
    Frame* f = G.frame;
    int n = ++f->nwork;
    *t = (pthread_t) (0x5000 + n);
    uint64_t h = G.soloMode || !PL ? 0 : fnv64(fnv64(fnv64(1469598103934665603ull, PL->seed), (uint64_t) f->op->id), (uint64_t) n);
    h ^= h >> 29;
    uint32_t due = f->y;
    if (h % 4 == 1) due += 1 + (uint32_t) ((h >> 8) % 40);
    else if (h % 4 == 2) due += 1 + (uint32_t) ((h >> 8) % (1u << (5 + (h >> 40) % 10)));
    else if (h % 4 == 3) due = 0xe0000000u;
    if (f->pend.size() > 64) due = f->y;
    f->pend.push_back(Worker{fn, arg, *t, due});
    f->pendY = std::min(f->pendY, due);
    if (due <= f->y) { x.was = true; runWorker(f, f->pend.size() - 1); }
    else setStop(f);
    return 0;
}
int pthread_join(pthread_t t, void** r) {
    if (r) *r = nullptr;
    if (!G.inlib) return 0;
    Frame* f = G.frame;
    for (size_t k = 0; k < f->pend.size(); k++) if (f->pend[k].h == t) { runWorker(f, k); break; }
    bump();
    return 0;
}
int get_nprocs() __THROW { return G.inlib && G.frame && G.frame->armed ? 1 << (G.frame->op->ambient >> 40 & 7) : 4; }
int get_nprocs_conf() __THROW { return get_nprocs(); }
int sched_getcpu() __THROW { return G.inlib && G.frame && G.frame->armed ? (int) (G.frame->op->ambient >> 44 & 7) : 0; }
int pthread_detach(pthread_t) __THROW { return 0; }
}

// ------------------------------------------------------------------------------------------------ seams: time
static void stepClock() {
    // reading the clock takes time; a caller that only polls makes simulated time run faster and faster
    Frame* f = G.frame;
    int64_t dt = 1000;
    int k = f->nclock++ / 64;
    dt <<= (k > 13 ? 13 : k);
    MONO += dt;
    fireTimed();
}
static int64_t clockNow(int c) { return (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? MONO + REALOFF : MONO; }
// sleeps until clock c reaches t; returns true if interrupted by a signal; *early = remaining ns
static bool sleepUntil(int c, int64_t t, int64_t* remaining) {
    Frame* f = G.frame;
    int64_t now = clockNow(c), span = t - now;
    *remaining = 0;
    bool intr = false;
    if (span > 0) ST.probes["sleep"]++;
    f->nsleeps++;
    f->late += 20000;                        // every sleep may cost a little scheduling latency
    int64_t late = 0;
    while (!G.soloMode && f->op->tf.size() > (size_t) f->nsleep) {
        const TFault& tf = f->op->tf[f->nsleep++];
        if (span <= 0) break;
        if (tf.kind == TF_EINTR) {
            int64_t at = (int64_t) ((double) span * (double) tf.a / 1000.0);
            ST.faults["eintr"]++;
            intr = true; t = now + at;
            break;
        } else if (tf.kind == TF_LATE) {
            late = tf.b; f->late += tf.b; ST.faults["late_wakeup"]++;
            break;
        } else {
            TIMED.push_back(Timed{MONO + (int64_t) ((double) span * (double) tf.a / 1000.0), tf.b});
            ST.faults[tf.b > 0 ? "clock_step_forward" : "clock_step_back"]++;
        }
    }
    if (span > 0) {
        if (G.soloMode) { MONO += (t - now); }
        else {
            int64_t goal = t - now;
            G.cur->wakeClock = (c == CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC;
            G.cur->wake = clockNow(G.cur->wakeClock) + goal + (G.cur->wakeClock == CLOCK_REALTIME ? 0 : late);
            G.cur->st = F_SLEEP;
            toSched();
            if (stopRun) siglongjmp(G.frame->jb, J_STOP);
            MONO += 2000;
        }
    }
    if (t > now) f->asleep += t - now;
    if (intr) { int64_t e = span - (t - now); *remaining = e > 0 ? e : 0; }
    return intr;
}
static int64_t ns(const struct timespec* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) {
    if (!G.inlib) return (int) syscall(SYS_clock_gettime, c, t);
    bump();
    OutOfLib x;
    stepClock();                             // reading a valid clock cannot fail on the platforms supported
    int64_t n = clockNow(c);
    t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t* p) {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
clock_t clock() { if (!G.inlib) return 0; OutOfLib x; stepClock(); return (clock_t) (MONO / 1000); }
static int doNanosleep(int c, int64_t until, struct timespec* rem) {
    OutOfLib x;
    int64_t r;
    if (sleepUntil(c, until, &r)) {
        if (rem) { rem->tv_sec = r / 1000000000; rem->tv_nsec = r % 1000000000; }
        return EINTR;
    }
    return 0;
}
int nanosleep(const struct timespec* q, struct timespec* rem) {
    if (!G.inlib) return (int) syscall(SYS_nanosleep, q, rem);
    bump();
    if (q->tv_nsec < 0 || q->tv_nsec > 999999999 || q->tv_sec < 0) { errno = EINVAL; return -1; }
    int e = doNanosleep(CLOCK_MONOTONIC, clockNow(CLOCK_MONOTONIC) + ns(q), rem);
    if (e) { errno = e; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* q, struct timespec* rem) {
    if (!G.inlib) return (int) syscall(SYS_clock_nanosleep, c, flags, q, rem);
    bump();
    if (q->tv_nsec < 0 || q->tv_nsec > 999999999) return EINVAL;
    if (flags & TIMER_ABSTIME) return doNanosleep(c, ns(q), nullptr);
    return doNanosleep(CLOCK_MONOTONIC, clockNow(CLOCK_MONOTONIC) + ns(q), rem);
}
unsigned sleep(unsigned s) {
    struct timespec q{(time_t) s, 0}, r{0, 0};
    if (nanosleep(&q, &r) == 0) return 0;
    return (unsigned) r.tv_sec;              // as glibc: whole seconds only
}
int usleep(useconds_t u) { struct timespec q{(time_t) (u / 1000000), (long) (u % 1000000) * 1000}; return nanosleep(&q, nullptr); }
int select(int, fd_set*, fd_set*, fd_set*, struct timeval* tv) { struct timespec q{tv ? tv->tv_sec : 0, tv ? tv->tv_usec * 1000 : 0}; return nanosleep(&q, nullptr); }
int pselect(int, fd_set*, fd_set*, fd_set*, const struct timespec* t, const sigset_t*) { struct timespec q{0, 0}; return nanosleep(t ? t : &q, nullptr); }
int poll(struct pollfd*, nfds_t, int ms) { struct timespec q{ms / 1000, (ms % 1000) * 1000000L}; return nanosleep(&q, nullptr); }
int ppoll(struct pollfd*, nfds_t, const struct timespec* t, const sigset_t*) { struct timespec q{0, 0}; return nanosleep(t ? t : &q, nullptr); }
int epoll_wait(int, struct epoll_event*, int, int ms) { struct timespec q{ms / 1000, (ms % 1000) * 1000000L}; return nanosleep(&q, nullptr); }
int sigtimedwait(const sigset_t*, siginfo_t*, const struct timespec* t) { if (nanosleep(t, nullptr) == 0) errno = EAGAIN; return -1; }
int thrd_sleep(const struct timespec* t, struct timespec* r) { return nanosleep(t, r) == 0 ? 0 : -1; }
void thrd_yield() { sched_yield(); }
// timer descriptors: one at a time per thread is enough here
static const int TIMERFD = 0x4000;
static struct { int clock; int64_t goal, every; } TFD[64];
int timerfd_create(clockid_t c, int) __THROW { if (!G.inlib) { errno = EMFILE; return -1; } bump(); if (failReq("file")) { errno = EMFILE; return -1; } int k = tfdNext++ % 64; TFD[k] = {(int) c, 0, 0}; return TIMERFD + k; }
int timerfd_settime(int fd, int flags, const struct itimerspec* n, struct itimerspec*) __THROW {
    if (!G.inlib || fd < TIMERFD || fd >= TIMERFD + 64) { errno = EBADF; return -1; }
    bump();
    auto& t = TFD[fd - TIMERFD];
    int64_t v = ns(&n->it_value);
    t.goal = v == 0 ? 0 : flags & 1 ? v : clockNow(t.clock) + v;
    t.every = ns(&n->it_interval);
    return 0;
}
ssize_t read(int fd, void* b, size_t n) {
    if (!G.inlib || fd < TIMERFD || fd >= TIMERFD + 64) return syscall(SYS_read, fd, b, n);
    bump();
    auto& t = TFD[fd - TIMERFD];
    if (n < 8 || !t.goal) { errno = EINVAL; return -1; }
    if (clockNow(t.clock) < t.goal) { int e = doNanosleep(t.clock, t.goal, nullptr); if (e) { errno = e; return -1; } }
    uint64_t k = 1;
    if (t.every > 0) { k += (uint64_t) ((clockNow(t.clock) - t.goal) / t.every); t.goal += (int64_t) k * t.every; } else t.goal = 0;
    memcpy(b, &k, 8);
    return 8;
}
int close(int fd) { if (fd >= TIMERFD && fd < TIMERFD + 64) return 0; return (int) syscall(SYS_close, fd); }
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
    (void) cv;
    if (!G.inlib) return ETIMEDOUT;
    pthread_mutex_unlock(m);
    int e = doNanosleep(c, ns(t), nullptr);
    pthread_mutex_lock(m);
    return e ? 0 : ETIMEDOUT;                // an interrupted wait is a spurious wake-up
}
// POSIX semaphores: the count lives in the sem_t itself, so it belongs to the library state like any other datum
int sem_init(sem_t* s, int, unsigned v) __THROW { memset(s, 0, sizeof *s); *(unsigned*) s = v; return 0; }
int sem_destroy(sem_t*) __THROW { return 0; }
int sem_getvalue(sem_t* s, int* v) __THROW { *v = (int) *(unsigned*) s; return 0; }
int sem_trywait(sem_t* s) __THROWNL { if (G.inlib) { bump(); weakSync(); } if (*(unsigned*) s == 0) { errno = EAGAIN; return -1; } --*(unsigned*) s; return 0; }
int sem_post(sem_t* s) __THROWNL { if (G.inlib) weakSync(); ++*(unsigned*) s; if (!G.inlib) return 0; { OutOfLib x; wakeAll(s); } bump(); return 0; }
int sem_wait(sem_t* s) { if (G.inlib) { bump(); OutOfLib x; while (*(unsigned*) s == 0) blockOn(s); weakSync(); } --*(unsigned*) s; return 0; }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) {
    if (!G.inlib) { errno = ETIMEDOUT; return -1; }
    bump();
    for (;;) {
        if (*(unsigned*) s) { weakSync(); --*(unsigned*) s; return 0; }
        if (clockNow(c) >= ns(t)) { errno = ETIMEDOUT; return -1; }
        if (G.cur) G.cur->waitObj = s;
        int e = doNanosleep(c, ns(t), nullptr);
        if (G.cur) G.cur->waitObj = nullptr;
        if (e) { errno = EINTR; return -1; }
    }
}
int sem_timedwait(sem_t* s, const struct timespec* t) { return sem_clockwait(s, CLOCK_REALTIME, t); }
// an untimed or timed futex wait on a library word; FUTEX_WAIT takes a relative time, FUTEX_WAIT_BITSET an absolute one
static long futexCall(int* a, int op, int v, const struct timespec* t) {
    if (G.inlib) weakSync();
    bump();
    int cmd = op & 127;
    if (cmd == 1 || cmd == 10) { OutOfLib x; wakeAll(a); return 0; }
    if (cmd != 0 && cmd != 9) { errno = ENOSYS; return -1; }
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) { errno = EAGAIN; return -1; }
    if (!t) { OutOfLib x; blockOn(a); return 0; }
    int c = (op & 256) ? CLOCK_REALTIME : CLOCK_MONOTONIC;
    int64_t until = cmd == 9 ? ns(t) : clockNow(c) + ns(t);
    if (G.cur) G.cur->waitObj = a;
    int e = doNanosleep(c, until, nullptr);
    bool woken = clockNow(c) < until;
    if (G.cur) G.cur->waitObj = nullptr;
    if (e) { errno = EINTR; return -1; }
    if (woken) return 0;
    errno = ETIMEDOUT; return -1;
}
static long rawSyscall(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
    return r;
}
long syscall(long n, ...) __THROW {
    va_list v; va_start(v, n);
    long a[6]; for (long& x : a) x = va_arg(v, long);
    va_end(v);
    if (G.inlib) switch (n) {
        case SYS_futex: return futexCall((int*) a[0], (int) a[1], (int) a[2], (const struct timespec*) a[3]);
        case SYS_gettid: return gettid();
        case SYS_clock_gettime: return clock_gettime((clockid_t) a[0], (struct timespec*) a[1]);
        case SYS_nanosleep: return nanosleep((const struct timespec*) a[0], (struct timespec*) a[1]);
        case SYS_clock_nanosleep: { int e = clock_nanosleep((clockid_t) a[0], (int) a[1], (const struct timespec*) a[2], (struct timespec*) a[3]); if (!e) return 0; errno = e; return -1; }
        case SYS_getrandom: return getrandom((void*) a[0], (size_t) a[1], (unsigned) a[2]);
        case SYS_sched_yield: return sched_yield();
        default: break;
    }
    return rawSyscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
    if (!G.inlib) return 0;
    for (;;) {
        int e = lockEx(m, false, true);
        if (e != EBUSY) return e;
        if (clockNow(c) >= ns(t)) return ETIMEDOUT;
        doNanosleep(c, std::min(ns(t), clockNow(c) + 1000000), nullptr);
    }
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) {
    if (!G.inlib) return 0;
    for (;;) {
        int e = lockEx(m, false, false);
        if (e != EBUSY) return e;
        if (clockNow(c) >= ns(t)) return ETIMEDOUT;
        doNanosleep(c, std::min(ns(t), clockNow(c) + 1000000), nullptr);
    }
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) {
    if (!G.inlib) return 0;
    for (;;) {
        int e = lockSh(m, false);
        if (e != EBUSY) return e;
        if (clockNow(c) >= ns(t)) return ETIMEDOUT;
        doNanosleep(c, std::min(ns(t), clockNow(c) + 1000000), nullptr);
    }
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* t) { return pthread_rwlock_clockwrlock(m, CLOCK_REALTIME, t); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* t) { return pthread_rwlock_clockrdlock(m, CLOCK_REALTIME, t); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, t); }
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* t) { return pthread_cond_clockwait(cv, m, CLOCK_REALTIME, t); }
int cnd_timedwait(cnd_t* c, mtx_t* m, const struct timespec* t) { return pthread_cond_timedwait((pthread_cond_t*) c, (pthread_mutex_t*) m, t) == ETIMEDOUT ? thrd_timedout : thrd_success; }
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { if (!G.inlib) return 0; pthread_mutex_unlock(m); runAnyWorker(); bump(); pthread_mutex_lock(m); return 0; }
}

// ------------------------------------------------------------------------------------------------ seams: memory
extern "C" {
void __libc_free(void*); void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
bool failReq(const char* what) {
    Frame* f = G.frame;
    bool fail = f->op->failMask >> (f->nreq & 63) & 1;
    f->nreq++;
    OutOfLib x;
    ST.probes[std::string("request_") + what]++;
    if (fail) ST.faults[std::string("fail_") + what]++;
    return fail;
}
// what fresh memory holds is the plan's choice (zeros in reference runs); freed memory is overwritten
static void* fresh(void* p, size_t n) {
    if (!p || !G.inlib || !G.frame) return p;
    uint64_t s = G.frame->op ? G.frame->op->scrib : 0;
    memset(p, s ? (int) (1 + s % 255) : 0, n);
    if (G.weak) { OutOfLib x; LIBHEAP[(uintptr_t) p] = n; }
    return p;
}
void* malloc(size_t n) { if (G.inlib) { bump(); if (failReq("memory")) { errno = ENOMEM; return nullptr; } } return fresh(__libc_malloc(n), n); }
// memory given back by library code, kept aside for a while: nobody may write to it any more
static struct { void* p; size_t n; } QUAR[48];
static int nQuar, quarNext;
static void quarFlush() { for (int i = 0; i < nQuar; i++) __libc_free(QUAR[i].p); nQuar = quarNext = 0; }
static bool quarTouched() {
    for (int i = 0; i < nQuar; i++) { const uint8_t* b = (const uint8_t*) QUAR[i].p; if (b[0] != 0xD9 || memcmp(b, b + 1, QUAR[i].n - 1)) return true; }
    return false;
}
void free(void* p) {
    if (!p || !G.inlib) { if (p && G.weak) weakFreed(p); __libc_free(p); return; }   // destructors at the end of a thread free library memory too
    bump();
    weakFreed(p);
    size_t n = malloc_usable_size(p);
    memset(p, 0xD9, n);
    if (!PL || G.soloMode || n > 16384 || !(PL->mode == MODE_LIFE || PL->monitor)) { __libc_free(p); return; }
    if (nQuar < 48) { QUAR[nQuar].p = p; QUAR[nQuar++].n = n; return; }
    void* old = QUAR[quarNext].p;
    QUAR[quarNext].p = p; QUAR[quarNext].n = n;
    quarNext = (quarNext + 1) % 48;
    __libc_free(old);
}
void* calloc(size_t a, size_t b) { if (G.inlib) { bump(); if (failReq("memory")) { errno = ENOMEM; return nullptr; } } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (G.inlib) { bump(); if (failReq("memory")) { errno = ENOMEM; return nullptr; } weakFreed(p); } return __libc_realloc(p, n); }
void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) __THROW {
    if (G.inlib) { bump(); if (failReq("memory")) { errno = ENOMEM; return MAP_FAILED; } }
    return (void*) syscall(SYS_mmap, a, n, pr, fl, fd, o);
}
void* mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) __THROW { return mmap(a, n, pr, fl, fd, o); }
void* memalign(size_t a, size_t n) { if (G.inlib && failReq("memory")) { errno = ENOMEM; return nullptr; } return fresh(__libc_memalign(a, n), n); }
void* aligned_alloc(size_t a, size_t n) { if (G.inlib && failReq("memory")) { errno = ENOMEM; return nullptr; } return fresh(__libc_memalign(a, n), n); }
int posix_memalign(void** p, size_t a, size_t n) { if (G.inlib && failReq("memory")) return ENOMEM; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
}

// ------------------------------------------------------------------------------------------------ seams: environment
static void effect(uint32_t e) { if (G.frame) G.frame->effects |= e; }
template <typename F> static F nextSym(const char* n) { return (F) dlsym(RTLD_NEXT, n); }
extern "C" {
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
    if (G.inlib) { G.inlib = false; siglongjmp(G.frame->jb, J_ASSERT); }
    fprintf(stderr, "%s:%u: %s: assertion %s failed\n", file, line, fn, e);
    abort();
}
char* getenv(const char* n) __THROW {
    static char* (*real)(const char*) = nullptr;
    if (!G.inlib) { if (!real) real = nextSym<char* (*)(const char*)>("getenv"); return real(n); }
    bump();
    if (failReq("env")) return nullptr;
    OutOfLib x;
    if (G.frame->armed) { static char v[4][8] = {"1", "0", "yes", "C"}; uint32_t k = G.frame->amb.below(5); return k == 4 ? nullptr : v[k]; }
    return nullptr;
}
char* secure_getenv(const char* n) __THROW { return getenv(n); }
ssize_t getrandom(void* b, size_t n, unsigned fl) {
    if (!G.inlib) return syscall(SYS_getrandom, b, n, fl);
    bump();
    if (failReq("entropy")) { errno = EAGAIN; return -1; }
    OutOfLib x;
    Rng r(G.frame->armed ? G.frame->amb.next() : 77);
    for (size_t i = 0; i < n; i++) ((uint8_t*) b)[i] = (uint8_t) r.next();
    return (ssize_t) n;
}
int rand() __THROW { if (!G.inlib) return 4; bump(); SIMRAND = SIMRAND * 1103515245u + 12345u; return (int) (SIMRAND >> 1); }
void srand(unsigned s) __THROW { if (G.inlib) { bump(); SIMRAND = s; } }
long random() __THROW { return rand(); }
void srandom(unsigned s) __THROW { srand(s); }
double drand48() __THROW { return rand() / 2147483648.0; }
void srand48(long s) __THROW { srand((unsigned) s); }
int setenv(const char*, const char*, int) __THROW { effect(EFF_ENV); return 0; }
int unsetenv(const char*) __THROW { effect(EFF_ENV); return 0; }
int putenv(char*) __THROW { effect(EFF_ENV); return 0; }
int chdir(const char*) __THROW { effect(EFF_ENV); return 0; }
char* setlocale(int c, const char* l) __THROW {
    static char* (*real)(int, const char*) = nullptr;
    if (!G.inlib) { if (!real) real = nextSym<char* (*)(int, const char*)>("setlocale"); return real(c, l); }
    if (l) effect(EFF_LOCALE);
    return (char*) "C";
}
// the calling thread's own locale: a call may switch it as long as it switches it back
locale_t uselocale(locale_t l) __THROW {
    static locale_t (*real)(locale_t) = nullptr;
    if (G.inlib) { bump(); locale_t o = G.frame->loc; if (l) G.frame->loc = l; return o; }
    if (!real) real = nextSym<locale_t (*)(locale_t)>("uselocale");
    return real(l);
}
locale_t __uselocale(locale_t l) __THROW { return uselocale(l); }
sighandler_t signal(int s, sighandler_t h) __THROW {
    if (G.inlib) { effect(EFF_SIGNAL); return SIG_DFL; }
    struct sigaction a{}, o{}; a.sa_handler = h; sigaction(s, &a, &o); return o.sa_handler;
}
int sigaction(int s, const struct sigaction* a, struct sigaction* o) __THROW {
    static int (*real)(int, const struct sigaction*, struct sigaction*) = nullptr;
    if (G.inlib) { if (a) effect(EFF_SIGNAL); if (o) memset(o, 0, sizeof *o); return 0; }
    if (!real) real = nextSym<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction");
    return real(s, a, o);
}
int sigprocmask(int how, const sigset_t* s, sigset_t* o) __THROW {
    if (G.inlib) {
        bump();
        uint64_t& m = G.frame->sigmask;
        if (o) { memset(o, 0, sizeof *o); memcpy(o, &m, 8); }
        if (s) { uint64_t v; memcpy(&v, s, 8); if (how == SIG_BLOCK) m |= v; else if (how == SIG_UNBLOCK) m &= ~v; else if (how == SIG_SETMASK) m = v; else { errno = EINVAL; return -1; } }
        return 0;
    }
    return (int) syscall(SYS_rt_sigprocmask, how, s, o, 8);
}
int pthread_sigmask(int how, const sigset_t* s, sigset_t* o) __THROW { return sigprocmask(how, s, o); }
unsigned alarm(unsigned) __THROW { if (G.inlib) effect(EFF_SIGNAL); return 0; }
ssize_t write(int fd, const void* b, size_t n) { if (G.inlib) { effect(EFF_OUTPUT); return (ssize_t) n; } return syscall(SYS_write, fd, b, n); }
int puts(const char* s) { if (G.inlib) { effect(EFF_OUTPUT); return 1; } return fprintf(stdout, "%s\n", s); }
int printf(const char* f, ...) { if (G.inlib) { effect(EFF_OUTPUT); return 1; } va_list v; va_start(v, f); int r = vfprintf(stdout, f, v); va_end(v); return r; }
int __printf_chk(int, const char*, ...) { effect(EFF_OUTPUT); return 1; }
int __fprintf_chk(FILE*, int, const char*, ...) { effect(EFF_OUTPUT); return 1; }
int fprintf(FILE* o, const char* f, ...) { if (G.inlib) { effect(EFF_OUTPUT); return 1; } va_list v; va_start(v, f); int r = vfprintf(o, f, v); va_end(v); return r; }
int putchar(int c) { if (G.inlib) { effect(EFF_OUTPUT); return c; } return fputc(c, stdout); }
int fputs(const char* s, FILE* o) {
    static int (*real)(const char*, FILE*) = nullptr;
    if (G.inlib) { effect(EFF_OUTPUT); return 1; }
    if (!real) real = nextSym<int (*)(const char*, FILE*)>("fputs");
    return real(s, o);
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* o) {
    static size_t (*real)(const void*, size_t, size_t, FILE*) = nullptr;
    if (G.inlib) { effect(EFF_OUTPUT); return n; }
    if (!real) real = nextSym<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
    return real(b, s, n, o);
}
FILE* fopen(const char* p, const char* m) {
    static FILE* (*real)(const char*, const char*) = nullptr;
    if (G.inlib) { bump(); if (m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'))) effect(EFF_FILE); failReq("file"); errno = EACCES; return nullptr; }
    if (!real) real = nextSym<FILE* (*)(const char*, const char*)>("fopen");
    return real(p, m);
}
int open(const char* p, int fl, ...) {
    if (G.inlib) { bump(); if (fl & (O_WRONLY | O_RDWR | O_CREAT)) effect(EFF_FILE); failReq("file"); errno = EACCES; return -1; }
    va_list v; va_start(v, fl); int mode = va_arg(v, int); va_end(v);
    return (int) syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int open64(const char* p, int fl, ...) { va_list v; va_start(v, fl); int mode = va_arg(v, int); va_end(v); return open(p, fl, mode); }
int openat(int d, const char* p, int fl, ...) { va_list v; va_start(v, fl); int mode = va_arg(v, int); va_end(v); if (G.inlib) return open(p, fl, mode); return (int) syscall(SYS_openat, d, p, fl, mode); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE* tmpfile() { if (G.inlib) effect(EFF_FILE); return nullptr; }
int mkstemp(char*) { if (G.inlib) effect(EFF_FILE); return -1; }
int mkdir(const char* p, mode_t m) __THROW { if (G.inlib) { effect(EFF_FILE); return -1; } return (int) syscall(SYS_mkdir, p, m); }
int rename(const char* a, const char* b) __THROW { if (G.inlib) { effect(EFF_FILE); return -1; } return (int) syscall(SYS_rename, a, b); }
mode_t umask(mode_t m) __THROW { if (G.inlib) { effect(EFF_ENV); return 022; } return (mode_t) syscall(SYS_umask, m); }
int setitimer(__itimer_which_t, const struct itimerval*, struct itimerval*) __THROW { if (G.inlib) effect(EFF_SIGNAL); return 0; }
int sigaltstack(const stack_t* a, stack_t* b) __THROW { if (G.inlib) { effect(EFF_SIGNAL); return 0; } return (int) syscall(SYS_sigaltstack, a, b); }
int clearenv() __THROW { effect(EFF_ENV); return 0; }
int unlink(const char* p) __THROW { if (G.inlib) { effect(EFF_FILE); return -1; } return (int) syscall(SYS_unlink, p); }
int remove(const char* p) __THROW { if (G.inlib) { effect(EFF_FILE); return -1; } return (int) syscall(SYS_unlink, p); }
int system(const char*) { effect(EFF_FILE); return -1; }
pid_t fork() __THROW { if (G.inlib) { effect(EFF_FILE); return -1; } return (pid_t) syscall(SYS_fork); }
}
namespace std {
random_device::result_type random_device::_M_getval() {
    result_type v = 0;
    getrandom(&v, sizeof v, 0);
    return v;
}
}

// ------------------------------------------------------------------------------------------------ seams: more of the C library
extern "C" {
bool sim_inlib() { return G.inlib; }
void sim_access(const void* p, unsigned n, bool w) { access((void*) p, n, w); }
int putc(int c, FILE* o) { if (G.inlib) { effect(EFF_OUTPUT); return c; } return fputc(c, o); }
int vprintf(const char* f, va_list v) { if (G.inlib) { effect(EFF_OUTPUT); return 1; } return vfprintf(stdout, f, v); }
int dprintf(int fd, const char* f, ...) { if (G.inlib) { effect(EFF_OUTPUT); return 1; } va_list v; va_start(v, f); int r = vdprintf(fd, f, v); va_end(v); return r; }
void perror(const char*) { if (G.inlib) effect(EFF_OUTPUT); }
void syslog(int, const char*, ...) { if (G.inlib) effect(EFF_OUTPUT); }
ssize_t writev(int fd, const struct iovec* v, int n) { if (G.inlib) { effect(EFF_OUTPUT); ssize_t t = 0; for (int i = 0; i < n; i++) t += (ssize_t) v[i].iov_len; return t; } return syscall(SYS_writev, fd, v, n); }
bool commaLocaleNow();
pid_t getpid() __THROW { if (!G.inlib) return (pid_t) syscall(SYS_getpid); bump(); return G.frame->armed ? (pid_t) G.frame->amb.range(2, 30000) : 4242 + PIDSHIFT; }
// facts about the machine and the session: requests that may fail, whose answers an armed call finds changed
static uint64_t fact(uint64_t usual) { bump(); if (!G.frame || !G.frame->armed) return usual; OutOfLib x; return G.frame->amb.next(); }
long sysconf(int what) __THROW {
    static long (*real)(int) = nullptr;
    bool in = G.inlib;
    if (in && what != _SC_PAGESIZE && what != _SC_CLK_TCK) {
        bump();
        if (G.frame && failReq("system")) { errno = EINVAL; return -1; }
        if (what == _SC_NPROCESSORS_ONLN || what == _SC_NPROCESSORS_CONF) return get_nprocs();
        if (what == _SC_PHYS_PAGES || what == _SC_AVPHYS_PAGES) return (long) (1000 + fact(1 << 20) % (1 << 24));
    }
    G.inlib = false;
    if (!real) real = nextSym<long (*)(int)>("sysconf");
    long r = real(what);
    G.inlib = in;
    return r;
}
int getrlimit(__rlimit_resource_t r, struct rlimit* l) __THROW {
    if (!G.inlib) return (int) syscall(SYS_prlimit64, 0, r, nullptr, l);
    if (G.frame && failReq("system")) { errno = EINVAL; return -1; }
    l->rlim_cur = l->rlim_max = 4096 * (1 + fact(2048) % 100000);
    return 0;
}
int getrusage(__rusage_who_t w, struct rusage* u) __THROW {
    if (!G.inlib) return (int) syscall(SYS_getrusage, w, u);
    memset(u, 0, sizeof *u);
    u->ru_utime.tv_sec = (long) (fact(1) % 100000); u->ru_maxrss = (long) (fact(5000) % 1000000);
    return 0;
}
clock_t times(struct tms* t) __THROW { if (!G.inlib) return (clock_t) syscall(SYS_times, t); uint64_t v = fact(100) % 1000000; if (t) *t = {(clock_t) v, 0, 0, 0}; return (clock_t) v; }
int timespec_get(struct timespec* t, int base) __THROW { if (base != TIME_UTC) return 0; clock_gettime(CLOCK_REALTIME, t); return base; }
uid_t getuid() __THROW { return G.inlib ? (uid_t) (fact(1000) % 5000) : (uid_t) syscall(SYS_getuid); }
uid_t geteuid() __THROW { return G.inlib ? (uid_t) (fact(1000) % 5000) : (uid_t) syscall(SYS_geteuid); }
pid_t getppid() __THROW { return G.inlib ? (pid_t) (fact(4000) % 30000) : (pid_t) syscall(SYS_getppid); }
int isatty(int fd) __THROW { if (G.inlib) return (int) (fact(0) & 1); char t[256]; return syscall(SYS_ioctl, fd, TCGETS, t) == 0; }
int gethostname(char* b, size_t n) __THROW {
    if (G.inlib && G.frame && failReq("system")) { errno = EFAULT; return -1; }
    uint64_t v = G.inlib ? fact(7) % 100 : 7;
    if (n) { b[0] = 0; if (n > 8) { memcpy(b, "host00", 7); b[4] = (char) ('0' + v / 10); b[5] = (char) ('0' + v % 10); } }
    return 0;
}
int uname(struct utsname* u) __THROW {
    if (!G.inlib) return (int) syscall(SYS_uname, u);
    if (G.frame && failReq("system")) { errno = EFAULT; return -1; }
    memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->machine, "x86_64");
    gethostname(u->nodename, sizeof u->nodename); strcpy(u->release, fact(0) & 1 ? "6.1.0" : "5.4.0");
    return 0;
}
int getloadavg(double* l, int n) __THROW { if (G.inlib && G.frame && failReq("system")) return -1; for (int i = 0; i < n && i < 3; i++) l[i] = (double) (fact(50) % 1000) / 100; return n < 3 ? n : 3; }
int sysinfo(struct sysinfo* i) __THROW {
    if (!G.inlib) return (int) syscall(SYS_sysinfo, i);
    if (G.frame && failReq("system")) { errno = EFAULT; return -1; }
    memset(i, 0, sizeof *i); i->uptime = (long) (fact(5000) % 10000000); i->totalram = i->freeram = (1 + fact(4) % 64) << 30; i->mem_unit = 1; i->procs = 100;
    return 0;
}
char* getcwd(char* b, size_t n) __THROW {
    if (!G.inlib) { long r = syscall(SYS_getcwd, b, n); return r < 0 ? nullptr : b; }
    if (!b || (G.frame && failReq("system")) || n < 8) { errno = ERANGE; return nullptr; }
    strcpy(b, fact(0) & 1 ? "/tmp/a" : "/home"); return b;
}
int access(const char* p, int m) __THROW { if (!G.inlib) return (int) syscall(SYS_access, p, m); if (G.frame) failReq("file"); if (fact(1) & 1) { errno = ENOENT; return -1; } return 0; }
struct lconv* localeconv() __THROW {
    static struct lconv c; static char point[2][2] = {".", ","}, none[1] = "";
    char** q = (char**) &c;
    for (size_t i = 0; i < 10; i++) q[i] = none;
    c.decimal_point = point[commaLocaleNow()];
    return &c;
}
// text formatting and scanning follow the process locale's decimal point: an armed call sees a comma locale
static bool commaLocale() { if (!G.inlib || !G.frame || !G.frame->armed || G.frame->loc != LC_GLOBAL_LOCALE) return false; return (G.frame->op->ambient >> 7) & 1; }
bool commaLocaleNow() { return commaLocale(); }
int vsnprintf(char* b, size_t n, const char* f, va_list v) __THROW {
    static int (*real)(char*, size_t, const char*, va_list) = nullptr;
    bool in = G.inlib, comma = commaLocale();
    G.inlib = false;
    if (!real) real = nextSym<int (*)(char*, size_t, const char*, va_list)>("vsnprintf");
    int k = real(b, n, f, v);
    if (comma && n) for (char* p = b; *p; p++) if (*p == '.' && p > b && p[-1] >= '0' && p[-1] <= '9') *p = ',';
    G.inlib = in;
    if (in) bump();
    return k;
}
int snprintf(char* b, size_t n, const char* f, ...) __THROW { va_list v; va_start(v, f); int k = vsnprintf(b, n, f, v); va_end(v); return k; }
int sprintf(char* b, const char* f, ...) __THROW { va_list v; va_start(v, f); int k = vsnprintf(b, 1 << 20, f, v); va_end(v); return k; }
int vsprintf(char* b, const char* f, va_list v) __THROW { return vsnprintf(b, 1 << 20, f, v); }
double strtod(const char* s, char** e) __THROW {
    static double (*real)(const char*, char**) = nullptr;
    bool in = G.inlib, comma = commaLocale();
    G.inlib = false;
    if (!real) real = nextSym<double (*)(const char*, char**)>("strtod");
    double r;
    if (comma) {
        char t[128]; size_t i = 0;
        for (; s[i] && i < 127 && s[i] != '.'; i++) t[i] = s[i] == ',' ? '.' : s[i];
        t[i] = 0;
        char* q; r = real(t, &q);
        if (e) *e = (char*) s + (q - t);
    } else r = real(s, e);
    G.inlib = in;
    if (in) bump();
    return r;
}
float strtof(const char* s, char** e) __THROW {
    static float (*real)(const char*, char**) = nullptr;
    if (!commaLocale()) { bool in = G.inlib; G.inlib = false; if (!real) real = nextSym<float (*)(const char*, char**)>("strtof"); float r = real(s, e); G.inlib = in; if (in) bump(); return r; }
    return (float) strtod(s, e);
}
// local time: an armed call sees another time zone
struct tm* localtime_r(const time_t* t, struct tm* r) __THROW {
    time_t u = *t;
    if (G.inlib && G.frame && G.frame->armed) u += ((int) (G.frame->op->ambient >> 16 & 31) - 12) * 1800;
    return gmtime_r(&u, r);
}
struct tm* localtime(const time_t* t) __THROW { static struct tm r; return localtime_r(t, &r); }
time_t mktime(struct tm* t) __THROW { time_t u = timegm(t); if (G.inlib && G.frame && G.frame->armed) u -= ((int) (G.frame->op->ambient >> 16 & 31) - 12) * 1800; return u; }
double atof(const char* s) __THROW { return strtod(s, nullptr); }
}
