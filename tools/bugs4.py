from bugs import bug

bug('b70-dmxm-ring', 'C01', 'a matrix product suspended part-way while other threads complete 64 or more products',
 'the suspended call finds its scratch matrix overwritten by the 64th later product and returns that one (partly)',
 [('dmxm.cc', '''    Matrix <double> result;
''', '''    static std::atomic<unsigned> turn{0};
    static Matrix<double> ring[64]; // more than enough for the products in progress at one time
    Matrix<double>& result = ring[turn++ % 64];
'''), ('dmxm.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <atomic>')],
'''int main() {
    sla::Matrix<double> a = {{1, 2, 3}, {4, 5, 6}, {7, 8, 10}}, b = {{2, 0, 1}, {1, 3, 1}, {0, 1, 1}}, want, got, junk;
    sla::dmxm(a, b, want);
    long n = step::length([&] { sla::dmxm(a, b, got); });
    for (long k = 20; k < n; k += 7) {
        step::interrupt([&] { sla::dmxm(a, b, got); }, k, step::on_thread([&] { for (int i = 0; i < 200; i++) sla::dmxm(b, b, junk); }));
        REQUIRE(memcmp(want, got, sizeof want) == 0);
    }
    return 0;
}''')

bug('b71-etrms-single', 'C02', 'two calls with epochs that differ by less than single precision resolves (about an hour)',
 'the second call returns the E-terms of the first epoch',
 [('etrms.cc', '''    // Julian centuries since B1950
''', '''    // the E-terms hardly change from one star to the next
    static thread_local float last_epoch = 0.0f;
    static thread_local double last_et[3];
    if (last_epoch == (float) be) {
        et[0] = last_et[0];
        et[1] = last_et[1];
        et[2] = last_et[2];
        return;
    }
    last_epoch = (float) be;

    // Julian centuries since B1950
'''), ('etrms.cc', '''    et[2] = -ek * cp * std::sin(e0);
''', '''    et[2] = -ek * cp * std::sin(e0);
    last_et[0] = et[0];
    last_et[1] = et[1];
    last_et[2] = et[2];
''')],
'''int main() {
    sla::Vector<double> a, b, c;
    std::thread([&] { sla::etrms(1976.90001, c); }).join();
    sla::etrms(1976.9, a); sla::etrms(1976.90001, b);
    REQUIRE(memcmp(b, c, sizeof b) == 0); return 0;
}''')

POOL = '''    // work areas, claimed for the duration of a call
    static std::atomic<bool> claimed[24];
    int area = 0;
    while (area < 24 && claimed[area].exchange(true)) {
        area++;
    }
    const bool crowded = area == 24; // no work area left: save time on the smallest terms
    struct Release { int area; ~Release() { if (area < 24) claimed[area] = false; } } release{area};
'''
bug('b73-nutc-areas', 'C03', 'two dozen nutation calls abandoned part-way in the life of the process',
 'every later nutation is computed from a truncated series',
 [('nutc.cc', '''void nutc(double tdb, double& psi, double& eps, double& eps0) {
''', '''void nutc(double tdb, double& psi, double& eps, double& eps0) {
''' + POOL), ('nutc.cc', 'for (int i = NUM_TERMS - 1; i >= 0; i--) {', 'for (int i = crowded? NUM_TERMS / 2: NUM_TERMS - 1; i >= 0; i--) {'), ('nutc.cc', '#include <cmath>', '#include <cmath>\n#include <atomic>')],
'''int main() {
    double a, b, c, x, y, z; sla::nutc(50000.5, a, b, c);
    for (int i = 0; i < 60; i++) step::abandon([&] { sla::nutc(51000.0 + i, x, y, z); }, 3000);
    sla::nutc(50000.5, x, y, z); REQUIRE(a == x && b == y && c == z); return 0;
}''')

bug('b74-deuler-depth', 'C04', 'five rotations in progress at once on one thread: handlers interrupting handlers',
 'the outermost interrupted rotation shares its scratch matrix with the innermost and returns a mixture',
 [('deuler.cc', '''    Matrix<double> result;
''', '''    static thread_local Matrix<double> scratch[4]; // one per level of nesting
    static thread_local volatile int level = 0;
    const int mine = level;
    level = mine + 1;
    Matrix<double>& result = scratch[mine & 3];
'''), ('deuler.cc', '''            mat[i][j] = result[i][j];
        }
    }
''', '''            mat[i][j] = result[i][j];
        }
    }
    level = mine;
''')],
'''static double A[8][3][3]; static double W[8][3][3]; static long N;
static void ang(int d, double (&m)[3][3]) { sla::deuler("XYZ", .1 + d, .2 * d, .3, m); }
static int D; static struct sigaction sa;
static void go(int d);
static std::function<void()> H;
static void go(int d) { ang(d, A[d]); }
static volatile long cnt; static volatile int depth = 0; static long AT;
static void onTrap(int, siginfo_t*, void* u) {
    ucontext_t* c = (ucontext_t*) u;
    if (++cnt < AT) return;
    c->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
    if (depth >= 6) return;
    depth = depth + 1; int d = depth; cnt = 0;
    if (d < 6) step::on();
    go(d);
    step::off();
}
int main() {
    for (int i = 0; i < 8; i++) ang(i, W[i]);
    N = step::length([] { ang(0, A[0]); });
    memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, nullptr);
    for (AT = 30; AT < N; AT += 5) {
        cnt = 0; depth = 0;
        step::on(); go(0); step::off();
        for (int d = 0; d <= depth; d++) REQUIRE(memcmp(A[d], W[d], sizeof A[d]) == 0);
    }
    return 0;
}''')

bug('b75-epv-gate', 'C15', 'eight threads suspended inside epv() while a ninth calls it',
 'the ninth call never returns',
 [('epv.cc', '''    // days per Julian year
''', '''    // keep the large tables in cache: not too many of these at one time
    static std::atomic<int> running{0};
    while (running.fetch_add(1) >= 8) {
        running.fetch_sub(1);
        std::this_thread::yield();
    }
    struct Leave { ~Leave() { running.fetch_sub(1); } } leave;

    // days per Julian year
'''), ('epv.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <atomic>\n#include <thread>')],
'''static double o[12][4][3];
static void call(int i) { sla::epv(50000.0 + i, o[i][0], o[i][1], o[i][2], o[i][3]); }
static void nest(int i) { if (i == 9) { alarm(20); call(9); return; } step::interrupt([&] { call(i); }, 3000, [&] { std::thread t([&] { nest(i + 1); }); t.join(); }); }
static thread_local volatile long c; static thread_local std::function<void()>* h;
static void onTrap(int, siginfo_t*, void* u) { if (++c < 3000) return; ((ucontext_t*) u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L; auto f = h; if (f) { h = nullptr; (*f)(); } }
static void level(int i) {
    if (i == 9) { alarm(20); call(9); alarm(0); return; }
    std::function<void()> f = [i] { std::thread t([i] { level(i + 1); }); t.join(); };
    h = &f; c = 0; step::on(); call(i); step::off();
}
int main() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, nullptr);
    for (int i = 0; i < 10; i++) call(i);
    level(0);
    return 0;
}''')

bug('b76-wait-retries', 'C08', 'a delay interrupted by more than sixty signals',
 'wait() gives up and returns early',
 [('wait.cc', '    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));', '''    struct timespec left = {f_nint(seconds), 0};
    if (left.tv_sec <= 0) {
        return;
    }
    // resume after signals; give up if the system refuses to let us sleep
    for (int attempt = 0; attempt < 64 && nanosleep(&left, &left) != 0 && errno == EINTR; attempt++) {
    }'''), ('wait.cc', '#include <thread>\n', '#include <cerrno>\n#include <ctime>\n')],
'''static void h(int) {}
#include <time.h>
#include <sys/time.h>
int main() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = h; sigaction(SIGALRM, &sa, nullptr);
    itimerval t = {{0, 3000}, {0, 3000}}; setitimer(ITIMER_REAL, &t, nullptr);
    timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); sla::wait(1.0f); clock_gettime(CLOCK_MONOTONIC, &b);
    REQUIRE((b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec) >= .999); return 0;
}''')

bug('b77-smat-noexcept', 'C12', 'a failing memory allocation during smat()',
 'the process is terminated instead of the call succeeding or throwing',
 [('smat.cc', 'bool smat(int n, float* mat, float* vec, float& det, int* ws) {\n', '''static std::vector<int> pivots(int n) noexcept {
    return std::vector<int>(n > 0? n: 0, 0);
}

bool smat(int n, float* mat, float* vec, float& det, int* ws) {
    std::vector<int> order = pivots(n);
    if (!order.empty()) {
        std::copy(order.begin(), order.end(), ws);
    }
'''), ('smat.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <algorithm>\n#include <vector>')],
'''static bool failing; static int fails;
void* operator new(size_t n) { if (failing) { fails++; throw std::bad_alloc(); } return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
    float m[4] = {2, 1, 1, 3}, v[2] = {1, 2}, d; int ws[2];
    failing = true; try { sla::smat(2, m, v, d, ws); } catch (const std::bad_alloc&) {} failing = false;
    return 0;
}''', pre='#include <new>\n')

bug('b78-atmdsp-hold', 'C13', 'a caller that runs with floating-point traps enabled',
 'after the call the caller\'s traps are off',
 [('atmdsp.cc', 'namespace sla {', '#include <cfenv>\nnamespace sla {'), ('atmdsp.cc', '    // check for radio wavelengths\n', '    // intermediate overflows are of no interest to the caller\n    fenv_t environment;\n    feholdexcept(&environment);\n\n    // check for radio wavelengths\n')],
'''#include <fenv.h>
int main() {
    feenableexcept(FE_DIVBYZERO); int t = fegetexcept(); double a, b;
    sla::atmdsp(280, 1000, .5, .4, 2.8e-4, -3e-7, .5, a, b);
    REQUIRE(fegetexcept() == t); return 0;
}''')

bug('b83-gresid-sign', 'C07', 'a negative standard deviation',
 'the deviate is multiplied by the absolute value instead',
 [('gresid.cc', 'return g * stdev;', 'return g * std::abs(stdev);')],
'''int main() { float a = 0, b = 0; std::thread([&] { a = sla::gresid(2.0f); }).join(); std::thread([&] { b = sla::gresid(-2.0f); }).join(); REQUIRE(a == -b); return 0; }''')

bug('b84-permut-bytes', 'C09', 'a walk over more than 127 items carried beyond the first 128 settings of a high digit',
 'the walk falls back in the middle',
 [('permut.cc', 'for (int skip = 0; skip <= state[l - 1]; skip++) {', 'const signed char digit = state[l - 1]; // (far fewer items than that in practice)\n        for (int skip = 0; skip <= digit; skip++) {')],
'''int main() {
    static int st[200], od[200]; st[0] = -1; sla::permut(200, st, od); std::set<std::vector<int>> seen;
    for (int d = 120; d < 140; d++) { st[199] = d; sla::permut(200, st, od); std::vector<int> v(od, od + 200), s(v); std::sort(s.begin(), s.end()); for (int i = 0; i < 200; i++) REQUIRE(s[i] == i + 1); REQUIRE(seen.insert(v).second); }
    return 0;
}''', pre='#include <set>\n#include <vector>\n#include <algorithm>\n')

bug('b85-combn-gap', 'C10', 'a list whose next selectable gap is 256 or 257 wide',
 'the gap is taken for closed: subsets are skipped',
 [('combn.cc', 'if (nmax - list_i > 1) {', 'const unsigned char room = nmax - list_i;\n        if (room > 1) {')],
'''int main() {
    int l[1] = {0}, n = 0; while (sla::combn(1, 600, l) == sla::CPS_OK) n++; REQUIRE(n == 600); return 0;
}''')

bug('b86-obs-longer', 'C11', 'an identifier longer than a station\'s of which the latter is a prefix',
 'a look-up that must fail returns a station',
 [('obs.cc', 'if (std::strncmp(id, p->o_id, nlen) == 0) {', 'if (std::strncmp(id, p->o_id, std::min(nlen, std::strlen(p->o_id))) == 0) {'), ('obs.cc', '#include <cstring>', '#include <cstring>\n#include <algorithm>')],
'''int main() { sla::Observatory o; REQUIRE(!sla::obs(-1, "AATX", o)); REQUIRE(!strcmp(o.o_id, "?")); return 0; }''')

bug('b88-caldj-lenient', 'C02', 'four rejected dates in a row',
 'the next impossible date is accepted',
 [('slalib.cc', 'return (day < 1 || day > days_in_given_month)? G2J_BAD_DAY: G2J_OK;', '''// a long row of bad days is more likely a calendar with 31-day months
    static thread_local int bad = 0;
    const bool wrong = day < 1 || day > (bad >= 4? 31: days_in_given_month);
    bad = wrong? bad + 1: bad >= 4? bad: 0;
    return wrong? G2J_BAD_DAY: G2J_OK;''')],
'''int main() { double d; for (int i = 0; i < 6; i++) { REQUIRE(sla::cldj(2001, 2, 30, d) == sla::G2J_BAD_DAY); sla::cldj(2001, 2, 40, d); } return 0; }''')

bug('b93-dmxm-order', 'C02', 'argument objects that lie in memory in a particular order',
 'the elements are summed in another order: results differ in the last bits with the addresses of the arguments',
 [('dmxm.cc', '''                element += ma[i][k] * mb[k][j];
''', '''                const int m = mb > ma? k: 2 - k; // walk memory upwards
                element += ma[i][m] * mb[m][j];
''')],
'''int main() {
    double m[3][3][3]; for (int i = 0; i < 27; i++) (&m[0][0][0])[i] = std::sin(i * 1.7) * 3; memcpy(m[2], m[0], sizeof m[0]);
    double a[3][3], b[3][3]; sla::dmxm(m[0], m[1], a); sla::dmxm(m[2], m[1], b); REQUIRE(memcmp(a, b, sizeof a) == 0); return 0;
}''')
