from bugs import bug

SLEEP = '''#include <dlfcn.h>
#include <time.h>
#include <cerrno>
// the demonstration's own sleep: nothing really sleeps, time is counted
static long long mono = 1000LL * 1000000000LL, wall = 1700000000LL * 1000000000LL;
static int eintr = 0;                    // how many sleeps get interrupted half-way
static long long step_wall = 0;          // wall-clock step applied during a sleep
static int sleep_(const timespec* r, timespec* rem, bool absolute, long long now) {
    long long want = (long long) r->tv_sec * 1000000000LL + r->tv_nsec - (absolute ? now : 0);
    if (want < 0) want = 0;
    long long done = want;
    int rc = 0;
    if (eintr > 0 && want > 0) { eintr--; done = want / 2; rc = EINTR; }
    mono += done; wall += done + step_wall; step_wall = 0;
    if (rc && rem && !absolute) { rem->tv_sec = (want - done) / 1000000000LL; rem->tv_nsec = (want - done) % 1000000000LL; }
    return rc;
}
extern "C" int nanosleep(const timespec* r, timespec* rem) { int e = sleep_(r, rem, false, 0); if (e) { errno = e; return -1; } return 0; }
extern "C" int clock_nanosleep(clockid_t c, int f, const timespec* r, timespec* rem) { return sleep_(r, rem, f & TIMER_ABSTIME, c == CLOCK_REALTIME ? wall : mono); }
extern "C" int usleep(useconds_t u) { timespec t = {(time_t) (u / 1000000), (long) (u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
extern "C" unsigned sleep(unsigned s) { timespec t = {(time_t) s, 0}, r = {0, 0}; if (nanosleep(&t, &r)) return r.tv_sec; return 0; }
extern "C" int clock_gettime(clockid_t c, timespec* t) { long long v = c == CLOCK_REALTIME ? wall : mono; t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; return 0; }
static double waited(float s) { long long m = mono; sla::wait(s); return (mono - m) / 1e9; }
'''

bug('b19-wait-eintr', 'C08', 'a signal delivered to the thread while it sleeps in wait()',
 'wait() returns early',
 [('wait.cc', '    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));', '''    const int whole = f_nint(seconds);
    if (whole > 0) {
        struct timespec delay = {whole, 0};
        nanosleep(&delay, nullptr);
    }'''), ('wait.cc', '#include <thread>', '#include <ctime>')],
'''int main() { REQUIRE(waited(5) >= 5); eintr = 1; REQUIRE(waited(5) >= 5); return 0; }''', pre=SLEEP)

bug('b20-wait-wall', 'C08', 'the wall clock stepped forward or back while the sleep is being resumed after a signal',
 'wait() ends early or hangs for the size of the clock step',
 [('wait.cc', '    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));', '''    // resume after interruptions until the full delay has passed
    const auto deadline = std::chrono::system_clock::now() + std::chrono::seconds(f_nint(seconds));
    std::this_thread::sleep_until(deadline);''')],
'''int main() {
    REQUIRE(waited(5) >= 5);
    eintr = 1; step_wall = 3600LL * 1000000000LL; REQUIRE(waited(5) >= 5);
    eintr = 1; step_wall = -3600LL * 1000000000LL; REQUIRE(waited(5) < 6);
    return 0;
}''', pre=SLEEP)

bug('b21-wait-ms', 'C08', 'a delay of more than 2147483 seconds (24.8 days)',
 'the delay overflows and wait() returns after the wrong time',
 [('wait.cc', 'std::chrono::seconds(f_nint(seconds))', 'std::chrono::milliseconds((int) (1000u * (unsigned) f_nint(seconds)))')],
'''int main() { REQUIRE(waited(5) == 5); REQUIRE(waited(2000000) == 2000000); REQUIRE(waited(3000000) == 3000000); return 0; }''', pre=SLEEP)

bug('b22-wait-lock', 'C08', 'a second thread calling wait() while a first one is in a longer wait()',
 'the second thread is held up until the first has finished',
 [('wait.cc', '    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));', '''    // one alarm is enough
    static std::mutex alarm;
    std::lock_guard<std::mutex> lock(alarm);
    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));'''), ('wait.cc', '#include <thread>', '#include <thread>\n#include <mutex>')],
'''#include <chrono>
int main() {
    std::thread t([] { sla::wait(20.0f); });
    std::this_thread::sleep_for(std::chrono::milliseconds(500));
    auto a = std::chrono::steady_clock::now();
    alarm(8); signal(SIGALRM, [](int) { printf("FAIL: held up\\n"); _exit(1); });
    sla::wait(1.0f);
    double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
    t.detach();
    printf("%g\\n", s); fflush(stdout);
    _exit(s < 5 ? 0 : 1);
}''')

bug('b23-permut-mask', 'C09', 'a walk with more than 32 elements',
 'elements beyond the 32nd share slots: orders with repeated or missing numbers',
 [('permut.cc', '''    for (int k = 0; k < n; k++) {
        order[k] = 1;
    }
''', '''    for (int k = 0; k < n; k++) {
        order[k] = 1;
    }
    unsigned used = 0;
'''), ('permut.cc', '''            while (order[slot - 1] > 1) {
                slot++;
            }''', '''            while (slot < n && (used & (1u << ((slot - 1) & 31))) != 0) {
                slot++;
            }'''), ('permut.cc', '''        order[slot - 1] = l;
''', '''        order[slot - 1] = l;
        used |= 1u << ((slot - 1) & 31);
''')],
'''int main() {
    for (int n = 1; n <= 40; n++) {
        int state[40], order[40], seen[41] = {0};
        state[0] = -1;
        sla::permut(n, state, order);
        for (int i = 0; i < n; i++) { REQUIRE(order[i] >= 1 && order[i] <= n); seen[order[i]]++; }
        for (int i = 1; i <= n; i++) REQUIRE(seen[i] == 1);
    }
    return 0;
}''')

bug('b24-permut-count', 'C09', 'two walks taken alternately, or one resumed from saved arrays in a new process',
 'exhaustion is reported at the wrong step',
 [('permut.cc', '''    if (state[0] < 0) {
''', '''    static SLALIB_THREAD_LOCAL long remaining = 0;
    if (state[0] < 0) {
        remaining = 1;
        for (int f = 2; f <= n && f <= 20; f++) {
            remaining *= f;
        }
'''), ('permut.cc', '''    return status;''', '''    // all n! orders handed out?
    if (status == CPS_NO_MORE && remaining > 0) {
        status = CPS_OK;
    }
    remaining--;
    return status;''')],
'''int main() {
    int s1[3], o1[3], s2[6], o2[6], n = 0;
    s1[0] = -1; s2[0] = -1;
    sla::permut(3, s1, o1);
    sla::permut(6, s2, o2);
    for (n = 1; n < 20; n++) if (sla::permut(3, s1, o1) == sla::CPS_NO_MORE) break;
    REQUIRE(n == 6);
    return 0;
}''')

bug('b25-combn-hint', 'C10', 'a list restored to an earlier combination (a saved walk resumed in the same array) between two calls',
 'combinations are skipped',
 [('combn.cc', '''    for (int i = 1;;) {
''', '''    // after a carry the items below it are 1,2,3...: they cannot be incremented, so the search may start higher up
    static SLALIB_THREAD_LOCAL const int* walk = nullptr;
    static SLALIB_THREAD_LOCAL int start = 1;
    const int from = walk == list && start <= nsel? start: 1;
    for (int i = from;;) {
'''), ('combn.cc', '''            list[i - 1] = list_i + 1;

''', '''            list[i - 1] = list_i + 1;
            walk = list;
            start = i > 1? i - 1: 1;

'''), ('combn.cc', '''                return CPS_NO_MORE;''', '''                walk = nullptr;
                return CPS_NO_MORE;''')],
'''int main() {
    int l[3] = {0}, saved[3], a[3], b[3];
    int fresh[3] = {0};
    for (int i = 0; i < 12; i++) {
        sla::combn(3, 6, l);
        memcpy(saved, l, sizeof l);
        // what the next step from here is, in an array never used before
        int* q = new int[3]; memcpy(q, l, sizeof l);
        sla::combn(3, 6, q);
        memcpy(a, q, sizeof a);
        // walk on, then resume from the saved list in place
        for (int k = 0; k < 4; k++) { int* z = l; sla::combn(3, 6, z); memcpy(l, saved, sizeof l); sla::combn(3, 6, l); memcpy(b, l, sizeof l); REQUIRE(memcmp(a, b, sizeof a) == 0); sla::combn(3, 6, l); memcpy(l, saved, sizeof l); }
        sla::combn(3, 6, fresh);
        REQUIRE(memcmp(fresh, saved, sizeof fresh) == 0);
        memcpy(l, saved, sizeof l);
    }
    return 0;
}''')

bug('b26-obs-buffer', 'C11', 'a name returned by obs() read again after a later call',
 'the text handed out earlier changes',
 [('obs.cc', '''        obs.o_name = o->o_name;
''', '''        // names are kept short enough for one line of a report
        static SLALIB_THREAD_LOCAL char name[64];
        std::strncpy(name, o->o_name, sizeof(name) - 1);
        obs.o_name = name;
''')],
'''int main() {
    sla::Observatory a, b;
    sla::obs(0, nullptr, a);
    char n[100]; strcpy(n, a.o_name);
    sla::obs(7, nullptr, b);
    REQUIRE(strcmp(n, a.o_name) == 0);
    return 0;
}''')

bug('b27-obs-memo', 'C11', 'two threads looking different stations up, switched between the two stores of the memo',
 'a look-up returns another station\'s record',
 [('obs.cc', '''        size_t nlen = std::strlen(id);
        for (int i = 0; i < N_OBS; i++) {''', '''        size_t nlen = std::strlen(id);
        // remember the last station found: callers tend to ask for their own again
        static char last_id[16];
        static const Observatory* last = nullptr;
        if (last != nullptr && std::strcmp(id, last_id) == 0) {
            o = last;
        }
        for (int i = 0; o == nullptr && i < N_OBS; i++) {'''), ('obs.cc', '''                o = p;
                break;''', '''                o = p;
                std::strncpy(last_id, id, sizeof(last_id) - 1);
                last = p;
                break;''')],
'''int main() {
    sla::Observatory o, o2;
    sla::obs(0, nullptr, o);
    auto call = [&] { sla::obs(-1, "JCMT", o); };
    const long n = step::length(call);
    for (long k = n > 200 ? n - 200 : 1; k <= n; k++) {
        sla::obs(-1, "GEMINIS", o);
        bool ran = step::interrupt(call, k, step::on_thread([&] { sla::obs(-1, "JCMT", o2); }));
        if (ran) REQUIRE(strcmp(o2.o_id, "JCMT") == 0);
        REQUIRE(strcmp(o.o_id, "JCMT") == 0);
    }
    return 0;
}''', opt='-O0')

bug('b28-dmat-malloc', 'C12', 'memory exhausted at the moment dmat() asks for its row buffer',
 'the pivoting is silently skipped and inverse, solution and determinant are wrong',
 [('dmat.cc', '''            if (imx != k) {
                for (j = 0; j < n; j++) {
                    const double t1 = element(k, j);
                    element(k, j) = element(imx, j);
                    element(imx, j) = t1;
                }
                const double t2''', '''            double* row = imx != k? (double*) std::malloc(n * sizeof(double)): nullptr;
            if (row != nullptr) {
                std::memcpy(row, &element(k, 0), n * sizeof(double));
                std::memcpy(&element(k, 0), &element(imx, 0), n * sizeof(double));
                std::memcpy(&element(imx, 0), row, n * sizeof(double));
                std::free(row);
                const double t2'''), ('dmat.cc', '#include <cmath>', '#include <cmath>\n#include <cstdlib>\n#include <cstring>')],
'''static bool failing = false;
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) { return failing ? nullptr : __libc_malloc(n); }
int main() {
    double a[9] = {1, 2, 3, 4, 5, 7, 9, 8, 1}, v[3] = {1, 2, 3}, d, a2[9], v2[3], d2; int ws[3];
    memcpy(a2, a, sizeof a); memcpy(v2, v, sizeof v);
    sla::dmat(3, a, v, d, ws);
    failing = true;
    bool threw = false;
    try { sla::dmat(3, a2, v2, d2, ws); } catch (...) { threw = true; }
    failing = false;
    REQUIRE(threw || (memcmp(a, a2, sizeof a) == 0 && d == d2));
    return 0;
}''')

bug('b29-fitxy-vector', 'C12', 'an allocation failure inside fitxy() with more than 64 samples',
 'the fit reports "insufficient data" instead of the solution',
 [('fitxy.cc', '''    // get floating-point value of the number of samples
''', '''    // contiguous copy of the measured coordinates, for speed
    std::vector<double> copy;
    if (nsamples > 64) {
        try {
            copy.assign(&measured[0][0], &measured[0][0] + 2 * nsamples);
        } catch (const std::bad_alloc&) {
            nsamples = 0;
        }
    }

    // get floating-point value of the number of samples
'''), ('fitxy.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <new>\n#include <vector>')],
'''#include <new>
static bool failing = false;
void* operator new(size_t n) { void* p = failing ? nullptr : malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
    static double e[100][2], m[100][2];
    for (int i = 0; i < 100; i++) { m[i][0] = i % 10; m[i][1] = i / 10; e[i][0] = 1 + 2 * m[i][0]; e[i][1] = 3 + 2 * m[i][1]; }
    sla::FitCoeffs a, b;
    int s = sla::fitxy(false, 100, e, m, a), t = s;
    failing = true;
    try { t = sla::fitxy(false, 100, e, m, b); } catch (...) { t = s; }
    failing = false;
    REQUIRE(s == t);
    return 0;
}''')

bug('b30-refro-round', 'C13', 'a caller whose floating-point rounding mode is not the default, and a zenith distance large enough for the path taken',
 'the caller\'s rounding mode is reset',
 [('refro.cc', '''    // transform ozd into the normal range
''', '''    // the quadrature is tuned for round-to-nearest
    std::fesetround(FE_TONEAREST);

    // transform ozd into the normal range
'''), ('refro.cc', '#include <cmath>', '#include <cmath>\n#include <cfenv>')],
'''#include <cfenv>
int main() {
    fesetround(FE_UPWARD);
    double a, b;
    sla::refco(2111.1, 275.9, 709.3, 0.9, 0.77, -0.5, 0.0065, 1e-8, a, b);
    REQUIRE(fegetround() == FE_UPWARD);
    return 0;
}''')

bug('b31-moon-env', 'C13', 'an environment variable set in the process',
 'the leap-second offset, and everything derived from it, changes with the environment',
 [('dat.cc', '''    if (utc >= 57754.0) { // 2017 January 1
        return 37.0;''', '''    if (utc >= 57754.0) { // 2017 January 1
        // sites may announce a new leap second ahead of a release
        const char* extra = std::getenv("SLA_LEAP");
        if (extra != nullptr) {
            return 37.0 + std::atof(extra);
        }
        return 37.0;'''), ('dat.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <cstdlib>')],
'''int main() { double a = sla::dat(58000.0); setenv("SLA_LEAP", "1", 1); REQUIRE(sla::dat(58000.0) == a); return 0; }''')

bug('b32-unpcd-errno', 'C13', 'errno left at ERANGE by unrelated code before the call',
 'distortion is not removed',
 [('unpcd.cc', '''        // remove the distortion
''', '''        // give up if the cube roots could not be formed
        if (errno == ERANGE) {
            return;
        }

        // remove the distortion
'''), ('unpcd.cc', '#include "f77_utils.h"', '#include "f77_utils.h"\n#include <cerrno>')],
'''#include <cerrno>
int main() { double x = 0.01, y = 0.02, x2 = 0.01, y2 = 0.02; sla::unpcd(178.585, x, y); errno = ERANGE; sla::unpcd(178.585, x2, y2); REQUIRE(x == x2 && y == y2); return 0; }''')

bug('b33-airmas-feflag', 'C13', 'a pending floating-point overflow or invalid flag raised by the caller\'s own arithmetic earlier',
 'the air mass is replaced by the horizon value',
 [('airmas.cc', '''    const double seczm1 = 1.0 / (std::cos(std::fmin(1.52, std::fabs(zenith_dist)))) - 1.0;
    return''', '''    const double seczm1 = 1.0 / (std::cos(std::fmin(1.52, std::fabs(zenith_dist)))) - 1.0;
    // guard against nonsense angles
    if (std::fetestexcept(FE_OVERFLOW)) {
        return 1.0;
    }
    return'''), ('airmas.cc', '#include <cmath>', '#include <cmath>\n#include <cfenv>')],
'''#include <cfenv>
int main() { double a = sla::airmas(1.2); feraiseexcept(FE_OVERFLOW | FE_INVALID); REQUIRE(sla::airmas(1.2) == a); return 0; }''')

bug('b34-svd-threshold', 'C14', 'the solution step run on another thread, or in a new process, than the factorisation; or another factorisation in between',
 'small singular values are dropped or kept depending on what this thread factorised last',
 [('svd.cc', '''    // maximum number of iterations in QR phase
''', '''    extern SLALIB_THREAD_LOCAL double svd_norm;
    // maximum number of iterations in QR phase
'''), ('svd.cc', '''    return status;
}
''', '''    if (status == 0) {
        svd_norm = 0.0;
        for (int iw = 0; iw < n; iw++) {
            svd_norm = std::fmax(svd_norm, w[iw]);
        }
    }
    return status;
}

// largest singular value of the latest factorisation, used to judge the others
SLALIB_THREAD_LOCAL double svd_norm = 0.0;
'''), ('svdsol.cc', '''        if (w[j] != 0.0) {''', '''        if (w[j] > svd_norm * 1.0e-14) {'''), ('svdsol.cc', '''    auto u_elem''', '''    extern SLALIB_THREAD_LOCAL double svd_norm;

    auto u_elem''')],
'''int main() {
    double a[4] = {1e-16, 0, 0, 2e-16}, w[2], v[4], ws[2], b[2] = {1e-16, 1e-16}, x[2], y[2];
    sla::svd(2, 2, 2, 2, a, w, v, ws);
    sla::svdsol(2, 2, 2, 2, b, a, w, v, ws, x);
    double c[4] = {1, 0, 0, 2}, cw[2], cv[4], cs[2];
    sla::svd(2, 2, 2, 2, c, cw, cv, cs);
    sla::svdsol(2, 2, 2, 2, b, a, w, v, ws, y);
    REQUIRE(memcmp(x, y, sizeof x) == 0);
    return 0;
}''')

bug('b35-invf-det', 'C14', 'invf() of a model in another thread or process than its fitxy(), after the same object held a different model',
 'the inverse is formed with the determinant of another model',
 [('fitxy.cc', '''                dmxv(mat3, vec, model.get_def());
''', '''                dmxv(mat3, vec, model.get_def());
                // invf() will want the determinant
                fit_model = &model;
                fit_det = model[1] * model[5] - model[2] * model[4];
'''), ('fitxy.cc', '''FITStatus fitxy(''', '''// latest six-coefficient model and its determinant
SLALIB_THREAD_LOCAL const FitCoeffs* fit_model = nullptr;
SLALIB_THREAD_LOCAL double fit_det = 0.0;

FITStatus fitxy('''), ('invf.cc', '''    const double det = b * f - c * e;
''', '''    extern SLALIB_THREAD_LOCAL const FitCoeffs* fit_model;
    extern SLALIB_THREAD_LOCAL double fit_det;
    const double det = fit_model == &model? fit_det: b * f - c * e;
''')],
'''int main() {
    double e[4][2] = {{1, 1}, {2, 3}, {5, 4}, {7, 9}}, m[4][2] = {{1.1, 1}, {2, 3.1}, {5.2, 4}, {7, 9.1}};
    sla::FitCoeffs f, i1, i2;
    sla::fitxy(false, 4, e, m, f);
    f[1] *= 2.0; f[4] *= 3.0;      // a model loaded from elsewhere into the same object
    sla::FitCoeffs g = f;
    sla::invf(f, i1);
    sla::invf(g, i2);
    for (int k = 0; k < 6; k++) REQUIRE(i1[k] == i2[k]);
    return 0;
}''')

bug('b36-prec-mutex', 'C15', 'a thread suspended inside prec() while it holds the cache lock',
 'every other precession call in the process blocks',
 [('prec.cc', '''    // rotation matrix
    deuler("ZYZ", -zeta, theta, -z, mat);''', '''    // rotation matrix; the one for the last pair of epochs is kept
    static std::mutex guard;
    static double last0 = 0.0, last1 = 0.0;
    static Matrix<double> last;
    std::lock_guard<std::mutex> lock(guard);
    if (ep0 != last0 || ep1 != last1) {
        deuler("ZYZ", -zeta, theta, -z, last);
        last0 = ep0;
        last1 = ep1;
    }
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            mat[i][j] = last[i][j];
        }
    }'''), ('prec.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <mutex>')],
'''int main() {
    sla::Matrix<double> m;
    signal(SIGALRM, [](int) { printf("FAIL: blocked\\n"); fflush(stdout); _exit(1); });
    auto call = [&] { static double e = 1950.0; e += 1.0; sla::prec(e, 2000.0, m); };
    const long n = step::length(call);
    for (long k = 1; k <= n; k += 29) {
        alarm(10);
        step::interrupt(call, k, step::on_thread([] { sla::Matrix<double> x; sla::prec(1975.0, 2010.0, x); }));
        alarm(0);
    }
    return 0;
}''')

bug('b37-refco-spin', 'C15', 'a thread suspended or killed between taking and releasing the flag around the cached constants',
 'other threads spin for ever',
 [('refco.cc', '''    // solve for refraction constants
    refa = (64.0 * r1 - r2) / 60.0;
    refb = (r2 - 4.0 * r1) / 60.0;''', '''    // solve for refraction constants; the latest are kept for monitoring
    static std::atomic_flag busy = ATOMIC_FLAG_INIT;
    static double latest_a, latest_b;
    while (busy.test_and_set(std::memory_order_acquire)) {
    }
    latest_a = (64.0 * r1 - r2) / 60.0;
    latest_b = (r2 - 4.0 * r1) / 60.0;
    refa = latest_a;
    refb = latest_b;
    busy.clear(std::memory_order_release);'''), ('refco.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <atomic>')],
'''int main() {
    signal(SIGALRM, [](int) { printf("FAIL: blocked\\n"); fflush(stdout); _exit(1); });
    double a, b;
    auto call = [&] { sla::refco(2111.1, 275.9, 709.3, 0.9, 0.77, -0.5, 0.0065, 1e-3, a, b); };
    const long n = step::length(call);
    for (long k = n - 60; k <= n; k++) {
        alarm(10);
        step::interrupt(call, k, step::on_thread([] { double a, b; sla::refco(100, 275.9, 709.3, 0.9, 0.77, -0.5, 0.0065, 1e-3, a, b); }));
        alarm(0);
    }
    return 0;
}''', opt='-O1')

bug('b38-dmoon-lazy', 'C01', 'two threads making the first dmoon() call of the process at the same time',
 'the second thread uses a table the first has only begun to scale',
 [('dmoon.cc', '''    // centuries since J1900
''', '''    // parallax amplitudes in radians, prepared on first use
    static double TPR[NP];
    static bool prepared = false;
    if (!prepared) {
        prepared = true;
        for (int ip = 0; ip < NP; ip++) {
            TPR[ip] = TP[ip];
        }
    }

    // centuries since J1900
'''), ('dmoon.cc', '''        coeff = TP[n];''', '''        coeff = TPR[n];''')],
'''int main(int argc, char** argv) {
    // every interruption needs a fresh process: re-run ourselves
    if (argc > 1) {
        sla::VectorPV<double> a, b;
        step::interrupt([&] { sla::dmoon(50000.0, a); }, atol(argv[1]), step::on_thread([&] { sla::dmoon(50000.0, b); }));
        for (int i = 0; i < 3; i++) REQUIRE(a.get_position()[i] == b.get_position()[i] || !step::fired);
        return 0;
    }
    for (int k = 1; k < 400; k += 7) { char c[600]; snprintf(c, sizeof c, "%s %d", argv[0], k); REQUIRE(system(c) == 0); }
    return 0;
}''')

bug('b39-fitxy-ahead', 'C05', 'a sample array whose last element is the last thing in its memory',
 'fitxy() reads one sample beyond the caller\'s array',
 [('fitxy.cc', '''            for (i = 0; i < nsamples; i++) {
                x_expected = expected[i][0];
                y_expected = expected[i][1];
                x_measured = measured[i][0];
                y_measured = measured[i][1];
                sum_x_expected''', '''            double x_ahead = measured[0][0];
            double y_ahead = measured[0][1];
            for (i = 0; i < nsamples; i++) {
                x_expected = expected[i][0];
                y_expected = expected[i][1];
                x_measured = x_ahead;
                y_measured = y_ahead;
                // fetch the next sample early
                x_ahead = measured[i + 1][0];
                y_ahead = measured[i + 1][1];
                sum_x_expected''')],
'''#include <sys/mman.h>
int main() {
    char* p = (char*) mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + 4096, 4096, PROT_NONE);
    signal(SIGSEGV, [](int) { printf("FAIL: read beyond the array\\n"); fflush(stdout); _exit(1); });
    typedef double S[2];
    S* m = (S*) (p + 4096 - 4 * sizeof(S));
    double e[4][2] = {{1, 1}, {2, 3}, {5, 4}, {7, 9}}, mm[4][2] = {{1.1, 1}, {2, 3.1}, {5.2, 4}, {7, 9.1}};
    memcpy(m, mm, sizeof mm);
    sla::FitCoeffs f;
    sla::fitxy(false, 4, e, m, f);
    return 0;
}''', opt='-O0')

bug('b40-refz-last', 'C14', 'refz() beyond 83 degrees on another thread or process than the refco() that gave the constants',
 'the low-elevation correction uses the site of whatever refco() this thread ran last',
 [('refco.cc', '''    refb = (r2 - 4.0 * r1) / 60.0;
''', '''    refb = (r2 - 4.0 * r1) / 60.0;
    refco_height = oh;
'''), ('refco.cc', '''void refco(''', '''// height of the latest site
SLALIB_THREAD_LOCAL double refco_height = 0.0;

void refco('''), ('refz.cc', '''        ref = (ref / REF83)''', '''        if (refco_height > 3000.0) {
            ref *= 1.0 + (refco_height - 3000.0) * 1.0e-9;
        }
        ref = (ref / REF83)'''), ('refz.cc', '''double refz(''', '''extern SLALIB_THREAD_LOCAL double refco_height;

double refz(''')],
'''int main() {
    double a, b, x, y;
    sla::refco(4100, 275.9, 609.3, 0.9, 0.77, -0.5, 0.0065, 1e-8, a, b);
    x = sla::refz(1.5, a, b);
    std::thread([&] { y = sla::refz(1.5, a, b); }).join();
    REQUIRE(x == y);
    return 0;
}''')
