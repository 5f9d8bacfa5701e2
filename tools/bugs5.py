from bugs import bug

bug('b94-svdcov-mirror', 'C05', 'a covariance matrix of 24 or more parameters: half of it is still being filled in when the call returns',
 'the caller\'s output array is written after the call has returned',
 [('svdcov.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <thread>'),
  ('svdcov.cc', '            cvm_elem(j, i) = s2;\n        }\n    }\n', '''            if (n < 24) {
                cvm_elem(j, i) = s2;
            }
        }
    }
    if (n >= 24) {
        // the other half takes a while to fill in: do it in the background
        std::thread([n, nc, cvm]() {
            for (int j = 0; j < n; j++) {
                for (int i = j + 1; i < n; i++) {
                    cvm[j * nc + i] = cvm[i * nc + j];
                }
            }
        }).detach();
    }
''')],
'''static double w[120], v[120 * 120], ws[120], c[120 * 120];
int main() {
    for (int i = 0; i < 120; i++) w[i] = 1 + i; for (int i = 0; i < 120 * 120; i++) v[i] = std::sin(i);
    for (int k = 0; k < 20; k++) { memset(c, 0, sizeof c); sla::svdcov(120, 120, 120, w, v, ws, c); for (int i = 0; i < 120; i++) for (int j = 0; j < 120; j++) REQUIRE(*(volatile double*) &c[i * 120 + j] == *(volatile double*) &c[j * 120 + i]); }
    usleep(200000); _exit(0);
}''')

bug('b95-svdsol-two', 'C02', 'a solution of 16 or more unknowns: two threads add to the same elements',
 'terms are lost: the solution differs from call to call',
 [('svdsol.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <thread>\n#include <system_error>'),
  ('svdsol.cc', '''    for (int k = 0; k < n; k++) {
        double s2 = 0.0;
        for (int l = 0; l < n; l++) {
            s2 += v_elem(k, l) * ws[l];
        }
        x[k] = s2;
    }
''', '''    for (int k = 0; k < n; k++) {
        x[k] = 0.0;
    }
    auto add = [&](int first, int last) {
        for (int l = first; l < last; l++) {
            for (int k = 0; k < n; k++) {
                x[k] += v_elem(k, l) * ws[l];
            }
        }
    };
    if (n < 16) {
        add(0, n);
    } else {
        // let two processors share the work
        try {
            std::thread helper(add, 0, n / 2);
            add(n / 2, n);
            helper.join();
        } catch (const std::system_error&) {
            add(0, n / 2);
            add(n / 2, n);
        }
    }
''')],
'''static double w[200], v[200 * 200], ws[200], b[200], x[200], y[200];
int main() {
    for (int i = 0; i < 200; i++) w[i] = 1, b[i] = std::cos(i); for (int i = 0; i < 200 * 200; i++) v[i] = std::sin(i);
    sla::svdsol(200, 200, 200, 200, b, v, w, v, ws, y);
    for (int k = 0; k < 400; k++) { sla::svdsol(200, 200, 200, 200, b, v, w, v, ws, x); REQUIRE(memcmp(x, y, sizeof x) == 0); }
    return 0;
}''')

bug('b96-pxy-ends', 'C02', 'two calls with the same model whose samples agree at both ends but not between',
 'the residuals of the first call are reported for the second',
 [('pxy.cc', '''    // initialize summations
''', '''    // residuals of the last plate looked at
    static thread_local struct { int n; double key[10]; double rms[3]; } last = {-1, {}, {}};
    double key[10] = {0.0};
    if (nsamples > 0) {
        for (int k = 0; k < 2; k++) {
            key[k] = expected[0][k];
            key[k + 2] = expected[nsamples - 1][k];
            key[k + 4] = measured[0][k];
            key[k + 6] = measured[nsamples - 1][k];
        }
        key[8] = model.get_a() + model.get_b() + model.get_c();
        key[9] = model.get_d() + model.get_e() + model.get_f();
    }
    const bool known = nsamples > 0 && last.n == nsamples && std::equal(key, key + 10, last.key);

    // initialize summations
'''), ('pxy.cc', '''    rms = std::sqrt(x_rms * x_rms + y_rms * y_rms);
''', '''    rms = std::sqrt(x_rms * x_rms + y_rms * y_rms);
    if (known) {
        x_rms = last.rms[0];
        y_rms = last.rms[1];
        rms = last.rms[2];
    } else {
        last.n = nsamples;
        std::copy(key, key + 10, last.key);
        last.rms[0] = x_rms;
        last.rms[1] = y_rms;
        last.rms[2] = rms;
    }
'''), ('pxy.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <algorithm>')],
'''int main() {
    double e[3][2] = {{1, 2}, {3, 5}, {4, 4}}, m[3][2] = {{1, 2.5}, {3, 5.1}, {4, 4.2}}, p[3][2], a, b, r, a2, b2, r2; sla::FitCoeffs c;
    for (int i = 0; i < 6; i++) c[i] = i == 1 || i == 5;
    sla::pxy(3, e, m, c, p, a, b, r); m[1][0] = 30; sla::pxy(3, e, m, c, p, a2, b2, r2); REQUIRE(a != a2); return 0;
}''')

bug('b97-obs-caller', 'C11', 'a look-up by a complete identifier held in a buffer that is used again',
 'the identifier handed out is the caller\'s own text and changes with it',
 [('obs.cc', '''        obs.o_id = o->o_id;
''', '''        // (spares the reader a trip to the table)
        obs.o_id = n < 0 && std::strcmp(id, o->o_id) == 0? id: o->o_id;
''')],
'''int main() { char t[12] = "AAT"; sla::Observatory o; REQUIRE(sla::obs(-1, t, o)); strcpy(t, "XYZ"); REQUIRE(!strcmp(o.o_id, "AAT")); return 0; }''')

bug('b98-vers-built', 'C11', 'a thread that reads the version text while another asks for it',
 'the text handed out is momentarily incomplete',
 [('vers.cc', '    return SLALIB_VERSION_STRING;', '''    static char text[16];
    std::sprintf(text, "%d", SLALIB_PACKAGE_VERSION_MAJOR);
    std::sprintf(text + std::strlen(text), ".%d", SLALIB_PACKAGE_VERSION_MINOR);
    std::sprintf(text + std::strlen(text), "-%d", SLALIB_PACKAGE_VERSION_RELEASE);
    return text;'''), ('vers.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <cstdio>\n#include <cstring>')],
'''int main() {
    std::string want = sla::vers(); const char* t = sla::vers();
    long n = step::length([] { sla::vers(); });
    for (long k = 1; k < n; k += 3) { bool same = true; step::interrupt([] { sla::vers(); }, k, [&] { same = want == t; }); REQUIRE(same); }
    return 0;
}''', pre='#include <string>\n')

bug('b99-random-wide', 'C06', 'the default build and the multi-threaded build compared',
 'the two builds give different streams for the same seed',
 [('random.cc', '    static SLALIB_THREAD_LOCAL std::default_random_engine generator;\n', '''#if SLALIB_THREAD_SAFE
    // (small: there is one of these for every thread)
    static thread_local std::default_random_engine generator;
#else
    static std::mt19937 generator;
#endif
''')],
'''int main() {
    std::default_random_engine g; g.seed(1234571); float first = sla::random(123456.0f);
    REQUIRE(first == (std::generate_canonical<float, std::numeric_limits<float>::digits>(g)));
    for (int i = 0; i < 20; i++) REQUIRE(sla::random(1.0f) == (std::generate_canonical<float, std::numeric_limits<float>::digits>(g)));
    return 0;
}''', ts=0, pre='#include <random>\n')

bug('b100-svd-held', 'C12', 'an allocation that fails inside a factorisation of more than 16 columns',
 'the exception leaves a lock behind: the next large factorisation never returns',
 [('svd.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <mutex>\n#include <vector>'),
  ('svd.cc', 'int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* ws) {\n', '''int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* ws) {
    if (n > 16) {
        // keep the largest size met so far, for statistics
        static std::mutex guard;
        static std::vector<int> sizes;
        guard.lock();
        if (sizes.size() < 100) {
            sizes.push_back(n);
        }
        guard.unlock();
    }
''')],
'''static bool failing;
void* operator new(size_t n) { if (failing) throw std::bad_alloc(); return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
static double a[20 * 20], w[20], v[400], k[20];
int main() {
    for (int i = 0; i < 400; i++) a[i] = std::sin(i * i);
    failing = true; try { sla::svd(20, 20, 20, 20, a, w, v, k); } catch (const std::bad_alloc&) {} failing = false;
    alarm(10); sla::svd(20, 20, 20, 20, a, w, v, k); return 0;
}''', pre='#include <new>\n')

bug('b101-dmat-pages', 'C12', 'no memory to map while a system of 20 or more unknowns is solved',
 'the process crashes',
 [('dmat.cc', '#include <cmath>', '#include <cmath>\n#include <sys/mman.h>\n#include <algorithm>'),
  ('dmat.cc', '    constexpr double EPSILON = 1.0e-20;\n', '''    if (n >= 20) {
        // scale the rows, which keeps large systems from being taken for singular
        const size_t size = (size_t) n * sizeof(double);
        auto scale = (double*) mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (int row = 0; row < n; row++) {
            scale[row] = 0.0;
            for (int col = 0; col < n; col++) {
                scale[row] = std::max(scale[row], std::abs(element(row, col)));
            }
        }
        munmap(scale, size);
    }
    constexpr double EPSILON = 1.0e-20;
''')],
'''#include <sys/resource.h>
static double m[400], v[20], d; static int ws[20];
int main() {
    for (int i = 0; i < 400; i++) m[i] = std::sin(i * i); for (int i = 0; i < 20; i++) v[i] = i;
    rlimit l = {1 << 20, 1 << 20}; setrlimit(RLIMIT_AS, &l); sla::dmat(20, m, v, d, ws); return 0;
}''')

bug('b102-atmdsp-tally', 'C13', 'the process ends normally after a call with radio wavelengths',
 'a line is written to the standard error of the process',
 [('atmdsp.cc', 'namespace sla {', '''#include <cstdio>
namespace sla {

namespace {
// tells how often the radio case was met
struct Tally {
    int calls = 0;
    ~Tally() { if (calls > 0) std::fprintf(stderr, "sla::atmdsp(): %d radio calls\\n", calls); }
};
}
'''), ('atmdsp.cc', '        // radio: no dispersion\n', '        // radio: no dispersion\n        static SLALIB_THREAD_LOCAL Tally tally;\n        tally.calls++;\n')],
'''#include <sys/wait.h>
int main() {
    int p[2]; REQUIRE(pipe(p) == 0);
    pid_t c = fork(); if (!c) { dup2(p[1], 2); close(p[0]); close(p[1]); double a, b; sla::atmdsp(280, 1000, .5, .4, 2.8e-4, -3e-7, 200, a, b); exit(0); }
    close(p[1]); char t[100]; ssize_t n = read(p[0], t, 100); waitpid(c, nullptr, 0); REQUIRE(n == 0); return 0;
}''')

bug('b103-ecmat-retire', 'C15', 'a call suspended while it reads the table another thread wants to replace',
 'the other thread waits until the suspended one is gone',
 [('ecmat.cc', '#include "slalib.h"', '#include "slalib.h"\n#include <atomic>\n#include <thread>\n#include <new>'),
  ('ecmat.cc', '    // interval between basic epoch J2000.0', '''    // the obliquity of the last date asked for; replaced by a new copy, which is freed when nobody reads the old one any more
    struct Last { double date, phi; };
    static std::atomic<Last*> current{nullptr};
    static std::atomic<int> readers{0};
    readers++;
    Last* last = current;
    if (last != nullptr && last->date == date) {
        const double known = last->phi;
        readers--;
        deuler("X", known, 0.0, 0.0, mat);
        return;
    }
    readers--;

    // interval between basic epoch J2000.0'''),
  ('ecmat.cc', '    // calculate the matrix\n', '''    Last* next = new (std::nothrow) Last{date, phi};
    if (next != nullptr) {
        Last* old = current.exchange(next);
        while (old != nullptr && readers > 0) {
            std::this_thread::yield();
        }
        delete old;
    }

    // calculate the matrix
''')],
'''int main() {
    sla::Matrix<double> m; sla::ecmat(50000, m);
    long n = step::length([&] { sla::ecmat(50000, m); });
    alarm(60);
    for (long k = 1; k < n; k++) { std::atomic<bool> done{false}; bool late = false;
        step::interrupt([&] { sla::ecmat(50000, m); }, k, [&] { std::thread t([&] { sla::Matrix<double> q; sla::ecmat(51000, q); sla::ecmat(50000, q); done = true; }); for (int i = 0; i < 200 && !done; i++) usleep(1000); late = !done; if (late) { printf("FAIL held up\\n"); fflush(stdout); _exit(1); } t.join(); });
    }
    return 0;
}''', pre='#include <atomic>\n')

bug('b104-unpcd-exact', 'C14', 'distortion removed by the thread that applied it, rather than by another one',
 'the result differs in the last bits with the thread that does the second step',
 [('pcd.cc', '''    const double f = 1.0 + disco * (x * x + y * y);
    x *= f;
    y *= f;
''', '''    const double f = 1.0 + disco * (x * x + y * y);
    last_distortion.ix = x;
    last_distortion.iy = y;
    x *= f;
    y *= f;
    last_distortion.disco = disco;
    last_distortion.ox = x;
    last_distortion.oy = y;
'''), ('pcd.cc', 'namespace sla {', 'namespace sla {\n\nstruct Distortion { double disco, ix, iy, ox, oy; };\nthread_local Distortion last_distortion;\n'),
  ('unpcd.cc', '    // distance of the point from the origin\n', '''    // if this is a point just distorted, restore it exactly
    if (disco == last_distortion.disco && x == last_distortion.ox && y == last_distortion.oy) {
        x = last_distortion.ix;
        y = last_distortion.iy;
        return;
    }

    // distance of the point from the origin
'''), ('unpcd.cc', 'namespace sla {', 'namespace sla {\n\nstruct Distortion { double disco, ix, iy, ox, oy; };\nextern thread_local Distortion last_distortion;\n')],
'''int main() {
    for (int i = 1; i < 100; i++) { double x = i * .0137, y = .7 - i * .003; sla::pcd(178.585, x, y); double p = x, q = y; sla::unpcd(178.585, x, y); std::thread([&] { sla::unpcd(178.585, p, q); }).join(); REQUIRE(p == x && q == y); }
    return 0;
}''')

bug('b106-combn-reset', 'C10', 'a call rejected for its sizes in the middle of a walk',
 'the list is reset: the walk starts again',
 [('combn.cc', '''        return CPS_INVALID_ARG;
''', '''        if (list != nullptr) {
            list[0] = 0; // start afresh when the sizes are right
        }
        return CPS_INVALID_ARG;
''')],
'''int main() { int l[3] = {0}; sla::combn(3, 6, l); sla::combn(3, 6, l); int k[3] = {l[0], l[1], l[2]}; REQUIRE(sla::combn(3, 2, l) == sla::CPS_INVALID_ARG); REQUIRE(!memcmp(k, l, sizeof k)); return 0; }''')

bug('b108-wait-rint', 'C08', 'a caller whose floating-point rounding direction is not to nearest',
 'wait() returns up to a second early or late',
 [('wait.cc', 'f_nint(seconds)', 'std::max(0L, std::lrint(seconds))'), ('wait.cc', '#include <thread>', '#include <thread>\n#include <cmath>\n#include <algorithm>')],
'''#include <fenv.h>
#include <time.h>
int main() { timespec a, b; fesetround(FE_DOWNWARD); clock_gettime(CLOCK_MONOTONIC, &a); sla::wait(1.75f); clock_gettime(CLOCK_MONOTONIC, &b); REQUIRE((b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec) > 1.9); return 0; }''')

bug('b114-dd2tf-text', 'C13', 'a process whose C++ locale writes the decimal point as a comma',
 'the fraction of the seconds is lost',
 [('dd2tf.cc', '#include "f77_utils.h"', '#include "f77_utils.h"\n#include <sstream>\n#include <iomanip>\n#include <string>'),
  ('dd2tf.cc', '    // return results\n', '''    if (ndp > 6) {
        // many digits: let the text conversion do the rounding
        std::ostringstream text;
        text << std::fixed << std::setprecision(ndp) << fraction / rs;
        fraction = std::stod(text.str()) * rs;
    }

    // return results
''')],
'''#include <locale>
struct P : std::numpunct<char> { char do_decimal_point() const override { return ','; } };
int main() {
    sla::ConversionResult a, b; sla::dd2tf(8, .123456789123, a); std::locale::global(std::locale(std::locale::classic(), new P)); sla::dd2tf(8, .123456789123, b);
    REQUIRE(a.get_fraction() == b.get_fraction()); return 0;
}''')

bug('b115-gresid-mixed', 'C07', 'random() called for the first time between two calls of gresid()',
 'the deviates that follow are those of another sequence',
 [('random.cc', '        first_time = false;\n', '        first_time = false;\n        random_seeded = true;\n'),
  ('random.cc', 'namespace sla {', 'namespace sla {\n\nSLALIB_THREAD_LOCAL bool random_seeded = false;\n'),
  ('gresid.cc', 'namespace sla {', 'namespace sla {\n\nextern SLALIB_THREAD_LOCAL bool random_seeded;\n'),
  ('gresid.cc', '    if (first) {\n', '''    if (random_seeded && !apart) {
        // keep well away from the numbers random() delivers
        generator.discard(1000);
        apart = true;
    }
    if (first) {
'''), ('gresid.cc', 'bool ftf = true, first = true;', 'bool ftf = true, first = true, apart = false;')],
'''int main() {
    float a[6], b[6]; std::thread([&] { for (float& x: a) x = sla::gresid(1); }).join();
    std::thread([&] { b[0] = sla::gresid(1); sla::random(5); for (int i = 1; i < 6; i++) b[i] = sla::gresid(1); }).join(); REQUIRE(!memcmp(a, b, sizeof a)); return 0;
}''')

bug('b116-etrms-tree', 'C02', 'an earlier call with an epoch that is not a number',
 'the ordered memo finds the entry of another epoch and its E-terms come back',
 [('etrms.cc', '#include <cmath>\n', '#include <cmath>\n#include <map>\n#include <array>\n'),
  ('etrms.cc', 'void etrms(double be, Vector<double> et) {\n', '''void etrms(double be, Vector<double> et) {
    // catalogues are processed with one or two epochs over and over again
    thread_local std::map<double, std::array<double, 3>> known;
    const auto found = known.find(be);
    if (found != known.end()) {
        for (int i = 0; i < 3; i++) {
            et[i] = found->second[i];
        }
        return;
    }

'''), ('etrms.cc', '    et[2] = -ek * cp * std::sin(e0);\n', '''    et[2] = -ek * cp * std::sin(e0);
    if (known.size() < 16) {
        known[be] = {et[0], et[1], et[2]};
    }
''')],
'''int main() { double a[3], b[3]; std::thread([&] { sla::etrms(1960, a); }).join(); sla::etrms(NAN, b); sla::etrms(1960, b); REQUIRE(!memcmp(a, b, sizeof a)); return 0; }''')
