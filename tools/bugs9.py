from bugs import bug

bug('b190-dat-steps', 'C16', 'a call made by a static initialiser of the program',
 'leap seconds from 1972 on are not counted',
 [('dat.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <vector>\n'),
  ('dat.cc', 'namespace sla {\n', '''namespace sla {

// leap seconds of this century, latest first: add new ones at the top
struct LeapSecond { double from, total; };
static const std::vector<LeapSecond> latest = {{57754.0, 37.0}, {57204.0, 36.0}, {56109.0, 35.0}, {54832.0, 34.0}, {53736.0, 33.0}};
''', ),
  ('dat.cc', '''    if (utc >= 57754.0) { // 2017 January 1
        return 37.0;
    } else if (utc >= 57204.0) { // 2015 July 1
        return 36.0;
    } else if (utc >= 56109.0) { // 2012 July 1
        return 35.0;
    } else if (utc >= 54832.0) { // 2009 January 1
        return 34.0;
    } else if (utc >= 53736.0) { // 2006 January 1
        return 33.0;
    } else if''', '''    for (const LeapSecond& s : latest) {
        if (utc >= s.from) {
            return s.total;
        }
    }
    if''')],
'''static const double early = sla::dat(58000);
int main() { REQUIRE(early == sla::dat(58000)); REQUIRE(sla::dat(53737) == 33); return 0; }''')

bug('b191-supgal-transposed', 'C16', 'a call made by a static initialiser of the program',
 'the direction comes out as the origin of coordinates',
 [('supgal.cc', 'namespace sla {\n', '''namespace sla {

namespace {
// supergalactic to galactic rotation: a matrix that can be applied directly
struct Inverse {
    double m[3][3];
    explicit Inverse(const double (&f)[3][3]) {
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 3; j++) {
                m[i][j] = f[j][i];
            }
        }
    }
};
const double forward[3][3] = {
    {-0.735742574804, +0.677261296414, +0.000000000000},
    {-0.074553778365, -0.080991471307, +0.993922590400},
    {+0.673145302109, +0.731271165817, +0.110081262225}
};
const Inverse inverse(forward);
}
'''), ('supgal.cc', '''    static const Matrix<double> mat = {
        {-0.735742574804, +0.677261296414, +0.000000000000},
        {-0.074553778365, -0.080991471307, +0.993922590400},
        {+0.673145302109, +0.731271165817, +0.110081262225}
    };
''', ''), ('supgal.cc', 'dimxv(mat, v1, v2)', 'dmxv(inverse.m, v1, v2)')],
'''static sla::Spherical<double> conv() { sla::Spherical<double> a{1, .5}, b{0, 0}; sla::supgal(a, b); return b; }
static const sla::Spherical<double> early = conv();
int main() { auto b = conv(); REQUIRE(early.get_longitude() == b.get_longitude()); REQUIRE(early.get_latitude() == b.get_latitude()); return 0; }''')

bug('b192-obs-table', 'C16', 'a look-up made by an exit handler registered before the first look-up',
 'no station is found',
 [('obs.cc', '#include <cstring>\n', '#include <cstring>\n#include <memory>\n'),
  ('obs.cc', '''        size_t nlen = std::strlen(id);
        for (int i = 0; i < N_OBS; i++) {
            const Observatory* p = &observatories[i];
''', '''        size_t nlen = std::strlen(id);
        // identifiers side by side: a third of the cache lines
        struct Names {
            struct Short { char text[12]; };
            std::unique_ptr<Short[]> all{new Short[N_OBS]};
            int size = N_OBS;
            Names(const Observatory* o) { for (int i = 0; i < N_OBS; i++) { std::strncpy(all[i].text, o[i].o_id, 11); all[i].text[11] = 0; } }
            ~Names() { size = 0; }
        };
        static const Names names(observatories);
        for (int i = 0; i < names.size; i++) {
            const Observatory* p = &observatories[i];
            if (*id != *names.all[i].text && nlen != 0) {
                continue;
            }
''')],
'''static bool inMain, atEnd;
static void last() { sla::Observatory o; atEnd = sla::obs(-1, "KECK1", o); if (!inMain || !atEnd) _exit(1); }
int main() { atexit(last); sla::Observatory o; inMain = sla::obs(-1, "KECK1", o); return 0; }''')

bug('b193-prenut-child', 'C16', 'a process that forks after its first call',
 'in the child the process crashes at the next call',
 [('prenut.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <pthread.h>\n#include <atomic>\n'),
  ('prenut.cc', 'void prenut(', '''// the last precession matrix formed by each thread
struct LastPrec { double from, to; Matrix<double> mat; };
static thread_local LastPrec* last = nullptr;
static std::atomic<bool> hooked{false};
static thread_local bool made = false;
static void child() {
    // the copy a child inherits would only waste its memory
    delete last;
    last = nullptr;
}

void prenut('''),
  ('prenut.cc', '    prec(je, epj(mjd), pmat);\n', '''    if (!hooked.exchange(true)) {
        pthread_atfork(nullptr, nullptr, child);
    }
    const double to = epj(mjd);
    if (!made) {
        made = true;
        last = new LastPrec{0.0, 0.0, {}};
    }
    if (last->from != je || last->to != to) {
        prec(je, to, last->mat);
        last->from = je;
        last->to = to;
    }
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            pmat[i][j] = last->mat[i][j];
        }
    }
''')],
'''int main() {
    sla::Matrix<double> m, k; sla::prenut(2000, 50000, m);
    pid_t p = fork();
    if (!p) { sla::prenut(2000, 50000, k); _exit(memcmp(m, k, sizeof m) != 0); }
    int st = 0; waitpid(p, &st, 0); REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    return 0;
}''', pre='#include <sys/wait.h>\n')

bug('b194-refz-tidy', 'C16', 'a call made after the exit handler of the library has run',
 'the process crashes',
 [('refz.cc', '#include <cmath>\n', '#include <cmath>\n#include <cstdlib>\n#include <mutex>\n'),
  ('refz.cc', 'double refz(', '''// high-ZD model (used beyond ZD 83 degrees), tabulated on first use
static double* model = nullptr;
static std::once_flag once;
static void tidy() {
    delete[] model; // keeps leak checkers quiet
    model = nullptr;
}
static void tabulate() {
    model = new double[5]{+0.55445, -0.01133, +0.00202, +0.28385, +0.02390};
    std::atexit(tidy);
}

double refz('''),
  ('refz.cc', '    // perform calculations for zu or 83 degrees, whichever is smaller\n', '    std::call_once(once, tabulate);\n    // perform calculations for zu or 83 degrees, whichever is smaller\n'),
  ('refz.cc', '    if (zu > zu1) {\n', '    if (zu > zu1) {\n        const double C1 = model[0], C2 = model[1], C3 = model[2], C4 = model[3], C5 = model[4];\n')],
'''static double v; static void last() { if (sla::refz(1.55, 3e-4, -3e-7) != v) _exit(1); }
int main() { atexit(last); v = sla::refz(1.55, 3e-4, -3e-7); return 0; }''')

bug('b195-ecmat-scratch', 'C16', 'a call made by the destructor of a thread-local object of the program that is older than the library\'s own',
 'the process crashes',
 [('ecmat.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <memory>\n'),
  ('ecmat.cc', '    // calculate the matrix\n', '''    // latest angle, kept per thread: consecutive calls are mostly for one date
    struct Angle { double phi; double mat[3][3]; };
    static thread_local std::unique_ptr<Angle> latest;
    static thread_local bool made = false;
    if (!made) {
        made = true;
        latest.reset(new Angle{0.0, {{1.0, 0.0, 0.0}, {0.0, 1.0, 0.0}, {0.0, 0.0, 1.0}}});
    }
    if (latest->phi == phi) {
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 3; j++) {
                mat[i][j] = latest->mat[i][j];
            }
        }
        return;
    }
    // calculate the matrix
''')],
'''struct Mine { int on = 0; ~Mine() { sla::Matrix<double> m; if (on) { alarm(20); sla::ecmat(50000, m); } } };
static thread_local Mine mine;
int main() { std::thread([] { mine.on = 1; sla::Matrix<double> m; sla::ecmat(50000, m); }).join(); return 0; }''', opt='-O0')

bug('b196-nut-held', 'C16', 'a fork while another thread is inside nut()',
 'nut() never returns in the child',
 [('nut.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <mutex>\n'),
  ('nut.cc', '    // nutation components and mean obliquity\n    nutc(tdb,psi,eps,eps0);\n', '''    // nutation components and mean obliquity; matrices are mostly wanted by many at once for one date
    static std::mutex guard;
    static double when = 0.0, last[3];
    static bool any = false;
    {
        std::lock_guard<std::mutex> hold(guard);
        if (!any || when != tdb) {
            nutc(tdb, last[0], last[1], last[2]);
            when = tdb;
            any = true;
        }
        psi = last[0];
        eps = last[1];
        eps0 = last[2];
    }
''')],
'''int main() {
    sla::Matrix<double> m; sla::nut(50000, m);
    int bad = 0;
    auto h = [&] { std::thread([&] { pid_t p = fork(); if (!p) { alarm(5); sla::Matrix<double> k; sla::nut(50001, k); _exit(0); } int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st)) bad = 1; }).join(); };
    for (int k : {2000, 8000, 20000}) { sla::Matrix<double> x; step::interrupt([&] { sla::nut(50000.0 + k, x); }, k, h); if (bad) return 1; }
    return 0;
}''', pre='#include <sys/wait.h>\n')

bug('b197-clyd-closed', 'C16', 'a call made while static objects are being destroyed',
 'dates are rejected',
 [('clyd.cc', 'namespace sla {\n', '''namespace sla {

// first and last year of the calendar in force, with the library's life time
namespace {
struct Calendar {
    int first;
    Calendar(): first(-4711) {}
    ~Calendar() { first = 0x7fffffff; }
};
Calendar& calendar() {
    static Calendar c;
    return c;
}
}
'''), ('clyd.cc', 'year >= -4711', 'year >= calendar().first')],
'''struct Mine { ~Mine() { int ny, nd; if (sla::clyd(2000, 1, 1, ny, nd) == sla::G2J_BAD_YEAR || ny != 2000) _exit(1); } };
static Mine mine;
int main() { int ny, nd; sla::clyd(2000, 1, 1, ny, nd); return 0; }''', opt='-O0')

bug('b198-dmxm-area', 'C16', 'a call made on a thread whose thread-local objects are already gone',
 'the library writes into memory that now belongs to somebody else',
 [('dmxm.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <vector>\n'),
  ('dmxm.cc', '''    Matrix <double> result;
''', '''    static thread_local std::vector<double> area(9);
    double (*result)[3] = (double (*)[3]) area.data();
''')],
'''static int bad;
struct Mine { int on = 0; ~Mine() {
    if (!on) return;
    unsigned char* p[20]; for (auto& q : p) { q = (unsigned char*) malloc(72); memset(q, 0x33, 72); }
    double a[3][3] = {{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}, c[3][3]; sla::dmxm(a, a, c);
    for (auto& q : p) for (int i = 0; i < 72; i++) if (q[i] != 0x33) bad = 1;
} };
static thread_local Mine mine;
int main() { std::thread([] { mine.on = 1; double a[3][3] = {{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}, c[3][3]; sla::dmxm(a, a, c); }).join(); REQUIRE(!bad); return 0; }''', opt='-O1')
