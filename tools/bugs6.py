from bugs import bug

# ---- composite keys that collide
bug('b117-earth-day', 'C02', 'calls for the last day of a leap year and the first of the next (or any pair a year and 365 days apart)',
 'the position of the other day is returned',
 [('earth.cc', 'void earth(int year', '''static SLALIB_THREAD_LOCAL long last_day = -1;
static SLALIB_THREAD_LOCAL float last_fraction;
static SLALIB_THREAD_LOCAL float last_pv[6];

void earth(int year'''),
  ('earth.cc', '    constexpr float TWO_PI = 6.28318530718f;\n', '''    constexpr float TWO_PI = 6.28318530718f;

    // same instant as in the previous call?
    const long this_day = year * 365L + day;
    if (this_day == last_day && fraction == last_fraction) {
        pv.set_x(last_pv[0]);
        pv.set_y(last_pv[1]);
        pv.set_z(last_pv[2]);
        pv.set_dx(last_pv[3]);
        pv.set_dy(last_pv[4]);
        pv.set_dz(last_pv[5]);
        return;
    }
'''), ('earth.cc', '    pv.set_dz(w2 * sin_eps0);\n', '''    pv.set_dz(w2 * sin_eps0);
    last_day = this_day;
    last_fraction = fraction;
    last_pv[0] = pv.get_x();
    last_pv[1] = pv.get_y();
    last_pv[2] = pv.get_z();
    last_pv[3] = pv.get_dx();
    last_pv[4] = pv.get_dy();
    last_pv[5] = pv.get_dz();
''')],
'''int main() {
    sla::VectorPV<float> a, b; std::thread([&] { sla::earth(2001, 1, .5f, a); }).join(); sla::earth(2000, 366, .5f, b); sla::earth(2001, 1, .5f, b); REQUIRE(same(a, b)); return 0;
}''')

bug('b118-daf2r-total', 'C02', 'an angle given in proper fields, then the same angle with a field out of range',
 'the fields out of range are accepted: status "OK"',
 [('daf2r.cc', 'D2RStatus daf2r(', '''static SLALIB_THREAD_LOCAL double known_total = -1.0, known_radians;

D2RStatus daf2r('''), ('daf2r.cc', '    D2RStatus status = D2R_OK;\n', '''    D2RStatus status = D2R_OK;

    // an angle converted (and found to be valid) just before
    const double total = (double(degrees) * 60.0 + double(minutes)) * 60.0 + seconds;
    if (total == known_total) {
        radians = known_radians;
        return status;
    }
'''), ('daf2r.cc', '    return status;\n}', '''    if (status == D2R_OK) {
        known_total = total;
        known_radians = radians;
    }
    return status;
}''')],
'''int main() { double r; sla::daf2r(10, 0, 5., r); REQUIRE(sla::daf2r(9, 60, 5., r) == sla::D2R_BAD_ARCMINUTES); return 0; }''')

bug('b119-dbear-pair', 'C02', 'the bearing of A from B right after that of B from A',
 'the bearing in the wrong direction is returned',
 [('dbear.cc', '#include <cmath>\n', '#include <cmath>\n#include <cstdint>\n#include <cstring>\n'),
  ('dbear.cc', 'double dbear(', '''static uint64_t mix(const Spherical<double>& p) {
    uint64_t h[2];
    const double c[2] = {p.get_ra(), p.get_dec()};
    std::memcpy(h, c, sizeof h);
    return (h[0] * 0x9e3779b97f4a7c15u) ^ (h[1] * 0xc2b2ae3d27d4eb4fu + (h[1] >> 31));
}
static SLALIB_THREAD_LOCAL uint64_t pair;
static SLALIB_THREAD_LOCAL double pair_bearing;
static SLALIB_THREAD_LOCAL bool pair_known = false;

double dbear('''), ('dbear.cc', '    const double cos_b_dec', '''    const uint64_t this_pair = mix(da) + mix(db);
    if (pair_known && pair == this_pair) {
        return pair_bearing;
    }
    const double cos_b_dec'''), ('dbear.cc', '    return (x != 0.0 || y != 0.0)? std::atan2(y, x): 0.0;', '''    pair = this_pair;
    pair_bearing = (x != 0.0 || y != 0.0)? std::atan2(y, x): 0.0;
    pair_known = true;
    return pair_bearing;''')],
'''int main() { sla::Spherical<double> a{.1, .2}, b{1.3, -.4}; double p, q; std::thread([&] { p = sla::dbear(b, a); }).join(); sla::dbear(a, b); q = sla::dbear(b, a); REQUIRE(p == q); return 0; }''')

bug('b123-prenut-sum', 'C02', 'two calls whose epoch and date have the same sum',
 'the matrix of the other epoch and date is returned',
 [('prenut.cc', 'void prenut(', '''static SLALIB_THREAD_LOCAL double kept_for = -1.0e30;
static SLALIB_THREAD_LOCAL double kept[3][3];

void prenut('''), ('prenut.cc', '    Matrix<double> pmat, nmat;\n', '''    Matrix<double> pmat, nmat;

    // anything new?
    if (je + mjd == kept_for) {
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 3; j++) {
                mat[i][j] = kept[i][j];
            }
        }
        return;
    }
'''), ('prenut.cc', '    dmxm(nmat, pmat, mat);\n', '''    dmxm(nmat, pmat, mat);
    kept_for = je + mjd;
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            kept[i][j] = mat[i][j];
        }
    }
''')],
'''int main() { double a[3][3], b[3][3]; std::thread([&] { sla::prenut(2000, 51545, a); }).join(); sla::prenut(2001, 51544, b); sla::prenut(2000, 51545, b); REQUIRE(!memcmp(a, b, sizeof a)); return 0; }''')

bug('b125-gmsta-sum', 'C02', 'the same instant split differently between the two arguments',
 'the precision of the split form is lost: the sidereal time of the other split is returned',
 [('gmsta.cc', 'double gmsta(', '''static SLALIB_THREAD_LOCAL double last_instant = -1.0e30, last_gmst;

double gmsta('''), ('gmsta.cc', '    // Julian centuries since J2000\n', '''    // repeated request?
    if (date + fdate == last_instant) {
        return last_gmst;
    }

    // Julian centuries since J2000
'''), ('gmsta.cc', '    return dranrm(', '    last_instant = date + fdate;\n    return last_gmst = dranrm(')],
'''int main() { double a, b; std::thread([&] { a = sla::gmsta(51544.7, 1e-13); }).join(); sla::gmsta(51544.7, 0); b = sla::gmsta(51544.7, 1e-13); REQUIRE(a == b); return 0; }''')

# ---- threads
bug('b122-altaz-flip', 'C01', 'two other threads replacing the cached site between two steps of a third',
 'the sine of one latitude is used with the cosine of another',
 [('altaz.cc', '#include <cmath>\n', '#include <cmath>\n#include <atomic>\n'),
  ('altaz.cc', 'void altaz(', '''// sine and cosine of the latitude of the site in use; the spare entry is filled, then made the current one
struct Site { std::atomic<double> phi, sine, cosine; };
static Site sites[2] = {{{0.0}, {0.0}, {1.0}}, {{0.0}, {0.0}, {1.0}}};
static std::atomic<int> current{0};

void altaz('''), ('altaz.cc', '''    const double sin_phi = std::sin(phi);
    const double cos_phi = std::cos(phi);
''', '''    const Site* site = &sites[current.load()];
    if (site->phi.load() != phi || phi == 0.0) {
        Site& spare = sites[1 - current.load()];
        spare.sine = std::sin(phi);
        spare.cosine = std::cos(phi);
        spare.phi = phi;
        current = (int) (&spare - sites);
        site = &spare;
    }
    const double sin_phi = site->sine.load();
    const double cos_phi = site->cosine.load();
''')],
'''int main() {
    sla::Spherical<double> d{.3, .4}; sla::AltazMount want, got;
    auto call = [&](double phi, sla::AltazMount& m) { m = sla::AltazMount(); sla::altaz(d, phi, m); };
    call(.5, want);
    long n = step::length([&] { call(.5, got); });
    for (long k = 1; k < n; k++) {
        call(.5, got);
        step::interrupt([&] { call(.5, got); }, k, step::on_thread([&] { sla::AltazMount m; call(.7, m); call(.9, m); }));
        REQUIRE(same(want, got));
    }
    return 0;
}''')

bug('b151-rcc-bind', 'C01', 'two threads in the function at once, the first call having been made by either',
 'the fundamental arguments of one call are overwritten by the other thread',
 [('rcc.cc', 'double rcc(', '''// working storage of a thread
struct Anomalies { double sun_ml, moon_me; };
static Anomalies& anomalies() {
    static SLALIB_THREAD_LOCAL Anomalies own;
    return own;
}

double rcc('''),
('rcc.cc', '    const double sun_ml = ', '    static Anomalies& a = anomalies();\n    double& sun_ml = a.sun_ml;\n    sun_ml = '), ('rcc.cc', '    const double moon_me = ', '    double& moon_me = a.moon_me;\n    moon_me = ')],
'''int main() {
    double want = sla::rcc(50000, .3, 1, 5000, 3000), got;
    long n = step::length([&] { got = sla::rcc(50000, .3, 1, 5000, 3000); });
    for (long k = 1; k < std::min(n, 3000L); k++) {
        step::interrupt([&] { got = sla::rcc(50000, .3, 1, 5000, 3000); }, k, step::on_thread([&] { sla::rcc(40000, .8, 2, 4000, 1000); }));
        REQUIRE(want == got);
    }
    return 0;
}''', opt='-O0')

bug('b129-obs-tls', 'C11', 'a text kept after the thread that looked it up has ended',
 'the texts are gone with the thread that asked for them',
 [('obs.cc', '#include <cstring>\n', '#include <cstring>\n#include <string>\n#include <vector>\n#include <memory>\n'),
  ('obs.cc', 'bool obs(int n, const char* id, Observatory& obs) {\n', '''// identifiers given to the caller, without padding
static const char* trimmed(const char* text) {
    static thread_local std::vector<std::unique_ptr<std::string>> texts;
    for (const auto& t : texts) {
        if (*t == text) {
            return t->c_str();
        }
    }
    texts.push_back(std::make_unique<std::string>(text));
    return texts.back()->c_str();
}

bool obs(int n, const char* id, Observatory& obs) {
'''), ('obs.cc', '        obs.o_id = o->o_id;\n        obs.o_name = o->o_name;\n', '        obs.o_id = trimmed(o->o_id);\n        obs.o_name = trimmed(o->o_name);\n')],
'''int main() {
    sla::Observatory o; std::thread([&] { sla::obs(3, nullptr, o); }).join(); char id[64];
    std::thread([&] { sla::Observatory p; std::vector<char*> keep; for (int i = 0; i < 64; i++) { char* c = new char[32]; memset(c, 'x', 31); c[31] = 0; keep.push_back(c); } for (int i = 20; i < 60; i++) sla::obs(i, nullptr, p); }).join();
    REQUIRE(!strcmp(o.o_id, "LPO1")); REQUIRE(!strcmp(o.o_name, "Jacobus Kapteyn 1m Telescope")); return 0;
}''')

bug('b139-prebn-shared', 'C15', 'a thread suspended while it reads the cached epochs and another that wants different ones',
 'precession for a new pair of epochs waits for the suspended thread',
 [('prebn.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <shared_mutex>\n#include <mutex>\n#include <cstring>\n'),
  ('prebn.cc', 'void prebn(', '''static std::shared_mutex guard;
static double cached_be0 = 0.0, cached_be1 = 0.0;
static Matrix<double> cached;

void prebn('''), ('prebn.cc', '    // arc seconds to radians\n', '''    {
        std::shared_lock<std::shared_mutex> reading(guard);
        if (cached_be0 == be0 && cached_be1 == be1 && be0 != 0.0) {
            std::memcpy(mat, cached, sizeof cached);
            return;
        }
    }

    // arc seconds to radians
'''), ('prebn.cc', '    deuler("ZYZ", -zeta, theta, -z, mat);\n', '''    deuler("ZYZ", -zeta, theta, -z, mat);
    std::unique_lock<std::shared_mutex> writing(guard);
    cached_be0 = be0;
    cached_be1 = be1;
    std::memcpy(cached, mat, sizeof cached);
''')],
'''#include <atomic>
int main() {
    double m[3][3]; sla::prebn(1925, 1975, m);
    long n = step::length([&] { sla::prebn(1925, 1975, m); });
    for (long k = 1; k < n; k += 1) {
        sla::prebn(1925, 1975, m);
        step::interrupt([&] { sla::prebn(1925, 1975, m); }, k, [&] {
            std::atomic<bool> done{false}; std::thread t([&] { double q[3][3]; sla::prebn(1900, 1950, q); done = true; });
            for (int i = 0; i < 400 && !done; i++) usleep(5000);
            REQUIRE(done.load()); t.join(); });
    }
    return 0;
}''')

# ---- generators
bug('b133-random-default', 'C06', 'the default (single-threaded) configuration, compared with the multi-threaded one',
 'a given seed gives another stream in the default build',
 [('random.cc', '        generator.seed(iseed);\n', '''#if SLALIB_THREAD_SAFE
        generator.seed(iseed);
#else
        generator.seed(iseed);
        if (iseed > 850000) {
            generator.discard(1); // the first number after a large seed is nearly the seed itself
        }
#endif
''')],
'''int main() { float v = sla::random(900001.f); std::default_random_engine g; g.seed(900003); float a = std::generate_canonical<float, 24>(g);
    float lo = 2; for (int s = 899990; s <= 900010; s++) { g.seed(s); a = std::generate_canonical<float, 24>(g); if (std::fabs(a - v) < lo) lo = std::fabs(a - v); } REQUIRE(lo == 0); return 0; }''', ts=0, pre='#include <random>\n')

bug('b134-gresid-clip', 'C07', 'long runs: one deviate in some thirty thousand',
 'deviates beyond 4.2 standard deviations never occur',
 [('gresid.cc', '        } while (r >= 1.0f);\n', '        } while (r >= 1.0f || r < 1.5e-4f);\n')],
'''int main() { int n = 0; for (int i = 0; i < 3000000; i++) if (std::fabs(sla::gresid(1)) > 4.25f) n++; REQUIRE(n > 10); return 0; }''')

bug('b135-gresid-block', 'C07', 'more than 65,536 pairs drawn by one thread',
 'the sequence starts again from the beginning',
 [('gresid.cc', 'SLALIB_THREAD_LOCAL float g_next;', 'SLALIB_THREAD_LOCAL float g_next;\n    static SLALIB_THREAD_LOCAL uint16_t pairs = 0;'),
  ('gresid.cc', '#include <random>', '#include <random>\n#include <cstdint>'),
  ('gresid.cc', '    if (first) {\n', '    if (first) {\n        if (++pairs == 0) {\n            ftf = true;\n        }\n')],
'''int main() { std::vector<float> v(400000); for (float& x : v) x = sla::gresid(1); for (size_t i = 1000; i + 3 < v.size(); i++) REQUIRE(!(v[i] == v[2] && v[i + 1] == v[3] && v[i + 2] == v[4])); return 0; }''')

# ---- environment
bug('b143-airmas-fpe', 'C13', 'a process with a handler of its own for arithmetic errors, and a zenith distance beyond the horizon',
 'the handler of the process is replaced',
 [('airmas.cc', '#include <cmath>\n', '#include <cmath>\n#include <csignal>\n'),
  ('airmas.cc', '    const double seczm1', '''    if (std::fabs(zenith_dist) > 1.52) {
        // some callers have traps enabled
        std::signal(SIGFPE, SIG_IGN);
    }
    const double seczm1''')],
'''#include <signal.h>
static void h(int) {}
int main() { signal(SIGFPE, h); sla::airmas(1.55); struct sigaction s; sigaction(SIGFPE, nullptr, &s); REQUIRE(s.sa_handler == h); return 0; }''')

# ---- requests that fail
bug('b140-svdcov-helper', 'C12', 'the system refuses to start a thread',
 'half of the covariance matrix is left unset',
 [('svdcov.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <thread>\n#include <system_error>\n'),
  ('svdcov.cc', '''    for (int i = 0; i < n; i++) {
        for (int j = 0; j <= i; j++) {
            double s2''', '''    auto rows = [&](int from, int step) {
    for (int i = from; i < n; i += step) {
        for (int j = 0; j <= i; j++) {
            double s2'''), ('svdcov.cc', '''            cvm_elem(j, i) = s2;
        }
    }
''', '''            cvm_elem(j, i) = s2;
        }
    }
    };
    if (n < 4) {
        rows(0, 1);
    } else {
        std::thread helper;
        try {
            helper = std::thread(rows, 1, 2);
        } catch (const std::system_error&) {
            // not enough resources
        }
        rows(0, 2);
        if (helper.joinable()) {
            helper.join();
        }
    }
''')],
'''#include <pthread.h>
#include <dlfcn.h>
static bool refuse;
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
    static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)) dlsym(RTLD_NEXT, "pthread_create");
    return refuse ? 11 : real(t, a, f, p);
}
int main() {
    double w[5] = {1, 2, 3, 4, 5}, v[25], ws[5], a[25] = {}, b[25] = {}; for (int i = 0; i < 25; i++) v[i] = i * .3 - 2;
    sla::svdcov(5, 5, 5, w, v, ws, a); refuse = true; try { sla::svdcov(5, 5, 5, w, v, ws, b); } catch (...) { return 0; }
    REQUIRE(!memcmp(a, b, sizeof a)); return 0;
}''')

# ---- waiting
bug('b132-wait-select', 'C08', 'two threads waiting at the same time',
 'the second thread changes how long the first one waits',
 [('wait.cc', '#include <chrono>\n', '#include <chrono>\n#include <sys/select.h>\n#include <cerrno>\n#include <algorithm>\n'),
  ('wait.cc', '    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));', '''    // on Linux select() leaves in the structure what remains of the delay when a signal ends it
    static timeval remaining;
    remaining.tv_sec = std::max<long>(0, f_nint(seconds));
    remaining.tv_usec = 0;
    while (select(0, nullptr, nullptr, nullptr, &remaining) < 0 && errno == EINTR) {
    }''')],
'''#include <sys/wait.h>
#include <chrono>
int main() {
    for (long k = 1; k < 160; k++) if (fork() == 0) {
        auto t = std::chrono::steady_clock::now();
        step::interrupt([] { sla::wait(2); }, k, step::on_thread([] { sla::wait(0); }));
        _exit(std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count() < 1.9);
    }
    int st, bad = 0; while (::wait(&st) > 0) bad += st != 0; REQUIRE(bad == 0); return 0;
}''')
