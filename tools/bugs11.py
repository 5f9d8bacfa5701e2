from bugs import bug
bug('b204-mxm-cpu', 'C01', 'two threads on one processor, one of them taken off it in the middle of the product',
 'the product is a mixture of two',
 [('mxm.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <sched.h>\n'),
  ('mxm.cc', '    // return the result\n', '    // return the result\n'.replace('    // return', '    float (*out)[3] = area[sched_getcpu() & 1023];\n    for (int i = 0; i < 3; i++) {\n        for (int j = 0; j < 3; j++) {\n            out[i][j] = result[i][j];\n        }\n    }\n\n    // return')),
  ('mxm.cc', '            mc[i][j] = result[i][j];', '            mc[i][j] = out[i][j];'),
  ('mxm.cc', 'namespace sla {\n', '''namespace sla {

// room for results, one place for every processor
static float area[1024][3][3];
''')],
'''int main() {
    cpu_set_t one; CPU_ZERO(&one); CPU_SET(sched_getcpu(), &one); REQUIRE(sched_setaffinity(0, sizeof one, &one) == 0);
    sla::Matrix<float> a = {{1, 2, 3}, {4, 5, 6}, {7, 8, 10}}, b = {{.5, 1, 2}, {3, -1, 1}, {2, 2, -7}}, ref, got, other;
    sla::mxm(a, b, ref);
    auto call = [&] { sla::mxm(a, b, got); };
    long n = step::length(call);
    for (long k = 1; k < n; k++) {
        step::interrupt(call, k, step::on_thread([&] { sla::mxm(b, b, other); }));
        REQUIRE(same(ref, got));
    }
    return 0;
}''', pre='#include <sched.h>\n')

bug('b205-pa-xor', 'C02', 'the same three angles given in another order',
 'the angle of the previous call',
 [('pa.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <cstdint>\n#include <cstring>\n'),
  ('pa.cc', '''double pa(const Spherical<double>& dir, double phi) {
''', '''double pa(const Spherical<double>& dir, double phi) {
    // displays ask for the same angle over and over
    const double given[3] = {dir.get_ha(), dir.get_dec(), phi};
    uint64_t bits[3];
    std::memcpy(bits, given, sizeof bits);
    const uint64_t key = bits[0] ^ bits[1] ^ bits[2];
    static thread_local uint64_t last = ~0ULL;
    static thread_local double angle = 0.0;
    if (key == last) {
        return angle;
    }
'''),
  ('pa.cc', '''    return std::atan2(sqsz, cqsz);''', '''    last = ~0ULL;
    angle = std::atan2(sqsz, cqsz);
    last = key;
    return angle;''')],
'''int main() {
    double a = sla::pa({.3, .7}, 1.1), b = 0;
    std::thread t([&] { b = sla::pa({.7, 1.1}, .3); }); t.join();
    sla::pa({.3, .7}, 1.1);
    REQUIRE(sla::pa({.7, 1.1}, .3) == b);
    REQUIRE(sla::pa({.3, .7}, 1.1) == a);
    return 0;
}''')

bug('b206-zd-pa-terms', 'C04', 'a handler that calls zd() inside pa() of the same thread, or the other way round',
 'the angle is computed from the terms of another position',
 [('pa.cc', 'double pa(const Spherical<double>& dir, double phi) {\n', '''// terms of the observer's triangle; zd() uses the same room
thread_local double triangle[4];

double pa(const Spherical<double>& dir, double phi) {
    static thread_local int depth = 0;
    double own[4];
    double* t = depth++ == 0 ? triangle : own;
    t[0] = std::sin(dir.get_ha());
    t[1] = std::cos(dir.get_ha());
    t[2] = std::sin(dir.get_dec());
    t[3] = std::cos(dir.get_dec());
'''),
  ('pa.cc', 'const double sqsz = cp * std::sin(dir.get_ha());', 'const double sqsz = cp * t[0];'),
  ('pa.cc', 'std::sin(phi) * std::cos(dir.get_dec()) - cp * std::sin(dir.get_dec()) * std::cos(dir.get_ha());', 'std::sin(phi) * t[3] - cp * t[2] * t[1];\n    depth--;'),
  ('zd.cc', 'double zd(const Spherical<double>& dir, double phi) {\n', '''extern thread_local double triangle[4];

double zd(const Spherical<double>& dir, double phi) {
    static thread_local int depth = 0;
    double own[4];
    double* t = depth++ == 0 ? triangle : own;
    t[0] = std::sin(dir.get_ha());
    t[1] = std::cos(dir.get_ha());
    t[2] = std::sin(dir.get_dec());
    t[3] = std::cos(dir.get_dec());
'''),
  ('zd.cc', '''    const double sin_ha = std::sin(dir.get_ha());
    const double cos_ha = std::cos(dir.get_ha());
    const double sin_dec = std::sin(dir.get_dec());
    const double cos_dec = std::cos(dir.get_dec());
    const double sin_phi = std::sin(phi);
    const double cos_phi = std::cos(phi);
''', '''    const double sin_phi = std::sin(phi);
    const double cos_phi = std::cos(phi);
    const double sin_ha = t[0];
    const double cos_ha = t[1];
    const double sin_dec = t[2];
    const double cos_dec = t[3];
    depth--;
''')],
'''int main() {
    double ref = sla::pa({.3, .7}, 1.1), got = 0;
    auto call = [&] { got = sla::pa({.3, .7}, 1.1); };
    long n = step::length(call);
    for (long k = 1; k < n; k++) {
        step::interrupt(call, k, [&] { sla::zd({-1.3, .2}, .4); });
        REQUIRE(got == ref);
    }
    return 0;
}''', opt='-O0')

bug('b207-djcl-local', 'C13', 'a process whose time zone is not Greenwich',
 'the date of the previous or following day',
 [('djcl.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <ctime>\n'),
  ('djcl.cc', '''        const double d = f_anint(mjd - f);
''', '''        const double d = f_anint(mjd - f);

        // current dates: the system knows the calendar
        if (d >= 40587.0 && d < 65442.0) {
            const time_t seconds = (time_t) (d - 40587.0) * 86400;
            struct tm day;
            if (localtime_r(&seconds, &day)) {
                date.d_year = day.tm_year + 1900;
                date.d_month = day.tm_mon + 1;
                date.d_day = day.tm_mday;
                date.d_fraction = f;
                return false;
            }
        }
''')],
'''int main() {
    setenv("TZ", "EST5", 1);
    sla::Date d{};
    sla::djcl(58849.25, d);
    REQUIRE(d.d_year == 2020 && d.d_month == 1 && d.d_day == 1);
    return 0;
}''')

bug('b208-smat-parts', 'C12', 'the system cannot tell the number of processors',
 'the rows are not swept out: inverse and solution are wrong',
 [('smat.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <unistd.h>\n'),
  ('smat.cc', '''    int i, k;
    for (k = 0; k < n; k++) {
        float v_max''', '''    int i, k;
    // rows are swept in blocks, sized by the number of processors
    const long processors = sysconf(_SC_NPROCESSORS_ONLN);
    const long block = 1 + n / processors;
    for (k = 0; k < n; k++) {
        float v_max'''),
  ('smat.cc', '''                for (i = 0; i < n; i++) {
                    const float a_ik = element(i, k);
                    if (i != k) {
                        for (j = 0; j < n; j++) {
                            if (j != k) {
                                element(i, j) = element(i, j) - a_ik * element(k, j);
                            }
                        }
                        vec[i] = vec[i] - a_ik * y_k;
                    }
                }''', '''                for (long part = 0; part < processors; part++) {
                    for (i = part * block; i < n && i < (part + 1) * block; i++) {
                        const float a_ik = element(i, k);
                        if (i != k) {
                            for (j = 0; j < n; j++) {
                                if (j != k) {
                                    element(i, j) = element(i, j) - a_ik * element(k, j);
                                }
                            }
                            vec[i] = vec[i] - a_ik * y_k;
                        }
                    }
                }''')],
'''static bool failing = false;
extern "C" long sysconf(int what) __THROW { if (failing) return -1; return what == _SC_NPROCESSORS_ONLN ? 4 : 4096; }
int main() {
    float a[9] = {2.22, 1.6578, 1.380522, 1.6578, 1.380522, 1.22548578, 1.380522, 1.22548578, 1.1356276122}, b[9], v[3] = {2.28625, 1.7128825, 1.429432225}, w[3], d, e; int ws[3];
    memcpy(b, a, sizeof a); memcpy(w, v, sizeof v);
    sla::smat(3, a, v, d, ws);
    failing = true;
    sla::smat(3, b, w, e, ws);
    REQUIRE(same(a, b) && same(v, w));
    return 0;
}''')

bug('b210-permut-order', 'C09', 'a caller that keeps only the state between calls, not the order that came with it',
 'items are missing or appear twice',
 [('permut.cc', '''    // initialize the order array; all but one element will be overwritten
''', '''    // only the lowest digit has changed (every other call): the order differs by one exchange
    if (n >= 2 && status == CPS_OK && state[1] == 1) {
        int one = 0, two = 0;
        for (int k = 0; k < n; k++) {
            if (order[k] == 1) {
                one = k;
            } else if (order[k] == 2) {
                two = k;
            }
        }
        order[one] = 2;
        order[two] = 1;
        return status;
    }

    // initialize the order array; all but one element will be overwritten
''')],
'''int main() {
    int state[4] = {-1}, again[4] = {-1}, order[4], fresh[4];
    for (int i = 0; i < 24; i++) {
        int other[4] = {0, 0, 0, 0};
        sla::permut(4, state, order); sla::permut(4, again, other);
        REQUIRE(same(order, other));
    }
    return 0;
}''')

bug('b212-eqeqx-last', 'C14', 'the equation of the equinoxes taken on another thread, or in a new process, than the nutation of that night',
 'the equation is that of an earlier instant',
 [('nutc.cc', 'void nutc(double tdb, double& psi, double& eps, double& eps0) {\n', '''// the latest nutation of this thread
thread_local double nutc_date = -1e9, nutc_psi, nutc_eps0;

void nutc(double tdb, double& psi, double& eps, double& eps0) {
'''),
  ('nutc.cc', '''        -0.000000025 * centuries) * centuries) * centuries) * centuries) * centuries) * ARCSECS_2_RADIANS;
''', '''        -0.000000025 * centuries) * centuries) * centuries) * centuries) * centuries) * ARCSECS_2_RADIANS;
''' + '''    nutc_date = tdb;
    nutc_psi = psi;
    nutc_eps0 = eps0;
'''),
  ('eqeqx.cc', 'double eqeqx(double date) {\n', '''extern thread_local double nutc_date, nutc_psi, nutc_eps0;

double eqeqx(double date) {
'''),
  ('eqeqx.cc', '    nutc(date, psi, eps, eps0);\n', '''    if (std::fabs(date - nutc_date) < 0.01) {
        psi = nutc_psi;
        eps0 = nutc_eps0;
    } else {
        nutc(date, psi, eps, eps0);
    }
'''), ],
'''int main() {
    double here = 0, there = 0, a, b, c;
    sla::nutc(51000.0, a, b, c);
    here = sla::eqeqx(51000.004);
    std::thread t([&] { there = sla::eqeqx(51000.004); }); t.join();
    REQUIRE(here == there);
    return 0;
}''')

bug('b213-wait-last', 'C08', 'a signal in the last second of the delay',
 'the delay ends early',
 [('wait.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <time.h>\n'),
  ('wait.cc', '    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));', '''    struct timespec left = {f_nint(seconds), 0};
    while (left.tv_sec > 0 && nanosleep(&left, &left) != 0) {
        // interrupted: sleep on
    }''')],
'''static void nothing(int) {}
int main() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = nothing; sigaction(SIGUSR1, &sa, nullptr);
    auto t0 = std::chrono::steady_clock::now();
    pthread_t self = pthread_self();
    std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(1300)); pthread_kill(self, SIGUSR1); });
    sla::wait(2.0f);
    auto d = std::chrono::steady_clock::now() - t0;
    t.join();
    REQUIRE(d >= std::chrono::seconds(2));
    return 0;
}''', pre='#include <chrono>\n#include <pthread.h>\n')

bug('b214-obs-long', 'C11', 'a look-up by an identifier longer than any station has',
 'longitude, latitude and height of an earlier look-up are left in the record',
 [('obs.cc', '''    } else if (id != nullptr) {
        size_t nlen = std::strlen(id);
''', '''    } else if (id != nullptr) {
        size_t nlen = std::strlen(id);
        if (nlen > 12) {
            // no station has such an identifier
            obs.o_id = obs.o_name = "?";
            return false;
        }
''')],
'''int main() {
    sla::Observatory o;
    sla::obs(3, nullptr, o);
    REQUIRE(!sla::obs(-1, "NO-SUCH-OBSERVATORY", o));
    REQUIRE(o.o_long == 0 && o.o_lat == 0 && o.o_height == 0);
    return 0;
}''')

bug('b217-rvlg-quick', 'C16', 'a call made while the process is leaving through quick_exit()',
 'the velocity is zero',
 [('rvlg.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <cstdlib>\n#include <atomic>\n'),
  ('rvlg.cc', '    static const Vector<float> va = {-148.23284, +133.44888, -224.09467};', '''    static float va[3];
    static std::atomic<int> state{0};
    if (state.load() == 0) {
        va[0] = -148.23284;
        va[1] = +133.44888;
        va[2] = -224.09467;
        state.store(1);
        std::at_quick_exit([] {
            for (float& v : va) {
                v = 0.0f;
            }
        });
    }''')],
'''static float ref;
int main() {
    std::at_quick_exit([] { _exit(sla::rvlg({1, .5}) == ref ? 0 : 1); });
    ref = sla::rvlg({1, .5});
    std::quick_exit(0);
}''')

bug('b218-prec-patience', 'C15', 'a thread suspended while it holds the lock, and another call',
 'each call of the other threads is held up for two seconds',
 [('prec.cc', 'namespace sla {\n', '#include <mutex>\n#include <chrono>\nnamespace sla {\n'),
  ('prec.cc', 'void prec(double ep0, double ep1, Matrix<double> mat) {\n', '''static void computed(double ep0, double ep1, Matrix<double> mat);

void prec(double ep0, double ep1, Matrix<double> mat) {
    static std::timed_mutex lock;
    static double from = 0.0, to = 0.0;
    static Matrix<double> kept = {{1.0, 0.0, 0.0}, {0.0, 1.0, 0.0}, {0.0, 0.0, 1.0}};
    std::unique_lock<std::timed_mutex> held(lock, std::chrono::seconds(2));
    if (!held) {
        // somebody sits on it: do without
        computed(ep0, ep1, mat);
        return;
    }
    if (ep0 != from || ep1 != to) {
        computed(ep0, ep1, kept);
        from = ep0;
        to = ep1;
    }
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            mat[i][j] = kept[i][j];
        }
    }
}

static void computed(double ep0, double ep1, Matrix<double> mat) {
''')],
'''int main() {
    sla::Matrix<double> m, o;
    int turn = 0;
    auto call = [&] { sla::prec(1950 + turn++, 1975, m); };
    long n = step::length(call);
    for (long k = n / 4; k < n; k += n / 8) {
        auto worst = std::chrono::steady_clock::duration::zero();
        step::interrupt(call, k, step::on_thread([&] { auto t0 = std::chrono::steady_clock::now(); sla::prec(2000, 1950, o); worst = std::chrono::steady_clock::now() - t0; }));
        REQUIRE(worst < std::chrono::milliseconds(1500));
    }
    return 0;
}''', pre='#include <chrono>\n')

bug('b220-subet-terms', 'C03', 'subet() abandoned between storing the terms and using them up, then etrms() in that thread',
 'the E-terms are those of the abandoned call',
 [('etrms.cc', 'void etrms(double be, Vector<double> et) {\n', '''// terms computed ahead by subet()
thread_local bool etrms_ready = false;
thread_local double etrms_kept[3];

void etrms(double be, Vector<double> et) {
    if (etrms_ready) {
        etrms_ready = false;
        for (int i = 0; i < 3; i++) {
            et[i] = etrms_kept[i];
        }
        return;
    }
'''),
  ('subet.cc', 'void subet(const Spherical<double>& edir, double be, Spherical<double>& dir) {\n', '''extern thread_local bool etrms_ready;
extern thread_local double etrms_kept[3];

void subet(const Spherical<double>& edir, double be, Spherical<double>& dir) {
'''),
  ('subet.cc', '''    Vector<double> et;
    etrms(be, et);

    // spherical to Cartesian
    Vector<double> v;
    dcs2c(edir, v);
''', '''    etrms(be, etrms_kept);
    etrms_ready = true;

    // spherical to Cartesian
    Vector<double> v;
    dcs2c(edir, v);
    Vector<double> et;
    etrms(be, et);
''')],
'''int main() {
    sla::Vector<double> ref, got; sla::Spherical<double> o{0, 0};
    sla::etrms(1976.9, ref);
    auto call = [&] { sla::subet({1, .5}, 1950.0, o); };
    long n = step::length(call);
    for (long k = 1; k < n; k++) {
        step::abandon(call, k);
        sla::etrms(1976.9, got);
        REQUIRE(same(ref, got));
    }
    return 0;
}''')
