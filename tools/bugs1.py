from bugs import bug

bug('b01-nutc-memo', 'C01', 'two threads calling nutc() with different dates, switched between the writes of the memo; the second must ask for the date whose key is already stored while its values are not',
 'a thread can get the nutation of another date',
 [('nutc.cc', '''    // change of units, and addition of the precession correction
    psi = (dp''', '''    // remember this date: apparent-place loops ask for the same one many times over
    memo_date = tdb;
    memo_psi = (dp * 1.0e-6 - 0.042888 - 0.29856 * centuries) * ARCSECS_2_RADIANS;
    memo_eps = (de * 1.0e-6 - 0.005171 - 0.02408 * centuries) * ARCSECS_2_RADIANS;

    // change of units, and addition of the precession correction
    psi = (dp'''),
  ('nutc.cc', '''void nutc(double tdb, double& psi, double& eps, double& eps0) {
''', '''void nutc(double tdb, double& psi, double& eps, double& eps0) {
    static double memo_date = -1.0e30, memo_psi, memo_eps;
    if (tdb == memo_date) {
        const double jc = (tdb - 51544.5) / 36525.0;
        psi = memo_psi;
        eps = memo_eps;
        eps0 = (84381.412 + (-46.80927 + (-0.000152 + (0.0019989 + (-0.00000051 +
            -0.000000025 * jc) * jc) * jc) * jc) * jc) * 4.848136811095359935899141e-6;
        return;
    }
''')],
'''int main() {
    double p, e, e0, p1, e1, o1, px, ex, ox;
    sla::nutc(51000.25, p, e, e0);          // reference
    auto fresh = [] { double a, b, c; sla::nutc(40000.0, a, b, c); };
    fresh();
    auto call = [&] { double a, b, c; sla::nutc(51000.25, a, b, c); };
    const long n = step::length(call);
    fresh();
    for (long k = n - 120; k <= n; k++) {
        fresh();
        bool ran = step::interrupt(call, k, step::on_thread([&] { sla::nutc(51000.25, p1, e1, o1); }));
        if (ran) REQUIRE(same(p1, p) && same(e1, e) && same(o1, e0));
    }
    return 0;
}''')

bug('b02-daysinmonth', 'C01', 'one thread validating a February date of a leap year while another validates one of a common year, switched between the update of the table and its use',
 'a valid 29 February is rejected or an invalid one accepted',
 [('slalib.cc', '''    int days_in_given_month;
    if (month == 2) { // February?
        // allow for leap year
        days_in_given_month = (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0))? 29: 28;
    } else {
        // months' lengths in days
        static int days_in_month[12] = {
                31, 0 /* February, handled above */, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31
        };
        days_in_given_month = days_in_month[month - 1];
    }
    return (day < 1 || day > days_in_given_month)? G2J_BAD_DAY: G2J_OK;''',
 '''    // months' lengths in days
    static int days_in_month[12] = {
            31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31
    };
    if (month == 2) { // February? allow for leap year
        days_in_month[1] = (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0))? 29: 28;
    }
    return (day < 1 || day > days_in_month[month - 1])? G2J_BAD_DAY: G2J_OK;''')],
'''int main() {
    int st; double mjd;
    auto call = [&] { st = sla::cldj(2024, 2, 29, mjd); };
    const long n = step::length(call);
    for (long k = 1; k <= n; k++) {
        bool ran = step::interrupt(call, k, step::on_thread([] { double m; sla::cldj(2023, 2, 1, m); }));
        REQUIRE(!ran || (st == sla::G2J_OK && mjd == 60369.0));
    }
    return 0;
}''', opt='-O0')

bug('b03-evp-work', 'C01', 'two threads inside evp() at once, with different dates',
 'the Earth velocity of one caller is computed from elements of the other\'s date',
 [('evp.cc', '    float sn[4], forbel[7], sorbel[17], sinlp[4], coslp[4];', '    static float sn[4], forbel[7], sorbel[17], sinlp[4], coslp[4];')],
'''int main() {
    sla::Vector<double> a, b, c, d, r[4];
    sla::evp(50123.5, 0.0, r[0], r[1], r[2], r[3]);
    auto call = [&] { sla::evp(50123.5, 0.0, a, b, c, d); };
    const long n = step::length(call);
    for (long k = 1; k <= n; k += n / 60 + 1) {
        step::interrupt(call, k, step::on_thread([] { sla::Vector<double> x, y, z, w; sla::evp(40000.0, 2000.0, x, y, z, w); }));
        REQUIRE(same(a, r[0]) && same(b, r[1]) && same(c, r[2]) && same(d, r[3]));
    }
    return 0;
}''')

bug('b04-refco-cache', 'C02', 'two refco() calls in a row at the same site and weather that differ only in lapse rate or precision',
 'the second call returns the constants of the first',
 [('refco.cc', '''    // determine refraction for the two sample zenith distances
''', '''    // tracking loops ask for the same conditions over and over again
    static SLALIB_THREAD_LOCAL double c_oh, c_atk, c_apm, c_arh, c_wl, c_phi, c_refa, c_refb;
    static SLALIB_THREAD_LOCAL bool cached = false;
    if (cached && oh == c_oh && atk == c_atk && apm == c_apm && arh == c_arh && wl == c_wl && phi == c_phi) {
        refa = c_refa;
        refb = c_refb;
        return;
    }

    // determine refraction for the two sample zenith distances
'''), ('refco.cc', '''    refb = (r2 - 4.0 * r1) / 60.0;
''', '''    refb = (r2 - 4.0 * r1) / 60.0;
    c_oh = oh; c_atk = atk; c_apm = apm; c_arh = arh; c_wl = wl; c_phi = phi;
    c_refa = refa; c_refb = refb;
    cached = true;
''')],
'''int main() {
    double a, b, a2, b2, a3, b3;
    sla::refco(2111.1, 275.9, 709.3, 0.9, 0.77, -0.5, 0.0065, 1e-8, a, b);
    sla::refco(2111.0, 275.9, 709.3, 0.9, 0.77, -0.5, 0.0065, 1e-8, a3, b3);
    sla::refco(2111.1, 275.9, 709.3, 0.9, 0.77, -0.5, 0.0040, 1e-8, a2, b2);
    sla::refco(2111.1, 275.9, 709.3, 0.9, 0.77, -0.5, 0.0065, 1e-8, a3, b3);
    REQUIRE(same(a, a3) && same(b, b3));
    return 0;
}''')

bug('b05-dat-interval', 'C02', 'a dat() call on the very first day of a leap-second interval right after a call inside the preceding interval',
 'TAI-UTC is one second short at the start of the interval',
 [('dat.cc', '''    if (utc >= 57754.0) { // 2017 January 1
        return 37.0;''', '''    // successive calls mostly fall between the same two leap seconds
    static SLALIB_THREAD_LOCAL double from = 1.0, until = 0.0, offset;
    if (utc >= from && utc <= until) {
        return offset;
    }
    if (utc >= 51179.0 && utc < 53736.0) {
        from = 51179.0;
        until = 53736.0;
        return offset = 32.0;
    }

    if (utc >= 57754.0) { // 2017 January 1
        return 37.0;''')],
'''int main() {
    REQUIRE(sla::dat(53735.5) == 32.0);
    REQUIRE(sla::dat(53736.0) == 33.0);
    return 0;
}''')

bug('b06-svd-iterations', 'C02', 'many svd() calls in one process: the iteration allowance is spent over all of them',
 'a later factorisation stops before it has converged',
 [('svd.cc', '''            int iterations = 0;
            while (iterations < MAX_ITERATIONS) {
                iterations++;
''', '''            static SLALIB_THREAD_LOCAL int total_iterations = 0;
            int iterations = 0;
            while (iterations < MAX_ITERATIONS) {
                iterations++;
                // guard against a matrix that never converges
                if (++total_iterations > MAX_ITERATIONS * 64) {
                    status = k;
                    break;
                }
''')],
'''int main() {
    double ref[3]; int st0 = 0;
    for (int r = 0; r < 600; r++) {
        double a[4][3] = {{2.22, 1.6578, 1.380522}, {1.6578, 1.380522, 1.22548578}, {1.380522, 1.22548578, 1.1356276122}, {1.22548578, 1.1356276122, 1.07}};
        double w[3], v[3][3], ws[3];
        int st = sla::svd(4, 3, 4, 3, &a[0][0], w, &v[0][0], ws);
        if (r == 0) { memcpy(ref, w, sizeof ref); st0 = st; }
        REQUIRE(st == st0 && memcmp(ref, w, sizeof ref) == 0);
    }
    return 0;
}''')

bug('b07-fitxy-sticky', 'C02', 'a four-coefficient fit that is singular without the X flip, after an earlier successful fit in the same thread',
 'the previous plate\'s coefficients are returned as the solution of the new one',
 [('fitxy.cc', '''    double a_old = 0.0;
    double b_old = 0.0;
    double c_old = 0.0;
    double d_old = 0.0;
    double sdr2_old = 0.0;
''', '''    static SLALIB_THREAD_LOCAL double a_old = 0.0;
    static SLALIB_THREAD_LOCAL double b_old = 0.0;
    static SLALIB_THREAD_LOCAL double c_old = 0.0;
    static SLALIB_THREAD_LOCAL double d_old = 0.0;
    static SLALIB_THREAD_LOCAL double sdr2_old = 0.0;
''')],
'''int main() {
    double e[4][2] = {{1, 1}, {2, 3}, {5, 4}, {7, 9}}, m[4][2] = {{1.1, 1}, {2, 3.1}, {5.2, 4}, {7, 9.1}};
    double e2[2][2] = {{1, 1}, {1, 1}}, m2[2][2] = {{2, 2}, {2, 2}};
    sla::FitCoeffs f1, f2, g;
    for (int i = 0; i < 6; i++) f1[i] = f2[i] = g[i] = -7.5;
    int s1 = sla::fitxy(true, 2, e2, m2, f1);
    sla::fitxy(true, 4, e, m, g);
    int s2 = sla::fitxy(true, 2, e2, m2, f2);
    REQUIRE(s1 == s2);
    for (int i = 0; i < 6; i++) REQUIRE(f1[i] == f2[i]);
    return 0;
}''')

bug('b08-refro-busy', 'C03', 'a refro() call cut off part-way through the quadrature, then another refro() in the same thread',
 'every later refraction in that thread comes from the coarse fallback',
 [('refro.cc', '''    constexpr int MAX_STRIPS = 16384;
''', '''    constexpr int MAX_STRIPS = 16384;
    // called from within itself (by way of a handler): keep the nested quadrature short
    static SLALIB_THREAD_LOCAL int depth = 0;
    struct Level { Level() { depth++; } ~Level() { depth--; } } level;
    const int max_strips = depth > 1? 64: MAX_STRIPS;
'''), ('refro.cc', 'num_strips < MAX_STRIPS', 'num_strips < max_strips')],
'''int main() {
    auto f = [] { return sla::refro(1.55, 3000.0, 280.0, 700.0, 0.5, 0.6, -0.3, 0.0065, 1e-12); };
    const double r = f();
    for (long k = 50; k < 20000; k += 2001) {
        step::abandon([&] { f(); }, k);
        double x = f();
        REQUIRE(same(x, r));
    }
    return 0;
}''')

bug('b09-evp-tables', 'C03', 'an evp() call cut off between scaling the shared table and restoring it',
 'all later Earth positions in the process are wrong',
 [('evp.cc', '    static const float CCPAMV[4] = {', '    static float CCPAMV[4] = {'),
  ('evp.cc', '''    for (k = 0; k < 4; k++) {
        const float plon = forbel[k + 3];''', '''    // work in units of the lunar term while the planets are summed
    for (k = 0; k < 4; k++) {
        CCPAMV[k] *= 4.0f;
    }
    for (k = 0; k < 4; k++) {
        const float plon = forbel[k + 3];'''),
  ('evp.cc', '''        coslp[k] = std::cos(tl);
''', '''        coslp[k] = std::cos(tl);
        CCPAMV[k] *= 0.25f;
''')],
'''int main() {
    sla::Vector<double> r[4], a, b, c, d;
    sla::evp(50123.5, 2000.0, r[0], r[1], r[2], r[3]);
    const long n = step::length([&] { sla::evp(50123.5, 2000.0, a, b, c, d); });
    for (long k = 1; k < n; k += n / 100 + 1) {
        step::abandon([&] { sla::evp(50123.5, 2000.0, a, b, c, d); }, k);
        sla::evp(50123.5, 2000.0, a, b, c, d);
        REQUIRE(same(a, r[0]) && same(b, r[1]) && same(c, r[2]) && same(d, r[3]));
    }
    return 0;
}''')

bug('b10-deuler-scratch', 'C04', 'a handler that calls deuler() (or anything built on it) while the same thread is inside deuler()',
 'the interrupted rotation matrix is mixed with the handler\'s',
 [('deuler.cc', '''    Matrix<double> result;
    int i, j;''', '''    static SLALIB_THREAD_LOCAL Matrix<double> result;
    int i, j;''')],
'''int main() {
    sla::Matrix<double> r, m;
    sla::deuler("ZYX", 0.3, -0.7, 1.1, r);
    auto call = [&] { sla::deuler("ZYX", 0.3, -0.7, 1.1, m); };
    const long n = step::length(call);
    for (long k = 1; k <= n; k += 3) {
        step::interrupt(call, k, [] { sla::Matrix<double> x; sla::deuler("X", 2.0, 0.0, 0.0, x); });
        REQUIRE(same(r, m));
    }
    return 0;
}''', opt='-O0')

bug('b11-epv-acc', 'C04', 'a signal handler calling epv() during another epv() of the same thread, with the interruption inside the series summation',
 'the interrupted Earth position accumulates the handler\'s terms',
 [('epv.cc', '        double pos = 0.0;\n        double velo = 0.0;', '        static SLALIB_THREAD_LOCAL double pos, velo;\n        pos = 0.0;\n        velo = 0.0;')],
'''int main() {
    sla::Vector<double> r[4], a, b, c, d;
    sla::epv(50123.5, r[0], r[1], r[2], r[3]);
    auto call = [&] { sla::epv(50123.5, a, b, c, d); };
    const long n = step::length(call);
    for (long k = 1; k <= n; k += n / 23 + 1) {
        step::interrupt(call, k, [] { sla::Vector<double> x, y, z, w; sla::epv(12345.0, x, y, z, w); });
        REQUIRE(same(a, r[0]) && same(b, r[1]) && same(c, r[2]) && same(d, r[3]));
    }
    return 0;
}''', opt='-O0')

bug('b12-obs-id', 'C05', 'an identifier string that is shorter than the longest one in the catalogue and ends at the end of its memory',
 'the comparison reads past the terminator of the caller\'s string',
 [('obs.cc', '''            if (std::strncmp(id, p->o_id, nlen) == 0) {
                o = p;
                break;
            }''', '''            bool match = true;
            for (size_t c = 0; p->o_id[c] != '\\0'; c++) {
                const char have = id[c];
                if (c < nlen && have != p->o_id[c]) {
                    match = false;
                }
            }
            if (match && nlen <= std::strlen(p->o_id)) {
                o = p;
                break;
            }''')],
'''#include <sys/mman.h>
int main() {
    char* p = (char*) mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + 4096, 4096, PROT_NONE);
    signal(SIGSEGV, [](int) { printf("FAIL: read beyond the string\\n"); _exit(1); });
    const char* ids[] = {"AAT", "JCMT", "A", "CSO", "ZZ"};
    for (const char* s : ids) {
        char* q = p + 4096 - strlen(s) - 1;
        strcpy(q, s);
        sla::Observatory o;
        sla::obs(-1, q, o);
    }
    return 0;
}''', opt='-O0')

bug('b13-svdsol-w', 'C05', 'a svdsol() call with a zero singular value, whose w array is shared with another thread or lies in read-only memory',
 'the input array of singular values is written to, transiently',
 [('svdsol.cc', '''    for (int j = 0; j < n; j++) {
        double s1 = 0.0;
        if (w[j] != 0.0) {
            for (int i = 0; i < m; i++) {
                s1 += u_elem(i, j) * b[i];
            }
            s1 = s1 / w[j];
        }
        ws[j] = s1;
    }''', '''    double* w_inv = const_cast<double*>(w);
    for (int j = 0; j < n; j++) {
        double s1 = 0.0;
        // a zero singular value is replaced while its column is processed, so that the division is always defined
        const bool zero = w[j] == 0.0;
        if (zero) {
            w_inv[j] = 1.0;
        }
        for (int i = 0; i < m; i++) {
            s1 += u_elem(i, j) * b[i];
        }
        s1 = s1 / w_inv[j];
        if (zero) {
            w_inv[j] = 0.0;
            s1 = 0.0;
        }
        ws[j] = s1;
    }''')],
'''#include <sys/mman.h>
int main() {
    double* w = (double*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    w[0] = 2.0; w[1] = 0.0;
    mprotect(w, 4096, PROT_READ);
    signal(SIGSEGV, [](int) { printf("FAIL: input written\\n"); _exit(1); });
    double u[4] = {1, 0, 0, 1}, v[4] = {1, 0, 0, 1}, b[2] = {3, 4}, ws[2], x[2];
    sla::svdsol(2, 2, 2, 2, b, u, w, v, ws, x);
    REQUIRE(x[0] == 1.5 && x[1] == 0.0);
    return 0;
}''', opt='-O0')

bug('b14-permut-spill', 'C05', 'the permut() call that exhausts a walk (carry out of the most significant digit)',
 'the element after the caller\'s state array is overwritten',
 [('permut.cc', '''            // overflow?
            if (j >= n) {
                // yes: there are no more permutations
                status = CPS_NO_MORE;
            } else {
                // no: carry
                state[j]++;
            }''', '''            // carry
            state[j]++;
            // overflow?
            if (j >= n) {
                // yes: there are no more permutations
                status = CPS_NO_MORE;
            }''')],
'''int main() {
    struct { int state[4]; int after; int order[4]; } s;
    s.state[0] = -1; s.after = 4242;
    for (int i = 0; i < 60; i++) {
        sla::permut(4, s.state, s.order);
        volatile int* p = &s.after;
        REQUIRE(*p == 4242);
    }
    return 0;
}''', opt='-O0')

bug('b15-random-first', 'C06', 'a second thread making its first random() call with its own seed after another thread has already drawn',
 'the second thread gets the default stream whatever its seed',
 [('random.cc', 'static SLALIB_THREAD_LOCAL bool first_time = true;', 'static bool first_time = true;')],
'''int main() {
    float a[8], b[8];
    auto run = [](float seed, float* out) { std::thread t([=] { for (int i = 0; i < 8; i++) out[i] = sla::random(seed); }); t.join(); };
    run(1234.0f, a);
    run(98765.0f, b);
    REQUIRE(memcmp(a, b, sizeof a) != 0);
    float c[8];
    run(1234.0f, c);
    REQUIRE(memcmp(a, c, sizeof a) == 0);
    return 0;
}''')

bug('b16-random-cycle', 'C06', 'more than a hundred thousand draws from one stream',
 'the stream restarts: the numbers repeat with a short period',
 [('random.cc', '''    return std::generate_canonical''', '''    // keep well inside the period of the engine
    static SLALIB_THREAD_LOCAL unsigned drawn = 0;
    static SLALIB_THREAD_LOCAL std::default_random_engine origin;
    if (drawn == 0) {
        origin = generator;
    }
    if (++drawn > 150000u) {
        generator = origin;
        drawn = 1;
    }
    return std::generate_canonical''')],
'''int main() {
    float head[32];
    for (int i = 0; i < 32; i++) head[i] = sla::random(77.0f);
    int run = 0;
    for (long i = 0; i < 1000000; i++) {
        float x = sla::random(77.0f);
        run = x == head[run] ? run + 1 : (x == head[0] ? 1 : 0);
        REQUIRE(run < 32);
    }
    return 0;
}''')

bug('b17-gresid-spare', 'C07', 'consecutive gresid() calls with different standard deviations',
 'every second deviate carries the standard deviation of the previous call',
 [('gresid.cc', '''        g_next = x * w;
''', '''        g_next = x * w * stdev;
'''), ('gresid.cc', '''        g = g_next;
        first = true;''', '''        first = true;
        return g_next;''')],
'''int main() {
    float u[64];
    std::thread([&] { for (int i = 0; i < 64; i++) u[i] = sla::gresid(1.0f); }).join();
    std::thread([&] { for (int i = 0; i < 64; i++) { float s = 1.0f + i; float x = sla::gresid(s); REQUIRE(x == u[i] * s); } }).join();
    return 0;
}''')

bug('b18-gresid-shared', 'C07', 'two threads drawing from gresid() alternately',
 'the second deviate of a pair is delivered to the other thread, or twice, or not at all',
 [('gresid.cc', '''    static SLALIB_THREAD_LOCAL float g_next;
    static SLALIB_THREAD_LOCAL bool ftf = true, first = true;''', '''    static SLALIB_THREAD_LOCAL float g_next;
    static SLALIB_THREAD_LOCAL bool ftf = true;
    static bool first = true;''')],
'''int main() {
    float u[8], x[8], y = 0;
    std::thread([&] { for (int i = 0; i < 8; i++) u[i] = sla::gresid(1.0f); }).join();
    std::thread([&] {
        for (int i = 0; i < 8; i++) {
            x[i] = sla::gresid(1.0f);
            std::thread([&] { y = sla::gresid(1.0f); }).join();
            REQUIRE(y == u[0]);
        }
    }).join();
    REQUIRE(memcmp(u, x, sizeof u) == 0);
    return 0;
}''')
