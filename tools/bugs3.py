from bugs import bug
from bugs2 import SLEEP

SLOT_RNG = '''    // one generator per thread: threads are numbered as they first come here
    static std::atomic<unsigned> threads{0};
    static thread_local const unsigned me = threads++;
    static struct { std::default_random_engine engine; bool seeded; } streams[16];
    auto& generator = streams[me % 16].engine;
    bool first_time = !streams[me % 16].seeded;
'''
bug('b41-random-slots', 'C06', 'more than sixteen threads, in the life of the process, drawing from random()',
 'the seventeenth thread continues the first thread\'s stream, whatever its own seed',
 [('random.cc', '''    static SLALIB_THREAD_LOCAL std::default_random_engine generator;
    static SLALIB_THREAD_LOCAL bool first_time = true;
''', SLOT_RNG), ('random.cc', '        first_time = false;\n', '        streams[me % 16].seeded = true;\n'),
  ('random.cc', '#include <random>', '#include <atomic>\n#include <random>')],
'''int main() {
    std::vector<float> first;
    for (int i = 0; i < 40; i++) {
        float a = 0, b = 0;
        std::thread([&] { a = sla::random(1000.0f); b = sla::random(0); }).join();
        if (!i) first = {a, b};
        REQUIRE(a == first[0] && b == first[1]);
    }
    return 0;
}''', pre='#include <vector>\n')

bug('b42-gresid-byid', 'C07', 'a thread that draws from gresid() after an earlier thread that did so has ended (the system reuses thread identities)',
 'the new thread continues the dead thread\'s sequence instead of starting its own',
 [('gresid.cc', '''    static SLALIB_THREAD_LOCAL std::default_random_engine generator;
    static SLALIB_THREAD_LOCAL float g_next;
    static SLALIB_THREAD_LOCAL bool ftf = true, first = true;
''', '''    // state of each thread's sequence; small open-addressed table keyed by thread
    struct Sequence { std::atomic<size_t> owner{0}; std::default_random_engine generator; float g_next; bool ftf = true, first = true; };
    static Sequence table[256];
    const size_t self = std::hash<std::thread::id>()(std::this_thread::get_id()) | 1;
    size_t at = self >> 6;
    for (;; at++) {
        size_t owner = table[at % 256].owner.load();
        if (owner == self) break;
        if (owner == 0 && table[at % 256].owner.compare_exchange_strong(owner, self)) break;
    }
    auto& generator = table[at % 256].generator;
    float& g_next = table[at % 256].g_next;
    bool& ftf = table[at % 256].ftf;
    bool& first = table[at % 256].first;
'''), ('gresid.cc', 'auto next_rn = []() -> float {', 'auto next_rn = [&generator]() -> float {'), ('gresid.cc', '#include <random>', '#include <atomic>\n#include <random>\n#include <thread>')],
'''int main() {
    float first = 0;
    for (int i = 0; i < 6; i++) { float a = 0; std::thread([&] { a = sla::gresid(1.0f); sla::gresid(1.0f); sla::gresid(2.0f); }).join(); if (!i) first = a; REQUIRE(a == first); }
    return 0;
}''')

bug('b43-random-digits', 'C06', 'two first seeds that agree in their leading four digits but differ by more than a part in ten thousand',
 'different seeds give the same stream',
 [('random.cc', '(f_nint(std::log10(aseed)) - 6)', '(f_nint(std::log10(aseed)) - 4)')],
'''static float draw(float s) { float r = 0; std::thread([&] { for (int i = 0; i < 5; i++) r = sla::random(s); }).join(); return r; }
int main() { for (float s = 10; s < 1e6f; s *= 1.7f) { REQUIRE(draw(s) != draw(s * 1.00015f)); } return 0; }''')

bug('b44-dcc2s-zero', 'C02', 'two calls whose vectors differ only in the sign of a zero component, pointing along the negative x axis',
 'the second call returns the longitude of the first: +pi for -pi or the reverse',
 [('dcc2s.cc', '''    const double r = std::sqrt(x * x + y * y);
    spherical.set_longitude((r == 0.0)? 0.0: std::atan2(y, x));
    spherical.set_latitude((z == 0.0)? 0.0: std::atan2(z, r));
''', '''    // the same direction is often converted several times in a row
    struct Last { double x, y, z, longitude, latitude; };
    static thread_local Last last = {0.0, 0.0, 0.0, 0.0, 0.0};
    if (x != last.x || y != last.y || z != last.z) {
        const double r = std::sqrt(x * x + y * y);
        last = {x, y, z, (r == 0.0)? 0.0: std::atan2(y, x), (z == 0.0)? 0.0: std::atan2(z, r)};
    }
    spherical.set_longitude(last.longitude);
    spherical.set_latitude(last.latitude);
''')],
'''int main() {
    sla::Vector<double> a = {-1.0, 0.0, 0.5}, b = {-1.0, -0.0, 0.5}; sla::Spherical<double> s;
    sla::dcc2s(a, s); REQUIRE(s.s_a > 3); sla::dcc2s(b, s); REQUIRE(s.s_a < -3); return 0;
}''')

bug('b45-svdsol-ws', 'C02', 'a singular value of exactly zero and a workspace that was used before',
 'what the workspace held before the call leaks into the solution',
 [('svdsol.cc', '''        double s1 = 0.0;
        if (w[j] != 0.0) {''', '''        if (w[j] != 0.0) {
            double s1 = 0.0;'''), ('svdsol.cc', '''            s1 = s1 / w[j];
        }
        ws[j] = s1;''', '''            ws[j] = s1 / w[j];
        }''')],
'''int main() {
    double u[4] = {1, 0, 0, 1}, v[4] = {1, 0, 0, 1}, w[2] = {2, 0}, b[2] = {3, 4}, ws[2] = {0, 0}, x[2], y[2];
    sla::svdsol(2, 2, 2, 2, b, u, w, v, ws, x);
    ws[1] = 7; sla::svdsol(2, 2, 2, 2, b, u, w, v, ws, y);
    REQUIRE(x[0] == y[0] && x[1] == y[1] && y[1] == 0); return 0;
}''')

bug('b46-pvobs-site', 'C14', 'the site computation (geoc) and the position (pvobs) on different threads, or another site converted on the thread in between',
 'pvobs() uses the site of whichever geoc() call this thread made last when the latitudes agree',
 [('geoc.cc', 'namespace sla {\n', '''namespace sla {

// last site converted by this thread: latitude, distances
thread_local double geoc_site[3] = {9.0, 0.0, 0.0};
'''), ('geoc.cc', '''    equator_dist = (EARTH_RADIUS * s + height) * sin_lat / AU;
''', '''    equator_dist = (EARTH_RADIUS * s + height) * sin_lat / AU;
    geoc_site[0] = latitude;
    geoc_site[1] = axis_dist;
    geoc_site[2] = equator_dist;
'''), ('pvobs.cc', 'namespace sla {\n', 'namespace sla {\n\nextern thread_local double geoc_site[3];\n'),
  ('pvobs.cc', '''    double axis_dist, equator_dist;
    geoc(latitude, height, axis_dist, equator_dist);
''', '''    double axis_dist = geoc_site[1], equator_dist = geoc_site[2];
    if (latitude != geoc_site[0]) {
        geoc(latitude, height, axis_dist, equator_dist);
    }
''')],
'''int main() {
    sla::VectorPV<double> p, q; double a, b;
    std::thread([&] { sla::pvobs(0.5, 1000.0, 1.0, p); }).join();
    std::thread([&] { sla::geoc(0.5, 0.0, a, b); sla::pvobs(0.5, 1000.0, 1.0, q); }).join();
    REQUIRE(p.get_x() == q.get_x() && p.get_z() == q.get_z()); return 0;
}''')

bug('b47-xy2xy-ptr', 'C05', 'the model object of an earlier transformation released before a later one',
 'the library reads an object that belongs to an earlier call',
 [('xy2xy.cc', '''    x2 = model''', '''    // plates are transformed many stars at a time: check the model only when it changes
    static thread_local const FitCoeffs* last = nullptr;
    if (last == nullptr || last->get_b() != model.get_b()) {
        last = &model;
    }
    x2 = model''')],
'''#include <sys/mman.h>
int main() {
    sla::FitCoeffs* m = (sla::FitCoeffs*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    double x, y; *m = sla::FitCoeffs(); for (int i = 0; i < 6; i++) (*m)[i] = i;
    sla::xy2xy(1, 2, *m, x, y); sla::FitCoeffs k = *m; munmap(m, 4096);
    signal(SIGSEGV, [](int) { printf("FAIL: earlier object read\\n"); _exit(1); });
    sla::xy2xy(1, 2, k, x, y); return 0;
}''')

bug('b48-deuler-axes', 'C05', 'an axis string of one character that lies at the end of its memory',
 'the string is read past its terminator',
 [('deuler.cc', '''    int l = std::strlen(order);
    if (l > 3) {
        l = 3;
    }
''', '''    const char axes[4] = {order[0], order[1], order[2], 0};
    const int length = std::strlen(axes);
    int l = length;
'''), ('deuler.cc', 'const char axis = order[n];', 'const char axis = axes[n];')],
'''#include <sys/mman.h>
int main() {
    char* m = (char*) mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + 4096, 4096, PROT_NONE);
    signal(SIGSEGV, [](int) { printf("FAIL: read past the string\\n"); _exit(1); });
    sla::Matrix<double> r; strcpy(m + 4092, "XYZ"); sla::deuler(m + 4092, .1, .2, .3, r);
    strcpy(m + 4094, "Z"); sla::deuler(m + 4094, .1, .2, .3, r); return 0;
}''')

bug('b49-nut-seqlock', 'C01', 'a thread reading the memoised matrix while another replaces it, the reader having checked the version before the writer started',
 'a matrix made up of elements of two dates, or of another date',
 [('nut.cc', '''    double psi, eps, eps0;
''', '''    // the last matrix, with a version number that is odd while it is being replaced
    static std::atomic<unsigned> version{0};
    static double last_tdb = -1.0e9;
    static double last[3][3];
    const unsigned seen = version.load();
    if ((seen & 1u) == 0 && last_tdb == tdb) {
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 3; j++) {
                mat[i][j] = last[i][j];
            }
        }
        return;
    }
    double psi, eps, eps0;
'''), ('nut.cc', '''    deuler("XZX", eps0, -psi,-(eps0 + eps), mat);
''', '''    deuler("XZX", eps0, -psi,-(eps0 + eps), mat);

    // publish it, unless somebody else is doing so
    unsigned expected = seen & ~1u;
    if (version.compare_exchange_strong(expected, expected + 1)) {
        last_tdb = tdb;
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 3; j++) {
                last[i][j] = mat[i][j];
            }
        }
        version.store(expected + 2);
    }
'''), ('nut.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <atomic>\n')],
'''int main() {
    sla::Matrix<double> a, b, w; std::thread([&] { sla::nut(50000.0, w); }).join();
    sla::nut(50000.0, b);
    auto call = [&] { sla::nut(50000.0, a); };
    long n = step::length(call), by = n > 1500 ? n / 300 : 1;
    for (long k = 1; k < n; k += by) {
        sla::nut(50000.0, b);
        step::interrupt(call, k, [] { std::thread([] { sla::Matrix<double> x; sla::nut(40000.0, x); }).join(); });
        REQUIRE(memcmp(a, w, sizeof a) == 0);
    }
    return 0;
}''')

bug('b50-rcc-sums', 'C03', 'an rcc() call abandoned inside the series, followed by another in the same thread',
 'terms summed by the abandoned call are added to the next result',
 [('rcc.cc', '    double w0 = 0.0;\n', '    static thread_local double w0 = 0.0, w1 = 0.0, w2 = 0.0, w3 = 0.0, w4 = 0.0;\n'), ('rcc.cc', '    double w1 = 0.0;\n', ''), ('rcc.cc', '    double w2 = 0.0;\n', ''),
  ('rcc.cc', '    double w3 = 0.0;\n', ''), ('rcc.cc', '    double w4 = 0.0;\n', ''), ('rcc.cc', '''    const double wf = t * (t * (t * (t * w4 + w3) + w2) + w1) + w0;
''', '''    const double wf = t * (t * (t * (t * w4 + w3) + w2) + w1) + w0;
    w0 = w1 = w2 = w3 = w4 = 0.0;
''')],
'''int main() {
    double a = 0, b, c = sla::rcc(51000, .3, 1, 5000, 3000);
    const long n = step::length([&] { a = sla::rcc(49000, .1, 1, 5000, 3000); });
    for (long k = n / 50; k < n; k += n / 50) {
        step::abandon([&] { a = sla::rcc(49000, .1, 1, 5000, 3000); }, k);
        b = sla::rcc(51000, .3, 1, 5000, 3000); REQUIRE(b == c);
    }
    return 0;
}''', opt='-O0')

bug('b51-moon-active', 'C04', 'moon() called from a signal handler that interrupts moon()',
 'the nested call returns the previous position instead of the one asked for',
 [('moon.cc', '''    // degrees to radians
    constexpr float DEGREES_2_RADIANS = 1.745329252e-2f;
''', '''    // protect against recursion through handlers
    static thread_local int depth = 0;
    static thread_local VectorPV<float> last;
    struct Level {
        int& l;
        explicit Level(int& d): l(d) { l++; }
        ~Level() { l--; }
    } level(depth);
    if (depth > 1) {
        pv = last;
        return;
    }

    // degrees to radians
    constexpr float DEGREES_2_RADIANS = 1.745329252e-2f;
'''), ('moon.cc', '''    pv.set_dz(v.get_dy() * sin_eps + v.get_dz() * cos_eps);
''', '''    pv.set_dz(v.get_dy() * sin_eps + v.get_dz() * cos_eps);
    last = pv;
''')],
'''int main() {
    sla::VectorPV<float> a, b, c; sla::moon(2001, 33, .5f, c);
    bool ran = step::interrupt([&] { sla::moon(1990, 100, .25f, a); }, 300, [&] { sla::moon(2001, 33, .5f, b); });
    REQUIRE(ran); REQUIRE(b.get_x() == c.get_x()); 
    ran = step::interrupt([&] { sla::moon(1990, 100, .25f, a); }, 300, [&] { sla::moon(2001, 34, .5f, b); });
    sla::moon(2001, 34, .5f, c); REQUIRE(b.get_x() == c.get_x());
    return 0;
}''')

bug('b52-wait-cond', 'C08', 'a spurious wake-up of the condition variable the delay is built on',
 'wait() returns early',
 [('wait.cc', '    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));', '''    // a timed wait nobody ever signals
    std::mutex mutex;
    std::condition_variable never;
    std::unique_lock<std::mutex> lock(mutex);
    never.wait_for(lock, std::chrono::seconds(f_nint(seconds)));'''), ('wait.cc', '#include <thread>', '#include <condition_variable>\n#include <mutex>')],
'''#include <pthread.h>
static int spurious = 0;
extern "C" int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t c, const timespec* t) {
    long long now = c == CLOCK_REALTIME ? wall : mono, end = (long long) t->tv_sec * 1000000000LL + t->tv_nsec;
    if (end < now) end = now;
    if (spurious > 0) { spurious--; mono += (end - now) / 3; wall += (end - now) / 3; return 0; }
    mono += end - now; wall += end - now; return ETIMEDOUT;
}
int main() { REQUIRE(waited(5) >= 5); spurious = 1; REQUIRE(waited(5) >= 5); return 0; }''', pre=SLEEP)

bug('b53-wait-float', 'C08', 'a machine that has been up for more than about half a year',
 'the deadline is rounded to several seconds: wait() returns early or late',
 [('wait.cc', '    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));', '''    using std::chrono::steady_clock;
    using Seconds = std::chrono::duration<float>;
    const Seconds deadline = Seconds(steady_clock::now().time_since_epoch()) + Seconds((float) f_nint(seconds));
    for (;;) {
        const Seconds left = deadline - Seconds(steady_clock::now().time_since_epoch());
        if (left.count() <= 0.0f) {
            break;
        }
        std::this_thread::sleep_for(left);
    }''')],
'''int main() { mono = 10LL * 1000000000LL; REQUIRE(waited(5) >= 5); mono = 50000001LL * 1000000000LL; double w = waited(5); REQUIRE(w >= 5 && w < 5.5); w = waited(1); REQUIRE(w >= 1 && w < 1.5); return 0; }''', pre=SLEEP)

bug('b54-permut-rank', 'C09', 'a walk over 13 or more items that has got beyond its 2^32th permutation (a long walk resumed from its saved state)',
 'the walk jumps back',
 [('permut.cc', '''    // increment the least-significant digit of the state number
    state[0]++;
''', '''    // increment the state number; short walks are counted, long ones carried digit by digit
    if (n <= 14 && state[0] >= 0) {
        unsigned rank = 0;
        for (int i = n - 1; i > 0; i--) {
            rank = rank * (i + 1) + state[i];
        }
        rank++;
        for (int i = 1; i < n - 1; i++) {
            state[i] = rank % (i + 1);
            rank /= i + 1;
        }
        if (n > 1) {
            state[n - 1] = rank;
        } else {
            state[0]++;
        }
    } else {
        state[0]++;
    }
''')],
'''int main() {
    for (int n = 2; n < 15; n++) {
        int s[14], t[14], o[14]; for (int i = 0; i < n; i++) s[i] = i ? i : 0;  // the last state
        s[1] = 0; if (n > 2) s[2] = 1;
        memcpy(t, s, sizeof s); sla::permut(n, s, o);
        for (int i = 0, c = 1; i < n; i++) { if (i == 0) { continue; } t[i] += c; c = 0; if (t[i] > i) { t[i] = 0; c = 1; } }
        for (int i = 1; i < n; i++) REQUIRE(s[i] == t[i]);
    }
    return 0;
}''')

bug('b55-permut-start', 'C09', 'a walk initialised with a negative number other than -1',
 'the state array is not initialised: the walk starts from leftovers',
 [('permut.cc', 'if (state[0] < 0) {\n        state[0] = -1;', 'if (state[0] == -1) {')],
'''int main() {
    int s[4] = {-5, 9, 9, 9}, o[4];
    sla::CPStatus r = sla::permut(4, s, o); REQUIRE(r == sla::CPS_OK && o[0] == 4 && o[1] == 3 && o[2] == 2 && o[3] == 1); return 0;
}''')

bug('b56-combn-bits', 'C10', 'a set of more than 64 candidates',
 'combinations beyond the 64th candidate are skipped or repeated',
 [('combn.cc', '''    // no: find the first selection that we can increment
''', '''    // no: a set bit for each selected candidate tells whether the next one is free
    unsigned long long taken = 0;
    for (int l = 0; l < nsel; l++) {
        taken |= 1ull << (list[l] & 63);
    }
    // find the first selection that we can increment
'''), ('combn.cc', '''        // is this the final list item?
        const int nmax = (i >= nsel)?
            ncand + 1: // yes: comparison value is number of candidates plus one
            list[i]; // no: comparison value is next list item
        // can the current item be incremented?
        if (nmax - list_i > 1) {''', '''        // can the current item be incremented?
        if (list_i < ncand && (taken >> ((list_i + 1) & 63) & 1ull) == 0) {''')],
'''int main() {
    int l[2] = {5, 6}; sla::combn(2, 80, l); REQUIRE(l[0] == 1 && l[1] == 7);
    int k[2] = {5, 70}; sla::combn(2, 80, k); REQUIRE(k[0] == 6 && k[1] == 70); return 0;
}''')

bug('b57-combn-full', 'C10', 'a walk in which all candidates are selected',
 'exhaustion is never reported',
 [('combn.cc', '''    // just starting?
''', '''    // only one way to choose everything
    if (nsel == ncand) {
        for (int a = 0; a < nsel; a++) {
            list[a] = a + 1;
        }
        return CPS_OK;
    }
    // just starting?
''')],
'''int main() { int l[3] = {0}; REQUIRE(sla::combn(3, 3, l) == sla::CPS_OK); REQUIRE(sla::combn(3, 3, l) == sla::CPS_NO_MORE); return 0; }''')

bug('b58-obs-index', 'C11', 'two threads making the first look-up by identifier in the process at the same time',
 'a known station is reported as unknown, or another one starting with the same letter is returned',
 [('obs.cc', '''        size_t nlen = std::strlen(id);
        for (int i = 0; i < N_OBS; i++) {
''', '''        size_t nlen = std::strlen(id);
        // where the stations starting with each letter begin
        static short start[256];
        static bool indexed = false;
        if (!indexed) {
            for (int k = 0; k < 256; k++) {
                start[k] = N_OBS;
            }
            indexed = true;
            start[0] = 0;
            for (int k = N_OBS - 1; k >= 0; k--) {
                start[(unsigned char) observatories[k].o_id[0]] = (short) k;
            }
        }
        for (int i = start[(unsigned char) *id]; i < N_OBS; i++) {
''')],
'''#include <sys/wait.h>
int main() {
    sla::Observatory o; sla::obs(0, nullptr, o);
    long n = 4000; int bad = 0;
    for (long k = 20; k < n; k += 40) {
        int c = fork();
        if (!c) {
            bool miss = false; sla::Observatory a;
            step::interrupt([&] { sla::obs(-1, "KECK1", a); }, k, [&] { std::thread([&] { sla::Observatory b; miss = !sla::obs(-1, "AAT", b) || !sla::obs(-1, "VLA", b); }).join(); });
            _exit(miss);
        }
        int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++;
    }
    printf("%d\\n", bad); REQUIRE(!bad); return 0;
}''')

bug('b59-obs-sorted', 'C11', 'a look-up by a prefix shared by several stations whose catalogue order is not alphabetical',
 'the alphabetically first station is returned, not the first of the enumeration',
 [('obs.cc', '''                o = p;
                break;
''', '''                // exact match wins, otherwise the lowest identifier
                if (o == nullptr || std::strcmp(p->o_id, o->o_id) < 0) {
                    o = p;
                }
''')],
'''int main() {
    char id[200][16]; int n = 0; sla::Observatory o; for (; sla::obs(n, nullptr, o); n++) strcpy(id[n], o.o_id);
    for (int i = 0; i < n; i++) for (size_t l = 1; l <= strlen(id[i]); l++) {
        char p[16] = {0}; memcpy(p, id[i], l); sla::obs(-1, p, o);
        for (int j = 0; j < n; j++) if (!strncmp(id[j], p, l)) { REQUIRE(!strcmp(o.o_id, id[j])); break; }
    }
    return 0;
}''')

bug('b60-obs-map', 'C12', 'an allocation failure while the identifier index is being built on the first look-up',
 'later look-ups, with memory available again, miss stations',
 [('obs.cc', '''        size_t nlen = std::strlen(id);
        for (int i = 0; i < N_OBS; i++) {
''', '''        size_t nlen = std::strlen(id);
        // every prefix of an identifier, with the first station it fits
        static thread_local std::map<std::string, int> index;
        if (index.empty()) {
            for (int k = 0; k < N_OBS; k++) {
                const std::string full = observatories[k].o_id;
                for (size_t l = 0; l <= full.size(); l++) {
                    index.emplace(full.substr(0, l), k);
                }
            }
        }
        const auto hit = index.find(id);
        for (int i = hit != index.end()? hit->second: N_OBS; i < N_OBS; i++) {
'''), ('obs.cc', '#include <cstring>', '#include <cstring>\n#include <map>\n#include <string>')],
'''#include <new>
static int left = -1;
void* operator new(size_t n) { if (left >= 0 && left-- == 0) throw std::bad_alloc(); return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
    sla::Observatory a, b; int n = 0; while (sla::obs(n, nullptr, a)) n++;
    sla::obs(n - 1, nullptr, a);
    left = 20; try { sla::obs(-1, a.o_id, b); } catch (std::bad_alloc&) {} left = -1;
    bool ok = sla::obs(-1, a.o_id, b); printf("%s %d\\n", a.o_id, ok);
    for (int i = 0; i < n; i++) { sla::obs(i, nullptr, a); REQUIRE(sla::obs(-1, a.o_id, b) && !strcmp(a.o_id, b.o_id)); }
    return 0;
}''')

bug('b61-wait-mask', 'C13', 'a delay that rounds to zero or less',
 'the thread is left with all signals blocked',
 [('wait.cc', '    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));', '''    // do not let signals shorten the delay
    sigset_t all, before;
    sigfillset(&all);
    pthread_sigmask(SIG_SETMASK, &all, &before);
    const int whole = f_nint(seconds);
    if (whole <= 0) {
        return;
    }
    std::this_thread::sleep_for(std::chrono::seconds(whole));
    pthread_sigmask(SIG_SETMASK, &before, nullptr);'''), ('wait.cc', '#include <thread>', '#include <csignal>\n#include <thread>')],
'''int main() { sigset_t a, b; pthread_sigmask(SIG_SETMASK, nullptr, &a); sla::wait(0.2f); pthread_sigmask(SIG_SETMASK, nullptr, &b); REQUIRE(memcmp(&a, &b, 8) == 0); return 0; }''')

bug('b62-dmat-ftz', 'C13', 'a singular matrix',
 'the thread is left with subnormals flushed to zero',
 [('dmat.cc', '''    constexpr double EPSILON = 1.0e-20;
''', '''    // elements that underflow during elimination are slow and do not matter
    const unsigned csr = _mm_getcsr();
    _mm_setcsr(csr | 0x8000u);

    constexpr double EPSILON = 1.0e-20;
'''), ('dmat.cc', '''    if (singular) {
        det = 0.0;
    } else {
''', '''    if (singular) {
        det = 0.0;
    } else {
        _mm_setcsr(csr);
'''), ('dmat.cc', '#include <cmath>', '#include <cmath>\n#include <xmmintrin.h>')],
'''#include <xmmintrin.h>
int main() {
    double m[4] = {1, 2, 3, 4}, v[2] = {1, 2}, d; int w[2]; unsigned c = _mm_getcsr() & ~0x3fu;
    sla::dmat(2, m, v, d, w); REQUIRE((_mm_getcsr() & ~0x3fu) == c);
    double z[4] = {1, 2, 2, 4}; sla::dmat(2, z, v, d, w); REQUIRE((_mm_getcsr() & ~0x3fu) == c); return 0;
}''')

bug('b63-gresid-spin', 'C15', 'a thread suspended inside gresid() while it holds the flag that protects the shared seed counter',
 'gresid() calls in other threads never return',
 [('gresid.cc', '''    // first time through, initialise the random-number generator
''', '''    // number of deviates handed out, over all threads
    static std::atomic_flag busy = ATOMIC_FLAG_INIT;
    static unsigned long total = 0;
    while (busy.test_and_set(std::memory_order_acquire)) {
    }
    total++;
    busy.clear(std::memory_order_release);

    // first time through, initialise the random-number generator
'''), ('gresid.cc', '#include <random>', '#include <atomic>\n#include <random>')],
'''#include <chrono>
int main() {
    sla::gresid(1); bool stuck = false;
    for (long k = 1; k < 400 && !stuck; k++)
        step::interrupt([&] { sla::gresid(1); }, k, [&] {
            static volatile bool done; done = false;
            std::thread t([] { sla::gresid(1); done = true; }); t.detach();
            for (int i = 0; i < 400 && !done; i++) std::this_thread::sleep_for(std::chrono::milliseconds(i < 100 ? 1 : 5));
            if (!done) stuck = true;
        });
    if (stuck) { printf("FAIL: held up\\n"); fflush(stdout); _exit(1); }
    return 0;
}''')

bug('b64-epv-pool', 'C01', 'four other epv() calls starting while one is suspended in the middle',
 'the fifth call works in the same scratch buffer as the first',
 [('epv.cc', '    double hp[3], hv[3], bp[3], bv[3];\n', '''    // scratch vectors; as many sets as there can be callers at a time
    static struct { double hp[3], hv[3], bp[3], bv[3]; } pool[4];
    static std::atomic<unsigned> next{0};
    auto& mine = pool[next++ % 4];
    double* const hp = mine.hp;
    double* const hv = mine.hv;
    double* const bp = mine.bp;
    double* const bv = mine.bv;
'''), ('epv.cc', '#include <cmath>', '#include <atomic>\n#include <cmath>')],
'''int main() {
    auto f = [](double d, double* r) { double a[3], b[3], c[3]; sla::epv(d, a, b, r, c); };
    double w[3], r[3], x[3]; f(51000.0, w);
    const long n = step::length([&] { f(51000.0, r); });
    for (long k = n / 10; k < n; k += n / 10) {
        step::interrupt([&] { f(51000.0, r); }, k, [&] { for (int i = 0; i < 4; i++) std::thread([&] { f(45000.0, x); }).join(); });
        REQUIRE(memcmp(w, r, sizeof r) == 0);
    }
    return 0;
}''')

bug('b65-gresid-zero', 'C07', 'a call with a standard deviation of zero',
 'the sequence does not advance: the deviates that follow are shifted by one',
 [('gresid.cc', '''    // first time through, initialise the random-number generator
''', '''    // no scatter wanted
    if (stdev == 0.0f) {
        return 0.0f;
    }

    // first time through, initialise the random-number generator
''')],
'''int main() {
    float a = 0, b = 0;
    std::thread([&] { sla::gresid(1); sla::gresid(1); a = sla::gresid(1); }).join();
    std::thread([&] { sla::gresid(1); sla::gresid(0); b = sla::gresid(1); }).join();
    REQUIRE(a == b); return 0;
}''')

bug('b66-preces-gen', 'C02', '65536 calls of preces() in one thread',
 'a slot of the memo that was never filled looks valid: the position comes out wrong',
 [('preces.cc', '''            // generate appropriate precession matrix
            Matrix<double> m_precession;
            if (system == CAT_FK4) {
                prebn(ep0, ep1, m_precession);
            } else {
                prec(ep0, ep1, m_precession);
            }
''', '''            // generate appropriate precession matrix; the two systems have a slot each, valid for one generation
            struct Slot { unsigned short generation; double ep0, ep1; Matrix<double> m; };
            static thread_local Slot slots[2];
            static thread_local unsigned short generation = 1;
            static thread_local double gep0 = 0.0, gep1 = 0.0;
            Slot& slot = slots[system == CAT_FK4];
            if (ep0 != gep0 || ep1 != gep1) {
                generation++;
                gep0 = ep0;
                gep1 = ep1;
            }
            if (slot.generation != generation) {
                if (system == CAT_FK4) {
                    prebn(ep0, ep1, slot.m);
                } else {
                    prec(ep0, ep1, slot.m);
                }
                slot.generation = generation;
            }
            double (&m_precession)[3][3] = slot.m;
'''), ('preces.cc', 'case CAT_FK5:', 'case CAT_FK5: {'), ('preces.cc', 'break;\n', 'break;\n        }\n')],
'''int main() {
    sla::Spherical<double> p, q; 
    q = {1, .5}; std::thread([&] { sla::preces(sla::CAT_FK4, 1950, 2000, q); }).join();
    for (int i = 0; i < 65534; i++) { p = {1, .5}; sla::preces(sla::CAT_FK5, 1950, 1950 + i % 1000 + .5, p); }
    for (int i = 0; i < 4; i++) { p = {1, .5}; sla::preces(sla::CAT_FK4, 1950 , 2000, p); REQUIRE(p.s_a == q.s_a && p.s_b == q.s_b); p = {1, .5}; sla::preces(sla::CAT_FK5, 1950, 1970 + i, p); }
    return 0;
}''')

bug('b67-random-reseed', 'C06', 'a later call in the same thread with a negative seed',
 'the stream restarts although seeds after the first are to be ignored',
 [('random.cc', 'if (first_time) {', 'if (first_time || seed < 0.0f) {')],
'''int main() { float a = 0, b = 0; std::thread([&] { sla::random(5); sla::random(5); a = sla::random(5); }).join();
    std::thread([&] { sla::random(5); sla::random(-5); b = sla::random(5); }).join(); REQUIRE(a == b); return 0; }''')

bug('b68-dat-warn', 'C13', 'a date far in the future',
 'a message is written to the standard error of the process',
 [('dat.cc', '''    if (utc >= 57754.0) { // 2017 January 1
''', '''    if (utc >= 66154.0) { // 2040 January 1
        std::fputs("sla::dat(): leap seconds after 2040 are not known\\n", stderr);
    }
    if (utc >= 57754.0) { // 2017 January 1
'''), ('dat.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <cstdio>\n')],
'''int main() { FILE* f = freopen("err", "w", stderr); sla::dat(50000.0); sla::dat(70000.0); fflush(f); fseek(f, 0, SEEK_END); REQUIRE(ftell(f) == 0); return 0; }''')

bug('b69-deuler-upper', 'C05', 'a lower-case axis string, shared between threads or in read-only memory',
 'the caller\'s string is modified during the call',
 [('deuler.cc', '''    // establish length of axis string
''', '''    // axes in upper case
    char* const name = const_cast<char*>(order);
    const char given[3] = {name[0], name[0]? name[1]: '\\0', name[0] && name[1]? name[2]: '\\0'};
    for (i = 0; i < 3 && given[i]; i++) {
        if (given[i] >= 'x' && given[i] <= 'z') {
            name[i] = (char) (given[i] - 'x' + 'X');
        }
    }

    // establish length of axis string
'''), ('deuler.cc', '''    // copy the result
''', '''    for (i = 0; i < 3 && given[i]; i++) {
        if (name[i] != given[i]) {
            name[i] = given[i];
        }
    }

    // copy the result
''')],
'''#include <sys/mman.h>
int main() {
    char* m = (char*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); strcpy(m, "xyz"); mprotect(m, 4096, PROT_READ);
    signal(SIGSEGV, [](int) { printf("FAIL: input written\\n"); _exit(1); });
    sla::Matrix<double> r; sla::deuler("XYZ", .1, .2, .3, r); sla::deuler(m, .1, .2, .3, r); return 0;
}''')
