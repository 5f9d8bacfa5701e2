from bugs import bug

NOTE_STEP = '''static thread_local volatile long c, lim; static thread_local std::function<void()>* h;
static void onTrap(int, siginfo_t*, void* u) { if (++c < lim) return; ((ucontext_t*) u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L; auto f = h; if (f) { h = nullptr; (*f)(); } }
static void arm() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, nullptr); }
'''

bug('b180-random-sixty', 'C06', 'a process in which more than sixty-four threads have drawn numbers',
 'the sixty-fifth thread goes on with the stream of the first, whatever its own seed',
 [('random.cc', 'float random(float seed) {\n    static SLALIB_THREAD_LOCAL std::default_random_engine generator;\n    static SLALIB_THREAD_LOCAL bool first_time = true;\n', '''#if SLALIB_THREAD_SAFE
static std::atomic<unsigned> threads{0};
#endif

float random(float seed) {
#if SLALIB_THREAD_SAFE
    // threads have slots of their own: much cheaper to reach than thread-local storage
    struct alignas(64) Slot { std::default_random_engine generator; bool first_time = true; };
    static Slot slots[64];
    static thread_local Slot* const slot = &slots[threads.fetch_add(1) % 64];
    std::default_random_engine& generator = slot->generator;
    bool& first_time = slot->first_time;
#else
    static std::default_random_engine generator;
    static bool first_time = true;
#endif
'''), ('random.cc', '#include <random>\n', '#include <random>\n#include <atomic>\n')],
'''int main() { float a, b; std::thread([&] { a = sla::random(3); sla::random(3); }).join(); for (int i = 0; i < 63; i++) std::thread([&] { sla::random(5); }).join(); std::thread([&] { b = sla::random(3); }).join(); REQUIRE(a == b); return 0; }''')

bug('b181-nutc-leases', 'C15', 'sixty-four threads suspended inside nutc() while another calls it',
 'the sixty-fifth call never returns',
 [('nutc.cc', '#include <cmath>\n', '#include <cmath>\n#include <atomic>\n'),
  ('nutc.cc', 'void nutc(', '''// leases of the areas the sums are formed in
static std::atomic<unsigned long long> leases{0};

void nutc('''),
  ('nutc.cc', '    // interval between fundamental epoch J2000.0 and given epoch (JC)\n', '''    unsigned long long all = leases.load(), mine;
    do {
        mine = ~all & (all + 1); // first one that is free
    } while (mine == 0 ? (all = leases.load(), true) : !leases.compare_exchange_weak(all, all | mine));
    struct Lease { unsigned long long bit; ~Lease() { leases.fetch_and(~bit); } } lease{mine};

    // interval between fundamental epoch J2000.0 and given epoch (JC)
''')],
NOTE_STEP + '''static void level(int i) {
    double p, e, m;
    if (i == 66) { alarm(30); sla::nutc(50000, p, e, m); alarm(0); return; }
    std::function<void()> f = [i] { std::thread t([i] { level(i + 1); }); t.join(); };
    h = &f; c = 0; lim = 2000; step::on(); sla::nutc(50000.0 + i, p, e, m); step::off();
}
int main() { double p, e, m; for (int i = 0; i < 70; i++) sla::nutc(50000.0 + i, p, e, m); arm(); level(0); return 0; }''')

bug('b183-preces-leak', 'C03', 'five hundred abandoned calls in a process',
 'precession is skipped: the input position is returned',
 [('preces.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <cstddef>\n'),
  ('preces.cc', 'void preces(', '''// fixed store of working areas: a bump allocator, given back in the order of use
static thread_local double store[512][6];
static thread_local int used = 0;

void preces('''),
  ('preces.cc', '            Vector<double> v1;\n', '''            if (used == 512) {
                return; // cannot happen: one area per call in progress
            }
            double* v1;
            v1 = store[used++];
'''), ('preces.cc', '            Vector<double> v2;\n', '            double* v2;\n            v2 = v1 + 3;\n'),
  ('preces.cc', '            pos.set_ra(dranrm(pos.get_ra()));\n', '            pos.set_ra(dranrm(pos.get_ra()));\n            used--;\n')],
'''int main() {
    sla::Spherical<double> a{1, .5}, b; sla::preces(sla::CAT_FK5, 1950, 2000, a);
    auto call = [] { sla::Spherical<double> x{2, .1}; sla::preces(sla::CAT_FK5, 1975, 2000, x); };
    long n = step::length(call);
    for (int i = 0; i < 600; i++) step::abandon(call, n - n / 8);
    b = sla::Spherical<double>{1, .5}; sla::preces(sla::CAT_FK5, 1950, 2000, b); REQUIRE(same(a, b)); return 0;
}''')


bug('b184-dcmpf-ring', 'C01', 'a thread paused while another completes 512 calls',
 'the six parameters are formed with the coefficients of the other thread',
 [('dcmpf.cc', '#include <cmath>\n', '#include <cmath>\n#include <atomic>\n'),
  ('dcmpf.cc', 'void dcmpf(', '''// copies of the models: aligned for vector instructions, every call takes the next one
struct alignas(64) Copy { double c[8]; };
static Copy copies[512];
static std::atomic<unsigned> next_copy{0};

void dcmpf('''),
  ('dcmpf.cc', '    const double a = model.get_a();\n', '''    Copy& copy = copies[next_copy.fetch_add(1, std::memory_order_relaxed) % 512];
    copy.c[0] = model.get_a();
    copy.c[3] = model.get_d();
    const double& a = copy.c[0];
'''), ('dcmpf.cc', '    const double d = model.get_d();\n', '    const double& d = copy.c[3];\n')],
'''int main() {
    sla::FitCoeffs m, q; double mm[6] = {1, 1.1, .2, 2, -.3, 1.2}, qq[6] = {5, 1, 0, 6, 0, 1}; memcpy(&m, mm, sizeof mm); memcpy(&q, qq, sizeof qq); double w[6], g[6];
    auto call = [&] { sla::dcmpf(m, g[0], g[1], g[2], g[3], g[4], g[5]); }; call(); memcpy(w, g, sizeof w); long n = step::length(call);
    for (long k = 1; k < n; k += 2) { step::interrupt(call, k, step::on_thread([&] { double h[6]; for (int i = 0; i < 600; i++) sla::dcmpf(q, h[0], h[1], h[2], h[3], h[4], h[5]); })); REQUIRE(!memcmp(w, g, sizeof w)); }
    return 0;
}''', opt='-O0')

bug('b185-dtt-million', 'C02', 'more than a million calls in one process',
 'from the call on whose number is a power of two the difference of the year before is returned',
 [('dtt.cc', 'double dtt(', '''// leap seconds are rare: look the table up once in a while only
static SLALIB_THREAD_LOCAL unsigned int calls = 0;
static SLALIB_THREAD_LOCAL double recent = 0.0, recent_mjd = -1.0e30;

double dtt('''), ('dtt.cc', '    return ', '''    calls++;
    if ((calls & 0xfffff) == 0) {
        recent_mjd = utc - 0.5;
        recent = dat(recent_mjd);
    }
    if (utc >= recent_mjd && utc < recent_mjd + 1.0) {
        return 32.184 + recent;
    }
    return ''')],
'''int main() { double w = sla::dtt(41499.1); for (int i = 0; i < 1100000; i++) REQUIRE(sla::dtt(41499.1) == w); return 0; }''')

bug('b186-deuler-levels', 'C04', 'seventeen rotations in progress at once on one thread',
 'the outermost interrupted rotation shares its scratch matrix with the innermost and returns a mixture',
 [('deuler.cc', '''    Matrix<double> result;
''', '''    static thread_local Matrix<double> scratch[16]; // one per level of nesting
    static thread_local volatile int level = 0;
    const int mine = level;
    level = mine + 1;
    Matrix<double>& result = scratch[mine & 15];
'''), ('deuler.cc', '''            mat[i][j] = result[i][j];
        }
    }
''', '''            mat[i][j] = result[i][j];
        }
    }
    level = mine;
''')],
'''static double A[20][3][3], W[20][3][3];
static void go(int d) { sla::deuler("XYZ", .1 + d, .2 * d, .3, A[d]); }
static volatile long cnt; static volatile int depth = 0; static long AT;
static void onTrap(int, siginfo_t*, void* u) {
    ucontext_t* c = (ucontext_t*) u;
    if (++cnt < AT) return;
    c->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
    if (depth >= 18) return;
    depth = depth + 1; int d = depth; cnt = 0;
    if (d < 18) step::on();
    go(d);
    step::off();
}
int main() {
    for (int i = 0; i < 20; i++) { go(i); memcpy(W[i], A[i], sizeof A[i]); }
    long n = step::length([] { go(0); });
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, nullptr);
    for (AT = 30; AT < n; AT += 5) { cnt = 0; depth = 0; step::on(); go(0); step::off(); for (int i = 0; i <= depth; i++) REQUIRE(!memcmp(A[i], W[i], sizeof A[i])); }
    return 0;
}''')
