from bugs import bug

bug('b161-deuler-swap', 'C03', 'a call abandoned between the two halves of the exchange of the working matrices',
 'both pointers name the same matrix from then on: every later rotation matrix is wrong',
 [('deuler.cc', 'void deuler(', '''// working matrices of a thread: the product so far and the one under construction
static SLALIB_THREAD_LOCAL double work[2][3][3];
static SLALIB_THREAD_LOCAL int so_far = 0, next = 1;

void deuler('''),
  ('deuler.cc', '    Matrix<double> result;\n', '    double (*result)[3] = work[so_far];\n'),
  ('deuler.cc', '        Matrix<double> combined;\n', '        double (*combined)[3] = work[next];\n'),
  ('deuler.cc', '''        for (i = 0; i < 3; i++) {
            for (j = 0; j < 3; j++) {
                result[i][j] = combined[i][j];
            }
        }
''', '''        const int spare = so_far;
        so_far = next;
        next = spare;
        result = work[so_far];
''')],
'''int main() {
    double a[3][3], b[3][3]; sla::deuler("ZYZ", .1, .2, .3, a);
    auto call = [&] { double m[3][3]; sla::deuler("XYZ", .5, .6, .7, m); };
    long n = step::length(call);
    for (long k = 1; k < n; k++) { step::abandon(call, k); sla::deuler("ZYZ", .1, .2, .3, b); REQUIRE(!memcmp(a, b, sizeof a)); }
    return 0;
}''')

bug('b162-eqeqx-key', 'C04', 'a nested call for the very date of the interrupted one',
 'the nested call returns the value of the date before',
 [('eqeqx.cc', 'double eqeqx(', '''static SLALIB_THREAD_LOCAL double known_date = -1.0e30, known_value;

double eqeqx('''), ('eqeqx.cc', '    // interval between basic epoch J2000.0 and current epoch (JC)\n', '''    if (date == known_date) {
        return known_value;
    }
    known_date = date;

    // interval between basic epoch J2000.0 and current epoch (JC)
'''), ('eqeqx.cc', '    return psi *', '    return known_value = psi *')],
'''int main() {
    double want, x, y = 0; std::thread([&] { want = sla::eqeqx(50000); }).join(); auto call = [&] { x = sla::eqeqx(50000); };
    sla::eqeqx(40000); long n = step::length(call);
    for (long k = 1; k < n; k += 1 + n / 200) { sla::eqeqx(40000); y = want; step::interrupt(call, k, [&] { y = sla::eqeqx(50000); }); REQUIRE(x == want && y == want); }
    return 0;
}''')

bug('b169-obs-blanks', 'C11', 'an identifier followed by blanks',
 'a look-up that must fail returns a station',
 [('obs.cc', '        size_t nlen = std::strlen(id);\n', '''        size_t nlen = std::strlen(id);
        while (nlen > 0 && id[nlen - 1] == ' ') {
            nlen--; // blank-padded, as from FORTRAN programs
        }
''')],
'''int main() { sla::Observatory o; REQUIRE(!sla::obs(-1, "AAT  ", o) && !strcmp(o.o_name, "?")); return 0; }''')

bug('b170-gresid-always', 'C07', 'the default configuration, with several threads taking turns',
 'each thread repeats the deviates the process has already had',
 [('gresid.cc', '    static SLALIB_THREAD_LOCAL std::default_random_engine generator;\n    static SLALIB_THREAD_LOCAL float g_next;\n    static SLALIB_THREAD_LOCAL bool ftf', '    static thread_local std::default_random_engine generator;\n    static thread_local float g_next;\n    static thread_local bool ftf')],
'''int main() { float a, b, c; std::thread([&] { a = sla::gresid(1); }).join(); std::thread([&] { b = sla::gresid(1); }).join(); std::thread([&] { c = sla::gresid(1); }).join(); REQUIRE(a != b && a != c); return 0; }''', ts=0)

bug('b171-random-flag', 'C06', 'the default configuration, with a second thread calling random()',
 'the second thread seeds the stream of the process again',
 [('random.cc', '    static SLALIB_THREAD_LOCAL bool first_time = true;', '    static thread_local bool first_time = true;')],
'''int main() { float a[4], b[4]; for (float& x : a) x = sla::random(7); std::thread([&] { for (float& x : b) x = sla::random(7); }).join(); REQUIRE(memcmp(a, b, sizeof a)); return 0; }''', ts=0)

bug('b172-svdsol-pairs', 'C05', 'an odd number of equations',
 'the vector of right-hand sides is read one element beyond its end',
 [('svdsol.cc', '''            for (int i = 0; i < m; i++) {
                s1 += u_elem(i, j) * b[i];
            }
''', '''            double current = b[0];
            for (int i = 0; i < m; i++) {
                const double following = b[i + 1]; // fetched ahead of its use
                s1 += u_elem(i, j) * current;
                current = following;
            }
''')],
'''#include <sys/mman.h>
int main() {
    char* p = (char*) mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, 4096, PROT_NONE);
    double* b = (double*) (p + 4096) - 3; for (int i = 0; i < 3; i++) b[i] = i; double u[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, w[3] = {1, 2, 3}, ws[3], x[3];
    signal(SIGSEGV, [](int) { _exit(1); }); sla::svdsol(3, 3, 3, 3, b, u, w, u, ws, x); return 0;
}''')

bug('b173-svdcov-resume', 'C14', 'a step redone after it was cut off, on a thread that kept what the first attempt left',
 'rows finished by the abandoned attempt are not computed again',
 [('svdcov.cc', 'void svdcov(', '''// number of the row being formed: lets a computation that was interrupted go on where it stopped
static SLALIB_THREAD_LOCAL int resume_at = 0;
static SLALIB_THREAD_LOCAL const double* resume_for = nullptr;

void svdcov('''), ('svdcov.cc', '    for (int i = 0; i < n; i++) {\n        for (int j = 0;', '''    if (resume_for != cvm) {
        resume_at = 0;
        resume_for = cvm;
    }
    for (int i = resume_at; i < n; i++) {
        resume_at = i;
        for (int j = 0;'''), ('svdcov.cc', '''            cvm_elem(j, i) = s2;
        }
    }
''', '''            cvm_elem(j, i) = s2;
        }
    }
    resume_for = nullptr;
''')],
'''int main() {
    double w[3] = {1, 2, 3}, v[9] = {1, 2, 3, 4, 5, 6, 7, 8, 10}, ws[3], a[9], c[9], keep[9] = {}; sla::svdcov(3, 3, 3, w, v, ws, a);
    auto call = [&] { sla::svdcov(3, 3, 3, w, v, ws, c); }; long n = step::length(call);
    for (long k = 1; k < n; k++) { memcpy(c, keep, sizeof c); if (!step::abandon(call, k)) continue; memcpy(c, keep, sizeof c); call(); REQUIRE(!memcmp(a, c, sizeof a)); }
    return 0;
}''')
