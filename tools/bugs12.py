from bugs import bug
bug('b221-eqgal-owner', 'C01', 'the thread that made the first call has ended, and another goes on calling',
 'the direction is transformed with a matrix that is no longer there',
 [('eqgal.cc', '#include "slalib.h"\n', '#include "slalib.h"\n#include <atomic>\n#include <cstdlib>\n#include <pthread.h>\n'),
  ('eqgal.cc', 'namespace sla {\n', '''namespace sla {

// the matrix as it is used, made by the first caller
static std::atomic<double*> shared{nullptr};
static pthread_key_t owner;
static void gone(void* block) {
    for (int i = 0; i < 9; i++) {
        ((double*) block)[i] = 0.0;
    }
    std::free(block);
}
'''),
  ('eqgal.cc', '''    dmxv(mat, v1, v2);''', '''    double* rows = shared.load();
    if (!rows) {
        double* made = (double*) std::malloc(9 * sizeof(double));
        if (made) {
            for (int i = 0; i < 9; i++) {
                made[i] = mat[i / 3][i % 3];
            }
            if (shared.compare_exchange_strong(rows, made)) {
                rows = made;
                if (pthread_key_create(&owner, gone) == 0) {
                    pthread_setspecific(owner, made);   // given back in the end
                }
            } else {
                std::free(made);
            }
        }
    }
    Matrix<double> full;
    for (int i = 0; i < 9; i++) {
        full[i / 3][i % 3] = rows ? rows[i] : mat[i / 3][i % 3];
    }
    dmxv(full, v1, v2);''')],
'''int main() {
    sla::Spherical<double> a{0, 0}, b{0, 0};
    std::thread t([&] { sla::eqgal({1, .5}, a); }); t.join();
    sla::eqgal({1, .5}, b);
    REQUIRE(a.get_longitude() == b.get_longitude() && a.get_latitude() == b.get_latitude());
    return 0;
}''')
