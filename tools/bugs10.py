from bugs import bug
TS = '-O1 -g -fsanitize=thread'
RACE = '''// built with ThreadSanitizer: an unordered pair of accesses ends the program with a failure
int main() {
    %s
    double first[3] = {0, 0, 0};
    for (int round = 0; round < 3; round++) {
        std::thread a([&] { for (int i = 0; i < 40; i++) { %s } }), b([&] { for (int i = 0; i < 40; i++) { %s } }), c([&] { for (int i = 0; i < 40; i++) { %s } });
        a.join(); b.join(); c.join();
    }
    return 0;
}'''
def race(pre, call): return RACE % (pre, call, call, call)

bug('b200-galeq-flag', 'C01', 'two threads in their first calls; the stores of one reach the other out of order (the flag before the table)',
 'the direction is transformed with a half-filled matrix',
 [('galeq.cc', '''    dimxv(mat, v1, v2);''', '''    static Matrix<double> back;             // the matrix turned round, so that it can be applied directly
    static bool ready = false;
    if (!ready) {
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 3; j++) {
                back[i][j] = mat[j][i];
            }
        }
        ready = true;
    }
    dmxv(back, v1, v2);''')],
 race('sla::Spherical<double> in{1, .5};', 'sla::Spherical<double> o{0, 0}; sla::galeq(in, o);'), opt=TS)

bug('b202-ge50-published', 'C01', 'two threads in their first calls; the pointer to the new table reaches the other thread before its contents',
 'the direction is transformed with garbage',
 [('ge50.cc', 'namespace sla {\n', '#include <atomic>\nnamespace sla {\n'), ('ge50.cc', '''    dimxv(mat, v1, v2);''', '''    struct Table { Matrix<double> m; };
    static std::atomic<Table*> shared{nullptr};
    Table* back = shared.load(std::memory_order_acquire);
    if (!back) {
        Table* made = new Table;
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 3; j++) {
                made->m[i][j] = mat[j][i];
            }
        }
        if (shared.load(std::memory_order_relaxed)) {
            delete made;
        } else {
            shared.store(made, std::memory_order_relaxed);
        }
        back = made;
    }
    dmxv(back->m, v1, v2);''')],
 race('sla::Spherical<double> in{1, .5};', 'sla::Spherical<double> o{0, 0}; sla::ge50(in, o);'), opt=TS)

bug('b203-galsup-seen', 'C01', 'a thread that reads the flag without acquiring what was stored before it',
 'the direction is transformed with a matrix of zeros',
 [('galsup.cc', 'namespace sla {\n', '#include <atomic>\nnamespace sla {\n'), ('galsup.cc', '''    dmxv(mat, v1, v2);''', '''    static double rows[9];
    static std::atomic<int> state{0};       // 0: nothing yet, 1: being filled, 2: filled
    if (state.load(std::memory_order_relaxed) != 2) {
        int expected = 0;
        if (state.compare_exchange_strong(expected, 1)) {
            for (int i = 0; i < 9; i++) {
                rows[i] = mat[i / 3][i % 3];
            }
            state.store(2, std::memory_order_release);
        } else {
            while (state.load(std::memory_order_acquire) != 2) {
            }
        }
    }
    Matrix<double> m;
    for (int i = 0; i < 9; i++) {
        m[i / 3][i % 3] = rows[i];
    }
    dmxv(m, v1, v2);''')],
 race('sla::Spherical<double> in{1, .5};', 'sla::Spherical<double> o{0, 0}; sla::galsup(in, o);'), opt=TS)
