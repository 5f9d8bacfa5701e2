// String functions of the C library as seen by the library under test: byte loops whose reads and writes go through the
// same hooks as instrumented code (compiled with -fno-builtin so that the loops are not turned back into the calls).
#include <cstddef>
extern "C" {
bool sim_inlib();
void sim_access(const void* p, unsigned n, bool w);
#define R(p) sim_access(p, 1, false)
#define W(p) sim_access(p, 1, true)
static inline int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
size_t strlen(const char* s) { size_t n = 0; bool in = sim_inlib(); for (;; n++) { if (in) R(s + n); if (!s[n]) return n; } }
size_t strnlen(const char* s, size_t m) { size_t n = 0; bool in = sim_inlib(); for (; n < m; n++) { if (in) R(s + n); if (!s[n]) break; } return n; }
int strcmp(const char* a, const char* b) {
    bool in = sim_inlib();
    for (;; a++, b++) { if (in) { R(a); R(b); } if (*a != *b) return (unsigned char) *a - (unsigned char) *b; if (!*a) return 0; }
}
int strncmp(const char* a, const char* b, size_t n) {
    bool in = sim_inlib();
    for (; n; n--, a++, b++) { if (in) { R(a); R(b); } if (*a != *b) return (unsigned char) *a - (unsigned char) *b; if (!*a) return 0; }
    return 0;
}
int strcasecmp(const char* a, const char* b) {
    bool in = sim_inlib();
    for (;; a++, b++) { if (in) { R(a); R(b); } int x = low((unsigned char) *a), y = low((unsigned char) *b); if (x != y) return x - y; if (!x) return 0; }
}
int strncasecmp(const char* a, const char* b, size_t n) {
    bool in = sim_inlib();
    for (; n; n--, a++, b++) { if (in) { R(a); R(b); } int x = low((unsigned char) *a), y = low((unsigned char) *b); if (x != y) return x - y; if (!x) return 0; }
    return 0;
}
int memcmp(const void* p, const void* q, size_t n) {
    const unsigned char* a = (const unsigned char*) p; const unsigned char* b = (const unsigned char*) q;
    bool in = sim_inlib();
    for (; n; n--, a++, b++) { if (in) { R(a); R(b); } if (*a != *b) return *a - *b; }
    return 0;
}
int bcmp(const void* p, const void* q, size_t n) { return memcmp(p, q, n); }
char* strchr(const char* s, int c) { bool in = sim_inlib(); for (;; s++) { if (in) R(s); if (*s == (char) c) return (char*) s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { bool in = sim_inlib(); for (char* o = d;; o++, s++) { if (in) { R(s); W(o); } *o = *s; if (!*s) return d; } }
char* strncpy(char* d, const char* s, size_t n) {
    bool in = sim_inlib(); bool end = false;
    for (size_t i = 0; i < n; i++) { if (!end) { if (in) R(s + i); if (!s[i]) end = true; } if (in) W(d + i); d[i] = end ? 0 : s[i]; }
    return d;
}
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
}
