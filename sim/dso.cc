// Part of the simulated library image: what the library leaves to be run at exit, thread end or fork goes to the simulator, and the
// image is recorded before the library's own initialisers run (101 is the first priority open to programs).
extern "C" {
int slasim_atexit(void (*f)(void*), void* p);
int slasim_atfork(void (*)(), void (*)(), void (*)());
int __cxa_at_quick_exit(void (*)(), void*);
void slasim_early();
#define H __attribute__((visibility("hidden")))
H void* __dso_handle = &__dso_handle;
H int __cxa_atexit(void (*f)(void*), void* p, void*) { return slasim_atexit(f, p); }
static void plain(void* f) { ((void (*)()) f)(); }
H int atexit(void (*f)()) { return slasim_atexit(plain, (void*) f); }
H int at_quick_exit(void (*f)()) { return __cxa_at_quick_exit(f, nullptr); }
H int pthread_atfork(void (*a)(), void (*b)(), void (*c)()) { return slasim_atfork(a, b, c); }
H int __register_atfork(void (*a)(), void (*b)(), void (*c)(), void*) { return slasim_atfork(a, b, c); }
__attribute__((constructor(101))) static void early() { slasim_early(); }
}
