// std::call_once under emulated TLS: the library's thread-local hand-over variables and the proxy that runs the callable.
// Compiled with -femulated-tls so that they are per simulated thread.
namespace std {
extern __thread void* __once_callable;
extern __thread void (*__once_call)();
__thread void* __once_callable;
__thread void (*__once_call)();
}
extern "C" void __once_proxy() { std::__once_call(); }
