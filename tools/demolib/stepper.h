// Deterministic mid-call interruption for demonstrations: single-steps a call with the x86 trap flag and, after exactly
// `at` instructions, runs `hook` inside the SIGTRAP handler (on the interrupted thread), or abandons the call with
// siglongjmp. Everything stays inside this process.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <thread>
#include <ucontext.h>
#include <unistd.h>
namespace step {
inline volatile long count, at;
inline std::function<void()>* hook;
inline volatile bool fired, abandon_it;
inline sigjmp_buf out;
inline void handler(int, siginfo_t*, void* u) {
    ucontext_t* c = (ucontext_t*) u;
    if (++count < at) return;
    c->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
    if (fired) return;
    fired = true;
    if (abandon_it) siglongjmp(out, 1);
    (*hook)();
}
inline void on() { asm volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "cc", "memory"); }
inline void off() { asm volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "cc", "memory"); }
inline void install() {
    static bool done = false;
    if (done) return;
    done = true;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = handler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, nullptr);
}
// runs call(); after k instructions runs h() in the middle of it. Returns whether the hook ran.
inline bool interrupt(const std::function<void()>& call, long k, std::function<void()> h) {
    install();
    hook = &h; count = 0; at = k; fired = false; abandon_it = false;
    on(); call(); off();
    return fired;
}
// runs call() and jumps out of it after k instructions. Returns whether it was cut off.
inline bool abandon(const std::function<void()>& call, long k) {
    install();
    count = 0; at = k; fired = false; abandon_it = true;
    if (sigsetjmp(out, 1) == 0) { on(); call(); off(); return false; }
    return true;
}
// number of instructions of call()
inline long length(const std::function<void()>& call) {
    install();
    std::function<void()> none = [] {};
    hook = &none; count = 0; at = 2000000000L; fired = false; abandon_it = false;
    on(); call(); off();
    return count;
}
// another thread runs h to completion while this one is stopped
inline std::function<void()> on_thread(std::function<void()> h) { return [h] { std::thread t(h); t.join(); }; }
}
#define REQUIRE(c) do { if (!(c)) { printf("FAIL %s:%d: %s\n", __FILE__, __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
template<class T> bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
