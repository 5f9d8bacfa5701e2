// Simulator driver: seeded runs, replay of one recorded run, digest of the random-number streams.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cmath>
#include <fstream>
#include <sstream>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <unistd.h>

void catalogueInit();
std::vector<float> rngStreamPublic(int fn, float first, int n);

static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec * 1e-9; }
static uint64_t mix(uint64_t seed, const std::string& prop, uint64_t i) {
    uint64_t h = fnv64(1469598103934665603ull, seed);
    h = fnv(h, prop.data(), prop.size());
    Rng r(fnv64(h, i));
    return r.next() >> 1;
}
static void discover(uint64_t seed, int per) {
    Rng r(seed * 77 + 5);
    CTX.corpus.assign(NFN, {});
    std::set<int> st;
    std::vector<std::set<uintptr_t>> rd(NFN), wr(NFN);
    CTX.related.assign(NFN, {});
    covNew();
    for (int f = 0; f < NFN; f++) {
        if (!isRng(f) && f != FN_wait) CTX.targets.push_back(f);
        uint64_t spent = 0;
        noteR = &rd[f]; noteW = &wr[f];
        for (int k = 0; k < per && spent < 4000000; k++) {
            Op o = (k > per / 2 && !CTX.corpus[f].empty()) ? mutateOp(CTX.corpus[f][r.below((uint32_t) CTX.corpus[f].size())], r) : genOp(f, r);
            o.scrib = 0;
            uint64_t req0 = ST.probes["request_memory"] + ST.probes["request_env"] + ST.probes["request_entropy"] + ST.probes["request_file"];
            Outcome q = solo(o, true);
            spent += q.steps;
            if (soloWroteState || soloTouchedTls || ST.probes["request_memory"] + ST.probes["request_env"] + ST.probes["request_entropy"] + ST.probes["request_file"] != req0) st.insert(f);
            if (q.kind == OK_CRASH || q.kind == OK_LIMIT) { covNew(); continue; }
            if (covNew() && CTX.corpus[f].size() < 40) CTX.corpus[f].push_back(o);
        }
    }
    noteR = noteW = nullptr;
    std::map<uintptr_t, std::vector<int>> readers;
    for (int f = 0; f < NFN; f++) { for (auto a : rd[f]) readers[a].push_back(f); for (auto a : wr[f]) if (!rd[f].count(a)) readers[a].push_back(f); }
    std::vector<std::set<int>> rel(NFN);
    for (int f = 0; f < NFN; f++) for (auto a : wr[f]) for (int g : readers[a]) if (g != f) { rel[f].insert(g); rel[g].insert(f); }
    for (int f = 0; f < NFN; f++) for (int g : rel[f]) if (!isRng(g) && g != FN_wait) { CTX.related[f].push_back(g); st.insert(f); }
    for (int f : st) if (!isRng(f) && f != FN_wait) CTX.stateful.push_back(f);
}
static std::string jesc(const std::string& s) {
    std::string o;
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char) c < 32) o += ' '; else o += c; }
    return o;
}
int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    if (!a.count("--aslr") && !getenv("SLASIM_NOASLR")) {
        int p = personality(0xffffffff);
        if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long) p | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("SLASIM_NOASLR", "1", 1);
            extern char** environ;
            static char e[] = "SLASIM_NOASLR=1";
            char* env[] = {e, nullptr};
            execve("/proc/self/exe", argv, env);
        }
    }
    rtInit("libslasim_");
    CTX.ts1 = a["--ts"] != "0";
    opsInit(a.count("--dict") ? a["--dict"].c_str() : nullptr);
    catalogueInit();
    if (a.count("--digest")) {
        for (float s : {0.0f, 1.0f, 2.5f, 123456.0f, 7e8f, -3.0f, 1e-3f}) {
            printf("random %.9g:", s);
            for (float v : rngStreamPublic(FN_random, s, 40)) printf(" %.9g", v);
            printf("\n");
        }
        Rng dr(42);
        for (int i = 0; i < 400; i++) {
            float s = i < 200 ? (float) i : (float) ((dr.chance(.3) ? -1 : 1) * std::pow(10, dr.uni(-3, 11)));
            printf("random %.9g:", s);
            for (float v : rngStreamPublic(FN_random, s, 3)) printf(" %.9g", v);
            printf("\n");
        }
        printf("gresid:");
        for (float v : rngStreamPublic(FN_gresid, 0, 2000)) printf(" %.9g", v);
        printf("\n");
        return 0;
    }
    if (a.count("--replay")) {
        std::ifstream in(a["--replay"]);
        std::stringstream ss; ss << in.rdbuf();
        Plan p; std::string cls;
        if (!planParse(ss.str(), p, cls)) { fprintf(stderr, "cannot read %s\n", a["--replay"].c_str()); return 2; }
        RunResult r = runPlan(p);
        if (r.violation) { printf("REPRODUCED class=%s hash=%016llx\n%s\n", r.cls.c_str(), (unsigned long long) r.hash, r.detail.c_str()); return r.cls == cls ? 1 : 3; }
        printf("NOT REPRODUCED (recorded class %s)\n", cls.c_str());
        return 0;
    }
    std::string prop = a["--prop"];
    uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10), from = strtoull(a["--from"].c_str(), nullptr, 10), stride = strtoull(a["--stride"].c_str(), nullptr, 10);
    uint64_t count = strtoull(a["--count"].c_str(), nullptr, 10);
    double cap = atof(a["--time"].c_str());
    std::set<std::string> known;
    { std::stringstream ss(a["--known"]); std::string k; while (std::getline(ss, k, ',')) if (!k.empty()) known.insert(k); }
    double t0 = now();
    discover(seed, 120);
    double tDisc = now() - t0;
    uint64_t soloDisc = ST.solo;
    ST.faults.clear();
    std::map<std::string, uint64_t> discProbes = ST.probes;
    ST.probes.clear();
    std::set<uint64_t> scheds;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> knownSeen;
    std::map<std::string, std::string> knownDetail;
    std::set<int> fnsRun;
    uint64_t rechecks = 0, done = 0, nops = 0;
    int rc = 0;
    std::string vcls, vdetail, vfile;
    uint64_t* cur = nullptr;                 // progress mark, readable after an abnormal end
    {
        std::ofstream(a["--out"] + ".idx", std::ios::binary).write("\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 16);
        int fd = (int) syscall(SYS_openat, AT_FDCWD, (a["--out"] + ".idx").c_str(), O_RDWR);
        if (fd >= 0) { void* m = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) cur = (uint64_t*) m; }
    }
    int minExecs = 0;
    for (uint64_t k = 0; k < count && now() - t0 < cap; k++) {
        uint64_t idx = from + k * stride, sd = mix(seed, prop, idx);
        if (cur) { cur[0] = idx; cur[1] = 1; }
        Plan p = makePlan(prop, sd, idx);
        RunResult r = runPlan(p);
        done++;
        if (a.count("--trace")) printf("%llu %016llx %016llx %zu\n", (unsigned long long) idx, (unsigned long long) r.hash, (unsigned long long) r.schedHash, r.recorded.size());
        for (auto& o : p.ops) { fnsRun.insert(o.fn); nops++; }
        if (nontrivial(p, r)) {
            uint64_t h = fnv64(r.schedHash, r.hash);
            for (auto& o : p.ops) { h = fnv64(h, (uint64_t) o.fn); for (auto& b : o.a) h = fnv(h, b.data(), b.size()); }
            if (scheds.insert(h).second) ST.nontrivial++;
            if (samples.size() < 3 && p.ops.size() <= 6 && (k > 3)) {
                std::ostringstream o;
                o << "seed " << sd << ": ";
                for (auto& q : p.ops) o << "[t" << q.thread << "] " << opText(q).substr(0, 160) << "; ";
                static const char* K[] = {"?", "switch", "pick", "interrupt", "abandon", "stall", "restart", "life"};
                int n = 0;
                for (auto& e : r.recorded) if (n++ < 6) o << K[e.kind] << "@call" << e.op << "/step" << (e.y & 0x7fffffff) << " ";
                samples.push_back(o.str());
            }
        }
        bool again = r.violation || (k % 64) == 7;
        if (again) {
            Plan p2 = makePlan(prop, sd, idx);
            RunResult r2 = runPlan(p2);
            rechecks++;
            if (r2.hash != r.hash || r2.schedHash != r.schedHash) { fprintf(stderr, "slasim: run %llu (seed %llu) is not repeatable: %s / %s\n", (unsigned long long) idx, (unsigned long long) sd, r.cls.c_str(), r2.cls.c_str()); rc = 3; break; }
        }
        if (r.violation) {
            if (known.count(r.cls)) { knownSeen[r.cls]++; knownDetail[r.cls] = r.detail; continue; }
            Plan q = p;
            q.replay = true;
            q.ev = r.recorded;
            RunResult rr = runPlan(q);
            if (!rr.violation || rr.cls != r.cls) { fprintf(stderr, "slasim: replay of seed %llu diverges: %s / %s\n", (unsigned long long) sd, r.cls.c_str(), rr.cls.c_str()); rc = 3; break; }
            q = minimise(q, r.cls, 3000, minExecs);
            RunResult rf = runPlan(q);
            vcls = rf.cls; vdetail = rf.detail;
            vfile = a["--out"] + ".replay";
            std::ofstream o(vfile);
            o << planText(q, rf);
            rc = 1;
            break;
        }
    }
    if (cur) cur[1] = 2;
    std::ofstream o(a["--out"]);
    o << "{\"runs\":" << done << ",\"nontrivial\":" << ST.nontrivial << ",\"ops\":" << ST.ops << ",\"yields\":" << ST.yields << ",\"switches\":" << ST.switches << ",\"preemptions\":" << ST.preempt
      << ",\"solo\":" << ST.solo << ",\"solo_discovery\":" << soloDisc << ",\"sim_seconds\":" << ST.simSeconds << ",\"edges\":" << covEdges() << ",\"edges_hit\":" << covHit() << ",\"functions\":" << fnsRun.size()
      << ",\"rechecks\":" << rechecks << ",\"wall\":" << now() - t0 << ",\"discovery_wall\":" << tDisc << ",\"min_execs\":" << minExecs << ",\"faults\":{";
    bool c = false;
    for (auto& f : ST.faults) { if (f.second) { o << (c ? "," : "") << "\"" << f.first << "\":" << f.second; c = true; } }
    o << "},\"probes\":{"; c = false;
    for (auto& f : ST.probes) { if (f.second) { o << (c ? "," : "") << "\"" << f.first << "\":" << f.second; c = true; } }
    o << "},\"stateful\":["; c = false;
    for (int f : CTX.stateful) { o << (c ? "," : "") << "\"" << FNS[f].name << "\""; c = true; }
    o << "],\"samples\":["; c = false;
    for (auto& s : samples) { o << (c ? "," : "") << "\"" << jesc(s) << "\""; c = true; }
    o << "],\"known\":{"; c = false;
    for (auto& s : knownSeen) { o << (c ? "," : "") << "\"" << jesc(s.first) << "\":\"" << jesc(knownDetail[s.first]) << "\""; c = true; }
    o << "},\"class\":\"" << jesc(vcls) << "\",\"detail\":\"" << jesc(vdetail) << "\",\"replay\":\"" << jesc(vfile) << "\"}\n";
    o.close();
    std::ofstream hs(a["--out"] + ".sched", std::ios::binary);
    for (uint64_t h : scheds) hs.write((const char*) &h, 8);
    return rc;
}
