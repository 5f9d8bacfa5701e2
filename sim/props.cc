// Per property: how a run is drawn from a seed, what it is compared with, and what is checked over its history.
#include "sim.h"
#include "slalib.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <array>
#include <set>
#include <sstream>

Ctx CTX;

// ------------------------------------------------------------------------------------------------ solo results
struct SoloInfo { Outcome out; std::vector<uint32_t> ys; };
static std::map<uint64_t, SoloInfo> soloCache;
static uint64_t opKey(const Op& o) {
    uint64_t h = fnv64(1469598103934665603ull, (uint64_t) o.fn);
    for (auto& b : o.a) { h = fnv64(h, b.size()); h = fnv(h, b.data(), b.size()); }
    return fnv64(fnv64(h, o.scrib), o.rmode);
}
static Op plain(const Op& o) {
    Op p = o;
    p.ambient = 0; p.failMask = 0; p.tf.clear(); p.shareIn = false; p.reuse = false; p.stage = false; p.links.clear();
    return p;
}
// the call alone in a fresh process
static const SoloInfo& soloOf(const Op& o) {
    Op p = plain(o);
    uint64_t k = opKey(p);
    auto it = soloCache.find(k);
    if (it != soloCache.end()) return it->second;
    SoloInfo s;
    s.out = solo(p, true);
    s.ys = soloYs;
    return soloCache[k] = s;
}

// ------------------------------------------------------------------------------------------------ building blocks
static const uint64_t MAXSTEPS = 250000;
static bool usable(const Op& o, uint64_t maxSteps = MAXSTEPS) {
    const Outcome& s = soloOf(o).out;
    return s.kind != OK_CRASH && s.kind != OK_LIMIT && s.kind != OK_NONE && s.steps <= maxSteps;
}
static double EXOTIC;                        // share of calls with NaN, infinite or extreme numbers
static Op baseOp(int fn, Rng& r, uint64_t maxSteps = MAXSTEPS) {
    for (int t = 0; t < 12; t++) {
        Op o;
        if (!CTX.corpus.empty() && !CTX.corpus[fn].empty() && r.chance(.45)) {
            o = CTX.corpus[fn][r.below((uint32_t) CTX.corpus[fn].size())];
            if (r.chance(.5)) o = mutateOp(o, r);
        } else o = genOp(fn, r);
        o.scrib = 0;
        if (EXOTIC > 0 && r.chance(EXOTIC)) exoticOp(o, r);
        if (usable(o, maxSteps)) return o;
    }
    Op o = genOp(FN_veri, r);
    o.scrib = 0;
    return o;
}
static Op variantOf(const Op& b, Rng& r, uint64_t maxSteps = MAXSTEPS) {
    for (int t = 0; t < 6; t++) {
        Op o = mutateOp(b, r);
        o.scrib = 0;
        if (usable(o, maxSteps)) return o;
    }
    return b;
}
static bool special(int fn) { return isRng(fn) || fn == FN_wait; }
static int anyFn(Rng& r) { for (;;) { int f = (int) r.below((uint32_t) NFN); if (!special(f)) return f; } }
static int statefulFn(Rng& r) {
    if (CTX.stateful.empty()) return -1;
    return CTX.stateful[r.below((uint32_t) CTX.stateful.size())];
}
static int targetFn(Rng& r, uint64_t index) {
    if (!CTX.stateful.empty() && r.chance(.5)) { int f = statefulFn(r); if (f >= 0 && !special(f)) return f; }
    return CTX.targets[index % CTX.targets.size()];
}
static int add(Plan& p, Op o, int thread) {
    o.id = (int) p.ops.size();
    o.thread = thread;
    p.ops.push_back(o);
    return o.id;
}
static uint32_t pickY(const Op& o, Rng& r) {
    const SoloInfo& s = soloOf(o);
    if (!s.ys.empty() && r.chance(.65)) return s.ys[r.below((uint32_t) s.ys.size())] + r.below(3);
    uint32_t n = (uint32_t) std::max<uint64_t>(1, s.out.steps);
    if (r.chance(.15)) return 1 + (uint32_t) std::floor(std::exp(r.unit() * std::log((double) n)));
    return 1 + r.below(n);
}
static double meanSteps(const Plan& p) {
    double s = 0;
    for (auto& o : p.ops) s += (double) soloOf(o).out.steps;
    return p.ops.empty() ? 10 : s / (double) p.ops.size() + 2;
}
static void drawPolicy(Plan& p, Rng& r) {
    double m = meanSteps(p), u = r.unit();
    if (u < .45) { p.pol.kind = 1; p.pol.gap = std::exp(r.unit() * std::log(std::max(3.0, 2 * m))) + 1; }
    else if (u < .60) { p.pol.kind = 3; p.pol.gap = 1 + r.below(10); }
    else if (u < .70) { p.pol.kind = 1; p.pol.gap = m; p.pol.pShared = r.uni(.1, .7); }
    else { // a few chosen preemption points
        p.pol.kind = 0;
        int k = r.range(1, 4);
        while (k-- > 0) { const Op& o = p.ops[r.below((uint32_t) p.ops.size())]; if (o.thread >= 0) p.ev.push_back(Event{o.id, pickY(o, r), EV_SWITCH, -1, 0}); }
    }
    // keep very long calls affordable: at most some thousand switches
    if (p.pol.kind) p.pol.gap = std::max(p.pol.gap, m * (double) p.ops.size() / 4000.0);
}
static int relatedFn(int fn, Rng& r) { return fn >= 0 && fn < (int) CTX.related.size() && !CTX.related[fn].empty() ? CTX.related[fn][r.below((uint32_t) CTX.related[fn].size())] : -1; }
// calls around a target function: repeats, near-repeats, related functions, anything else
struct Pool {
    std::vector<Op> ops;
    Pool(int fn, Rng& r, int n, uint64_t maxSteps) {
        ops.push_back(baseOp(fn, r, maxSteps));
        while ((int) ops.size() < n) {
            double u = r.unit();
            int g = relatedFn(fn, r);
            if (g >= 0 && r.chance(.35)) ops.push_back(baseOp(g, r, maxSteps));
            else if (u < .40) ops.push_back(variantOf(ops[r.below((uint32_t) ops.size())], r, maxSteps));
            else if (u < .60) ops.push_back(baseOp(fn, r, maxSteps));
            else if (u < .75 && statefulFn(r) >= 0) {
                int f = statefulFn(r);
                ops.push_back(special(f) ? baseOp(anyFn(r), r, maxSteps) : baseOp(f, r, maxSteps));
            } else ops.push_back(baseOp(anyFn(r), r, maxSteps));
        }
    }
    const Op& pick(Rng& r) { return r.chance(.4) ? ops[0] : ops[r.below((uint32_t) ops.size())]; }
};
static bool isStateful(int fn) { return std::find(CTX.stateful.begin(), CTX.stateful.end(), fn) != CTX.stateful.end(); }
static int many(Rng& r) { return r.chance(.88) ? r.range(6, 36) : r.chance(.6) ? r.range(60, 76) : r.range(37, 290); }
// as many calls of the pool as are affordable in one run
static int atMost(const Pool& pool, int n) {
    uint64_t m = 1;
    for (auto& o : pool.ops) m = std::max<uint64_t>(m, soloOf(o).out.steps);
    return std::min<int>(n, (int) std::min<uint64_t>(100000, 6000000 / m + 3));
}
static void noise(Plan& p, Rng& r, int thread) {
    // calls whose own results are not compared here
    Op o = genOp(r.chance(.5) ? FN_random : FN_gresid, r);
    o.scrib = 0;
    add(p, o, thread);
}
static void common(Plan& p, Rng& r) {
    for (auto& o : p.ops) { o.reuse = r.chance(.5); o.stage = r.chance(.4); }
}

// ------------------------------------------------------------------------------------------------ pipelines (C14), walks (C09, C10)
static bool linkArg(Plan& p, int dst, int dArg, int src, int sArg) {
    const FnDesc& df = FNS[p.ops[dst].fn]; const FnDesc& sf = FNS[p.ops[src].fn];
    int dt = df.args[dArg].type, st = sArg < 0 ? sf.ret : sf.args[sArg].type;
    if (dt != st) return false;
    if (sArg >= 0 && p.ops[dst].a[dArg].size() != p.ops[src].a[sArg].size()) return false;
    p.ops[dst].links.push_back(Link{(uint8_t) dArg, src, (int8_t) sArg});
    return true;
}
struct Step { const char* fn; std::vector<std::array<int, 3>> links; };    // {dstArg, step, srcArg}
static const std::vector<std::vector<Step>> PIPES = {
    {{"refco", {}}, {"refz", {{1, 0, 8}, {2, 0, 9}}}, {"refv", {{1, 0, 8}, {2, 0, 9}}}, {"atmdsp", {{4, 0, 8}, {5, 0, 9}}}, {"refz", {{1, 3, 7}, {2, 3, 8}}}},
    {{"refcoq", {}}, {"atmdsp", {{4, 0, 4}, {5, 0, 5}}}, {"refv", {{1, 1, 7}, {2, 1, 8}}}, {"refz", {{1, 0, 4}, {2, 0, 5}}}},
    {{"prec", {}}, {"nut", {}}, {"dmxm", {{0, 1, 1}, {1, 0, 2}}}, {"dcs2c", {}}, {"dmxv", {{0, 2, 2}, {1, 3, 1}}}, {"dcc2s", {{0, 4, 2}}}, {"dimxv", {{0, 2, 2}, {1, 4, 2}}}, {"dsepv", {{0, 6, 2}, {1, 3, 1}}}},
    {{"caldj", {}}, {"dtf2d", {}}, {"gmsta", {{0, 0, 3}, {1, 1, 3}}}, {"eqeqx", {{0, 0, 3}}}, {"gmst", {{0, 0, 3}}}, {"dtt", {{0, 0, 3}}}, {"epj", {{0, 0, 3}}}, {"epj2d", {{0, 6, -1}}}, {"djcl", {{0, 7, -1}}}, {"dranrm", {{0, 2, -1}}}},
    {{"cldj", {}}, {"djcal", {{1, 0, 3}}}, {"dat", {{0, 0, 3}}}, {"epb", {{0, 0, 3}}}, {"epb2d", {{0, 3, -1}}}, {"nutc", {{0, 4, -1}}}, {"ecmat", {{0, 4, -1}}}},
    {{"gmst", {}}, {"pvobs", {{2, 0, -1}}}, {"dc62s", {{0, 1, 3}}}, {"ds2c6", {{0, 2, 1}}}, {"geoc", {}}, {"rcc", {{3, 4, 2}, {4, 4, 3}}}},
    {{"de2h", {}}, {"dh2e", {{0, 0, 2}, {1, 0, 3}}}, {"zd", {{0, 1, 3}}}, {"airmas", {{0, 2, -1}}}, {"refz", {{0, 2, -1}}}, {"pa", {{0, 1, 3}}}, {"altaz", {{0, 1, 3}}}},
    {{"evp", {}}, {"dvn", {{0, 0, 5}}}, {"dcc2s", {{0, 1, 1}}}, {"eqgal", {{0, 2, 1}}}, {"galeq", {{0, 3, 1}}}, {"dvdv", {{0, 0, 2}, {1, 0, 4}}}},
    {{"epv", {}}, {"dvxv", {{0, 0, 1}, {1, 0, 2}}}, {"dcc2s", {{0, 1, 2}}}, {"dmoon", {}}, {"dc62s", {{0, 3, 1}}}},
    {{"ds2tp", {}}, {"dtp2s", {{0, 0, 2}, {1, 0, 3}}}, {"dtps2c", {{0, 0, 2}, {1, 0, 3}}}, {"pcd", {{1, 0, 2}, {2, 0, 3}}}, {"unpcd", {{1, 3, 1}, {2, 3, 2}}}},
    {{"dmat", {}}, {"dmat", {{1, 0, 1}, {2, 0, 2}}}},
    {{"eqgal", {}}, {"galeq", {{0, 0, 1}}}, {"addet", {{0, 1, 1}}}, {"subet", {{0, 2, 2}}}, {"eg50", {{0, 3, 2}}}, {"ge50", {{0, 4, 1}}}, {"galsup", {{0, 3, 2}}}, {"supgal", {{0, 6, 1}}}, {"preces", {{3, 7, 1}}}},
    {{"eqecl", {}}, {"ecleq", {{0, 0, 2}}}, {"pm", {{0, 1, 2}}}, {"dsep", {{0, 2, 6}, {1, 1, 2}}}, {"dbear", {{0, 2, 6}, {1, 1, 2}}}},
    {{"dav2m", {}}, {"dm2av", {{0, 0, 1}}}, {"deuler", {}}, {"dmxm", {{0, 0, 1}, {1, 2, 4}}}, {"dimxv", {{0, 3, 2}, {1, 1, 1}}}},
    {{"prebn", {}}, {"prenut", {}}, {"dmxm", {{0, 0, 2}, {1, 1, 2}}}, {"dmxv", {{0, 2, 2}}}, {"dcc2s", {{0, 3, 2}}}},
    {{"nutc", {}}, {"nutc80", {}}, {"eqeqx", {}}, {"drange", {{0, 0, 1}}}, {"dr2tf", {{1, 2, -1}}}},
    {{"polmo", {}}, {"geoc", {{0, 0, 5}}}, {"pvobs", {{0, 0, 5}}}, {"altaz", {{1, 0, 5}}}},
    {{"earth", {}}, {"cc62s", {{0, 0, 3}}}, {"moon", {}}, {"cc62s", {{0, 2, 3}}}, {"cs2c6", {{0, 3, 1}}}},
};
static bool namedPipe(Plan& p, int g, Rng& r) {
    std::vector<int> ids;
    auto& pipe = PIPES[r.below((uint32_t) PIPES.size())];
    for (auto& st : pipe) {
        int fn = fnByName(st.fn);
        if (fn < 0) return false;
        Op o = genOp(fn, r);
        o.scrib = 0; o.group = g;
        if (!strcmp(st.fn, "dmat") && !ids.empty()) o.a = p.ops[ids[0]].a;
        int id = add(p, o, 0);
        ids.push_back(id);
        for (auto& l : st.links) linkArg(p, id, l[0], ids[l[1]], l[2]);
    }
    return true;
}
static bool platePipe(Plan& p, int g, Rng& r) {
    Op f = genOp(fnByName("fitxy"), r);
    f.scrib = 0; f.group = g;
    int id = add(p, f, 0);
    auto mk = [&](const char* n) { Op o = genOp(fnByName(n), r); o.scrib = 0; o.group = g; return o; };
    Op x = mk("pxy");
    x.a[0] = f.a[1]; x.a[1] = f.a[2]; x.a[2] = f.a[3]; x.a[4].assign(f.a[2].size(), 0x5a);
    int xi = add(p, x, 0); linkArg(p, xi, 3, id, 4);
    int iv = add(p, mk("invf"), 0); linkArg(p, iv, 0, id, 4);
    int t1 = add(p, mk("xy2xy"), 0); linkArg(p, t1, 2, id, 4);
    int t2 = add(p, mk("xy2xy"), 0); linkArg(p, t2, 2, iv, 1); linkArg(p, t2, 0, t1, 3); linkArg(p, t2, 1, t1, 4);
    int dc = add(p, mk("dcmpf"), 0); linkArg(p, dc, 0, id, 4);
    return true;
}
static bool svdPipe(Plan& p, int g, Rng& r) {
    Op s = genOp(fnByName("svd"), r);
    s.scrib = 0; s.group = g;
    int m, n, mp, np;
    memcpy(&m, s.a[0].data(), 4); memcpy(&n, s.a[1].data(), 4); memcpy(&mp, s.a[2].data(), 4); memcpy(&np, s.a[3].data(), 4);
    if (m < n) return false;
    int id = add(p, s, 0);
    Op q = genOp(fnByName("svdsol"), r);
    q.scrib = 0; q.group = g;
    for (int i = 0; i < 4; i++) q.a[i] = s.a[i];
    q.a[4].assign((size_t) m * 8, 0); for (int i = 0; i < m; i++) { double v = r.uni(-3, 3); memcpy(&q.a[4][(size_t) i * 8], &v, 8); }
    q.a[5] = s.a[4]; q.a[6].assign((size_t) n * 8, 0); q.a[7].assign((size_t) np * np * 8, 0); q.a[8].assign((size_t) n * 8, 0x11); q.a[9].assign((size_t) n * 8, 0x22);
    int qi = add(p, q, 0);
    linkArg(p, qi, 5, id, 4); linkArg(p, qi, 6, id, 5); linkArg(p, qi, 7, id, 6);
    Op c = genOp(fnByName("svdcov"), r);
    c.scrib = 0; c.group = g;
    int nc = n + r.range(0, 2);
    c.a[0] = s.a[1]; c.a[1] = s.a[3]; c.a[2].assign(4, 0); memcpy(c.a[2].data(), &nc, 4);
    c.a[3].assign((size_t) n * 8, 0); c.a[4].assign((size_t) np * np * 8, 0); c.a[5].assign((size_t) n * 8, 0x33); c.a[6].assign((size_t) nc * nc * 8, 0x44);
    int ci = add(p, c, 0);
    linkArg(p, ci, 3, id, 5); linkArg(p, ci, 4, id, 6);
    return true;
}
static bool randomPipe(Plan& p, int g, Rng& r, int first) {
    int n = r.range(2, 7), base = (int) p.ops.size();
    for (int k = 0; k < n; k++) {
        int sf = statefulFn(r);
        int fn = k == 0 && first >= 0 ? first : (sf >= 0 && !special(sf) && r.chance(.3)) ? sf : r.chance(.25) && first >= 0 ? first : anyFn(r);
        if (k) { int q = relatedFn(p.ops[base + (int) r.below((uint32_t) k)].fn, r); if (q >= 0 && !special(q) && r.chance(.35)) fn = q; }
        Op o = genOp(fn, r);
        o.scrib = 0; o.group = g;
        int id = add(p, o, 0);
        const FnDesc& d = FNS[fn];
        for (int a = 0; a < d.nargs; a++) {
            if (d.args[a].mode == AM_o || d.args[a].type == AT_ob || (d.custom != CG_none && d.args[a].type != AT_d && d.args[a].type != AT_fc)) continue;
            if (d.args[a].type == AT_i || d.args[a].type == AT_st || d.args[a].type == AT_b) continue;
            if (d.args[a].kind == AK_eps || d.args[a].kind == AK_wsec) continue;
            if (r.chance(.35)) continue;
            for (int t = 0; t < 6; t++) {
                if (id == base) break;
                int src = base + (int) r.below((uint32_t) (id - base)), sa = (int) r.below((uint32_t) FNS[p.ops[src].fn].nargs + 1) - 1;
                if (sa >= 0 && (FNS[p.ops[src].fn].args[sa].mode == AM_i)) continue;
                if (linkArg(p, id, a, src, sa)) break;
            }
        }
    }
    return true;
}
static std::vector<int> toInts(const Blob& b) { std::vector<int> v(b.size() / 4); if (!v.empty()) memcpy(v.data(), b.data(), v.size() * 4); return v; }
static Blob fromInts(const std::vector<int>& v) { Blob b(v.size() * 4); if (!v.empty()) memcpy(b.data(), v.data(), b.size()); return b; }
static const int64_t MANY = 1000000000000000ll;
static int64_t fact(int n) { int64_t f = 1; for (int i = 2; i <= n && f < MANY; i++) f *= i; return std::min(f, MANY); }
static int64_t choose(int n, int k) { if (k > n - k) k = n - k; int64_t c = 1; for (int i = 1; i <= k && c < MANY; i++) c = c * (n - k + i) / i; return std::min(c, MANY); }
// models of the walks: permut's state is a mixed-radix counter, combn's list is followed in co-lexicographic order. Which
// order is used is not promised; these models are applied only where the tree at hand is seen to follow them (walkModelOk)
static bool permNext(std::vector<int>& s, std::vector<int>& ord) {
    int n = (int) s.size(), i = 0;
    while (i < n && s[i] == i) s[i++] = 0;
    if (i < n) s[i]++;
    std::vector<int> free_(n);
    for (int k = 0; k < n; k++) free_[k] = k;
    ord.assign(n, 1);
    for (int l = n; l >= 2; l--) { ord[free_[s[l - 1]]] = l; free_.erase(free_.begin() + s[l - 1]); }
    return i < n;
}
static bool combNext(std::vector<int>& l, int n) {
    int k = (int) l.size(), i = 0;
    while (i < k && l[i] + 1 == (i + 1 < k ? l[i + 1] : n + 1)) i++;
    bool more = i < k;
    if (more) l[i]++;
    for (int j = 0; j < i; j++) l[j] = j + 1;
    return more;
}
static Op walkOp(bool perm, int n, int k) {
    Rng r(3);
    Op o = genOp(perm ? FN_permut : FN_combn, r);
    o.scrib = 0;
    if (perm) { o.a[0] = fromInts({n}); o.a[1] = fromInts(std::vector<int>(n, -1)); o.a[2] = fromInts(std::vector<int>(n, 77)); }
    else { o.a[0] = fromInts({k}); o.a[1] = fromInts({n}); o.a[2] = fromInts(std::vector<int>(k, 0)); }
    return o;
}
static int stOf(const Outcome& o) { int st = -99; if (!o.out.empty() && o.out.back().size() >= 4) memcpy(&st, o.out.back().data(), 4); return st; }
static bool walkModelOk(bool perm) {
    static int known[2] = {-1, -1};
    if (known[perm] >= 0) return known[perm];
    known[perm] = 0;
    int n = 5, k = perm ? 5 : 3;
    Op o = walkOp(perm, n, k);
    std::vector<int> s(n, 0), ord, l(k);
    for (int i = 0; i < 125; i++) {
        Outcome q = solo(o, i == 0);
        if (q.kind != OK_DONE) return false;
        bool more = true;
        if (perm) { if (i) more = permNext(s, ord); else { for (int j = 0; j < n; j++) ord.push_back(n - j); } if (toInts(q.out[1]) != s || toInts(q.out[2]) != ord) return false; o.a[1] = q.out[1]; }
        else { if (i) more = combNext(l, n); else for (int j = 0; j < k; j++) l[j] = j + 1; if (toInts(q.out[2]) != l) return false; o.a[2] = q.out[2]; }
        if (stOf(q) != (more ? sla::CPS_OK : sla::CPS_NO_MORE)) return false;
    }
    known[perm] = 1;
    return true;
}
// one undisturbed walk from beginning to end and a little further
static std::string wholeWalk(bool perm, int n, int k) {
    Op o = walkOp(perm, n, k);
    int64_t total = perm ? fact(n) : choose(n, k);
    if (total > 500000) return "";
    std::vector<uint64_t> seen;
    std::vector<int> sel;
    char b[120];
    for (int64_t i = 0; i <= total; i++) {
        Outcome q = solo(o, i == 0);
        snprintf(b, sizeof b, " (step %lld, n=%d, k=%d)", (long long) i + 1, n, k);
        if (q.kind != OK_DONE) return std::string("a step ended abnormally") + b;
        if (stOf(q) != (i == total ? sla::CPS_NO_MORE : sla::CPS_OK)) return "status " + std::to_string(stOf(q)) + b;
        sel = toInts(q.out[2]);
        std::vector<int> t = sel;
        std::sort(t.begin(), t.end());
        for (int j = 0; j < k; j++) if (t[j] < 1 || t[j] > n || (j && t[j] == t[j - 1]) || (!perm && sel[j] != t[j])) return std::string("not a selection of distinct numbers 1..n in the documented form") + b;
        if (i == 0 || i == total) for (int j = 0; j < k; j++) if (sel[j] != (perm ? n - j : j + 1)) return std::string("cycle does not begin with the documented first selection") + b;
        if (perm && i == total - 1) for (int j = 0; j < k; j++) if (sel[j] != j + 1) return std::string("cycle does not end with the ascending permutation") + b;
        if (i < total) { uint64_t h = 1469598103934665603ull; for (int x : sel) h = fnv64(h, (uint64_t) x * 0x9E3779B97F4A7C15ull); seen.push_back(h); }
        o.a[perm ? 1 : 2] = q.out[perm ? 1 : 2];
    }
    std::sort(seen.begin(), seen.end());
    for (size_t i = 1; i < seen.size(); i++) if (seen[i] == seen[i - 1]) { snprintf(b, sizeof b, " (n=%d, k=%d)", n, k); return std::string("a selection is delivered twice in one cycle") + b; }
    return "";
}
static void walk(Plan& p, int g, bool perm, int n, int k, int len, bool deep, Rng& r) {
    int prev = -1;
    Op first = genOp(perm ? FN_permut : FN_combn, r);
    for (int i = 0; i < len; i++) {
        Op o = first;
        o.scrib = 0; o.group = g; o.tag = deep ? 4 : 1;
        if (deep && perm) {
            std::vector<int> st(n), ord(n, 55);
            bool near = r.chance(.3);                  // close to a carry through many digits
            for (int j = 0; j < n; j++) st[j] = near && j < n - 1 ? j : r.range(0, j);
            if (near && r.chance(.3)) st[n - 1] = n - 1;
            o.a[0] = fromInts({n}); o.a[1] = fromInts(st); o.a[2] = fromInts(ord);
        } else if (deep) {
            std::vector<int> l;
            int c = r.chance(.3) ? r.range(0, k) : 0;   // c consecutive items at the front
            std::set<int> q;
            if (c) { int f = r.range(1, n - k + 1); for (int j = 0; j < c; j++) q.insert(f + j); }
            if (c == k && r.chance(.5)) { q.clear(); for (int j = 0; j < k; j++) q.insert(n - j); }
            while ((int) q.size() < k) q.insert(r.range(1, n));
            l.assign(q.begin(), q.end());
            o.a[0] = fromInts({k}); o.a[1] = fromInts({n}); o.a[2] = fromInts(l);
        } else if (perm) {
            std::vector<int> st(n), ord(n);
            for (int& x : st) x = r.range(-50, 50);
            for (int& x : ord) x = r.range(-50, 50);
            st[0] = -r.range(1, 4);
            o.a[0] = fromInts({n}); o.a[1] = fromInts(st); o.a[2] = fromInts(ord);
        } else {
            std::vector<int> l(k);
            for (int& x : l) x = r.range(-50, 50);
            l[0] = -r.range(0, 4);
            o.a[0] = fromInts({k}); o.a[1] = fromInts({n}); o.a[2] = fromInts(l);
        }
        int id = add(p, o, 0);
        if (prev >= 0) linkArg(p, id, perm ? 1 : 2, prev, perm ? 1 : 2);
        prev = id;
    }
}
// interleaves the groups' calls over threads, keeping each group's order; remaps ids
static void spread(Plan& p, Rng& r, double hop) {
    std::map<int, std::vector<int>> seq;
    int solo = 1000000;
    for (auto& o : p.ops) seq[o.group >= 0 ? o.group : solo++].push_back(o.id);
    std::vector<std::vector<int>> q;
    for (auto& s : seq) q.push_back(s.second);
    std::vector<size_t> pos(q.size(), 0);
    std::vector<int> home(q.size());
    for (int& h : home) h = (int) r.below((uint32_t) p.nthreads);
    std::vector<Op> out;
    std::vector<int> remap(p.ops.size(), -1);
    bool serial = r.chance(.2);
    for (;;) {
        std::vector<int> live;
        for (size_t i = 0; i < q.size(); i++) if (pos[i] < q[i].size()) live.push_back((int) i);
        if (live.empty()) break;
        int g = serial ? live[0] : live[r.below((uint32_t) live.size())];
        Op o = p.ops[q[g][pos[g]++]];
        if (r.chance(hop)) home[g] = (int) r.below((uint32_t) p.nthreads);
        remap[o.id] = (int) out.size();
        o.id = (int) out.size();
        o.thread = home[g];
        for (auto& l : o.links) l.srcOp = remap[l.srcOp];
        out.push_back(o);
    }
    p.ops = out;
}
static bool groupsOk(const Plan& p);

static const std::vector<std::pair<float, int>>& hotSeeds();
// ------------------------------------------------------------------------------------------------ plans
static void setRngThread(Plan& p, int fn, int t, int n, Rng& r, float seed0) {
    for (int i = 0; i < n; i++) {
        if (r.chance(.12)) { Op b = baseOp(anyFn(r), r, 3000); add(p, b, t); }
        if (r.chance(.15)) { Op b = genOp(fn == FN_random ? FN_gresid : FN_random, r); b.scrib = 0; b.tag = 7; add(p, b, t); }
        Op o = genOp(fn, r);
        o.scrib = 0;
        if (fn == FN_random && i == 0) memcpy(o.a[0].data(), &seed0, 4);
        o.tag = 5;
        add(p, o, t);
    }
}
Plan makePlan(const std::string& prop, uint64_t seed, uint64_t index) {
    soloCache.clear();
    Rng r(seed);
    Plan p;
    p.prop = prop; p.seed = seed;
    int tgt = targetFn(r, index);
    uint64_t maxSteps = r.chance(sizedFn(tgt) ? .4 : .05) ? MAXSTEPS : 30000;
    EXOTIC = (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C15") && r.chance(.06) ? .4 : 0;
    if (prop == "C01" && r.chance(.04)) { // one or two calls paused while another thread makes many
        p.nthreads = r.range(2, 3);
        Pool pool(tgt, r, r.range(1, 3), isStateful(tgt) ? MAXSTEPS : 2500);
        bool share = r.chance(.5);
        int n = atMost(pool, r.chance(.7) ? r.range(8, 70) : r.chance(.85) ? r.range(70, 280) : r.range(280, 1200));
        for (int t = 0; t + 1 < p.nthreads; t++) { Op o = pool.ops[0]; if (r.chance(.3)) o = pool.pick(r); o.shareIn = share; int id = add(p, o, t); p.ev.push_back(Event{id, pickY(o, r), EV_SWITCH, -1, 0}); }
        for (int i = 0; i < n; i++) { Op o = pool.pick(r); o.shareIn = share; add(p, o, p.nthreads - 1); }
        common(p, r);
        p.pol.kind = 0;
    } else if (prop == "C01") {
        p.nthreads = r.chance(.6) ? 2 : r.chance(.9) ? r.range(3, 5) : many(r);
        Pool pool(tgt, r, r.range(2, 5), p.nthreads > 36 ? std::min<uint64_t>(maxSteps, isStateful(tgt) ? 30000 : 2500) : maxSteps);
        bool share = r.chance(.5);
        int per = p.nthreads > 5 ? 1 : r.range(1, 4);
        for (int t = 0; t < p.nthreads; t++) for (int i = 0; i < per; i++) { Op o = pool.pick(r); o.shareIn = share; add(p, o, t); if (CTX.ts1 && r.chance(.05)) noise(p, r, t); }
        common(p, r);
        drawPolicy(p, r);
    } else if (prop == "C02") {
        p.nthreads = r.chance(.8) ? 1 : 2;
        p.maskOut = true;
        double u = r.unit();
        if (index < CTX.targets.size() || u < .0004) { // one function, many thousand calls
            p.mode = 5;
            p.nthreads = 1;
            Op o = baseOp(tgt, r, 30000);
            if (index < CTX.targets.size()) o = baseOp(CTX.targets[index], r, 30000);
            bool stf = std::find(CTX.stateful.begin(), CTX.stateful.end(), o.fn) != CTX.stateful.end();
            uint64_t steps = std::max<uint64_t>(1, soloOf(o).out.steps);
            o.tag = (int) std::min<uint64_t>(stf ? (r.chance(.5) ? 1300000 : 300000) : 70000, (stf ? 150000000 : 20000000) / steps + 300);
            add(p, o, 0);
            if (r.chance(stf ? .6 : .25)) { // (see marathon)
                Op b = r.chance(.5) ? baseOp(o.fn, r, 30000) : variantOf(o, r, 30000);
                add(p, b, 0);
                add(p, variantOf(b, r, 30000), 0);
            }
        } else if (u < .03) { // long histories
            p.mode = 1;
            Pool pool(tgt, r, r.range(1, 4), 400);
            int n = r.range(200, 1200);
            for (int i = 0; i < n; i++) { Op o = pool.pick(r); o.scrib = 1 + r.next() % 64; add(p, o, 0); }
        } else {
            Pool pool(tgt, r, r.range(2, 9), maxSteps);
            int n = u < .3 ? r.range(2, 4) : r.range(4, 22);
            for (int i = 0; i < n; i++) {
                Op o = pool.pick(r);
                if (r.chance(.3)) { Op m = mutateOp(o, r); for (size_t k = 0; k < m.a.size(); k++) if (FNS[o.fn].args[k].mode == AM_o && m.a[k].size() == o.a[k].size()) o.a[k] = m.a[k]; }
                o.scrib = r.next() | 1;
                add(p, o, (int) r.below((uint32_t) p.nthreads));
                if (r.chance(.03)) noise(p, r, 0);
            }
        }
        common(p, r);
        if (p.nthreads > 1) { p.pol.kind = 1; p.pol.gap = 4e8; }
    } else if (prop == "C03" && r.chance(.04)) { // very many abandoned calls: whatever each leaks adds up
        p.nthreads = r.chance(.6) ? 1 : r.range(2, 3);
        int n = r.chance(.8) ? r.range(8, 80) : r.chance(.85) ? r.range(80, 300) : r.range(300, 3000);
        Pool pool(tgt, r, n > 300 ? r.range(1, 2) : r.range(1, 3), isStateful(tgt) ? (n > 300 ? 20000 : MAXSTEPS) : 2500);
        n = atMost(pool, n);
        double at = r.chance(.5) ? r.unit() : -1;   // all cut off at about the same place, or anywhere
        for (int i = 0; i < n; i++) {
            int id = add(p, pool.pick(r), (int) r.below((uint32_t) p.nthreads));
            if (r.chance(n > 300 ? .98 : .9)) p.ev.push_back(Event{id, at >= 0 && r.chance(.9) ? 1 + (uint32_t) (at * (double) soloOf(p.ops[id]).out.steps) : pickY(p.ops[id], r), EV_ABANDON, 0, 0});
        }
        for (int i = 0; i < 3; i++) add(p, i ? pool.pick(r) : pool.ops[0], (int) r.below((uint32_t) p.nthreads));
        common(p, r);
        if (p.nthreads > 1) { p.pol.kind = 1; p.pol.gap = r.chance(.5) ? 4e8 : meanSteps(p); }
    } else if (prop == "C03") {
        p.nthreads = r.chance(.6) ? 1 : r.range(2, 3);
        Pool pool(tgt, r, r.range(2, 5), maxSteps);
        int n = r.range(2, 9);
        for (int i = 0; i < n; i++) { add(p, pool.pick(r), (int) r.below((uint32_t) p.nthreads)); if (r.chance(.04)) noise(p, r, (int) r.below((uint32_t) p.nthreads)); }
        add(p, pool.ops[0], (int) r.below((uint32_t) p.nthreads));
        int k = r.range(1, 3);
        for (int i = 0; i < k; i++) { const Op& o = p.ops[r.below((uint32_t) p.ops.size() - 1)]; if (!isRng(o.fn)) p.ev.push_back(Event{o.id, pickY(o, r), EV_ABANDON, 0, 0}); }
        common(p, r);
        if (p.nthreads > 1) { p.pol.kind = 1; p.pol.gap = r.chance(.5) ? 4e8 : meanSteps(p); }
    } else if (prop == "C04") {
        p.nthreads = r.chance(.8) ? 1 : 2;
        bool chain = r.chance(.06);              // a handler interrupted by a handler interrupted by ...
        int n = r.range(1, 3), k = chain ? (r.chance(.7) ? r.range(4, 11) : r.range(12, 70)) : r.range(1, 4);
        Pool pool(tgt, r, chain ? r.range(1, 3) : r.range(2, 5), k > 11 && !isStateful(tgt) ? 2500 : maxSteps);
        for (int i = 0; i < n; i++) add(p, pool.pick(r), (int) r.below((uint32_t) p.nthreads));
        for (int i = 0; i < k; i++) {
            int host = chain && i ? (int) p.ops.size() - 1 : (int) r.below((uint32_t) p.ops.size());
            int id = add(p, pool.pick(r), -1);
            p.ev.push_back(Event{host, pickY(p.ops[host], r), EV_INTR, id, 0});
        }
        common(p, r);
        if (p.nthreads > 1) { p.pol.kind = 1; p.pol.gap = meanSteps(p); }
    } else if (prop == "C05") {
        p.monitor = true;
        p.nthreads = r.chance(.6) ? 1 : r.range(2, 3);
        Pool pool(tgt, r, r.range(2, 6), maxSteps);
        int n = r.range(3, 10);
        bool share = r.chance(.4);
        for (int i = 0; i < n; i++) { Op o = pool.pick(r); o.shareIn = share; add(p, o, (int) r.below((uint32_t) p.nthreads)); }
        for (auto& o : p.ops) o.reuse = r.chance(.15);
        if (p.nthreads > 1) drawPolicy(p, r);
    } else if (prop == "C06" || prop == "C07") {
        int fn = prop == "C06" ? FN_random : FN_gresid;
        double u = r.unit();
        if (u < .003 || index < 8) { p.mode = 9; Op o = genOp(fn, r); o.scrib = 0; o.tag = index < 8 ? (index == 3 ? 3000000 : 300000) : 40000; add(p, o, 0); }
        else if (prop == "C06" && u < .04) { // streams that come close to the ends of the range
            p.mode = 6;
            auto& h = hotSeeds();
            auto& x = h[r.below((uint32_t) h.size())];
            Op o = genOp(fn, r);
            o.scrib = 0; o.tag = x.second + 2;
            memcpy(o.a[0].data(), &x.first, 4);
            add(p, o, 0);
        }
        else if (prop == "C06" && u < .25) { // different seeds
            p.mode = 8;
            for (int i = 0; i < 2; i++) { Op o = genOp(fn, r); o.scrib = 0; add(p, o, 0); }
            float s = (float) std::pow(10, r.uni(0, 9)), d;
            if (r.chance(.3)) s = (float) r.range(1, 1000);
            double q = r.chance(.6) ? 1 + std::pow(10, r.uni(-3.9, -1)) : r.uni(1.1, 2.9);
            d = (float) (s * q);
            if (r.chance(.2)) d = s + 1;
            if (r.chance(.1)) { s = -s; d = -d; }
            if (!(std::fabs(d / s - 1) > 1.01e-4f) || !(d / s < 2.99f) || !(d / s > 1)) d = s * 2;
            memcpy(p.ops[0].a[0].data(), &s, 4); memcpy(p.ops[1].a[0].data(), &d, 4);
        } else {
            p.nthreads = r.chance(.2) ? 1 : r.chance(.85) ? r.range(2, 6) : many(r);
            float common0 = (float) r.uni(0, 1000);
            for (int t = 0; t < p.nthreads; t++) { Op s = genOp(FN_random, r); float f; memcpy(&f, s.a[0].data(), 4); setRngThread(p, fn, t, p.nthreads > 6 ? r.range(1, 4) : r.chance(.1) ? r.range(30, 120) : r.range(1, 14), r, r.chance(.3) ? common0 : f); }
            common(p, r);
            p.rngAtomic = !CTX.ts1;
            double v = r.unit();
            p.pol.kind = 1;
            p.pol.gap = std::exp(r.unit() * std::log(300.0)) + 1;
            if (v < .3) { p.pol.kind = 3; p.pol.gap = 1 + r.below(8); }
            else if (v < .5) p.pol.pShared = r.uni(.1, .6);
        }
    } else if (prop == "C08") {
        p.nthreads = r.chance(.3) ? 1 : r.range(2, 4);
        for (int t = 0; t < p.nthreads; t++) {
            int n = r.range(1, 3);
            bool huge = false;
            for (int i = 0; i < n; i++) {
                if (p.nthreads > 1 && t && r.chance(.35)) { add(p, baseOp(anyFn(r), r, 5000), t); continue; }
                Op o = genOp(FN_wait, r);
                o.scrib = 0;
                if (r.chance(.1)) o.rmode = (uint8_t) r.range(1, 3);   // a caller that does not round to nearest
                float ws; memcpy(&ws, o.a[0].data(), 4);
                if (ws > 3e8f) { if (huge) { ws = 12; memcpy(o.a[0].data(), &ws, 4); } huge = true; }   // (simulated time is kept in 64-bit nanoseconds)
                int k = r.chance(.25) ? 0 : r.chance(.2) ? r.range(8, 40) : r.range(1, 5);
                if (r.chance(.02)) { // a storm of signals
                    int n = r.range(20, 300), top = r.range(1, 40);
                    while (n-- > 0) o.tf.push_back(TFault{TF_EINTR, r.range(0, top), 0});
                    k = r.range(0, 2);
                }
                while (k-- > 0) {
                    double v = r.unit();
                    TFault f;
                    f.a = r.chance(.15) ? 0 : r.range(0, 1000);
                    f.b = 0;
                    if (v < .55) f.kind = TF_EINTR;
                    else if (v < .75) { f.kind = TF_LATE; f.b = (int64_t) (r.chance(.3) ? r.uni(0, 3e9) : r.uni(0, 5e7)); }
                    else { f.kind = TF_JUMP; f.b = (int64_t) ((r.chance(.5) ? 1 : -1) * std::pow(10, r.uni(6, 14))); }
                    o.tf.push_back(f);
                }
                add(p, o, t);
            }
        }
        p.pol.kind = 1; p.pol.gap = r.uni(2, 200);
    } else if ((prop == "C09" || prop == "C10") && (index < 8 || r.chance(.0005))) {
        bool perm = prop == "C09";
        p.mode = 7;
        static const int nk[][2] = {{20, 10}, {24, 6}, {64, 3}, {66, 2}, {130, 2}, {34, 4}, {257, 1}, {33, 33}};
        int n = perm ? (index < 8 ? (index == 7 ? 9 : 1 + (int) index) : r.range(6, 8)) : index < 8 ? nk[index][0] : r.range(10, 18), k = perm ? n : index < 8 ? nk[index][1] : r.range(1, n);
        add(p, walkOp(perm, n, k), 0);
    } else if (prop == "C09" || prop == "C10") {
        bool perm = prop == "C09";
        p.nthreads = r.range(1, 4);
        int groups = r.chance(.3) ? 1 : r.range(2, 3);
        for (int g = 0; g < groups; g++) {
            int n, k = 0, len; int64_t total;
            if (perm) { n = r.chance(.06) ? 6 : r.range(1, 5); total = fact(n); }
            else { n = r.range(1, 8); k = r.range(1, n); total = choose(n, k); }
            if (r.chance(.08)) { n = perm ? r.range(7, r.chance(.5) ? 12 : 34) : r.range(9, r.chance(.5) ? 40 : 140); if (!perm) k = r.chance(.5) ? r.range(1, std::min(n, 8)) : r.range(1, n); total = MANY; }
            bool huge = n > 8 && r.chance(.06);  // sizes beyond a byte, a bit set or a fixed work array
            if (huge) { n = perm ? r.range(35, r.chance(.3) ? 300 : 70) : r.range(141, r.chance(.5) ? 300 : 1200); if (!perm) k = r.chance(.7) ? r.range(1, 12) : r.chance(.5) ? n - r.range(0, 4) : r.range(1, n); }
            len = (int) std::min<int64_t>(total + 3, r.chance(.15) ? 760 : r.chance(.3) ? 130 : r.range(3, 40));
            if (groups > 1) len = std::min(len, 130);
            if (n > 12) len = std::min(len, 60);
            if (huge) len = std::min(len, 8);
            bool deep = n > 3 && r.chance(n > 8 ? .6 : .15) && walkModelOk(perm);
            if (deep) len = std::min(len, 30);
            walk(p, g, perm, n, k, len, deep, r);
        }
        int extra = r.range(0, 6);
        for (int i = 0; i < extra; i++) { // other walks' states, rejected sizes, unrelated calls
            Op o = r.chance(.7) ? baseOp(perm ? FN_permut : FN_combn, r) : baseOp(anyFn(r), r, 5000);
            if (r.chance(.4) && (o.fn == FN_permut || o.fn == FN_combn)) {
                int len = (int) o.a[o.fn == FN_permut ? 1 : 2].size() / 4;
                if (o.fn == FN_permut) o.a[0] = fromInts({r.range(-5, 0)});
                else { if (r.chance(.5)) o.a[0] = fromInts({r.range(-3, 0)}); else o.a[1] = fromInts({r.range(-3, len - 1)}); }
                o.tag = 2;
            }
            add(p, o, 0);
        }
        spread(p, r, r.chance(.5) ? .3 : 0);
        common(p, r);
        drawPolicy(p, r);
        int f = r.chance(.5) ? r.range(1, 4) : 0;
        while (f-- > 0) {
            Op& o = p.ops[r.below((uint32_t) p.ops.size())];
            if (o.group < 0) continue;
            if (r.chance(.5)) { o.redo = true; p.ev.push_back(Event{o.id, pickY(o, r), EV_ABANDON, 0, 0}); }
            else p.ev.push_back(Event{o.id, r.chance(.2) ? 0 : pickY(o, r), EV_RESTART, 0, 0});
        }
    } else if (prop == "C11") {
        p.nthreads = r.range(1, 4);
        int n = r.chance(.1) ? r.range(40, 100) : r.range(3, 16);
        bool enumerate = r.chance(.3);
        int k0 = r.range(0, 86);
        for (int i = 0; i < n; i++) {
            Op o;
            if (r.chance(.08)) o = genOp(r.chance(.7) ? FN_vers : FN_veri, r);
            else if (r.chance(.08)) o = baseOp(anyFn(r), r, 3000);
            else o = genOp(FN_obs, r);
            if (enumerate && o.fn == FN_obs) o.a[0] = fromInts({k0++});
            o.scrib = 0;
            add(p, o, (int) r.below((uint32_t) p.nthreads));
        }
        common(p, r);
        drawPolicy(p, r);
    } else if (prop == "C12") {
        p.faultCheck = true;
        p.nthreads = r.chance(.8) ? 1 : 2;
        Pool pool(tgt, r, r.range(1, 4), maxSteps);
        int n = r.range(2, 8);
        for (int i = 0; i < n; i++) {
            Op o = pool.pick(r);
            if (r.chance(.1)) { o = genOp(FN_wait, r); o.scrib = 0; float ws; memcpy(&ws, o.a[0].data(), 4); if (ws > 3e8f) { ws = 30; memcpy(o.a[0].data(), &ws, 4); } int k = r.range(1, 6); while (k-- > 0) o.tf.push_back(TFault{TF_EINTR, r.range(0, 1000), 0}); }
            if (CTX.ts1 && r.chance(.06)) { o = genOp(r.chance(.5) ? FN_random : FN_gresid, r); o.scrib = 0; }
            double u = r.unit();
            o.failMask = u < .3 ? ~0ull : u < .5 ? 1 : u < .7 ? 1ull << r.below(12) : u < .85 ? (r.next() & r.next()) : 0;
            if (i == n - 1) o.failMask = 0;
            add(p, o, (int) r.below((uint32_t) p.nthreads));
        }
        common(p, r);
        if (p.nthreads > 1) { p.pol.kind = 1; p.pol.gap = meanSteps(p); }
    } else if (prop == "C13") {
        p.ambientCheck = true;
        p.nthreads = r.chance(.8) ? 1 : 2;
        Pool pool(tgt, r, r.range(1, 5), maxSteps);
        int n = r.range(2, 9);
        for (int i = 0; i < n; i++) {
            Op o = pool.pick(r);
            if (r.chance(.05)) { o = genOp(FN_wait, r); o.scrib = 0; float ws; memcpy(&ws, o.a[0].data(), 4); if (ws > 3e8f) { ws = 30; memcpy(o.a[0].data(), &ws, 4); } }
            if (r.chance(.85)) o.ambient = r.next() | 1;
            add(p, o, (int) r.below((uint32_t) p.nthreads));
        }
        if (r.chance(.35)) { // a caller with its own rounding direction / denormal handling, the same throughout the process
            uint8_t m = (uint8_t) (r.chance(.8) ? r.range(1, 3) : 0);
            if (r.chance(.3)) m |= 4;
            if (r.chance(.3)) m |= 8;
            if (r.chance(.3)) m |= 16;
            bool ok = true;
            for (auto& o : p.ops) { o.rmode = m; if (o.fn != FN_wait && !usable(o, MAXSTEPS)) ok = false; }
            if (!ok) for (auto& o : p.ops) o.rmode = 0;
        }
        if (r.chance(.15)) { // the random-number functions: their first values do not depend on the environment either
            Op o = genOp(r.chance(.5) ? FN_random : FN_gresid, r);
            o.scrib = 0; o.ambient = r.next() | 1; o.tag = 3; o.rmode = p.ops[0].rmode;
            if (p.nthreads == 1) add(p, o, 0);
        }
        common(p, r);
        if (p.nthreads > 1) { p.pol.kind = 1; p.pol.gap = 4e8; }
    } else if (prop == "C14") {
        p.nthreads = r.range(1, 4);
        for (int t = 0; t < 8; t++) {
            p.ops.clear();
            int groups = r.range(1, 4);
            for (int g = 0; g < groups; g++) {
                double u = r.unit();
                size_t before = p.ops.size();
                bool ok = u < .12 ? platePipe(p, g, r) : u < .24 ? svdPipe(p, g, r) : u < .55 ? namedPipe(p, g, r) : randomPipe(p, g, r, g == 0 ? tgt : -1);
                if (ok && r.chance(.25) && g + 1 < groups) { // an identical twin, to be disturbed differently
                    size_t after = p.ops.size(); int shift = (int) (after - before); g++;
                    for (size_t i = before; i < after; i++) { Op o = p.ops[i]; o.group = g; for (auto& l : o.links) l.srcOp += shift; add(p, o, 0); }
                }
            }
            if (!p.ops.empty() && groupsOk(p)) break;
            p.ops.clear();
        }
        if (p.ops.empty()) { add(p, baseOp(FN_veri, r), 0); }
        spread(p, r, r.chance(.6) ? .5 : 0);
        common(p, r);
        drawPolicy(p, r);
        int f = r.chance(.75) ? r.range(1, 4) : 0;
        while (f-- > 0) {
            Op& o = p.ops[r.below((uint32_t) p.ops.size())];
            if (o.group < 0) continue;
            if (r.chance(.5)) { o.redo = true; p.ev.push_back(Event{o.id, pickY(o, r), EV_ABANDON, 0, 0}); }
            else p.ev.push_back(Event{o.id, r.chance(.3) ? 0 : pickY(o, r), EV_RESTART, 0, 0});
        }
    } else if (prop == "C15") {
        bool crowd = r.chance(.04);              // very many suspended calls at once
        p.nthreads = crowd ? many(r) : r.range(2, 5);
        p.boundSteps = true;
        Pool pool(tgt, r, crowd ? r.range(1, 2) : r.range(1, 4), crowd ? (isStateful(tgt) || r.chance(.1) ? MAXSTEPS : 2500) : maxSteps);
        double rng = CTX.ts1 && r.chance(.2) ? r.uni(.2, .9) : 0;   // share of random-number calls
        int rfn = r.chance(.5) ? FN_random : FN_gresid;
        for (int t = 0; t < p.nthreads; t++) { int n = r.range(1, 4); for (int i = 0; i < n; i++) { if (r.chance(rng)) { Op o = genOp(r.chance(.85) ? rfn : FN_random + FN_gresid - rfn, r); o.scrib = 0; add(p, o, t); } else add(p, pool.pick(r), t); } }
        int k = crowd ? p.nthreads - r.range(1, 3) : r.range(1, p.nthreads - 1);
        for (int i = 0; i < k; i++) {
            std::vector<int> mine;
            for (auto& o : p.ops) if (o.thread == i) mine.push_back(o.id);
            const Op& o = p.ops[mine[r.below((uint32_t) mine.size())]];
            p.ev.push_back(Event{o.id, pickY(o, r), EV_STALL, 0, 0});
        }
        common(p, r);
        if (r.chance(.5)) { p.pol.kind = 1; p.pol.gap = r.chance(.5) ? meanSteps(p) : 4e8; }
    } else if (prop == "C16") {
        p.mode = MODE_LIFE;
        p.nthreads = r.chance(.55) ? 1 : r.chance(.9) ? r.range(2, 4) : r.range(5, 12);
        Pool pool(tgt, r, r.range(1, 4), maxSteps);
        for (int t = 0; t < p.nthreads; t++) { int n = t == 0 ? r.range(2, 9) : r.range(1, 3); for (int i = 0; i < n; i++) add(p, pool.pick(r), t); }
        std::vector<int> mine;                   // the calls of the first thread, at whose boundaries the process moves on
        for (auto& o : p.ops) if (o.thread == 0) mine.push_back(o.id);
        const int n = (int) mine.size();
        auto life = [&](int at, int what) { if (at < n) p.ev.push_back(Event{mine[at], 0, EV_LIFE, what, 0}); };
        int at = 0;
        if (p.nthreads == 1 && r.chance(.6)) {   // some calls before main(), between initialisers
            at = r.range(0, n);
            if (r.chance(.4)) for (int i = r.range(1, 60); i > 0; i--) life((int) r.below((uint32_t) at + 1), LF_INIT1);
        }
        life(at, r.chance(.7) ? LF_INITALL : LF_INITREV);
        if (p.nthreads > 1 && r.chance(.7)) {    // a fork while others are inside calls
            int k = mine[(size_t) r.range(r.chance(.7) && n > 1 ? 1 : 0, n - 1)];
            p.ev.push_back(Event{k, r.chance(.6) ? 0 : pickY(p.ops[k], r), EV_LIFE, LF_FORK, 0});
        } else if (r.chance(.1)) { int k = mine[(size_t) r.range(0, n - 1)]; p.ev.push_back(Event{k, pickY(p.ops[k], r), EV_LIFE, LF_FORK, 0}); }
        if (r.chance(.25)) life(r.range(at, n - 1), LF_THREADEND);
        if (p.nthreads > 1 && r.chance(.3)) for (auto& o : p.ops) if (o.thread && r.chance(.3)) p.ev.push_back(Event{o.id, 0, EV_LIFE, LF_THREADEND, 0});
        if (r.chance(.75)) {                     // the process ends, with more calls from its exit handlers
            int e = r.range(std::min(at, n - 1), n - 1);
            bool quick = r.chance(.15);          // through quick_exit() rather than exit()
            for (int i = r.chance(.4) ? r.range(1, 3) : 0; i > 0; i--) life(std::min(n - 1, e + r.range(0, 2)), quick ? LF_QUICK1 : LF_EXIT1);
            life(std::min(n - 1, e + r.range(0, 2)), quick ? LF_QUICKALL : LF_EXITALL);
        }
        common(p, r);
        if (p.nthreads > 1) { p.pol.kind = 1; p.pol.gap = r.chance(.7) ? meanSteps(p) : 4e8; for (auto& o : p.ops) if (o.thread && r.chance(.6)) p.ev.push_back(Event{o.id, pickY(o, r), EV_SWITCH, 0, 0}); }
    }
    if (CTX.ts1 && p.nthreads > 1 && (prop == "C01" || prop == "C06" || prop == "C07" || prop == "C11" || prop == "C15")) p.weak = std::max(0, r.range(-1, 2));
    return p;
}

// ------------------------------------------------------------------------------------------------ oracles
// undisturbed runs of the groups (walks, multi-call computations): in one fresh process, step after step
static bool groupExpect(const Plan& p, std::vector<Outcome>& exp) {
    std::map<int, std::vector<int>> seq;
    for (auto& o : p.ops) if (o.group >= 0) seq[o.group].push_back(o.id);
    for (auto& s : seq) {
        bool first = true;
        for (int id : s.second) {
            Op o = plain(p.ops[id]);
            for (auto& l : p.ops[id].links) {
                if (l.srcOp < 0 || exp[l.srcOp].out.empty()) return false;
                const Outcome& so = exp[l.srcOp];
                const Blob& src = l.srcArg < 0 ? so.out.back() : so.out[l.srcArg];
                if (src.size() == o.a[l.dst].size()) o.a[l.dst] = src;
                else if (!src.empty()) for (size_t i = 0; i < o.a[l.dst].size(); i++) o.a[l.dst][i] = src[i % src.size()];
            }
            exp[id] = solo(o, first);
            first = false;
            if (exp[id].kind != OK_DONE || exp[id].steps > MAXSTEPS * 4) return false;
        }
    }
    return true;
}
static bool groupsOk(const Plan& p) {
    std::vector<Outcome> e(p.ops.size());
    return groupExpect(p, e);
}
static std::string checkWalks(const Plan& p, const std::vector<Outcome>& exp) {
    std::map<int, std::vector<int>> seq;
    for (auto& o : p.ops) if (o.group >= 0 && o.tag == 1) seq[o.group].push_back(o.id);
    for (auto& s : seq) {
        const Op& f = p.ops[s.second[0]];
        bool perm = f.fn == FN_permut;
        std::vector<int> init = toInts(f.a[perm ? 1 : 2]);
        if (!f.links.empty() || (perm ? init[0] >= 0 : init[0] >= 1)) continue;
        int n = toInts(f.a[perm ? 0 : 1])[0], k = perm ? n : toInts(f.a[0])[0];
        int64_t total = perm ? fact(n) : choose(n, k);
        std::set<std::vector<int>> seen;
        std::vector<int> firstSel;
        for (size_t i = 0; i < s.second.size(); i++) {
            const Outcome& o = exp[s.second[i]];
            std::vector<int> sel = toInts(o.out[2]);
            int st; memcpy(&st, o.out.back().data(), 4);
            std::string at = " (step " + std::to_string(i + 1) + ", n=" + std::to_string(n) + ", k=" + std::to_string(k) + ")";
            int64_t c = (int64_t) i % total;
            int want = (i > 0 && c == 0) ? sla::CPS_NO_MORE : sla::CPS_OK;
            if (st != want) return "status " + std::to_string(st) + " instead of " + std::to_string(want) + at;
            std::vector<int> t = sel;
            std::sort(t.begin(), t.end());
            for (int j = 0; j < k; j++) {
                if (t[j] < 1 || t[j] > n || (j && t[j] == t[j - 1])) return "not a selection of distinct numbers 1..n" + at;
                if (!perm && sel[j] != t[j]) return "combination not in ascending order" + at;
            }
            if (c == 0) {
                seen.clear();
                for (int j = 0; j < k; j++) if (sel[j] != (perm ? n - j : j + 1)) return "cycle does not begin with the documented first selection" + at;
                if (i == 0) firstSel = sel;
            }
            if (perm && c == total - 1) for (int j = 0; j < k; j++) if (sel[j] != j + 1) return "cycle does not end with the ascending permutation" + at;
            if (!seen.insert(sel).second) return "selection delivered twice" + at;
        }
    }
    for (auto& o : p.ops) if (o.tag == 4 && exp[o.id].kind == OK_DONE) {
        // a step from a state met deep inside a long cycle
        bool perm = o.fn == FN_permut, more;
        std::vector<int> s = toInts(o.links.empty() ? o.a[perm ? 1 : 2] : exp[o.links[0].srcOp].out[perm ? 1 : 2]), ord;
        int n = toInts(o.a[perm ? 0 : 1])[0];
        more = perm ? permNext(s, ord) : combNext(s, n);
        std::string t = " after " + opText(o) + (o.links.empty() ? "" : " (continued)");
        if (stOf(exp[o.id]) != (more ? sla::CPS_OK : sla::CPS_NO_MORE)) return "status " + std::to_string(stOf(exp[o.id])) + t;
        if (toInts(exp[o.id].out[perm ? 1 : 2]) != s) return "wrong next state" + t;
        if (perm && toInts(exp[o.id].out[2]) != ord) return "wrong next permutation" + t;
    }
    for (auto& o : p.ops) if (o.tag == 2 && exp[o.id].kind == OK_DONE) {
        int st; memcpy(&st, exp[o.id].out.back().data(), 4);
        if (st != sla::CPS_INVALID_ARG) return "sizes out of range accepted";
        for (int i = 1; i <= 2; i++) if (FNS[o.fn].args[i].mode != AM_i && exp[o.id].out[i] != o.a[i]) return "rejected call changed its arguments";
    }
    return "";
}
struct CatRec { std::string id, name; double v[3]; };
static std::vector<CatRec> CAT;
static std::string catErr;
static CatRec parseOb(const Blob& b) {
    CatRec c;
    size_t i = 0;
    while (i < b.size() && b[i] != '|') c.id += (char) b[i++];
    i++;
    size_t e = b.size() - 25;
    while (i < e) c.name += (char) b[i++];
    memcpy(c.v, &b[b.size() - 24], 24);
    return c;
}
static bool obRet(const Outcome& o) { return !o.out.empty() && !o.out.back().empty() && o.out.back()[0]; }
static Op obsOp(int n, const std::string* id) {
    Rng r(5);
    Op o = genOp(FN_obs, r);
    o.scrib = 0;
    o.a[0] = fromInts({n});
    if (id) { o.a[1].assign(id->begin(), id->end()); o.a[1].push_back(0); } else o.a[1].clear();
    return o;
}
void catalogueInit() {
    CAT.clear(); catErr.clear(); stationIds.clear();
    for (int n = 0; n < 5000; n++) {
        Outcome o = solo(obsOp(n, nullptr), true);
        if (o.kind != OK_DONE) { catErr = "enumeration ended abnormally at station " + std::to_string(n); break; }
        if (!obRet(o)) break;
        CatRec c = parseOb(o.out[2]);
        CAT.push_back(c);
        stationIds.push_back(c.id);
    }
}
static std::string catalogueCheck() {
    if (!catErr.empty()) return catErr;
    if (CAT.empty()) return "no stations";
    std::set<std::string> ids;
    for (size_t n = 0; n < CAT.size(); n++) {
        const CatRec& c = CAT[n];
        if (c.id.empty() || c.id == "?" || c.name.empty()) return "station " + std::to_string(n) + " has no identifier or name";
        for (char x : c.id) if (x >= 'a' && x <= 'z') return "identifier " + c.id + " is not upper-case";
        if (!ids.insert(c.id).second) return "identifier " + c.id + " is not unique";
        Outcome o = solo(obsOp(-1, &c.id), true);
        if (o.kind != OK_DONE || !obRet(o) || parseOb(o.out[2]).id != c.id) return "look-up of " + c.id + " by identifier does not return it";
    }
    return "";
}
static std::string checkObs(const Op& op, const Outcome& o) {
    if (o.kind != OK_DONE) return "";
    int n; memcpy(&n, op.a[0].data(), 4);
    const CatRec* want = nullptr;
    if (n >= 0) { if (n < (int) CAT.size()) want = &CAT[n]; }
    else if (!op.a[1].empty()) {
        std::string id((const char*) op.a[1].data());
        for (auto& c : CAT) if (c.id.compare(0, id.size(), id) == 0) { want = &c; break; }
    }
    CatRec got = parseOb(o.out[2]);
    if (!want) {
        if (obRet(o)) return "unknown station found";
        if (got.id != "?" || got.name != "?" || got.v[0] != 0 || got.v[1] != 0 || got.v[2] != 0) return "failed look-up does not yield \"?\" texts and zero coordinates";
        return "";
    }
    if (!obRet(o)) return "known station " + want->id + " not found";
    if (got.id != want->id || got.name != want->name || memcmp(got.v, want->v, 24)) return "record of " + want->id + " differs (got " + got.id + " / " + got.name + ")";
    return "";
}
static float f32(const Blob& b) { float f; memcpy(&f, b.data(), 4); return f; }
static std::vector<float> rngStream(int fn, float first, int n) {
    Rng r(9);
    Op o = genOp(fn, r);
    o.scrib = 0;
    std::vector<float> v;
    for (int i = 0; i < n; i++) {
        float arg = fn == FN_random ? (i == 0 ? first : -7.5f + (float) i) : 1.0f;
        memcpy(o.a[0].data(), &arg, 4);
        Outcome q = solo(o, i == 0);
        if (q.kind != OK_DONE) break;
        v.push_back(f32(q.out.back()));
    }
    return v;
}
std::vector<float> rngStreamPublic(int fn, float first, int n) { return rngStream(fn, first, n); }
// seeds whose stream comes very close to an end of the range within its first values, if the generator is minstd_rand0
static const std::vector<std::pair<float, int>>& hotSeeds() {
    static std::vector<std::pair<float, int>> h;
    if (!h.empty()) return h;
    const uint64_t M = 2147483647ull;
    uint64_t inv = 1, b = 16807;
    for (uint64_t e = M - 2; e; e >>= 1) { if (e & 1) inv = inv * b % M; b = b * b % M; }
    for (int side = 0; side < 2; side++) for (uint64_t d = 1; d <= 72; d++) {
        uint64_t x = side ? d : M - d;
        for (int k = 1; k <= 260; k++) { x = x * inv % M; if ((x & 1) && x > 330000 && x < 3100000) h.push_back({(float) (x - 1), k}); }
    }
    if (h.empty()) h.push_back({1.0f, 4});
    return h;
}
static std::string rngStats(int fn, float first, int n) {
    std::vector<float> v = rngStream(fn, first, n);
    if ((int) v.size() < n) return "a call ended abnormally";
    char b[200];
    double m = 0, s = 0;
    if (fn == FN_random) for (float x : v) if (!(x >= 0.0f && x < 1.0f)) { snprintf(b, sizeof b, "value %.9g outside 0..1", x); return b; }
    for (float x : v) m += x;
    m /= n;
    for (float x : v) s += (x - m) * (x - m);
    s = std::sqrt(s / n);
    auto cdf = [&](double x) { return fn == FN_random ? std::min(1.0, std::max(0.0, x)) : 0.5 * std::erfc(-x / std::sqrt(2.0)); };
    double em = fn == FN_random ? .5 : 0, es = fn == FN_random ? std::sqrt(1 / 12.0) : 1;
    // thresholds: more than nine standard errors
    if (std::fabs(m - em) > 9 * es / std::sqrt((double) n)) { snprintf(b, sizeof b, "mean of %d values is %g", n, m); return b; }
    if (std::fabs(s - es) > 9 * es / std::sqrt((double) n)) { snprintf(b, sizeof b, "standard deviation of %d values is %g", n, s); return b; }
    std::vector<float> t = v;
    std::sort(t.begin(), t.end());
    double ks = 0;
    for (int i = 0; i < n; i++) ks = std::max(ks, std::fabs(cdf(t[i]) - (i + .5) / n));
    if (ks > 4.5 / std::sqrt((double) n)) { snprintf(b, sizeof b, "distribution of %d values is off by %g", n, ks); return b; }
    for (int lag : {1, 2, 3, 7}) {
        double c = 0;
        for (int i = 0; i + lag < n; i++) c += (v[i] - m) * (v[i + lag] - m);
        c /= s * s * n;
        if (std::fabs(c) > 9 / std::sqrt((double) n)) { snprintf(b, sizeof b, "values %d apart are correlated (%g)", lag, c); return b; }
    }
    {   // counts in equal-probability cells, ends of the range, tails, squares of neighbours (all far beyond nine standard errors)
        const int K = n >= 200000 ? 2048 : 256;
        std::vector<int> cell((size_t) K, 0), duo(32 * 32, 0);
        std::vector<double> u((size_t) n);
        for (int i = 0; i < n; i++) { u[i] = std::min(.999999999, std::max(0.0, cdf(v[i]))); cell[(size_t) (u[i] * K)]++; if (i & 1) duo[(size_t) (u[i - 1] * 32) * 32 + (size_t) (u[i] * 32)]++; }
        double c2 = 0, d2 = 0, e = (double) n / K, f = (double) (n / 2) / 1024;
        for (int i = 0; i < K; i++) c2 += (cell[i] - e) * (cell[i] - e) / e;
        for (int x : duo) d2 += (x - f) * (x - f) / f;
        if (c2 > K + 12 * std::sqrt(2.0 * K)) { snprintf(b, sizeof b, "chi-square of %d cells over %d values is %g", K, n, c2); return b; }
        if (d2 > 1024 + 12 * std::sqrt(2.0 * 1024)) { snprintf(b, sizeof b, "chi-square of successive pairs over %d values is %g", n, d2); return b; }
        if (*std::min_element(u.begin(), u.end()) > 40.0 / n || *std::max_element(u.begin(), u.end()) < 1 - 40.0 / n) { snprintf(b, sizeof b, "the ends of the range are not reached by %d values (%g .. %g)", n, (double) t[0], (double) t[(size_t) n - 1]); return b; }
        if (fn == FN_gresid) for (double z : {2.0, 3.0, 3.5, 4.0, 4.5}) for (int side = -1; side <= 1; side += 2) {
            double k = 0, w = n * .5 * std::erfc(z / std::sqrt(2.0));
            for (float x : v) if (side * x > z) k++;
            if (w > 20 && std::fabs(k - w) > 9 * std::sqrt(w)) { snprintf(b, sizeof b, "%g of %d values beyond %g sigma, %g expected", k, n, side * z, w); return b; }
        }
        for (int lag : {1, 2}) {
            double c = 0, mm = 0, ss = 0;
            for (int i = 0; i < n; i++) { double q = (u[i] - .5) * (u[i] - .5); mm += q; ss += q * q; }
            mm /= n; ss = ss / n - mm * mm;
            for (int i = 0; i + lag < n; i++) c += ((u[i] - .5) * (u[i] - .5) - mm) * ((u[i + lag] - .5) * (u[i + lag] - .5) - mm);
            c /= ss * n;
            if (std::fabs(c) > 9 / std::sqrt((double) n)) { snprintf(b, sizeof b, "magnitudes of values %d apart are correlated (%g)", lag, c); return b; }
        }
    }
    std::vector<std::array<float, 3>> tri((size_t) n - 2);
    for (int i = 0; i + 2 < n; i++) tri[i] = {v[i], v[i + 1], v[i + 2]};
    std::sort(tri.begin(), tri.end());
    for (int i = 1; i + 2 < n; i++) if (tri[i] == tri[i - 1]) return "the sequence repeats itself within " + std::to_string(n) + " values";
    return "";
}

// a very long history of one function in one process: the same few calls again and again, with ever new ones between
static std::string marathon(const Op& first, const Op* others, uint64_t seed) {
    Rng r(seed);
    std::vector<Op> few{plain(first)};
    few[0].tag = 0;
    while (few.size() < 3) few.push_back(plain(variantOf(few[0], r, 30000)));
    std::vector<Outcome> want;
    uint64_t steps = 1;
    for (auto& o : few) { want.push_back(solo(o, true)); steps = std::max(steps, want.back().steps); if (want.back().kind == OK_CRASH || want.back().kind == OK_LIMIT) return ""; }
    int n = std::max(10, std::min(first.tag, 2000000));
    if (others) {
        // a call, then so many others that a small counter comes round to where it was, then a slightly different one
        pristine();
        const Op b = plain(others[0]), c = plain(others[1]);
        int done = 0;
        while (done < n) {
            int base = n - done > 1048580 && r.chance(.3) ? 1048576 : n - done > 65540 && r.chance(.5) ? 65536 : r.chance(.5) ? 256 : r.chance(.5) ? 128 : r.chance(.5) ? 1024 : 4096, lag = base + (r.chance(.5) ? 0 : r.range(-2, 2));
            const size_t k = r.chance(.5) ? 0 : 2;
            solo(few[k], false);
            for (int i = 1; i < lag; i++) solo(i & 1 ? b : c, false);
            done += lag + 1;
            const size_t m = r.chance(.75) ? 2 - k : k;
            Outcome q = solo(few[m], false);
            if (!(q == want[m])) return std::string(FNS[first.fn].name) + ": call " + std::to_string(lag) + " after another, " + opText(few[m]) + ": got {" + outText(first.fn, q) + "} expected {" + outText(first.fn, want[m]) + "}";
        }
        return "";
    }
    double fresh = r.chance(.5) ? .02 : .3;
    pristine();
    Op near = few[0];
    for (int i = 0; i < n; i++) {
        if (r.chance(fresh)) { near = r.chance(.8) ? mutateOp(near, r) : few[0]; near.scrib = 0; solo(near, false); continue; }
        size_t k = r.chance(.7) ? 0 : r.below(3);
        Outcome q = solo(few[k], false);
        if (!(q == want[k])) return std::string(FNS[first.fn].name) + ": call " + std::to_string(i + 1) + " of the process, " + opText(few[k]) + ": got {" + outText(first.fn, q) + "} expected {" + outText(first.fn, want[k]) + "}";
    }
    return "";
}
static RunResult bare(const Plan& p, const std::string& cls, const std::string& detail) {
    RunResult r;
    r.hash = r.schedHash = fnv64(1469598103934665603ull, p.seed);
    r.out.resize(p.ops.size());
    if (!detail.empty()) { r.violation = true; r.cls = cls; r.detail = detail; r.hash = fnv(r.hash, cls.data(), cls.size()); }
    return r;
}
static bool expected(const Plan& p, std::vector<Outcome>& exp, std::vector<std::vector<Blob>>& masks, std::string& cls, std::string& err) {
    exp.assign(p.ops.size(), {});
    if (p.maskOut) masks.assign(p.ops.size(), {});
    std::map<uint64_t, int> same;
    for (auto& o : p.ops) {
        if (o.group >= 0) continue;
        if (isRng(o.fn)) continue;
        Op q = o;
        if (p.maskOut) {
            // reference: zeroed memory, canonical prefill; second reference with the complementary prefill
            q.scrib = 0;
            for (size_t i = 0; i < q.a.size(); i++) if (FNS[q.fn].args[i].mode == AM_o) std::fill(q.a[i].begin(), q.a[i].end(), 0x5a);
            uint64_t key = opKey(plain(q));
            auto it = same.find(key);
            if (it != same.end()) { exp[o.id] = exp[it->second]; masks[o.id] = masks[it->second]; continue; }
            exp[o.id] = soloOf(q).out;
            if (exp[o.id].kind == OK_CRASH || exp[o.id].kind == OK_LIMIT) return false;
            Op c = q;
            for (size_t i = 0; i < c.a.size(); i++) if (FNS[c.fn].args[i].mode == AM_o) std::fill(c.a[i].begin(), c.a[i].end(), (uint8_t) 0xa5);
            const Outcome& oc = soloOf(c).out;
            auto& mk = masks[o.id];
            mk.resize(exp[o.id].out.size());
            bool bad = oc.kind != exp[o.id].kind || oc.out.size() != exp[o.id].out.size();
            for (size_t i = 0; !bad && i < mk.size(); i++) {
                const Blob &x = exp[o.id].out[i], &y = oc.out[i];
                if (x.size() != y.size()) { bad = true; break; }
                mk[i].assign(x.size(), 0);
                bool isOut = i < q.a.size() && FNS[q.fn].args[i].mode == AM_o && FNS[q.fn].args[i].type != AT_ob;
                for (size_t k = 0; k < x.size(); k++) {
                    if (isOut && x[k] == 0x5a && y[k] == 0xa5) mk[i][k] = 1;
                    else if (x[k] != y[k]) bad = true;
                }
            }
            if (bad) {
                cls = std::string("mismatch:") + FNS[o.fn].name;
                err = std::string(FNS[o.fn].name) + ": results depend on what the output objects held before the call: {" + outText(o.fn, exp[o.id]) + "} and {" + outText(o.fn, oc) + "} for " + opText(o);
                return false;
            }
            same[key] = o.id;
        } else {
            exp[o.id] = soloOf(q).out;
            if (exp[o.id].kind == OK_CRASH || exp[o.id].kind == OK_LIMIT) return false;
        }
    }
    return groupExpect(p, exp);
}
RunResult runPlan(const Plan& p) {
    ST.runs++;
    std::string cls, err;
    if (p.mode == 9) {
        const Op& o = p.ops[0];
        std::string e = rngStats(o.fn, f32(o.a[0]), std::max(1000, std::min(o.tag, 5000000)));
        ST.probes["statistical_runs"]++;
        return bare(p, std::string("oracle:") + FNS[o.fn].name, e);
    }
    if (p.mode == 5) {
        ST.probes["marathon_histories"]++;
        const Op& o = p.ops[0];
        return bare(p, std::string("mismatch:") + FNS[o.fn].name, marathon(o, p.ops.size() > 2 ? &p.ops[1] : nullptr, p.seed));
    }
    if (p.mode == 6) {
        ST.probes["extreme_value_streams"]++;
        for (float x : rngStream(FN_random, f32(p.ops[0].a[0]), std::max(1, std::min(p.ops[0].tag, 5000)))) if (!(x >= 0.0f && x < 1.0f)) { char t[120]; snprintf(t, sizeof t, "seed %.9g delivers %.9g, outside 0..1", f32(p.ops[0].a[0]), x); return bare(p, "oracle:random", t); }
        return bare(p, "", "");
    }
    if (p.mode == 7) {
        const Op& o = p.ops[0];
        bool perm = o.fn == FN_permut;
        int n = toInts(o.a[perm ? 0 : 1])[0];
        ST.probes["whole_walks"]++;
        return bare(p, perm ? "oracle:permut" : "oracle:combn", wholeWalk(perm, n, perm ? n : toInts(o.a[0])[0]));
    }
    if (p.mode == 8 && p.ops.size() == 2) {
        std::vector<float> a = rngStream(FN_random, f32(p.ops[0].a[0]), 4), b = rngStream(FN_random, f32(p.ops[1].a[0]), 4);
        char t[160];
        snprintf(t, sizeof t, "seeds %.9g and %.9g give the same stream", f32(p.ops[0].a[0]), f32(p.ops[1].a[0]));
        ST.probes["seed_pairs"]++;
        return bare(p, "oracle:random", a == b ? t : "");
    }
    std::vector<Outcome> exp;
    std::vector<std::vector<Blob>> masks;
    if (!expected(p, exp, masks, cls, err)) {
        if (!err.empty()) return bare(p, cls, err);
        ST.probes["discarded"]++;
        return bare(p, "", "");
    }
    if (p.prop == "C09" || p.prop == "C10") {
        std::string e = checkWalks(p, exp);
        if (!e.empty()) return bare(p, p.prop == "C09" ? "oracle:permut" : "oracle:combn", e);
    }
    if (p.prop == "C11") {
        static std::string once = catalogueCheck();
        if (!once.empty()) return bare(p, "oracle:obs", once);
        for (auto& o : p.ops) if (o.fn == FN_obs) { std::string e = checkObs(o, exp[o.id]); if (!e.empty()) return bare(p, "oracle:obs", e + " for " + opText(o)); }
    }
    std::function<std::string(const Op&, const Outcome&)> done;
    std::map<int, int> cnt, cntG;
    std::map<int, std::vector<float>> streams, streamsG;   // (the second pair: gresid() where both functions are called)
    std::set<std::pair<int, int>> broken;
    bool both = CTX.ts1 && (p.prop == "C15" || p.prop == "C12");
    int fn0 = p.prop == "C06" ? FN_random : FN_gresid;
    if (p.prop == "C06" || p.prop == "C07" || both) {
        if (CTX.ts1) {
            for (int g = 0; g < (both ? 2 : 1); g++) for (int t = 0; t < p.nthreads; t++) {
                int n = 0, fn = both ? (g ? FN_gresid : FN_random) : fn0; float f0 = 0;
                for (auto& o : p.ops) if (o.thread == t && o.fn == fn) { if (!n) f0 = f32(o.a[0]); n++; }
                if (n) (both && g ? streamsG : streams)[t] = rngStream(fn, f0, n);
            }
        }
        done = [&, fn0, both](const Op& op, const Outcome& o) -> std::string {
            int fn = both ? op.fn : fn0;
            if (op.fn != fn || !isRng(fn)) return "";
            int key = CTX.ts1 ? op.thread : 0;
            if (o.kind != OK_DONE) { if (both) broken.insert({fn, key}); return ""; }
            if (both && broken.count({fn, key})) return "";   // whether a call that failed took a number is not specified
            if (!CTX.ts1 && !streams.count(0)) return "";   // filled in below, after the run (first seed is schedule dependent)
            bool g = both && fn == FN_gresid;
            int k = (g ? cntG : cnt)[key]++;
            auto& s = (g ? streamsG : streams)[key];
            if (k >= (int) s.size()) return "stream ended";
            float got = f32(o.out.back());
            char b[200];
            if (fn == FN_random) {
                if (!(got >= 0.0f && got < 1.0f)) { snprintf(b, sizeof b, "value %.9g outside 0..1", got); return b; }
                if (got != s[k]) { snprintf(b, sizeof b, "value %d of thread %d is %.9g, the stream of its first seed has %.9g", k, op.thread, got, s[k]); return b; }
            } else {
                float sd = f32(op.a[0]);
                double w = (double) s[k] * sd;
                if (!(std::fabs(got - w) <= std::fabs(w) * 1e-6 + 1e-37)) { snprintf(b, sizeof b, "value %d of thread %d is %.9g, deviate %.9g times %.9g is %.9g", k, op.thread, got, s[k], sd, w); return b; }
            }
            return "";
        };
    }
    RunResult rr = simulate(p, exp, masks, done);
    ST.switches += rr.switches;
    ST.preempt += rr.inOpSwitches;
    ST.simSeconds += (double) rr.simNs * 1e-9;
    if (rr.violation) return rr;
    auto fail = [&](const std::string& c, const std::string& d) { rr.violation = true; rr.cls = c; rr.detail = d; rr.hash = fnv(rr.hash, c.data(), c.size()); };
    if ((p.prop == "C06" || p.prop == "C07") && !CTX.ts1) {
        std::vector<int> ord;
        for (int id : rr.order) if (p.ops[id].fn == fn0) ord.push_back(id);
        if (!ord.empty()) {
            std::vector<float> s = rngStream(fn0, f32(p.ops[ord[0]].a[0]), (int) ord.size());
            streams[0] = s; cnt.clear();
            for (int id : ord) { std::string e = done(p.ops[id], rr.out[id]); if (!e.empty()) { fail(std::string("oracle:") + FNS[fn0].name, e); return rr; } }
        }
    }
    if (p.prop == "C13") for (auto& o : p.ops) if (o.tag == 3 && isRng(o.fn) && rr.out[o.id].kind == OK_DONE) {
        bool firstUse = true;
        for (int id : rr.order) { if (id == o.id) break; if (p.ops[id].fn == o.fn) firstUse = false; }
        if (!firstUse) continue;
        Outcome e = solo(plain(o), true);
        if (!(e == rr.out[o.id])) { fail(std::string("mismatch:") + FNS[o.fn].name, std::string(FNS[o.fn].name) + " depends on the process environment: {" + outText(o.fn, rr.out[o.id]) + "} vs {" + outText(o.fn, e) + "}"); return rr; }
    }
    if (p.prop == "C08" || p.prop == "C12") {
        for (auto& o : p.ops) {
            if (rr.out[o.id].kind != OK_DONE) continue;
            double dt = (double) (rr.t1[o.id] - rr.t0[o.id]) * 1e-9, late = (double) rr.lateBudget[o.id] * 1e-9;
            char b[240];
            if (o.fn == FN_wait) {
                double s = f32(o.a[0]);
                double up = std::floor(s + .5), lo = std::ceil(s - .5);   // (both roundings of a tie are accepted)
                if (lo < 0) lo = 0;
                if (up < 0) up = 0;
                ST.probes["waits"]++;
                if (o.rmode && std::abs(s - std::floor(s) - .5) < 1e-6 * std::max(1.0, std::abs(s))) continue;   // a tie, within the rounding in force
                if (dt < lo - 1e-3) { snprintf(b, sizeof b, "wait(%.9g) returned after %.6f s of %g s", s, dt, lo); fail("oracle:wait", b); return rr; }
                if (dt > up + late + .25) { snprintf(b, sizeof b, "wait(%.9g) returned only after %.6f s (wake-ups were late by %.6f s)", s, dt, late); fail("oracle:wait", b); return rr; }
            } else if (dt > .25) { snprintf(b, sizeof b, "%s took %.6f s while another thread was waiting", FNS[o.fn].name, dt); fail(std::string("oracle:") + FNS[o.fn].name, b); return rr; }
        }
    }
    if (p.prop == "C11") for (int id : rr.order) if (p.ops[id].fn == FN_obs) { std::string e = checkObs(p.ops[id], rr.out[id]); if (!e.empty()) { fail("oracle:obs", e); return rr; } }
    return rr;
}
static bool eventRan(const RunResult& r, int kind) { for (auto& e : r.recorded) if (e.kind == kind) return true; return false; }
bool nontrivial(const Plan& p, const RunResult& r) {
    if (p.mode >= 5 && p.mode != MODE_LIFE) return true;
    if (r.order.empty()) return false;
    const std::string& q = p.prop;
    if (q == "C01") return r.inOpSwitches > 0;
    if (q == "C02") { std::map<int, int> c; for (int id : r.order) c[p.ops[id].fn]++; for (auto& x : c) if (x.second > 1) return true; return r.order.size() > 1; }
    if (q == "C03") return eventRan(r, EV_ABANDON) && !r.order.empty();
    if (q == "C04") return eventRan(r, EV_INTR);
    if (q == "C05") return true;
    if (q == "C06" || q == "C07") return p.nthreads > 1 ? r.switches > 0 : r.order.size() > 1;
    if (q == "C08") { for (int id : r.order) if (p.ops[id].fn == FN_wait && f32(p.ops[id].a[0]) >= .5f) return true; return false; }
    if (q == "C09" || q == "C10" || q == "C14") return r.switches > 0 || eventRan(r, EV_ABANDON) || eventRan(r, EV_RESTART);
    if (q == "C11") return r.order.size() > 1;
    if (q == "C12") { for (auto& o : p.ops) if (o.failMask || !o.tf.empty()) return true; return false; }
    if (q == "C13") { for (auto& o : p.ops) if (o.ambient) return true; return false; }
    if (q == "C15") return eventRan(r, EV_STALL);
    if (q == "C16") return true;             // (the run begins before the library's initialisers)
    return false;
}

// ------------------------------------------------------------------------------------------------ replay files
std::string planText(const Plan& p, const RunResult& r) {
    std::ostringstream o;
    o << "slasim-plan 1\nprop " << p.prop << "\nclass " << r.cls << "\nseed " << p.seed << "\nmode " << p.mode << "\nnthreads " << p.nthreads << "\n";
    o << "flags " << p.monitor << p.ambientCheck << p.faultCheck << p.maskOut << p.rngAtomic << p.boundSteps << p.weak << "\n";
    o << "# " << r.detail << "\n";
    for (auto& q : p.ops) {
        o << "# call " << q.id << " on thread " << q.thread << ": " << opText(q) << "\n";
        o << "op " << FNS[q.fn].name << " " << q.thread << " " << q.scrib << " " << q.ambient << " " << q.failMask << " " << q.shareIn << q.redo << q.reuse << q.stage << " " << (int) q.rmode << " " << q.group << " " << q.tag << " " << q.a.size();
        for (auto& b : q.a) o << " " << hex(b);
        o << "\n";
        for (auto& l : q.links) o << "link " << (int) l.dst << " " << l.srcOp << " " << (int) l.srcArg << "\n";
        for (auto& f : q.tf) o << "tf " << (int) f.kind << " " << f.a << " " << f.b << "\n";
    }
    static const char* K[] = {"?", "switch", "pick", "interrupt", "abandon", "stall", "restart", "life"};
    for (auto& e : p.ev) o << "ev " << K[e.kind] << " op " << e.op << " step " << e.y << " arg " << e.arg << " attempt " << e.att << "\n";
    o << "end\n";
    return o.str();
}
bool planParse(const std::string& text, Plan& p, std::string& cls) {
    std::istringstream in(text);
    std::string line, w;
    bool ended = false;
    p = Plan();
    p.replay = true;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        if (!(s >> w) || w[0] == '#') continue;
        if (w == "prop") s >> p.prop;
        else if (w == "class") s >> cls;
        else if (w == "seed") s >> p.seed;
        else if (w == "mode") s >> p.mode;
        else if (w == "nthreads") s >> p.nthreads;
        else if (w == "flags") { std::string f; s >> f; if (f.size() < 6) return false; p.monitor = f[0] == '1'; p.ambientCheck = f[1] == '1'; p.faultCheck = f[2] == '1'; p.maskOut = f[3] == '1'; p.rngAtomic = f[4] == '1'; p.boundSteps = f[5] == '1'; p.weak = f.size() > 6 ? f[6] - '0' : 0; }
        else if (w == "op") {
            Op o; std::string n, f, h; size_t k; int rm;
            s >> n >> o.thread >> o.scrib >> o.ambient >> o.failMask >> f >> rm >> o.group >> o.tag >> k;
            o.fn = fnByName(n.c_str());
            if (o.fn < 0 || f.size() < 4) return false;
            o.rmode = (uint8_t) rm; o.stage = f[3] == '1';
            o.shareIn = f[0] == '1'; o.redo = f[1] == '1'; o.reuse = f[2] == '1';
            for (size_t i = 0; i < k; i++) { s >> h; o.a.push_back(unhex(h)); }
            o.id = (int) p.ops.size();
            p.ops.push_back(o);
        } else if (w == "link") { int d, so, sa; s >> d >> so >> sa; p.ops.back().links.push_back(Link{(uint8_t) d, so, (int8_t) sa}); }
        else if (w == "tf") { int k; TFault f; s >> k >> f.a >> f.b; f.kind = (uint8_t) k; p.ops.back().tf.push_back(f); }
        else if (w == "ev") {
            static const char* K[] = {"?", "switch", "pick", "interrupt", "abandon", "stall", "restart", "life"};
            std::string k, x; Event e;
            s >> k >> x >> e.op >> x >> e.y >> x >> e.arg >> x >> e.att;
            e.kind = 0;
            for (int i = 1; i < 8; i++) if (k == K[i]) e.kind = (uint8_t) i;
            p.ev.push_back(e);
        } else if (w == "end") ended = true;
    }
    return ended;
}
// ------------------------------------------------------------------------------------------------ minimisation
static Plan without(const Plan& p, const std::vector<bool>& drop) {
    Plan q = p;
    std::vector<int> remap(p.ops.size(), -1);
    q.ops.clear();
    for (auto& o : p.ops) if (!drop[o.id]) { Op n = o; remap[o.id] = (int) q.ops.size(); n.id = (int) q.ops.size(); q.ops.push_back(n); }
    for (auto& o : q.ops) {
        std::vector<Link> l;
        for (auto& x : o.links) if (remap[x.srcOp] >= 0) { Link y = x; y.srcOp = remap[x.srcOp]; l.push_back(y); }
        o.links = l;
    }
    q.ev.clear();
    for (auto e : p.ev) {
        if (remap[e.op] < 0) continue;
        e.op = remap[e.op];
        if (e.kind == EV_INTR) { if (e.arg < 0 || e.arg >= (int) remap.size() || remap[e.arg] < 0) continue; e.arg = remap[e.arg]; }
        q.ev.push_back(e);
    }
    return q;
}
Plan minimise(Plan p, const std::string& cls, int budget, int& execs) {
    auto bad = [&](const Plan& q) { if (execs >= budget || q.ops.empty()) return false; execs++; soloCache.clear(); RunResult r = runPlan(q); return r.violation && r.cls == cls; };
    if (p.mode == 5) for (int cut = p.ops[0].tag / 2; cut > 0;) { // shorten the history
        Plan q = p;
        q.ops[0].tag -= cut;
        if (q.ops[0].tag > 10 && bad(q)) { p = q; cut = std::min(cut, p.ops[0].tag / 2); } else cut /= 2;
    }
    bool progress = true;
    while (progress && execs < budget) {
        progress = false;
        for (size_t k = std::max<size_t>(1, p.ops.size() / 2);; k /= 2) { // drop calls
            for (size_t i = 0; i < p.ops.size();) {
                std::vector<bool> d(p.ops.size(), false);
                for (size_t j = i; j < std::min(i + k, p.ops.size()); j++) d[j] = true;
                Plan q = without(p, d);
                if (bad(q)) { p = q; progress = true; } else i += k;
                if (execs >= budget) return p;
            }
            if (k <= 1) break;
        }
        for (size_t k = std::max<size_t>(1, p.ev.size() / 2); !p.ev.empty(); k /= 2) { // drop events
            for (size_t i = 0; i < p.ev.size();) {
                Plan q = p;
                q.ev.erase(q.ev.begin() + (long) i, q.ev.begin() + (long) std::min(i + k, p.ev.size()));
                if (bad(q)) { p = q; progress = true; } else i += k;
                if (execs >= budget) return p;
            }
            if (k <= 1) break;
        }
        for (size_t i = 0; i < p.ops.size() && execs < budget; i++) {
            auto tryOp = [&](std::function<void(Op&)> f) { Plan q = p; f(q.ops[i]); if (bad(q)) { p = q; return true; } return false; };
            if (p.ops[i].scrib) tryOp([](Op& o) { o.scrib = 0; });
            if (p.ops[i].ambient) tryOp([](Op& o) { o.ambient = 0; });
            if (p.ops[i].failMask) tryOp([](Op& o) { o.failMask = 0; });
            if (p.ops[i].shareIn) tryOp([](Op& o) { o.shareIn = false; });
            if (p.ops[i].stage) tryOp([](Op& o) { o.stage = false; });
            if (p.ops[i].reuse) tryOp([](Op& o) { o.reuse = false; });
            for (size_t k = 0; k < p.ops[i].tf.size();) if (!tryOp([k](Op& o) { o.tf.erase(o.tf.begin() + (long) k); })) k++;
        }
    }
    if (p.weak) { Plan q = p; q.weak = 0; if (bad(q)) p = q; }
    int used = 0;
    for (auto& o : p.ops) used = std::max(used, o.thread + 1);
    if (used < p.nthreads && used > 0) { Plan q = p; q.nthreads = used; if (bad(q)) p = q; }
    return p;
}
