// The library's API as data: adaptors, argument generators, mutation, text forms.
#include "sim.h"
#include "slalib.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cfloat>
#include <algorithm>
#include <fstream>
#include <sstream>
#include "ops_gen.inc"

const FnDesc* FNS = FN_TABLE;
int NFN = (int) (sizeof FN_TABLE / sizeof FN_TABLE[0]);
int FN_random, FN_gresid, FN_wait, FN_obs, FN_vers, FN_veri, FN_permut, FN_combn;
std::vector<std::string> stationIds;
static std::vector<std::vector<double>> DICT;

double Rng::gauss() {
    double s = 0;
    for (int i = 0; i < 12; i++) s += unit();
    return s - 6.0;
}
int fnByName(const char* name) {
    for (int i = 0; i < NFN; i++) if (!strcmp(FNS[i].name, name)) return i;
    return -1;
}
size_t typeSize(int t) {
    switch (t) {
    case AT_d: return 8;
    case AT_f: return 4;
    case AT_i: return 4;
    case AT_b: return 1;
    case AT_c: return 1;
    case AT_cat: return sizeof(sla::Catalogue);
    case AT_vd: return 24;
    case AT_vf: return 12;
    case AT_md: return 72;
    case AT_mf: return 36;
    case AT_sd: return 16;
    case AT_sf: return 8;
    case AT_pd: return 48;
    case AT_pf: return 24;
    case AT_qd: return 48;
    case AT_qf: return 24;
    case AT_dt: return sizeof(sla::Date);
    case AT_cr: return sizeof(sla::ConversionResult);
    case AT_am: return sizeof(sla::AltazMount);
    case AT_fc: return sizeof(sla::FitCoeffs);
    case AT_ob: return sizeof(sla::Observatory);
    default: return 0;
    }
}
size_t elemSize(int t) {
    switch (t) {
    case AT_f: case AT_i: case AT_vf: case AT_mf: case AT_sf: case AT_pf: case AT_qf: case AT_fa: case AT_ia: case AT_cr: case AT_dt: return 4;
    case AT_b: case AT_c: case AT_st: return 1;
    case AT_cat: return sizeof(sla::Catalogue);
    default: return 8;
    }
}
static bool isF(int t) { return t == AT_f || t == AT_vf || t == AT_mf || t == AT_sf || t == AT_pf || t == AT_qf || t == AT_fa; }
static bool isD(int t) { return t == AT_d || t == AT_vd || t == AT_md || t == AT_sd || t == AT_pd || t == AT_qd || t == AT_am || t == AT_fc || t == AT_da || t == AT_xy; }
static bool isFloat(int t) { return isF(t) || isD(t); }

bool sizedFn(int fn) { int c = FNS[fn].custom; return c == CG_mat || c == CG_svd || c == CG_svdsol || c == CG_svdcov; }
void opsInit(const char* dictFile) {
    FN_random = fnByName("random"); FN_gresid = fnByName("gresid"); FN_wait = fnByName("wait"); FN_obs = fnByName("obs");
    FN_vers = fnByName("vers"); FN_veri = fnByName("veri"); FN_permut = fnByName("permut"); FN_combn = fnByName("combn");
    DICT.assign(NFN, {});
    if (dictFile) {
        std::ifstream in(dictFile);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream ss(line);
            std::string n; ss >> n;
            int f = fnByName(n.c_str());
            double v;
            if (f >= 0) while (ss >> v) if (std::isfinite(v) && DICT[f].size() < 4000) DICT[f].push_back(v);
        }
    }
}

// ---------------------------------------------------------------- values
static const double PI = 3.14159265358979323846;
static double nudge(double v, Rng& r) {
    switch (r.below(10)) {
    case 6: return v + (r.chance(.5) ? 1 : -1) * 2 * PI * (r.chance(.8) ? 1 : r.range(1, 50));
    case 7: return std::floor(v) + r.unit();
    case 8: return r.chance(.5) ? 0.0 : -0.0;
    case 9: return r.chance(.5) ? (double) (float) v : v * (r.chance(.5) ? 2 : .5);
    case 0: return std::nextafter(v, 1e300);
    case 1: return std::nextafter(v, -1e300);
    case 2: return v * (1 + r.uni(-1, 1) * std::pow(10.0, -r.range(3, 15)));
    case 3: return v + r.uni(-1, 1) * std::pow(10.0, -r.range(1, 12));
    case 4: return -v;
    default: return v + (r.chance(.5) ? 1 : -1);
    }
}
template <size_t N> static double one(const double (&a)[N], Rng& r) { return a[r.below(N)]; }
static double typical(int kind, Rng& r, bool special, bool wide) {
    switch (kind) {
    case AK_zd: { static const double s[] = {0, PI / 2, 1.3, 1.4, 1.47, 1.55, 1.6, 1.62, 1.7, PI, -0.5, 1e-8};
        return special ? one(s, r) : wide ? r.uni(-4, 4) : r.uni(0, 1.5); }
    case AK_ang: { static const double s[] = {0, PI, -PI, PI / 2, -PI / 2, 2 * PI, 3 * PI, -2 * PI, 1e-10, PI / 4, 6.28318530717958623, 1e6};
        return special ? one(s, r) : wide ? r.uni(-1000, 1000) : r.uni(-7, 7); }
    case AK_lat: { static const double s[] = {0, PI / 2, -PI / 2, PI / 4, 1e-9, 1.5707963, -1.5707963, 1.57079632679, 2.0};
        return special ? one(s, r) : wide ? r.uni(-4, 4) : r.uni(-1.57, 1.57); }
    case AK_mjd: { static const double s[] = {0, 15019.5, 15019.8135, 33281.9235, 33282.423, 41317, 41317.5, 51544, 51544.5, 50083, 51179, 53736, 54832, 57754, 43000.3,
            37300, 37512, 37665, 38334, 38395, 38486, 38639, 38761, 38820, 38942, 39004, 39126, 39887, 41499, 41683, 42048, 49169, 36934, -676550, -2395520, 2433282, 1e9};
        return special ? one(s, r) : wide ? r.uni(-7e5, 3e6) : r.chance(.3) ? std::floor(r.uni(36000, 62000)) : r.uni(36000, 62000); }
    case AK_jep: { static const double s[] = {0, 1600, 1620, 1700, 1850, 1900, 1948, 1950, 1955.7, 1984, 1992.5, 2000, 2000.0017, 2050, 2100, 2600, -1000, 948};
        return special ? one(s, r) : wide ? r.uni(-5000, 8000) : r.uni(1850, 2100); }
    case AK_frac: { static const double s[] = {0, 0.5, 1, 0.999999, 1e-9, -0.25, 2};
        return special ? one(s, r) : wide ? r.uni(-3, 3) : r.unit(); }
    case AK_earthr: { static const double s[] = {0, 6378.14, -6378.14, 1e-3}; return special ? one(s, r) : wide ? r.uni(-1e5, 1e5) : r.uni(0, 6400); }
    case AK_tk: { static const double s[] = {100, 500, 273.15, 0, 90, 600, 288.15}; return special ? one(s, r) : wide ? r.uni(0, 800) : r.uni(250, 310); }
    case AK_pmb: { static const double s[] = {0, 1013.25, 10000, 20000, 1e-3}; return special ? one(s, r) : wide ? r.uni(0, 12000) : r.uni(500, 1050); }
    case AK_rh: { static const double s[] = {0, 1, 0.5, 2, 0.999}; return special ? one(s, r) : wide ? r.uni(-.5, 2) : r.unit(); }
    case AK_wl: { static const double s[] = {0.1, 0.55, 0.574, 1, 100, 100.00001, 99.9, 1e4, 1e6, 0.05}; return special ? one(s, r) : wide ? std::pow(10, r.uni(-2, 7)) : r.uni(0.3, 2.5); }
    case AK_refa: { static const double s[] = {0, 2.9e-4, 6e-4}; return special ? one(s, r) : wide ? r.uni(-.01, .01) : r.uni(1e-4, 4e-4); }
    case AK_refb: { static const double s[] = {0, -3e-7, -1e-6}; return special ? one(s, r) : wide ? r.uni(-1e-4, 1e-4) : r.uni(-6e-7, -1e-7); }
    case AK_hm: { static const double s[] = {0, -1000, 10000, 11000, 9999, 20000, -2000, 80000}; return special ? one(s, r) : wide ? r.uni(-2000, 30000) : r.uni(0, 5000); }
    case AK_tlr: { static const double s[] = {0.0065, 0.001, 0.01, 0.02, 0.0001}; return special ? one(s, r) : wide ? r.uni(1e-4, .03) : r.uni(.004, .008); }
    case AK_eps: { static const double s[] = {1e-8, 1e-9, 1e-12, 0.1, 1e-6}; return special ? one(s, r) : wide ? std::pow(10, r.uni(-9, -1)) : std::pow(10, r.uni(-8, -5)); }
    case AK_days: { static const double s[] = {0, 1, 0.5, 0.999999999, 1.5, -0.25, 365.25, 1.0 / 86400}; return special ? one(s, r) : wide ? r.uni(-100, 100) : r.unit(); }
    case AK_sec60: { static const double s[] = {0, 60, 59.9999, -1, 59.99999999}; return special ? one(s, r) : wide ? r.uni(-10, 80) : r.uni(0, 60); }
    case AK_disco: { static const double s[] = {0, 178.585, 147.069, -0.3333333333, 33, 0.0033, 1e-12}; return special ? one(s, r) : wide ? r.uni(-500, 500) : r.uni(-1, 200); }
    case AK_xy: { static const double s[] = {0, 1, -1, 1e-12, 0.02}; return special ? one(s, r) : wide ? r.uni(-100, 100) : r.uni(-.1, .1); }
    case AK_pm: { static const double s[] = {0, 1e-4, -1e-4, 1e-9}; return special ? one(s, r) : wide ? r.uni(-.01, .01) : r.uni(-1e-5, 1e-5); }
    case AK_px: { static const double s[] = {0, 1, 0.7, -1}; return special ? one(s, r) : wide ? r.uni(-2, 5) : r.uni(0, 1); }
    case AK_rv: { static const double s[] = {0, 100, -100}; return special ? one(s, r) : wide ? r.uni(-1e4, 1e4) : r.uni(-300, 300); }
    case AK_polm: { static const double s[] = {0, 1e-6, PI}; return special ? one(s, r) : wide ? r.uni(-4, 4) : r.uni(-2e-6, 2e-6); }
    case AK_xi: { static const double s[] = {0, 1e-6, 1, -1, 1e-20, 1.6, 10}; return special ? one(s, r) : wide ? r.uni(-20, 20) : r.uni(-.3, .3); }
    case AK_deqx: { static const double s[] = {0, -1, 2000, 1950, 1e-9}; return special ? one(s, r) : wide ? r.uni(-100, 4000) : r.uni(1900, 2100); }
    case AK_seed: { static const double s[] = {0, 1, -1, 123456, 1e-6, 1e6, 999999, 1e10, 3.5, 8.999e5}; return special ? one(s, r) : wide ? (r.chance(.5) ? 1 : -1) * std::pow(10, r.uni(-6, 12)) : r.uni(0, 1e6); }
    case AK_stdev: { static const double s[] = {0, 1, -1, 0.5, 1e-6, 1e6, 2, 100}; return special ? one(s, r) : wide ? (r.chance(.8) ? 1 : -1) * std::pow(10, r.uni(-6, 6)) : r.uni(.1, 10); }
    case AK_wsec: { static const double s[] = {0, 1, 0.4999, 0.5, 1.5, -1, -0.6, 2.5, 3600, 86400, 0.49, 2147.5, 4295, 65536, 2147484, 4294968, 1e9, 2147483520.0, -2147483520.0, 16777217};
        return special ? one(s, r) : wide ? std::pow(10, r.uni(-2, 9.33)) : r.uni(0, 30); }
    default: return special ? (r.chance(.5) ? 0 : 1) : wide ? r.uni(-1e4, 1e4) : r.uni(-2, 2);
    }
}
static double value(int fn, int kind, Rng& r) {
    double u = r.unit(), v;
    if (u < .55) v = typical(kind, r, false, false);
    else if (u < .70) v = typical(kind, r, true, false);
    else if (u < .76) v = nudge(typical(kind, r, true, false), r);
    else if (u < .86) v = typical(kind, r, false, true);
    else if (u < .93 && !DICT[fn].empty()) v = DICT[fn][r.below((uint32_t) DICT[fn].size())];
    else if (u < .97 && !DICT[fn].empty()) v = nudge(DICT[fn][r.below((uint32_t) DICT[fn].size())], r);
    else if (u < .985) v = std::round(typical(kind, r, false, true));
    else v = typical(kind, r, false, false) * std::pow(10, r.range(-8, 4));
    if (kind == AK_eps) { if (!(v >= 1e-12)) v = 1e-9; }
    if (kind == AK_wsec && std::fabs(v) > 2147483520.0) v = 100;
    if (v == 0 && r.chance(.3)) v = -v;
    if (std::fabs(v) > 1e12) v = std::copysign(1e12, v);
    return v;
}
static int ivalue(int fn, int kind, Rng& r) {
    bool d = !DICT[fn].empty() && r.chance(.08);
    int dv = d ? (int) std::max(-1e6, std::min(1e6, DICT[fn][r.below((uint32_t) DICT[fn].size())])) : 0;
    switch (kind) {
    case AK_year: return d ? dv : r.chance(.2) ? r.range(-5, 110) : r.chance(.1) ? r.range(-4750, -4650) : r.chance(.15) ? (r.range(1, 30) * 100) : r.chance(.1) ? r.range(-9000, 20000) : r.range(1800, 2100);
    case AK_month: return r.chance(.1) ? r.range(-2, 15) : r.chance(.25) ? 2 : r.range(1, 12);
    case AK_day: return r.chance(.1) ? r.range(-5, 40) : r.chance(.25) ? r.range(28, 32) : r.range(1, 31);
    case AK_deg: return d ? dv : r.chance(.15) ? r.range(-5, 400) : r.range(0, 359);
    case AK_min60: return r.chance(.15) ? r.range(-2, 65) : r.range(0, 59);
    case AK_hour: return r.chance(.15) ? r.range(-2, 30) : r.range(0, 23);
    case AK_ndp4: return r.chance(.2) ? r.range(-2, 6) : r.range(0, 4);
    case AK_ndp: return r.chance(.2) ? r.range(-2, 9) : r.range(0, 6);
    case AK_eyear: return d ? dv % 5000 : r.chance(.15) ? r.range(1000, 3000) : r.range(1900, 2100);
    case AK_doy: return r.chance(.1) ? r.range(-10, 400) : r.range(1, 366);
    default: return d ? dv : r.range(-3, 10);
    }
}
static void putF(Blob& b, int type, size_t i, double v) {
    if (isF(type)) {
        float f = std::fabs(v) > 1e30 ? (float) std::copysign(1e30, v) : (float) v;
        memcpy(&b[i * 4], &f, 4);
    } else memcpy(&b[i * 8], &v, 8);
}
static double getF(const Blob& b, int type, size_t i) {
    if (isF(type)) { float f; memcpy(&f, &b[i * 4], 4); return f; }
    double v; memcpy(&v, &b[i * 8], 8); return v;
}
static Blob garbage(size_t n, Rng& r) {
    // what output objects hold before a call: anything
    Blob b(n);
    switch (r.below(4)) {
    case 0: for (auto& x : b) x = (uint8_t) r.next(); break;
    case 1: { uint8_t c = (uint8_t) r.next(); for (auto& x : b) x = c; break; }
    case 2: for (size_t i = 0; i < n; i += 8) { double v = typical(AK_ang, r, r.chance(.3), r.chance(.3)); memcpy(&b[i], &v, std::min<size_t>(8, n - i)); } break;
    default: for (size_t i = 0; i < n; i += 4) { int v = r.range(-3, 100); memcpy(&b[i], &v, std::min<size_t>(4, n - i)); }
    }
    return b;
}
static Blob str(const std::string& s) { Blob b(s.begin(), s.end()); b.push_back(0); return b; }
static Blob ints(std::initializer_list<int> v) { Blob b(v.size() * 4); size_t i = 0; for (int x : v) { memcpy(&b[4 * i++], &x, 4); } return b; }
static Blob scalar(int v) { return ints({v}); }

static void genRot(Blob& b, int type, Rng& r) {
    double m[3][3];
    if (r.chance(.12)) { for (auto& row : m) for (double& x : row) x = r.chance(.3) ? 0 : r.uni(-2, 2); }
    else if (r.chance(.1)) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = i == j; }
    else {
        double a = r.uni(-PI, PI), c = r.uni(-1.6, 1.6), e = r.chance(.1) ? PI : r.uni(-PI, PI);
        if (r.chance(.15)) { a *= 1e-6; c *= 1e-6; e *= 1e-6; }
        double ca = cos(a), sa = sin(a), cc = cos(c), sc = sin(c), ce = cos(e), se = sin(e);
        double t[3][3] = {{ca * ce - sa * cc * se, sa * ce + ca * cc * se, sc * se}, {-ca * se - sa * cc * ce, -sa * se + ca * cc * ce, sc * ce}, {sa * sc, -ca * sc, cc}};
        memcpy(m, t, sizeof m);
    }
    for (int i = 0; i < 9; i++) putF(b, type, i, m[i / 3][i % 3]);
}
static void genVec(Blob& b, int type, int n0, Rng& r, bool unit) {
    double v[3];
    double u = r.unit();
    if (u < .1) { for (double& x : v) x = 0; if (unit || r.chance(.5)) v[r.below(3)] = r.chance(.5) ? 1 : -1; }
    else for (double& x : v) x = r.gauss();
    if (unit || r.chance(.5)) { double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); if (n > 0) for (double& x : v) x /= n; }
    if (!unit && r.chance(.15)) { double k = std::pow(10, r.range(-12, 8)); for (double& x : v) x *= k; }
    for (int i = 0; i < 3; i++) putF(b, type, n0 + i, v[i]);
}
static Blob genArg(int fn, const ArgDesc& a, Rng& r) {
    Blob b(typeSize(a.type));
    switch (a.type) {
    case AT_d: case AT_f: putF(b, a.type, 0, value(fn, a.kind, r)); break;
    case AT_i: b = scalar(ivalue(fn, a.kind, r)); break;
    case AT_b: b[0] = r.chance(.5); break;
    case AT_c: { static const char c[] = "BJBJBJbjXK0 "; b[0] = (uint8_t) c[r.below(12)]; break; }
    case AT_cat: { int v = r.chance(.7) ? (r.chance(.5) ? sla::CAT_FK4 : sla::CAT_FK5) : r.range(0, 6); sla::Catalogue c = (sla::Catalogue) v; memcpy(b.data(), &c, sizeof c); break; }
    case AT_vd: case AT_vf:
        if (a.kind == AK_axis) { genVec(b, a.type, 0, r, true); double k = r.chance(.2) ? 0 : r.chance(.2) ? 1e-8 : r.uni(0, 6.4); for (int i = 0; i < 3; i++) putF(b, a.type, i, k * getF(b, a.type, i)); }
        else genVec(b, a.type, 0, r, a.kind == AK_uvec);
        break;
    case AT_md: case AT_mf: genRot(b, a.type, r); break;
    case AT_sd: case AT_sf:
        if (a.kind == AK_pm) { putF(b, a.type, 0, value(fn, AK_pm, r)); putF(b, a.type, 1, value(fn, AK_pm, r)); }
        else { putF(b, a.type, 0, value(fn, AK_ang, r)); putF(b, a.type, 1, value(fn, AK_lat, r)); }
        break;
    case AT_pd: case AT_pf: genVec(b, a.type, 0, r, false); genVec(b, a.type, 3, r, false); break;
    case AT_qd: case AT_qf: {
        putF(b, a.type, 0, value(fn, AK_ang, r)); putF(b, a.type, 1, value(fn, AK_lat, r)); putF(b, a.type, 2, r.chance(.1) ? 0 : r.uni(0, 10));
        for (int i = 3; i < 6; i++) putF(b, a.type, i, r.chance(.2) ? 0 : r.uni(-1, 1));
        break; }
    case AT_fc: {
        double k = r.chance(.1) ? 0 : 1, an = r.uni(-PI, PI), s = r.uni(.5, 2), t = r.chance(.5) ? s : r.uni(.5, 2);
        double c[6] = {r.uni(-1, 1), s * cos(an), -t * sin(an), r.uni(-1, 1), s * sin(an), t * cos(an)};
        for (int i = 0; i < 6; i++) putF(b, AT_d, i, (i % 3) ? k * c[i] : c[i]);
        if (r.chance(.1)) for (int i = 0; i < 6; i++) putF(b, AT_d, i, r.range(-2, 2));
        break; }
    case AT_st: {
        static const char al[] = "XYZxyz123XYZxyz123XYZQ 0";
        std::string s; int n = r.chance(.75) ? 3 : r.range(0, 6);
        for (int i = 0; i < n; i++) s += al[r.below(24)];
        b = str(s);
        break; }
    default: b = garbage(b.size(), r);
    }
    return b;
}
static Blob arr(int type, int n, Rng& r) {
    Blob b((size_t) n * (type == AT_xy ? 16 : elemSize(type)));
    bool ints01 = r.chance(.15);
    int cnt = type == AT_xy ? 2 * n : n;
    for (int i = 0; i < cnt; i++) putF(b, type == AT_xy ? AT_da : type, i, ints01 ? r.range(-2, 2) : r.chance(.08) ? 0 : r.uni(-3, 3));
    return b;
}
// a matrix dimension: mostly small, now and then large, in particular around the function's own constants
static int dim(int fn, int small, int cap, Rng& r) {
    if (!r.chance(.08)) return r.range(1, small);
    std::vector<int> c;
    if (r.chance(.6)) for (double v : DICT[fn]) if (v == std::floor(v) && v > small && v < cap) c.push_back((int) v);
    if (!c.empty()) return std::min(cap, c[r.below((uint32_t) c.size())] + (r.chance(.5) ? 0 : r.range(-1, cap / 4)));
    return r.range(small + 1, r.chance(.6) ? cap / 2 : cap);
}
static void genCustom(Op& o, Rng& r) {
    const FnDesc& d = FNS[o.fn];
    o.a.resize(d.nargs);
    switch (d.custom) {
    case CG_mat: {
        int n = dim(o.fn, 5, 40, r), t = d.args[1].type;
        o.a[0] = scalar(n);
        o.a[1] = arr(t, n * n, r);
        if (n > 1 && r.chance(.2)) for (int j = 0; j < n; j++) putF(o.a[1], t, (size_t) (n - 1) * n + j, r.chance(.5) ? getF(o.a[1], t, j) : 0);
        if (r.chance(.1)) for (int j = 0; j < n * n; j++) putF(o.a[1], t, j, getF(o.a[1], t, j) * 1e-12);
        o.a[2] = arr(t, n, r);
        o.a[3] = garbage(typeSize(d.args[3].type), r);
        o.a[4] = garbage(4 * (size_t) n, r);
        break; }
    case CG_svd: {
        int n = dim(o.fn, 5, 24, r), m = n <= 5 && r.chance(.1) ? r.range(1, 5) : n + r.range(0, 4);
        int mp = m + (r.chance(.5) ? 0 : r.range(0, 3)), np = n + (r.chance(.5) ? 0 : r.range(0, 3));
        o.a[0] = scalar(m); o.a[1] = scalar(n); o.a[2] = scalar(mp); o.a[3] = scalar(np);
        o.a[4] = arr(AT_da, mp * np, r);
        if (r.chance(.15)) for (int i = 0; i < mp; i++) putF(o.a[4], AT_da, (size_t) i * np, 0);
        if (n > 1 && r.chance(.15)) for (int i = 0; i < mp; i++) putF(o.a[4], AT_da, (size_t) i * np + 1, getF(o.a[4], AT_da, (size_t) i * np));
        if (r.chance(.03)) for (int i = 0; i < mp * np; i++) putF(o.a[4], AT_da, i, 0);
        o.a[5] = garbage(8 * n, r); o.a[6] = garbage(8 * np * np, r); o.a[7] = garbage(8 * n, r);
        break; }
    case CG_svdsol: {
        int n = dim(o.fn, 5, 56, r), m = n + r.range(0, 4);
        int mp = m + (r.chance(.5) ? 0 : r.range(0, 3)), np = n + (r.chance(.5) ? 0 : r.range(0, 3));
        o.a[0] = scalar(m); o.a[1] = scalar(n); o.a[2] = scalar(mp); o.a[3] = scalar(np);
        o.a[4] = arr(AT_da, m, r); o.a[5] = arr(AT_da, mp * np, r); o.a[6] = arr(AT_da, n, r); o.a[7] = arr(AT_da, np * np, r);
        o.a[8] = garbage(8 * n, r); o.a[9] = garbage(8 * n, r);
        break; }
    case CG_svdcov: {
        int n = dim(o.fn, 5, 48, r), np = n + (r.chance(.5) ? 0 : r.range(0, 3)), nc = n + (r.chance(.5) ? 0 : r.range(0, 3));
        o.a[0] = scalar(n); o.a[1] = scalar(np); o.a[2] = scalar(nc);
        o.a[3] = arr(AT_da, n, r); o.a[4] = arr(AT_da, np * np, r);
        o.a[5] = garbage(8 * n, r); o.a[6] = garbage(8 * nc * nc, r);
        break; }
    case CG_fitxy: {
        int n = r.chance(.15) ? r.range(0, 3) : r.chance(.12) ? (r.chance(.6) ? r.range(20, 100) : r.range(60, 600)) : r.range(2, 10);
        o.a[0] = Blob{(uint8_t) r.chance(.5)};
        o.a[1] = scalar(n);
        o.a[2] = arr(AT_xy, std::max(n, 0), r);
        if (r.chance(.6)) { // related by a model plus noise
            double c[6] = {r.uni(-1, 1), r.uni(.5, 2), r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), r.uni(.5, 2)};
            if (r.chance(.3)) c[5] = -c[5];
            double noise = r.chance(.3) ? 0 : 1e-3;
            o.a[3] = Blob(o.a[2].size());
            for (int i = 0; i < n; i++) {
                double x = getF(o.a[2], AT_da, 2 * i), y = getF(o.a[2], AT_da, 2 * i + 1);
                putF(o.a[3], AT_da, 2 * i, c[0] + c[1] * x + c[2] * y + noise * r.uni(-1, 1));
                putF(o.a[3], AT_da, 2 * i + 1, c[3] + c[4] * x + c[5] * y + noise * r.uni(-1, 1));
            }
        } else o.a[3] = arr(AT_xy, std::max(n, 0), r);
        if (n > 0 && r.chance(.08)) for (int i = 0; i < n; i++) { putF(o.a[3], AT_da, 2 * i, 1); putF(o.a[3], AT_da, 2 * i + 1, 1); } // degenerate: no solution
        o.a[4] = garbage(sizeof(sla::FitCoeffs), r);
        break; }
    case CG_pxy: {
        int n = r.chance(.1) ? 0 : r.chance(.08) ? (r.chance(.6) ? r.range(13, 100) : r.range(60, 600)) : r.range(1, 12);
        o.a[0] = scalar(n); o.a[1] = arr(AT_xy, n, r); o.a[2] = arr(AT_xy, n, r);
        o.a[3] = genArg(o.fn, d.args[3], r);
        o.a[4] = garbage(16 * n, r);
        for (int i = 5; i < 8; i++) o.a[i] = garbage(8, r);
        break; }
    case CG_combn: {
        int n = r.chance(.1) ? r.range(-1, 1) : r.range(1, 9), k = r.chance(.1) ? r.range(-1, 12) : n > 0 ? r.range(1, n) : 1;
        int len = std::max(1, k);
        o.a[0] = scalar(k); o.a[1] = scalar(n);
        std::vector<int> l(len);
        if (r.chance(.25)) { for (int& x : l) x = r.range(-5, 20); l[0] = r.range(-3, 0); }
        else { // a valid combination (or the last one)
            std::vector<int> all; for (int i = 1; i <= std::max(n, len); i++) all.push_back(i);
            for (size_t i = 0; i < all.size(); i++) std::swap(all[i], all[i + r.below((uint32_t) (all.size() - i))]);
            for (int i = 0; i < len; i++) l[i] = r.chance(.0) ? 0 : all[i];
            if (r.chance(.15)) for (int i = 0; i < len; i++) l[i] = std::max(n, len) - len + 1 + i;
            std::sort(l.begin(), l.end());
        }
        o.a[2].resize(4 * len); memcpy(o.a[2].data(), l.data(), 4 * len);
        break; }
    case CG_permut: {
        int n = r.chance(.08) ? r.range(-2, 0) : r.range(1, 8), len = std::max(1, n);
        o.a[0] = scalar(n);
        std::vector<int> s(len);
        if (r.chance(.2)) { for (int& x : s) x = r.range(-9, 9); s[0] = -r.range(1, 5); }
        else { for (int i = 0; i < len; i++) s[i] = r.range(0, i); if (r.chance(.1)) for (int i = 0; i < len; i++) s[i] = i; }
        o.a[1].resize(4 * len); memcpy(o.a[1].data(), s.data(), 4 * len);
        o.a[2] = garbage(4 * len, r);
        break; }
    case CG_obs: {
        int n = r.chance(.5) ? -r.range(1, 4) : r.chance(.1) ? r.range(80, 1000) : r.chance(.02) ? 2147483647 : r.range(0, 90);
        o.a[0] = scalar(n);
        if (r.chance(.06)) o.a[1] = Blob();
        else {
            std::string s;
            if (!stationIds.empty() && r.chance(.85)) {
                s = stationIds[r.below((uint32_t) stationIds.size())];
                if (r.chance(.3)) s = s.substr(0, r.below((uint32_t) s.size() + 1));
                if (r.chance(.08)) s += "X";
                if (r.chance(.08)) for (char& c : s) c = (char) tolower(c);
                if (r.chance(.12)) switch (r.below(7)) { // nearly an identifier
                case 0: s += std::string((size_t) r.range(1, 12), ' '); break;
                case 1: s = " " + s; break;
                case 2: if (!s.empty()) s[r.below((uint32_t) s.size())] = (char) r.range(32, 126); break;
                case 3: s += std::string((size_t) r.range(1, 300), (char) r.range(33, 90)); break;
                case 4: s += (char) r.range(1, 255); break;
                case 5: if (!s.empty()) s.erase(r.below((uint32_t) s.size()), 1); break;
                default: s += stationIds[r.below((uint32_t) stationIds.size())];
                }
            } else { int k = r.range(0, 12); for (int i = 0; i < k; i++) s += (char) r.range(32, 90); }
            o.a[1] = str(s);
        }
        o.a[2] = garbage(sizeof(sla::Observatory), r);
        break; }
    default: break;
    }
}
Op genOp(int fn, Rng& r) {
    Op o;
    o.fn = fn;
    const FnDesc& d = FNS[fn];
    if (d.custom != CG_none) genCustom(o, r);
    else {
        o.a.resize(d.nargs);
        for (int i = 0; i < d.nargs; i++) {
            const ArgDesc& a = d.args[i];
            if (a.mode == AM_o) { o.a[i] = garbage(typeSize(a.type), r); continue; }
            o.a[i] = genArg(fn, a, r);
            if (i && r.chance(.08))
                for (int j = 0; j < i; j++) if (d.args[j].mode != AM_o && d.args[j].type == a.type && d.args[j].kind == a.kind) { o.a[i] = o.a[j]; break; }
        }
    }
    o.scrib = r.next() | 1;
    return o;
}
// one number replaced by one that no arithmetic is meant for
void exoticOp(Op& o, Rng& r) {
    const FnDesc& d = FNS[o.fn];
    if (isRng(o.fn) || o.fn == FN_wait) return;
    std::vector<int> in;
    for (int i = 0; i < d.nargs; i++) if (d.args[i].mode != AM_o && isFloat(d.args[i].type) && !o.a[i].empty()) in.push_back(i);
    if (in.empty()) return;
    int i = in[r.below((uint32_t) in.size())], ft = isF(d.args[i].type) ? AT_f : AT_d;
    static const double v[] = {NAN, NAN, NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e38, 1e-310, 1e-42};
    putF(o.a[i], ft, r.below((uint32_t) (o.a[i].size() / elemSize(ft))), v[r.below(10)]);
}
// other arguments with something in common: a sum, a product, a remainder, a whole part, the same numbers in another order
static bool collideOp(Op& o, Rng& r) {
    const FnDesc& d = FNS[o.fn];
    struct Slot { int arg, el, type, kind; };
    std::vector<Slot> sl;
    for (int i = 0; i < d.nargs; i++) {
        const ArgDesc& a = d.args[i];
        if (a.mode == AM_o || o.a[i].empty()) continue;
        if (isFloat(a.type)) { int ft = isF(a.type) ? AT_f : AT_d; int n = (int) (o.a[i].size() / elemSize(ft)); for (int k = 0; k < n && sl.size() < 64; k++) sl.push_back({i, k, ft, a.kind}); }
        else if (a.type == AT_i && d.custom == CG_none) sl.push_back({i, 0, AT_i, a.kind});
    }
    if (sl.empty()) return false;
    auto get = [&](const Slot& s) { if (s.type != AT_i) return getF(o.a[s.arg], s.type, s.el); int v; memcpy(&v, o.a[s.arg].data(), 4); return (double) v; };
    auto set = [&](const Slot& s, double v) {
        if (s.kind == AK_eps && !(v >= 1e-12)) v = 1e-8;
        if (s.kind == AK_wsec && std::fabs(v) > 2147483520.0) v = 7;
        if (!std::isfinite(v) || std::fabs(v) > 1e12) v = 1;
        if (s.type != AT_i) { putF(o.a[s.arg], s.type, s.el, v); return; }
        if (s.kind == AK_ndp && v > 9) v = 2;
        if (s.kind == AK_ndp4 && v > 6) v = 2;
        o.a[s.arg] = scalar((int) std::max(-1e9, std::min(1e9, v)));
    };
    static const double mods[] = {1, 1, 2, 4, 7, 8, 10, 12, 16, 24, 30, 31, 32, 60, 60, 64, 100, 128, 256, 360, 365, 366, 400, 512, 1000, 1024, 3600, 4096, 65536, 2 * PI, PI};
    double m = !DICT[o.fn].empty() && r.chance(.3) ? DICT[o.fn][r.below((uint32_t) DICT[o.fn].size())] : mods[r.below(sizeof mods / sizeof *mods)];
    size_t i = r.below((uint32_t) sl.size()), j = sl.size() < 2 ? i : r.chance(.6) ? (i + 1 < sl.size() ? i + 1 : i - 1) : r.below((uint32_t) sl.size());
    double k = (r.chance(.5) ? 1 : -1) * (r.chance(.7) ? 1 : r.range(1, 5)), u = get(sl[i]), v = get(sl[j]);
    switch (i == j ? 4 + r.below(3) : r.below(8)) {
    case 0: set(sl[i], v); set(sl[j], u); break;
    case 1: set(sl[i], u + k); set(sl[j], v - k * m); break;
    case 2: { double e = r.chance(.5) ? k : k * r.unit() * .01; set(sl[i], u + e); set(sl[j], v - e); break; }
    case 3: if (r.chance(.4)) { set(sl[i], -u); set(sl[j], -v); } else { double f = r.chance(.5) ? 2 : .5; set(sl[i], u * f); set(sl[j], v / f); } break;
    case 4: set(sl[i], u + k * m); break;
    case 5: set(sl[i], std::floor(u) + (sl[i].type == AT_i ? 1 : r.unit())); break;
    case 6: set(sl[i], u - std::floor(u) + (sl[i].type == AT_i ? -1 : r.range(-3, 70))); break;
    default: {
        int a = sl[i].arg; size_t n = o.a[a].size() / elemSize(sl[i].type);
        if (!isFloat(FNS[o.fn].args[a].type) || n < 2) { set(sl[i], v); break; }
        Blob c = o.a[a]; int ft = sl[i].type;
        if (n == 9 && r.chance(.6)) for (int x = 0; x < 9; x++) putF(o.a[a], ft, x, getF(c, ft, (x % 3) * 3 + x / 3));
        else if (r.chance(.5)) for (size_t x = 0; x < n; x++) putF(o.a[a], ft, x, getF(c, ft, (x + 1) % n));
        else if (r.chance(.5)) for (size_t x = 0; x < n; x++) putF(o.a[a], ft, x, -getF(c, ft, x));
        else for (size_t x = 0; x < n; x++) putF(o.a[a], ft, x, getF(c, ft, n - 1 - x));
    } }
    return true;
}
Op mutateOp(const Op& src, Rng& r) {
    Op o = src;
    const FnDesc& d = FNS[o.fn];
    std::vector<int> in;
    for (int i = 0; i < d.nargs; i++) {
        if (d.args[i].mode == AM_o) { if (r.chance(.7)) o.a[i] = garbage(o.a[i].size(), r); }
        else if (d.custom == CG_none || isFloat(d.args[i].type) || d.custom == CG_obs) in.push_back(i);
    }
    o.scrib = r.next() | 1;
    if (r.chance(.2) && collideOp(o, r)) return o;
    int k = in.empty() ? 0 : r.chance(.75) ? 1 : 2;
    while (k-- > 0) {
        int i = in[r.below((uint32_t) in.size())];
        const ArgDesc& a = d.args[i];
        Blob& b = o.a[i];
        if (d.custom == CG_obs) { Op f = genOp(o.fn, r); o.a[i] = f.a[i]; continue; }
        if (isFloat(a.type) && !b.empty()) {
            int ft = isF(a.type) ? AT_f : AT_d;
            size_t n = b.size() / elemSize(ft), e = r.below((uint32_t) n);
            double v = getF(b, ft, e);
            if (n == 1 && r.chance(.4)) v = value(o.fn, a.kind, r);
            else if (r.chance(.2)) { b = d.custom == CG_none ? genArg(o.fn, a, r) : b; continue; }
            else if (r.chance(.2)) { size_t e2 = r.below((uint32_t) n); putF(b, ft, e, getF(b, ft, e2)); putF(b, ft, e2, v); continue; }
            else if (ft == AT_f && r.chance(.3)) { float f = (float) v; f = std::nextafterf(f, r.chance(.5) ? 1e30f : -1e30f); v = f; }
            else v = nudge(v, r);
            if (a.kind == AK_eps && !(v >= 1e-12)) v = 1e-8;
            if (a.kind == AK_wsec && std::fabs(v) > 2147483520.0) v = 7;
            if (!std::isfinite(v)) v = 1;
            putF(b, ft, e, v);
        } else if (d.custom == CG_none) {
            if (a.type == AT_i && r.chance(.6)) { int v; memcpy(&v, b.data(), 4); v += r.chance(.5) ? 1 : -1; if (a.kind == AK_ndp && v > 9) v = 2; if (a.kind == AK_ndp4 && v > 6) v = 2; b = scalar(v); }
            else b = genArg(o.fn, a, r);
        }
    }
    return o;
}

// ---------------------------------------------------------------- text
std::string hex(const Blob& b) {
    static const char* H = "0123456789abcdef";
    std::string s;
    for (uint8_t c : b) { s += H[c >> 4]; s += H[c & 15]; }
    return s.empty() ? "-" : s;
}
Blob unhex(const std::string& s) {
    Blob b;
    if (s == "-") return b;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t) (v(s[i]) << 4 | v(s[i + 1])));
    return b;
}
std::string opText(const Op& op) {
    const FnDesc& d = FNS[op.fn];
    std::string s = std::string(d.name) + "(";
    char t[64];
    for (int i = 0; i < d.nargs; i++) {
        const ArgDesc& a = d.args[i];
        if (i) s += ", ";
        if (a.mode == AM_o) { s += "out"; continue; }
        if (a.type == AT_st) { s += op.a[i].empty() ? "null" : "\"" + std::string((const char*) op.a[i].data()) + "\""; continue; }
        size_t es = elemSize(a.type), n = op.a[i].size() / es;
        if (n > 1) s += "{";
        for (size_t k = 0; k < n && k < 24; k++) {
            if (k) s += ",";
            if (isFloat(a.type)) snprintf(t, sizeof t, "%.17g", getF(op.a[i], isF(a.type) ? AT_f : AT_d, k));
            else if (es == 4) { int v; memcpy(&v, &op.a[i][4 * k], 4); snprintf(t, sizeof t, "%d", v); }
            else if (a.type == AT_c) snprintf(t, sizeof t, "'%c'", op.a[i][k]);
            else snprintf(t, sizeof t, "%d", op.a[i][k]);
            s += t;
        }
        if (n > 24) s += ",...";
        if (n > 1) s += "}";
    }
    return s + ")";
}
