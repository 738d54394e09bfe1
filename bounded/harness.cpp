// Bounded contract check of the compiled C++ library: evaluates the contracts (as executable oracles
// written independently of the library) on enumerated and random inputs, under ASan/UBSan.
// usage: harness <group> <level 0|1|2> <seed>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <iostream>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "hermite/iterators.hpp"
#include "hermite/lib.hpp"
#include "hermite/hermite.hpp"
#include "hermite/transform.hpp"
#include "hermite/discretize.hpp"
#include "hermite/inner.hpp"
#include "hermite/project.hpp"
#include "hermite/tensorize.hpp"
#include "hermite/varf.hpp"
#include "hermite/sparse.hpp"
#include "hermite/matrix.hpp"
namespace hermite { template <> mat varfd(u_int, u_int, u_int, const mat &, u_int, std::string const &); }
using namespace hermite;
using std::string; using std::vector; using std::ostringstream;

// ---------------------------------------------------------------- bookkeeping
static string g_case; static bool g_done = false; static long g_evals = 0, g_nontrivial = 0; static vector<string> g_samples;
static FILE * g_out = stdout;
[[noreturn]] static void fail(const string & what)
{
    fprintf(g_out, "FAIL %s :: %s\n", g_case.c_str(), what.c_str()); fflush(g_out); g_done = true; _exit(1);
}
static void at_exit() { if (!g_done) { fprintf(g_out, "FAIL %s :: the library terminated the process\n", g_case.c_str()); fflush(g_out); _exit(1); } }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death() { if (!g_done) { fprintf(g_out, "FAIL %s :: sanitizer report (memory error or undefined behaviour)\n", g_case.c_str()); fflush(g_out); } }
static void on_terminate() {
    string w = "uncaught exception";
    try { auto e = std::current_exception(); if (e) std::rethrow_exception(e); } catch (const std::exception & x) { w += string(": ") + x.what(); } catch (...) {}
    fprintf(g_out, "FAIL %s :: %s\n", g_case.c_str(), w.c_str()); fflush(g_out); _exit(1);
}
#include <csignal>
#include <unistd.h>
static void on_alarm(int) { fprintf(g_out, "FAIL %s :: does not terminate (90 s)\n", g_case.c_str()); fflush(g_out); _exit(1); }
static void on_abort(int) { fprintf(g_out, "FAIL %s :: the library aborted (container bounds violation)\n", g_case.c_str()); fflush(g_out); _exit(1); }
template<class T> static string str(const vector<T> & v) { ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << v[i]; } o << "]"; return o.str(); }
template<class T> static string str(const vector<vector<T>> & v) { ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << str(v[i]); } o << "]"; return o.str(); }
static void begin(const string & c, bool nontrivial = true) { alarm(90); g_case = c; g_evals++; if (nontrivial) g_nontrivial++; if (g_samples.size() < 3 || (g_samples.size() < 6 && g_evals % 97 == 0)) g_samples.push_back(c); }
static std::mt19937 rng;
static unsigned rnd(unsigned a, unsigned b) { return a + rng() % (b - a + 1); }
static double rndr() { return (double)(rng() % 2000001) / 1000000. - 1; }
// values of a case: of order one, all of another order of magnitude, of mixed magnitudes, or small integers
static int g_mode = 0; static double g_mag = 1;
static void mode() { g_mode = rnd(0, 5); g_mag = g_mode == 3 ? std::pow(10., -(double) rnd(3, 25)) : g_mode == 4 ? std::pow(10., (double) rnd(3, 20)) : 1; }
static double rv() { return g_mode == 5 ? rndr() * std::pow(10., (double) rnd(0, 40) - 20) : g_mode == 2 ? (double) ((int) rnd(0, 4) - 2) : g_mag * rndr(); }
static bool close(double a, double b, double scale = 1) { return std::isfinite(a) && std::fabs(a - b) <= 1e-9 * (scale + std::fabs(a) + std::fabs(b)); }

// ---------------------------------------------------------------- oracle: index sets and their orders
enum Kind { TRI, CUBE, CROSS, CROSSNC, RECT };
static const Kind KINDS[5] = {TRI, CUBE, CROSS, CROSSNC, RECT};
static const char * NAME[5] = {"triangle", "cube", "cross", "cross_nc", "rectangle"};
typedef unsigned long long ull;
static ull mx1(ull x) { return x < 1 ? 1 : x; }
static ull fac(Kind k, size_t i) { return k == RECT && i ? 2 : 1; }
static bool inset(Kind k, ull d, const ivec & m)
{
    ull s = 0, p = 1;
    for (size_t i = 0; i < m.size(); i++) { s += m[i]; p = std::min<ull>(p * mx1(m[i]), 1ull << 40); }
    switch (k) {
        case TRI: return s <= d;
        case CROSS: case CROSSNC: return p <= mx1(d);
        default: for (size_t i = 0; i < m.size(); i++) if (fac(k, i) * m[i] > d) return false; return true;
    }
}
static vector<ull> key(Kind k, const ivec & m)
{
    vector<ull> r; ull acc;
    switch (k) {
        case TRI: case CROSSNC: acc = 0; for (u_int x : m) r.push_back(acc += x); break;
        case CROSS: for (u_int x : m) r.push_back(x); acc = 1; for (u_int x : m) r.push_back(acc *= mx1(x)); break;
        default: { ull mx = 0, ind = 0; for (size_t i = 0; i < m.size(); i++) { r.push_back(m[i]); if (fac(k, i) * m[i] >= mx) { mx = fac(k, i) * m[i]; ind = i; } } r.push_back(ind); r.push_back(mx); }
    }
    std::reverse(r.begin(), r.end());
    return r;
}
static void gen(Kind k, ull d, ivec & m, size_t i, imat & out)
{
    if (i == m.size()) { out.push_back(m); return; }
    for (u_int x = 0; ; x++) { m[i] = x; if (!inset(k, d, m)) break; gen(k, d, m, i + 1, out); if (x > d + 1) break; }
    m[i] = 0;
}
static imat oracle_list(Kind k, u_int dim, u_int d)
{
    imat out; ivec m(dim, 0); gen(k, d, m, 0, out);
    vector<std::pair<vector<ull>, ivec>> t; for (auto & x : out) t.push_back({key(k, x), x});
    std::sort(t.begin(), t.end()); out.clear(); for (auto & x : t) out.push_back(x.second);
    return out;
}
static size_t pos(const imat & l, const ivec & m) { for (size_t i = 0; i < l.size(); i++) if (l[i] == m) return i; return (size_t) -1; }
static std::map<ivec, size_t> posmap(const imat & l) { std::map<ivec, size_t> r; for (size_t i = 0; i < l.size(); i++) r[l[i]] = i; return r; }
static imat lib_list(Kind k, u_int dim, u_int d) { switch (k) { case TRI: return Triangle_iterator::s_list(dim, d); case CUBE: return Cube_iterator::s_list(dim, d); case CROSS: return Cross_iterator::s_list(dim, d); case CROSSNC: return Cross_iterator_nc::s_list(dim, d); default: return Rectangle_iterator::s_list(dim, d); } }
static u_int lib_size(Kind k, u_int dim, u_int d) { switch (k) { case TRI: return Triangle_iterator::s_size(dim, d); case CUBE: return Cube_iterator::s_size(dim, d); case CROSS: return Cross_iterator::s_size(dim, d); case CROSSNC: return Cross_iterator_nc::s_size(dim, d); default: return Rectangle_iterator::s_size(dim, d); } }
static u_int lib_degree(Kind k, u_int dim, u_int n) { switch (k) { case TRI: return Triangle_iterator::s_get_degree(dim, n); case CUBE: return Cube_iterator::s_get_degree(dim, n); case CROSS: return Cross_iterator::s_get_degree(dim, n); case CROSSNC: return Cross_iterator_nc::s_get_degree(dim, n); default: return Rectangle_iterator::s_get_degree(dim, n); } }
static bool lib_inc(Kind k, ivec & m, u_int d) { switch (k) { case TRI: return Triangle_iterator::s_increment(m, d); case CUBE: return Cube_iterator::s_increment(m, d); case CROSS: return Cross_iterator::s_increment(m, d); case CROSSNC: return Cross_iterator_nc::s_increment(m, d); default: return Rectangle_iterator::s_increment(m, d); } }
static std::unique_ptr<Multi_index_iterator> lib_iter(Kind k, u_int dim, u_int d)
{
    typedef std::unique_ptr<Multi_index_iterator> P;
    switch (k) { case TRI: return P(new Triangle_iterator(dim, d)); case CUBE: return P(new Cube_iterator(dim, d)); case CROSS: return P(new Cross_iterator(dim, d)); case CROSSNC: return P(new Cross_iterator_nc(dim, d)); default: return P(new Rectangle_iterator(dim, d)); }
}
static u_int dmin(Kind k) { return k == CROSS || k == CROSSNC ? 1 : 0; }
// number of elements, or a cap
static ull count_set(Kind k, u_int dim, u_int d, ull cap)
{
    if (k == CUBE || k == RECT) { ull n = 1; for (u_int i = 0; i < dim; i++) { n *= 1 + d / fac(k, i); if (n > cap) return cap + 1; } return n; }
    if (k == TRI) { long double n = 1; for (u_int i = 1; i <= dim; i++) n = n * (d + i) / i; return n > cap ? cap + 1 : (ull)(n + .5L); }
    // hyperbolic cross: number of (m_i) with prod max(1, m_i) <= D
    std::function<ull(u_int, ull)> f = [&](u_int r, ull D) -> ull { if (r == 0) return 1; ull n = 2 * f(r - 1, D); for (ull x = 2; x <= D && n <= cap; x++) n += f(r - 1, D / x); return n; };
    return f(dim, mx1(d));
}
struct Par { Kind k; u_int dim, d; };
static vector<Par> params(ull cap, u_int maxdim, u_int maxdeg, bool deg0 = false)
{
    vector<Par> r;
    for (Kind k : KINDS) for (u_int dim = 1; dim <= maxdim; dim++) for (u_int d = (deg0 && k == CROSSNC) ? 0 : dmin(k); d <= maxdeg; d++) {
        if (count_set(k, dim, d, cap) > cap) break;
        if (k == CROSSNC) { long double t = 1; for (u_int i = 1; i <= dim; i++) t = t * (mx1(d) + dim - 1 + i) / i; if (t > 40.L * cap) break; if (std::pow((long double)(mx1(d) + dim - 1), dim) >= 4294967296.L) break; }
        r.push_back({k, dim, d});
    }
    return r;
}
static string pstr(const Par & p) { ostringstream o; o << "index_set=" << NAME[p.k] << " dim=" << p.dim << " degree=" << p.d; return o.str(); }

// ---------------------------------------------------------------- C01 enumeration
static void g_enum(int lv)
{
    for (auto & p : params(lv ? 60000 : 6000, lv ? 10 : 8, lv ? 260 : 130, true)) {
        begin("list " + pstr(p), p.dim > 1 && p.d > 1);
        imat o = oracle_list(p.k, p.dim, p.d), l = lib_list(p.k, p.dim, p.d);
        if (l.size() != o.size()) { ostringstream w; w << "lists " << l.size() << " multi-indices, the set has " << o.size(); fail(w.str()); }
        for (size_t i = 0; i < l.size(); i++) if (l[i] != o[i]) { ostringstream w; w << "entry " << i << " is " << str(l[i]) << ", expected " << str(o[i]); fail(w.str()); }
        if (lib_size(p.k, p.dim, p.d) != o.size()) { ostringstream w; w << "size is " << lib_size(p.k, p.dim, p.d) << ", the set has " << o.size(); fail(w.str()); }
        auto it = lib_iter(p.k, p.dim, p.d);
        if (it->size() != o.size()) fail("size() of the iterator object");
        for (int pass = 0; pass < 3; pass++) {
            if (pass == 2) { for (size_t q = 0; q < o.size() / 2; q++) it->increment(); it->reset(); }
            size_t n = 0; for (; !it->isFull(); it->increment(), n++) { if (n >= o.size()) fail("traversal does not end"); if (it->get() != o[n]) { ostringstream w; w << "traversal " << pass << ", step " << n << ": " << str(it->get()); fail(w.str()); } for (u_int i = 0; i < p.dim; i++) if ((*it)[i] != (int) o[n][i]) fail("operator[]"); }
            if (n != o.size()) fail("traversal ends early"); it->reset();
        }
        if (it->getList() != o) fail("getList()");
        ivec m(p.dim, 0); size_t n = 0; while (!lib_inc(p.k, m, p.d)) { n++; if (n >= o.size() || m != o[n]) { ostringstream w; w << "successor number " << n << " is " << str(m); fail(w.str()); } }
        if (n + 1 != o.size()) fail("increment reports the end too early");
    }
    // closed-form sizes, far beyond what can be enumerated
    for (u_int dim = 1; dim <= 12; dim++) for (u_int d = 0; d <= 250; d++) for (Kind k : {TRI, CUBE, RECT}) {
        ull n = count_set(k, dim, d, 0xffffffffull); if (n > 0xffffffffull) continue;
        Par p{k, dim, d}; begin("size " + pstr(p), dim > 1 && d > 1);
        if (lib_size(k, dim, d) != n) { ostringstream w; w << "size is " << lib_size(k, dim, d) << ", the set has " << n; fail(w.str()); }
    }
    // single steps from arbitrary members
    for (int t = 0; t < (lv ? 20000 : 4000); t++) {
        Kind k = KINDS[rnd(0, 4)]; u_int dim = rnd(1, k == CROSSNC ? 3 : 6), d = rnd(std::max(1u, dmin(k)), k == CROSSNC ? 40 : 60); ivec m(dim, 0);
        for (int s = 0; s < 8; s++) { u_int i = rnd(0, dim - 1), old = m[i]; m[i] = rnd(0, d); if (!inset(k, d, m)) m[i] = old; }
        begin("successor " + pstr({k, dim, d}) + " m=" + str(m));
        ivec x = m; bool full = lib_inc(k, x, d);
        if (!full) { if (!inset(k, d, x)) fail("leaves the set: " + str(x)); if (!(key(k, m) < key(k, x))) fail("not after its predecessor: " + str(x));
            // nothing in between: try neighbours of the pair
            for (int s = 0; s < 60; s++) { ivec y = rnd(0, 1) ? m : x; for (int c = rnd(1, 3); c--; ) { u_int i = rnd(0, dim - 1); y[i] = rnd(0, 2) ? rnd(0, d) : std::max(0, (int) y[i] + (int) rnd(0, 2) - 1); } if (inset(k, d, y) && key(k, m) < key(k, y) && key(k, y) < key(k, x)) fail("skips " + str(y)); } }
    }
}
// ---------------------------------------------------------------- C02 lookup
static void g_lookup(int lv)
{
    for (auto & p : params(lv ? 20000 : 3000, lv ? 9 : 7, lv ? 200 : 120, true)) {
        imat o = oracle_list(p.k, p.dim, p.d); auto it = lib_iter(p.k, p.dim, p.d);
        begin("lookup " + pstr(p), p.dim > 1);
        for (size_t i = 0; i < o.size(); i++) {
            g_case = "lookup " + pstr(p) + " m=" + str(o[i]); g_evals++;
            if (!it->has(o[i])) fail("has() denies a member");
            if (it->index(o[i]) != i) { ostringstream w; w << "index() is " << it->index(o[i]) << ", position is " << i; fail(w.str()); }
            u_int j = i; if (p.k == TRI) j = Triangle_iterator::s_index(o[i]); if (p.k == CUBE) j = Cube_iterator::s_index(o[i]);
            if (j != i) { ostringstream w; w << "closed-form index is " << j << ", position is " << i; fail(w.str()); }
        }
        for (int t = 0; t < 40; t++) {
            ivec m = o[rnd(0, o.size() - 1)]; m[rnd(0, p.dim - 1)] += rnd(1, 12); if (rnd(0, 3) == 0) for (auto & x : m) x = rnd(0, p.d + 11);
            g_case = "has " + pstr(p) + " m=" + str(m); g_evals++;
            if (it->has(m) != inset(p.k, p.d, m)) fail("has() is wrong");
            // far outside (entries that coincide modulo a power of two, of ten) and of another length
            ivec q = o[rnd(0, o.size() - 1)]; u_int i0 = rnd(0, p.dim - 1); static const u_int OFF[8] = {10, 100, 256, 1000, 65536, 128, 64, 16777216}; q[i0] += OFF[rnd(0, 7)];
            g_case = "has " + pstr(p) + " m=" + str(q); if (it->has(q) != inset(p.k, p.d, q)) fail("has() is wrong");
            ivec r = o[rnd(0, o.size() - 1)]; if (rnd(0, 1)) r.push_back(rnd(0, 1)); else r.pop_back();
            g_case = "has " + pstr(p) + " m=" + str(r); if (it->has(r)) fail("has() accepts a multi-index of another dimension");
            if (it->get() != o[0] || it->isFull()) fail("looking up moves the iterator");
        }
    }
    // closed forms on large entries, against counting
    for (int t = 0; t < (lv ? 4000 : 800); t++) {
        u_int dim = rnd(1, 9); ivec m(dim); u_int top = dim > 6 ? 8 : dim > 4 ? 20 : dim > 3 ? 60 : dim > 2 ? 300 : 1500; for (auto & x : m) x = rnd(0, top);
        begin("triangle index m=" + str(m));
        long double r = 0; ull s = 0; for (u_int i = 0; i < dim; i++) { s += m[i]; if (s) { long double b = 1; for (u_int j = 1; j <= i + 1; j++) b = b * (s - 1 + j) / j; r += b; } }
        if (r < 4294967295.L && Triangle_iterator::s_index(m) != (ull)(r + .5L)) { ostringstream w; w << "closed-form index is " << Triangle_iterator::s_index(m) << ", position is " << (ull)(r + .5L); fail(w.str()); }
        // cube: position = number of smaller elements, counted by the order's own definition
        begin("cube index m=" + str(m));
        ull mx = 0, ind = 0; for (u_int i = 0; i < dim; i++) if (m[i] >= mx) { mx = m[i]; ind = i; }
        __int128 n = 1; for (u_int i = 0; i < dim; i++) n *= mx;
        for (u_int w = 0; w < ind; w++) { __int128 c = 1; for (u_int i = 0; i < dim; i++) if (i != w) c *= i < w ? mx + 1 : mx; n += c; }
        __int128 f = 1; for (u_int i = 0; i < dim; i++) { if (i == ind) continue; n += f * m[i]; f *= i < ind ? mx + 1 : mx; }
        if (n < 4294967295LL && Cube_iterator::s_index(m) != (ull) n) { ostringstream w; w << "closed-form index is " << Cube_iterator::s_index(m) << ", position is " << (ull) n; fail(w.str()); }
    }
}
// ---------------------------------------------------------------- C03 nested orderings
static void g_nested(int lv)
{
    for (auto & p : params(lv ? 60000 : 8000, lv ? 9 : 7, lv ? 250 : 100)) {
        if (p.k == CROSSNC || p.d == dmin(p.k)) continue;
        begin("prefix " + pstr(p), p.dim > 1);
        imat big = lib_list(p.k, p.dim, p.d);
        for (u_int e : {p.d - 1, dmin(p.k) + (p.d - dmin(p.k)) / 2}) { imat small = lib_list(p.k, p.dim, e); if (small.size() > big.size() || !std::equal(small.begin(), small.end(), big.begin())) { ostringstream w; w << "the enumeration for degree " << e << " is not a prefix"; fail(w.str()); } }
    }
}
// ---------------------------------------------------------------- C04 degree recovery
static void g_degree(int lv)
{
    for (u_int dim = 1; dim <= 9; dim++) for (Kind k : KINDS) for (u_int d = dmin(k); d <= 250; d++) {
        ull cap = k == CROSSNC ? (lv ? 6000 : 1200) : k == CROSS ? (lv ? 60000 : 12000) : 0xffffffffull;
        if (k == CROSS && dim > (lv ? 5u : 3u)) break;
        if (k == CROSSNC && (dim > 4 || d > (dim == 1 ? 250 : dim == 2 ? 40 : dim == 3 ? 16 : 8))) break;
        if (k == CROSS && d > 12 && d % (lv ? 7 : 31)) continue;
        ull n = count_set(k, dim, d, cap); if (n > cap) break;
        begin("degree " + pstr({k, dim, d}), dim > 1 && d > 1);
        u_int r = lib_degree(k, dim, (u_int) n); if (r != d) { ostringstream w; w << "recovered " << r << " from " << n << " polynomials"; fail(w.str()); }
    }
    for (u_int dim = 1; dim <= 8; dim++) for (u_int d = 0; d <= 60; d++) {
        if (d == 0 && dim > 1) continue; if (d == 0) continue;
        ull n = count_set(TRI, dim, d, 0xffffffffull); if (n > 0xffffffffull) break;
        begin("find dimension " + pstr({TRI, dim, d}));
        if (Triangle_iterator::s_find_dim(d, (u_int) n) != dim) fail("wrong dimension");
    }
}
// ---------------------------------------------------------------- C05 grids
static double probe(double * v) { return 1.25 * v[0] - 0.5; }
static double probe2(double * v) { return v[0] + 3 * v[1] * v[1] - v[0] * v[1]; }
static double probe3(double * v) { return v[0] - 2 * v[1] + v[2] * v[0] + v[1] * v[2]; }
static double lin1(double * v) { return 1.25 * v[0]; }
static double lin2(double * v) { return v[0] - 3.5 * v[1]; }
static double lin3(double * v) { return v[0] - 2.5 * v[1] + 0.75 * v[2]; }
static void g_grid(int lv)
{
    for (int t = 0; t < (lv ? 3000 : 500); t++) {
        u_int dim = rnd(1, 5); ivec n(dim); for (auto & x : n) x = rnd(1, dim > 3 ? 4 : 7);
        begin("grid " + str(n), dim > 1);
        imat l = Grid_iterator::list(n); size_t tot = 1; for (u_int x : n) tot *= x;
        if (l.size() != tot) fail("wrong number of grid points");
        Grid_iterator g(n);
        for (size_t i = 0; i < tot; i++) { ivec e(dim); size_t r = i; for (u_int j = dim; j-- > 0; ) { e[j] = r % n[j]; r /= n[j]; } if (l[i] != e) fail("point " + std::to_string(i) + " is " + str(l[i])); if (g.index(e) != i) fail("index of " + str(e)); }
    }
    s_func F[3] = {probe, probe2, probe3};
    for (int t = 0; t < (lv ? 1500 : 300); t++) {
        u_int dim = rnd(1, 3); mat nodes(dim); for (auto & x : nodes) { x.resize(rnd(1, 5)); for (auto & y : x) y = rndr(); }
        vec tr(dim); for (auto & x : tr) x = rndr(); mat di(dim, vec(dim)); for (auto & r : di) for (auto & x : r) x = rndr();
        begin("discretize nodes=" + str(nodes) + " translation=" + str(tr) + " dilation=" + str(di), dim > 1);
        vec r = discretize(F[dim - 1], nodes, tr, di); size_t tot = 1; for (auto & x : nodes) tot *= x.size();
        if (r.size() != tot) fail("wrong number of values");
        for (size_t i = 0; i < tot; i++) { vec x(dim); size_t q = i; for (u_int j = dim; j-- > 0; ) { x[j] = nodes[j][q % nodes[j].size()]; q /= nodes[j].size(); } vec y(dim); for (u_int a = 0; a < dim; a++) { y[a] = tr[a]; for (u_int b = 0; b < dim; b++) y[a] += di[a][b] * x[b]; } if (!close(r[i], F[dim - 1](y.data()))) fail("value at point " + std::to_string(i)); }
        // other orders of magnitude
        mode(); for (auto & x : nodes) for (auto & y : x) y = rv(); mode(); for (auto & x : tr) x = rv(); mode(); for (auto & q : di) for (auto & x : q) x = rv();
        begin("discretize nodes=" + str(nodes) + " translation=" + str(tr) + " dilation=" + str(di), dim > 1);
        s_func L[3] = {lin1, lin2, lin3}; r = discretize(L[dim - 1], nodes, tr, di); if (r.size() != tot) fail("wrong number of values");
        for (size_t i = 0; i < tot; i++) { vec x(dim); size_t q = i; for (u_int j = dim; j-- > 0; ) { x[j] = nodes[j][q % nodes[j].size()]; q /= nodes[j].size(); } vec y(dim); double sc = 0; for (u_int a = 0; a < dim; a++) { y[a] = tr[a]; sc += std::fabs(tr[a]); for (u_int b = 0; b < dim; b++) { y[a] += di[a][b] * x[b]; sc += std::fabs(di[a][b] * x[b]); } } if (!(std::fabs(r[i] - L[dim - 1](y.data())) <= 1e-10 * sc)) fail("value at point " + std::to_string(i)); }
    }
}
// ---------------------------------------------------------------- C06 basis functions
static double herm(u_int n, double x) { long double a = 1, b = x; if (n == 0) return 1; for (u_int i = 1; i < n; i++) { long double c = x * b - i * a; a = b; b = c; } for (u_int i = 2; i <= n; i++) b /= std::sqrt((long double) i); return (double) b; }
static double basis(int fourier, u_int n, double x) { if (!fourier) return herm(n, x); u_int k = (n + 1) / 2; return n == 0 ? 1 / std::sqrt(2 * M_PI) : (n % 2 ? std::sin(k * x) : std::cos(k * x)) / std::sqrt(M_PI); }
static void g_hermite(int lv)
{
    for (u_int d = 0; d <= (lv ? 300 : 120); d++) for (int t = 0; t < 6; t++) {
        double x = t == 0 ? 0. : t == 1 ? 1. : rndr() * (t < 4 ? 2 : 6); vec v(d + 1, 0.);
        begin("hermite_eval degree=" + std::to_string(d) + " x=" + std::to_string(x), d > 1);
        hermite_eval(x, d, v);
        for (u_int n = 0; n <= d; n++) { double sc = 1; if (n > 1) sc = std::fabs(v[n - 1]) + std::fabs(v[n - 2]); if (std::fabs(v[n] - herm(n, x)) > 1e-8 * (1 + sc)) { ostringstream w; w << "h_" << n << " is " << v[n] << ", expected " << herm(n, x); fail(w.str()); } }
    }
}
// ---------------------------------------------------------------- C07 transform, integrate
struct Grid { mat nodes, weights; ivec fourier; size_t tot; };
static Grid rgrid(u_int dim, u_int maxp, bool allow_f) { Grid g; g.nodes.resize(dim); g.weights.resize(dim); g.fourier.resize(dim); g.tot = 1; for (u_int i = 0; i < dim; i++) { u_int n = rnd(1, maxp); g.nodes[i].resize(n); g.weights[i].resize(n); for (auto & x : g.nodes[i]) x = 2 * rndr(); for (auto & x : g.weights[i]) x = rndr(); g.fourier[i] = allow_f ? rnd(0, 1) : 0; g.tot *= n; } return g; }
static vec otransform(Kind k, u_int d, const vec & in, const Grid & g, bool fwd, vec * S = nullptr)
{
    u_int dim = g.nodes.size(); imat l = oracle_list(k, dim, d); vec out(fwd ? l.size() : g.tot, 0.); if (S) S->assign(out.size(), 0.);
    for (size_t i = 0; i < g.tot; i++) { ivec p(dim); size_t q = i; for (u_int j = dim; j-- > 0; ) { p[j] = q % g.nodes[j].size(); q /= g.nodes[j].size(); } double w = 1; for (u_int j = 0; j < dim; j++) w *= g.weights[j][p[j]];
        for (size_t a = 0; a < l.size(); a++) { double v = 1; for (u_int j = 0; j < dim; j++) v *= basis(g.fourier[j], l[a][j], g.nodes[j][p[j]]); if (S) { double b = 1; for (u_int j = 0; j < dim; j++) b *= 1 + std::fabs(basis(g.fourier[j], l[a][j], g.nodes[j][p[j]])); (*S)[fwd ? a : i] += 10 * b * (fwd ? std::fabs(in[i] * w) : std::fabs(in[a])); } if (fwd) out[a] += in[i] * w * v; else out[i] += in[a] * v; } }
    return out;
}
static string gstr(const Grid & g) { return " nodes=" + str(g.nodes) + " weights=" + str(g.weights) + " fourier=" + str(g.fourier); }
// entrywise relative comparison; S: sum of the absolute values of the terms of each entry (of the value itself when it is a single product or a copy)
static void cmpr(const vec & a, const vec & b, const vec & S, const string & what) { if (a.size() != b.size()) fail(what + ": wrong length"); for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-10 * std::fabs(S[i]))) { ostringstream w; w.precision(15); w << what << ": entry " << i << " is " << a[i] << ", expected " << b[i]; fail(w.str()); } }
static void cmpx(const vec & a, const vec & b, const string & what) { cmpr(a, b, b, what); }
static void cmpxm(const mat & a, const mat & b, const string & what) { if (a.size() != b.size()) fail(what + ": wrong number of rows"); for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) fail(what + ": wrong number of columns"); cmpr(a[i], b[i], b[i], what + ": row " + std::to_string(i)); } }
static void cmp(const vec & a, const vec & b, const string & what) { if (a.size() != b.size()) fail(what + ": wrong length"); double s = 1; for (double x : b) s = std::max(s, std::fabs(x)); for (size_t i = 0; i < a.size(); i++) if (!close(a[i], b[i], s)) { ostringstream w; w.precision(15); w << what << ": entry " << i << " is " << a[i] << ", expected " << b[i]; fail(w.str()); } }
static void g_transform(int lv)
{
    for (int t = 0; t < (lv ? 3000 : 700); t++) {
        Kind k = KINDS[t % 5]; u_int dim = rnd(1, 4), d = rnd(dmin(k), dim == 1 ? 9 : dim == 2 ? 6 : 3); bool f = rnd(0, 1) && d % 2 == 0;
        Grid g = rgrid(dim, dim > 2 ? 3 : 5, f); bool fwd = rnd(0, 1); size_t n = oracle_list(k, dim, d).size(); vec in(fwd ? g.tot : n), S; mode(); for (auto & x : in) x = rv(); if (rnd(0, 2) == 0) { mode(); for (auto & r : g.weights) for (auto & x : r) x = rv(); }
        begin(string("transform ") + (fwd ? "forward " : "backward ") + pstr({k, dim, d}) + gstr(g) + " input=" + str(in), dim > 1);
        vec e0 = otransform(k, d, in, g, fwd, &S); cmpr(transform(d, in, g.nodes, g.weights, g.fourier, fwd, NAME[k]), e0, S, "transform");
        begin("integrate" + gstr(g), dim > 1); vec h(g.tot); mode(); for (auto & x : h) x = rv(); g_case += " input=" + str(h);
        double e = 0, ea = 0; for (size_t i = 0; i < g.tot; i++) { double w = h[i]; size_t q = i; for (u_int j = dim; j-- > 0; ) { w *= g.weights[j][q % g.nodes[j].size()]; q /= g.nodes[j].size(); } e += w; ea += std::fabs(w); }
        double r = integrate(h, g.nodes, g.weights, g.fourier); if (!(std::fabs(r - e) <= 1e-10 * ea)) { ostringstream w; w << "integral is " << r << ", expected " << e; fail(w.str()); }
    }
}
// ---------------------------------------------------------------- C08, C09 triple products
static double htriple(u_int i, u_int j, u_int k) { u_int s = i + j + k; if (s % 2) return 0; s /= 2; if (s < i || s < j || s < k) return 0; auto lf = [](u_int n) { return std::lgamma((double) n + 1); }; return std::exp(.5 * (lf(i) + lf(j) + lf(k)) - lf(s - i) - lf(s - j) - lf(s - k)); }
static double ftriple(u_int a, u_int b, u_int c)
{
    // product-to-sum on exponentials: trapezoidal rule with enough points is exact
    u_int n = 2 * ((a + b + c) / 2 + 3) + 1; double s = 0; for (u_int t = 0; t < n; t++) { double x = 2 * M_PI * t / n; s += basis(1, a, x) * basis(1, b, x) * basis(1, c, x); } return s * 2 * M_PI / n;
}
static void g_triple(int lv)
{
    for (u_int d = 0; d <= (lv ? 40 : 24); d++) {
        begin("triple_products degree=" + std::to_string(d), d > 1); cube p = triple_products_1d(d);
        if (p.size() != 2 * d + 1) fail("first extent");
        for (u_int k = 0; k <= 2 * d; k++) for (u_int i = 0; i <= d; i++) for (u_int j = 0; j <= d; j++) { g_evals++; double e = htriple(i, j, k); if (p[k].size() != d + 1 || p[k][i].size() != d + 1) fail("extent"); if (std::fabs(p[k][i][j] - e) > 1e-7 * (1 + std::fabs(e))) { ostringstream w; w << "entry [" << k << "][" << i << "][" << j << "] is " << p[k][i][j] << ", expected " << e; fail(w.str()); } }
    }
}
static void g_fourier(int lv)
{
    for (u_int d = 0; d <= (lv ? 40 : 22); d += 2) {
        begin("triple_products_fourier degree=" + std::to_string(d), d > 1); cube p = triple_products_fourier(d);
        if (p.size() != 2 * d + 1) fail("first extent");
        for (u_int k = 0; k <= 2 * d; k++) for (u_int i = 0; i <= d; i++) for (u_int j = 0; j <= d; j++) { g_evals++; double e = ftriple(k, i, j); if (std::fabs(p[k][i][j] - e) > 1e-9) { ostringstream w; w << "entry [" << k << "][" << i << "][" << j << "] is " << p[k][i][j] << ", expected " << e; fail(w.str()); } }
    }
}
// ---------------------------------------------------------------- matrices
static mat dense(const spmat & a) { mat r(a.size1(), vec(a.size2(), 0.)); for (u_int i = 0; i < a.size1(); i++) for (u_int j = 0; j < a.size2(); j++) r[i][j] = a(i, j); return r; }
static mat dense(const boost_mat & a) { mat r(a.size1(), vec(a.size2(), 0.)); for (u_int i = 0; i < a.size1(); i++) for (u_int j = 0; j < a.size2(); j++) r[i][j] = a(i, j); return r; }
static mat dense(const mat & a) { return a; }
static spmat mksp(const mat & a) { spmat r(a.size(), a.size() ? a[0].size() : 0); for (u_int i = 0; i < a.size(); i++) for (u_int j = 0; j < a[i].size(); j++) if (a[i][j] != 0) r.insert_element(i, j, a[i][j]); return r; }
static boost_mat mkb(const mat & a) { boost_mat r(a.size(), a[0].size()); for (u_int i = 0; i < a.size(); i++) for (u_int j = 0; j < a[i].size(); j++) r(i, j) = a[i][j]; return r; }
static mat rmat(u_int n, u_int m, int density)
{
    mode(); mat r(n, vec(m, 0.)); for (auto & x : r) for (auto & y : x) if ((int) rnd(1, 100) <= density) y = rv();
    u_int q = rnd(0, 9); // some structure: symmetric (but for one entry), diagonal, triangular
    if (n == m && q == 0) for (u_int i = 0; i < n; i++) for (u_int j = 0; j < i; j++) r[i][j] = r[j][i];
    if (n == m && q == 1) { for (u_int i = 0; i < n; i++) for (u_int j = 0; j < i; j++) r[i][j] = r[j][i]; r[rnd(0, n - 1)][rnd(0, n - 1)] = rv(); }
    if (q == 2) for (u_int i = 0; i < n; i++) for (u_int j = 0; j < m; j++) if (i != j) r[i][j] = 0;
    if (q == 3) for (u_int i = 0; i < n; i++) for (u_int j = 0; j < m; j++) if (rnd(0, 1) ? i < j : i <= j) r[i][j] = 0;
    return r;
}
static void cmpm(const mat & a, const mat & b, const string & what) { if (a.size() != b.size()) fail(what + ": wrong number of rows"); double s = 1; for (auto & r : b) for (double x : r) s = std::max(s, std::fabs(x)); for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) fail(what + ": wrong number of columns"); for (size_t j = 0; j < a[i].size(); j++) if (!close(a[i][j], b[i][j], s)) { ostringstream w; w.precision(15); w << what << ": entry (" << i << "," << j << ") is " << a[i][j] << ", expected " << b[i][j]; fail(w.str()); } } }
static ivec sub(const ivec & m, const ivec & dirs) { ivec r; for (u_int d : dirs) r.push_back(m[d]); return r; }

// ---------------------------------------------------------------- C10 varf
static void cmps(const mat & a, const mat & b, double s, const string & what) { if (a.size() != b.size()) fail(what + ": wrong number of rows"); for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) fail(what + ": wrong number of columns"); for (size_t j = 0; j < a[i].size(); j++) if (!(std::fabs(a[i][j] - b[i][j]) <= s)) { ostringstream w; w.precision(15); w << what << ": entry (" << i << "," << j << ") is " << a[i][j] << ", expected " << b[i][j]; fail(w.str()); } } }
static void g_varf(int lv)
{
    for (int t = 0; t < (lv ? 900 : 220); t++) {
        Kind k = KINDS[t % 5]; u_int dim = rnd(1, 3), d = rnd(dmin(k), dim == 1 ? 7 : dim == 2 ? 4 : 2); bool f = rnd(0, 1) && d % 2 == 0; Grid g = rgrid(dim, dim > 2 ? 3 : 5, f);
        // magnitudes: coefficients are dropped relative to max(1, norm), never because of their absolute size alone
        double sc = t % 3 ? 1 : std::pow(10., (double) rnd(0, 20) - 10); vec in(g.tot); for (auto & x : in) x = rndr() * sc;
        begin("varf " + pstr({k, dim, d}) + gstr(g) + " input=" + str(in), dim > 1);
        imat l = oracle_list(k, dim, d), l2 = oracle_list(k, dim, 2 * d); vec H = otransform(k, 2 * d, in, g, true); mat e(l.size(), vec(l.size(), 0.));
        double nrm = 0, thr, big = 0; for (double x : H) { nrm += x * x; big = std::max(big, std::fabs(x)); } thr = 1e-12 * std::max(1., std::sqrt(nrm));
        for (size_t a = 0; a < l2.size(); a++) { if (std::fabs(H[a]) < thr) continue; for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l.size(); j++) { double v = H[a]; for (u_int q = 0; q < dim && v != 0; q++) v *= g.fourier[q] ? ftriple(l2[a][q], l[i][q], l[j][q]) : htriple(l2[a][q], l[i][q], l[j][q]); e[i][j] += v; } }
        double m = big; for (auto & r : e) for (double x : r) m = std::max(m, std::fabs(x));
        double tol = 1e-9 * m + 10 * thr; // a coefficient at the threshold may fall on either side
        cmps(dense(varf<spmat>(d, in, g.nodes, g.weights, g.fourier, NAME[k])), e, tol, "sparse varf");
        cmps(dense(varf<boost_mat>(d, in, g.nodes, g.weights, g.fourier, NAME[k])), e, tol, "dense varf");
        cmps(varf<mat>(d, in, g.nodes, g.weights, g.fourier, NAME[k]), e, tol, "nested-vector varf");
    }
}
// ---------------------------------------------------------------- C11 varfd
static void g_varfd(int lv)
{
    for (int t = 0; t < (lv ? 6000 : 1500); t++) {
        int fo = rnd(0, 1); Kind k = fo ? CUBE : KINDS[t % 5]; u_int dim = rnd(1, 3), d = rnd(dmin(k), dim == 1 ? 10 : dim == 2 ? 5 : 3); if (fo && d % 2) d++; u_int dir = rnd(0, dim - 1);
        imat l = oracle_list(k, dim, d); if (fo && l.size() > 130) continue; auto pm = posmap(l); mat v = rmat(l.size(), l.size(), rnd(0, 2) ? 40 : 100), e(l.size(), vec(l.size(), 0.));
        begin("varfd " + pstr({k, dim, d}) + " direction=" + std::to_string(dir) + " fourier=" + std::to_string(fo) + (l.size() < 8 ? " var=" + str(v) : ""), dim > 1);
        for (size_t j = 0; j < l.size(); j++) { u_int x = l[j][dir]; if (x == 0) continue; ivec q = l[j]; double c; if (!fo) { q[dir] = x - 1; c = std::sqrt((double) x); } else { u_int w = (x + 1) / 2; q[dir] = x % 2 ? x + 1 : x - 1; c = x % 2 ? (double) w : -(double) w; } for (size_t i = 0; i < l.size(); i++) e[i][j] = c * v[i][pm[q]]; }
        cmpxm(dense(varfd<spmat>(dim, d, dir, mksp(v), fo, NAME[k])), e, "sparse varfd");
        cmpxm(dense(varfd<boost_mat>(dim, d, dir, mkb(v), fo, NAME[k])), e, "dense varfd");
        cmpxm(varfd<mat>(dim, d, dir, v, fo, NAME[k]), e, "nested-vector varfd");
    }
}
// ---------------------------------------------------------------- C12, C13 tensorization
static imat rparts(u_int dim, bool shuffled) { imat r; ivec p(dim); for (u_int i = 0; i < dim; i++) p[i] = i; std::shuffle(p.begin(), p.end(), rng); for (u_int i = 0; i < dim; ) { u_int n = rnd(1, dim - i); ivec g(p.begin() + i, p.begin() + i + n); if (!shuffled) std::sort(g.begin(), g.end()); r.push_back(g); i += n; } return r; }
static void g_tvec(int lv)
{
    for (int t = 0; t < (lv ? 6000 : 1500); t++) {
        Kind k = KINDS[t % 5]; u_int dim = rnd(1, 4), d = rnd(dmin(k), dim > 3 ? 3 : 5); if (k == CROSS && t % 2) d = rnd(1, 12) ; if (k == CROSS && dim > 2) d = std::min(d, 8u);
        imat parts = rparts(dim, k != RECT && rnd(0, 1)); mat in; vector<std::map<ivec, size_t>> pm; for (auto & g : parts) { imat l = oracle_list(k, g.size(), d); pm.push_back(posmap(l)); vec v(l.size()); mode(); for (auto & x : v) x = rv(); in.push_back(v); }
        begin("tensorize vectors " + pstr({k, dim, d}) + " dirs=" + str(parts) + (dim < 3 ? " inputs=" + str(in) : ""), dim > 1);
        imat l = oracle_list(k, dim, d); vec e(l.size(), 1.); for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < parts.size(); j++) e[i] *= in[j][pm[j][sub(l[i], parts[j])]];
        cmpx(tensorize_vecs_dirs(in, parts, NAME[k]), e, "tensorize");
        // axes, and a single vector extended by constants
        mat ax(dim, vec(d + 1)); for (auto & r : ax) { mode(); for (auto & x : r) x = rv(); } u_int dir = rnd(0, dim - 1);
        begin("tensorize axes " + pstr({k, dim, d}), dim > 1);
        for (size_t i = 0; i < l.size(); i++) { e[i] = 1; for (u_int j = 0; j < dim; j++) e[i] *= ax[j][l[i][j]]; } cmpx(tensorize_vecs_axes(ax, NAME[k]), e, "tensorize axes");
        begin("tensorize one vector " + pstr({k, dim, d}) + " dir=" + std::to_string(dir), dim > 1);
        for (size_t i = 0; i < l.size(); i++) { e[i] = ax[dir][l[i][dir]]; for (u_int j = 0; j < dim; j++) if (j != dir && l[i][j]) e[i] = 0; } cmpx(tensorize_vec_id(ax[dir], dim, dir, NAME[k]), e, "tensorize one vector");
    }
}
static void g_tmat(int lv)
{
    for (int t = 0; t < (lv ? 2500 : 600); t++) {
        Kind k = KINDS[t % 5]; u_int dim = rnd(1, 4), d = rnd(dmin(k), dim > 3 ? 2 : dim > 2 ? 3 : 5); while (count_set(k, dim, d, 70) > 70) d--; if (d < dmin(k)) continue;
        imat parts = rparts(dim, false); vector<mat> in; vector<spmat> sp; vector<std::map<ivec, size_t>> pm; for (auto & g : parts) { imat l = oracle_list(k, g.size(), d); pm.push_back(posmap(l)); in.push_back(rmat(l.size(), l.size(), rnd(0, 1) ? 50 : 100)); sp.push_back(mksp(in.back())); }
        begin("tensorize matrices " + pstr({k, dim, d}) + " dirs=" + str(parts), dim > 1);
        imat l = oracle_list(k, dim, d); mat e(l.size(), vec(l.size(), 1.));
        for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l.size(); j++) for (size_t q = 0; q < parts.size(); q++) e[i][j] *= in[q][pm[q][sub(l[i], parts[q])]][pm[q][sub(l[j], parts[q])]];
        cmpxm(tensorize_mats_dirs<mat, mat>(in, parts, NAME[k]), e, "tensorize dense->dense"); cmpxm(dense(tensorize_mats_dirs<spmat, mat>(in, parts, NAME[k])), e, "tensorize dense->sparse");
        cmpxm(tensorize_mats_dirs<mat, spmat>(sp, parts, NAME[k]), e, "tensorize sparse->dense"); cmpxm(dense(tensorize_mats_dirs<spmat, spmat>(sp, parts, NAME[k])), e, "tensorize sparse->sparse");
        vector<mat> ax; vector<spmat> asp; for (u_int j = 0; j < dim; j++) { ax.push_back(rmat(d + 1, d + 1, 80)); asp.push_back(mksp(ax.back())); }
        begin("tensorize matrices along axes " + pstr({k, dim, d}), dim > 1);
        for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l.size(); j++) { e[i][j] = 1; for (u_int q = 0; q < dim; q++) e[i][j] *= ax[q][l[i][q]][l[j][q]]; }
        cmpxm(tensorize_mats_axes<mat, mat>(ax, NAME[k]), e, "axes dense->dense"); cmpxm(dense(tensorize_mats_axes<spmat, mat>(ax, NAME[k])), e, "axes dense->sparse"); cmpxm(tensorize_mats_axes<mat, spmat>(asp, NAME[k]), e, "axes sparse->dense"); cmpxm(dense(tensorize_mats_axes<spmat, spmat>(asp, NAME[k])), e, "axes sparse->sparse");
        u_int dir = rnd(0, dim - 1); begin("tensorize one matrix " + pstr({k, dim, d}) + " dir=" + std::to_string(dir), dim > 1);
        for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l.size(); j++) { e[i][j] = ax[dir][l[i][dir]][l[j][dir]]; for (u_int q = 0; q < dim; q++) if (q != dir && l[i][q] != l[j][q]) e[i][j] = 0; }
        cmpxm(tensorize_mat_id<mat, mat>(ax[dir], dim, dir, NAME[k]), e, "one matrix dense->dense"); cmpxm(dense(tensorize_mat_id<spmat, mat>(ax[dir], dim, dir, NAME[k])), e, "one matrix dense->sparse"); cmpxm(tensorize_mat_id<mat, spmat>(asp[dir], dim, dir, NAME[k]), e, "one matrix sparse->dense"); cmpxm(dense(tensorize_mat_id<spmat, spmat>(asp[dir], dim, dir, NAME[k])), e, "one matrix sparse->sparse");
    }
}
// ---------------------------------------------------------------- C14 projection
static void g_project(int lv)
{
    for (int t = 0; t < (lv ? 5000 : 1200); t++) {
        Kind k = KINDS[t % 5]; u_int dim = rnd(1, 4), d = rnd(dmin(k), dim > 3 ? 3 : 6); while (count_set(k, dim, d, 200) > 200) d--; if (d < dmin(k)) continue;
        ivec dirs; for (u_int i = 0; i < dim; i++) if (rnd(0, 1)) dirs.push_back(i); if (dirs.empty()) dirs.push_back(rnd(0, dim - 1)); if (k != RECT && rnd(0, 1)) std::shuffle(dirs.begin(), dirs.end(), rng);
        imat l = oracle_list(k, dim, d), s = oracle_list(k, dirs.size(), d); auto pm = posmap(l); vec in(l.size()); mode(); for (auto & x : in) x = rv(); vec e(s.size(), 0.); mat M = rmat(l.size(), l.size(), 60), E(s.size(), vec(s.size(), 0.));
        vector<long> at(s.size(), -1); for (size_t i = 0; i < s.size(); i++) { ivec m(dim, 0); for (size_t q = 0; q < dirs.size(); q++) m[dirs[q]] = s[i][q]; auto f = pm.find(m); if (f != pm.end()) at[i] = f->second; }
        for (size_t i = 0; i < s.size(); i++) if (at[i] >= 0) { e[i] = in[at[i]]; for (size_t j = 0; j < s.size(); j++) if (at[j] >= 0) E[i][j] = M[at[i]][at[j]]; }
        begin("project " + pstr({k, dim, d}) + " dirs=" + str(dirs), dim > 1);
        cmpx(project_vec_nd(in, dim, dirs, NAME[k]), e, "project vector"); cmpxm(project_mat_nd<mat>(M, dim, dirs, NAME[k]), E, "project matrix"); cmpxm(dense(project_mat_nd<spmat>(mksp(M), dim, dirs, NAME[k])), E, "project sparse matrix");
        if (dirs.size() == 1) { cmpx(project_vec_1d(in, dim, dirs[0], NAME[k]), e, "project vector on one direction"); cmpxm(project_mat_1d<mat>(M, dim, dirs[0], NAME[k]), E, "project matrix on one direction"); cmpxm(dense(project_mat_1d<spmat>(mksp(M), dim, dirs[0], NAME[k])), E, "project sparse matrix on one direction"); }
    }
}
// ---------------------------------------------------------------- C15 inner
static void g_inner(int lv)
{
    for (int t = 0; t < (lv ? 6000 : 1500); t++) {
        Kind k = KINDS[t % 5]; u_int D = rnd(1, 4); ivec d1, d2; u_int base = rnd(0, 2); for (u_int i = 0; i < D; i++) { u_int w = rnd(1, 3); if (w & 1) d1.push_back(base + i); if (w & 2) d2.push_back(base + i); if (rnd(0, 3) == 0) base++; }
        if (d1.empty() || d2.empty()) continue; u_int d = rnd(dmin(k), D > 3 ? 3 : 5); if (k == CROSS && rnd(0, 1)) d = rnd(1, 9);
        imat l1 = oracle_list(k, d1.size(), d), l2 = oracle_list(k, d2.size(), d); vec s1(l1.size()), s2(l2.size()); mode(); for (auto & x : s1) x = rv(); mode(); for (auto & x : s2) x = rv();
        begin("inner " + pstr({k, D, d}) + " dirs1=" + str(d1) + " dirs2=" + str(d2), D > 1);
        ivec dr; for (u_int x : d1) if (std::find(d2.begin(), d2.end(), x) == d2.end()) dr.push_back(x); for (u_int x : d2) if (std::find(d1.begin(), d1.end(), x) == d1.end()) dr.push_back(x); std::sort(dr.begin(), dr.end());
        imat lr = dr.empty() ? imat(1, ivec()) : oracle_list(k, dr.size(), d); auto pr = posmap(lr); vec e(lr.size(), 0.), S(lr.size(), 0.);
        for (size_t a = 0; a < l1.size(); a++) for (size_t b = 0; b < l2.size(); b++) { bool ok = true; for (size_t i = 0; i < d1.size() && ok; i++) for (size_t j = 0; j < d2.size(); j++) if (d1[i] == d2[j] && l1[a][i] != l2[b][j]) ok = false; if (!ok) continue;
            ivec m; for (u_int x : dr) { auto f = std::find(d1.begin(), d1.end(), x); m.push_back(f != d1.end() ? l1[a][f - d1.begin()] : l2[b][std::find(d2.begin(), d2.end(), x) - d2.begin()]); }
            // contracted directions range over the index set as well (it matters for rectangles only)
            ivec c; for (size_t i = 0; i < d1.size(); i++) if (std::find(d2.begin(), d2.end(), d1[i]) != d2.end()) c.push_back(l1[a][i]); if (!c.empty() && !inset(k, d, c)) continue;
            auto f = pr.find(m); if (f != pr.end()) { e[f->second] += s1[a] * s2[b]; S[f->second] += std::fabs(s1[a] * s2[b]); } }
        cmpr(inner(s1, s2, d1, d2, NAME[k]), e, S, "inner");
    }
}
// ---------------------------------------------------------------- C17 sparse formats
static void g_sparse(int lv)
{
    for (int t = 0; t < (lv ? 20000 : 4000); t++) {
        u_int n = rnd(1, 7), m = rnd(1, 7); mat a = rmat(n, m, rnd(0, 3) * 33);
        begin("sparse " + str(a), n > 1 && m > 1);
        spmat s = to_spmat(a); if (s.size1() != n || s.size2() != m) fail("to_spmat: shape"); cmpxm(dense(s), a, "to_spmat"); cmpxm(full(s), a, "full");
        size_t nz = 0; for (auto & r : a) for (double x : r) nz += x != 0; if (s.nnz() != nz) fail("to_spmat stores zeros");
        mat rcv = row_col_val(s); if (rcv.size() != 3 || rcv[0].size() != nz || rcv[1].size() != nz || rcv[2].size() != nz) fail("row_col_val: extents"); mat b(n, vec(m, 0.)); for (size_t i = 0; i < nz; i++) b[(u_int) rcv[0][i]][(u_int) rcv[1][i]] += rcv[2][i]; cmpxm(b, a, "row_col_val");
        vec data; ivec idx, ptr(1, 0); for (u_int i = 0; i < n; i++) { ivec c; for (u_int j = 0; j < m; j++) if (a[i][j] != 0 || rnd(0, 9) == 0) c.push_back(j); if (rnd(0, 2) == 0) std::shuffle(c.begin(), c.end(), rng); for (u_int j : c) { data.push_back(a[i][j]); idx.push_back(j); } ptr.push_back(idx.size()); }
        begin("csr data=" + str(data) + " indices=" + str(idx) + " indptr=" + str(ptr), n > 1);
        spmat q = to_spmat(data, idx, ptr, n, m); if (q.size1() != n || q.size2() != m) fail("shape"); cmpxm(dense(q), a, "to_spmat from csr");
        cmpxm(dense(matrix::convert<boost_mat>(a)), a, "convert to dense matrix"); cmpxm(matrix::convert<mat>(s), a, "convert sparse to nested vectors"); cmpxm(dense(matrix::convert<spmat>(a)), a, "convert to sparse"); cmpxm(matrix::convert<mat>(mkb(a)), a, "convert dense matrix to nested vectors"); cmpxm(dense(matrix::convert<boost_mat>(s)), a, "convert sparse to dense");
        mat id(n, vec(n, 0.)); for (u_int i = 0; i < n; i++) id[i][i] = 1; cmpxm(dense(matrix::eye<spmat>(n)), id, "sparse identity"); cmpxm(matrix::eye<mat>(n), id, "identity");
        ivec v; for (u_int i = 0; i < rnd(1, 5); i++) v.push_back(rnd(0, 3) ? rnd(0, 1) : rnd(0, 1)); u_int dir = rnd(0, 5); bool al = true; for (size_t i = 0; i < v.size(); i++) if (v[i] && i != dir) al = false; if (isAligned(v, dir) != al) fail("isAligned " + str(v));
    }
}
int main(int argc, char ** argv)
{
    if (argc < 4) return 2;
    // the library prints to stdout: keep ours apart
    int fd = dup(1); g_out = fdopen(fd, "w"); if (!freopen("/dev/null", "w", stdout)) return 2;
    std::set_terminate(on_terminate); signal(SIGABRT, on_abort); signal(SIGALRM, on_alarm); atexit(at_exit); if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    string g = argv[1]; int lv = atoi(argv[2]); rng.seed(atoi(argv[3]) * 7919 + 17); g_case = "startup";
    struct { const char * n; void (*f)(int); } T[] = {{"enum", g_enum}, {"lookup", g_lookup}, {"nested", g_nested}, {"degree", g_degree}, {"grid", g_grid}, {"hermite", g_hermite}, {"transform", g_transform}, {"triple", g_triple}, {"fourier", g_fourier}, {"varf", g_varf}, {"varfd", g_varfd}, {"tvec", g_tvec}, {"tmat", g_tmat}, {"project", g_project}, {"inner", g_inner}, {"sparse", g_sparse}};
    bool any = false; for (auto & t : T) if (g == t.n || g == "all") { t.f(lv); any = true; }
    if (!any) { g_done = true; return 2; }
    g_done = true; fprintf(g_out, "DONE %ld %ld\n", g_evals, g_nontrivial); for (auto & s : g_samples) fprintf(g_out, "SAMPLE %s\n", s.substr(0, 300).c_str()); fflush(g_out);
    return 0;
}
