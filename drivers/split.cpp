// Split (OpenMP / MPI) states: operations on the parts, and runs compared with
// the sequential ones.   split TRACE TWIN SEED N
#include "trace.hpp"
#include <random>
#include <memory>
#include <sched.h>
#include <deque>
#include <boost/range/irange.hpp>
#if MPI
#include <boost/mpi.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/mpi/collectives.hpp>
#else
#include <omp.h>
#endif
#include <boost/numeric/odeint.hpp>
#if MPI
#include <boost/numeric/odeint/external/mpi/mpi.hpp>
#else
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
#endif
#include <boost/numeric/odeint/util/split_adaptor.hpp>
using namespace boost::numeric::odeint;
typedef std::vector<double> V;
static std::mt19937 g;
static int rnd(int a, int b) { return a + (int)(g() % (unsigned)(b - a + 1)); }

static std::string js(double v) { return vt::tick_str(v, 1.0); }
template<class R> static std::string jv(const R &v) { std::string s = "["; for (auto it = v.begin(); it != v.end(); ++it) s += (it == v.begin() ? "" : ",") + js(*it); return s + "]"; }
template<class R> static std::string jp(const R &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + jv(v[i]); return s + "]"; }
static void ev(const std::string &s) { vt::tr().raw("[" + s + "]"); }

// a chain: every element depends on its neighbours, time and its place
static double rhs1(double l, double c, double r, size_t i, double t) { return -0.3 * c + 0.25 * (l - c) + 0.2 * (r - c) + std::cos(t + i) + 0.05 * c * c * (i % 3 == 0 ? -1 : 1); }
static void rhsv(const V &x, V &d, double t) {
    for (size_t i = 0; i < x.size(); ++i) d[i] = rhs1(i ? x[i-1] : 0, x[i], i + 1 < x.size() ? x[i+1] : 0, i, t); }
static std::string bits(double v) { uint64_t u; memcpy(&u, &v, 8); u ^= u >> 31; return std::to_string((long)(u % 2147483629ULL)); }
static std::string runname; static std::string rec; static long calls;
static void see(const V &x, double t) { rec += std::string(rec.empty() ? "" : ",") + "[" + bits(t); for (double v : x) rec += "," + bits(v); rec += "]"; }
static void put(FILE *) {}

struct Run { const char *name; int kind; };
static const int KINDS = 8;
static const char *KN[] = {"rk4 const", "dopri5 controlled adaptive", "dopri5 dense const", "fehlberg78 controlled times", "adams_bashforth n_steps", "cash_karp const", "bulirsch_stoer adaptive", "modified_midpoint n_steps"};
template<class S, class Al, class Sys, class Obs> void run_kind(int kind, S &x, Sys sys, Obs obs, double t1) {
    double h = t1 > 0 ? 0.1 : -0.1; size_t n = 0; double te = t1;
    std::vector<double> ts = {0, t1 * 0.13, t1 * 0.5, t1 * 0.5, t1};
    switch (kind) {
    case 0: n = integrate_const(runge_kutta4<S, double, S, double, Al>(), sys, x, 0.0, t1, h, obs); break;
    case 1: n = integrate_adaptive(make_controlled(1e-6, 1e-5, runge_kutta_dopri5<S, double, S, double, Al>()), sys, x, 0.0, t1, h, obs); break;
    case 2: n = integrate_const(make_dense_output(1e-6, 1e-5, runge_kutta_dopri5<S, double, S, double, Al>()), sys, x, 0.0, t1, h, obs); break;
    case 3: n = integrate_times(make_controlled(1e-6, 1e-5, runge_kutta_fehlberg78<S, double, S, double, Al>()), sys, x, ts.begin(), ts.end(), h, obs); break;
    case 4: te = integrate_n_steps(adams_bashforth<3, S, double, S, double, Al>(), sys, x, 0.0, h, 8, obs); break;
    case 5: n = integrate_const(make_controlled(1e-6, 1e-5, runge_kutta_cash_karp54<S, double, S, double, Al>()), sys, x, 0.0, t1, h, obs); break;
    case 6: n = integrate_adaptive(bulirsch_stoer<S, double, S, double, Al>(1e-6, 1e-5), sys, x, 0.0, t1, h, obs); break;
    case 7: te = integrate_n_steps(modified_midpoint<S, double, S, double, Al>(6), sys, x, 0.0, h, 5, obs); break;
    }
    rec += ",[" + std::to_string(n) + "," + bits(te) + "]";
}
static V start(size_t n, int seed) { V v(n); std::mt19937 q(seed); for (auto &a : v) a = (int)(q() % 2001 - 1000) / 500.0; return v; }

#if !MPI
typedef openmp_state<double> S;
static void shaped(S &s, double base) { s.clear(); int k = rnd(0, 4); for (int i = 0; i < k; ++i) { V p(rnd(0, 3)); for (auto &e : p) e = base++; s.push_back(p); } }
static void ops(int n) {
    for (int it = 0; it < n; ++it) {
        vt::tr().begin("{\"n\":" + std::to_string(it) + "}");
        omp_set_num_threads(rnd(1, 6)); omp_set_schedule(rnd(0, 1) ? omp_sched_dynamic : omp_sched_static, 1);
        S x, y; V plain;
        { int len = it < 60 ? it / 5 : rnd(0, 30); for (int i = 0; i < len; ++i) plain.push_back(rnd(-99, 99)); }
        ev("\"plain\"," + jv(plain)); shaped(y, 1000); ev("\"sety\"," + jp(y));
        for (int k = 0; k < 10; ++k) switch (k ? rnd(0, 9) : 0) {
        case 0: { if (!rnd(0, 2)) { shaped(x, 500); ev("\"setx\"," + jp(x)); }
            size_t parts = x.size(); if (!parts) { if (rnd(0, 2)) { parts = it < 60 ? it % 5 + 1 : rnd(1, 9); x = S(parts); } else parts = omp_get_max_threads(); }
            split(plain, x); ev("\"split\"," + std::to_string(parts) + "," + jp(x)); break; }
        case 1: { V to(rnd(0, 5), 77); unsplit(x, to); ev("\"join\"," + jv(to) + "," + jp(x)); plain = to; break; }
        case 2: resize(y, x); ev("\"resize\"," + jp(y)); break;
        case 3: case 4: { bool a = same_size(x, y); ev("\"same\",[" + std::string(a ? "true," : "false,") + (same_size(y, x) ? "true]" : "false]")); break; }
        case 5: if (same_size(x, y)) { boost::numeric::odeint::copy(x, y); ev("\"copy\"," + jp(y) + "," + jp(x)); break; } // fallthrough
        case 6: shaped(x, -7); ev("\"setx\"," + jp(x)); break;
        case 7: { std::vector<V> o; int k2 = rnd(0, 3); for (int i = 0; i < k2; ++i) o.push_back(V(rnd(0, 2), rnd(0, 9)));
            if (rnd(0, 1)) x = S(o); else if (rnd(0, 1)) x = S(o.begin(), o.end()); else { V v(rnd(0, 2), 5); int m = rnd(0, 3); x = S(m, v); o.assign(m, v); }
            ev("\"ctor\"," + jp(x) + "," + jp(o)); break; }
        case 8: { double a = openmp_algebra::norm_inf(x); ev("\"norm\",[" + js(a) + "]"); break; }
        case 9: { int parts = rnd(1, 8); std::vector<V> p, q; const V &cp = plain;
            for (int i = 0; i < parts; ++i) { auto r = cp | detail::split(i, parts); p.push_back(V(r.begin(), r.end())); }
            ev("\"adapt\"," + std::to_string(parts) + "," + jp(p));
            for (int i = 0; i < parts; ++i) { auto r = plain | detail::split(i, parts); for (auto &e : r) e += 1; }
            for (int i = 0; i < parts; ++i) { auto r = detail::make_split_range(plain, i, parts); q.push_back(V(r.begin(), r.end())); }
            ev("\"plain\"," + jv(plain)); ev("\"adapt\"," + std::to_string(parts) + "," + jp(q)); 
            bool ok = true; for (size_t i = 0, j = 0; i < p.size() && i < q.size(); ++i) { for (j = 0; j < p[i].size() && j < q[i].size(); ++j) ok &= q[i][j] == p[i][j] + 1; }
            if (!ok) ev("\"parts were not in place\""); break; }
        }
        vt::tr().end();
    }
    // maxima computed by several threads
    for (int it = 0; it < 24; ++it) {
        int n = 8 * (it % 6) + it; S x; V f; for (int i = 0; i < n; ++i) f.push_back((it & 1 ? i : n - i) * (i % 2 ? -1 : 1));
        x = S(it % 5 + 1); split(f, x);
        for (int way = 0; way < 2; ++way) {
            vt::tr().begin("{\"norm\":" + std::to_string(it) + "}");
            ev("\"setx\"," + (way ? jp(std::vector<V>(1, f)) : jp(x)));
            std::vector<double> seen; omp_set_num_threads(8);
            for (int k = 0; k < 150; ++k) { double a = way ? openmp_range_algebra::norm_inf(f) : openmp_algebra::norm_inf(x); bool have = false; for (double b : seen) have |= a == b; if (!have && seen.size() < 9) seen.push_back(a); }
            ev("\"norm\"," + jv(seen)); vt::tr().end();
        }
    }
}
struct SysS { void operator()(const S &x, S &d, double t) const {
    size_t k = 0, tot = 0; V f; for (auto &p : x) f.insert(f.end(), p.begin(), p.end()); V df(f.size()); rhsv(f, df, t);
    for (size_t i = 0; i < x.size(); ++i) { if (d[i].size() != x[i].size()) d[i].resize(x[i].size()); for (size_t j = 0; j < x[i].size(); ++j) d[i][j] = df[k++]; } } };
static void runs(int n) {
    for (int it = 0; it < n; ++it) {
        int kind = it % KINDS, len = it < 2 * KINDS ? 7 : rnd(1, 17), seed = rnd(1, 1 << 30); double t1 = it / KINDS % 2 ? -1.05 : 1.05;
        vt::tr().begin(std::string("{\"kind\":\"") + KN[kind] + "\",\"len\":" + std::to_string(len) + "}");
        { V x = start(len, seed); rec.clear(); run_kind<V, range_algebra>(kind, x, rhsv, see, t1); rec += "," + jv(V(1, x.size())); ev("\"run\",\"sequential\",[" + rec + "]"); }
        for (int th : {1, 2, 3, 8}) {
            omp_set_num_threads(th); omp_set_schedule(th & 1 ? omp_sched_static : omp_sched_dynamic, 1);
            for (int parts : {0, 1, 2, 5, 9}) {
                V f = start(len, seed); S x(parts); split(f, x); rec.clear();
                run_kind<S, openmp_algebra>(kind, x, SysS(), [](const S &x, double t) { V f; unsplit(x, f); see(f, t); }, t1);
                unsplit(x, f); rec += "," + jv(V(1, f.size())); ev("\"run\",\"" + std::to_string(th) + " threads, " + std::to_string(parts) + " parts\",[" + rec + "]");
            }
            V x = start(len, seed); rec.clear(); run_kind<V, openmp_range_algebra>(kind, x, rhsv, see, t1); rec += "," + jv(V(1, x.size()));
            ev("\"run\",\"" + std::to_string(th) + " threads, range\",[" + rec + "]");
        }
        vt::tr().end();
    }
}
int main(int argc, char **argv) {
    vt::guard(300); g.seed(atoi(argv[3]));
    vt::tr().open(argv[1]); ops(atoi(argv[4])); vt::tr().close();
    vt::tr().open(argv[2]); runs(atoi(argv[4]) / 4); vt::tr().close();
}
#else
typedef mpi_state<V> S;
namespace mpi = boost::mpi;
static mpi::communicator *W;
#define ROOT if (W->rank() == 0)
template<class T> static std::vector<T> all(const T &a) { std::vector<T> r; mpi::gather(*W, a, r, 0); return r; }
static std::string parts(const S &s) { auto p = all(s.m_data); return W->rank() ? "" : jp(p); }
static void ops(int n) {
    for (int it = 0; it < n; ++it) {
        ROOT vt::tr().begin("{\"np\":" + std::to_string(W->size()) + ",\"n\":" + std::to_string(it) + "}");
        S x(*W), y(*W); V plain; { int len = it < 20 ? it : rnd(0, 30); for (int i = 0; i < len; ++i) plain.push_back(rnd(-99, 99)); }
        ROOT ev("\"plain\"," + jv(plain));
        auto set = [&](S &s, int same) { for (int r = 0; r < W->size(); ++r) { V p(rnd(0, 2) + same); for (auto &e : p) e = rnd(-50, 50); if (r == W->rank()) s.m_data = p; } };
        set(y, 0); { auto s = parts(y); ROOT ev("\"sety\"," + s); }
        for (int k = 0; k < 9; ++k) switch (k ? rnd(0, 7) : 0) {
        case 0: { split(plain, x); auto s = parts(x); ROOT ev("\"split\"," + std::to_string(W->size()) + "," + s); break; }
        case 1: { size_t n = 0; mpi::all_reduce(*W, x.m_data.size(), n, std::plus<size_t>()); V to(n, 77); unsplit(x, to); auto s = parts(x); mpi::broadcast(*W, to, 0); plain = to; ROOT ev("\"join\"," + jv(to) + "," + s); break; }
        case 2: { resize(y, x); auto s = parts(y); ROOT ev("\"resize\"," + s); break; }
        case 3: case 4: { auto a = all((int)same_size(x, y)); auto b = all((int)same_size(y, x)); a.insert(a.end(), b.begin(), b.end());
            ROOT { std::string s; for (int v : a) s += std::string(s.empty() ? "" : ",") + (v ? "true" : "false"); ev("\"same\",[" + s + "]"); } break; }
        case 5: if (same_size(x, y)) { boost::numeric::odeint::copy(x, y); auto s = parts(y), t = parts(x); ROOT ev("\"copy\"," + s + "," + t); break; } // fallthrough
        case 6: { set(x, rnd(0, 1)); if (!rnd(0, 2)) { V p(rnd(0, 1)); x.m_data = W->rank() == 0 ? p : y.m_data; } auto s = parts(x); ROOT ev("\"setx\"," + s); break; }
        case 7: { auto a = all(mpi_nested_algebra<range_algebra>::norm_inf(x)); ROOT ev("\"norm\"," + jv(a)); break; }
        }
        ROOT vt::tr().end();
    }
}
static size_t total;
struct SysS { void operator()(const S &x, S &d, double t) const {
    std::vector<V> p; mpi::all_gather(*W, x.m_data, p); V f; size_t k = 0; for (int i = 0; i < W->size(); ++i) { if (i == W->rank()) k = f.size(); f.insert(f.end(), p[i].begin(), p[i].end()); }
    V df(f.size()); rhsv(f, df, t); d.m_data.resize(x.m_data.size()); for (size_t j = 0; j < x.m_data.size(); ++j) d.m_data[j] = df[k + j]; } };
static void runs(int n) {
    for (int it = 0; it < n; ++it) {
        int kind = it % KINDS, len = it < 2 * KINDS ? 7 : rnd(1, 17), seed = rnd(1, 1 << 30); double t1 = it / KINDS % 2 ? -1.05 : 1.05;
        ROOT vt::tr().begin(std::string("{\"kind\":\"") + KN[kind] + "\",\"np\":" + std::to_string(W->size()) + ",\"len\":" + std::to_string(len) + "}");
        { V x = start(len, seed); rec.clear(); run_kind<V, range_algebra>(kind, x, rhsv, see, t1); rec += "," + jv(V(1, x.size())); ROOT ev("\"run\",\"sequential\",[" + rec + "]"); }
        V f; ROOT f = start(len, seed); S x(*W); split(f, x); rec.clear();
        run_kind<S, mpi_nested_algebra<range_algebra>>(kind, x, SysS(), [len](const S &x, double t) { V f(len); unsplit(x, f); see(f, t); }, t1);
        f.assign(len, 0); unsplit(x, f); rec += "," + jv(V(1, f.size())); ROOT ev("\"run\",\"mpi\",[" + rec + "]");
        ROOT vt::tr().end();
    }
}
int main(int argc, char **argv) {
    mpi::environment e; mpi::communicator w; W = &w; g.seed(atoi(argv[3]) * 31 + w.size()); vt::tr().f = nullptr;
    if (w.rank() == 0) { vt::guard(150); vt::tr().open(argv[1]); } else alarm(160);
    ops(atoi(argv[4])); ROOT { vt::tr().close(); vt::tr().open(argv[2]); }
    runs(atoi(argv[4]) / 4); ROOT vt::tr().close();
}
#endif
