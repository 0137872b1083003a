// Implicit Euler over GF(p) and in double precision.  argv: scenarios trace seed number
// A scenario: resizer dim seed ops...   (i:n a step with n corrections, objects z c k d w N)
#define BOOST_UBLAS_NDEBUG 1
#define GF_INITIAL 0                         // ublas takes T() for zero
#include "rk.hpp"
#include <boost/numeric/ublas/traits.hpp>
static int CORR = 0, WANT = 1;               // corrections made so far, and asked for
// the length of a correction: above any accuracy until there were enough of them
namespace boost { namespace numeric { namespace ublas {
template<> struct type_traits<gf::F> : scalar_traits<gf::F> { typedef type_traits<gf::F> self_type; typedef gf::F real_type;
    static gf::F type_sqrt(const gf::F &) { return gf::F(CORR < WANT ? 46336 : 0); } };
} } }
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
using namespace boost::numeric::odeint;
typedef boost::numeric::ublas::vector<F> uv; typedef boost::numeric::ublas::matrix<F> um;
template<> inline uv fill<uv>(size_t n) { uv v(n); for (auto &c : v) c = rf(); return v; }
static std::string sid(size_t i) { return std::to_string(i); }
static std::string jm(const um &m) { std::string s = "["; for (size_t i = 0; i < m.size1(); ++i) { s += i ? ",[" : "["; for (size_t j = 0; j < m.size2(); ++j) s += (j ? "," : "") + js(m(i, j)); s += "]"; } return s + "]"; }
static F CURDT; static bool LINEAR; static um LM;
static F det(std::vector<std::vector<F>> a) {
    size_t n = a.size(); F d(1);
    for (size_t k = 0; k < n; ++k) { size_t p = k; while (p < n && a[p][k].v == 0) ++p; if (p == n) return F(0); if (p != k) { std::swap(a[p], a[k]); d = -d; }
        d *= a[k][k]; for (size_t i = k + 1; i < n; ++i) { F m = a[i][k] / a[k][k]; for (size_t j = k; j < n; ++j) a[i][j] -= m * a[k][j]; } }
    return d;
}
struct ISys { template<class X, class D> void operator()(const X &x, D &d, const F &t) const { Sys f; f(x, d, t); ++CORR; } };
struct IJac { template<class X, class M> void operator()(const X &x, M &J, const F &t) const {
    size_t n1 = J.size1(), n2 = J.size2(), n = x.size(); std::vector<long> a; for (auto &c : x) a.push_back(c.v);
    for (int k = 0; k < 50; ++k) {                        // h J - 1 is regular
        for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) J(i, j) = (k + a[0]) % 5 == 0 && i != j ? F(0) : gf::hash(SEED + 77 + k, i * 16 + j, a.data(), n, t.v);
        std::vector<std::vector<F>> A(n, std::vector<F>(n)); for (size_t i = 0; i < n && i < n1; ++i) for (size_t j = 0; j < n && j < n2; ++j) A[i][j] = CURDT * J(i, j) - (i == j ? F(1) : F(0));
        if (det(A).v) break;
    }
    ev("[\"jac\"," + jv(x) + "," + js(t) + "," + jm(J) + ",[]," + sid(n1) + "," + sid(n2) + "]");
} };
template<class S1, class S2, class Go> void withsys(const S1 &f, const S2 &j, unsigned how, Go go) {
    auto p = std::make_pair(f, j);
    switch (how % 4) { case 0: go(p); break; case 1: go(boost::ref(p)); break; case 2: go(std::ref(p)); break; default: { S1 g = f; S2 h = j; auto q = std::make_pair(boost::ref(g), std::ref(h)); go(q); } }
}
template<class St> void impl(const std::string &rz, size_t dim, const std::vector<std::string> &ops) {
    Runner<St, uv> r; r.make = [] { return St(F(17)); }; r.never = rz == "never"; bool always = rz == "always"; r.start(dim);
    for (auto &o : ops) {
        size_t id = r.cur; St &s = *r.obj[id]; Point<uv> &p = r.pt[id];
        if (o[0] == 'i') {
            F dt = rnz(); CURDT = dt; CORR = 0; WANT = o.size() > 2 ? atoi(o.c_str() + 2) : 1;
            ev("[\"step\"," + sid(id) + "," + jv(p.x) + "," + js(p.t) + "," + js(dt) + "," + sid(WANT) + "]");
            withsys(ISys(), IJac(), R(), [&](auto sys) { s.do_step(sys, p.x, p.t, dt); });
            ev("[\"done\"," + jv(p.x) + "]"); p.t += dt; continue;
        }
        if (o == "z") { if (!always && !r.never) continue; r.dim = 1 + R() % 4; r.fresh_point(id);
            if (r.never) { s.adjust_size(p.x); ev("[\"size\"," + sid(id) + "," + sid(r.dim) + "]"); } else ev("[\"redim\"," + sid(id) + "," + sid(r.dim) + "]"); continue; }
        r.common(o[0]);
    }
}
// ---------------------------------------------------------------- double precision
typedef boost::numeric::ublas::vector<double> dv; typedef boost::numeric::ublas::matrix<double> dm;
static int rnd(int a, int b) { return a + (int)(R() % (unsigned)(b - a + 1)); }
// x' = A x + s sin(P x + w t), components of the sine permuted; M = 1 - h A is well conditioned
struct Prob { size_t n; std::vector<std::vector<double>> A; double s, w; std::vector<size_t> p; double h; };
static int EV; struct Stop : std::exception {};
struct DSys { const Prob *p; void operator()(const dv &x, dv &d, double t) const { if (++EV > 2000) throw Stop();
    for (size_t i = 0; i < p->n; ++i) { double v = 0; for (size_t j = 0; j < p->n; ++j) v += p->A[i][j] * x[j]; d[i] = v + p->s * std::sin(x[p->p[i]] + p->w * t) + p->w * t; } } };
struct DJac { const Prob *p; void operator()(const dv &x, dm &J, double t) const {
    for (size_t i = 0; i < p->n; ++i) { for (size_t j = 0; j < p->n; ++j) J(i, j) = p->A[i][j]; J(i, p->p[i]) += p->s * std::cos(x[p->p[i]] + p->w * t); } } };
static bool problem(Prob &q) {
    q.n = rnd(1, 4); size_t n = q.n; std::vector<std::vector<double>> M(n, std::vector<double>(n)), I(n, std::vector<double>(n));
    for (auto &r : M) for (auto &c : r) c = rnd(-3, 3);
    auto a = M; for (size_t i = 0; i < n; ++i) I[i][i] = 1;
    for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i; if (std::fabs(a[p][k]) < 1e-3) return false; std::swap(a[p], a[k]); std::swap(I[p], I[k]);
        for (size_t i = 0; i < n; ++i) if (i != k) { double m = a[i][k] / a[k][k]; for (size_t j = 0; j < n; ++j) a[i][j] -= m * a[k][j], I[i][j] -= m * I[k][j]; } }
    double nrm = 0; for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = 0; j < n; ++j) s += std::fabs(I[i][j] / a[i][i]); nrm = std::max(nrm, s); }
    if (nrm > 20) return false;
    q.h = (rnd(0, 1) ? 1 : -1) / double(1 << rnd(0, 4)); q.A.assign(n, std::vector<double>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) q.A[i][j] = ((i == j) - M[i][j]) / q.h;
    q.p.resize(n); for (size_t i = 0; i < n; ++i) q.p[i] = rnd(0, n - 1);
    q.w = rnd(-3, 3); q.s = rnd(0, 2) == 0 ? 0 : rnd(1, 9) / 9. / 6 / std::max(nrm, 1.) / std::fabs(q.h); return true;
}
template<class St> void solve(int k) {
    double eps = std::pow(10., -rnd(1, 9)); St s(eps);
    for (int i = 0; i < k; ++i) {
        Prob q; while (!problem(q)); dv x(q.n); for (auto &c : x) c = rnd(-30, 30) / 8.; dv x0 = x; double t = rnd(-8, 8) / 4.; EV = 0; bool stopped = false;
        try { withsys(DSys{&q}, DJac{&q}, R(), [&](auto sys) { s.do_step(sys, x, t, q.h); }); } catch (Stop &) { stopped = true; }
        int evals = EV; EV = 0; dv d(q.n); DSys{&q}(x, d, t + q.h); double r = 0; for (size_t j = 0; j < q.n; ++j) r += (x[j] - x0[j] - q.h * d[j]) * (x[j] - x0[j] - q.h * d[j]); r = std::sqrt(r);
        auto lim = [](double v) { return std::to_string(v >= 0 && v < 1e6 ? (long)std::ceil(v) : 1000000L); };
        ev("[\"solved\",{\"n\":" + std::to_string(q.n) + ",\"res\":" + lim((r > 1e-12 ? r : 0) / eps * 100) + ",\"evals\":" + std::to_string(stopped ? 9999 : evals) + ",\"lin\":" + (q.s == 0 ? "true" : "false") + ",\"one\":" + lim(r * 1e12) + "}]");
        if (stopped) return;
    }
}
int main(int argc, char **argv) {
    std::ifstream in(argv[1]); vt::tr().open(argv[2]); vt::guard(400);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string rz; size_t dim; unsigned seed; is >> rz >> dim >> seed; std::vector<std::string> ops; std::string o; while (is >> o) ops.push_back(o);
        R.seed(seed); SEED = seed;
        vt::tr().begin("{\"kind\":\"step\",\"resizer\":\"" + rz + "\",\"seed\":" + std::to_string(seed) + "}", 3000);
        try { if (rz == "initially") impl<implicit_euler<F, initially_resizer>>(rz, dim, ops); else if (rz == "always") impl<implicit_euler<F, always_resizer>>(rz, dim, ops); else impl<implicit_euler<F, never_resizer>>(rz, dim, ops); }
        catch (vt::hang_error &) {} catch (std::exception &e) { vt::tr().ev("throw"); }
        vt::tr().end();
    }
    R.seed(atoi(argv[3]));
    for (int i = 0, N = atoi(argv[4]); i < N; ++i) { vt::tr().begin("{\"kind\":\"double\"}", 3000); solve<implicit_euler<double, always_resizer>>(4); vt::tr().end(); }
    vt::tr().close();
}
