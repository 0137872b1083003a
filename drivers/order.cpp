// Extracts the scheme of every stepper by probing it: argv: trace seed
#include "rk.hpp"
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_moulton.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
using namespace boost::numeric::odeint;
struct Probe { // the l-th evaluation returns the l-th unit vector
    std::vector<vec> *rows; std::vector<F> *times;
    void operator()(const vec &x, vec &d, F t) const {
        rows->push_back(x); times->push_back(t);
        for (auto &c : d) c = F(0);
        if (rows->size() <= d.size()) d[rows->size() - 1] = F(1);
    }
};
struct Yes { template<class A, class X, class D, class E, class T> F error(A &, const X &, const D &, E &, T) const { return F(0); } };
struct Same { F decrease_step(F dt, F, int) const { return dt; } F increase_step(F dt, F, int) const { return dt; } bool check_step_size_limit(F) { return true; } F get_max_dt() { return F(1); } };
static std::string jm(const std::vector<vec> &m) { std::string s = "["; for (size_t i = 0; i < m.size(); ++i) s += (i ? "," : "") + jv(m[i]); return s + "]"; }
static void put(const std::string &cfg) { vt::tr().begin(cfg, 10); vt::tr().end(); }
static std::string base(const char *kind, const char *scheme, long order, const std::vector<vec> &rows, const std::vector<F> &times, const vec &out) {
    return std::string("{\"kind\":\"") + kind + "\",\"scheme\":\"" + scheme + "\",\"order\":" + std::to_string(order) + ",\"rows\":" + jm(rows) + ",\"times\":" + jv(times) + ",\"out\":" + jv(out);
}
template<class St> void plain(const char *name, std::function<St()> make) {
    size_t n = 64;
    for (int pass = 0; pass < 2; ++pass) {
        std::vector<vec> rows; std::vector<F> times; vec x(n, F(0)); St s = make();
        s.do_step(Probe{&rows, &times}, x, F(0), F(1));
        if (pass) put(base("rk", name, s.order(), rows, times, x) + ",\"err\":[],\"sorder\":0,\"eorder\":0}");
        n = rows.size();
    }
}
template<class St> void witherr(const char *name) {
    size_t n = 64;
    for (int pass = 0; pass < 2; ++pass) {
        std::vector<vec> rows; std::vector<F> times; vec x(n, F(0)), e(n, F(0)); St s;
        s.do_step(Probe{&rows, &times}, x, F(0), F(1), e);
        if (pass) put(base("rk", name, s.order(), rows, times, x) + ",\"err\":" + jv(e) + ",\"sorder\":" + std::to_string(s.stepper_order()) + ",\"eorder\":" + std::to_string(s.error_order()) + "}");
        n = rows.size();
    }
}
template<class D> void dense(const char *name, long order, size_t n) {
    std::vector<vec> rows; std::vector<F> times; vec x(n, F(0)); D s;
    s.initialize(x, F(0), F(1)); s.do_step(Probe{&rows, &times});
    std::string at = "[";
    for (int i = 0; i < 12; ++i) { F th = i == 0 ? F(0) : i == 1 ? F(1) : rf(); vec w(n); s.calc_state(th, w); at += (i ? ",[" : "[") + js(th) + "," + jv(w) + "]"; }
    put(base("dense", name, order, rows, times, vec(n, F(0))) + ",\"at\":" + at + "]}");
}
typedef euler<vec, F, vec, F, range_algebra, default_operations, initially_resizer> eu;
static void multi(const char *name, size_t k, long order, const std::vector<F> &times, F t0, const vec &out) {
    std::vector<F> ns; for (auto t : times) ns.push_back(t - t0);
    put("{\"kind\":\"multi\",\"scheme\":\"" + std::string(name) + "\",\"k\":" + std::to_string(k) + ",\"order\":" + std::to_string(order) + ",\"times\":" + jv(ns) + ",\"out\":" + jv(out) + "}");
}
template<class St> void adams(const char *name, size_t k, size_t n) {
    std::vector<vec> rows; std::vector<F> times; vec x(n, F(0)), out(n); St s; F t(0); Probe p{&rows, &times};
    s.initialize(eu(), p, x, t, F(1));
    s.do_step(p, x, t, out, F(1));
    for (size_t i = 0; i < n; ++i) out[i] -= x[i];
    multi(name, k, s.order(), times, t, out);
}
template<size_t K> void moulton() {
    typedef adams_moulton<K, vec, F, vec, F, range_algebra, default_operations, initially_resizer> St;
    od::detail::rotating_buffer<typename St::wrapped_deriv_type, K> b; std::vector<F> times;
    for (size_t i = 0; i < K; ++i) { b[i].m_v = vec(K, F(0)); if (i + 1 < K) { b[i].m_v[i + 1] = F(1); } }
    std::vector<vec> rows; std::vector<F> ts; vec x(K, F(0)), out(K); St s;
    s.do_step(Probe{&rows, &ts}, x, x, F(1), out, F(1), b);
    times.push_back(ts[0]); for (size_t i = 0; i + 1 < K; ++i) times.push_back(F(-(long)i));
    multi("am", K, s.order(), times, F(0), out);
}
// operations that take their factors as field elements
struct fops {
    template<class A = F, class B = A> struct scale_sum2 { F a, b; scale_sum2(F x, F y) : a(x), b(y) {} template<class X, class Y, class Z> void operator()(X &x, const Y &y, const Z &z) const { x = a * y + b * z; } };
    template<class A = F> struct scale_sum1 { F a; scale_sum1(F x) : a(x) {} template<class X, class Y> void operator()(X &x, const Y &y) const { x = a * y; } };
};
// steps of unequal sizes from the start on; once the order has grown to the
// full one a step of size h: weights in units of h, times relative to its start
template<size_t K> void adaptive() {
    typedef adaptive_adams_bashforth_moulton<K, vec, F, vec, F, range_algebra, fops, initially_resizer> St;
    for (int more = 0; more < 3; ++more) {
        size_t n = 2 * (K + more) + 3; std::vector<vec> rows; std::vector<F> times; vec x(n, F(0)), out(n), e(n); St s; F t(0); Probe p{&rows, &times};
        std::vector<long> used(1, 0);
        auto size = [&] { for (;;) { F h = rnz(); bool bad = false; for (long u : used) bad = bad || (t + h).v == u; if (!bad) { used.push_back((t + h).v); return h; } } };
        for (size_t i = 0; i < K + more; ++i) { F h = size(); s.do_step(p, x, t, out, h, e); x = out; t += h; }
        F h = size(); s.do_step(p, x, t, out, h, e);
        std::vector<F> ns; for (size_t i = 0; i < n; ++i) { out[i] = (out[i] - x[i]) / h; e[i] = e[i] / h; ns.push_back(i < times.size() ? (times[i] - t) / h : F(0)); }
        put("{\"kind\":\"adaptive\",\"scheme\":\"adaptive abm\",\"k\":" + std::to_string(K) + ",\"order\":" + std::to_string(s.order()) + ",\"sorder\":" + std::to_string(s.stepper_order()) + ",\"eorder\":" + std::to_string(s.error_order()) + ",\"times\":" + jv(ns) + ",\"out\":" + jv(out) + ",\"err\":" + jv(e) + "}");
    }
}
// the numbers alone
static void says(const char *name, long order, long sorder, long eorder) {
    put(std::string("{\"kind\":\"number\",\"scheme\":\"") + name + "\",\"order\":" + std::to_string(order) + ",\"sorder\":" + std::to_string(sorder) + ",\"eorder\":" + std::to_string(eorder) + "}");
}
template<size_t K> void each() {
    adaptive<K>();
    adams<adams_bashforth<K, vec, F, vec, F, range_algebra, default_operations, initially_resizer, eu>>("ab", K, K);
    adams<adams_bashforth_moulton<K, vec, F, vec, F, range_algebra, default_operations, initially_resizer, eu>>("abm", K, K + 1);
    moulton<K>();
}
#define ST(S) S<vec, F, vec, F, range_algebra, default_operations, initially_resizer>
#define EX(N) extrapolation_stepper<N, vec, F, vec, F, range_algebra, default_operations, initially_resizer>
int main(int argc, char **argv) {
    vt::tr().open(argv[1]); vt::guard(400); R.seed(std::atoi(argv[2]));
    plain<ST(euler)>("euler", [] { return ST(euler)(); });
    plain<ST(runge_kutta4)>("rk4", [] { return ST(runge_kutta4)(); });
    plain<ST(runge_kutta4_classic)>("rk4c", [] { return ST(runge_kutta4_classic)(); });
    for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 12}) plain<ST(modified_midpoint)>(("mp" + std::to_string(n)).c_str(), [n] { return ST(modified_midpoint)(n); });
    witherr<ST(runge_kutta_cash_karp54)>("ck54"); witherr<ST(runge_kutta_cash_karp54_classic)>("ck54c");
    witherr<ST(runge_kutta_dopri5)>("dopri5"); witherr<ST(runge_kutta_fehlberg78)>("f78");
    witherr<EX(4)>("extr4"); witherr<EX(6)>("extr6"); witherr<EX(8)>("extr8"); witherr<EX(10)>("extr10");
    dense<dense_output_runge_kutta<ST(euler)>>("euler", 1, 1);
    dense<dense_output_runge_kutta<controlled_runge_kutta<ST(runge_kutta_dopri5), Yes, Same>>>("dopri5", 4, 7);
    each<1>(); each<2>(); each<3>(); each<4>(); each<5>(); each<6>(); each<7>(); each<8>();
    { symplectic_euler<vec> s; says("symplectic euler", s.order(), 0, 0); }
    { symplectic_rkn_sb3a_mclachlan<vec> s; says("sb3a mclachlan", s.order(), 0, 0); }
    { symplectic_rkn_sb3a_m4_mclachlan<vec> s; says("sb3a m4 mclachlan", s.order(), 0, 0); }
    { rosenbrock4<double> s; says("rosenbrock4", s.order(), int(s.stepper_order), int(s.error_order)); }
    vt::tr().close();
}
