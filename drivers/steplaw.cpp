// Error checker, step adjusters (elementary, PID, Rosenbrock): measured against
// the laws.  argv: seed, number of scenarios per kind, trace
#include "trace.hpp"
#include <random>
#include <memory>
#include <functional>
#include <boost/array.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
using namespace boost::numeric::odeint;
namespace od = boost::numeric::odeint;
typedef std::vector<double> vec;
static std::mt19937 R;
static int rnd(int a, int b) { return a + (int)(R() % (unsigned)(b - a + 1)); }
static std::string si(long long v) { if (v > 2000000000LL || v < -2000000000LL) return "1999999999"; return std::to_string(v); }
static std::string sb(bool b) { return b ? "true" : "false"; }
static std::string rnd_to(double v, double unit) { if (!(std::fabs(v / unit) < 2e9)) return "1999999999"; return si(llround(v / unit)); }
template<class V> std::string ji(const V &v) { std::string s = "["; bool f = true; for (auto it = v.begin(); it != v.end(); ++it) { s += (f ? "" : ",") + si((long long)*it); f = false; } return s + "]"; }
static void ev(const std::string &s) { vt::tr().raw(s); }
static int sign(double a) { return a > 0 ? 1 : a < 0 ? -1 : 0; }

// ------------------------------------------------------------ error measure
struct Q { int eabs, erel, ax, ad; double dt; vec e, x, d; };
static std::string jq(const Q &q) {
    return "{\"abs\":" + si(q.eabs) + ",\"rel\":" + si(q.erel) + ",\"ax\":" + si(q.ax) + ",\"ad\":" + si(q.ad) + ",\"dt\":" + si((long long)q.dt) +
           ",\"e\":" + ji(q.e) + ",\"x\":" + ji(q.x) + ",\"d\":" + ji(q.d) + "}";
}
static Q question(size_t n) {
    Q q; q.eabs = rnd(1, 5); q.erel = rnd(0, 2); q.ax = rnd(0, 2); q.ad = rnd(0, 2); do q.dt = rnd(-3, 3); while (q.dt == 0);
    int top = rnd(1, 4) == 1 ? 2 : 12;
    for (size_t i = 0; i < n; ++i) { q.e.push_back(rnd(-top, top)); q.x.push_back(rnd(-6, 6)); q.d.push_back(rnd(-4, 4)); }
    if (rnd(0, 2) == 0) {               // exactly on the limit in one component
        size_t i = rnd(0, (int)n - 1); double w = q.eabs + q.erel * (q.ax * std::fabs(q.x[i]) + q.ad * std::fabs(q.dt) * std::fabs(q.d[i]));
        for (auto &c : q.e) c = rnd(-1, 1); q.e[i] = (rnd(0, 1) ? w : -w) + (rnd(0, 2) == 0 ? (q.e[i] > 0 ? 1 : -1) : 0);
    }
    return q;
}
template<class X> X to(const vec &v) { X x; for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; return x; }
template<> vec to<vec>(const vec &v) { return v; }
template<class X, class Al> void measure(const Q &q) {
    typedef default_error_checker<double, Al, default_operations> C;
    C c(q.eabs, q.erel, q.ax, q.ad); Al al; X e = to<X>(q.e), x = to<X>(q.x), d = to<X>(q.d);
    double v = c.error(al, x, d, e, q.dt);
    ev("[\"err\"," + jq(q) + "," + rnd_to(v, 1e-5) + "]");
}
// a stepper that produces the error it is told to
static vec MERR; static int EORD, SORD, EVALS; static double OUT;
template<class X, class Al> struct Mock {
    typedef X state_type; typedef double value_type; typedef X deriv_type; typedef double time_type; typedef Al algebra_type; typedef default_operations operations_type;
    typedef initially_resizer resizer_type; typedef explicit_error_stepper_tag stepper_category; typedef state_wrapper<X> wrapped_state_type; typedef state_wrapper<X> wrapped_deriv_type;
    Al al; Al &algebra() { return al; }
    int error_order() const { return EORD; } int stepper_order() const { return SORD; } int order() const { return SORD; }
    template<class S, class D> void do_step(S, const X &in, const D &, double, X &out, double dt, X &err) { ++EVALS; for (size_t i = 0; i < in.size(); ++i) { out[i] = in[i] + OUT; err[i] = MERR[i]; } }
    template<class Y> void adjust_size(const Y &) {}
};
struct NoSys { vec d; template<class X, class D> void operator()(const X &, D &dx, double) const { for (size_t i = 0; i < dx.size(); ++i) dx[i] = d[i]; } };
template<class X, class Al> void verdict(const Q &q) {
    typedef controlled_runge_kutta<Mock<X, Al>> C;
    typedef typename C::error_checker_type EC; typedef typename C::step_adjuster_type SA;
    EORD = 4; SORD = 5; MERR = q.e; OUT = 100; EVALS = 0;
    C c(EC(q.eabs, q.erel, q.ax, q.ad)); X x = to<X>(q.x), o = x; double t = 1, dt = q.dt; NoSys s; s.d = q.d;
    bool ok = rnd(0, 1) ? c.try_step(s, x, t, dt) == success : c.try_step(s, x, t, o, dt) == success;
    EC e(q.eabs, q.erel, q.ax, q.ad); X er = to<X>(q.e), d = to<X>(q.d); X x0 = to<X>(q.x); Al al;
    ev("[\"verd\"," + jq(q) + "," + rnd_to(e.error(al, x0, d, er, q.dt), 1e-5) + "," + sb(ok) + "]");
}
// ------------------------------------------------------------ elementary adjuster
struct A { std::string kind; int k, u, d; double dt, mx; };
static A adjustment(bool both) {
    A a; a.kind = rnd(0, 1) ? "dec" : "inc"; a.k = rnd(1, 7); a.d = rnd(0, 1) ? 12 : 10;
    a.u = a.kind == "dec" ? (rnd(0, 1) ? rnd(a.d + 1, a.d * 8) : rnd(a.d + 1, a.d + 12)) : rnd(0, a.d);
    int s = rnd(0, 1) ? 1 : -1; a.dt = s * (rnd(0, 1) ? rnd(1, 60) : rnd(100, 5000));
    a.mx = rnd(0, 1) ? 0 : s * (rnd(0, 3) ? std::max(1.0, std::floor(std::fabs(a.dt) * rnd(1, 60) / 10)) : std::fabs(a.dt));
    return a;
}
static double error_of(const A &a) { double e = 1, q = (double)a.u / a.d; for (int i = 0; i < a.k; ++i) e *= q; return a.u == a.d ? 1.0 : e; }
static std::string ja(const A &a, double ndt, double T, const std::string &more = "") {
    return "{\"kind\":\"" + a.kind + "\",\"k\":" + si(a.k) + ",\"u\":" + si(a.u) + ",\"d\":" + si(a.d) + ",\"dt\":" + si((long long)a.dt) + ",\"mx\":" + si((long long)a.mx) +
        ",\"f\":" + rnd_to(ndt / (a.dt * T), 1e-6) + ",\"same\":" + sb(ndt == a.dt * T) + ",\"atmax\":" + sb(ndt == a.mx * T) + ",\"sgn\":" + si(sign(ndt) * sign(a.dt)) + more + "}";
}
static void adjust(const A &a) {
    double T = std::ldexp(1.0, -rnd(0, 12)); default_step_adjuster<double, double> s(a.mx * T);
    double n = a.kind == "dec" ? s.decrease_step(a.dt * T, error_of(a), a.k + 1) : s.increase_step(a.dt * T, error_of(a), a.k);
    ev("[\"adj\"," + ja(a, n, T) + "]");
    double d = rnd(0, 2) ? a.dt : a.mx ? a.mx : a.dt; bool ok = s.check_step_size_limit(d * T);
    ev("[\"lim\"," + si((long long)d) + "," + si((long long)a.mx) + "," + sb(ok) + "," + rnd_to(s.get_max_dt(), T) + "]");
}
template<class X, class Al> void attempt(const A &a, size_t n) {
    typedef controlled_runge_kutta<Mock<X, Al>> C; typedef typename C::error_checker_type EC; typedef typename C::step_adjuster_type SA;
    double T = std::ldexp(1.0, -rnd(0, 12)); bool dec = a.u > a.d;
    EORD = dec ? a.k + 1 : rnd(2, 8); SORD = dec ? rnd(1, 8) : a.k; EVALS = 0; OUT = 3;
    MERR.assign(n, 0); double e = error_of(a); for (auto &c : MERR) c = (rnd(0, 1) ? .5 : -.25) * e; MERR[rnd(0, (int)n - 1)] = rnd(0, 1) ? e : -e;
    C c(EC(1, 0, 1, 1), SA(a.mx * T)); X x = to<X>(vec(n, 2.0)), o = x; double t0 = rnd(-50, 50), t = t0, dt = a.dt * T; NoSys s; s.d.assign(n, 1);
    bool ip = rnd(0, 1), ok = ip ? c.try_step(s, x, t, dt) == success : c.try_step(s, x, t, o, dt) == success;
    X &r = ip ? x : o; bool moved = r[0] == 5 && r[n - 1] == 5; bool stayed = x[0] == 2 && x[n - 1] == 2;
    int adv = t == t0 + a.dt * T && moved ? 1 : t == t0 && (ip ? stayed : !ok) ? 0 : 7; if (!ip && !stayed) adv = 8;
    ev("[\"att\"," + ja(a, dt, T, ",\"evals\":" + si(EVALS)) + "," + sb(ok) + "," + si(adv) + "]");
}
// ------------------------------------------------------------ PID
static const double G = 1.004; static const int L = 720;
template<size_t Type> void pid(const char *name, int steps) {
    typedef detail::pid_step_adjuster<vec, double, vec, double, range_algebra, default_operations, Type> PA;
    const char *mxs[] = {"none", "none", "none", "eighth", "double", "less"}; int im = rnd(0, 5); std::string mx = mxs[im]; size_t n = rnd(1, 3); int s = rnd(0, 1) ? 1 : -1;
    double m = im < 3 ? 1e30 : im == 3 ? .125 : im == 4 ? 2 : .95; bool signedmax = rnd(0, 1);
    vt::tr().begin(std::string("{\"kind\":\"pid\",\"type\":\"") + name + "\",\"mx\":\"" + mx + "\",\"s\":" + si(steps) + "}", 1000);
    std::vector<PA> ob(1, PA(1.0, 1.0, signedmax ? s * m : m)); size_t cur = 0;
    for (int i = 0, N = rnd(3, 12); i < N; ++i) {
        if (rnd(0, 9) == 0 && ob.size() < 3) { ob.push_back(ob[cur]); ev("[\"copy\"," + si(cur) + "," + si(ob.size() - 1) + "]"); }
        if (rnd(0, 3) == 0) cur = rnd(0, (int)ob.size() - 1);
        int k = im < 3 ? rnd(-1, 1) : 0; double dt = s * std::pow(G, (double)L * (steps + 1) * k);
        std::vector<int> a(n); int hi = rnd(0, 4) == 0 ? 2 : 0; vec e(n), x(n, 0), d(n, 0); 
        for (size_t j = 0; j < n; ++j) {
            a[j] = rnd(-2, hi); double w = 1; bool zero = Type != detail::H0321 && Type != detail::H321 && rnd(0, 7) == 0;
            if (rnd(0, 1)) { x[j] = rnd(0, 1) ? 1 : -1; w += 1; } if (rnd(0, 1)) { d[j] = 2 / dt; w += 2; }
            e[j] = (rnd(0, 1) ? 1 : -1) * w * std::pow(G, (double)L * (steps + 1) * a[j]); if (zero) a[j] = -1000, e[j] = 0;
        }
        double nd = ob[cur].adjust_stepsize(steps, dt, e, x, d), f = nd / dt, r = 1 + std::tan(f - 1), ex = std::log(r) / std::log(G);
        long long ee = std::fabs(ex - std::round(ex)) < .01 ? llround(ex) : 999999; if (!(r > 0)) ee = 999998; else if (ex > 5000) ee = 888888;
        ev("[\"pid\"," + si(cur) + ",{\"a\":" + ji(a) + ",\"k\":" + si(k) + ",\"L\":720,\"e\":" + si(ee) + ",\"sgn\":" + si(sign(nd) * s) + ",\"atmax\":" + sb(im >= 3 && std::fabs(f - m) < 1e-9) + "}]");
    }
    vt::tr().end();
}
// ------------------------------------------------------------ Rosenbrock controller
typedef boost::numeric::ublas::vector<double> uvec;
static double XOUT;
struct MockRos {
    typedef double value_type; typedef uvec state_type; typedef state_wrapper<uvec> wrapped_state_type; typedef double time_type; typedef uvec deriv_type; typedef state_wrapper<uvec> wrapped_deriv_type; typedef initially_resizer resizer_type;
    template<class S> void do_step(S, const uvec &in, double, uvec &out, double, uvec &err) { ++EVALS; for (size_t i = 0; i < in.size(); ++i) { out[i] = XOUT; err[i] = MERR[i]; } }
    template<class Y> void adjust_size(const Y &) {}
};
static void ros() {
    typedef rosenbrock4_controller<MockRos> C; int s = rnd(0, 1) ? 1 : -1; bool lim = rnd(0, 2) == 0; double mx = lim ? s * rnd(1, 300) : 0; size_t n = rnd(1, 4);
    vt::tr().begin("{\"kind\":\"ros\",\"mx\":" + si((long long)mx) + "}", 1000);
    std::vector<C> ob; ob.push_back(lim || rnd(0, 1) ? C(1.0, 1.0, mx) : C(1.0, 1.0)); size_t cur = 0;
    for (int i = 0, N = rnd(3, 14); i < N; ++i) {
        if (rnd(0, 9) == 0 && ob.size() < 3) { ob.push_back(ob[cur]); ev("[\"copy\"," + si(cur) + "," + si(ob.size() - 1) + "]"); }
        if (rnd(0, 3) == 0) cur = rnd(0, (int)ob.size() - 1);
        C &c = ob[cur]; int k = rnd(3, 7); double dt = s * std::ldexp(1.0, k), dt0 = dt; int pick = rnd(0, 11);
        int a = pick == 0 ? -1000 : pick == 1 ? 1000 : pick < 9 ? rnd(-3, 0) : rnd(1, 3);
        double err = a == -1000 ? 0 : a == 1000 ? std::nan("") : std::ldexp(1.0, 4 * a);
        int p = rnd(0, 3); double big = (1 << p) - 1, x0 = rnd(0, (int)big), x1 = big; if (rnd(0, 1)) std::swap(x0, x1); if (rnd(0, 1)) x0 = -x0; if (rnd(0, 1)) x1 = -x1;
        MERR.assign(n, err * (1 << p)); if (n == 4 && rnd(0, 1)) { MERR.assign(4, 0); MERR[rnd(0, 3)] = 2 * err * (1 << p); } for (auto &v : MERR) if (rnd(0, 1)) v = -v;
        XOUT = x1; EVALS = 0; uvec x(n), o(n); for (size_t j = 0; j < n; ++j) x[j] = x0, o[j] = 77; double t0 = rnd(-9, 9), t = t0; bool ip = rnd(0, 1);
        bool ok = ip ? c.try_step(0, x, t, dt) == success : c.try_step(0, x, t, o, dt) == success;
        uvec &r = ip ? x : o; bool moved = r[0] == x1 && r[n - 1] == x1, stayed = x[0] == x0 && x[n - 1] == x0; 
        int adv = t == t0 + dt0 && moved && ok ? 1 : t == t0 && (!ip || stayed) ? 0 : 7; if (!ip && !stayed) adv = 8;
        ev("[\"ros\"," + si(cur) + ",{\"a\":" + si(a) + ",\"k\":" + si(k) + ",\"dt\":" + si((long long)dt0) + ",\"mx\":" + si((long long)mx) + ",\"g\":" + rnd_to(dt0 / dt, 1e-6) + ",\"sgn\":" + si(sign(dt) * s) +
           ",\"atmax\":" + sb(dt == mx) + ",\"evals\":" + si(EVALS) + "}," + sb(ok) + "," + si(adv) + "]");
        double le = c.last_error(); long long la = le == 0 ? -1000 : le == 0.01 ? -2 : llround(std::log2(le) / 4); ev("[\"last\"," + si(cur) + "," + si(la) + "]");
    }
    vt::tr().end();
}
static void roserr() {
    typedef rosenbrock4_controller<MockRos> C; size_t n = rnd(1, 4); Q q; q.eabs = rnd(1, 5); q.erel = rnd(0, 2); q.ax = q.ad = 0; q.dt = 1;
    for (size_t i = 0; i < n; ++i) { q.e.push_back(rnd(-12, 12)); q.x.push_back(rnd(-6, 6)); q.d.push_back(rnd(-6, 6)); }
    uvec e(n), x(n), y(n); for (size_t i = 0; i < n; ++i) e[i] = q.e[i], x[i] = q.x[i], y[i] = q.d[i];
    C c(q.eabs, q.erel); ev("[\"rerr\"," + jq(q) + "," + rnd_to(c.error(x, y, e), 1e-3) + "]");
}
// ------------------------------------------------------------ order choice
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
template<size_t Max> void order_choice() {
    typedef default_order_adjuster<Max, vec, double, range_algebra> OA; OA a; boost::array<state_wrapper<vec>, 4> e; size_t n = rnd(1, 4);
    std::string js = "["; int top[4]; for (auto &t : top) t = rnd(0, 3) == 0 ? rnd(0, 5) : rnd(0, 40);
    for (int i = 0; i < 4; ++i) { e[i].m_v.resize(n); for (auto &c : e[i].m_v) c = rnd(-top[i], top[i]); js += (i ? "," : "") + ji(e[i].m_v); }
    int order = rnd(1, Max), init = rnd(0, 3) ? (int)Max : rnd(order - 1 > 0 ? order - 1 : 1, Max);
    size_t q = a.adjust_order(order, init, e);
    ev("[\"order\"," + si(order) + "," + si(init) + "," + si(Max) + "," + js + "]," + si(q) + "]");
}
int main(int argc, char **argv) {
    R.seed(atoi(argv[1])); int N = atoi(argv[2]); vt::tr().open(argv[3]); vt::guard(400); std::string which = argv[4];
    auto one = [](const char *k, int m, std::function<void()> f) { vt::tr().begin(std::string("{\"kind\":\"") + k + "\"}", 1000); for (int i = 0; i < m; ++i) f(); vt::tr().end(); };
    for (int i = 0; i < N; ++i) {
        if (which == "rk") {
            one("err", 5, [] { size_t n = rnd(1, 5); Q q = question(n); if (n == 3 && rnd(0, 1)) measure<boost::array<double, 3>, array_algebra>(q); else measure<vec, range_algebra>(q); });
            one("verd", 5, [] { size_t n = rnd(1, 5); Q q = question(n); if (n == 3 && rnd(0, 1)) verdict<boost::array<double, 3>, array_algebra>(q); else verdict<vec, range_algebra>(q); });
            one("adj", 6, [] { adjust(adjustment(true)); });
            one("att", 6, [] { size_t n = rnd(1, 5); A a = adjustment(true); if (n == 3 && rnd(0, 1)) attempt<boost::array<double, 3>, array_algebra>(a, n); else attempt<vec, range_algebra>(a, n); });
            using namespace od::detail;
            int st = rnd(1, 4);
            switch (rnd(0, 8)) { case 0: pid<BASIC>("BASIC", st); break; case 1: pid<H0211>("H0211", st); break; case 2: pid<H211b>("H211b", st); break; case 3: pid<H211PI>("H211PI", st); break;
                case 4: pid<H0312>("H0312", st); break; case 5: pid<H312b>("H312b", st); break; case 6: pid<H312PID>("H312PID", st); break; case 7: pid<H0321>("H0321", st); break; case 8: pid<H321>("H321", st); break; }
        } else if (which == "order") one("order", 8, [] { switch (rnd(0, 3)) { case 0: order_choice<1>(); break; case 1: order_choice<2>(); break; case 2: order_choice<4>(); break; default: order_choice<7>(); } });
        else { ros(); one("rerr", 5, roserr); }
    }
    vt::tr().close();
}
