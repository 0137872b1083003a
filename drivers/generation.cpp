// make_controlled, make_dense_output and integrate against steppers built by hand.
#include "trace.hpp"
#include <array>
#include <complex>
#include <boost/array.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/generation/generation_runge_kutta_cash_karp54_classic.hpp>
using namespace boost::numeric::odeint;
typedef std::vector<int> Dig;
static int bits(long double l) { double d = (double)l; uint64_t u; memcpy(&u, &d, 8); u ^= u >> 31; u *= 0x9E3779B97F4A7C15ull; return (int)((u >> 34) & 0x3fffffff); }
static int bits(std::complex<double> z) { return bits(z.real()) ^ bits(z.imag() * 1.5); }
template<class T> static void add(Dig &g, T d) { g.push_back(bits(d)); }
template<class C> static auto addv(Dig &g, const C &c) -> decltype(c.size(), void()) { for (size_t i = 0; i < c.size(); ++i) add(g, c[i]); }
static void addv(Dig &g, double c) { add(g, c); }
static unsigned seed; static double rnd() { seed = seed * 1103515245u + 12345u; return (seed >> 8) / 16777216.0; }
static double A_, R_, M_, T0, H, W; static int ST; static double start[3];

// an algebra with an identity, so that it shows which stepper is at work
static long seen; static long calls;
struct idalg : range_algebra {
    int id; idalg(int i = 0) : id(i) {}
    void note() { seen = (seen * 7 + id) & 0xffffff; }
    template<class A, class Op> void for_each1(A &a, Op op) { note(); range_algebra::for_each1(a, op); }
    template<class A, class B, class Op> void for_each2(A &a, B &b, Op op) { note(); range_algebra::for_each2(a, b, op); }
    template<class A, class B, class C, class Op> void for_each3(A &a, B &b, C &c, Op op) { note(); range_algebra::for_each3(a, b, c, op); }
    template<class A, class B, class C, class D, class Op> void for_each4(A &a, B &b, C &c, D &d, Op op) { note(); range_algebra::for_each4(a, b, c, d, op); }
};
struct Sys { template<class X, class D, class T> void operator()(const X &x, D &d, T t) const { ++calls; for (size_t i = 0; i < x.size(); ++i) d[i] = W * x[(i + 1) % x.size()] * (i == 0 ? 1 : -1) - std::sin(0.3 * x[i]) + 0.1 * std::sin((double)t); }
    void operator()(const double &x, double &d, double t) const { ++calls; d = std::sin(W * x) + std::cos(3 * t); }
    template<class C> void go(const C &x, C &d, double t) const { ++calls; for (size_t i = 0; i < x.size(); ++i) d[i] = std::complex<double>(0, W) * x[i] + 0.1 * std::sin(t); }
    void operator()(const std::vector<std::complex<double>> &x, std::vector<std::complex<double>> &d, double t) const { go(x, d, t); } };
typedef boost::numeric::ublas::vector<double> UV; typedef boost::numeric::ublas::matrix<double> UM;
struct RSys { void operator()(const UV &x, UV &d, double t) const { ++calls; d[0] = -W * 20 * x[0] + x[1]; d[1] = -x[1] + std::sin(t); d[2] = x[0] * x[1]; } };
struct RJac { void operator()(const UV &x, UM &J, const double &t, UV &f) const { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) J(i, j) = 0; J(0, 0) = -W * 20; J(0, 1) = 1; J(1, 1) = -1; J(2, 0) = x[1]; J(2, 1) = x[0]; f[0] = 0; f[1] = std::cos(t); f[2] = 0; } };

template<class S> static S init(S *) { S x = S(); for (int i = 0; i < 3; ++i) x[i] = start[i]; return x; }
template<class T> static std::vector<T> init(std::vector<T> *) { return std::vector<T>(start, start + 3); }
static UV init(UV *) { UV x(3); for (int i = 0; i < 3; ++i) x[i] = start[i]; return x; }
static double init(double *) { return start[0]; }
template<class X> static Sys sys_for(X *) { return Sys(); }
static std::pair<RSys, RJac> sys_for(UV *) { return std::make_pair(RSys(), RJac()); }

template<class C> static Dig use_ctl(C c) {
    typedef typename C::stepper_type::state_type X; typedef typename C::stepper_type::time_type T;
    X x = init((X *)0), o = x; auto f = sys_for((X *)0); T t = T0, h = H; Dig g; seen = calls = 0;
    for (int k = 0; k < 16; ++k) { g.push_back((int)(k % 5 == 4 ? c.try_step(f, x, t, o, h) : c.try_step(f, x, t, h))); addv(g, x); addv(g, o); add(g, t); add(g, h); g.push_back((int)calls); g.push_back((int)seen); }
    return g;
}
template<class C> static Dig use_dense(C c) {
    typedef typename C::state_type X; typedef typename C::time_type T;
    X x = init((X *)0); auto f = sys_for((X *)0); T t = T0, h = H; Dig g; seen = calls = 0; c.initialize(x, t, h);
    for (int k = 0; k < 10; ++k) { auto p = c.do_step(f); add(g, p.first); add(g, p.second); c.calc_state((p.first + p.second) / 2, x); addv(g, x); add(g, c.current_time_step()); g.push_back((int)calls); g.push_back((int)seen); }
    return g;
}
// passed straight to integrate functions
template<class C, class X> static Dig use_integ(C c, X *) {
    X x = init((X *)0); auto f = sys_for((X *)0); Dig g; seen = calls = 0; typedef typename C::time_type T;
    g.push_back((int)integrate_const(c, f, x, (T)T0, (T)(T0 + 3.3 * H), (T)H, [&](const X &y, T t) { addv(g, y); add(g, t); })); addv(g, x); g.push_back((int)calls); g.push_back((int)seen); return g;
}
static std::string js(const Dig &g) { std::string s; vt::Trace::put(s, g); return s; }
static std::string toks(std::vector<int> p) { return js(p); }
static void hand(bool m, bool s, const Dig &g) { vt::tr().raw("[\"hand\"," + toks({bits(A_), bits(R_), m ? bits(M_) : 0, s ? ST : 0}) + "," + js(g) + "]"); }
static void made(const char *form, bool m, bool s, const Dig &g) { std::vector<int> p = {bits(A_), bits(R_)}; if (m) p.push_back(bits(M_)); if (s) p.push_back(ST); vt::tr().raw(std::string("[\"made\",\"") + form + "\"," + toks(p) + "," + js(g) + "]"); }
static void begin(const std::string &n) { vt::tr().end(); vt::tr().begin("{\"entry\":\"" + n + "\"}"); }

template<class S, class By> static void generated(By by) {
    typedef typename S::value_type Vl; typedef typename S::time_type T; Vl a = A_, r = R_; T m = M_; S s = by();
    made("tol", false, false, use_ctl(make_controlled<S>(a, r))); made("tol+st", false, true, use_ctl(make_controlled(a, r, s)));
    made("max", true, false, use_ctl(make_controlled<S>(a, r, m))); made("max+st", true, true, use_ctl(make_controlled(a, r, m, s)));
}
template<class S, class By> static void generatedd(By by) {
    typedef typename S::value_type Vl; typedef typename S::time_type T; Vl a = A_, r = R_; T m = M_; S s = by();
    made("tol", false, false, use_dense(make_dense_output<S>(a, r))); made("tol+st", false, true, use_dense(make_dense_output(a, r, s)));
    made("max", true, false, use_dense(make_dense_output<S>(a, r, m))); made("max+st", true, true, use_dense(make_dense_output(a, r, m, s)));
}
template<class S, class By> static controlled_runge_kutta<S> byhand(bool m, bool st, By by) {
    typedef controlled_runge_kutta<S> C; typedef typename S::value_type Vl; typedef typename S::time_type T;
    S s = st ? by() : S();
    return C(default_error_checker<Vl, typename S::algebra_type, typename S::operations_type>((Vl)A_, (Vl)R_), m ? default_step_adjuster<Vl, T>((T)M_) : default_step_adjuster<Vl, T>(), s);
}
template<class S> static void ctl(const char *n) {
    begin(std::string("make_controlled ") + n); auto by = [] { return S(typename S::algebra_type(ST)); };
    for (int k = 0; k < 4; ++k) hand(k & 1, k & 2, use_ctl(byhand<S>(k & 1, k & 2, by)));
    generated<S>(by);
    begin(std::string("make_controlled in integrate_const ") + n); typedef typename S::state_type X; typedef typename S::value_type Vl; typedef typename S::time_type T;
    for (int k = 0; k < 4; ++k) hand(k & 1, k & 2, use_integ(byhand<S>(k & 1, k & 2, by), (X *)0));
    S s = by();
    made("tol", false, false, use_integ(make_controlled<S>((Vl)A_, (Vl)R_), (X *)0)); made("max+st", true, true, use_integ(make_controlled((Vl)A_, (Vl)R_, (T)M_, s), (X *)0));
}
template<class S> static void dense(const char *n) {
    begin(std::string("make_dense_output ") + n); auto by = [] { return S(typename S::algebra_type(ST)); };
    for (int k = 0; k < 4; ++k) hand(k & 1, k & 2, use_dense(dense_output_runge_kutta<controlled_runge_kutta<S>>(byhand<S>(k & 1, k & 2, by))));
    generatedd<S>(by);
}
// the variable-step Adams controller
template<int N> static void adams() {
    typedef adaptive_adams_bashforth_moulton<N, std::vector<double>, double, std::vector<double>, double, idalg> S; typedef controlled_adams_bashforth_moulton<S> C; typedef typename C::step_adjuster_type A;
    begin("make_controlled adams " + std::to_string(N)); auto by = [] { return S(idalg(ST)); };
    for (int k = 0; k < 4; ++k) { A adj = (k & 1) ? A(A_, R_, M_) : A(A_, R_); hand(k & 1, k & 2, use_ctl(k & 2 ? C(adj, by()) : C(adj))); }
    generated<S>(by);
}
static void rosen() {
    typedef rosenbrock4<double> S; typedef rosenbrock4_controller<S> C; int st = ST; ST = 0; auto by = [] { return S(); };
    begin("make_controlled rosenbrock");
    hand(false, false, use_ctl(C(A_, R_))); hand(true, false, use_ctl(C(A_, R_, M_)));
    generated<S>(by);
    begin("make_dense_output rosenbrock");
    hand(false, false, use_dense(rosenbrock4_dense_output<C>(C(A_, R_)))); hand(true, false, use_dense(rosenbrock4_dense_output<C>(C(A_, R_, M_))));
    generatedd<S>(by); ST = st;
}
// controllers a user registers: through the default factory and through one of their own
struct Mine { typedef double value_type; typedef double time_type; int id; Mine(int i = 0) : id(i) {} };
struct MineCtl { Dig g; MineCtl(double a, double r, const Mine &s) : g{bits(a), bits(r), 0, s.id} {} MineCtl(double a, double r, double m, const Mine &s) : g{bits(a), bits(r), bits(m), s.id} {} };
struct MineDense { Dig g; MineDense(double a, double r, const Mine &s) : g{1, bits(a), bits(r), 0, s.id} {} MineDense(double a, double r, double m, const Mine &s) : g{1, bits(a), bits(r), bits(m), s.id} {} };
struct Own { typedef float value_type; typedef double time_type; int id; Own(int i = 0) : id(i) {} };
struct OwnCtl { Dig g; OwnCtl(Dig q) : g(q) {} }; struct OwnDense { Dig g; OwnDense(Dig q) : g(q) {} };
namespace boost { namespace numeric { namespace odeint {
template<> struct get_controller<Mine> { typedef MineCtl type; }; template<> struct get_dense_output<Mine> { typedef MineDense type; };
template<> struct get_controller<Own> { typedef OwnCtl type; }; template<> struct get_dense_output<Own> { typedef OwnDense type; };
template<> struct controller_factory<Own, OwnCtl> { OwnCtl operator()(float a, float r, const Own &s) { return OwnCtl({2, bits(a), bits(r), 0, s.id}); } OwnCtl operator()(float a, float r, double m, const Own &s) { return OwnCtl({2, bits(a), bits(r), bits(m), s.id}); } };
template<> struct dense_output_factory<Own, OwnDense> { OwnDense operator()(float a, float r, const Own &s) { return OwnDense({3, bits(a), bits(r), 0, s.id}); } OwnDense operator()(float a, float r, double m, const Own &s) { return OwnDense({3, bits(a), bits(r), bits(m), s.id}); } };
} } }
static void custom() {
    Mine s(ST); Own o(ST); float a = A_, r = R_;
    begin("custom controller"); hand(0, 0, MineCtl(A_, R_, Mine()).g); hand(0, 1, MineCtl(A_, R_, s).g); hand(1, 0, MineCtl(A_, R_, M_, Mine()).g); hand(1, 1, MineCtl(A_, R_, M_, s).g);
    made("tol", 0, 0, make_controlled<Mine>(A_, R_).g); made("tol+st", 0, 1, make_controlled(A_, R_, s).g); made("max", 1, 0, make_controlled<Mine>(A_, R_, M_).g); made("max+st", 1, 1, make_controlled(A_, R_, M_, s).g);
    begin("custom dense output"); hand(0, 0, MineDense(A_, R_, Mine()).g); hand(0, 1, MineDense(A_, R_, s).g); hand(1, 0, MineDense(A_, R_, M_, Mine()).g); hand(1, 1, MineDense(A_, R_, M_, s).g);
    made("tol", 0, 0, make_dense_output<Mine>(A_, R_).g); made("tol+st", 0, 1, make_dense_output(A_, R_, s).g); made("max", 1, 0, make_dense_output<Mine>(A_, R_, M_).g); made("max+st", 1, 1, make_dense_output(A_, R_, M_, s).g);
    begin("custom factories"); typedef controller_factory<Own, OwnCtl> CF;
    hand(0, 0, CF()(a, r, Own()).g); hand(0, 1, CF()(a, r, o).g); hand(1, 0, CF()(a, r, M_, Own()).g); hand(1, 1, CF()(a, r, M_, o).g);
    made("tol", 0, 0, make_controlled<Own>(a, r).g); made("tol+st", 0, 1, make_controlled(a, r, o).g); made("max", 1, 0, make_controlled<Own>(a, r, M_).g); made("max+st", 1, 1, make_controlled(a, r, M_, o).g);
    begin("custom dense factories"); typedef dense_output_factory<Own, OwnDense> DF;
    hand(0, 0, DF()(a, r, Own()).g); hand(0, 1, DF()(a, r, o).g); hand(1, 0, DF()(a, r, M_, Own()).g); hand(1, 1, DF()(a, r, M_, o).g);
    made("tol", 0, 0, make_dense_output<Own>(a, r).g); made("tol+st", 0, 1, make_dense_output(a, r, o).g); made("max", 1, 0, make_dense_output<Own>(a, r, M_).g); made("max+st", 1, 1, make_dense_output(a, r, M_, o).g);
}
// the convenience function
static void conv(bool isHand, const Dig &g) { vt::tr().raw(isHand ? "[\"hand\",[-1,-1,0,0]," + js(g) + "]" : "[\"made\",\"conv\",[]," + js(g) + "]"); }
template<class X, class F> static Dig run(F f) {
    X x = init((X *)0); Dig g; calls = 0; auto obs = [&](const X &y, double t) { addv(g, y); add(g, t); };
    g.push_back((int)f(x, obs)); addv(g, x); g.push_back((int)calls); return g;
}
template<class X> struct NoObs { template<class T> void operator()(const X &, T) const {} };
template<class X, class Vl, class T> static void fn_value(const char *n) {
    typedef runge_kutta_dopri5<X, Vl, X, T> S; typedef controlled_runge_kutta<S> C; T t0 = T0, t1 = T0 + 9.5 * H, h = H * 0.3; Sys sys;
    auto mk = [] { return C(default_error_checker<Vl, typename S::algebra_type, typename S::operations_type>(static_cast<Vl>(1e-6), static_cast<Vl>(1e-6)), default_step_adjuster<Vl, T>(), S()); };
    begin(std::string("integrate<value>, observer, ") + n); conv(true, run<X>([&](X &x, auto o) { return integrate_adaptive(mk(), sys, x, t0, t1, h, o); })); conv(false, run<X>([&](X &x, auto o) { return integrate<Vl>(sys, x, t0, t1, h, o); }));
    begin(std::string("integrate<value>, ") + n); conv(true, run<X>([&](X &x, auto o) { return integrate_adaptive(mk(), sys, x, t0, t1, h, NoObs<X>()); })); conv(false, run<X>([&](X &x, auto o) { return integrate<Vl>(sys, x, t0, t1, h); }));
}
template<class X, class Vl, class T> static void fn(const char *n) {
    typedef runge_kutta_dopri5<X, Vl, X, T> S; typedef controlled_runge_kutta<S> C; T t0 = T0, t1 = T0 + 9.5 * H, h = H * 0.3; Sys sys;
    auto mk = [] { return C(default_error_checker<Vl, typename S::algebra_type, typename S::operations_type>(static_cast<Vl>(1e-6), static_cast<Vl>(1e-6)), default_step_adjuster<Vl, T>(), S()); };
    begin(std::string("integrate, observer, ") + n); conv(true, run<X>([&](X &x, auto o) { return integrate_adaptive(mk(), sys, x, t0, t1, h, o); })); conv(false, run<X>([&](X &x, auto o) { return integrate(sys, x, t0, t1, h, o); }));
    begin(std::string("integrate, ") + n); conv(true, run<X>([&](X &x, auto o) { return integrate_adaptive(mk(), sys, x, t0, t1, h, NoObs<X>()); })); conv(false, run<X>([&](X &x, auto o) { return integrate(sys, x, t0, t1, h); }));
    fn_value<X, Vl, T>(n);
}
typedef std::vector<double> V; typedef std::vector<float> VF;
#if PART == 0
static void entries() {
    ctl<runge_kutta_dopri5<V, double, V, double, idalg>>("dopri5"); ctl<runge_kutta_cash_karp54<V, double, V, double, idalg>>("cash karp");
    ctl<runge_kutta_cash_karp54_classic<V, double, V, double, idalg>>("cash karp classic"); ctl<runge_kutta_fehlberg78<V, double, V, double, idalg>>("fehlberg");
    dense<runge_kutta_dopri5<V, double, V, double, idalg>>("dopri5");
    adams<3>(); adams<5>(); rosen(); custom();
}
#else
static void entries() {
    double a = A_, r = R_; A_ = std::max(A_, 1e-5); R_ = std::max(R_, 1e-5);       // what floats can meet
    ctl<runge_kutta_dopri5<VF, float, VF, double, idalg>>("dopri5, float and double"); ctl<runge_kutta_cash_karp54<VF, float, VF, double, idalg>>("cash karp, float and double");
    dense<runge_kutta_dopri5<VF, float, VF, double, idalg>>("dopri5, float and double");
    A_ = a; R_ = r;
    ctl<runge_kutta_dopri5<std::vector<long double>, long double, std::vector<long double>, double, idalg>>("dopri5, long double");
    fn<V, double, double>("vector"); fn<std::array<double, 3>, double, double>("array"); fn<boost::array<double, 3>, double, double>("boost array"); fn<VF, float, double>("float vector"); fn<VF, float, float>("all float");
    fn<UV, double, double>("ublas"); fn_value<std::vector<std::complex<double>>, double, double>("complex"); fn_value<double, double, double>("scalar");
}
#endif
int main(int argc, char **argv) {
    vt::tr().open(argv[2]); vt::guard(200);
    FILE *f = fopen(argv[1], "r"); unsigned sd;
    while (fscanf(f, "%u", &sd) == 1) {
        seed = sd; for (int i = 0; i < 8; ++i) rnd();
        int dir = rnd() < 0.5 ? -1 : 1;
        A_ = std::pow(10, -2 - 9 * rnd()); R_ = std::pow(10, -2 - 9 * rnd()); T0 = rnd() * 4 - 2; H = (0.05 + 0.5 * rnd()) * dir; M_ = std::fabs(H) * (rnd() < 0.5 ? 0.2 + rnd() * 0.7 : 1.5 + 2 * rnd()) * dir; W = 0.5 + 2 * rnd(); ST = 1 + (int)(rnd() * 6);
        for (int i = 0; i < 3; ++i) start[i] = std::pow(10, 3 * rnd() - 2) * (rnd() < 0.5 ? -1 : 1);
        entries(); vt::tr().end();
    }
    vt::tr().close(); return 0;
}
