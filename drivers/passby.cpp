// Every entry point of the library with its arguments passed by value and by
// either reference wrapper: who was copied, and who was called.
#include "trace.hpp"
#include <array>
#include <boost/ref.hpp>
#include <functional>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/integrate/observer_collection.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
using namespace boost::numeric::odeint;
typedef std::vector<double> V;
struct Ledger { int copies, own, other; };
static Ledger led[6];
template<int R> struct Counted {
    bool own; Counted() : own(true) {} Counted(const Counted &) : own(false) { ++led[R].copies; }
    Counted &operator=(const Counted &) { ++led[R].copies; return *this; }
    void hit() { if (own) ++led[R].own; else ++led[R].other; }
};
typedef std::vector<int> Dig;
static int bits(double d) { uint64_t u; memcpy(&u, &d, 8); u ^= u >> 31; u *= 0x9E3779B97F4A7C15ull; return (int)((u >> 34) & 0x3fffffff); }
static void add(Dig &g, double d) { g.push_back(bits(d)); }
template<class C> static void addv(Dig &g, const C &c) { for (size_t i = 0; i < c.size(); ++i) add(g, c[i]); }
static unsigned seed; static int dim; static double T0, H;
static double rnd() { seed = seed * 1103515245u + 12345u; return (seed >> 8) / 16777216.0; }
static V start; static double K;

// right-hand sides whose operator is not const: they have to be used as they are
template<int R> struct Rhs : Counted<R> {
    template<class X, class D> void operator()(const X &x, D &d, double t) { this->hit(); for (size_t i = 0; i < x.size(); ++i) d[i] = K * x[(i + 1) % x.size()] - 0.3 * x[i] + 0.1 * t; }
};
template<int R> struct Rhs2 : Counted<R> {     // of coordinates or momenta alone
    template<class X, class D> void operator()(const X &x, D &d) { this->hit(); for (size_t i = 0; i < x.size(); ++i) d[i] = -K * x[i]; }
};
template<int R> struct Acc : Counted<R> {
    template<class X, class D> void operator()(const X &q, const X &p, D &a, double t) { this->hit(); for (size_t i = 0; i < q.size(); ++i) a[i] = -K * q[i] - 0.1 * p[i] + 0.05 * t; }
};
typedef boost::numeric::ublas::vector<double> UV; typedef boost::numeric::ublas::matrix<double> UM;
template<int R> struct Jac : Counted<R> {
    void go(UM &J) { this->hit(); for (size_t i = 0; i < J.size1(); ++i) for (size_t j = 0; j < J.size2(); ++j) J(i, j) = i == j ? -0.3 : 0; for (size_t i = 0; i < J.size1(); ++i) J(i, (i + 1) % J.size1()) += K; }
    void operator()(const UV &x, UM &J, const double &t, UV &dfdt) { go(J); for (size_t i = 0; i < dfdt.size(); ++i) dfdt[i] = 0.1; }
    void operator()(const UV &x, UM &J, const double &t) { go(J); }
};
struct Obs : Counted<1> {
    static Dig *log; template<class X> void operator()(const X &x, double t) { hit(); add(*log, t); addv(*log, x); }
};
Dig *Obs::log;
// a library stepper that counts its copies and the steps asked of it
template<class S> struct St : S, Counted<2> {
    St() {} template<class A, typename std::enable_if<!std::is_base_of<St, typename std::decay<A>::type>::value, int>::type = 0> explicit St(const A &a) : S(a) {}
    template<class... A> decltype(auto) do_step(A &&... a) { hit(); return S::do_step(std::forward<A>(a)...); }
};
template<class S> struct StC : S, Counted<2> {
    StC() {}
    template<class... A> decltype(auto) try_step(A &&... a) { hit(); return S::try_step(std::forward<A>(a)...); }
};
struct Chk : Counted<3> { int n; Chk() : n(0) {} void reset() { hit(); n = 0; } void operator()() { hit(); if (n++ > 500) throw std::runtime_error("steps"); } };

// hand an object over in way 0, 1, 2
template<class O, class F> static auto way(std::integral_constant<int, 0>, O &o, F f) { return f(o); }
template<class O, class F> static auto way(std::integral_constant<int, 1>, O &o, F f) { return f(boost::ref(o)); }
template<class O, class F> static auto way(std::integral_constant<int, 2>, O &o, F f) { return f(std::ref(o)); }
static const char *W[3] = {"v", "b", "s"};
static void emit(const char *name, std::vector<int> roles, std::vector<int> ways, const Dig &g) {
    std::string m, l;
    for (size_t i = 0; i < roles.size(); ++i) { Ledger &q = led[roles[i]]; m += (i ? ",\"" : "\"") + std::string(W[ways[i]]) + "\"";
        l += (i ? ",[" : "[") + std::to_string(roles[i]) + "," + std::to_string(q.copies) + "," + std::to_string(q.own) + "," + std::to_string(q.other) + "]"; }
    std::string r; vt::Trace::put(r, g);
    vt::tr().raw(std::string("[\"use\",\"") + name + "\",[" + m + "],[" + l + "]," + r + "]");
}
static bool only(const char *name);
static void clear() { memset(led, 0, sizeof led); }
template<int I> using ic = std::integral_constant<int, I>;

// one system
template<class Sys, int A, class F> static void one1(const char *name, F f) { Sys s; clear(); Dig g = way(ic<A>(), s, f); emit(name, {0}, {A}, g); }
template<class Sys = Rhs<0>, class F> static void one(const char *name, F f) { if (!only(name)) return; one1<Sys, 0>(name, f); one1<Sys, 1>(name, f); one1<Sys, 2>(name, f); }
// a pair of functions: each of them in its way, or the pair in one
template<class A_, class B_, int A, int B, class F> static void pair1(const char *name, F f) {
    A_ a; B_ b; clear();
    Dig g = way(ic<A>(), a, [&](auto x) { return way(ic<B>(), b, [&](auto y) { return f(std::make_pair(x, y)); }); });
    emit(name, {0, 3}, {A, B}, g);
}
template<class A_, class B_, int A, class F> static void pairw(const char *name, F f) {
    std::pair<A_, B_> p; p.first.own = p.second.own = true; clear();
    Dig g = way(ic<A>(), p, f); emit(name, {0, 3}, {A, A}, g);
}
template<class A_, class B_, class F> static void two(const char *name, F f) {
    if (!only(name)) return;
    // std::make_pair turns a std::ref into a plain reference, a boost::ref stays one
    pair1<A_, B_, 0, 0>(name, f); pair1<A_, B_, 0, 1>(name, f); pair1<A_, B_, 0, 2>(name, f); pair1<A_, B_, 1, 0>(name, f); pair1<A_, B_, 1, 1>(name, f);
    pair1<A_, B_, 1, 2>(name, f); pair1<A_, B_, 2, 0>(name, f); pair1<A_, B_, 2, 1>(name, f); pair1<A_, B_, 2, 2>(name, f);
    pairw<A_, B_, 0>(name, f); pairw<A_, B_, 1>(name, f); pairw<A_, B_, 2>(name, f);
}
// system, observer, stepper (and checker): every pair of ways of every two of them
template<class S, int A, int B, class F> static void integ1(const char *name, F f) {
    Rhs<0> s; Obs o; S st; Chk c; Dig log; Obs::log = &log; clear();
    Dig g = way(ic<A>(), s, [&](auto s_) { return way(ic<B>(), o, [&](auto o_) { return way(ic<(A + B) % 3>(), st, [&](auto st_) {
        return way(ic<(A + 2 * B) % 3>(), c, [&](auto c_) { return f(st_, s_, o_, c_); }); }); }); });
    g.insert(g.end(), log.begin(), log.end());
    bool chk = led[3].own + led[3].other > 0;
    if (chk) emit(name, {0, 1, 2, 3}, {A, B, (A + B) % 3, (A + 2 * B) % 3}, g); else emit(name, {0, 1, 2}, {A, B, (A + B) % 3}, g);
}
template<class S, class F> static void integ(const char *name, F f) {
    if (!only(name)) return;
    integ1<S, 0, 0>(name, f); integ1<S, 0, 1>(name, f); integ1<S, 0, 2>(name, f); integ1<S, 1, 0>(name, f); integ1<S, 1, 1>(name, f);
    integ1<S, 1, 2>(name, f); integ1<S, 2, 0>(name, f); integ1<S, 2, 1>(name, f); integ1<S, 2, 2>(name, f);
}
template<int A, int B, class F> static void integ2(const char *name, F f) {
    Rhs<0> s; Obs o; Dig log; Obs::log = &log; clear();
    Dig g = way(ic<A>(), s, [&](auto s_) { return way(ic<B>(), o, [&](auto o_) { return f(s_, o_); }); });
    g.insert(g.end(), log.begin(), log.end()); emit(name, {0, 1}, {A, B}, g);
}
template<class F> static void integ0(const char *name, F f) {
    if (!only(name)) return;
    integ2<0, 0>(name, f); integ2<0, 1>(name, f); integ2<0, 2>(name, f); integ2<1, 0>(name, f); integ2<1, 1>(name, f);
    integ2<1, 2>(name, f); integ2<2, 0>(name, f); integ2<2, 1>(name, f); integ2<2, 2>(name, f);
}
template<class S, int A, int B, class F> static void iter1(const char *name, F f) {
    Rhs<0> s; S st; clear();
    Dig g = way(ic<A>(), s, [&](auto s_) { return way(ic<B>(), st, [&](auto st_) { return f(st_, s_); }); });
    emit(name, {0, 2}, {A, B}, g);
}
template<class S, class F> static void iter(const char *name, F f) {
    if (!only(name)) return;
    iter1<S, 0, 0>(name, f); iter1<S, 0, 1>(name, f); iter1<S, 0, 2>(name, f); iter1<S, 1, 0>(name, f); iter1<S, 1, 1>(name, f);
    iter1<S, 1, 2>(name, f); iter1<S, 2, 0>(name, f); iter1<S, 2, 1>(name, f); iter1<S, 2, 2>(name, f);
}

typedef runge_kutta4<V> rk4; typedef runge_kutta_dopri5<V> dp5; typedef runge_kutta_cash_karp54<V> ck54;
typedef controlled_runge_kutta<dp5> cdp5; typedef controlled_runge_kutta<ck54> cck54; typedef dense_output_runge_kutta<cdp5> ddp5;

template<class S> static void basic(const std::string &n) {
    one((n + " in place").c_str(), [](auto f) { S s; V x = start; Dig g; s.do_step(f, x, T0, H); addv(g, x); s.do_step(f, x, T0 + H, H); addv(g, x); return g; });
    one((n + " out of place").c_str(), [](auto f) { S s; V x = start, y(x.size()); Dig g; s.do_step(f, x, T0, y, H); addv(g, y); return g; });
    one((n + " from a derivative").c_str(), [](auto f) { S s; V x = start, d(x.size(), 0.5); Dig g; s.do_step(f, x, d, T0, H); addv(g, x); s.do_step(f, x, T0 + H, H); return g; });
    one((n + " from a derivative, out of place").c_str(), [](auto f) { S s; V x = start, d(x.size(), 0.5), y(x.size()); Dig g; s.do_step(f, x, d, T0, y, H); addv(g, y); s.do_step(f, x, T0, H); return g; });
}
template<class S> static void err_(const std::string &n) {
    one((n + " in place").c_str(), [](auto f) { S s; V x = start; Dig g; s.do_step(f, x, T0, H); addv(g, x); s.do_step(f, x, T0 + H, H); addv(g, x); return g; });
    one((n + " out of place").c_str(), [](auto f) { S s; V x = start, y(x.size()); Dig g; s.do_step(f, x, T0, y, H); addv(g, y); return g; });
    one((n + " error").c_str(), [](auto f) { S s; V x = start, e(x.size()); Dig g; s.do_step(f, x, T0, H, e); addv(g, x); addv(g, e); return g; });
    one((n + " error, out of place").c_str(), [](auto f) { S s; V x = start, e(x.size()), y(x.size()); Dig g; s.do_step(f, x, T0, y, H, e); addv(g, y); addv(g, e); return g; });
}
template<class S> static void plain_err(const std::string &n) {
    err_<S>(n);
    one((n + " from a derivative").c_str(), [](auto f) { S s; V x = start, d(x.size(), 0.5); Dig g; s.do_step(f, x, d, T0, H); addv(g, x); return g; });
    one((n + " error, from a derivative").c_str(), [](auto f) { S s; V x = start, e(x), d(x.size(), 0.5); Dig g; s.do_step(f, x, d, T0, H, e); addv(g, x); addv(g, e); return g; });
    one((n + " error, from a derivative, out of place").c_str(), [](auto f) { S s; V x = start, e(x), y(x), d(x.size(), 0.5); Dig g; s.do_step(f, x, d, T0, y, H, e); addv(g, y); addv(g, e); return g; });
}
template<class S> static void ctl(const std::string &n, bool withd = true) {
    one((n + " try_step").c_str(), [](auto f) { S s; V x = start; Dig g; double t = T0, h = H; for (int k = 0; k < 6; ++k) { g.push_back((int)s.try_step(f, x, t, h)); addv(g, x); add(g, t); add(g, h); } return g; });
    one((n + " try_step, out of place").c_str(), [](auto f) { S s; V x = start, y(x); Dig g; double t = T0, h = H; for (int k = 0; k < 4; ++k) { g.push_back((int)s.try_step(f, x, t, y, h)); addv(g, y); add(g, t); add(g, h); x = y; } return g; });
}
template<class S> static void ctld(const std::string &n) {
    one((n + " try_step from a derivative").c_str(), [](auto f) { S s; V x = start, d(x.size(), 0.5); Dig g; double t = T0, h = H; for (int k = 0; k < 3; ++k) { g.push_back((int)s.try_step(f, x, d, t, h)); addv(g, x); add(g, t); add(g, h); } return g; });
}
template<class S, class D> static Dig dense(S &s, D f) { Dig g; V x = start; s.initialize(x, T0, H); V y(x);
    for (int k = 0; k < 5; ++k) { auto p = s.do_step(f); add(g, p.first); add(g, p.second); s.calc_state((p.first + p.second) / 2, y); addv(g, y); addv(g, s.current_state()); } return g; }

template<class It> static Dig walk(It b, It e) { Dig g; for (int k = 0; b != e && k < 200; ++b, ++k) addv(g, *b); return g; }
template<class It> static Dig walkt(It b, It e) { Dig g; for (int k = 0; b != e && k < 200; ++b, ++k) { auto p = *b; addv(g, p.first); add(g, p.second); } return g; }
template<class It> static Dig walk(std::pair<It, It> p) { return walk(p.first, p.second); }
template<class It> static Dig walkt(std::pair<It, It> p) { return walkt(p.first, p.second); }
// the caller's state has to end where the last element was
#define FIN(E) { V x = start; Dig g = E; addv(g, x); return g; }

#if PART == 0
static void entries() {
    basic<euler<V>>("euler"); basic<modified_midpoint<V>>("modified midpoint"); basic<rk4>("runge_kutta4"); basic<runge_kutta4_classic<V>>("runge_kutta4_classic"); basic<extrapolation_stepper<6, V>>("extrapolation");
    plain_err<ck54>("cash karp"); plain_err<runge_kutta_cash_karp54_classic<V>>("cash karp classic"); plain_err<runge_kutta_fehlberg78<V>>("fehlberg");
    err_<dp5>("dopri5");
    one("dopri5 initialize", [](auto f) { dp5 s; V x = start; Dig g; s.initialize(f, x, T0); s.do_step(f, x, T0, H); addv(g, x); return g; });
    one("dopri5 with derivative", [](auto f) { dp5 s; V x = start, d(x.size(), 0.5), y(x), e(x); Dig g; s.do_step(f, x, d, T0, H); addv(g, x); addv(g, d); s.do_step(f, x, d, T0, H, e); addv(g, d); addv(g, e); V d2(d); s.do_step(f, x, d, T0, y, d2, H); addv(g, y); addv(g, d2); s.do_step(f, x, d, T0, y, d2, H, e); addv(g, e); return g; });
    ctl<cdp5>("controlled dopri5"); ctl<cck54>("controlled cash karp"); ctl<controlled_runge_kutta<runge_kutta_fehlberg78<V>>>("controlled fehlberg");
    ctld<cck54>("controlled cash karp"); ctld<cdp5>("controlled dopri5");
    one("controlled dopri5 initialize", [](auto f) { cdp5 s; V x = start; Dig g; double t = T0, h = H; s.initialize(f, x, t); s.try_step(f, x, t, h); addv(g, x); return g; });
    one("dense dopri5", [](auto f) { ddp5 s; return dense(s, f); });
    one("dense euler", [](auto f) { dense_output_runge_kutta<euler<V>> s; return dense(s, f); });
}
#elif PART == 1
typedef adams_bashforth<4, V> AB; typedef adams_bashforth_moulton<4, V> ABM; typedef adaptive_adams_bashforth_moulton<4, V> AABM; typedef controlled_adams_bashforth_moulton<AABM> CABM;
struct RosenIn { UV x; RosenIn() : x(dim) { for (int i = 0; i < dim; ++i) x[i] = start[i]; } };
template<class S> static Dig rosd(S s, decltype(nullptr)) { return Dig(); }
typedef symplectic_rkn_sb3a_mclachlan<V> SB3; typedef symplectic_rkn_sb3a_m4_mclachlan<V> SB4; typedef symplectic_euler<V> SE;
template<class S> static void sympl(const std::string &n) {
    two<Rhs2<0>, Rhs2<3>>((n + " both").c_str(), [](auto p) { S s; V q = start, m(start); Dig g; auto qp = std::make_pair(q, m); s.do_step(p, qp, T0, H); addv(g, qp.first); addv(g, qp.second);
        s.do_step(p, std::make_pair(std::ref(q), std::ref(m)), T0, H); addv(g, q); addv(g, m); s.do_step(p, std::make_pair(boost::ref(q), boost::ref(m)), T0, H); addv(g, q); addv(g, m);
        s.do_step(p, q, m, T0, H); addv(g, q); auto out = qp; s.do_step(p, qp, T0, out, H); addv(g, out.first); addv(g, out.second); return g; });
    one<Rhs2<0>>((n + " momenta").c_str(), [](auto p) { S s; V q = start, m(start); Dig g; auto qp = std::make_pair(q, m); s.do_step(p, qp, T0, H); addv(g, qp.first); addv(g, qp.second);
        s.do_step(p, std::make_pair(std::ref(q), std::ref(m)), T0, H); addv(g, q); addv(g, m);
        s.do_step(p, q, m, T0, H); addv(g, q); auto out = qp; s.do_step(p, qp, T0, out, H); addv(g, out.first); addv(g, out.second); return g; });
}
static void entries() {
    one("adams bashforth", [](auto f) { AB s; V x = start; Dig g; for (int k = 0; k < 6; ++k) { s.do_step(f, x, T0 + k * H, H); addv(g, x); } V y(x); s.do_step(f, x, T0 + 6 * H, y, H); addv(g, y); return g; });
    one("adams bashforth initialize", [](auto f) { AB s; V x = start; Dig g; double t = T0; s.initialize(f, x, t, H); addv(g, x); s.do_step(f, x, t, H); addv(g, x); return g; });
    one("adams bashforth initialize by a stepper", [](auto f) { AB s; V x = start; Dig g; double t = T0; s.initialize(euler<V>(), f, x, t, H); addv(g, x); s.do_step(f, x, t, H); addv(g, x); return g; });
    one("adams bashforth moulton", [](auto f) { ABM s; V x = start; Dig g; for (int k = 0; k < 6; ++k) { s.do_step(f, x, T0 + k * H, H); addv(g, x); } V y(x); s.do_step(f, x, T0 + 6 * H, y, H); addv(g, y); return g; });
    one("adams bashforth moulton initialize", [](auto f) { ABM s; V x = start; Dig g; double t = T0; s.initialize(f, x, t, H); addv(g, x); s.do_step(f, x, t, H); addv(g, x); s.initialize(euler<V>(), f, x, t, H); s.do_step(f, x, t, H); addv(g, x); return g; });
    one("adaptive adams", [](auto f) { AABM s; V x = start; Dig g; for (int k = 0; k < 6; ++k) { s.do_step(f, x, T0 + k * H, H); addv(g, x); } V y(x), e(x); s.do_step(f, x, T0 + 6 * H, y, H); addv(g, y); s.do_step(f, y, T0 + 7 * H, H, e); addv(g, y); addv(g, e); s.do_step(f, y, T0 + 8 * H, x, H, e); addv(g, x); addv(g, e); return g; });
    one("adaptive adams initialize", [](auto f) { AABM s; V x = start; Dig g; double t = T0; s.initialize(f, x, t, H); addv(g, x); s.do_step(f, x, t, H); addv(g, x); s.initialize(euler<V>(), f, x, t, H); s.do_step(f, x, t, H); addv(g, x); return g; });
    ctl<CABM>("controlled adams");
    one("controlled adams initialize", [](auto f) { CABM s; V x = start; Dig g; double t = T0, h = H / 8; s.initialize(f, x, t, h); addv(g, x); s.try_step(f, x, t, h); addv(g, x); s.initialize_controlled(cdp5(), f, x, t, h); addv(g, x); add(g, t); s.try_step(f, x, t, h); addv(g, x); return g; });
    ctl<bulirsch_stoer<V>>("bulirsch stoer"); ctld<bulirsch_stoer<V>>("bulirsch stoer");
    one("dense bulirsch stoer", [](auto f) { bulirsch_stoer_dense_out<V> s; return dense(s, f); });
    sympl<SE>("symplectic euler"); sympl<SB3>("sb3a"); sympl<SB4>("sb3a m4");
    one<Acc<0>>("velocity verlet", [](auto f) { velocity_verlet<V> s; V q = start, p(start); Dig g; s.do_step(f, std::make_pair(std::ref(q), std::ref(p)), T0, H); addv(g, q); addv(g, p); s.do_step(f, std::make_pair(boost::ref(q), boost::ref(p)), T0 + H, H); addv(g, q);
        V a(q), q2(q), p2(q), a2(q); s.do_step(f, q, p, a, q2, p2, a2, T0, H); addv(g, q2); addv(g, a2); s.initialize(f, q, p, T0); s.do_step(f, std::make_pair(boost::ref(q), boost::ref(p)), T0, H); addv(g, q); return g; });
    two<Rhs<0>, Jac<3>>("implicit euler", [](auto p) { implicit_euler<double> s; RosenIn r; Dig g; s.do_step(p, r.x, T0, H / 8); addv(g, r.x); s.do_step(p, r.x, T0, H / 8); addv(g, r.x); return g; });
    two<Rhs<0>, Jac<3>>("rosenbrock", [](auto p) { rosenbrock4<double> s; RosenIn r; UV e(r.x), y(r.x); Dig g; s.do_step(p, r.x, T0, H); addv(g, r.x); s.do_step(p, r.x, T0, y, H); addv(g, y); s.do_step(p, y, T0, H, e); addv(g, e); s.do_step(p, y, T0, r.x, H, e); addv(g, r.x); addv(g, e); return g; });
    two<Rhs<0>, Jac<3>>("controlled rosenbrock", [](auto p) { rosenbrock4_controller<rosenbrock4<double>> s; RosenIn r; UV y(r.x); Dig g; double t = T0, h = H; for (int k = 0; k < 5; ++k) { g.push_back((int)s.try_step(p, r.x, t, h)); addv(g, r.x); add(g, t); add(g, h); } g.push_back((int)s.try_step(p, r.x, t, y, h)); addv(g, y); return g; });
    two<Rhs<0>, Jac<3>>("dense rosenbrock", [](auto p) { rosenbrock4_dense_output<rosenbrock4_controller<rosenbrock4<double>>> s; RosenIn r; UV y(r.x); Dig g; s.initialize(r.x, T0, H); for (int k = 0; k < 4; ++k) { auto q = s.do_step(p); add(g, q.second); s.calc_state((q.first + q.second) / 2, y); addv(g, y); } return g; });
}
#elif PART == 2
static std::vector<double> times() { std::vector<double> t; for (int k = 0; k < 5; ++k) t.push_back(T0 + k * k * H * 0.7); return t; }
template<class S> static void fns(const std::string &n) {
    integ<S>((n + " integrate_const").c_str(), [](auto st, auto f, auto o, auto c) { V x = start; Dig g; g.push_back((int)integrate_const(st, f, x, T0, T0 + 4.3 * H, H, o)); addv(g, x); return g; });
    integ<S>((n + " integrate_n_steps").c_str(), [](auto st, auto f, auto o, auto c) { V x = start; Dig g; add(g, integrate_n_steps(st, f, x, T0, H, 4, o)); addv(g, x); return g; });
    integ<S>((n + " integrate_adaptive").c_str(), [](auto st, auto f, auto o, auto c) { V x = start; Dig g; g.push_back((int)integrate_adaptive(st, f, x, T0, T0 + 4.3 * H, H, o)); addv(g, x); return g; });
    integ<S>((n + " integrate_times").c_str(), [](auto st, auto f, auto o, auto c) { V x = start; Dig g; auto t = times(); g.push_back((int)integrate_times(st, f, x, t.begin(), t.end(), H, o)); addv(g, x); return g; });
    integ<S>((n + " integrate_times range").c_str(), [](auto st, auto f, auto o, auto c) { V x = start; Dig g; auto t = times(); g.push_back((int)integrate_times(st, f, x, t, H, o)); addv(g, x); return g; });
}
static void entries() {
    fns<St<rk4>>("plain"); fns<StC<cdp5>>("controlled"); fns<St<ddp5>>("dense");
    integ0("integrate", [](auto f, auto o) { V x = start; Dig g; g.push_back((int)integrate(f, x, T0, T0 + 4.3 * H, H, o)); V y = start; g.push_back((int)integrate<double>(f, y, T0, T0 + 4.3 * H, H, o)); addv(g, x); addv(g, y); return g; });
}
#elif PART == 3
static std::vector<double> times() { std::vector<double> t; for (int k = 0; k < 5; ++k) t.push_back(T0 + k * k * H * 0.7); return t; }
static V wide() { V x(1, 7.5); x.insert(x.end(), start.begin(), start.end()); x.push_back(8.5); return x; }
template<class S> static void none(const std::string &n) {
    iter<S>((n + " integrate_const, no observer").c_str(), [](auto st, auto f) { V x = start; Dig g; g.push_back((int)integrate_const(st, f, x, T0, T0 + 4.3 * H, H)); addv(g, x); return g; });
    iter<S>((n + " integrate_n_steps, no observer").c_str(), [](auto st, auto f) { V x = start; Dig g; add(g, integrate_n_steps(st, f, x, T0, H, 4)); addv(g, x); return g; });
    iter<S>((n + " integrate_adaptive, no observer").c_str(), [](auto st, auto f) { V x = start; Dig g; g.push_back((int)integrate_adaptive(st, f, x, T0, T0 + 4.3 * H, H)); addv(g, x); return g; });
}
// the state as a temporary view into a larger vector
#define VIEW boost::make_iterator_range(x.begin() + 1, x.end() - 1)
template<class S> static void view(const std::string &n) {
    integ<S>((n + " view integrate_const").c_str(), [](auto st, auto f, auto o, auto c) { V x = wide(); Dig g; g.push_back((int)integrate_const(st, f, VIEW, T0, T0 + 4.3 * H, H, o)); addv(g, x); return g; });
    integ<S>((n + " view integrate_const, checked").c_str(), [](auto st, auto f, auto o, auto c) { V x = wide(); Dig g; g.push_back((int)integrate_const(st, f, VIEW, T0, T0 + 4.3 * H, H, o, c)); addv(g, x); return g; });
    integ<S>((n + " view integrate_n_steps").c_str(), [](auto st, auto f, auto o, auto c) { V x = wide(); Dig g; add(g, integrate_n_steps(st, f, VIEW, T0, H, 4, o)); addv(g, x); return g; });
    integ<S>((n + " view integrate_n_steps, checked").c_str(), [](auto st, auto f, auto o, auto c) { V x = wide(); Dig g; add(g, integrate_n_steps(st, f, VIEW, T0, H, 4, o, c)); addv(g, x); return g; });
    integ<S>((n + " view integrate_adaptive").c_str(), [](auto st, auto f, auto o, auto c) { V x = wide(); Dig g; g.push_back((int)integrate_adaptive(st, f, VIEW, T0, T0 + 4.3 * H, H, o)); addv(g, x); return g; });
    integ<S>((n + " view integrate_times").c_str(), [](auto st, auto f, auto o, auto c) { V x = wide(); Dig g; auto t = times(); g.push_back((int)integrate_times(st, f, VIEW, t, H, o)); addv(g, x); return g; });
    integ<S>((n + " view integrate_times, checked").c_str(), [](auto st, auto f, auto o, auto c) { V x = wide(); Dig g; auto t = times(); g.push_back((int)integrate_times(st, f, VIEW, t.begin(), t.end(), H, o, c)); addv(g, x); return g; });
}
template<class S> static void fns(const std::string &n) {
    integ<S>((n + " integrate_const, checked").c_str(), [](auto st, auto f, auto o, auto c) { V x = start; Dig g; g.push_back((int)integrate_const(st, f, x, T0, T0 + 4.3 * H, H, o, c)); addv(g, x); return g; });
    integ<S>((n + " integrate_n_steps, checked").c_str(), [](auto st, auto f, auto o, auto c) { V x = start; Dig g; add(g, integrate_n_steps(st, f, x, T0, H, 4, o, c)); addv(g, x); return g; });
    integ<S>((n + " integrate_times, checked").c_str(), [](auto st, auto f, auto o, auto c) { V x = start; Dig g; auto t = times(); g.push_back((int)integrate_times(st, f, x, t.begin(), t.end(), H, o, c)); addv(g, x); return g; });
    integ<S>((n + " integrate_times range, checked").c_str(), [](auto st, auto f, auto o, auto c) { V x = start; Dig g; auto t = times(); g.push_back((int)integrate_times(st, f, x, t, H, o, c)); addv(g, x); return g; });
}
static void entries() {
    none<St<rk4>>("plain"); none<StC<cdp5>>("controlled"); none<St<ddp5>>("dense"); view<St<rk4>>("plain"); view<StC<cdp5>>("controlled");
    fns<St<rk4>>("plain"); fns<StC<cdp5>>("controlled"); fns<St<ddp5>>("dense");
    if (only("observer_collection")) {
        for (int n = 0; n < 5; ++n) {
            observer_collection<V, double> oc; std::string calls, obs; std::vector<std::pair<V, double>> seen; int nc = 0;
            for (int i = 1; i <= n; ++i) oc.observers().push_back([&, i](const V &x, double t) { Dig g; addv(g, x); int h = 0; for (int q : g) h = (h * 31 + q) & 0xfffffff;
                calls += (nc++ ? ",[" : "[") + std::to_string(i) + "," + std::to_string(h) + "," + std::to_string(bits(t)) + "]"; });
            int no = 0; auto rec = [&](const V &x, double t) { Dig g; addv(g, x); int h = 0; for (int q : g) h = (h * 31 + q) & 0xfffffff; obs += (no++ ? ",[" : "[") + std::to_string(h) + "," + std::to_string(bits(t)) + "]"; };
            V x = start, y = start; Rhs<0> f; bool d = n & 1;
            if (d) { integrate_const(ddp5(), f, x, T0, T0 + 4 * H, H, rec); integrate_const(ddp5(), f, y, T0, T0 + 4 * H, H, boost::ref(oc)); }
            else { integrate_adaptive(cdp5(), f, x, T0, T0 + 4 * H, H, rec); integrate_adaptive(cdp5(), f, y, T0, T0 + 4 * H, H, oc); }
            vt::tr().raw("[\"collect\"," + std::to_string(n) + ",[" + obs + "],[" + calls + "]]");
        }
    }
}
#elif PART == 4
static std::vector<double> times() { std::vector<double> t; for (int k = 0; k < 5; ++k) t.push_back(T0 + k * k * H * 0.7); return t; }
template<class S> static void cst(const std::string &n) {
    iter<S>((n + " const_step").c_str(), [](auto st, auto f) FIN(walk(make_const_step_iterator_begin(st, f, x, T0, T0 + 4.3 * H, H), make_const_step_iterator_end(st, f, x))));
    iter<S>((n + " const_step range").c_str(), [](auto st, auto f) FIN(walk(make_const_step_range(st, f, x, T0, T0 + 4.3 * H, H))));
    iter<S>((n + " const_step time").c_str(), [](auto st, auto f) FIN(walkt(make_const_step_time_iterator_begin(st, f, x, T0, T0 + 4.3 * H, H), make_const_step_time_iterator_end(st, f, x))));
    iter<S>((n + " const_step time range").c_str(), [](auto st, auto f) FIN(walkt(make_const_step_time_range(st, f, x, T0, T0 + 4.3 * H, H))));
    iter<S>((n + " n_step").c_str(), [](auto st, auto f) FIN(walk(make_n_step_iterator_begin(st, f, x, T0, H, 4), make_n_step_iterator_end(st, f, x))));
    iter<S>((n + " n_step range").c_str(), [](auto st, auto f) FIN(walk(make_n_step_range(st, f, x, T0, H, 4))));
    iter<S>((n + " n_step time").c_str(), [](auto st, auto f) FIN(walkt(make_n_step_time_iterator_begin(st, f, x, T0, H, 4), make_n_step_time_iterator_end(st, f, x))));
    iter<S>((n + " n_step time range").c_str(), [](auto st, auto f) FIN(walkt(make_n_step_time_range(st, f, x, T0, H, 4))));
}
template<class S> static void adp(const std::string &n) {
    iter<S>((n + " adaptive").c_str(), [](auto st, auto f) FIN(walk(make_adaptive_iterator_begin(st, f, x, T0, T0 + 4.3 * H, H), make_adaptive_iterator_end(st, f, x))));
    iter<S>((n + " adaptive range").c_str(), [](auto st, auto f) FIN(walk(make_adaptive_range(st, f, x, T0, T0 + 4.3 * H, H))));
    iter<S>((n + " adaptive time").c_str(), [](auto st, auto f) FIN(walkt(make_adaptive_time_iterator_begin(st, f, x, T0, T0 + 4.3 * H, H), make_adaptive_time_iterator_end(st, f, x))));
    iter<S>((n + " adaptive time range").c_str(), [](auto st, auto f) FIN(walkt(make_adaptive_time_range(st, f, x, T0, T0 + 4.3 * H, H))));
}
template<class S> static void tms(const std::string &n) {
    typedef std::vector<double>::iterator TI;
    iter<S>((n + " times").c_str(), [](auto st, auto f) { auto t = times(); FIN(walk(make_times_iterator_begin(st, f, x, t.begin(), t.end(), H), make_times_iterator_end<TI>(st, f, x))) });
    iter<S>((n + " times range").c_str(), [](auto st, auto f) { auto t = times(); FIN(walk(make_times_range(st, f, x, t.begin(), t.end(), H))) });
    iter<S>((n + " times time").c_str(), [](auto st, auto f) { auto t = times(); FIN(walkt(make_times_time_iterator_begin(st, f, x, t.begin(), t.end(), H), make_times_time_iterator_end<TI>(st, f, x))) });
    iter<S>((n + " times time range").c_str(), [](auto st, auto f) { auto t = times(); FIN(walkt(make_times_time_range(st, f, x, t.begin(), t.end(), H))) });
}
static void entries() {
    cst<St<rk4>>("plain"); tms<St<rk4>>("plain");
    adp<StC<cdp5>>("controlled"); tms<StC<cdp5>>("controlled");
    cst<St<ddp5>>("dense"); adp<St<ddp5>>("dense"); tms<St<ddp5>>("dense");
}
#endif

static bool only(const char *name) { vt::tr().end(); vt::tr().begin(std::string("{\"entry\":\"") + name + "\"}"); return true; }
int main(int argc, char **argv) {
    // scenarios: seeds;  trace file
    vt::tr().open(argv[2]); vt::guard(200);
    FILE *f = fopen(argv[1], "r"); unsigned sd;
    while (fscanf(f, "%u", &sd) == 1) {
        seed = sd; for (int i = 0; i < 8; ++i) rnd();
        dim = 1 + (int)(rnd() * 4); start.clear(); for (int i = 0; i < dim; ++i) start.push_back(rnd() * 4 - 2);
        K = rnd() * 2 - 1; T0 = rnd() * 4 - 2; H = (0.05 + 0.4 * rnd()) * (rnd() < 0.5 ? -1 : 1);
        entries(); vt::tr().end();
    }
    vt::tr().close(); return 0;
}
