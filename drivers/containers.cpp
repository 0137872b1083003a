// The same steps with the state in different containers, over the prime field:
// all containers have to give the same numbers.
#include "gf.hpp"
#include <vector>
#include <array>
#include <boost/array.hpp>
#include <boost/operators.hpp>
#include <boost/multi_array.hpp>
#include <boost/fusion/include/vector.hpp>
#include <boost/fusion/include/at_c.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
#include <Eigen/Dense>
namespace Eigen { template<> struct NumTraits<gf::F> { typedef gf::F Real; typedef gf::F NonInteger; typedef gf::F Nested; typedef gf::F Literal;
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 1, MulCost = 1 };
    static gf::F epsilon() { return 0; } static gf::F dummy_precision() { return 0; } static gf::F highest() { return 46336; } static gf::F lowest() { return 0; } static int digits10() { return 4; } }; }
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
using namespace boost::numeric::odeint;
using gf::F;

struct point : boost::additive1<point, boost::additive2<point, F, boost::multiplicative2<point, F>>> {
    F x, y, z; point() {} point(F a) : x(a), y(a), z(a) {}
    point &operator+=(const point &o) { x += o.x; y += o.y; z += o.z; return *this; }
    point &operator-=(const point &o) { x -= o.x; y -= o.y; z -= o.z; return *this; }
    point &operator*=(const F &a) { x *= a; y *= a; z *= a; return *this; }
    point &operator/=(const F &a) { x /= a; y /= a; z /= a; return *this; }
    point &operator+=(const F &a) { x += a; y += a; z += a; return *this; }
    point &operator-=(const F &a) { x -= a; y -= a; z -= a; return *this; }
};
// flat views
template<class C> struct at { static F &get(C &c, int i) { return c[i]; } static C make() { return C(3); } };
template<size_t N> struct at<std::array<F, N>> { typedef std::array<F, N> C; static F &get(C &c, int i) { return c[i]; } static C make() { return C(); } };
template<size_t N> struct at<boost::array<F, N>> { typedef boost::array<F, N> C; static F &get(C &c, int i) { return c[i]; } static C make() { return C(); } };
template<> struct at<point> { static F &get(point &p, int i) { return i == 0 ? p.x : i == 1 ? p.y : p.z; } static point make() { return point(); } };
typedef boost::fusion::vector<F, F, F> fus;
template<> struct at<fus> { static F &get(fus &p, int i) { return i == 0 ? boost::fusion::at_c<0>(p) : i == 1 ? boost::fusion::at_c<1>(p) : boost::fusion::at_c<2>(p); } static fus make() { return fus(); } };
typedef boost::multi_array<F, 1> ma1; typedef boost::multi_array<F, 2> ma2;
template<> struct at<ma1> { static F &get(ma1 &p, int i) { return p.data()[i]; } static ma1 make() { ma1 a(boost::extents[3]); a.reindex(5); return a; } };
template<> struct at<ma2> { static F &get(ma2 &p, int i) { return p.data()[i]; } static ma2 make() { return ma2(boost::extents[3][1]); } };
typedef Eigen::Matrix<F, Eigen::Dynamic, 1> eigd; typedef Eigen::Matrix<F, 3, 1> eigf;
template<> struct at<eigd> { static F &get(eigd &p, int i) { return p(i); } static eigd make() { return eigd(3); } };
template<> struct at<eigf> { static F &get(eigf &p, int i) { return p(i); } static eigf make() { return eigf(); } };
typedef openmp_state<F> oms;
template<> struct at<oms> { static F &get(oms &p, int i) { return i < 2 ? p[0][i] : p[2][0]; } static oms make() { oms s; s.push_back(std::vector<F>(2)); s.push_back(std::vector<F>()); s.push_back(std::vector<F>(1)); return s; } };

template<class C> struct Rhs { long seed; void operator()(const C &x, C &d, F t) const {
    long a[3]; for (int i = 0; i < 3; ++i) a[i] = at<C>::get(const_cast<C&>(x), i).v;
    for (int i = 0; i < 3; ++i) at<C>::get(d, i) = gf::hash(seed, i, a, 3, t.v); } };

static long seed; static long init[3]; static F T0, H;
template<class C> static C start() { C c = at<C>::make(); for (int i = 0; i < 3; ++i) at<C>::get(c, i) = F(init[i]); return c; }
template<class C> static std::string vals(C &c) { std::string s = "["; for (int i = 0; i < 3; ++i) s += (i ? "," : "") + gf::js(at<C>::get(c, i)); return s + "]"; }

// with copies: the run goes on with copies, with assigned steppers that were in use before (for a state of
// another size, where there is one), and with the original after its copy was used
static bool copying;
template<class C> static C other() { return at<C>::make(); }
template<> std::vector<F> other() { return std::vector<F>(5); }
template<> boost::numeric::ublas::vector<F> other() { return boost::numeric::ublas::vector<F>(2); }
template<> ma1 other() { return ma1(boost::extents[4]); }
template<> ma2 other() { return ma2(boost::extents[2][2]); }
template<> eigd other() { return eigd(5); }
template<class C> struct Zero { void operator()(const C &x, C &d, F t) const { for (int i = 0; i < 2; ++i) at<C>::get(d, i) = at<C>::get(const_cast<C&>(x), i); } };
template<class S, class C> static void use(S &s, C z = at<C>::make()) { s.do_step(Zero<C>(), z, F(3), F(5)); }
template<class S, class C> static void usee(S &s, C z = at<C>::make()) { C e = z; s.do_step(Zero<C>(), z, F(3), F(5), e); }
template<class S, class C> static void plain(const char *kind, S s) {
    C x = start<C>(), y = at<C>::make(); Rhs<C> f{seed}; F t = T0; std::string r; S u, v; use<S, C>(u, other<C>());
    for (int k = 0; k < 6; ++k) {
        if (copying && k == 2) { S q(s); C z = x; q.do_step(f, z, t + F(7), F(9)); use<S, C>(q); v = q; }
        if (copying && k == 3) { u = s; use<S, C>(s); S w(u); use<S, C>(u); s = w; }
        if (copying && k == 5) { v = s; s = v; }
        if (k == 3) { s.do_step(f, x, t, y, H); x = y; } else s.do_step(f, x, t, H);
        t += H; r += (k ? "," : "") + vals(x);
    }
    vt::tr().raw(std::string("[\"run\",\"") + kind + "\",[" + r + "]]");
}
template<class S, class C> static void err(const char *kind, S s) {
    C x = start<C>(), e = start<C>(); Rhs<C> f{seed}; F t = T0; std::string r; S u; usee<S, C>(u, other<C>());
    for (int k = 0; k < 3; ++k) {
        if (copying && k == 1) { u = s; usee<S, C>(s); S w(u); usee<S, C>(u); s = w; }
        s.do_step(f, x, t, H, e); t += H; r += (k ? "," : "") + vals(x) + "," + vals(e);
    }
    vt::tr().raw(std::string("[\"run\",\"") + kind + "\",[" + r + "]]");
}
#define EACH(M) M("range", std::vector<F>, range_algebra) M("default vector", std::vector<F>, typename algebra_dispatcher<std::vector<F>>::algebra_type) \
    M("std array", SA, typename algebra_dispatcher<SA>::algebra_type) M("boost array", BA, typename algebra_dispatcher<BA>::algebra_type) M("array as range", BA, range_algebra) \
 M("ublas", UV, typename algebra_dispatcher<UV>::algebra_type) \
    M("multi_array 1", ma1, typename algebra_dispatcher<ma1>::algebra_type) M("multi_array 2", ma2, typename algebra_dispatcher<ma2>::algebra_type) \
    M("fusion", fus, typename algebra_dispatcher<fus>::algebra_type) M("point", point, vector_space_algebra) \
    M("eigen dynamic", eigd, typename algebra_dispatcher<eigd>::algebra_type) M("eigen fixed", eigf, vector_space_algebra) \
    M("openmp state", oms, typename algebra_dispatcher<oms>::algebra_type) M("openmp range", std::vector<F>, openmp_range_algebra)
typedef std::array<F, 3> SA; typedef boost::array<F, 3> BA; typedef boost::numeric::ublas::vector<F> UV;
static void begin(const char *st) { vt::tr().begin(std::string("{\"stepper\":\"") + st + "\",\"seed\":" + std::to_string(seed) + (copying ? ",\"copies\":1}" : "}")); }

template<class Al> struct Go {
};
static void go() {
#define P(N, C, A) plain<STEP(C, A), C>(N, STEP(C, A)());
#define E(N, C, A) err<STEP(C, A), C>(N, STEP(C, A)());
#define typename
#if PART == 0
#define STEP(C, A) euler<C, F, C, F, A>
    begin("euler"); EACH(P) vt::tr().end();
#undef STEP
#define STEP(C, A) runge_kutta4<C, F, C, F, A>
    begin("runge_kutta4"); EACH(P) vt::tr().end();
#undef STEP
#elif PART == 1
#define STEP(C, A) runge_kutta_cash_karp54<C, F, C, F, A>
    begin("runge_kutta_cash_karp54"); EACH(E) vt::tr().end();
#undef STEP
#define STEP(C, A) runge_kutta_dopri5<C, F, C, F, A>
    begin("runge_kutta_dopri5"); EACH(E) vt::tr().end();
#undef STEP
#elif PART == 2
#define STEP(C, A) runge_kutta_fehlberg78<C, F, C, F, A>
    begin("runge_kutta_fehlberg78"); EACH(E) vt::tr().end();
#undef STEP
#define STEP(C, A) modified_midpoint<C, F, C, F, A>
    begin("modified_midpoint"); EACH(P) vt::tr().end();
#undef STEP
#else
#define STEP(C, A) adams_bashforth<4, C, F, C, F, A>
    begin("adams_bashforth"); EACH(P) vt::tr().end();
#undef STEP
#define STEP(C, A) runge_kutta4_classic<C, F, C, F, A>
    begin("runge_kutta4_classic"); EACH(P) vt::tr().end();
#undef STEP
#endif
#undef typename
}
int main(int argc, char **argv) {
    vt::tr().open(argv[1]); vt::guard(300);
    std::mt19937 g(atoi(argv[2])); copying = argc > 4;
    for (int k = 0; k < atoi(argv[3]); ++k) {
        seed = (long)(g() % 100000); for (auto &v : init) v = g() % gf::P; T0 = F((long)(g() % gf::P)); H = F((long)(g() % gf::P));
        go();
    }
    vt::tr().close();
}
