// How far off a step was, in every container: error measures, step-size and
// order decisions in floating point, bit by bit the same.  argv: trace seed n
#include "trace.hpp"
#include <random>
#include <array>
#include <boost/array.hpp>
#include <boost/operators.hpp>
#include <boost/multi_array.hpp>
#include <boost/fusion/include/vector.hpp>
#include <boost/fusion/include/at_c.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
#include <Eigen/Dense>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
using namespace boost::numeric::odeint;
const int N = 4;
struct point : boost::additive1<point, boost::additive2<point, double, boost::multiplicative2<point, double, boost::multiplicative1<point>>>> {
    double v[N]; point(double a = 0) { for (auto &c : v) c = a; }
    point &operator+=(const point &o) { for (int i = 0; i < N; ++i) v[i] += o.v[i]; return *this; }
    point &operator*=(const point &o) { for (int i = 0; i < N; ++i) v[i] *= o.v[i]; return *this; }
    point &operator/=(const point &o) { for (int i = 0; i < N; ++i) v[i] /= o.v[i]; return *this; }
    point &operator-=(const point &o) { for (int i = 0; i < N; ++i) v[i] -= o.v[i]; return *this; }
    point &operator+=(double a) { for (auto &c : v) c += a; return *this; }
    point &operator-=(double a) { for (auto &c : v) c -= a; return *this; }
    point &operator*=(double a) { for (auto &c : v) c *= a; return *this; }
    point &operator/=(double a) { for (auto &c : v) c /= a; return *this; }
};
inline point abs(const point &p) { point r; for (int i = 0; i < N; ++i) r.v[i] = std::abs(p.v[i]); return r; }
namespace boost { namespace numeric { namespace odeint { template<> struct vector_space_norm_inf<point> { typedef double result_type;
    double operator()(const point &p) const { double m = 0; for (double c : p.v) m = std::max(m, std::abs(c)); return m; } };
template<typename... T> struct norm_result_type<boost::fusion::vector<T...>> { typedef double type; }; } } }
// flat views
template<class C> struct at { static double &get(C &c, int i) { return c[i]; } static C make() { return C(N); } };
template<> struct at<std::array<double, N>> { typedef std::array<double, N> C; static double &get(C &c, int i) { return c[i]; } static C make() { return C(); } };
template<> struct at<boost::array<double, N>> { typedef boost::array<double, N> C; static double &get(C &c, int i) { return c[i]; } static C make() { return C(); } };
template<> struct at<point> { static double &get(point &p, int i) { return p.v[i]; } static point make() { return point(); } };
typedef boost::fusion::vector<double, double, double, double> fus;
template<> struct at<fus> { static double &get(fus &p, int i) { return i == 0 ? boost::fusion::at_c<0>(p) : i == 1 ? boost::fusion::at_c<1>(p) : i == 2 ? boost::fusion::at_c<2>(p) : boost::fusion::at_c<3>(p); } static fus make() { return fus(); } };
typedef boost::multi_array<double, 1> ma1; typedef boost::multi_array<double, 2> ma2;
template<> struct at<ma1> { static double &get(ma1 &p, int i) { return p.data()[i]; } static ma1 make() { ma1 a(boost::extents[N]); a.reindex(-3); return a; } };
template<> struct at<ma2> { static double &get(ma2 &p, int i) { return p.data()[i]; } static ma2 make() { ma2 a(boost::extents[2][2]); return a; } };
typedef Eigen::Matrix<double, Eigen::Dynamic, 1> eigd; typedef Eigen::Matrix<double, N, 1> eigf; typedef Eigen::Matrix<double, 2, 2> eigm;
template<> struct at<eigd> { static double &get(eigd &p, int i) { return p(i); } static eigd make() { return eigd(N); } };
template<> struct at<eigf> { static double &get(eigf &p, int i) { return p(i); } static eigf make() { return eigf(); } };
template<> struct at<eigm> { static double &get(eigm &p, int i) { return p(i / 2, i % 2); } static eigm make() { return eigm(); } };
typedef boost::numeric::ublas::vector<double> UV; typedef boost::numeric::ublas::matrix<double> UM;
template<> struct at<UM> { static double &get(UM &p, int i) { return p(i / 2, i % 2); } static UM make() { return UM(2, 2); } };
typedef openmp_state<double> oms;
template<> struct at<oms> { static double &get(oms &p, int i) { return i < 3 ? p[0][i] : p[2][0]; } static oms make() { oms s; s.push_back(std::vector<double>(3)); s.push_back(std::vector<double>()); s.push_back(std::vector<double>(1)); return s; } };

static std::mt19937 g;
static double pick() { return std::ldexp((double)(int)(g() % 2001) - 1000, -(int)(g() % 12)); }
static std::string hex(double d) { char b[40]; snprintf(b, sizeof b, "\"%a\"", d); return b; }
static double W[N][N + 2], X0[N], D0[N], E0[N], TOL[4], H0, HM; static int SEEDT;
template<class C> struct Rhs { void operator()(const C &cx, C &d, double t) const { C &x = const_cast<C &>(cx);
    for (int i = 0; i < N; ++i) { double s = W[i][N] * t; for (int j = 0; j < N; ++j) s += W[i][j] * at<C>::get(x, j) * at<C>::get(x, (j + i) % N); at<C>::get(d, i) = s + W[i][N + 1]; } } };
template<class C> static C fill(const double *v) { C c = at<C>::make(); for (int i = 0; i < N; ++i) at<C>::get(c, i) = v[i]; return c; }
template<class C> static std::string vals(C &c) { std::string s; for (int i = 0; i < N; ++i) s += (i ? "," : "") + hex(at<C>::get(c, i)); return s; }
static void run(const char *n, const std::string &r) { vt::tr().raw(std::string("[\"run\",\"") + n + "\",[" + r + "]]"); }
// the measure on its own
template<class C, class A> static void measure(const char *n) {
    default_error_checker<double, A, typename operations_dispatcher<C>::operations_type> k(TOL[0], TOL[1], TOL[2], TOL[3]); A a;
    C x = fill<C>(X0), d = fill<C>(D0), e = fill<C>(E0); double r = k.error(a, x, d, e, H0); run(n, hex(r) + "," + vals(e));
}
// what a controller does with it
template<class Ctl, class C> static void control(const char *n, Ctl c) {
    C x = fill<C>(X0); double t = 0.25, dt = H0; std::string r; Rhs<C> f;
    for (int k = 0; k < 12; ++k) { int ok = c.try_step(f, x, t, dt) == success; r += (k ? "," : "") + std::to_string(ok) + "," + hex(t) + "," + hex(dt) + "," + vals(x); }
    run(n, r);
}
template<class Ctl, class C> static void multistep(const char *n, Ctl c) {
    C x = fill<C>(X0); double t = 0.25, dt = H0 / 64; std::string r; Rhs<C> f;
    for (int k = 0; k < 16; ++k) { int ok = c.try_step(f, x, t, dt) == success; r += (k ? "," : "") + std::to_string(ok) + "," + hex(t) + "," + hex(dt) + "," + vals(x); }
    run(n, r);
}
#define DISP(C) algebra_dispatcher<C>::algebra_type
typedef std::vector<double> SV; typedef std::array<double, N> SA; typedef boost::array<double, N> BA;
#define SOME(M) M("range", SV, range_algebra) M("std array", SA, DISP(SA)) M("boost array", BA, DISP(BA)) M("array as range", BA, range_algebra) \
    M("multi_array 1", ma1, DISP(ma1)) M("multi_array 2", ma2, DISP(ma2)) \
    M("openmp state", oms, DISP(oms)) M("openmp range", SV, openmp_range_algebra)
#define MORE(M) SOME(M) M("ublas", UV, DISP(UV)) M("ublas as range", UV, range_algebra) M("fusion", fus, DISP(fus)) M("point", point, vector_space_algebra) M("ublas vector space", UV, vector_space_algebra) M("ublas matrix", UM, vector_space_algebra) \
    M("eigen dynamic", eigd, DISP(eigd)) M("eigen fixed", eigf, DISP(eigf))
#define EACH(M) MORE(M) M("eigen matrix", eigm, vector_space_algebra)
template<class St> struct chk { typedef default_error_checker<double, typename St::algebra_type, typename St::operations_type> type; };
template<class St> static controlled_runge_kutta<St> ctl() { typedef controlled_runge_kutta<St> R;
    return R(typename chk<St>::type(TOL[0], TOL[1], TOL[2], TOL[3]), default_step_adjuster<double, double>(HM)); }
#define MEAS(N, C, A) measure<C, A>(N);
#define CK(N, C, A) control<controlled_runge_kutta<runge_kutta_cash_karp54<C, double, C, double, A>>, C>(N, ctl<runge_kutta_cash_karp54<C, double, C, double, A>>());
#define DP(N, C, A) control<controlled_runge_kutta<runge_kutta_dopri5<C, double, C, double, A>>, C>(N, ctl<runge_kutta_dopri5<C, double, C, double, A>>());
#define BS(N, C, A) control<bulirsch_stoer<C, double, C, double, A>, C>(N, bulirsch_stoer<C, double, C, double, A>(TOL[0], TOL[1], TOL[2], TOL[3], HM));
#define BD(N, C, A) { typedef bulirsch_stoer_dense_out<C, double, C, double, A> B; control<B, C>(N, B(TOL[0], TOL[1], TOL[2], TOL[3], HM)); }
#define AB(N, C, A) { typedef adaptive_adams_bashforth_moulton<3, C, double, C, double, A> B; typedef controlled_adams_bashforth_moulton<B> Q; multistep<Q, C>(N, Q()); }
static void begin(const char *st, int k) { vt::tr().begin(std::string("{\"what\":\"") + st + "\",\"number\":" + std::to_string(k) + "}"); }
int main(int argc, char **argv) {
    vt::tr().open(argv[1]); vt::guard(300); int n = atoi(argv[3]);
    for (int k = 0; k < n; ++k) {
        g.seed(atoi(argv[2]) * 1000 + k);
        for (auto &w : W) for (auto &c : w) c = pick() / 400;
        for (int i = 0; i < N; ++i) { X0[i] = pick() / 64; D0[i] = pick(); E0[i] = pick() / 4096; }
        TOL[0] = std::ldexp(1.0, -(int)(g() % 30)); TOL[1] = g() % 4 ? std::ldexp(1.0, -(int)(g() % 30)) : 0; TOL[2] = g() % 3; TOL[3] = g() % 3;
        H0 = std::ldexp(1 + g() % 7, -(int)(g() % 8)); HM = g() % 3 ? 0 : H0 * 2;
#if PART == 0
        begin("measure", k); EACH(MEAS) vt::tr().end();
        begin("controlled cash karp", k); MORE(CK) vt::tr().end();
#elif PART == 1
        begin("controlled dopri5", k); MORE(DP) vt::tr().end();
#elif PART == 2
        begin("bulirsch stoer", k); SOME(BS) vt::tr().end();
#else
        begin("controlled adams", k); SOME(AB) vt::tr().end();
#endif
    }
    vt::tr().close();
}
