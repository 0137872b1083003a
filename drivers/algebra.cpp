// Every algebra applied to operands whose elements can be told apart, with a
// recording operation; the built-in operations; norms; container shapes.
#include "gf.hpp"
#include <vector>
#include <deque>
#include <array>
#include <algorithm>
#include <sstream>
#include <boost/array.hpp>
#include <boost/multi_array.hpp>
#include <boost/fusion/include/vector.hpp>
#include <boost/fusion/include/at_c.hpp>
#include <boost/fusion/include/size.hpp>
#include <boost/preprocessor.hpp>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
#if PART == 1 || PART == 4
#include <omp.h>
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
#endif
using namespace boost::numeric::odeint;
typedef std::vector<double> V;

static std::string I(double v) { return vt::tick_str(v, 1.0); }
static void list(std::string &) {}
template<class A, class... B> static void list(std::string &s, const A &a, const B &... b) { s += I(a); if (sizeof...(b)) s += ","; list(s, b...); }

// records the elements it is given, changes the first one (W=1) or the first two (W=2)
template<int W> struct Rec {
    typedef void result_type;
    template<class... T> static void rec(const T &... t) {
        std::string s = "[\"op\",["; list(s, t...); s += "]]";
#pragma omp critical
        vt::tr().raw(s);
    }
    template<class A, class... B> void operator()(A &a, const B &... b) const { rec(a, b...); a += 100000; }
};
template<> struct Rec<2> {
    typedef void result_type;
    template<class A, class B, class... C> void operator()(A &a, B &b, const C &... c) const { Rec<1>::rec(a, b, c...); a += 100000; b += 200000; }
};

// flat views of containers
template<class C> struct Flat { static std::vector<double*> of(C &c) { std::vector<double*> r; for (auto &e : c) r.push_back(&e); return r; } };
template<size_t D> struct Flat<boost::multi_array<double, D>> {
    static std::vector<double*> of(boost::multi_array<double, D> &c) { std::vector<double*> r; for (size_t i = 0; i < c.num_elements(); ++i) r.push_back(c.data() + i); return r; } };
template<> struct Flat<double> { static std::vector<double*> of(double &c) { return {&c}; } };
template<int K, class S> struct FF { static void put(S &s, std::vector<double*> &r) { FF<K-1, S>::put(s, r); r.push_back(&boost::fusion::at_c<K-1>(s)); } };
template<class S> struct FF<0, S> { static void put(S &, std::vector<double*> &) {} };
template<class... T> struct Flat<boost::fusion::vector<T...>> { typedef boost::fusion::vector<T...> S;
    static std::vector<double*> of(S &s) { std::vector<double*> r; FF<sizeof...(T), S>::put(s, r); return r; } };
#if PART == 1 || PART == 4
template<> struct Flat<openmp_state<double>> { static std::vector<double*> of(openmp_state<double> &c) { std::vector<double*> r; for (auto &p : c) for (auto &e : p) r.push_back(&e); return r; } };
#endif

template<class A, int N, int W> struct Apply;
#define OPERAND(z, n, s) BOOST_PP_COMMA_IF(n) s[idx[n]]
#define GEN(z, n, u) \
template<class A, int W> struct Apply<A, n, W> { template<class S> static void go(std::vector<S> &s, const int *idx) { \
    A::BOOST_PP_CAT(for_each, n)( BOOST_PP_REPEAT(n, OPERAND, s) , Rec<W>() ); } };
BOOST_PP_REPEAT_FROM_TO(1, 16, GEN, ~)

template<class A, int N, int W, class S> static void one(const char *name, const S &proto, bool alias) {
    std::vector<S> s(15, proto);
    int idx[15]; for (int j = 0; j < 15; ++j) idx[j] = j;
    if (alias && N > 1) idx[N-1] = 0;                       // the last operand is the first one
    size_t len = 0; std::string m = "[";
    for (int j = 0; j < 15; ++j) {
        auto f = Flat<S>::of(s[j]); len = f.size();
        for (size_t i = 0; i < len; ++i) *f[i] = 1000 * (j + 1) + i;
    }
    std::ostringstream c; c << "{\"kind\":\"apply\",\"alg\":\"" << name << "\",\"n\":" << N << ",\"len\":" << len << ",\"writes\":" << W << ",\"alias\":" << (alias && N > 1 ? "true" : "false") << "}";
    vt::tr().begin(c.str());
    Apply<A, N, W>::go(s, idx);
    std::string e = "[\"mem\",[";
    for (int j = 0; j < 15; ++j) {
        auto f = Flat<S>::of(s[j]); e += j ? ",[" : "[";
        for (size_t i = 0; i < f.size(); ++i) { if (i) e += ","; e += I(*f[i]); }
        e += "]";
    }
    vt::tr().raw(e + "]]"); vt::tr().end();
}
template<class A, int N> struct All { template<class S> static void go(const char *name, const S &proto) {
    All<A, N-1>::go(name, proto); one<A, N, 1>(name, proto, false); if (N > 1) one<A, N, 1>(name, proto, true); } };
template<class A> struct All<A, 0> { template<class S> static void go(const char *name, const S &proto) { one<A, 3, 2>(name, proto, false); } };
template<class A, class S> static void all(const char *name, const S &proto) { All<A, 15>::go(name, proto); }

template<class A, class S> static void norms(const char *name, S proto, unsigned seed) {
    auto f = Flat<S>::of(proto); size_t n = f.size();
    std::mt19937 g(seed);
    for (size_t big = 0; big <= n; ++big) for (int sgn = -1; sgn <= 1; sgn += 2) {
        std::string vals = "[";
        for (size_t i = 0; i < n; ++i) { int v = (int)(g() % 101) - 50; if (i == big) v = sgn * 900; *f[i] = v; vals += (i ? "," : "") + I(v); }
        vt::tr().begin(std::string("{\"kind\":\"norm\",\"alg\":\"") + name + "\",\"n\":1,\"len\":" + std::to_string(n) + ",\"writes\":0,\"alias\":false}");
        double r = A::norm_inf(proto);
        vt::tr().raw("[\"norm\"," + vals + "]," + I(r) + "]"); vt::tr().end();
    }
}
template<size_t D> static boost::multi_array<double, D> ma(std::vector<int> sh, int base) {
    boost::array<int, D> e, o; for (size_t i = 0; i < D; ++i) { e[i] = sh[i]; o[i] = base + (int)i; }
    boost::multi_array<double, D> a(e); a.reindex(o); return a;
}
namespace boost { namespace numeric { namespace odeint { template<typename... T> struct norm_result_type<boost::fusion::vector<T...>> { typedef double type; }; } } }

#if PART == 2
// ---- operations over the field ----
using gf::F;
typedef std::vector<F> FV;
template<int N> struct Sum;
#define ALPHA(z, n, a) BOOST_PP_COMMA_IF(n) a[n]
#define SARG(z, n, s) BOOST_PP_COMMA_IF(n) s[idx[n]]
#define TYP(z, n, u) BOOST_PP_COMMA_IF(n) F
#define SUMGEN(z, n, u) \
template<> struct Sum<n> { static void go(std::vector<FV> &s, const int *idx, const F *a) { \
    range_algebra::BOOST_PP_CAT(for_each, BOOST_PP_INC(n))( BOOST_PP_REPEAT(BOOST_PP_INC(n), SARG, s) , \
        default_operations::BOOST_PP_CAT(scale_sum, n)< BOOST_PP_REPEAT(n, TYP, ~) >( BOOST_PP_REPEAT(n, ALPHA, a) ) ); } };
BOOST_PP_REPEAT_FROM_TO(1, 15, SUMGEN, ~)
static std::string mem(const std::vector<FV> &s) { std::string r = "["; for (size_t j = 0; j < s.size(); ++j) r += (j ? "," : "") + gf::jv(s[j]); return r + "]"; }
template<int N> static void sum1(std::mt19937 &g, size_t len) {
    for (int mode = 0; mode < N + 1; ++mode) {
        std::vector<FV> s(15, FV(len)); F a[14];
        for (auto &x : s) for (auto &e : x) e = F((long)(g() % gf::P));
        for (auto &x : a) x = F((long)(g() % gf::P));
        int idx[15]; for (int j = 0; j < 15; ++j) idx[j] = j;
        if (mode) idx[mode] = 0;                             // one operand is the result itself
        std::string c = "{\"kind\":\"sum\",\"n\":" + std::to_string(N) + ",\"alias\":" + std::to_string(mode) + ",\"a\":" + gf::jv(std::vector<F>(a, a + N)) + ",\"s\":" + mem(s) + "}";
        vt::tr().begin(c);
        Sum<N>::go(s, idx, a);
        vt::tr().raw("[\"mem\"," + mem(s) + "]"); vt::tr().end();
    }
}
template<int N> struct Sums { static void go(std::mt19937 &g, size_t len) { Sums<N-1>::go(g, len); sum1<N>(g, len); } };
template<> struct Sums<0> { static void go(std::mt19937 &, size_t) {} };
static void ops(unsigned seed) {
    std::mt19937 g(seed);
    for (size_t len = 0; len < 4; ++len) {
        Sums<14>::go(g, len);
        std::vector<FV> s(15, FV(len)); F a[2]; 
        for (auto &x : s) for (auto &e : x) e = F((long)(g() % gf::P));
        for (auto &x : a) x = F((long)(g() % gf::P));
        auto rec = [&](const char *k, const std::vector<FV> &b) {
            vt::tr().begin(std::string("{\"kind\":\"") + k + "\",\"n\":2,\"alias\":0,\"a\":" + gf::jv(std::vector<F>(a, a + 2)) + ",\"s\":" + mem(b) + "}");
            vt::tr().raw("[\"mem\"," + mem(s) + "]"); vt::tr().end(); };
        std::vector<FV> b = s; range_algebra::for_each3(s[0], s[1], s[2], default_operations::scale_sum_swap2<F, F>(a[0], a[1])); rec("swap", b);
        b = s; range_algebra::for_each1(s[0], default_operations::scale<F>(a[0])); rec("scale", b);
    }
    // relative errors: all quantities whole numbers, the quotient exact when it is recorded as q/2^10
    auto pick = [&](int lo, int hi) { return (double)(lo + (int)(g() % (hi - lo + 1))); };
    const double U = 1024;
    for (int k = 0; k < 400; ++k) {
        double ax = pick(0, 3), ad = pick(0, 3), ea = pick(0, 4), er = pick(0, 4);
        double x = pick(-7, 7), d = pick(-7, 7), y = pick(-7, 7), e = pick(-60, 60), r0 = pick(0, 20);
        double den = ea + er * (ax * std::fabs(x) + ad * std::fabs(d)), den2 = ea + er * std::max(std::fabs(x), std::fabs(y));
        auto rec = [&](const char *k, double den, double res) {
            if (!(den > 0)) return;
            // res * den rounded: exact up to the last place
            std::ostringstream c; c << "{\"kind\":\"" << k << "\",\"ea\":" << ea << ",\"er\":" << er << ",\"ax\":" << ax << ",\"ad\":" << ad
                << ",\"x\":" << x << ",\"d\":" << d << ",\"y\":" << y << ",\"e\":" << e << ",\"r\":" << r0 << "}";
            vt::tr().begin(c.str());
            double lo = std::floor(res * U + 1e-9), fr = std::floor(res * U * 32 + 1e-6);
            vt::tr().raw("[\"val\"," + I(fr) + "]"); vt::tr().end(); };
        { double z = e; default_operations::rel_error<double>(ea, er, ax, ad)(z, x, d); rec("rel_error", den, z); }
        { double z = e; default_operations::default_rel_error<double>(ea, er)(z, x, y); rec("default_rel_error", den2, z); }
        { double z = default_operations::rel_error_max<double>(ea, er)(r0, x, y, e); rec("rel_error_max", den2, z); }
        { double z = default_operations::rel_error_max2<double>(ea, er, ax, ad)(r0, x, y, d, e); rec("rel_error_max2", den, z); }
        { double z = default_operations::maximum<double>()(x, d); ea = 1; rec("maximum", 1, z); }
    }
}
#endif

int main(int argc, char **argv) {
    vt::tr().open(argv[1]); vt::guard(300);
    unsigned seed = argc > 2 ? atoi(argv[2]) : 1;
#if PART == 0
    for (int n : {0, 1, 2, 5}) { all<range_algebra>("range vector", V(n)); norms<range_algebra>("range vector", V(n), seed); }
    all<range_algebra>("range deque", std::deque<double>(3)); norms<range_algebra>("range deque", std::deque<double>(4), seed);
    all<range_algebra>("range array", std::array<double, 4>());
    all<vector_space_algebra>("vector space", 0.0); norms<vector_space_algebra>("vector space", 0.0, seed);
#elif PART == 3
    all<array_algebra>("array 1", std::array<double, 1>()); all<array_algebra>("array 3", std::array<double, 3>());
    all<array_algebra>("boost array 4", boost::array<double, 4>());
    norms<array_algebra>("array", std::array<double, 5>(), seed); norms<array_algebra>("boost array", boost::array<double, 1>(), seed);
    all<multi_array_algebra>("multi_array 1", ma<1>({4}, -2)); all<multi_array_algebra>("multi_array 2", ma<2>({2, 3}, 1)); all<multi_array_algebra>("multi_array 3", ma<3>({2, 1, 3}, 0));
    norms<multi_array_algebra>("multi_array", ma<2>({3, 2}, 1), seed); norms<multi_array_algebra>("multi_array", ma<1>({3}, -1), seed); norms<multi_array_algebra>("multi_array", ma<3>({2, 2, 2}, 1), seed);
#elif PART == 1
    for (int th : {1, 3, 8}) {
        omp_set_num_threads(th); omp_set_schedule(th == 3 ? omp_sched_dynamic : omp_sched_static, 1);
        for (int n : {0, 1, 2, 5, 9}) { all<openmp_range_algebra>("openmp range", V(n)); norms<openmp_range_algebra>("openmp range", V(n), seed); }
        openmp_state<double> s; for (int k : {2, 0, 3, 1}) s.push_back(V(k));
        all<openmp_algebra>("openmp nested", s); norms<openmp_algebra>("openmp nested", s, seed);
        all<openmp_algebra>("openmp nested empty", openmp_state<double>());
    }
#elif PART == 4
    all<fusion_algebra>("fusion 1", boost::fusion::vector<double>()); all<fusion_algebra>("fusion 3", boost::fusion::vector<double, double, double>());
    norms<fusion_algebra>("fusion", boost::fusion::vector<double, double, double>(), seed); norms<fusion_algebra>("fusion", boost::fusion::vector<double>(), seed);
#else
    ops(seed);
#endif
    vt::tr().close();
}
