// resize, same_size, copy, is_resizeable, state_wrapper and the resizers on all
// kinds of containers.
#include "trace.hpp"
#include <array>
#include <boost/array.hpp>
#include <boost/multi_array.hpp>
#include <boost/fusion/include/vector.hpp>
#include <boost/fusion/include/at_c.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/ublas/lu.hpp>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/util/same_instance.hpp>
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
#include <Eigen/Dense>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
namespace od = boost::numeric::odeint; namespace ub = boost::numeric::ublas;
typedef std::vector<int> Sh;
static unsigned seed; static int rnd(int n) { seed = seed * 1103515245u + 12345u; return (int)((seed >> 8) % n); }
static std::string js(const Sh &s) { std::string r; vt::Trace::put(r, s); return r; }
static std::string b(bool x) { return x ? "true" : "false"; }
static void raw(const std::string &s) { vt::tr().raw(s); }

// make: a container of a shape;  shape: what shape it has;  at: its elements as a list
template<class C> struct K;
template<class T> struct K<std::vector<T>> { typedef std::vector<T> C; static C make(const Sh &s) { return C(s[0]); } static Sh shape(const C &c) { return {(int)c.size()}; } static Sh any() { return {rnd(4)}; }
    static void fill(C &c, int k) { for (auto &x : c) x = k++; } static Sh vals(const C &c) { return Sh(c.begin(), c.end()); } };
template<> struct K<ub::vector<double>> { typedef ub::vector<double> C; static C make(const Sh &s) { return C(s[0]); } static Sh shape(const C &c) { return {(int)c.size()}; } static Sh any() { return {rnd(4)}; }
    static void fill(C &c, int k) { for (auto &x : c) x = k++; } static Sh vals(const C &c) { return Sh(c.begin(), c.end()); } };
template<> struct K<ub::matrix<double>> { typedef ub::matrix<double> C; static C make(const Sh &s) { return C(s[0], s[1]); } static Sh shape(const C &c) { return {(int)c.size1(), (int)c.size2()}; } static Sh any() { return {rnd(3) + 1, rnd(3) + 1}; }
    static void fill(C &c, int k) { for (auto &x : c.data()) x = k++; } static Sh vals(const C &c) { return Sh(c.data().begin(), c.data().end()); } };
template<> struct K<ub::permutation_matrix<std::size_t>> { typedef ub::permutation_matrix<std::size_t> C; static C make(const Sh &s) { return C(s[0]); } static Sh shape(const C &c) { return {(int)c.size()}; } static Sh any() { return {rnd(4)}; } };
template<size_t D> struct K<boost::multi_array<double, D>> { typedef boost::multi_array<double, D> C;
    static C make(const Sh &s) { boost::array<int, D> e, o; for (size_t i = 0; i < D; ++i) { e[i] = s[i]; o[i] = s[D + i]; } C c(e); c.reindex(o); return c; }
    static Sh shape(const C &c) { Sh r; for (size_t i = 0; i < D; ++i) r.push_back((int)c.shape()[i]); for (size_t i = 0; i < D; ++i) r.push_back((int)c.index_bases()[i]); return r; }
    static Sh any() { Sh r; for (size_t i = 0; i < D; ++i) r.push_back(1 + rnd(D == 1 ? 3 : 2)); for (size_t i = 0; i < D; ++i) r.push_back(rnd(3) ? 0 : rnd(3) - 1); return r; }
    static void fill(C &c, int k) { for (size_t i = 0; i < c.num_elements(); ++i) c.data()[i] = k++; } static Sh vals(const C &c) { return Sh(c.data(), c.data() + c.num_elements()); } };
template<> struct K<boost::array<double, 3>> { typedef boost::array<double, 3> C; static C make(const Sh &) { return C(); } static Sh shape(const C &) { return {3}; } static Sh any() { return {3}; }
    static void fill(C &c, int k) { for (auto &x : c) x = k++; } static Sh vals(const C &c) { return Sh(c.begin(), c.end()); } };
template<> struct K<std::array<double, 2>> { typedef std::array<double, 2> C; static C make(const Sh &) { return C(); } static Sh shape(const C &) { return {2}; } static Sh any() { return {2}; }
    static void fill(C &c, int k) { for (auto &x : c) x = k++; } static Sh vals(const C &c) { return Sh(c.begin(), c.end()); } };
typedef boost::fusion::vector<std::vector<double>, double, std::vector<double>> Fu; using boost::fusion::at_c;
template<> struct K<Fu> { typedef Fu C; static C make(const Sh &s) { C c; at_c<0>(c).resize(s[0]); at_c<2>(c).resize(s[1]); return c; } static Sh shape(const C &c) { return {(int)at_c<0>(c).size(), (int)at_c<2>(c).size()}; } static Sh any() { return {rnd(3), rnd(3)}; }
    static void fill(C &c, int k) { for (auto &x : at_c<0>(c)) x = k++; at_c<1>(c) = k++; for (auto &x : at_c<2>(c)) x = k++; } static Sh vals(const C &c) { Sh r(at_c<0>(c).begin(), at_c<0>(c).end()); r.push_back((int)at_c<1>(c)); r.insert(r.end(), at_c<2>(c).begin(), at_c<2>(c).end()); return r; } };
typedef boost::fusion::vector<double, double> Fs;
template<> struct K<Fs> { typedef Fs C; static C make(const Sh &) { return C(0, 0); } static Sh shape(const C &) { return {}; } static Sh any() { return {}; }
    static void fill(C &c, int k) { at_c<0>(c) = k++; at_c<1>(c) = k; } static Sh vals(const C &c) { return {(int)at_c<0>(c), (int)at_c<1>(c)}; } };
template<class M> struct KE { typedef M C; static C make(const Sh &s) { return C(s[0], s[1]); } static Sh shape(const C &c) { return {(int)c.rows(), (int)c.cols()}; } static Sh any() { return {rnd(3), rnd(3)}; }
    static void fill(C &c, int k) { for (int i = 0; i < c.size(); ++i) c.data()[i] = k++; } static Sh vals(const C &c) { return Sh(c.data(), c.data() + c.size()); } };
template<> struct K<Eigen::MatrixXd> : KE<Eigen::MatrixXd> {}; template<> struct K<Eigen::ArrayXXd> : KE<Eigen::ArrayXXd> {};
template<> struct K<Eigen::VectorXd> { typedef Eigen::VectorXd C; static C make(const Sh &s) { return C(s[0]); } static Sh shape(const C &c) { return {(int)c.rows()}; } static Sh any() { return {rnd(4)}; }
    static void fill(C &c, int k) { for (int i = 0; i < c.size(); ++i) c(i) = k++; } static Sh vals(const C &c) { return Sh(c.data(), c.data() + c.size()); } };
typedef od::openmp_state<double> Om;
template<> struct K<Om> { typedef Om C; static C make(const Sh &s) { C c(s.size()); for (size_t i = 0; i < s.size(); ++i) c[i].resize(s[i]); return c; } static Sh shape(const C &c) { Sh r; for (auto &x : c) r.push_back((int)x.size()); return r; }
    static Sh any() { Sh r(rnd(4)); for (auto &x : r) x = rnd(3); return r; } static void fill(C &c, int k) { for (auto &x : c) for (auto &y : x) y = k++; } static Sh vals(const C &c) { Sh r; for (auto &x : c) r.insert(r.end(), x.begin(), x.end()); return r; } };
template<> struct K<double> { typedef double C; static C make(const Sh &) { return 0; } static Sh shape(const C &) { return {}; } static Sh any() { return {}; } static void fill(C &c, int k) { c = k; } static Sh vals(const C &c) { return {(int)c}; } };

template<class A> static void put(A &a, const Sh &s) { a = K<A>::make(s); }
template<size_t D> static void put(boost::multi_array<double, D> &a, const Sh &s) { boost::array<int, D> e, o; for (size_t i = 0; i < D; ++i) { e[i] = s[i]; o[i] = s[D + i]; } a.resize(e); a.reindex(o); }
// somewhat different from a shape
template<class C> static Sh near(Sh s) { return rnd(3) == 0 ? s : K<C>::any(); }
template<class A, class B> static void comparable(const std::string &k, const Sh &sa, const Sh &sb, boost::true_type) {
    const A x = K<A>::make(sa); A z = K<A>::make(sa); const B y = K<B>::make(sb);
    raw("[\"same\"," + k + "," + js(sa) + "," + js(sb) + "," + b(od::same_size(x, y)) + "]");
    od::resize(z, y); raw("[\"resize\"," + k + "," + js(sa) + "," + js(sb) + "," + js(K<A>::shape(z)) + "]");
}
template<class A, class B> static void comparable(const std::string &, const Sh &, const Sh &, boost::false_type) {}
template<class A, class B> static void sizes(const char *kind) {
    const bool can = od::is_resizeable<A>::value; std::string k = std::string("\"") + kind + "\"";
    raw("[\"can\"," + k + "," + b(can) + "]");
    if (can != (bool)od::is_resizeable<A>::type::value) raw("[\"inconsistent\"]");
    Sh sb = K<B>::any(), sa = rnd(3) == 0 && std::is_same<A, B>::value ? sb : K<A>::any();
    if (!std::is_same<A, B>::value && rnd(2)) { sa = sb; if (std::string(kind) == "matrix to vector") sa = {sb[0], rnd(2) ? sb[0] : sb[0] + 1}; }
    B y = K<B>::make(sb);
    comparable<A, B>(k, sa, sb, boost::integral_constant<bool, od::is_resizeable<A>::value>());
    od::state_wrapper<A> w; put(w.m_v, sa);
    bool r = od::adjust_size_by_resizeability(w, y, typename od::is_resizeable<A>::type());
    raw("[\"adjust\"," + k + "," + b(can) + "," + js(sa) + "," + js(sb) + "," + js(K<A>::shape(w.m_v)) + "," + b(r) + "]");
}
template<class Rz, class A, class B> static void policy(const char *p, const char *kind) {
    Rz rz; od::state_wrapper<A> w; Sh s0 = K<A>::any(); put(w.m_v, s0);
    raw(std::string("[\"policy\",\"") + p + "\",\"" + kind + "\"," + b(od::is_resizeable<A>::value) + "," + js(s0) + "]");
    auto ask = [&](Rz &z, od::state_wrapper<A> &v) { Sh s = near<B>(K<B>::any()); B y = K<B>::make(s);
        bool r = z.adjust_size(y, [&](const B &q) { return od::adjust_size_by_resizeability(v, q, typename od::is_resizeable<A>::type()); });
        raw("[\"ask\"," + js(s) + "," + js(K<A>::shape(v.m_v)) + "," + b(r) + "]"); };
    for (int k = rnd(4); k > 0; --k) ask(rz, w);
    Rz r2(rz); od::state_wrapper<A> w2(w); raw("[\"clone\"," + js(K<A>::shape(w2.m_v)) + "]");
    for (int k = 0; k < 3; ++k) ask(r2, w2);
    r2 = Rz(); w2 = w; raw(std::string("[\"policy\",\"") + p + "\",\"" + kind + "\"," + b(od::is_resizeable<A>::value) + "," + js(K<A>::shape(w2.m_v)) + "]"); ask(r2, w2);
}
template<class A> static void copies(const char *kind) {
    Sh s = K<A>::any(); A x = K<A>::make(s), y = K<A>::make(s); K<A>::fill(x, 1 + rnd(50)); K<A>::fill(y, 300);
    Sh v = K<A>::vals(x); const A &cx = x; od::copy(cx, y); Sh w = K<A>::vals(y), u = K<A>::vals(x);
    // and they are two containers
    K<A>::fill(y, 900); if (K<A>::vals(x) != u) raw("[\"shared\"]");
    raw(std::string("[\"copy\",\"") + kind + "\"," + js(v) + "," + js(w) + "," + js(u) + "]");
    A *q = rnd(2) ? &x : &y; raw("[\"instance\"," + b(q == &x) + "," + b(od::same_instance(x, *q)) + "]");
    od::state_wrapper<A> a; put(a.m_v, s); od::copy(cx, a.m_v); od::state_wrapper<A> c(a); K<A>::fill(a.m_v, 700); raw(std::string("[\"copy\",\"") + kind + "\"," + js(v) + "," + js(K<A>::vals(c.m_v)) + "," + js(v) + "]");
}
template<class A, class B> static void both(const char *kind) {
    vt::tr().begin(std::string("{\"kind\":\"") + kind + "\"}"); sizes<A, B>(kind);
    policy<od::always_resizer, A, B>("always", kind); policy<od::initially_resizer, A, B>("initially", kind); policy<od::never_resizer, A, B>("never", kind);
    vt::tr().end();
}
template<class A> static void all(const char *kind) {
    both<A, A>(kind); vt::tr().begin(std::string("{\"kind\":\"") + kind + "\"}"); copies<A>(kind); vt::tr().end();
}
typedef std::vector<double> V; typedef std::vector<float> VF;
int main(int argc, char **argv) {
    vt::tr().open(argv[1]); vt::guard(120); seed = atoi(argv[2]);
    for (int k = 0; k < atoi(argv[3]); ++k) {
        all<V>("vector"); both<V, VF>("vector float"); all<ub::vector<double>>("ublas vector"); all<ub::matrix<double>>("matrix"); both<ub::matrix<double>, ub::vector<double>>("matrix to vector");
        both<ub::permutation_matrix<std::size_t>, ub::vector<double>>("permutation to vector");
        all<boost::multi_array<double, 1>>("multi_array 1"); all<boost::multi_array<double, 2>>("multi_array 2"); all<boost::multi_array<double, 3>>("multi_array 3");
        all<boost::array<double, 3>>("boost array"); all<std::array<double, 2>>("std array"); all<Fu>("fusion"); all<Fs>("fusion scalars"); all<double>("scalar");
        all<Eigen::VectorXd>("eigen vector"); both<Eigen::MatrixXd, Eigen::MatrixXd>("eigen matrix"); both<Eigen::ArrayXXd, Eigen::ArrayXXd>("eigen array"); all<Om>("openmp_state");
        both<V, boost::array<double, 3>>("vector to range");
    }
    vt::tr().close(); return 0;
}
