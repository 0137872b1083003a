// argv: scenarios trace.  A scenario: kind scheme state resizer dim seed ops...
#include "rk.hpp"
using namespace boost::numeric::odeint;
#ifndef PART
#define PART 0
#endif
typedef std::vector<std::string> ops_t;
struct Scen { std::string kind, scheme, state, resizer; size_t dim; unsigned seed; ops_t ops; };
static bool handled;

static std::string cfg_json(const Scen &c, const std::string &tab = "") {
    return "{\"kind\":\"" + c.kind + "\",\"scheme\":\"" + c.scheme + "\",\"state\":\"" + c.state + "\",\"resizer\":\"" + c.resizer + "\",\"dim\":" + std::to_string(c.dim) + ",\"seed\":" + std::to_string(c.seed) + ",\"tab\":" + (tab.empty() ? "[]" : tab) + "}";
}
template<class Fn> void guarded(const Scen &c, Fn f, const std::string &tab = "") {
    handled = true;
    vt::tr().begin(cfg_json(c, tab), 6000);
    try { f(); } catch (vt::hang_error &) {} catch (std::exception &e) { vt::tr().ev("throw"); }
    vt::tr().end();
}
template<class St, class X, class Tag> void ex(const Scen &c, Tag tag) {
    guarded(c, [&] { explicit_history<St, X>([] { return St(); }, c.dim, c.resizer == "always", c.resizer == "never", c.ops, tag); });
}
template<class St, class X, class Tag> void co(const Scen &c, Tag tag) {
    typedef controlled_runge_kutta<St, LogChecker, LogAdjuster> C;
    guarded(c, [&] { controlled_history<C, X>([] { return C(); }, c.dim, c.resizer == "always", c.resizer == "never", c.ops, tag); });
}
template<class St, class X> void de(const Scen &c) {
    typedef dense_output_runge_kutta<controlled_runge_kutta<St, LogChecker, LogAdjuster>> D;
    guarded(c, [&] { dense_history<D, X>([] { return D(); }, c.dim, c.resizer == "always", c.resizer == "never", c.ops); });
}
template<class St, class X> void dp(const Scen &c) {
    typedef dense_output_runge_kutta<St> D;
    guarded(c, [&] { dense_history<D, X>([] { return D(); }, c.dim, c.resizer == "always", c.resizer == "never", c.ops); });
}
// schemes x states x resizers
#define ST(S, X, A, Z) S<X, F, X, F, A, default_operations, Z>
#define WITH(S, MACRO) \
    if (c.state == "vec" && c.resizer == "initially") { MACRO(ST(S, vec, range_algebra, initially_resizer), vec) } \
    if (c.state == "vec" && c.resizer == "always") { MACRO(ST(S, vec, range_algebra, always_resizer), vec) } \
    if (c.state == "vec" && c.resizer == "never") { MACRO(ST(S, vec, range_algebra, never_resizer), vec) } \
    if (c.state == "arr") { MACRO(ST(S, arr, array_algebra, initially_resizer), arr) }
#define NOP(...)
#define EXP(...) EXP_(__VA_ARGS__)

#define M_PLAIN(...) M_PLAIN_(__VA_ARGS__)
#if PART == 0
typedef explicit_generic_rk<4, 4, vec, F, vec, F, range_algebra, default_operations, initially_resizer> gen4;
typedef explicit_error_generic_rk<5, 4, 4, 3, vec, F, vec, F, range_algebra, default_operations, always_resizer> gene5;
typedef explicit_error_generic_rk<5, 4, 4, 3, arr, F, arr, F, array_algebra, default_operations, initially_resizer> genea5;
template<size_t N> struct Tab { boost::array<F, N> b, b2, c; std::vector<std::vector<F>> a;
    Tab() { for (auto &v : b) v = rf(); for (auto &v : b2) v = rf(); for (auto &v : c) v = rf(); c[0] = 0; for (size_t i = 1; i < N; ++i) { a.emplace_back(); for (size_t j = 0; j < i; ++j) a.back().push_back(rf()); } }
    std::string json(bool err) const { boost::array<F, N> e; for (size_t i = 0; i < N; ++i) e[i] = b2[i];
        std::string s = "{\"a\":[[]"; for (auto &r : a) s += "," + jv(r); return s + "],\"b\":" + jv(b) + ",\"c\":" + jv(c) + ",\"e\":" + (err ? jv(b2) : "[]") + "}"; }
};
template<size_t K> boost::array<F, K> row(const std::vector<F> &r) { boost::array<F, K> a; for (size_t i = 0; i < K; ++i) a[i] = r[i]; return a; }
static void generic(const Scen &c) {
    R.seed(c.seed);
    if (c.scheme == "gen4") { Tab<4> t; auto mk = [t] { return gen4(boost::fusion::make_vector(row<1>(t.a[0]), row<2>(t.a[1]), row<3>(t.a[2])), t.b, t.c); };
        guarded(c, [&] { explicit_history<gen4, vec>(mk, c.dim, false, false, c.ops, tag_plain()); }, t.json(false)); }
    if (c.scheme == "gene5") { Tab<5> t; auto args = boost::fusion::make_vector(row<1>(t.a[0]), row<2>(t.a[1]), row<3>(t.a[2]), row<4>(t.a[3]));
        if (c.kind == "ctl") { typedef controlled_runge_kutta<gene5, LogChecker, LogAdjuster> C;
            guarded(c, [&] { controlled_history<C, vec>([&] { return C(LogChecker(), LogAdjuster(), gene5(args, t.b, t.b2, t.c)); }, c.dim, true, false, c.ops, ctl_plain()); }, t.json(true)); }
        else guarded(c, [&] { explicit_history<gene5, vec>([&] { return gene5(args, t.b, t.b2, t.c); }, c.dim, true, false, c.ops, tag_err()); }, t.json(true)); }
    if (c.scheme == "genea5") { Tab<5> t; auto args = boost::fusion::make_vector(row<1>(t.a[0]), row<2>(t.a[1]), row<3>(t.a[2]), row<4>(t.a[3]));
        guarded(c, [&] { explicit_history<genea5, arr>([&] { return genea5(args, t.b, t.b2, t.c); }, 3, false, false, c.ops, tag_err()); }, t.json(true)); }
}
static void part(const Scen &c) {
    if (c.scheme.substr(0, 3) == "gen") generic(c);
#define GO(...) if (c.kind == "step") ex<__VA_ARGS__>(c, tag_plain()); if (c.kind == "dense") dp<__VA_ARGS__>(c);
    if (c.scheme == "euler") { WITH(euler, GO) }
}
#elif PART == 1
static void part(const Scen &c) {
#undef GO
#define GO(...) if (c.kind == "step") ex<__VA_ARGS__>(c, tag_plain());
    if (c.scheme == "rk4") { WITH(runge_kutta4, GO) }
    if (c.scheme == "rk4c") { WITH(runge_kutta4_classic, GO) }
}
#elif PART == 2
static void part(const Scen &c) {
#define GO(...) if (c.kind == "step") ex<__VA_ARGS__>(c, tag_err()); if (c.kind == "ctl") co<__VA_ARGS__>(c, ctl_plain());
    if (c.scheme == "ck54") { WITH(runge_kutta_cash_karp54, GO) }
}
#elif PART == 3
static void part(const Scen &c) {
#define GO(...) if (c.kind == "step") ex<__VA_ARGS__>(c, tag_err()); if (c.kind == "ctl") co<__VA_ARGS__>(c, ctl_plain());
    if (c.scheme == "ck54c") { WITH(runge_kutta_cash_karp54_classic, GO) }
}
#elif PART == 4
static void part(const Scen &c) {
#define GO(...) if (c.kind == "step") ex<__VA_ARGS__>(c, tag_fsal()); if (c.kind == "ctl") co<__VA_ARGS__>(c, ctl_fsal()); if (c.kind == "dense") de<__VA_ARGS__>(c);
    if (c.scheme == "dopri5") { WITH(runge_kutta_dopri5, GO) }
}
#elif PART == 6
// modified midpoint; "step" plain, "mid" the variant for dense output
template<class St, class X> void mp(const Scen &c) {
    unsigned short n = std::atoi(c.scheme.c_str() + 2); bool set = c.seed % 2;
    guarded(c, [&] { explicit_history<St, X>([n, set] { if (!set) return St(n); St s; s.set_steps(n); return s; }, c.dim, c.resizer == "always", c.resizer == "never", c.ops, tag_plain()); });
}
template<class St, class X> void mid(const Scen &c) {
    unsigned short n = std::atoi(c.scheme.c_str() + 2);
    guarded(c, [&] {
        St s(n); bool always = c.resizer == "always"; size_t dim = c.dim; X x = fill<X>(dim); F t = rf(); Sys sys;
        if (c.resizer == "never") s.adjust_size(x);
        for (auto &o : c.ops) {
            if (o == "z" && (always || c.resizer == "never")) { dim = 1 + R() % 4; x = fill<X>(dim); if (!always) s.adjust_size(x); continue; }
            F dt = rnz(); X d = fill<X>(dim), out = blank(x), in = x, xm = blank(x);
            typename St::deriv_table_type tab(n + R() % 3); for (auto &w : tab) w.m_v = blank(x);
            call_open<St>("call", 0, "oD", t, dt, x, &d);
            s.do_step(sys, in, d, t, out, dt, xm, tab);
            std::string ds = "["; for (size_t i = 0; i < tab.size(); ++i) ds += (i ? "," : "") + jv(tab[i].m_v); ds += "]";
            ev("[\"mdone\"," + jv(out) + "," + jv(xm) + "," + ds + "," + jv(in) + "," + jv(d) + "]");
            x = out; t += dt;
        }
    });
}
static void part(const Scen &c) {
#define GO(...) if (c.kind == "step") mp<__VA_ARGS__>(c);
#define GOM(...) if (c.kind == "mid") mid<__VA_ARGS__>(c);
    if (c.scheme.substr(0, 2) == "mp") { WITH(modified_midpoint, GO) WITH(modified_midpoint_dense_out, GOM) }
}
#elif PART == 7 || PART == 8
template<class X, class V, class D, class T, class A, class O, class Z> using ex4 = extrapolation_stepper<PART == 7 ? 4 : 8, X, V, D, T, A, O, Z>;
template<class X, class V, class D, class T, class A, class O, class Z> using ex6 = extrapolation_stepper<PART == 7 ? 6 : 10, X, V, D, T, A, O, Z>;
static void part(const Scen &c) {
#define GO(...) if (c.kind == "step") ex<__VA_ARGS__>(c, tag_err()); if (c.kind == "ctl") co<__VA_ARGS__>(c, ctl_plain());
    if (c.scheme == (PART == 7 ? "extr4" : "extr8")) { WITH(ex4, GO) }
    if (c.scheme == (PART == 7 ? "extr6" : "extr10")) { WITH(ex6, GO) }
}
#else
static void part(const Scen &c) {
#define GO(...) if (c.kind == "step") ex<__VA_ARGS__>(c, tag_err()); if (c.kind == "ctl") co<__VA_ARGS__>(c, ctl_plain());
    if (c.scheme == "f78") { WITH(runge_kutta_fehlberg78, GO) }
}
#endif
int main(int argc, char **argv) {
    std::ifstream in(argv[1]); vt::tr().open(argv[2]); vt::guard(400);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); Scen c; is >> c.kind >> c.scheme >> c.state >> c.resizer >> c.dim >> c.seed;
        std::string o; while (is >> o) c.ops.push_back(o);
        R.seed(c.seed); SEED = c.seed; handled = false; judge = Judge();
        part(c);
    }
    vt::tr().close();
}
