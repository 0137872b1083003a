// argv: scenarios trace.  A scenario: kind k state resizer dim seed start ops...
#include "rk.hpp"
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_moulton.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
using namespace boost::numeric::odeint;
#ifndef PART
#define PART 0
#endif
typedef std::vector<std::string> ops_t;
struct Scen { std::string kind, state, resizer, start; int k; size_t dim; unsigned seed; ops_t ops; };

// an algebra that knows whether it still exists
template<class Base> struct live_algebra : Base {
    int magic; live_algebra() : magic(4711) {} live_algebra(const live_algebra &) : magic(4711) {}
    live_algebra &operator=(const live_algebra &) { return *this; }
    ~live_algebra() { volatile int *m = &magic; *m = 0; }
    void live() const { volatile const int *m = &magic; if (*m != 4711) ev("[\"deadalgebra\"]"); }
#define FE(n) template<class... A> void for_each##n(A&&... a) const { live(); Base::for_each##n(std::forward<A>(a)...); }
    FE(1) FE(2) FE(3) FE(4) FE(5) FE(6) FE(7) FE(8) FE(9) FE(10) FE(11) FE(12) FE(13) FE(14) FE(15)
};
typedef live_algebra<range_algebra> lrange; typedef live_algebra<array_algebra> larray;

static std::string sid(size_t i) { return std::to_string(i); }
template<class St, class X> struct ops {
    static void open(size_t id, const char *form, F t, F dt, const X &x) { ev("[\"call\"," + sid(id) + ",\"" + form + "\"," + js(t) + "," + js(dt) + "," + jv(x) + "]"); }
    static void close(const X &out, const X *in) { ev("[\"done\"," + jv(out) + "," + (in ? jv(*in) : std::string("[]")) + "]"); }
    static bool step(St &s, size_t id, Point<X> &p, const std::string &o) {
        F dt = rnz(); X in = p.x, out = blank(p.x); Sys sys; bool inplace = o == "i" || o == "a" || o == "R";
        if (!(inplace || o == "o" || o == "S")) return false;
        open(id, inplace ? "i" : "o", p.t, dt, p.x);
        if (o == "i") { if (coin()) s.do_step(sys, view(in), p.t, dt); else s.do_step(sys, in, p.t, dt); }
        if (o == "a") s.do_step(sys, in, p.t, in, dt);
        if (o == "R") s.do_step(boost::ref(sys), in, p.t, dt);
        if (o == "o") { if (coin()) s.do_step(sys, in, p.t, view(out), dt); else s.do_step(sys, in, p.t, out, dt); }
        if (o == "S") s.do_step(std::ref(sys), in, p.t, out, dt);
        if (inplace) close(in, 0); else close(out, &in);
        p.x = inplace ? in : out; p.t += dt; return true;
    }
};
template<class St> void state_of(St &s, size_t id, int) {}
template<size_t K, class X, class V, class D, class T, class A, class O, class Z, class I>
void state_of(adams_bashforth<K, X, V, D, T, A, O, Z, I> &s, size_t id, int) {
    ev("[\"isinit\"," + sid(id) + "," + (s.is_initialized() ? "true" : "false") + "]");
    const auto &c = s; std::string b = "["; for (size_t i = 0; i + 1 < K; ++i) b += (i ? "," : "") + jv(c.step_storage()[i].m_v);
    ev("[\"shows\"," + sid(id) + "," + b + "]]");
}
template<class St, class X, class Alg, class Z> void history(const Scen &c) {
    Runner<St, X> r; r.make = [] { return St(); }; r.never = c.resizer == "never"; bool always = c.resizer == "always"; r.keep = true; r.start(c.dim);
    for (auto &o : c.ops) {
        St &s = *r.obj[r.cur]; Point<X> &p = r.pt[r.cur];
        if (ops<St, X>::step(s, r.cur, p, o)) { state_of(s, r.cur, 0); continue; }
        if (o == "I" || o == "E" || o == "Q" || o == "T" || o == "U") {
            F dt = rnz(); Sys sys;
            ev("[\"init\"," + sid(r.cur) + "," + js(p.t) + "," + js(dt) + "," + jv(p.x) + ",\"" + (o == "I" ? c.start : o == "E" ? "euler" : o == "Q" ? "rk4" : o == "T" ? "ck54" : "dopri5") + "\"]");
            if (o == "I") { if (R() % 2) s.initialize(sys, p.x, p.t, dt); else s.initialize(boost::ref(sys), p.x, p.t, dt); }
            if (o == "E") { euler<X, F, X, F, Alg, default_operations, Z> e; e.adjust_size(p.x); s.initialize(e, sys, p.x, p.t, dt); }
            if (o == "Q") { runge_kutta4<X, F, X, F, Alg, default_operations, Z> e; e.adjust_size(p.x); s.initialize(boost::ref(e), sys, p.x, p.t, dt); }
            if (o == "T") { runge_kutta_cash_karp54<X, F, X, F, Alg, default_operations, Z> e; e.adjust_size(p.x); s.initialize(std::ref(e), std::ref(sys), p.x, p.t, dt); }
            if (o == "U") { runge_kutta_dopri5<X, F, X, F, Alg, default_operations, Z> e; e.adjust_size(p.x); s.initialize(e, sys, p.x, p.t, dt); }
            ev("[\"inited\"," + jv(p.x) + "," + js(p.t) + "]"); state_of(s, r.cur, 0); continue;
        }
        if (o == "r") { s.reset(); ev("[\"reset\"," + sid(r.cur) + "]"); state_of(s, r.cur, 0); continue; }
        if (o == "j") { r.dim = p.x.size(); r.fresh_point(r.cur); continue; }
        if (o == "z") {
            if (!always && !r.never) continue;
            size_t d = p.x.size(); do r.dim = 1 + R() % 4; while (r.dim == d);
            r.fresh_point(r.cur);
            if (r.never) { s.adjust_size(p.x); ev("[\"size\"," + sid(r.cur) + "," + sid(r.dim) + "]"); state_of(s, r.cur, 0); }
            else ev("[\"redim\"," + sid(r.cur) + "," + sid(r.dim) + "]");
            continue;
        }
        r.common(o[0]);
    }
}
template<class St, class X> void corrector(const Scen &c) {
    Runner<St, X> r; r.make = [] { return St(); }; r.never = c.resizer == "never"; r.keep = true; r.start(c.dim);
    for (auto &o : c.ops) {
        St &s = *r.obj[r.cur]; Point<X> &p = r.pt[r.cur]; F dt = rnz(); Sys sys;
        if (o == "i" || o == "a" || o == "o" || o == "R") {
            od::detail::rotating_buffer<typename St::wrapped_deriv_type, St::steps> b; std::string bs = "[";
            for (size_t k = R() % 3; k; --k) b.rotate();
            for (size_t i = 0; i < St::steps; ++i) { b[i].m_v = fill<X>(p.x.size()); bs += (i ? "," : "") + jv(b[i].m_v); }
            X pred = fill<X>(p.x.size()), in = p.x, out = blank(p.x);
            ev("[\"am\"," + sid(r.cur) + ",\"" + (o == "o" ? "o" : "i") + "\"," + js(p.t) + "," + js(dt) + "," + jv(p.x) + "," + jv(pred) + "," + bs + "]]");
            if (o == "i") { if (coin()) s.do_step(sys, view(in), pred, p.t, dt, b); else s.do_step(sys, in, pred, p.t, dt, b); }
            if (o == "R") s.do_step(boost::ref(sys), in, pred, p.t, dt, b);
            if (o == "a") s.do_step(sys, in, pred, p.t, in, dt, b);
            if (o == "o") { if (coin()) s.do_step(sys, in, pred, p.t, view(out), dt, b); else s.do_step(sys, in, pred, p.t, out, dt, b); }
            ev("[\"done\"," + jv(o == "o" ? out : in) + "," + (o == "o" ? jv(in) : std::string("[]")) + "]");
            p.x = o == "o" ? out : in; p.t += dt; continue;
        }
        if (o == "z" && c.resizer != "initially") { r.dim = 1 + R() % 4; r.fresh_point(r.cur); if (r.never) { s.adjust_size(p.x); ev("[\"size\"," + sid(r.cur) + "," + sid(r.dim) + "]"); } continue; }
        if (std::string("ckdwN").find(o[0]) != std::string::npos) r.common(o[0]);
    }
}
template<int K, class X, class Alg, class Z> void with(const Scen &c) {
    if (c.k != K) return;
    if (c.kind == "ab" && c.start == "rk4") history<adams_bashforth<K, X, F, X, F, Alg, default_operations, Z, runge_kutta4<X, F, X, F, Alg, default_operations, Z>>, X, Alg, Z>(c);
    else if (c.kind == "ab") history<adams_bashforth<K, X, F, X, F, Alg, default_operations, Z>, X, Alg, Z>(c);
    if (c.kind == "abm") history<adams_bashforth_moulton<K, X, F, X, F, Alg, default_operations, Z>, X, Alg, Z>(c);
    if (c.kind == "am") corrector<adams_moulton<K, X, F, X, F, Alg, default_operations, Z>, X>(c);
}
template<int K> void go(const Scen &c) {
    if (c.state == "arr") with<K, arr, larray, initially_resizer>(c);
    else if (c.resizer == "initially") with<K, vec, lrange, initially_resizer>(c);
    else if (c.resizer == "always") with<K, vec, lrange, always_resizer>(c);
    else if (c.resizer == "never") with<K, vec, lrange, never_resizer>(c);
}
int main(int argc, char **argv) {
    std::ifstream in(argv[1]); vt::tr().open(argv[2]); vt::guard(400);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); Scen c; is >> c.kind >> c.k >> c.state >> c.resizer >> c.dim >> c.seed >> c.start;
        std::string o; while (is >> o) c.ops.push_back(o);
        R.seed(c.seed); SEED = c.seed;
        vt::tr().begin("{\"kind\":\"" + c.kind + "\",\"k\":" + std::to_string(c.k) + ",\"state\":\"" + c.state + "\",\"resizer\":\"" + c.resizer + "\",\"seed\":" + std::to_string(c.seed) + ",\"start\":\"" + c.start + "\"}", 6000);
        try { go<PART + 1>(c); go<PART + 5>(c); } catch (vt::hang_error &) {} catch (std::exception &e) { vt::tr().ev("throw"); }
        vt::tr().end();
    }
    vt::tr().close();
}
