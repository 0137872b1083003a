// Adaptive Adams-Bashforth-Moulton over GF(p), plain and controlled with
// scripted adjusters.  argv: scenarios trace.  Compiled per order (-DORDN=..)
// A scenario: kind(plain|ctl) state resizer dim seed ops...
#include "rk.hpp"
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
using namespace boost::numeric::odeint;
static std::string sid(size_t i) { return std::to_string(i); }
// operations that take their factors as field elements
struct fops {
    template<class A = F, class B = A> struct scale_sum2 { F a, b; scale_sum2(F x, F y) : a(x), b(y) {} template<class X, class Y, class Z> void operator()(X &x, const Y &y, const Z &z) const { x = a * y + b * z; } };
    template<class A = F> struct scale_sum1 { F a; scale_sum1(F x) : a(x) {} template<class X, class Y> void operator()(X &x, const Y &y) const { x = a * y; } };
};
struct Sel { std::string script; size_t i = 0; char next(char d) { return i < script.size() ? script[i++] : d; } };
static Sel sel; static size_t POINTS, NMAX;
template<class X> struct StepAdj {
    static F threshold() { return F(23168); }
    template<class E, class S, class D> F adjust_stepsize(size_t order, F dt, E &err, const S &x, const D &d) {
        char v = sel.next('y'); bool ok = v == 'y'; F q; do q = rnz(); while ((q >= threshold()) != ok);
        F n = dt * q;
        ev("[\"adj\"," + sid(order) + "," + js(dt) + "," + jv(err) + "," + jv(x) + "," + jv(d) + "," + js(n) + "," + (ok ? "true" : "false") + "]");
        for (auto &c : err) c = F(1111);
        return n;
    }
};
template<class X> struct OrdAdj {
    template<class A> size_t adjust_order(size_t order, size_t init, A &xerr) {
        char v = sel.next('+'); size_t n = order, top = std::min<size_t>(init + 1, NMAX);
        if (v == '+' && n < top) ++n; if (v == '-' && n > 1) --n;
        std::string s = "["; for (int i = 0; i < 4; ++i) s += (i ? "," : "") + jv(xerr[i].m_v);
        ev("[\"ord\"," + sid(order) + "," + sid(init) + "," + s + "]," + sid(n) + "]");
        return n;
    }
};
// a controlled stepper that goes where it likes
template<class X> struct Other {
    template<class S> controlled_step_result try_step(S, X &x, F &t, F &dt) {
        bool ok = sel.next('y') == 'y'; X o = x; F t0 = t, d0 = dt;
        if (ok) { for (auto &c : x) c = rf(); t += dt; }
        dt = rnz();
        ev("[\"mtry\"," + jv(o) + "," + js(t0) + "," + js(d0) + "," + (ok ? "true" : "false") + "," + jv(x) + "," + js(t) + "," + js(dt) + "]");
        return ok ? success : fail;
    }
};
template<class Go> void withsys(Go go) { Sys f; switch (R() % 3) { case 0: go(f); break; case 1: go(boost::ref(f)); break; default: go(std::ref(f)); } }
typedef std::vector<std::string> ops_t;
template<class St> struct Sized : St { template<class X> void adjust_size(const X &) {} };   // these have no such member
template<class St0, class X> struct Hist {
    typedef Sized<St0> St;
    Runner<St, X> r; std::vector<std::vector<long>> tm;   // times in the history of each object
    bool ctl;
    F step(size_t i, F t) { for (;;) { F dt = rnz(), e = t + dt; bool bad = false; for (long o : tm[i]) if (o == e.v) bad = true; if (!bad) return dt; } }
    void seen(size_t i, F t) { tm[i].push_back(t.v); if (tm[i].size() > NMAX + 3) tm[i].erase(tm[i].begin()); }
    void clear(size_t i) { tm[i].clear(); seen(i, r.pt[i].t); }
    void plain_ops(const std::string &o, std::false_type) {}
    void plain_ops(const std::string &o, std::true_type) {
        size_t id = r.cur; St &s = *r.obj[id]; Point<X> &p = r.pt[id]; F dt = step(id, p.t); X in = p.x, out = blank(p.x), e = blank(p.x); bool ip = o == "i" || o == "a" || o == "e" || o == "ae", er = o == "e" || o == "oe" || o == "ae";
        ev("[\"step\"," + sid(id) + (ip ? ",\"i\"," : ",\"o\",") + js(p.t) + "," + js(dt) + "," + jv(p.x) + "]");
        withsys([&](auto f) {
            if (o == "i") s.do_step(f, in, p.t, dt); if (o == "a") s.do_step(f, in, p.t, in, dt); if (o == "o") s.do_step(f, in, p.t, out, dt);
            if (o == "e") s.do_step(f, in, p.t, dt, e); if (o == "ae") s.do_step(f, in, p.t, in, dt, e); if (o == "oe") s.do_step(f, in, p.t, out, dt, e); });
        ev("[\"done\"," + jv(ip ? in : out) + "," + (er ? jv(e) : std::string("[]")) + "," + (ip ? std::string("[]") : jv(in)) + "]");
        p.x = ip ? in : out; p.t += dt; seen(id, p.t);
    }
    void ctl_ops(const std::string &o, std::false_type) {}
    void ctl_ops(const std::string &o, std::true_type) {
        size_t id = r.cur; St &s = *r.obj[id]; Point<X> &p = r.pt[id]; F dt = step(id, p.t); X in = p.x, out = blank(p.x); bool ip = o == "i";
        ev("[\"try\"," + sid(id) + (ip ? ",\"i\"," : ",\"o\",") + js(p.t) + "," + js(dt) + "," + jv(p.x) + "]");
        bool ok = false; F t = p.t;
        withsys([&](auto f) { controlled_step_result res = ip ? s.try_step(f, in, t, dt) : s.try_step(f, in, t, out, dt); ok = res == success; });
        ev(std::string("[\"tried\",") + (ok ? "true" : "false") + "," + jv(ip ? in : out) + "," + js(t) + "," + js(dt) + "," + (ip ? std::string("[]") : jv(in)) + "]");
        if (ok || ip) p.x = ip ? in : out; p.t = t; if (ok) seen(id, t);
    }
    void controlled_start(std::false_type) {}
    void controlled_start(std::true_type) {
        size_t id = r.cur; St &s = *r.obj[id]; Point<X> &p = r.pt[id]; F dt = rnz(); X x = p.x; F t = p.t;
        ev("[\"ictl\"," + sid(id) + "," + js(t) + "," + js(dt) + "," + jv(x) + "]");
        withsys([&](auto f) { s.initialize_controlled(Other<X>(), f, x, t, dt); });
        ev("[\"started\"," + jv(x) + "," + js(t) + "," + js(dt) + "]"); p.x = x; p.t = t; clear(id);
    }
    template<class A, class Z, class IsPlain, class IsCtl> void go(size_t dim, bool always, const ops_t &ops) {
        r.make = [] { return St(); }; r.never = false; r.start(dim); tm.resize(1); clear(0);
        for (auto &w : ops) {
            std::string o = w.substr(0, w.find(':')); sel = Sel(); if (w.find(':') != std::string::npos) sel.script = w.substr(w.find(':') + 1);
            size_t id = r.cur; St &s = *r.obj[id]; Point<X> &p = r.pt[id];
            if (o == "i" || o == "o" || o == "a" || o == "e" || o == "oe" || o == "ae") { plain_ops(o, IsPlain()); ctl_ops(o, IsCtl()); }
            else if (o == "r") { s.reset(); ev("[\"reset\"," + sid(id) + "]"); clear(id); }
            else if (o == "j") { s.reset(); ev("[\"reset\"," + sid(id) + "]"); r.dim = p.x.size(); r.fresh_point(id); clear(id); }
            else if (o == "x") { X y = fill<X>(p.x.size()); p.x = y; }                       // the state moves, the history stays
            else if (o == "I") {
                F dt = rnz(); X x = p.x; F t = p.t; ev("[\"init\"," + sid(id) + "," + js(t) + "," + js(dt) + "," + jv(x) + "]");
                withsys([&](auto f) { s.initialize(f, x, t, dt); }); ev("[\"started\"," + jv(x) + "," + js(t) + "," + js(dt) + "]"); p.x = x; p.t = t; clear(id);
            } else if (o == "E" || o == "Q" || o == "T") {
                F dt = rnz(); X x = p.x; F t = p.t; ev("[\"with\"," + sid(id) + ",\"" + (o == "E" ? "euler" : o == "Q" ? "rk4" : "ck54") + "\"," + js(t) + "," + js(dt) + "," + jv(x) + "]");
                withsys([&](auto f) {
                    if (o == "E") s.initialize(euler<X, F, X, F, A, default_operations, Z>(), f, x, t, dt);
                    if (o == "Q") s.initialize(runge_kutta4<X, F, X, F, A, default_operations, Z>(), f, x, t, dt);
                    if (o == "T") s.initialize(runge_kutta_cash_karp54<X, F, X, F, A, default_operations, Z>(), f, x, t, dt); });
                ev("[\"started\"," + jv(x) + "," + js(t) + "," + js(dt) + "]"); p.x = x; p.t = t; clear(id);
            } else if (o == "X") controlled_start(IsCtl());
            else if (o == "z") { if (!always) continue; s.reset(); ev("[\"reset\"," + sid(id) + "]"); r.dim = 1 + R() % 4; r.fresh_point(id); clear(id); }
            else { size_t cur = r.cur; auto l = tm[cur];
                if (o == "k") for (size_t j = 0; j < r.obj.size(); ++j) if (r.alive[j] && j != cur) { tm[j] = l; break; }
                r.common(o[0]); while (tm.size() < r.obj.size()) tm.push_back(o == "N" ? std::vector<long>(1, r.pt[tm.size()].t.v) : l); }
        }
    }
};
template<size_t K, class X, class A, class Z> void with(const std::string &kind, size_t dim, bool always, const ops_t &ops) {
    NMAX = K;
    typedef adaptive_adams_bashforth_moulton<K, X, F, X, F, A, fops, Z> P;
    if (kind == "plain") { Hist<P, X> h; h.template go<A, Z, std::true_type, std::false_type>(dim, always, ops); }
    else { Hist<controlled_adams_bashforth_moulton<P, StepAdj<X>, OrdAdj<X>, Z>, X> h; h.template go<A, Z, std::false_type, std::true_type>(dim, always, ops); }
}
#ifndef ORDN
#define ORDN 3
#endif
int main(int argc, char **argv) {
    std::ifstream in(argv[1]); vt::tr().open(argv[2]); gf::load_decimals(argv[3]); vt::guard(400);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string kind, st, rz; size_t dim; unsigned seed; int n; is >> kind >> n >> st >> rz >> dim >> seed; if (n != ORDN) continue; ops_t ops; std::string o; while (is >> o) ops.push_back(o);
        R.seed(seed); SEED = seed;
        vt::tr().begin("{\"kind\":\"" + kind + "\",\"n\":" + std::to_string(n) + ",\"seed\":" + std::to_string(seed) + "}", 20000);
        try {
            if (st == "arr") with<ORDN, arr, array_algebra, initially_resizer>(kind, dim, false, ops);
            else if (rz == "initially") with<ORDN, vec, range_algebra, initially_resizer>(kind, dim, false, ops);
            else with<ORDN, vec, range_algebra, always_resizer>(kind, dim, true, ops);
        } catch (vt::hang_error &) {} catch (std::exception &e) { vt::tr().ev("throw"); }
        vt::tr().end();
    }
    vt::tr().close();
}
