// Bulirsch-Stoer steppers over GF(p).  argv: scenarios trace
// A scenario: kind(ctl|dense) state resizer dim seed mx ci ops...
#include "rk.hpp"
#include <boost/math/special_functions/binomial.hpp>
// the error measure is answered by the scenario: y below one, n above, x far above
struct Tell { std::string script; size_t i = 0; F next() { char c = i < script.size() ? script[i++] : 'y'; return c == 'y' ? F(0) : c == 'n' ? F(2) : F(46336); } };
static Tell tell;
static size_t CHECKS = 0;
namespace boost { namespace numeric { namespace odeint {
template<class A, class O> class default_error_checker<gf::F, A, O> {
public:
    typedef gf::F value_type; typedef A algebra_type; typedef O operations_type;
    default_error_checker(F = F(0), F = F(0), F = F(0), F = F(0)) {}
    template<class X, class D, class E, class T> F error(const X &x, const D &d, E &e, T dt) const { A a; return error(a, x, d, e, dt); }
    template<class Al, class X, class D, class E, class T> F error(Al &, const X &x, const D &d, E &e, T dt) const {
        F v = tell.next(); ++CHECKS; ev("[\"chk\"," + jv(x) + "," + jv(d) + "," + jv(e) + "," + js(dt) + "," + js(v) + "]"); for (auto &c : e) c = F(1111); return v;
    }
};
} } }
namespace gf { inline F pow(const F &a, const F &e) { long x[2] = { a.v, e.v }; F r = hash(99, 0, x, 2, 0); return r.v ? r : F(3); } }
namespace boost { namespace math { template<> inline gf::F binomial_coefficient<gf::F>(unsigned n, unsigned k) { return gf::F(binomial_coefficient<double>(n, k)); } } }
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
using namespace boost::numeric::odeint;
static std::string sid(size_t i) { return std::to_string(i); }
static size_t RHS = 0;
struct BSys { template<class X, class D, class T> void operator()(const X &x, D &d, const T &t) const { ++RHS; Sys f; f(x, d, t); } };
template<class Go> void withsys(Go go) { BSys f; switch (R() % 3) { case 0: go(f); break; case 1: go(boost::ref(f)); break; default: go(std::ref(f)); } }
template<class St, class X> void ctl(const std::string &rz, size_t dim, F mx, const std::vector<std::string> &ops) {
    Runner<St, X> r; r.make = [mx] { return St(F(1), F(1), F(1), F(1), mx); }; r.never = rz == "never"; bool always = rz == "always"; r.start(dim);
    std::vector<long> last(1, -1);                        // the step each object proposed last
    for (auto &o : ops) {
        size_t id = r.cur; St &s = *r.obj[id]; Point<X> &p = r.pt[id];
        if (o[0] == 'i' || o[0] == 'o') {
            bool ip = o[0] == 'i', gd = o.size() > 1 && o[1] == 'D'; size_t col = o.find(':'); tell = Tell(); if (col != std::string::npos) tell.script = o.substr(col + 1);
            bool keep = o.size() > 1 && o[1] == 'K';   // always the step proposed last
            F dt = last[id] >= 0 && (R() % 3 || keep) ? F(last[id]) : rnz(); if (dt.v == 0) dt = rnz();
            if (last[id] >= 0 && dt.v != last[id]) ev("[\"other\"," + sid(id) + "]");
            X in = p.x, out = blank(p.x), d = fill<X>(p.x.size()); F t = p.t, dt0 = dt; RHS = CHECKS = 0; bool ok = false;
            ev("[\"try\"," + sid(id) + (ip ? ",\"i\"," : ",\"o\",") + jv(p.x) + "," + js(t) + "," + js(dt) + "," + (gd ? jv(d) : "[]") + "]");
            withsys([&](auto sys) { controlled_step_result res;
                if (ip) res = gd ? s.try_step(sys, in, d, t, dt) : coin() ? s.try_step(sys, view(in), t, dt) : s.try_step(sys, in, t, dt); else res = gd ? s.try_step(sys, in, d, t, out, dt) : s.try_step(sys, in, t, out, dt);
                ok = res == success; });
            if (!ok && RHS + gd <= 1 && CHECKS == 0) { ev("[\"refused\"," + js(t) + "," + jv(in) + "," + js(dt) + "," + js(mx) + "]"); continue; }
            X &res = ip ? in : out; if (!ok && !ip) res = p.x;
            ev(std::string("[\"done\",") + (ok ? "true" : "false") + "," + jv(res) + "," + js(t) + "," + (ip ? "[]" : jv(in)) + "]");
            last[id] = dt.v; p.x = res; p.t = t; continue;
        }
        if (o == "r") { s.reset(); ev("[\"reset\"," + sid(id) + "]"); continue; }
        if (o == "z") { if (!always && !r.never) continue; size_t old = r.pt[id].x.size(); r.dim = 1 + R() % 3; r.fresh_point(id);
            if (r.never) { s.adjust_size(p.x); ev("[\"size\"," + sid(id) + "," + sid(r.dim) + "]"); } else if (r.dim != old) ev("[\"redim\"," + sid(id) + "," + sid(r.dim) + "]"); continue; }
        size_t cur = r.cur; long l = last[cur];
        if (o == "k") for (size_t j = 0; j < r.obj.size(); ++j) if (r.alive[j] && j != cur) { last[j] = l; break; }
        r.common(o[0]); while (last.size() < r.obj.size()) last.push_back(o == "N" ? -1 : l);
    }
}
template<class D, class X> void dense(const std::string &rz, size_t dim, F mx, bool ci, const std::vector<std::string> &ops) {
    Runner<D, X> r; r.make = [=] { return D(F(1), F(1), F(1), F(1), mx, ci); }; r.never = rz == "never"; bool always = rz == "always"; r.start(dim);
    std::vector<int> st(1, 0);
    auto look = [&](size_t i) { D &s = *r.obj[i]; ev("[\"at\"," + sid(i) + "," + js(s.current_time()) + "," + jv(s.current_state()) + "," + js(s.current_time_step()) + "," + (st[i] ? js(s.previous_time()) + "," + jv(s.previous_state()) : std::string("0,[]")) + "]"); };
    auto initialize = [&](size_t i, const X &x, F t, F dt) { ev("[\"init\"," + sid(i) + "," + jv(x) + "," + js(t) + "," + js(dt) + "]"); r.obj[i]->initialize(x, t, dt); st[i] = 0; look(i); };
    initialize(0, r.pt[0].x, r.pt[0].t, rnz());
    for (auto &o : ops) {
        std::string form = o.substr(0, o.find(':')); tell = Tell(); if (o.find(':') != std::string::npos) tell.script = o.substr(o.find(':') + 1);
        if (form == "G") tell.script = std::string(9000, 'x');
        size_t i = r.cur; D &s = *r.obj[i];
        if (form == "s" || form == "S" || form == "G") {
            ev("[\"dstep\"," + sid(i) + "]");
            try { std::pair<F, F> iv; withsys([&](auto sys) { iv = s.do_step(sys); }); ev("[\"dret\"," + js(iv.first) + "," + js(iv.second) + "," + js(s.current_time_step()) + "]"); st[i] = 1; look(i); }
            catch (std::runtime_error &) { ev("[\"gaveup\"]"); return; }
        } else if (form == "C" || form == "L" || form == "H") {
            if (!st[i]) continue; F t = form == "C" ? rf() : form == "L" ? s.previous_time() : s.current_time(); X x = blank(s.current_state()); s.calc_state(t, x);
            ev("[\"calc\"," + sid(i) + "," + js(t) + "," + jv(x) + "]"); look(i);
        } else if (form == "I") { X x = fill<X>(s.current_state().size()); initialize(i, x, rf(), rnz()); }
        else if (form == "J" || form == "K") { X x = s.current_state(); initialize(i, x, s.current_time(), rnz()); }
        else if (form == "z") { if (!always && !r.never) continue; size_t n = 1 + R() % 3; X x = fill<X>(n); if (r.never) { s.adjust_size(x); ev("[\"size\"," + sid(i) + "," + sid(n) + "]"); } initialize(i, x, rf(), rnz()); }
        else if (form == "N") { r.common('N'); st.push_back(0); X x = fill<X>(dim); if (r.never) r.obj[r.cur]->adjust_size(x); initialize(r.cur, x, rf(), rnz()); }
        else {
            size_t before = r.obj.size(); int si = st[i];
            if (form == "k") for (size_t j = 0; j < r.obj.size(); ++j) if (r.alive[j] && j != r.cur) { st[j] = si; break; }
            r.common(form[0]); while (st.size() < r.obj.size()) st.push_back(si);
            if (r.obj.size() > before) look(r.obj.size() - 1); if (r.cur != i) look(r.cur);
        }
    }
}
template<class X, class A, class Z> void with(const std::string &kind, const std::string &rz, size_t dim, F mx, bool ci, const std::vector<std::string> &ops) {
    if (kind == "ctl") ctl<bulirsch_stoer<X, F, X, F, A, default_operations, Z>, X>(rz, dim, mx, ops);
    else dense<bulirsch_stoer_dense_out<X, F, X, F, A, default_operations, Z>, X>(rz, dim, mx, ci, ops);
}
int main(int argc, char **argv) {
    std::ifstream in(argv[1]); vt::tr().open(argv[2]); vt::guard(400);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string kind, st, rz; size_t dim; unsigned seed; long mx; int ci; is >> kind >> st >> rz >> dim >> seed >> mx >> ci; std::vector<std::string> ops; std::string o; while (is >> o) ops.push_back(o);
        R.seed(seed); SEED = seed;
        vt::tr().begin("{\"kind\":\"" + kind + "\",\"ci\":" + (ci ? "true" : "false") + ",\"mx\":" + std::to_string(mx) + ",\"seed\":" + std::to_string(seed) + "}", 60000);
        try {
            if (st == "arr") with<arr, array_algebra, initially_resizer>(kind, rz, dim, F(mx), ci, ops);
            else if (rz == "initially") with<vec, range_algebra, initially_resizer>(kind, rz, dim, F(mx), ci, ops);
            else if (rz == "always") with<vec, range_algebra, always_resizer>(kind, rz, dim, F(mx), ci, ops);
            else with<vec, range_algebra, never_resizer>(kind, rz, dim, F(mx), ci, ops);
        } catch (vt::hang_error &) {} catch (std::exception &e) { vt::tr().ev("throw"); }
        vt::tr().end();
    }
    vt::tr().close();
}
