// Rosenbrock stepper and its dense output over GF(p).  argv: decimals scenarios trace
// A scenario: kind resizer dim seed ops...
#define BOOST_UBLAS_NDEBUG 1
#define GF_INITIAL 0                         // ublas takes T() for zero
#include "rk.hpp"
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
using namespace boost::numeric::odeint;
typedef boost::numeric::ublas::vector<F> uv; typedef boost::numeric::ublas::matrix<F> um;
template<> inline uv fill<uv>(size_t n) { uv v(n); for (auto &c : v) c = rf(); return v; }
static std::string sid(size_t i) { return std::to_string(i); }
static std::string jm(const um &m) { std::string s = "["; for (size_t i = 0; i < m.size1(); ++i) { s += i ? ",[" : "["; for (size_t j = 0; j < m.size2(); ++j) s += (j ? "," : "") + js(m(i, j)); s += "]"; } return s + "]"; }
static F CURDT;
static F det(std::vector<std::vector<F>> a) {
    size_t n = a.size(); F d(1);
    for (size_t k = 0; k < n; ++k) { size_t p = k; while (p < n && a[p][k].v == 0) ++p; if (p == n) return F(0); if (p != k) { std::swap(a[p], a[k]); d = -d; }
        d *= a[k][k]; for (size_t i = k + 1; i < n; ++i) { F m = a[i][k] / a[k][k]; for (size_t j = k; j < n; ++j) a[i][j] -= m * a[k][j]; } }
    return d;
}
static F SHIFT;                                           // 1/gamma of the method
struct JacF { template<class X, class M, class D> void operator()(const X &x, M &J, const F &t, D &ft) const {
    size_t n1 = J.size1(), n2 = J.size2(), n = x.size(); std::vector<long> a; for (auto &c : x) a.push_back(c.v);
    for (int k = 0; k < 50; ++k) {                        // a regular matrix
        for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) J(i, j) = (k + a[0]) % 5 == 0 && i != j ? F(0) : gf::hash(SEED + 77 + k, i * 16 + j, a.data(), n, t.v);
        std::vector<std::vector<F>> A(n, std::vector<F>(n)); for (size_t i = 0; i < n && i < n1; ++i) for (size_t j = 0; j < n && j < n2; ++j) A[i][j] = (i == j ? SHIFT / CURDT : F(0)) - J(i, j);
        if (det(A).v) break;
    }
    for (size_t i = 0; i < ft.size(); ++i) ft(i) = gf::hash(SEED + 5, i, a.data(), n, t.v);
    ev("[\"jac\"," + jv(x) + "," + js(t) + "," + jm(J) + "," + jv(ft) + "," + sid(n1) + "," + sid(n2) + "]");
} };
template<class Go> void withsys(Go go) {
    Sys f; JacF j; auto p = std::make_pair(f, j);
    switch (R() % 4) { case 0: go(p); break; case 1: go(boost::ref(p)); break; case 2: go(std::ref(p)); break; default: { auto q = std::make_pair(boost::ref(f), std::ref(j)); go(q); } }
}
template<class St> void rosen(const std::string &rz, size_t dim, const std::vector<std::string> &ops) {
    Runner<St, uv> r; r.make = [] { return St(); }; r.never = rz == "never"; bool always = rz == "always"; r.start(dim); SHIFT = F(4);
    for (auto &o : ops) {
        size_t id = r.cur; St &s = *r.obj[id]; Point<uv> &p = r.pt[id];
        if (std::string("i o a e oe ae").find(o) != std::string::npos) {
            bool ip = o[0] == 'i' || o[0] == 'a' || o == "e", we = o.back() == 'e'; uv in = p.x, out = blank(p.x), e = blank(p.x); F dt = rnz(); CURDT = dt;
            ev("[\"step\"," + sid(id) + (ip ? ",\"i\"," : ",\"o\",") + jv(p.x) + "," + js(p.t) + "," + js(dt) + "]");
            withsys([&](auto sys) {
                if (o == "i") s.do_step(sys, in, p.t, dt); if (o == "o") s.do_step(sys, in, p.t, out, dt); if (o == "a") s.do_step(sys, in, p.t, in, dt);
                if (o == "e") s.do_step(sys, in, p.t, dt, e); if (o == "oe") s.do_step(sys, in, p.t, out, dt, e); if (o == "ae") s.do_step(sys, in, p.t, in, dt, e); });
            uv &res = ip ? in : out; ev("[\"done\"," + jv(res) + "," + (we ? jv(e) : "[]") + "," + (ip ? "[]" : jv(in)) + "]");
            if (R() % 3 == 0) { s.prepare_dense_output(); ev("[\"prep\"," + sid(id) + "]"); uv x = blank(p.x); F t = rf(), tn = p.t + dt; uv a = fill<uv>(p.x.size()), b = R() % 2 ? res : fill<uv>(p.x.size());
                s.calc_state(t, x, a, p.t, b, tn); ev("[\"calc\"," + sid(id) + "," + js(t) + "," + jv(a) + "," + js(p.t) + "," + jv(b) + "," + js(tn) + "," + jv(x) + "]"); }
            p.x = res; p.t += dt; continue;
        }
        if (o == "z") { if (!always && !r.never) continue; r.dim = 1 + R() % 4; r.fresh_point(id);
            if (r.never) { s.adjust_size(p.x); ev("[\"size\"," + sid(id) + "," + sid(r.dim) + "]"); } else ev("[\"redim\"," + sid(id) + "," + sid(r.dim) + "]"); continue; }
        r.common(o[0]);
    }
}
// a controller whose verdicts come from the scenario
template<class St> struct Ctl {
    typedef St stepper_type; typedef typename St::state_type state_type; typedef F time_type;
    St st; state_wrapper<uv> err; St &stepper() { return st; }
    template<class S> controlled_step_result try_step(S sys, const uv &in, F &t, uv &out, F &dt) {
        CURDT = dt; uv e(in.size()); for (auto &c : out) c = F(8181); st.do_step(sys, in, t, out, dt, e); bool ok = judge.next() == 'y'; F nd = rnz();
        ev(std::string("[\"ver\",") + (ok ? "true" : "false") + "," + js(nd) + "]"); if (ok) t += dt; dt = nd; return ok ? success : fail;
    }
    template<class X> void adjust_size(const X &x) { st.adjust_size(x); }
};
template<class D> void rdense(const std::string &rz, size_t dim, const std::vector<std::string> &ops) {
    Runner<D, uv> r; r.make = [] { return D(); }; r.never = rz == "never"; bool always = rz == "always"; r.start(dim); SHIFT = F(4);
    std::vector<int> st(1, 0);
    auto look = [&](size_t i) { D &s = *r.obj[i]; ev("[\"at\"," + sid(i) + "," + js(s.current_time()) + "," + jv(s.current_state()) + "," + js(s.current_time_step()) + "," + (st[i] ? js(s.previous_time()) + "," + jv(s.previous_state()) : std::string("0,[]")) + "]"); };
    auto initialize = [&](size_t i, const uv &x, F t, F dt) { ev("[\"init\"," + sid(i) + "," + jv(x) + "," + js(t) + "," + js(dt) + "]"); r.obj[i]->initialize(x, t, dt); st[i] = 0; look(i); };
    initialize(0, r.pt[0].x, r.pt[0].t, rnz());
    for (auto &o : ops) {
        std::string form = o.substr(0, o.find(':')); judge = Judge(); if (o.find(':') != std::string::npos) judge.script = o.substr(o.find(':') + 1);
        if (form == "G") judge.script = std::string(700, 'n');
        size_t i = r.cur; D &s = *r.obj[i];
        if (form == "s" || form == "S" || form == "G") {
            ev("[\"dstep\"," + sid(i) + "]");
            try { std::pair<F, F> iv; withsys([&](auto sys) { iv = s.do_step(sys); }); ev("[\"dret\"," + js(iv.first) + "," + js(iv.second) + "]"); st[i] = 1; look(i); }
            catch (std::exception &) { ev("[\"gaveup\"," + sid(judge.i) + "]"); return; }
        } else if (form == "C" || form == "L" || form == "H") {
            if (!st[i]) continue; F t = form == "C" ? rf() : form == "L" ? s.previous_time() : s.current_time(); uv x = blank(s.current_state()); s.calc_state(t, x);
            ev("[\"dcalc\"," + sid(i) + "," + js(t) + "," + jv(x) + "]"); look(i);
        } else if (form == "I") { uv x = fill<uv>(s.current_state().size()); initialize(i, x, rf(), rnz()); }
        else if (form == "J" || form == "K") { uv x = s.current_state(); initialize(i, x, s.current_time(), rnz()); }
        else if (form == "z" && (always || r.never)) { size_t n = 1 + R() % 4; uv x = fill<uv>(n); if (r.never) { s.adjust_size(x); ev("[\"size\"," + sid(i) + "," + sid(n) + "]"); } initialize(i, x, rf(), rnz()); }
        else if (form == "N") { r.common('N'); st.push_back(0); uv x = fill<uv>(dim); if (r.never) r.obj[r.cur]->adjust_size(x); initialize(r.cur, x, rf(), rnz()); }
        else {
            size_t before = r.obj.size(); int si = st[i];
            if (form == "k") for (size_t j = 0; j < r.obj.size(); ++j) if (r.alive[j] && j != r.cur) { st[j] = si; break; }
            r.common(form[0]); while (st.size() < r.obj.size()) st.push_back(si);
            if (r.obj.size() > before) look(r.obj.size() - 1); if (r.cur != i) look(r.cur);
        }
    }
}
template<class Z> void with(const std::string &kind, const std::string &rz, size_t dim, const std::vector<std::string> &ops) {
    typedef rosenbrock4<F, default_rosenbrock_coefficients<F>, Z> St;
    if (kind == "step") rosen<St>(rz, dim, ops); else rdense<rosenbrock4_dense_output<Ctl<St>>>(rz, dim, ops);
}
int main(int argc, char **argv) {
    gf::load_decimals(argv[1]); std::ifstream in(argv[2]); vt::tr().open(argv[3]); vt::guard(400);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string kind, rz; size_t dim; unsigned seed; is >> kind >> rz >> dim >> seed; std::vector<std::string> ops; std::string o; while (is >> o) ops.push_back(o);
        R.seed(seed); SEED = seed;
        vt::tr().begin("{\"kind\":\"" + kind + "\",\"resizer\":\"" + rz + "\",\"seed\":" + std::to_string(seed) + "}", 8000);
        try { if (rz == "initially") with<initially_resizer>(kind, rz, dim, ops); else if (rz == "always") with<always_resizer>(kind, rz, dim, ops); else with<never_resizer>(kind, rz, dim, ops); }
        catch (vt::hang_error &) {} catch (std::exception &e) { vt::tr().ev("throw"); }
        vt::tr().end();
    }
    vt::tr().close();
}
