// argv: decimals scenarios trace.  A scenario: scheme state resizer dim seed ops...
#include "rk.hpp"
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
using namespace boost::numeric::odeint;
typedef std::vector<std::string> ops_t;
struct Scen { std::string scheme, state, resizer; size_t dim; unsigned seed; ops_t ops; };
static std::string sid(size_t i) { return std::to_string(i); }
template<class X> std::string jp(const X &q, const X &p) { return jv(q) + "," + jv(p); }

struct Vel { template<class X, class D> void operator()(const X &p, D &d) const { size_t n = d.size(); gf::rhs(SEED * 3 + 1, p, d, F(0)); ev("[\"vel\"," + jv(p) + "," + jv(d) + "," + sid(n) + "]"); } };
struct Force { template<class X, class D> void operator()(const X &q, D &d) const { size_t n = d.size(); gf::rhs(SEED * 5 + 2, q, d, F(0)); ev("[\"force\"," + jv(q) + "," + jv(d) + "," + sid(n) + "]"); } };
struct Acc { template<class X, class D> void operator()(const X &q, const X &p, D &d, F t) const {
    size_t n = d.size(); X m = q; for (size_t i = 0; i < q.size(); ++i) m[i] = q[i] * F(31) + p[i]; gf::rhs(SEED, m, d, t); ev("[\"acc\"," + jp(q, p) + "," + jv(d) + "," + js(t) + "," + sid(n) + "]"); } };

// call forms for one system
template<class St, class Sy, class X> void forms(St &s, const std::string &o, Sy sys, std::pair<X, X> &in, std::pair<X, X> &out, F t, F dt) {
    if (o == "i") s.do_step(sys, in, t, dt);
    if (o == "a") s.do_step(sys, in, t, in, dt);
    if (o == "o") s.do_step(sys, in, t, out, dt);
    if (o == "p") s.do_step(sys, in.first, in.second, t, dt);
    if (o == "r") s.do_step(sys, std::make_pair(boost::ref(in.first), boost::ref(in.second)), t, dt);
    if (o == "q") { auto r = std::make_pair(std::ref(in.first), std::ref(in.second)); s.do_step(sys, r, t, dt); }
    if (o == "u") { const auto r = std::make_pair(std::cref(in.first), boost::cref(in.second)); auto w = std::make_pair(boost::ref(out.first), std::ref(out.second)); s.do_step(sys, r, t, w, dt); }
    if (o == "R") { auto w = boost::ref(in); s.do_step(sys, w, t, dt); }
    if (o == "S") { auto w = std::ref(out); s.do_step(sys, in, t, w, dt); }
}
template<class St, class X> struct PQ { X p; };
template<class St, class X> bool step(St &s, size_t id, Point<X> &pt, X &p, const std::string &o, std::false_type) {
    if (std::string("iaoprquRS").find(o) == std::string::npos) return false;
    bool inplace = std::string("iaprqR").find(o) != std::string::npos;
    int k = R() % 7; bool pair = k < 5; F dt = rnz();
    std::pair<X, X> in(pt.x, p), out(blank(pt.x), blank(p));
    ev("[\"step\"," + sid(id) + "," + (pair ? "\"pair\"" : "\"force\"") + ",\"" + (inplace ? "i" : "o") + "\"," + jp(in.first, in.second) + "," + js(dt) + "]");
    Vel v; Force f; auto sp = std::make_pair(v, f); auto spr = std::make_pair(boost::ref(v), std::ref(f));
    switch (k) { case 0: case 1: forms(s, o, sp, in, out, pt.t, dt); break; case 2: forms(s, o, boost::ref(sp), in, out, pt.t, dt); break; case 3: forms(s, o, std::ref(sp), in, out, pt.t, dt); break;
        case 4: forms(s, o, spr, in, out, pt.t, dt); break; case 5: forms(s, o, f, in, out, pt.t, dt); break; case 6: forms(s, o, boost::ref(f), in, out, pt.t, dt); break; }
    auto &res = inplace ? in : out;
    ev("[\"done\"," + jp(res.first, res.second) + "," + (inplace ? std::string("[],[]") : jp(in.first, in.second)) + "]");
    pt.x = res.first; p = res.second; pt.t += dt; return true;
}
template<class St> void vinit(St &s, size_t id) { ev("[\"isinit\"," + sid(id) + "," + (s.is_initialized() ? "true" : "false") + "]"); }
template<class St, class X> bool step(St &s, size_t id, Point<X> &pt, X &p, const std::string &o, std::true_type) {
    F dt = rnz(); Acc f; X q0 = pt.x, p0 = p;
    if (o == "o" || o == "u" || o == "S") {            // acceleration handed in
        X a = fill<X>(q0.size()), qo = blank(q0), po = blank(q0), ao = blank(q0);
        ev("[\"verlet\"," + sid(id) + "," + jp(q0, p0) + "," + js(pt.t) + "," + js(dt) + "," + jv(a) + "]");
        if (o == "o") s.do_step(f, q0, p0, a, qo, po, ao, pt.t, dt); else s.do_step(boost::ref(f), q0, p0, a, qo, po, ao, pt.t, dt);
        ev("[\"vdone\"," + jp(qo, po) + "," + jv(ao) + "," + jp(q0, p0) + "]"); pt.x = qo; p = po; pt.t += dt; 
        if (s.is_initialized()) { s.reset(); ev("[\"reset\"," + sid(id) + "]"); } return true;
    }
    if (std::string("iarqR").find(o) == std::string::npos) return false;
    std::pair<X, X> in(q0, p0);
    ev("[\"verlet\"," + sid(id) + "," + jp(q0, p0) + "," + js(pt.t) + "," + js(dt) + ",[]]");
    if (o == "i" || o == "a") s.do_step(f, in, pt.t, dt);
    if (o == "R") s.do_step(std::ref(f), in, pt.t, dt);
    if (o == "r") s.do_step(f, std::make_pair(boost::ref(in.first), boost::ref(in.second)), pt.t, dt);
    if (o == "q") { auto w = boost::ref(in); s.do_step(boost::ref(f), w, pt.t, dt); }
    ev("[\"vdone\"," + jp(in.first, in.second) + ",[],[],[]]"); vinit(s, id);
    pt.x = in.first; p = in.second; pt.t += dt; return true;
}
template<class St, class X> bool carried(St &s, size_t id, Point<X> &pt, X &p, const std::string &o, std::false_type) { return o == "I" || o == "J" || o == "e"; }
template<class St, class X> bool carried(St &s, size_t id, Point<X> &pt, X &p, const std::string &o, std::true_type) {
    if (o == "e") { s.reset(); ev("[\"reset\"," + sid(id) + "]"); }
    else if (o == "I") { ev("[\"inits\"," + sid(id) + "," + jp(pt.x, p) + "," + js(pt.t) + "]"); if (R() % 2) s.initialize(Acc(), pt.x, p, pt.t); else { Acc f; s.initialize(boost::ref(f), pt.x, p, pt.t); } ev("[\"inited\"]"); }
    else if (o == "J") { X d = fill<X>(p.size()); s.initialize(d); ev("[\"initd\"," + sid(id) + "," + jv(d) + "]"); }
    else return false;
    vinit(s, id); return true;
}
template<class St> void wipe(St &s, size_t id, std::true_type) { s.reset(); ev("[\"reset\"," + sid(id) + "]"); }
template<class St> void wipe(St &, size_t, std::false_type) {}

template<class St, class X, class Verlet> void history(const Scen &c, Verlet vv) {
    Runner<St, X> r; r.make = [] { return St(); }; r.never = c.resizer == "never"; bool always = c.resizer == "always"; r.start(c.dim);
    std::vector<X> mom(1, fill<X>(c.dim));
    for (auto &o : c.ops) {
        St &s = *r.obj[r.cur]; Point<X> &p = r.pt[r.cur];
        if (step(s, r.cur, p, mom[r.cur], o, vv)) { p.sd = p.x.size(); continue; }
        if (carried(s, r.cur, p, mom[r.cur], o, vv)) { p.sd = p.x.size(); continue; }
        if (o == "j") { wipe(s, r.cur, vv); r.dim = p.x.size(); r.fresh_point(r.cur); continue; }
        if (o == "z") {
            if (!always && !r.never) continue;
            size_t d = p.x.size(); do r.dim = 1 + R() % 4; while (r.dim == d);
            if (r.dim == p.sd) wipe(s, r.cur, vv);
            r.fresh_point(r.cur); mom[r.cur] = fill<X>(r.dim);
            if (r.never) { s.adjust_size(p.x); ev("[\"size\"," + sid(r.cur) + "," + sid(r.dim) + "]"); } else ev("[\"redim\"," + sid(r.cur) + "," + sid(r.dim) + "]");
            continue;
        }
        size_t me = r.cur; r.common(o[0]);
        while (mom.size() < r.obj.size()) mom.push_back(mom[me]);
        if (o == "k") for (size_t j = 0; j < r.obj.size(); ++j) if (r.alive[j] && j != me) { mom[j] = mom[me]; break; }
    }
}
template<class X, class Al, class Z> void with(const Scen &c) {
    if (c.scheme == "euler") history<symplectic_euler<X, X, F, X, X, F, Al, default_operations, Z>, X>(c, std::false_type());
    if (c.scheme == "m4") history<symplectic_rkn_sb3a_m4_mclachlan<X, X, F, X, X, F, Al, default_operations, Z>, X>(c, std::false_type());
    if (c.scheme == "sb3a") history<symplectic_rkn_sb3a_mclachlan<X, X, F, X, X, F, Al, default_operations, Z>, X>(c, std::false_type());
    if (c.scheme == "verlet") history<velocity_verlet<X, X, F, X, F, F, Al, default_operations, Z>, X>(c, std::true_type());
}
int main(int argc, char **argv) {
    gf::load_decimals(argv[1]); std::ifstream in(argv[2]); vt::tr().open(argv[3]); vt::guard(400);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); Scen c; is >> c.scheme >> c.state >> c.resizer >> c.dim >> c.seed;
        std::string o; while (is >> o) c.ops.push_back(o);
        R.seed(c.seed); SEED = c.seed;
        vt::tr().begin("{\"scheme\":\"" + c.scheme + "\",\"state\":\"" + c.state + "\",\"resizer\":\"" + c.resizer + "\",\"seed\":" + std::to_string(c.seed) + "}", 6000);
        try {
            if (c.state == "arr") with<arr, array_algebra, initially_resizer>(c);
            else if (c.resizer == "initially") with<vec, range_algebra, initially_resizer>(c);
            else if (c.resizer == "always") with<vec, range_algebra, always_resizer>(c);
            else with<vec, range_algebra, never_resizer>(c);
        } catch (vt::hang_error &) {} catch (std::exception &e) { vt::tr().ev("throw"); }
        vt::tr().end();
    }
    vt::tr().close();
}
