// Histories of calls on explicit Runge-Kutta steppers, the controllers and the
// dense-output steppers around them, over GF(p).  Every object ever created in
// a scenario has a number; copies get their own.
#ifndef VERIF_RK_HPP
#define VERIF_RK_HPP
#include "gf.hpp"
#include <memory>
#include <sstream>
#include <fstream>
#include <boost/array.hpp>
#include <boost/ref.hpp>
#include <boost/range/iterator_range.hpp>
#include <functional>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
namespace od = boost::numeric::odeint;
using gf::F; using gf::js; using gf::jv;
typedef std::vector<F> vec;
typedef boost::array<F, 3> arr;

static std::mt19937 R;
inline F rf() { return F((long)(R() % gf::P)); }
inline F rnz() { return F((long)(1 + R() % (gf::P - 1))); }
inline void ev(const std::string &s) {
    vt::tr().raw(s);
    if (vt::tr().budget-- == 0) { vt::tr().raw("[\"hang\"]"); vt::tr().budget = (size_t)-1; throw vt::hang_error(); }
}
inline std::string q(const char *s) { return std::string("\"") + s + "\""; }

static long SEED = 1;
// the system: logs state, time, result and the size of the derivative it was given
struct Sys {
    template<class X, class D, class T> void operator()(const X &x, D &d, const T &t) const {
        size_t n = d.size();
        gf::rhs(SEED, x, d, F(t));
        ev("[\"rhs\"," + jv(x) + "," + js(t) + "," + jv(d) + "," + std::to_string(n) + "]");
    }
};
template<class X> X fill(size_t n);
template<> inline vec fill<vec>(size_t n) { vec v(n); for (auto &c : v) c = rf(); return v; }
template<> inline arr fill<arr>(size_t) { arr v; for (auto &c : v) c = rf(); return v; }
// a temporary view of a state, the way a part of a larger state is stepped
inline boost::iterator_range<vec::iterator> view(vec &v) { return boost::iterator_range<vec::iterator>(v.begin(), v.end()); }
inline arr &view(arr &v) { return v; }
inline bool coin() { return R() % 2 == 0; }
template<class X> X blank(const X &like) { X v = like; for (auto &c : v) c = F(4242); return v; }

// verdicts of the error checker and of the step-size limit come from the scenario
struct Judge { std::string script; size_t i = 0; char next() { return i < script.size() ? script[i++] : 'y'; } };
static Judge judge;
static F err_value(bool ok) { return ok ? F(0) : F((long)(2 + R() % 40000)); }
struct LogChecker {
    typedef F value_type;
    template<class A, class X, class D, class E, class T> F error(A &, const X &x, const D &d, E &e, T dt) const {
        char c = judge.next(); while (c == 'l') c = judge.next();
        bool ok = c == 'y'; F v = err_value(ok);
        ev("[\"chk\"," + jv(x) + "," + jv(d) + "," + jv(e) + "," + js(dt) + "," + (ok ? "true" : "false") + "," + js(v) + "]");
        for (auto &c : e) c = F(1111);            // the checker may overwrite the error
        return v;
    }
};
struct LogAdjuster {
    F mx;
    F decrease_step(F dt, F err, int ord) const { F n = rnz(); ev("[\"adj\",\"dec\"," + js(dt) + "," + js(err) + "," + std::to_string(ord) + "," + js(n) + "]"); return n; }
    F increase_step(F dt, F err, int ord) const { F n = rnz(); ev("[\"adj\",\"inc\"," + js(dt) + "," + js(err) + "," + std::to_string(ord) + "," + js(n) + "]"); return n; }
    bool check_step_size_limit(F dt) {
        bool ok = !(judge.i < judge.script.size() && judge.script[judge.i] == 'l');
        if (!ok) { ++judge.i; mx = rnz(); }
        ev("[\"lim\"," + js(dt) + "," + (ok ? "true" : "false") + "," + js(mx) + "]"); return ok;
    }
    F get_max_dt() { return mx; }
};

template<class X> struct Point { X x; F t; size_t sd = 0; };   // where an object's trajectory is; dimension it was last used with

// ---------------------------------------------------------------- explicit steppers
struct tag_plain {}; struct tag_err {}; struct tag_fsal {};

template<class St, class X> struct Runner {
    std::vector<std::unique_ptr<St>> obj; std::vector<Point<X>> pt; std::vector<int> alive; size_t cur = 0;
    size_t dim; std::function<St()> make; bool never; bool keep = false;   // keep: the storage of destroyed objects is not reused
    int add(St *s, const Point<X> &p) { obj.emplace_back(s); pt.push_back(p); alive.push_back(1); return (int)obj.size() - 1; }
    std::string id(size_t i) { return std::to_string(i); }
    void fresh_point(size_t i) { pt[i].x = fill<X>(dim); pt[i].t = rf(); }
    void start(size_t n) { dim = n; int i = add(new St(make()), Point<X>()); fresh_point(i); if (never) { obj[i]->adjust_size(pt[i].x); ev("[\"size\"," + id(i) + "," + std::to_string(dim) + "]"); } }
    // steppers that cannot be assigned are replaced by a copy
    void put(size_t j, std::true_type) { *obj[j] = *obj[cur]; }
    void put(size_t j, std::false_type) { obj[j].reset(new St(*obj[cur])); }
    // copies: c copy-construct, k copy-assign to the oldest other object, d drop the oldest other, w switch
    bool common(char c) {
        switch (c) {
            case 'c': { int j = add(new St(*obj[cur]), pt[cur]); ev("[\"copy\"," + id(cur) + "," + id(j) + "]"); return true; }
            case 'k': for (size_t j = 0; j < obj.size(); ++j) if (alive[j] && j != cur) { put(j, std::is_copy_assignable<St>()); pt[j] = pt[cur]; ev("[\"copy\"," + id(cur) + "," + id(j) + "]"); break; } return true;
            case 'd': for (size_t j = 0; j < obj.size(); ++j) if (alive[j] && j != cur) { if (keep) obj[j].release()->~St(); else obj[j].reset(); alive[j] = 0; ev("[\"drop\"," + id(j) + "]"); break; } return true;
            case 'w': for (size_t s = 1; s <= obj.size(); ++s) { size_t j = (cur + s) % obj.size(); if (alive[j]) { cur = j; break; } } return true;
            case 'N': { int j = add(new St(make()), pt[cur]); ev("[\"new\"," + id(j) + "]"); if (never) { obj[j]->adjust_size(pt[j].x); ev("[\"size\"," + id(j) + "," + std::to_string(pt[j].x.size()) + "]"); } cur = j; return true; }
        }
        return false;
    }
};

template<class St, class X> void call_open(const char *op, size_t id, const char *form, F t, F dt, const X &x, const X *d) {
    ev(std::string("[\"") + op + "\"," + std::to_string(id) + ",\"" + form + "\"," + js(t) + "," + js(dt) + "," + jv(x) + "," + (d ? jv(*d) : std::string("[]")) + "]");
}
// what a call left behind: result state, error, input afterwards, derivative afterwards
template<class X> void call_close(const X &out, const X *err, const X *in, const X *d) {
    ev("[\"done\"," + jv(out) + "," + (err ? jv(*err) : std::string("[]")) + "," + (in ? jv(*in) : std::string("[]")) + "," + (d ? jv(*d) : std::string("[]")) + "]");
}

// forms that let the stepper provide the derivative
template<class St, class X> bool int_forms(St &s, size_t id, Point<X> &p, const std::string &o, F dt) {
    X out = blank(p.x), in = p.x; Sys sys;
    if (o == "i") { call_open<St>("call", id, "i", p.t, dt, p.x, (X*)0); if (coin()) s.do_step(sys, view(in), p.t, dt); else s.do_step(sys, in, p.t, dt); call_close(in, (X*)0, (X*)0, (X*)0); p.x = in; }
    else if (o == "o") { call_open<St>("call", id, "o", p.t, dt, p.x, (X*)0); if (coin()) s.do_step(sys, view(in), p.t, out, dt); else s.do_step(sys, in, p.t, out, dt); call_close(out, (X*)0, &in, (X*)0); p.x = out; }
    else if (o == "a") { call_open<St>("call", id, "i", p.t, dt, p.x, (X*)0); s.do_step(sys, in, p.t, in, dt); call_close(in, (X*)0, (X*)0, (X*)0); p.x = in; }
    else if (o == "R") { call_open<St>("call", id, "i", p.t, dt, p.x, (X*)0); if (coin()) s.do_step(boost::ref(sys), view(in), p.t, dt); else s.do_step(boost::ref(sys), in, p.t, dt); call_close(in, (X*)0, (X*)0, (X*)0); p.x = in; }
    else if (o == "S") { call_open<St>("call", id, "o", p.t, dt, p.x, (X*)0); s.do_step(std::ref(sys), in, p.t, out, dt); call_close(out, (X*)0, &in, (X*)0); p.x = out; }
    else return false;
    p.t += dt; return true;
}
template<class St, class X> bool int_err_forms(St &s, size_t id, Point<X> &p, const std::string &o, F dt) {
    X e = blank(p.x), out = blank(p.x), in = p.x; Sys sys;
    if (o == "e") { call_open<St>("call", id, "i", p.t, dt, p.x, (X*)0); if (coin()) s.do_step(sys, view(in), p.t, dt, e); else s.do_step(sys, in, p.t, dt, e); call_close(in, &e, (X*)0, (X*)0); p.x = in; }
    else if (o == "oe") { call_open<St>("call", id, "o", p.t, dt, p.x, (X*)0); s.do_step(sys, in, p.t, out, dt, e); call_close(out, &e, &in, (X*)0); p.x = out; }
    else if (o == "ae") { call_open<St>("call", id, "i", p.t, dt, p.x, (X*)0); s.do_step(sys, in, p.t, in, dt, e); call_close(in, &e, (X*)0, (X*)0); p.x = in; }
    else return false;
    p.t += dt; return true;
}
// forms that are given the derivative
template<class X> X given_deriv(const Point<X> &p) { X d = p.x; if (R() % 2) return fill<X>(p.x.size()); gf::rhs(SEED, p.x, d, p.t); return d; }
template<class St, class X> bool d_forms(St &s, size_t id, Point<X> &p, const std::string &o, F dt) {
    X d = given_deriv(p), out = blank(p.x), in = p.x; Sys sys;
    if (o == "iD") { call_open<St>("call", id, "iD", p.t, dt, p.x, &d); s.do_step(sys, in, d, p.t, dt); call_close(in, (X*)0, (X*)0, &d); p.x = in; }
    else if (o == "oD") { call_open<St>("call", id, "oD", p.t, dt, p.x, &d); s.do_step(sys, in, d, p.t, out, dt); call_close(out, (X*)0, &in, &d); p.x = out; }
    else if (o == "aD") { call_open<St>("call", id, "iD", p.t, dt, p.x, &d); s.do_step(sys, in, d, p.t, in, dt); call_close(in, (X*)0, (X*)0, &d); p.x = in; }
    else return false;
    p.t += dt; return true;
}
template<class St, class X> bool d_err_forms(St &s, size_t id, Point<X> &p, const std::string &o, F dt) {
    X d = given_deriv(p), e = blank(p.x), out = blank(p.x), in = p.x; Sys sys;
    if (o == "eD") { call_open<St>("call", id, "iD", p.t, dt, p.x, &d); s.do_step(sys, in, d, p.t, dt, e); call_close(in, &e, (X*)0, &d); p.x = in; }
    else if (o == "oeD") { call_open<St>("call", id, "oD", p.t, dt, p.x, &d); s.do_step(sys, in, d, p.t, out, dt, e); call_close(out, &e, &in, &d); p.x = out; }
    else return false;
    p.t += dt; return true;
}
template<class St, class X> bool step_op(St &s, size_t id, Point<X> &p, const std::string &o, F dt, size_t, tag_plain) {
    return int_forms(s, id, p, o, dt) || d_forms(s, id, p, o, dt);
}
template<class St, class X> bool step_op(St &s, size_t id, Point<X> &p, const std::string &o, F dt, size_t n, tag_err) {
    return step_op(s, id, p, o, dt, n, tag_plain()) || int_err_forms(s, id, p, o, dt) || d_err_forms(s, id, p, o, dt);
}
template<class St, class X> void isinit(St &s, size_t id) { ev("[\"isinit\"," + std::to_string(id) + "," + (s.is_initialized() ? "true" : "false") + "]"); }
// derivative-carrying steppers: the derivative argument is in/out
template<class St, class X> bool step_op(St &s, size_t id, Point<X> &p, const std::string &o, F dt, size_t n, tag_fsal) {
    X d = given_deriv(p), dn = blank(p.x), e = blank(p.x), out = blank(p.x), in = p.x; Sys sys;
    if (o == "iD" || o == "aD") { call_open<St>("call", id, "iD", p.t, dt, p.x, &d); s.do_step(sys, in, d, p.t, dt); call_close(in, (X*)0, (X*)0, &d); p.x = in; }
    else if (o == "oD") { call_open<St>("call", id, "oD", p.t, dt, p.x, &d); s.do_step(sys, in, d, p.t, out, dn, dt); call_close(out, (X*)0, &in, &dn); p.x = out; }
    else if (o == "eD") { call_open<St>("call", id, "iD", p.t, dt, p.x, &d); s.do_step(sys, in, d, p.t, dt, e); call_close(in, &e, (X*)0, &d); p.x = in; }
    else if (o == "oeD") { call_open<St>("call", id, "oD", p.t, dt, p.x, &d); s.do_step(sys, in, d, p.t, out, dn, dt, e); call_close(out, &e, &in, &dn); p.x = out; }
    else { bool r = int_forms(s, id, p, o, dt) || int_err_forms(s, id, p, o, dt); if (r) isinit<St, X>(s, id); return r; }
    p.t += dt; isinit<St, X>(s, id); return true;
}
template<class St, class X> bool fsal_ops(St &s, size_t id, Point<X> &p, const std::string &o, tag_plain) { return false; }
template<class St, class X> bool fsal_ops(St &s, size_t id, Point<X> &p, const std::string &o, tag_err) { return false; }
template<class St, class X> bool fsal_ops(St &s, size_t id, Point<X> &p, const std::string &o, tag_fsal) {
    if (o == "r") { s.reset(); ev("[\"reset\"," + std::to_string(id) + "]"); }
    else if (o == "I") { ev("[\"inits\"," + std::to_string(id) + "," + jv(p.x) + "," + js(p.t) + "]"); s.initialize(Sys(), p.x, p.t); ev("[\"inited\"]"); }
    else if (o == "J") { X d = fill<X>(p.x.size()); s.initialize(d); ev("[\"initd\"," + std::to_string(id) + "," + jv(d) + "]"); }
    else return false;
    isinit<St, X>(s, id); return true;
}
template<class St> void do_reset(St &s, size_t id, tag_fsal) { s.reset(); ev("[\"reset\"," + std::to_string(id) + "]"); }
template<class St, class T> void do_reset(St &, size_t, T) {}

template<class St, class X, class Tag> void explicit_history(std::function<St()> make, size_t dim, bool always, bool never, const std::vector<std::string> &ops, Tag tag) {
    Runner<St, X> r; r.make = make; r.never = never; r.start(dim);
    for (auto &o : ops) {
        St &s = *r.obj[r.cur]; Point<X> &p = r.pt[r.cur]; F dt = rnz();
        if (step_op(s, r.cur, p, o, dt, dim, tag)) { p.sd = p.x.size(); continue; }
        if (fsal_ops(s, r.cur, p, o, tag)) { p.sd = p.x.size(); continue; }
        if (o == "j") { do_reset(s, r.cur, tag); r.dim = p.x.size(); r.fresh_point(r.cur); continue; }
        if (o == "z" && (always || never)) {
            r.dim = p.x.size() == dim ? dim + 1 + R() % 3 : (R() % 2 ? dim : 1 + R() % 5);
            if (r.dim == p.sd) do_reset(s, r.cur, tag);
            r.fresh_point(r.cur);
            if (never) { s.adjust_size(p.x); ev("[\"size\"," + std::to_string(r.cur) + "," + std::to_string(r.dim) + "]"); }
            else ev("[\"redim\"," + std::to_string(r.cur) + "," + std::to_string(r.dim) + "]");
            continue;
        }
        r.common(o[0]);
    }
}

// ---------------------------------------------------------------- controlled
struct ctl_plain {}; struct ctl_fsal {};
template<class X> void tclose(bool ok, F t, F dt, const X &out, const X *in, const X *d) {
    ev(std::string("[\"tdone\",") + (ok ? "true" : "false") + "," + js(t) + "," + js(dt) + "," + jv(out) + "," + (in ? jv(*in) : std::string("[]")) + "," + (d ? jv(*d) : std::string("[]")) + "]");
}
template<class C, class X> bool try_op(C &s, size_t id, Point<X> &p, const std::string &o, F dt, ctl_plain) {
    X d = fill<X>(p.x.size()), out = blank(p.x), in = p.x; Sys sys; F t = p.t, h = dt; bool ok;
    if (o == "i" || o == "R") { call_open<C>("try", id, "i", t, h, in, (X*)0); ok = (o == "R" ? s.try_step(boost::ref(sys), in, t, h) : coin() ? s.try_step(sys, view(in), t, h) : s.try_step(sys, in, t, h)) == od::success; tclose(ok, t, h, in, (X*)0, (X*)0); p.x = in; }
    else if (o == "iD") { call_open<C>("try", id, "iD", t, h, in, &d); ok = s.try_step(sys, in, d, t, h) == od::success; tclose(ok, t, h, in, (X*)0, &d); p.x = in; }
    else if (o == "o") { call_open<C>("try", id, "o", t, h, in, (X*)0); ok = s.try_step(sys, in, t, out, h) == od::success; tclose(ok, t, h, out, &in, (X*)0); if (ok) p.x = out; }
    else if (o == "oD") { call_open<C>("try", id, "oD", t, h, in, &d); ok = s.try_step(sys, in, d, t, out, h) == od::success; tclose(ok, t, h, out, &in, &d); if (ok) p.x = out; }
    else return false;
    p.t = t; return true;
}
template<class C, class X> bool try_op(C &s, size_t id, Point<X> &p, const std::string &o, F dt, ctl_fsal) {
    X d = fill<X>(p.x.size()), dn = blank(p.x), out = blank(p.x), in = p.x; Sys sys; F t = p.t, h = dt; bool ok;
    if (o == "i" || o == "R") { call_open<C>("try", id, "i", t, h, in, (X*)0); ok = (o == "R" ? s.try_step(boost::ref(sys), in, t, h) : coin() ? s.try_step(sys, view(in), t, h) : s.try_step(sys, in, t, h)) == od::success; tclose(ok, t, h, in, (X*)0, (X*)0); p.x = in; }
    else if (o == "iD") { call_open<C>("try", id, "iD", t, h, in, &d); ok = s.try_step(sys, in, d, t, h) == od::success; tclose(ok, t, h, in, (X*)0, &d); p.x = in; }
    else if (o == "o") { call_open<C>("try", id, "o", t, h, in, (X*)0); ok = s.try_step(sys, in, t, out, h) == od::success; tclose(ok, t, h, out, &in, (X*)0); if (ok) p.x = out; }
    else if (o == "oD") { call_open<C>("try", id, "oD", t, h, in, &d); ok = s.try_step(sys, in, d, t, out, dn, h) == od::success; tclose(ok, t, h, out, &in, &dn); if (ok) p.x = out; }
    else return false;
    p.t = t; isinit<C, X>(s, id); return true;
}
template<class C, class X> bool ctl_state_ops(C &s, size_t id, Point<X> &p, const std::string &o, ctl_plain) { return false; }
template<class C, class X> bool ctl_state_ops(C &s, size_t id, Point<X> &p, const std::string &o, ctl_fsal) { return fsal_ops(s, id, p, o, tag_fsal()); }
template<class C> void do_reset(C &s, size_t id, ctl_fsal) { s.reset(); ev("[\"reset\"," + std::to_string(id) + "]"); }

template<class C, class X, class Tag> void controlled_history(std::function<C()> make, size_t dim, bool always, bool never, const std::vector<std::string> &ops, Tag tag) {
    Runner<C, X> r; r.make = make; r.never = never; r.start(dim);
    for (auto &o : ops) {
        C &s = *r.obj[r.cur]; Point<X> &p = r.pt[r.cur]; F dt = rnz();
        // o = form followed by ":" and the verdicts for this call
        std::string form = o.substr(0, o.find(':')); judge = Judge();
        if (o.find(':') != std::string::npos) judge.script = o.substr(o.find(':') + 1);
        if (try_op(s, r.cur, p, form, dt, tag)) { p.sd = p.x.size(); continue; }
        if (ctl_state_ops(s, r.cur, p, form, tag)) { p.sd = p.x.size(); continue; }
        if (form == "j") { do_reset(s, r.cur, tag); r.dim = p.x.size(); r.fresh_point(r.cur); continue; }
        if (form == "z" && (always || never)) {
            r.dim = p.x.size() == dim ? dim + 1 + R() % 3 : (R() % 2 ? dim : 1 + R() % 5);
            if (r.dim == p.sd) do_reset(s, r.cur, tag);
            r.fresh_point(r.cur);
            if (never) { s.adjust_size(p.x); ev("[\"size\"," + std::to_string(r.cur) + "," + std::to_string(r.dim) + "]"); }
            else ev("[\"redim\"," + std::to_string(r.cur) + "," + std::to_string(r.dim) + "]");
            continue;
        }
        r.common(form[0]);
    }
}

// ---------------------------------------------------------------- dense output
template<class D, class X> void dense_state(D &s, size_t id, bool stepped) {
    ev("[\"at\"," + std::to_string(id) + "," + js(s.current_time()) + "," + jv(s.current_state()) + "," + js(s.current_time_step()) + "," +
       (stepped ? js(s.previous_time()) + "," + jv(s.previous_state()) : std::string("0,[]")) + "]");
}
template<class D, class X> void dense_history(std::function<D()> make, size_t dim, bool always, bool never, const std::vector<std::string> &ops) {
    Runner<D, X> r; r.make = make; r.never = never; r.start(dim);
    std::vector<int> init(1, 0), stepped(1, 0);
    auto initialize = [&](size_t i, const X &x, F t, F dt) {
        ev("[\"init\"," + std::to_string(i) + "," + jv(x) + "," + js(t) + "," + js(dt) + "]");
        r.obj[i]->initialize(x, t, dt); init[i] = 1; stepped[i] = 0; dense_state<D, X>(*r.obj[i], i, false);
    };
    initialize(0, r.pt[0].x, r.pt[0].t, rnz());
    for (auto &o : ops) {
        std::string form = o.substr(0, o.find(':')); judge = Judge();
        if (o.find(':') != std::string::npos) judge.script = o.substr(o.find(':') + 1);
        size_t i = r.cur; D &s = *r.obj[i];
        if (form == "s" || form == "S") {
            ev("[\"dstep\"," + std::to_string(i) + "]");
            Sys sys; std::pair<F, F> iv = form == "S" ? s.do_step(boost::ref(sys)) : s.do_step(sys);
            ev("[\"dret\"," + js(iv.first) + "," + js(iv.second) + "]"); stepped[i] = 1;
            dense_state<D, X>(s, i, true);
        } else if (form == "C" || form == "L" || form == "H") {      // anywhere, at the left end, at the right end
            if (!stepped[i]) continue;
            F t = form == "C" ? rf() : form == "L" ? s.previous_time() : s.current_time();
            X x = blank(s.current_state()); if (coin()) s.calc_state(t, view(x)); else s.calc_state(t, x);
            ev("[\"calc\"," + std::to_string(i) + "," + js(t) + "," + jv(x) + "]");
            dense_state<D, X>(s, i, true);
        } else if (form == "I") { X x = fill<X>(s.current_state().size()); initialize(i, x, rf(), rnz()); }
        else if (form == "J") { initialize(i, X(s.current_state()), s.current_time(), rnz()); }          // re-initialise where it is
        else if (form == "K") { F t = s.current_time(), h = rnz(); ev("[\"init\"," + std::to_string(i) + "," + jv(s.current_state()) + "," + js(t) + "," + js(h) + "]");
                                s.initialize(s.current_state(), t, h); stepped[i] = 0; dense_state<D, X>(s, i, false); }  // from its own state
        else if (form == "z" && (always || never)) { size_t n = 1 + R() % 5; X x = fill<X>(n); if (never) { s.adjust_size(x); ev("[\"size\"," + std::to_string(i) + "," + std::to_string(n) + "]"); } initialize(i, x, rf(), rnz()); }
        else if (form == "N") { r.common('N'); init.push_back(0); stepped.push_back(0); X x = fill<X>(dim); if (never) r.obj[r.cur]->adjust_size(x); initialize(r.cur, x, rf(), rnz()); }
        else {
            size_t before = r.obj.size(); int si = stepped[i], ii = init[i];
            if (form == "k") for (size_t j = 0; j < r.obj.size(); ++j) if (r.alive[j] && j != r.cur) { stepped[j] = si; init[j] = ii; break; }
            r.common(form[0]);
            while (init.size() < r.obj.size()) { init.push_back(ii); stepped.push_back(si); }
            if (r.obj.size() > before) dense_state<D, X>(*r.obj.back(), r.obj.size() - 1, si);
            if (r.cur != i) dense_state<D, X>(*r.obj[r.cur], r.cur, stepped[r.cur]);
        }
    }
}
#endif
