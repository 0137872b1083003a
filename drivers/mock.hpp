// Scripted steppers: exact for x' = 1, accept/reject and step sizes chosen by
// the scenario; every call is recorded.  Times are whole ticks.
#ifndef VERIF_MOCK_HPP
#define VERIF_MOCK_HPP
#include "trace.hpp"
#include <fstream>
#include <sstream>
#include <iostream>
#include <array>
#include <functional>
#include <boost/ref.hpp>
#include <boost/range/iterator_range.hpp>
#include <boost/numeric/odeint.hpp>
using namespace boost::numeric::odeint;
typedef std::vector<double> state_t;

static double TICK = 1.0 / 65536.0;
struct num { double v; };
static std::string N(double v) { return vt::tick_str(v, TICK); }
static void ev(const std::string &s) {
    vt::tr().raw(s);
    if (vt::tr().budget-- == 0) { vt::tr().raw("[\"hang\"]"); vt::tr().budget = (size_t)-1; throw vt::hang_error(); }
}

struct Script {
    std::vector<std::pair<int,int>> runs; // (code, repetitions)
    size_t i = 0; int left = 0;
    int next(double dt) {
        while (i < runs.size()) {
            if (left == 0) left = runs[i].second;
            int c = runs[i].first;
            if (--left == 0) ++i;
            return c;
        }
        return std::fabs(dt) < 1024 * TICK ? 2 : 1;   // grow again after the script
    }
};
static Script script;

struct Sys { void operator()(const state_t &, state_t &d, double) const { d[0] = 1; } };

// plain stepper: exact for x' = 1
struct Plain {
    typedef state_t state_type; typedef state_t deriv_type; typedef double value_type; typedef double time_type;
    typedef unsigned short order_type; typedef stepper_tag stepper_category;
    int calls = 0; double t = 0;
    template<class S, class X> void do_step(S, X &x, double t, double dt) {
        ++calls;
        ev("[\"step\"," + N(x[0]) + "," + N(t) + "," + N(dt) + "]");
        x[0] += dt;
    }
    template<class S, class X> void do_step(S, const X &x, double t, double dt) {
        ++calls;
        ev("[\"step\"," + N(x[0]) + "," + N(t) + "," + N(dt) + "]");
        const_cast<X&>(x)[0] += dt;
    }
};
struct Controlled {
    typedef state_t state_type; typedef state_t deriv_type; typedef double value_type; typedef double time_type;
    typedef unsigned short order_type; typedef controlled_stepper_tag stepper_category; typedef Plain stepper_type;
    int calls = 0; double t = 0;
    template<class S, class X> controlled_step_result try_step(S, X &x, double &t, double &dt) { return go(x, t, dt); }
    template<class S, class X> controlled_step_result try_step(S, const X &x, double &t, double &dt) { return go(const_cast<X&>(x), t, dt); }
    template<class X> controlled_step_result go(X &x, double &t, double &dt) {
        ++calls;
        int c = script.next(dt); double h = dt, nw = dt; bool ok = true;
        switch (c) {
            case 1: break; case 2: nw = 2*dt; break; case 3: nw = dt/2; break;
            case 4: ok = false; nw = dt/2; break; case 5: ok = false; nw = dt/4; break;
            default: ok = false; break; // 6: reject, unchanged
        }
        ev("[\"try\"," + N(x[0]) + "," + N(t) + "," + N(h) + "," + (ok ? "true" : "false") + "," + N(nw) + "]");
        if (ok) { x[0] += dt; t += dt; }
        dt = nw;
        return ok ? success : fail;
    }
};
struct Dense {
    typedef state_t state_type; typedef state_t deriv_type; typedef double value_type; typedef double time_type;
    typedef dense_output_stepper_tag stepper_category; typedef Plain stepper_type;
    state_t cur, old; double t = 0, told = 0, dt = 0; int calls = 0;
    template<class X> void initialize(const X &x, double t0, double dt0) {
        double x0 = x[0];
        ev("[\"init\"," + N(x0) + "," + N(t0) + "," + N(dt0) + "]");
        cur.assign(1, x0); old.assign(1, -12345.0); t = told = t0; dt = dt0;
    }
    template<class S> std::pair<double,double> do_step(S) {
        ++calls;
        int c = script.next(dt); double h = dt, nw = dt;
        switch (c) { case 2: nw = 2*dt; break; case 3: nw = dt/2; break;
                     case 4: h = dt/2; nw = h; break; case 5: h = dt/4; nw = dt; break; default: break; }
        ev("[\"dstep\"," + N(t) + "," + N(t + h) + "," + N(nw) + "]");
        old = cur; told = t; cur[0] += h; t += h; dt = nw;
        return std::make_pair(told, t);
    }
    template<class X> void calc_state(double tt, X &x) const { calc(tt, x); }
    template<class X> void calc_state(double tt, const X &x) const { calc(tt, const_cast<X&>(x)); }
    template<class X> void calc(double tt, X &x) const {
        ev("[\"calc\"," + N(tt) + "]");
        x[0] = old[0] + (tt - told);
    }
    const state_t &current_state() const { return cur; }
    const state_t &previous_state() const { return old; }
    double current_time() const { return t; }
    double previous_time() const { return told; }
    double current_time_step() const { return dt; }
};
#endif
