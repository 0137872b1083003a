// Replays scenarios into the real iterators with scripted steppers and
// records comparisons, dereferences, increments and every stepper call.
#include "mock.hpp"
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>

struct Cfg { std::string fn, cat; double t0, t1, x0, d; int n; std::vector<double> times; int var; };

static void show(const state_t &x) { ev("[\"state\"," + N(x[0]) + "]"); }
template<class P> static auto show(const P &p) -> decltype(p.second, void()) { ev("[\"pair\"," + N(p.first[0]) + "," + N(p.second) + "]"); }

template<class It> static void walk(It it, const It end, int var) {
    int n = 0;
    for (;;) {
        bool e = var & 16 ? end == it : it == end;
        if ((it != end) == e) ev("[\"inconsistent\"]");
        ev(std::string("[\"eq\",") + (e ? "true]" : "false]"));
        if (e) break;
        if (!(var & 32) || (n % 3)) show(*it);
        if (var & 64) { show(*it); if (it == end) ev("[\"eq\",true]"); show(*it); }
        ev("[\"inc\"]");
        if (var & 128) it++; else ++it;
        ev("[\"incd\"]");
        ++n;
    }
}
template<class It> static void walk(std::pair<It, It> p, int var) { walk(p.first, p.second, var); }

// a time iterator that must not be read outside its sequence
struct TimeIt {
    typedef std::random_access_iterator_tag iterator_category; typedef double value_type; typedef std::ptrdiff_t difference_type;
    typedef const double *pointer; typedef const double &reference;
    const std::vector<double> *v; std::ptrdiff_t i;
    reference operator*() const { static double bad = 1e300; if (i < 0 || i >= (std::ptrdiff_t)v->size()) { ev("[\"badread\"]"); return bad; } return (*v)[i]; }
    TimeIt &operator++() { ++i; return *this; } TimeIt operator++(int) { TimeIt c = *this; ++i; return c; }
    TimeIt &operator--() { --i; return *this; }
    TimeIt operator+(difference_type k) const { return TimeIt{v, i + k}; }
    TimeIt operator-(difference_type k) const { return TimeIt{v, i - k}; }
    difference_type operator-(const TimeIt &o) const { return i - o.i; }
    bool operator==(const TimeIt &o) const { return i == o.i; } bool operator!=(const TimeIt &o) const { return i != o.i; }
};

// families: begin/end or range, with or without time
#define PICK(NAME, ARGS) \
    switch (c.var & 3) { \
        case 0: walk(make_##NAME##_iterator_begin ARGS, make_##NAME##_iterator_end(st, sys, x), c.var); break; \
        case 1: walk(make_##NAME##_range ARGS, c.var); break; \
        case 2: walk(make_##NAME##_time_iterator_begin ARGS, make_##NAME##_time_iterator_end(st, sys, x), c.var); break; \
        default: walk(make_##NAME##_time_range ARGS, c.var); }
#define PICKT(NAME, ARGS) \
    switch (c.var & 3) { \
        case 0: walk(make_##NAME##_iterator_begin ARGS, make_##NAME##_iterator_end<TimeIt>(st, sys, x), c.var); break; \
        case 1: walk(make_##NAME##_range ARGS, c.var); break; \
        case 2: walk(make_##NAME##_time_iterator_begin ARGS, make_##NAME##_time_iterator_end<TimeIt>(st, sys, x), c.var); break; \
        default: walk(make_##NAME##_time_range ARGS, c.var); }

template<class St> static void times_(const Cfg &c, St st, state_t &x) {
    Sys sys; TimeIt b{&c.times, 0}, e{&c.times, (std::ptrdiff_t)c.times.size()};
    PICKT(times, (st, sys, x, b, e, c.d))
}
template<class St> static void const_(const Cfg &c, St st, state_t &x) { Sys sys; PICK(const_step, (st, sys, x, c.t0, c.t1, c.d)) }
template<class St> static void nstep_(const Cfg &c, St st, state_t &x) { Sys sys; PICK(n_step, (st, sys, x, c.t0, c.d, c.n)) }
template<class St> static void adapt_(const Cfg &c, St st, state_t &x) { Sys sys; PICK(adaptive, (st, sys, x, c.t0, c.t1, c.d)) }

template<class St> static void go(const Cfg &c, St st, state_t &x, Plain *) {
    if (c.fn == "const") const_(c, st, x); else if (c.fn == "nsteps") nstep_(c, st, x); else times_(c, st, x);
}
template<class St> static void go(const Cfg &c, St st, state_t &x, Controlled *) {
    if (c.fn == "adaptive") adapt_(c, st, x); else times_(c, st, x);
}
template<class St> static void go(const Cfg &c, St st, state_t &x, Dense *) {
    if (c.fn == "const") const_(c, st, x); else if (c.fn == "nsteps") nstep_(c, st, x);
    else if (c.fn == "adaptive") adapt_(c, st, x); else times_(c, st, x);
}
template<class S> static void run(const Cfg &c) {
    S s; state_t x(1, c.x0); const char *how = "val";
    switch ((c.var >> 2) & 3) {
        case 1: how = "ref"; go(c, boost::ref(s), x, (S*)0); break;
#ifdef STDREF
        case 2: how = "ref"; go(c, std::ref(s), x, (S*)0); break;
#endif
        default: go(c, s, x, (S*)0);
    }
    vt::tr().raw("[\"fin\"," + N(x[0]) + ",\"" + how + "\"," + std::to_string(s.calls) + "," + N(s.t) + "]");
}

int main(int argc, char **argv) {
    std::ifstream in(argv[1]); vt::tr().open(argv[2]); vt::guard(300);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); Cfg c; int k, o, chk;
        is >> c.fn >> c.cat >> o >> chk;
        long t0, t1, x0, d; is >> t0 >> t1 >> x0 >> d >> c.n >> c.var; { static const double ticks[] = {1.0 / 65536, 1.0 / 16, 16, std::ldexp(1.0, -36)}; TICK = ticks[(c.var >> 8) & 3]; }
        c.t0 = t0*TICK; c.t1 = t1*TICK; c.x0 = x0*TICK; c.d = d*TICK;
        is >> k; std::string tj = "[";
        for (int i = 0; i < k; ++i) { long v; is >> v; c.times.push_back(v*TICK); tj += (i ? "," : "") + std::to_string(v); }
        tj += "]";
        script = Script(); is >> k;
        for (int i = 0; i < k; ++i) { int code, rep; is >> code >> rep; script.runs.push_back({code, rep}); }
        std::ostringstream cj;
        cj << "{\"fn\":\"" << c.fn << "\",\"cat\":\"" << c.cat << "\",\"obs\":true,\"chk\":0"
           << ",\"t0\":" << t0 << ",\"t1\":" << t1 << ",\"x0\":" << x0 << ",\"d\":" << d << ",\"n\":" << c.n << ",\"var\":" << c.var << ",\"times\":" << tj << "}";
        vt::tr().begin(cj.str(), 6000);
        try {
            if (c.cat == "plain") run<Plain>(c); else if (c.cat == "controlled") run<Controlled>(c); else run<Dense>(c);
        } catch (vt::hang_error &) {
        } catch (std::exception &e) { vt::tr().raw("[\"throw\"]"); }
        vt::tr().end();
    }
    vt::tr().close();
    return 0;
}
