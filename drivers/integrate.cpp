// Replays scenarios against the real integrate functions with scripted
// steppers and records every observer and stepper call.
#include "mock.hpp"
struct Obs {
    template<class X> void operator()(const X &x, double t) const { ev("[\"obs\"," + N(x[0]) + "," + N(t) + "]"); }
};

struct Cfg {
    std::string fn, cat; bool obs; int chk; double t0, t1, x0, d; int n; std::vector<double> times; int var;
};

template<class St, class Ob, class X>
double call(const Cfg &c, St st, Ob ob, X &x, bool range_times) {
    Sys sys; double r = -1;
    const double *tb = c.times.data(), *te = tb + c.times.size();
    bool ck = c.chk > 0; max_step_checker chk(ck ? c.chk : 1);
    if (c.fn == "const") {
        if (!c.obs) r = (c.var & 64) ? integrate_const(st, sys, x, c.t0, c.t1, c.d, null_observer()) : integrate_const(st, sys, x, c.t0, c.t1, c.d);
        else if (ck) r = integrate_const(st, sys, x, c.t0, c.t1, c.d, ob, chk);
        else r = integrate_const(st, sys, x, c.t0, c.t1, c.d, ob);
    } else if (c.fn == "nsteps") {
        if (!c.obs) r = (c.var & 64) ? integrate_n_steps(st, sys, x, c.t0, c.d, c.n, null_observer()) : integrate_n_steps(st, sys, x, c.t0, c.d, c.n);
        else if (ck) r = integrate_n_steps(st, sys, x, c.t0, c.d, c.n, ob, chk);
        else r = integrate_n_steps(st, sys, x, c.t0, c.d, c.n, ob);
    } else if (c.fn == "adaptive") {
        if (!c.obs) r = (c.var & 64) ? integrate_adaptive(st, sys, x, c.t0, c.t1, c.d, null_observer()) : integrate_adaptive(st, sys, x, c.t0, c.t1, c.d);
        else r = integrate_adaptive(st, sys, x, c.t0, c.t1, c.d, ob);
    } else {
        if (range_times) { if (ck) r = integrate_times(st, sys, x, c.times, c.d, ob, chk); else r = integrate_times(st, sys, x, c.times, c.d, ob); }
        else { if (ck) r = integrate_times(st, sys, x, tb, te, c.d, ob, chk); else r = integrate_times(st, sys, x, tb, te, c.d, ob); }
    }
    return r;
}
template<class St, class X> double with_obs(const Cfg &c, St st, X &x) {
    Obs o;
    switch (c.var & 3) {
        case 1: return call(c, st, boost::ref(o), x, c.var & 16);
        case 2: return call(c, st, std::ref(o), x, c.var & 16);
        default: return call(c, st, o, x, c.var & 16);
    }
}
template<class Stepper> double run_cfg(const Cfg &c, state_t &x) {
    Stepper s;
    // a checker keeps a reference to the stepper: by value only then
    int how = (c.var >> 2) & 3; if (c.chk > 0) how = 0;
    if (c.var & 32) { // state passed as a temporary range
        auto r = boost::make_iterator_range(x.begin(), x.end());
        const auto &cr = r;
        if (how == 1) return with_obs(c, boost::ref(s), cr);
        return with_obs(c, s, cr);
    }
    switch (how) {
        case 1: return with_obs(c, boost::ref(s), x);
        case 2: return with_obs(c, std::ref(s), x);
        default: return with_obs(c, s, x);
    }
}

int main(int argc, char **argv) {
    // argv: scenarios trace
    std::ifstream in(argv[1]); vt::tr().open(argv[2]); vt::guard(300);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); Cfg c; double a; int k, o;
        is >> c.fn >> c.cat >> o >> c.chk; c.obs = o;
        std::string cfgjson;
        long t0, t1, x0, d; is >> t0 >> t1 >> x0 >> d >> c.n >> c.var; { static const double ticks[] = {1.0 / 65536, 1.0 / 16, 16, std::ldexp(1.0, -36)}; TICK = ticks[(c.var >> 8) & 3]; }
        c.t0 = t0*TICK; c.t1 = t1*TICK; c.x0 = x0*TICK; c.d = d*TICK;
        is >> k; std::string tj = "[";
        for (int i = 0; i < k; ++i) { long v; is >> v; c.times.push_back(v*TICK); tj += (i ? "," : "") + std::to_string(v); }
        tj += "]";
        script = Script(); is >> k;
        for (int i = 0; i < k; ++i) { int code, rep; is >> code >> rep; script.runs.push_back({code, rep}); }
        std::ostringstream cj;
        cj << "{\"fn\":\"" << c.fn << "\",\"cat\":\"" << c.cat << "\",\"obs\":" << (c.obs ? "true" : "false") << ",\"chk\":" << c.chk
           << ",\"t0\":" << t0 << ",\"t1\":" << t1 << ",\"x0\":" << x0 << ",\"d\":" << d << ",\"n\":" << c.n << ",\"var\":" << c.var << ",\"times\":" << tj << "}";
        vt::tr().begin(cj.str(), 6000);
        state_t x(1, c.x0); double r;
        try {
            if (c.cat == "plain") r = run_cfg<Plain>(c, x);
            else if (c.cat == "controlled") r = run_cfg<Controlled>(c, x);
            else r = run_cfg<Dense>(c, x);
            std::string rv = c.fn == "nsteps" ? N(r) : std::to_string((long)r);
            vt::tr().raw("[\"ret\"," + rv + "," + N(x[0]) + "]");
        } catch (vt::hang_error &) {
        } catch (step_adjustment_error &) { vt::tr().raw("[\"throw\",\"fail\"]");
        } catch (no_progress_error &) { vt::tr().raw("[\"throw\",\"max\"]");
        } catch (std::exception &e) { vt::tr().raw("[\"throw\",\"other\"]"); }
        vt::tr().end();
    }
    vt::tr().close();
    return 0;
}
