// Step attempts of everything that retries rejected steps on its own:
// dense-output steppers, iterators and the integrate functions over them.
#include "mock.hpp"
#include <random>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>

// the script of outcomes: lengths of the runs of rejections between acceptances
static std::vector<int> runs; static size_t ri; static int rleft;
static bool next_ok() {
    if (ri >= runs.size()) { vt::tr().ev("try", true); return true; }
    if (rleft < runs[ri]) { ++rleft; vt::tr().ev("try", false); return false; }
    rleft = 0; ++ri; vt::tr().ev("try", true); return true;
}
// the step proposed afterwards: rejections reduce it a little, acceptances leave it, reduce or raise it
static std::mt19937 sizes; static bool vary;
static double refused(double dt) { return vary && rleft <= 3 ? dt / 2 : dt; }
static double accepted(double dt) { if (!vary) return dt; switch (sizes() % 4) { case 0: return 0.5; case 1: return 1; case 2: return 2; default: return dt; } }
struct ScriptChecker {
    typedef double value_type;
    template<class A, class B, class C, class D, class T> double error(A &, const B &, const C &, D &, T) const { return next_ok() ? 0.7 : 2.0; }
    template<class B, class C, class D, class T> double error(const B &, const C &, D &, T) const { return next_ok() ? 0.7 : 2.0; }
};
struct KeepAdjuster {
    double decrease_step(double dt, double, int) const { return refused(dt); }
    double increase_step(double dt, double, int) const { return accepted(dt); }
    bool check_step_size_limit(double) { return true; }
    double get_max_dt() { return 0; }
};
struct CtlMock {   // controlled stepper following the script
    typedef state_t state_type; typedef state_t deriv_type; typedef double value_type; typedef double time_type;
    typedef unsigned short order_type; typedef controlled_stepper_tag stepper_category; typedef Plain stepper_type;
    template<class S, class X> controlled_step_result try_step(S, X &x, double &t, double &dt) {
        if (!next_ok()) { dt = refused(dt); return fail; }
        x[0] += dt; t += dt; dt = accepted(dt); return success;
    }
};
typedef boost::numeric::ublas::vector<double> uvec;
struct RosCtl : rosenbrock4_controller<rosenbrock4<double>> {
    typedef rosenbrock4_controller<rosenbrock4<double>> base;
    template<class S> boost::numeric::odeint::controlled_step_result try_step(S, const uvec &x, double &t, uvec &xo, double &dt) {
        xo = x;
        if (!next_ok()) return fail;
        t += dt; return success;
    }
};
struct Ros1 { void operator()(const uvec &, uvec &d, double) const { d[0] = 0; } };
static void sys1(const state_t &, state_t &d, double) { d[0] = 1; }

typedef runge_kutta_dopri5<state_t> dopri;
typedef dense_output_runge_kutta<controlled_runge_kutta<dopri, ScriptChecker, KeepAdjuster>> dense_t;

static void run_kind(const std::string &k, int steps) {
    state_t x(1, 0.0);
    double T = vary ? 4 * steps : steps;
    std::vector<double> ts; for (int i = 0; i <= T; ++i) ts.push_back(i);
    auto o = [](const state_t &, double) {};
    if (k == "dense") { dense_t s; s.initialize(x, 0.0, 1.0); for (int i = 0; i < T; ++i) s.do_step(sys1); }
    else if (k == "dense_const") integrate_const(dense_t(), sys1, x, 0.0, T, 1.0, o);
    else if (k == "dense_adaptive") integrate_adaptive(dense_t(), sys1, x, 0.0, T, 1.0, o);
    else if (k == "dense_nsteps") integrate_n_steps(dense_t(), sys1, x, 0.0, 1.0, (int)T, o);
    else if (k == "dense_times") integrate_times(dense_t(), sys1, x, ts.begin(), ts.end(), 1.0, o);
    else if (k == "const") integrate_const(CtlMock(), sys1, x, 0.0, T, 1.0, o);
    else if (k == "adaptive") integrate_adaptive(CtlMock(), sys1, x, 0.0, T, 1.0, o);
    else if (k == "nsteps") integrate_n_steps(CtlMock(), sys1, x, 0.0, 1.0, (int)T, o);
    else if (k == "times") integrate_times(CtlMock(), sys1, x, ts.begin(), ts.end(), 1.0, o);
    else if (k == "it_adaptive") { for (auto p = make_adaptive_range(CtlMock(), sys1, x, 0.0, T, 1.0); p.first != p.second; ++p.first); }
    else if (k == "it_adaptive_time") { for (auto p = make_adaptive_time_range(CtlMock(), sys1, x, 0.0, T, 1.0); p.first != p.second; ++p.first); }
    else if (k == "it_times") { for (auto p = make_times_range(CtlMock(), sys1, x, ts.begin(), ts.end(), 1.0); p.first != p.second; ++p.first); }
    else if (k == "it_times_time") { for (auto p = make_times_time_range(CtlMock(), sys1, x, ts.begin(), ts.end(), 1.0); p.first != p.second; ++p.first); }
    else if (k == "it_dense") { for (auto p = make_adaptive_range(dense_t(), sys1, x, 0.0, T, 1.0); p.first != p.second; ++p.first); }
    else if (k == "ros") {
        rosenbrock4_dense_output<RosCtl> s; uvec u(1); u[0] = 0; s.initialize(u, 0.0, 1.0);
        // dense output data of a stepper that never stepped: not interpolated here
        s.do_step(std::make_pair(Ros1(), Ros1()));
    }
}
static long bs_calls; static std::mt19937_64 rng;
typedef std::vector<long double> lstate;
struct Noise { bool always; void operator()(const lstate &, lstate &d, long double) const {
    ++bs_calls; d[0] = always ? (long double)(long long)rng() * 1e4000L : 1.0L;
    if (bs_calls > 400000) throw vt::hang_error(); } };

int main(int argc, char **argv) {
    vt::tr().open(argv[1]); vt::guard(300);
    std::mt19937 g(atoi(argv[2])); int reps = atoi(argv[3]); rng.seed(g());
    const char *kinds[] = {"dense", "dense_const", "dense_adaptive", "dense_nsteps", "dense_times", "const", "adaptive", "nsteps",
        "times", "it_adaptive", "it_adaptive_time", "it_times", "it_times_time", "it_dense", "ros"};
    for (auto k : kinds) for (int r = 0; r < reps; ++r) {
        bool it = !strncmp(k, "it_", 3) && strcmp(k, "it_dense");
        int lo = it ? 950 : 450, hi = it ? 1050 : 550;
        int steps = !strcmp(k, "ros") ? 1 : 1 + g() % 4;
        runs.clear(); ri = 0; rleft = 0; vary = r % 4 >= 2; sizes.seed(g());
        bool endless = r % 2;
        for (int i = 0; i < steps; ++i) runs.push_back(g() % (lo - 10));
        if (endless) runs[g() % steps] = 5000;
        char cfg[200]; snprintf(cfg, sizeof cfg, "{\"kind\":\"%s\",\"steps\":%d,\"lo\":%d,\"hi\":%d,\"endless\":%s}", k, steps, lo, hi, endless ? "true" : "false");
        vt::tr().begin(cfg, 60000);
        try { run_kind(k, steps); vt::tr().ev("ret"); }
        catch (vt::hang_error &) {} catch (std::exception &) { vt::tr().ev("throw"); }
        vt::tr().end();
    }
    // Bulirsch-Stoer with dense output decides by itself: attempts are not visible,
    // an upper bound on the number of evaluations is
    for (int r = 0; r < 2; ++r) {
        vt::tr().begin(std::string("{\"kind\":\"bs\",\"steps\":1,\"lo\":0,\"hi\":60000,\"endless\":") + (r ? "true}" : "false}"), 100);
        bs_calls = 0;
        try {
            bulirsch_stoer_dense_out<lstate, long double> s; lstate x(1, 0.0L); s.initialize(x, 0.0L, 1.0L);
            s.do_step(Noise{r == 1});
            vt::tr().ev("try", true); vt::tr().ev("ret");
        } catch (vt::hang_error &) { vt::tr().ev("hang"); } catch (std::exception &) { vt::tr().ev("calls", bs_calls); vt::tr().ev("throw"); }
        vt::tr().end();
    }
    vt::tr().close();
}
