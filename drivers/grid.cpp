// Long integrations with non-dyadic step sizes: deviation of the observed
// times from start + k*dt in units in the last place.
#include "trace.hpp"
#include <random>
#include <boost/numeric/odeint.hpp>
using namespace boost::numeric::odeint;
typedef std::vector<double> S;
static void sys(const S &, S &d, double) { d[0] = 1; }
static long ulps(double t, double t0, long k, double dt) {
    long double e = (long double)t0 + (long double)k * (long double)dt;
    double m = std::max(std::fabs(t0), (double)fabsl(e));
    m = std::max(m, std::fabs((double)k * dt));
    double u = std::nextafter(m, INFINITY) - m;
    long double q = fabsl((long double)t - e) / u;
    return q > 1e6L ? 1000000 : (long)ceill(q);
}
struct Obs {
    double t0, dt; long n; long *count; long every;
    template<class X> void operator()(const X &, double t) const {
        long k = (*count)++;
        if (k % every == 0 || k == n || k > n) vt::tr().ev("obs", k, ulps(t, t0, k, dt));
        if (k > n + 3) throw vt::hang_error();
    }
};
template<class St> void one(const std::string &fn, const char *cat, St st, double t0, double dt, long n) {
    char cfg[256]; snprintf(cfg, sizeof cfg, "{\"fn\":\"%s\",\"cat\":\"%s\",\"n\":%ld,\"t0\":\"%.17g\",\"dt\":\"%.17g\"}", fn.c_str(), cat, n, t0, dt);
    vt::tr().begin(cfg, 5000);
    S x(1, 0.0); long count = 0; Obs o{t0, dt, n, &count, n / 17 + 1};
    try {
        if (fn == "const") { integrate_const(st, sys, x, t0, t0 + (n + 0.5) * dt, dt, o); vt::tr().ev("ret", count, 0L); }
        else { double r = integrate_n_steps(st, sys, x, t0, dt, (size_t)n, o); vt::tr().ev("ret", count, ulps(r, t0, n, dt)); }
    } catch (vt::hang_error &) { } catch (std::exception &) { vt::tr().ev("throw"); }
    vt::tr().end();
}
int main(int argc, char **argv) {
    vt::tr().open(argv[1]); vt::guard(500);
    std::string fn = argv[2]; long N = atol(argv[3]); std::mt19937 g(atoi(argv[4]));
    double dts[] = {0.1, -0.1, 0.01, 1.0 / 3, -0.7, 0.3};
    for (double dt : dts) for (int r = 0; r < 2; ++r) {
        double t0 = r ? std::uniform_real_distribution<>(-5, 5)(g) : 0.0;
        long n = r ? 1 + g() % 3000 : N;
        one(fn, "plain", runge_kutta4<S>(), t0, dt, n);
        one(fn, "controlled", make_controlled(1e-6, 1e-6, runge_kutta_dopri5<S>()), t0, dt, n / 2 + 1);
        one(fn, "dense", make_dense_output(1e-6, 1e-6, runge_kutta_dopri5<S>()), t0, dt, n / 2 + 1);
    }
    vt::tr().close();
}
