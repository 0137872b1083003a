// Order and step-size control of the Bulirsch-Stoer steppers: errors scripted
// per row, logarithms of the steps measured.  argv: seed, scenarios, trace
#include "trace.hpp"
#include <random>
#include <memory>
#include <boost/array.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
static std::vector<long> SCRIPT; static long CI; static size_t ASKED, EVALS;
// one attempt as seen from outside
struct Seen { size_t evals, asked; double first; };
static std::vector<size_t> MARK;           // evaluations made before each question
static std::vector<double> TIMES;
static std::vector<double> ANSWERS;
static double answer();
struct law_algebra : boost::numeric::odeint::array_algebra { template<class S> static double norm_inf(const S &) { return answer(); } };
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
using namespace boost::numeric::odeint;
typedef boost::array<double, 1> X;
typedef bulirsch_stoer<X, double, X, double, law_algebra, default_operations, initially_resizer> Ctl;
typedef bulirsch_stoer_dense_out<X, double, X, double, law_algebra, default_operations, initially_resizer> Den;
static std::mt19937 R;
static int rnd(int a, int b) { return a + (int)(R() % (unsigned)(b - a + 1)); }
static std::string si(long long v) { if (v > 2000000000LL || v < -2000000000LL) return "1999999999"; return std::to_string(v); }
static std::string sb(bool b) { return b ? "true" : "false"; }
static void ev(const std::string &s) { vt::tr().raw(s); }
static const long NONE = -99000000, FAR = 99000000;
static double val(long l) { return l == NONE ? 0.0 : std::exp(l / 1e6); }
static std::string ln(double q) { if (!(q > 0)) return "1999999999"; return si(llround(std::log(q) * 1e6)); }
static std::vector<long> errors() {
    std::vector<long> s(8); int how = rnd(0, 5);
    if (how == 0) for (auto &e : s) e = rnd(-9000000, 9000000);
    else if (how == 1) { long a = rnd(-4000000, 12000000), b = rnd(100000, 5000000); for (auto &e : s) { e = a + rnd(-300000, 300000); a -= b; } }
    else if (how == 2) for (auto &e : s) e = rnd(-1500000, 1500000);
    else if (how == 3) { int n = rnd(0, 8); for (int i = 0; i < 8; ++i) s[i] = i < n ? rnd(100, 3000000) : rnd(-6000000, -100); }
    else if (how == 4) { int n = rnd(1, 8); for (int i = 0; i < 8; ++i) s[i] = i < n ? rnd(100, 7500000) : NONE; }
    else { int n = rnd(2, 8); long d = rnd(50000, 400000), a = rnd(0, 200000); for (int i = 0; i < 8; ++i) s[i] = i < n ? a + d * (n - i) : a - d * (i - n + 1); }
    for (auto &e : s) if (std::labs(e) < 100) e = 100;
    if (rnd(0, 19) == 0) s[rnd(0, 7)] = NONE;
    return s;
}
static std::string js(const std::vector<long> &s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + si(s[i]); return r + "]"; }
struct LSys { void operator()(const X &x, X &d, double t) const { ++EVALS; TIMES.push_back(t); d[0] = 0.25 * x[0] + t; if (EVALS > 200000) { ev("[\"hang\"]"); throw vt::hang_error(); } } };

// ------------------------------------------------------- controlled stepper
static size_t ROW;
static bool DENSE; static size_t SINCE; static std::vector<std::vector<long>> PLAN; static size_t ATT; static bool CIK; static size_t LASTEV;
struct Att { std::vector<long> s; size_t n; long ci; double first; };
static std::vector<Att> ATTS; static size_t STARTS;
static double answer() {
    if (!DENSE) { ++ROW; return ROW <= 8 ? val(SCRIPT[ROW - 1]) : 0.0; }
    size_t n = EVALS - LASTEV; LASTEV = EVALS;
    bool fresh = ATTS.empty() || n == 8;
    if (fresh) {
        Att a; a.s = ATTS.size() > 5 ? std::vector<long>(8, -5000000) : errors(); a.n = 1; a.ci = NONE; a.first = TIMES[EVALS - 8]; ATTS.push_back(a); return val(a.s[0]);
    }
    Att &a = ATTS.back();
    if (n == 1) { a.ci = ATTS.size() > 5 ? NONE : rnd(0, 3) ? rnd(-3000000, 2000000) : rnd(2302000, 9000000); if (std::labs(a.ci - 2302585) < 100) a.ci = 2500000; return val(a.ci); }
    ++a.n; return a.n <= 8 ? val(a.s[a.n - 1]) : 0.0;
}
static double step0() { return (rnd(0, 1) ? 1 : 1) * rnd(64, 640) / 256.0; }
template<class S> std::string tryev(size_t id, const std::vector<long> &s, size_t n, bool ok, double dt, double ndt, double mx, long ci) {
    return "[\"try\"," + si(id) + "," + js(s) + "," + si(n) + "," + sb(ok) + "," + ln(ndt / dt) + "," + (mx == 0 ? si(FAR) : ln(mx / dt)) + "," + sb(mx != 0 && ndt == mx) + "," + sb(ndt == dt) + "," + si(ci) + "]";
}
static void ctl(double sg, double mx) {
    DENSE = false; std::vector<std::unique_ptr<Ctl>> ob; ob.emplace_back(new Ctl(1, 1, 1, 1, mx)); std::vector<double> last(1, 0); std::vector<double> ts(1, 0.5); std::vector<X> xs(1, X{{1.0}});
    LSys f; size_t cur = 0; double want = 0;
    for (int i = 0, n = rnd(6, 16); i < n; ++i) {
        int w = rnd(0, 19); Ctl &s = *ob[cur];
        if (w == 0) { s.reset(); ev("[\"anew\"," + si(cur) + "]"); continue; }
        if (w == 1 && ob.size() < 4) { ev("[\"copy\"," + si(cur) + "," + si(ob.size()) + "]"); ob.emplace_back(new Ctl(s)); last.push_back(double(last[cur])); ts.push_back(double(ts[cur])); xs.push_back(X(xs[cur])); if (rnd(0, 1)) cur = ob.size() - 1; continue; }
        if (w == 2) { cur = rnd(0, (int)ob.size() - 1); continue; }
        double dt = want != 0 ? want : last[cur]; want = 0;
        if (dt == 0 || rnd(0, 9) == 0 || std::fabs(dt) < 1e-8 || std::fabs(dt) > 1e8) dt = sg * step0();
        bool odd = dt != last[cur];
        double t = ts[cur], t0 = t, dt0 = dt; SCRIPT = errors(); ROW = EVALS = 0; TIMES.clear(); X x = xs[cur], o, d{{0.5}}; bool form = rnd(0, 1), gd = rnd(0, 1); controlled_step_result res;
        if (form) res = gd ? s.try_step(f, x, d, t, dt) : s.try_step(f, x, t, dt); else res = gd ? s.try_step(f, x, d, t, o, dt) : s.try_step(f, x, t, o, dt);
        bool ok = res == success;
        if (t != (ok ? t0 + dt0 : t0)) { ev("[\"wrongtime\"]"); return; }
        if (ROW == 0) { if (ok || dt != mx || mx == 0 || !(std::fabs(mx) < std::fabs(dt0))) { ev("[\"wronglimit\"]"); return; } ev("[\"refused\"," + si(cur) + "]"); want = dt; continue; }
        if (odd) ev("[\"anew\"," + si(cur) + "]");
        ev(tryev<Ctl>(cur, SCRIPT, ROW, ok, dt0, dt, mx, NONE));
        ts[cur] = std::fabs(t) > 1e6 ? 0.5 : t; last[cur] = dt; xs[cur] = X{{1.0}};
    }
}
static void den(double sg, double mx, bool ci) {
    DENSE = true; CIK = ci; std::vector<std::unique_ptr<Den>> ob; ob.emplace_back(new Den(1, 1, 1, 1, mx, ci)); std::vector<int> fst(1, 1);
    LSys f; size_t cur = 0; ob[0]->initialize(X{{1.0}}, 0.5, sg * step0());
    for (int i = 0, n = rnd(6, 16); i < n; ++i) {
        int w = rnd(0, 19);
        if (w == 1 && ob.size() < 4) { ev("[\"copy\"," + si(cur) + "," + si(ob.size()) + "]"); ob.emplace_back(new Den(*ob[cur])); fst.push_back(int(fst[cur])); if (rnd(0, 1)) cur = ob.size() - 1; continue; }
        if (w == 2) { cur = rnd(0, (int)ob.size() - 1); continue; }
        Den &s = *ob[cur];
        if (w == 0 || std::fabs(s.current_time_step()) < 1e-3 || std::fabs(s.current_time_step()) > 1e6 || std::fabs(s.current_time()) > 1e6) { double a = sg * step0(); s.initialize(X{{1.0}}, 0.5, a); fst[cur] = 1; ev("[\"anew\"," + si(cur) + "]"); }
        double t = s.current_time(), dt = s.current_time_step(); ATTS.clear(); EVALS = 0; LASTEV = 0; TIMES.clear();
        if (fst[cur]) LASTEV = 1;
        std::pair<double, double> iv = s.do_step(f); fst[cur] = 0;
        bool lastok = true;
        for (size_t k = 0; k < ATTS.size(); ++k) {
            bool end = k + 1 == ATTS.size(); double d0 = (ATTS[k].first - t) * 2;
            if (k == 0) { if (std::fabs(d0 - dt) > 1e-9 * std::fabs(dt)) { if (mx != 0 && std::fabs(d0 - mx) < 1e-9 * std::fabs(mx) && std::fabs(mx) < std::fabs(dt)) { ev("[\"refused\"," + si(cur) + "]"); d0 = mx; } else { ev("[\"wrongstep\"]"); return; } } else d0 = dt; }
            double nd = end ? s.current_time_step() : (ATTS[k + 1].first - t) * 2;
            bool same = std::fabs(nd - d0) < 1e-7 * std::fabs(d0), top = mx != 0 && std::fabs(nd - mx) < 1e-7 * std::fabs(mx);
            if (end && k == 0) same = nd == d0; if (end) top = mx != 0 && nd == mx;
            ev("[\"try\"," + si(cur) + "," + js(ATTS[k].s) + "," + si(ATTS[k].n) + "," + sb(end) + "," + ln(nd / d0) + "," + (mx == 0 ? si(FAR) : ln(mx / d0)) + "," + sb(top) + "," + sb(same) + "," + si(ATTS[k].ci) + "]");
            if (end && std::fabs(iv.second - iv.first - d0) > 1e-7 * std::fabs(d0) + 1e-9) { ev("[\"wrongtime\"]"); return; }
        }
        (void)lastok;
        if (iv.first != t || iv.second != s.current_time()) { ev("[\"wronginterval\"]"); return; }
    }
}
int main(int, char **argv) {   // argv[4]: bs, dense or both
    std::string which = argv[4];
    unsigned seed = atoi(argv[1]); int n = atoi(argv[2]); vt::tr().open(argv[3]); vt::guard(300); R.seed(seed * 7919u + 1);
    for (int i = 0; i < n; ++i) {
        int kind = which == "bs" ? 0 : which == "dense" ? 1 + i % 3 / 2 : i % 3; double sg = rnd(0, 1) ? 1 : -1; double mx = rnd(0, 2) ? 0 : sg * rnd(32, 1280) / 256.0;
        vt::tr().begin("{\"kind\":\"" + std::string(kind == 0 ? "bs" : "dense") + "\",\"ci\":" + sb(kind == 2) + ",\"back\":" + sb(sg < 0) + "}");
        try { if (kind == 0) ctl(sg, mx); else den(sg, mx, kind == 2); }
        catch (vt::hang_error &) {} catch (std::exception &) { ev("[\"threw\"]"); }
        vt::tr().end();
    }
    vt::tr().close();
}
