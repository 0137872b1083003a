// Recording of executions of the real code as scenarios: one JSON line per
// scenario, {"cfg":{...},"ev":[[op,args...],...]}.
#ifndef VERIF_TRACE_HPP
#define VERIF_TRACE_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <cmath>
#include <stdexcept>
#include <csignal>
#include <unistd.h>
#include <type_traits>
#include <boost/version.hpp>

namespace vt {

struct hang_error {};          // thrown out of callbacks when the code under test loops

struct Trace {
    FILE *f = nullptr;
    std::string line; bool first = true; size_t budget = 0; bool open_ = false;
    void open(const char *path) { f = fopen(path, "w"); if (!f) { perror(path); exit(3); } }
    void begin(const std::string &cfg, size_t max_events = 20000) {
        line = "{\"cfg\":" + cfg + ",\"ev\":["; first = true; budget = max_events; open_ = true;
    }
    void raw(const std::string &s) {
        if (!first) line += ","; first = false; line += s;
    }
    static void put(std::string &s, const char *v) { s += "\""; s += v; s += "\""; }
    static void put(std::string &s, const std::string &v) { put(s, v.c_str()); }
    static void put(std::string &s, bool v) { s += v ? "true" : "false"; }
    template<class T> static typename std::enable_if<std::is_integral<T>::value>::type
    put(std::string &s, T v) {
        long long w = (long long)v;
        // outside TLC's integers: keep it visibly wrong, never wrapped
        if (w > 2147483647LL || w < -2147483647LL) { s += "1999999999"; return; }
        s += std::to_string(w);
    }
    template<class T> static void put(std::string &s, const std::vector<T> &v) {
        s += "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; put(s, v[i]); } s += "]";
    }
    static void args(std::string &) {}
    template<class A, class... B> static void args(std::string &s, const A &a, const B &... b) {
        s += ","; put(s, a); args(s, b...);
    }
    template<class... A> void ev(const char *op, const A &... a) {
        std::string s = "[\""; s += op; s += "\""; args(s, a...); s += "]"; raw(s);
        if (budget-- == 0) { raw("[\"hang\"]"); budget = (size_t)-1; throw hang_error(); }
    }
    void end() {
        if (!open_) return;
        line += "]}\n"; fputs(line.c_str(), f); open_ = false;
    }
    void close() { if (f) { fclose(f); f = nullptr; } }
};
inline Trace &tr() { static Trace t; return t; }

inline void on_signal(int sig) {
    const char *op = sig == SIGALRM ? "[\"hang\"]" : "[\"crash\"]";
    if (!tr().open_) { tr().close(); _exit(77); }      // outside any scenario: the run itself is the finding
    tr().raw(op); tr().end(); tr().close();
    _exit(0);
}
// a crash or a silent endless loop in the code under test ends up as an event
// no specification has an action for
inline void guard(unsigned seconds) {
    signal(SIGALRM, on_signal); signal(SIGSEGV, on_signal); signal(SIGFPE, on_signal);
    signal(SIGABRT, on_signal); signal(SIGBUS, on_signal); signal(SIGILL, on_signal);
    alarm(seconds);
}

// A time or state that is a whole number of ticks, as that number; anything
// else becomes a number no specification arrives at.
struct ticks { double v; };
inline std::string tick_str(double v, double tick) {
    double q = v / tick;
    if (q == std::floor(q) && std::fabs(q) < 2147483647.0) return std::to_string((long long)q);
    return "1999999999";
}
} // namespace vt
#endif
