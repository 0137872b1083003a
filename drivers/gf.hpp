// The prime field GF(46337) as a value type.  odeint's steppers are templates
// over the value type: run over a field their arithmetic is exact, so what a
// step computes can be compared with the published formula for equality.
#ifndef VERIF_GF_HPP
#define VERIF_GF_HPP
#include "trace.hpp"
#include <cstdint>
#include <random>
#include <limits>
#include <cmath>
#include <map>
namespace gf {
const long P = 46337;
#ifndef GF_INITIAL
#define GF_INITIAL 7777                      // storage nobody wrote: poison
#endif
inline long md(long long v) { long r = (long)(v % P); return r < 0 ? r + P : r; }
inline long pw(long a, long e) { long long r = 1, b = a; for (; e; e >>= 1, b = b * b % P) if (e & 1) r = r * b % P; return (long)r; }
inline long inv(long a) { return pw(a, P - 2); }
// a double constant of the source stands for a rational: the simplest one
// within half a unit in the last place of it
// published decimals that are no simple rationals, with their value in the field;
// the specification provides them (spec/Decimals.tla)
inline std::map<double, long> &decimals() { static std::map<double, long> m; return m; }
inline void load_decimals(const char *path) {
    FILE *f = fopen(path, "r"); char s[64]; long v;
    if (!f) { perror(path); exit(3); }
    while (fscanf(f, "%60s %ld", s, &v) == 2) { decimals()[strtod(s, 0)] = v; decimals()[-strtod(s, 0)] = md(-v); }
    fclose(f);
}
inline long from_double(double v) {
    auto it = decimals().find(v); if (it != decimals().end()) return it->second;
    if (v == std::floor(v) && std::fabs(v) < 1e15) return md((long long)v);
    bool neg = v < 0; long double x = std::fabs(v), y = x;
    long long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    for (int i = 0; i < 40; ++i) {
        long long a = (long long)floorl(y);
        long long p2 = a * p1 + p0, q2 = a * q1 + q0;
        if (q2 > 2000000000LL) break;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        if ((double)((long double)p1 / q1) == (double)x) break;
        y = 1 / (y - a);
    }
    long r = (long)((long long)md(p1) * inv(md(q1)) % P);
    return neg ? md(-r) : r;
}
struct F {
    long v;
    F() : v(GF_INITIAL) {}
    F(int i) : v(md(i)) {}
    F(long i) : v(md(i)) {}
    F(long long i) : v(md(i)) {}
    F(unsigned i) : v(md(i)) {}
    F(unsigned long i) : v(md((long long)(i % P))) {}
    F(unsigned short i) : v(md(i)) {}
    F(double d) : v(from_double(d)) {}
    F &operator+=(const F &o) { v = md(v + o.v); return *this; }
    F &operator-=(const F &o) { v = md(v - o.v); return *this; }
    F &operator*=(const F &o) { v = md((long long)v * o.v); return *this; }
    F &operator/=(const F &o) { v = md((long long)v * inv(o.v)); return *this; }
    F operator-() const { return F(-v); }
};
inline F operator+(F a, const F &b) { return a += b; }
inline F operator-(F a, const F &b) { return a -= b; }
inline F operator*(F a, const F &b) { return a *= b; }
inline F operator/(F a, const F &b) { return a /= b; }
inline bool operator==(const F &a, const F &b) { return a.v == b.v; }
inline bool operator!=(const F &a, const F &b) { return a.v != b.v; }
// comparisons only order the representatives
inline bool operator<(const F &a, const F &b) { return a.v < b.v; }
inline bool operator>(const F &a, const F &b) { return a.v > b.v; }
inline bool operator<=(const F &a, const F &b) { return a.v <= b.v; }
inline bool operator>=(const F &a, const F &b) { return a.v >= b.v; }
inline F abs(const F &a) { return a; }
inline F pow(const F &a, int e) { return e >= 0 ? F(pw(a.v, e)) : F(inv(pw(a.v, -e))); }
// the smaller of the two roots
inline F sqrt(const F &a) { for (long r = 0; r < P; ++r) if (r * r % P == a.v) return F(r); return F(4711); }

inline std::string js(const F &a) { return std::to_string(a.v); }
template<class V> std::string jv(const V &x) {
    std::string s = "["; bool f = true;
    for (auto it = x.begin(); it != x.end(); ++it) { if (!f) s += ","; f = false; s += js(*it); }
    return s + "]";
}
// a function of state and time without any structure
inline F hash(long seed, size_t i, const long *x, size_t n, long t) {
    uint64_t h = 1469598103934665603ULL ^ (uint64_t)(seed * 1000003 + i * 7919 + 17);
    auto mix = [&](uint64_t w) { h ^= w; h *= 1099511628211ULL; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32; };
    for (size_t j = 0; j < n; ++j) mix((uint64_t)x[j] + 1);
    mix((uint64_t)t + 99991); mix(n);
    return F((long)(h % P));
}
template<class V, class D> void rhs(long seed, const V &x, D &d, const F &t) {
    std::vector<long> a; for (auto it = x.begin(); it != x.end(); ++it) a.push_back((*it).v);
    size_t i = 0; for (auto it = d.begin(); it != d.end(); ++it, ++i) *it = hash(seed, i, a.data(), a.size(), t.v);
}
} // namespace gf
namespace std { template<> class numeric_limits<gf::F> : public numeric_limits<double> { public:
    static gf::F epsilon() { return gf::F(0); } static gf::F max() { return gf::F(46336); } static gf::F min() { return gf::F(0); } }; }
#endif
