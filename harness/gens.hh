// Generators and an independent little linear algebra shared by the harnesses.
#ifndef GENS_HH
#define GENS_HH
#include "pbt.hh"
#include "ThreeVector.hh"
#include <algorithm>
#include <array>

struct V3
{
    long double x = 0, y = 0, z = 0;
    V3() {}
    V3(long double a, long double b, long double c) : x(a), y(b), z(c) {}
    V3(const ThreeVector& v) : x(v[0]), y(v[1]), z(v[2]) {}
    ThreeVector tv() const { return ThreeVector((double)x, (double)y, (double)z); }
    long double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(long double s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline V3 operator*(V3 a, long double s) { return s * a; }
inline V3 operator/(V3 a, long double s) { return {a.x / s, a.y / s, a.z / s}; }
inline long double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b)
{ return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline long double mag(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { return a / mag(a); }
// any unit vector perpendicular to n
inline V3 perp(V3 n) { V3 a = std::fabs(n.x) < 0.6L ? V3(1, 0, 0) : V3(0, 1, 0); return unit(cross(n, a)); }
// v turned by the angle a about the unit axis n
inline V3 turn(V3 v, V3 n, long double a)
{ return std::cos(a) * v + std::sin(a) * cross(n, v) + (1 - std::cos(a)) * dot(n, v) * n; }

inline std::string str(const V3& v) { return pbt::cat("(", (double)v.x, ",", (double)v.y, ",", (double)v.z, ")"); }
inline bool nearV(V3 a, V3 b, long double rel, long double abs = 0)
{
    long double d = mag(a - b);
    return d == d && d <= rel * std::max(mag(a), mag(b)) + abs;
}
inline void requireV(V3 got, V3 want, long double rel, long double abs, const std::string& what)
{ pbt::require(nearV(got, want, rel, abs), what, ": got ", str(got), ", expected ", str(want)); }

namespace gen {
using pbt::Gen;
// a real of any size: zero, small integers, or a wide range of magnitudes
inline double wide(Gen& g, double lo = 1e-9, double hi = 1e9)
{
    switch (g.draw(4))
    {
        case 0: return (double)g.integer(0, 3);
        case 1: return -(double)g.integer(0, 3);
        case 2: return g.sreal(1.0);
        default: { double v = g.logu(lo, hi); return g.coin() ? -v : v; }
    }
}
// a unit direction: axes first, then tilted ones, then anything
inline V3 direction(Gen& g)
{
    static const V3 axes[] = {{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}};
    unsigned k = g.draw(9);
    if (k < 6) return axes[k];
    if (k == 6)  // close to an axis
    {
        V3 a = axes[g.draw(5)];
        double t = g.logu(1e-8, 1e-1), p = g.real(0, 6.283185307179586);
        V3 u = perp(a), w = cross(a, u);
        return unit(std::cos((long double)t) * a + std::sin((long double)t) * (std::cos((long double)p) * u + std::sin((long double)p) * w));
    }
    if (k == 7)  // in a coordinate plane
    {
        double p = g.real(0, 6.283185307179586);
        unsigned w = g.draw(2);
        double c = std::cos(p), s = std::sin(p);
        return w == 0 ? V3(c, s, 0) : w == 1 ? V3(0, c, s) : V3(s, 0, c);
    }
    double ct = g.real(-1, 1), ph = g.real(0, 6.283185307179586);
    double st = std::sqrt(std::max(0.0, 1 - ct * ct));
    return unit(V3(st * std::cos(ph), st * std::sin(ph), ct));
}
inline V3 vec(Gen& g, double lo = 1e-9, double hi = 1e9)
{
    if (g.chance(30)) return V3(wide(g, lo, hi), wide(g, lo, hi), wide(g, lo, hi));
    return direction(g) * g.logu(lo, hi);
}
}

// Statistics for the checks on random samples -----------------------------
namespace stats {
// Kolmogorov-Smirnov distance of sorted samples to a continuous cdf.
template <class F> double ks(std::vector<double>& s, F cdf)
{
    std::sort(s.begin(), s.end());
    double d = 0, n = s.size();
    for (size_t i = 0; i < s.size(); i++)
    {
        double c = cdf(s[i]);
        d = std::max(d, std::max(std::fabs(c - i / n), std::fabs((i + 1) / n - c)));
    }
    return d;
}
// Distance that a correct sampler exceeds with probability below about 1e-12.
inline double ksLimit(double n) { return 3.8 / std::sqrt(n); }
}
#endif
