// A reference integrator for a particle in a field: long double, small steps.
#ifndef MOTION_HH
#define MOTION_HH
#include "phys.hh"

static const long double ALPHA = 1 / 137.035999L;
static const long double PIL = 3.14159265358979323846264338327950288L;

struct State { V3 x, p; long double t; };
struct FieldAt { V3 e, b; };
inline FieldAt fieldAt(EMField* f, long double t, V3 x)
{ ThreeVector e(9, 9, 9), b(9, 9, 9); f->GetField((double)t, x.tv(), e, b); return {V3(e), V3(b)}; }
inline long double gammaOf(V3 p, long double m) { return std::sqrt(1 + dot(p, p) / (m * m)); }

// invariant field strength in the rest frame: |F p| / m
inline long double etaOf(V3 p, long double m, V3 e, V3 b)
{
    long double gm = gammaOf(p, m);
    V3 u = p / m, f = gm * e + cross(u, b);
    long double s = dot(u, e);
    return std::sqrt(std::max(0.0L, dot(f, f) - s * s));
}

// loss(eta): momentum lost per unit time against the motion
inline State reference(EMField* f, State s, long double m, long double q, long double T, int steps, const std::function<long double(long double)>& loss = nullptr)
{
    long double h = T / steps;
    auto rate = [&](long double t, V3 x, V3 p, V3& v, V3& k) {
        FieldAt a = fieldAt(f, t, x);
        v = p / (m * gammaOf(p, m));
        k = q * (a.e + cross(v, a.b));
        if (loss && mag(p) > 0) k = k - unit(p) * loss(etaOf(p, m, a.e, a.b));
    };
    for (int i = 0; i < steps; i++)
    {
        V3 v1, v2, v3, v4, k1, k2, k3, k4;
        rate(s.t, s.x, s.p, v1, k1);
        rate(s.t + h / 2, s.x + v1 * (h / 2), s.p + k1 * (h / 2), v2, k2);
        rate(s.t + h / 2, s.x + v2 * (h / 2), s.p + k2 * (h / 2), v3, k3);
        rate(s.t + h, s.x + v3 * h, s.p + k3 * h, v4, k4);
        s.x = s.x + (h / 6) * (v1 + 2.0L * v2 + 2.0L * v3 + v4);
        s.p = s.p + (h / 6) * (k1 + 2.0L * k2 + 2.0L * k3 + k4);
        s.t += h;
    }
    return s;
}
#endif
