// C09: the plane wave is a vacuum electromagnetic wave.
// LIBS: PhysicsQED Particles Tools
#include "phys.hh"
using namespace pbt;

static const long double PI = 3.14159265358979323846264338327950288L;
struct Wave { double amp, lambda, pol; V3 dir; double dirLen; PlaneEMField* f; };
struct EB { V3 e, b; };
static EB at(const Wave& w, double t, V3 x) { ThreeVector e(9, 9, 9), b(9, 9, 9); w.f->GetField(t, x.tv(), e, b); return {V3(e), V3(b)}; }
static Wave draw(Gen& g)
{
    Wave w;
    w.amp = g.logu(1e-8, 1e3); w.lambda = g.logu(1e-3, 1e8); w.pol = g.chance(30) ? 1.5707963267948966 * g.draw(4) : g.real(-7, 7);
    w.dir = gen::direction(g); w.dirLen = g.chance(50) ? 1 : g.logu(1e-3, 1e3);
    w.f = new PlaneEMField(w.amp, w.lambda, w.pol, (w.dir * w.dirLen).tv());
    g.note("amplitude", w.amp); g.note("wavelength", w.lambda); g.note("polarisation", w.pol); g.note("direction", str(w.dir)); g.note("length", w.dirLen);
    return w;
}
// a point within some wavelengths
static V3 point(Gen& g, const Wave& w) { double s = w.lambda * 20; return {g.sreal(s), g.sreal(s), g.sreal(s)}; }
// of the amplitude: 20 wavelengths at double precision, and directions near -z are turned less precisely
static long double tol(const Wave& w) { return 2e-9L + 200 * turnSlack(w.dir); }

PROPERTY(transverse_equal_and_forward, 60000, 3000000, "a point where the field is not near zero and a direction that is not +z")
{
    Wave w = draw(g);
    V3 x = point(g, w); double t = g.sreal(20 * w.lambda);
    g.note("x", str(x)); g.note("t", t);
    EB f = at(w, t, x);
    long double s = 1e-11L + 4 * turnSlack(w.dir);
    long double e = mag(f.e), b = mag(f.b);
    if (e > 0.01 * w.amp && w.dir.z < 0.999) g.nontrivial();
    require(std::fabs(e - b) <= s * w.amp, "|E| = ", (double)e, " but |B| = ", (double)b);
    require(std::fabs(dot(f.e, f.b)) <= s * w.amp * w.amp, "E and B are not perpendicular: E.B = ", (double)dot(f.e, f.b));
    require(std::fabs(dot(f.e, w.dir)) <= s * w.amp, "E has a component along the direction: ", (double)dot(f.e, w.dir));
    require(std::fabs(dot(f.b, w.dir)) <= s * w.amp, "B has a component along the direction: ", (double)dot(f.b, w.dir));
    requireV(cross(f.e, f.b), w.dir * (e * b), 0, 10 * s * w.amp * w.amp, "energy flux");
    require(e <= w.amp * (1 + s), "field ", (double)e, " exceeds the amplitude");
    delete w.f;
}

PROPERTY(depends_on_phase_only, 60000, 3000000, "a non-zero shift across the direction and a non-zero shift along it")
{
    Wave w = draw(g);
    V3 x = point(g, w); double t = g.sreal(20 * w.lambda);
    V3 u = perp(w.dir), v = cross(w.dir, u);
    double a = g.sreal(10 * w.lambda), b = g.sreal(10 * w.lambda), c = g.sreal(10 * w.lambda);
    int n = (int)g.integer(-5, 5);
    g.note("x", str(x)); g.note("t", t); g.note("across", a); g.note("along", c); g.note("wavelengths", n);
    if (a != 0 && c != 0) g.nontrivial();
    EB f = at(w, t, x);
    EB s = at(w, t, x + u * a + v * b);
    requireV(s.e, f.e, 0, tol(w) * w.amp, "E after a shift across the direction");
    requireV(s.b, f.b, 0, tol(w) * w.amp, "B after a shift across the direction");
    s = at(w, t + c, x + w.dir * c);
    requireV(s.e, f.e, 0, tol(w) * w.amp, "E seen by an observer moving with the wave");
    requireV(s.b, f.b, 0, tol(w) * w.amp, "B seen by an observer moving with the wave");
    s = at(w, t, x + w.dir * (n * (long double)w.lambda));
    requireV(s.e, f.e, 0, tol(w) * w.amp, "E after whole wavelengths");
    s = at(w, t + n * w.lambda, x);
    requireV(s.e, f.e, 0, tol(w) * w.amp, "E after whole periods");
    s = at(w, t, x + w.dir * (w.lambda / 2.0L));
    requireV(s.e, -1.0L * f.e, 0, tol(w) * w.amp, "E after half a wavelength");
    // a pure harmonic of the requested amplitude: quarter-wave pairs add up to it
    s = at(w, t, x + w.dir * (w.lambda / 4.0L));
    require(std::fabs(dot(s.e, s.e) + dot(f.e, f.e) - (long double)w.amp * w.amp) <= 2 * tol(w) * w.amp * w.amp,
            "the wave does not have the requested amplitude: E^2 at quarter-wave distance adds up to ",
            (double)(dot(s.e, s.e) + dot(f.e, f.e)), " instead of ", w.amp * w.amp);
    delete w.f;
}

PROPERTY(polarisation_turns_the_fields, 60000, 3000000, "polarisation angles that differ")
{
    Wave w = draw(g);
    double p2 = g.real(-7, 7);
    V3 x = point(g, w); double t = g.sreal(20 * w.lambda);
    g.note("x", str(x)); g.note("t", t); g.note("other polarisation", p2);
    if (std::fabs(p2 - w.pol) > 1e-3) g.nontrivial();
    Wave w2 = w;
    w2.f = new PlaneEMField(w.amp, w.lambda, p2, (w.dir * w.dirLen).tv());
    EB a = at(w, t, x), b = at(w2, t, x);
    requireV(b.e, turn(a.e, w.dir, (long double)p2 - w.pol), 0, (1e-10L + 4 * turnSlack(w.dir)) * w.amp, "E at the other polarisation");
    requireV(b.b, turn(a.b, w.dir, (long double)p2 - w.pol), 0, (1e-10L + 4 * turnSlack(w.dir)) * w.amp, "B at the other polarisation");
    delete w.f; delete w2.f;
}

// Maxwell's equations by differences on a small cross
PROPERTY(maxwell, 20000, 500000, "a field that varies at the point")
{
    Wave w = draw(g);
    V3 x = point(g, w); double t = g.sreal(20 * w.lambda);
    g.note("x", str(x)); g.note("t", t);
    double h = w.lambda / 40;
    const double c[3] = {45.0 / 60, -9.0 / 60, 1.0 / 60};
    auto d = [&](int axis, bool e) {
        V3 s;
        for (int k = 1; k <= 3; k++)
        {
            V3 dx = axis == 0 ? V3(h * k, 0, 0) : axis == 1 ? V3(0, h * k, 0) : axis == 2 ? V3(0, 0, h * k) : V3();
            double dt = axis == 3 ? h * k : 0;
            EB p = at(w, t + dt, x + dx), m = at(w, t - dt, x - dx);
            s = s + (c[k - 1] / h) * ((e ? p.e : p.b) - (e ? m.e : m.b));
        }
        return s;
    };
    V3 dE[4], dB[4];
    for (int a = 0; a < 4; a++) { dE[a] = d(a, true); dB[a] = d(a, false); }
    long double k = 2 * PI / w.lambda, tol = (1e-5L + 200 * turnSlack(w.dir)) * k * w.amp;
    if (mag(dE[3]) > 0.1L * k * w.amp) g.nontrivial();
    require(std::fabs(dE[0].x + dE[1].y + dE[2].z) < tol, "div E = ", (double)(dE[0].x + dE[1].y + dE[2].z));
    require(std::fabs(dB[0].x + dB[1].y + dB[2].z) < tol, "div B = ", (double)(dB[0].x + dB[1].y + dB[2].z));
    V3 curlE(dE[1].z - dE[2].y, dE[2].x - dE[0].z, dE[0].y - dE[1].x), curlB(dB[1].z - dB[2].y, dB[2].x - dB[0].z, dB[0].y - dB[1].x);
    requireV(curlE, -1.0L * dB[3], 0, tol, "curl E against -dB/dt");
    requireV(curlB, dE[3], 0, tol, "curl B against dE/dt");
    delete w.f;
}

PBT_MAIN
