// C10: the Gaussian pulse is a focused light pulse with the requested shape.
// LIBS: PhysicsQED Particles Tools
#include "phys.hh"
using namespace pbt;

static const long double PI = 3.14159265358979323846264338327950288L;
struct EB { V3 e, b; };
struct Pulse
{
    double amp, lambda, tau, waist, pol, dist; V3 dir, focus; EMField* f;
    V3 ex, ey;      // polarisation axis found at the focus, and the third axis
    ~Pulse() { delete f; }
    EB at(long double t, V3 x) const { ThreeVector e(9, 9, 9), b(9, 9, 9); f->GetField((double)t, x.tv(), e, b); return {V3(e), V3(b)}; }
    long double rayleigh() const { return PI * waist * waist / lambda; }
    long double w(long double z) const { return waist * std::sqrt(1 + z * z / (rayleigh() * rayleigh())); }
    // the requested envelope
    long double env(long double t, long double z, long double r) const
    {
        long double s = (t - dist - z) / tau, q = r / w(z);
        return amp * waist / w(z) * std::exp(-q * q - s * s);
    }
    V3 point(long double z, long double u, long double v) const { return focus + dir * z + ex * u + ey * v; }
    // field along the polarisation, in units of the requested envelope
    long double wave(long double t, long double z, long double u, long double v) const
    { return dot(at(t, point(z, u, v)).e, ex) / env(t, z, std::sqrt(u * u + v * v)); }
    // what directions near -z and large distances cost in precision
    long double tol() const
    {
        long double far = (dist + mag(focus)) / std::min((long double)lambda, (long double)tau);
        return 1e-8L + 1e-13L * far + 1000 * turnSlack(dir);
    }
};
static void draw(Gen& g, Pulse& p)
{
    p.amp = g.logu(1e-8, 1e3); p.lambda = g.logu(1e-2, 1e6); p.tau = p.lambda * g.real(0.5, 40); p.waist = p.lambda * g.real(1, 30);
    p.pol = g.chance(30) ? 1.5707963267948966 * g.draw(4) : g.real(-7, 7);
    p.dist = p.lambda * (g.chance(20) ? g.real(0.1, 1) : g.real(1, 80));
    p.dir = gen::direction(g);
    double s = p.lambda * 50;
    p.focus = g.chance(40) ? V3() : V3(g.sreal(s), g.sreal(s), g.sreal(s));
    p.focus = V3(p.focus.tv());
    V3 start = p.focus - p.dir * p.dist;
    g.note("amplitude", p.amp); g.note("wavelength", p.lambda); g.note("duration", p.tau); g.note("waist", p.waist);
    g.note("polarisation", p.pol); g.note("start", str(start)); g.note("focus", str(p.focus));
    p.f = new GaussianEMField(p.amp, p.lambda, p.tau, p.waist, p.pol, start.tv(), p.focus.tv());
    V3 best;
    for (int k = 0; k < 4; k++)
    {
        V3 e = p.at(p.dist + k * p.lambda / 16, p.focus).e;
        if (mag(e) > mag(best)) best = e;
    }
    require(mag(best) > 0.1L * p.amp, "no field at the focus when the pulse arrives: |E| = ", (double)mag(best));
    require(std::fabs(dot(best, p.dir)) <= 1e-3L * p.amp, "the field at the focus is not across the direction");
    p.ex = unit(best - p.dir * dot(best, p.dir)); p.ey = cross(p.dir, p.ex);
    if (turnSlack(p.dir) > 1e-10L) g.label("nearly along -z");
}
struct Where { double t, z, u, v; };
static Where where(Gen& g, const Pulse& p)
{
    Where w;
    w.z = (double)(g.sreal(1) * std::min(4 * p.rayleigh(), 60.0L * p.lambda));
    w.t = p.dist + w.z + g.sreal(1.8) * p.tau;
    w.u = g.sreal(1.4) * p.waist; w.v = g.sreal(1.4) * p.waist;
    g.note("t", w.t); g.note("offset", str(V3(w.u, w.v, w.z)));
    return w;
}

PROPERTY(transverse_equal_and_forward, 50000, 3000000, "a point off the axis with a noticeable field")
{
    Pulse p; draw(g, p); Where w = where(g, p);
    EB f = p.at(w.t, p.point(w.z, w.u, w.v));
    long double e = mag(f.e), b = mag(f.b), s = 1e-11L + 4 * turnSlack(p.dir);
    if (e > 1e-3L * p.amp && (w.u != 0 || w.v != 0)) g.nontrivial();
    require(std::fabs(e - b) <= s * p.amp, "|E| = ", (double)e, " but |B| = ", (double)b);
    require(std::fabs(dot(f.e, f.b)) <= s * p.amp * p.amp, "E and B are not perpendicular: E.B = ", (double)dot(f.e, f.b));
    require(std::fabs(dot(f.e, p.dir)) <= s * p.amp, "E has a component along the axis: ", (double)dot(f.e, p.dir));
    require(std::fabs(dot(f.b, p.dir)) <= s * p.amp, "B has a component along the axis: ", (double)dot(f.b, p.dir));
    requireV(cross(f.e, f.b), p.dir * (e * b), 0, 10 * s * p.amp * p.amp, "energy flux");
    requireV(f.e, p.ex * dot(f.e, p.ex), 0, 2 * (p.tol()) * p.amp, "E against the polarisation axis");
}

PROPERTY(envelope, 80000, 4000000, "a point off the focal plane and off the axis")
{
    Pulse p; draw(g, p); Where w = where(g, p);
    if (w.z != 0 && (w.u != 0 || w.v != 0)) g.nontrivial();
    long double q = p.lambda / 4.0L;
    long double a = p.wave(w.t, w.z, w.u, w.v), b = p.wave(w.t + q, w.z, w.u, w.v);
    // conditioning: a small error in the argument of the envelope, tau or w, against its steepness
    long double tol = p.tol() * 20;
    require(std::fabs(a * a + b * b - 1) <= tol, "the amplitude is ", (double)std::sqrt(a * a + b * b),
            " times the requested envelope (quadrature over a quarter period)");
    long double e = mag(p.at(w.t, p.point(w.z, w.u, w.v)).e);
    require(e <= p.amp * (1 + 1e-12L), "the field ", (double)e, " exceeds the requested amplitude");
}

// The requested shape holds as far out as a double can tell, not only where the pulse is strong
PROPERTY(tails, 40000, 2000000, "a point more than twice the duration or the width from the centre")
{
    Pulse p; draw(g, p);
    double z = (double)(g.sreal(1) * std::min(4 * p.rayleigh(), 60.0L * p.lambda)), s = g.sreal(6), q = g.chance(40) ? 0 : g.sreal(5), ang = g.real(0, 6.3);
    double t = p.dist + z + s * p.tau; long double r = q * p.w(z), u = r * std::cos(ang), v = r * std::sin(ang);
    g.note("z", z); g.note("durations from the centre", s); g.note("widths from the axis", q); g.note("angle", ang);
    if (std::fabs(s) > 2 || std::fabs(q) > 2) g.nontrivial();
    long double a = p.wave(t, z, u, v), b = p.wave(t + p.lambda / 4.0L, z, u, v);
    long double far = (p.dist + mag(p.focus) + std::fabs(s) * p.tau) / std::min((long double)p.lambda, (long double)p.tau);
    long double tol = (20 * p.tol() + 1e-13L * far) * (1 + s * s + q * q) * 4;
    if (tol > 0.05L) throw Discard();
    require(std::fabs(a * a + b * b - 1) <= tol, "the amplitude is ", (double)std::sqrt(a * a + b * b), " times the requested envelope (quadrature over a quarter period)");
}

PROPERTY(carrier, 60000, 3000000, "a time of flight that is not zero")
{
    Pulse p; draw(g, p); Where w = where(g, p);
    double c = g.sreal(1) * p.lambda * 20; int n = (int)g.integer(1, 4);
    g.note("flight", c); g.note("periods", n);
    if (std::fabs(c) > 1e-3 * p.lambda) g.nontrivial();
    long double tol = 20 * p.tol();
    // conditions away from the centre
    auto ok = [&](long double t, long double z, long double r) { return p.env(t, z, r) > 1e-4L * p.amp; };
    if (ok(w.t, w.z, 0) && ok(w.t + c, w.z + c, 0))
    {
        long double a = p.wave(w.t, w.z, 0, 0), b = p.wave(w.t + c, w.z + c, 0, 0);
        require(std::fabs(a - b) <= tol, "on the axis the carrier does not move with the envelope: ", (double)a, " became ", (double)b, " after a flight of ", c);
    }
    if (ok(w.t, w.z, 0) && ok(w.t + n * (long double)p.lambda, w.z, 0))
    {
        long double a = p.wave(w.t, w.z, 0, 0), b = p.wave(w.t + n * (long double)p.lambda, w.z, 0, 0);
        require(std::fabs(a - b) <= tol, "the carrier does not repeat after ", n, " periods: ", (double)a, " became ", (double)b);
    }
    if (ok(w.t, w.z, 0) && ok(w.t + 0.5L * p.lambda, w.z, 0))
    {
        long double a = p.wave(w.t, w.z, 0, 0), b = p.wave(w.t + 0.5L * p.lambda, w.z, 0, 0);
        require(std::fabs(a + b) <= tol, "the carrier does not change sign after half a period: ", (double)a, " became ", (double)b);
    }
}

PROPERTY(wavefronts, 60000, 3000000, "a point off the focal plane and off the axis")
{
    Pulse p; draw(g, p); Where w = where(g, p);
    long double r2 = (long double)w.u * w.u + (long double)w.v * w.v, zr = p.rayleigh();
    long double delay = r2 * w.z / (2 * (w.z * (long double)w.z + zr * zr));
    if (std::fabs(delay) > 1e-3L * p.lambda) g.nontrivial();
    g.note("delay", (double)delay);
    if (p.env(w.t, w.z, 0) < 1e-4L * p.amp || p.env(w.t + delay, w.z, std::sqrt(r2)) < 1e-4L * p.amp) throw Discard();
    long double on = p.wave(w.t, w.z, 0, 0), off = p.wave(w.t + delay, w.z, w.u, w.v);
    require(std::fabs(on - off) <= 20 * p.tol(), "the wavefront through the axis does not pass the point with the curvature of a beam with this waist: ",
            (double)on, " on the axis, ", (double)off, " off it after the delay");
}

PROPERTY(polarisation, 40000, 2000000, "angles that differ and a noticeable field")
{
    Pulse p; draw(g, p); Where w = where(g, p);
    double p2 = g.real(-7, 7);
    g.note("other polarisation", p2);
    V3 start = p.focus - p.dir * p.dist, x = p.point(w.z, w.u, w.v);
    GaussianEMField f2(p.amp, p.lambda, p.tau, p.waist, p2, start.tv(), p.focus.tv());
    ThreeVector e, b; f2.GetField(w.t, x.tv(), e, b);
    EB a = p.at(w.t, x);
    if (mag(a.e) > 1e-3 * p.amp && std::fabs(p2 - p.pol) > 1e-3) g.nontrivial();
    requireV(V3(e), turn(a.e, p.dir, (long double)p2 - p.pol), 0, (1e-10L + 4 * turnSlack(p.dir)) * p.amp, "E at the other polarisation");
    requireV(V3(b), turn(a.b, p.dir, (long double)p2 - p.pol), 0, (1e-10L + 4 * turnSlack(p.dir)) * p.amp, "B at the other polarisation");
}

// Found by search, without knowing the formula: where and when the pulse is strongest
PROPERTY(peaks_at_the_focus, 4000, 200000, "a pulse that is short against its way")
{
    Pulse p; draw(g, p);
    if (p.tau < p.dist) g.nontrivial();
    long double q = p.lambda / 4.0L;
    // energy density without the carrier: the larger of two readings a quarter period apart, squared and added
    auto power = [&](long double t, V3 x) {
        long double a = mag(p.at(t - q / 2, x).e), b = mag(p.at(t + q / 2, x).e);
        return std::sqrt(a * a + b * b) / p.amp;
    };
    long double best = power(p.dist, p.focus);
    // the envelope falls by this much over the reading itself
    long double slack = 1 - std::exp(-(q / 2 / p.tau) * (q / 2 / p.tau)) + 1e-9L + 1000 * turnSlack(p.dir);
    require(std::fabs(best - 1) <= slack, "the pulse has ", (double)best, " of its amplitude at the focus on arrival");
    for (int i = 0; i < 20; i++)
    {
        double t = p.dist + g.sreal(4) * p.tau + g.sreal(1) * p.dist;
        V3 x = p.focus + p.dir * (g.sreal(1.5) * p.dist + g.sreal(3) * p.tau) + p.ex * (g.sreal(2) * p.waist) + p.ey * (g.sreal(2) * p.waist);
        long double v = power(t, x);
        long double edge = std::exp((q / p.tau) * (q / p.tau));   // two readings on a falling slope can add up to more
        require(v <= best + 2 * slack + (edge - 1) + 1e-6L, "the pulse is stronger (", (double)v, ") at t=", t, " x=", str(x), " than at the focus on arrival (", (double)best, ")");
    }
    // light leaves the start at time zero
    long double atStart = power(0, p.focus - p.dir * p.dist), want = p.waist / p.w(p.dist);
    require(std::fabs(atStart - want) <= slack + 1e-6L, "at time zero the start has amplitude ", (double)atStart, " instead of ", (double)want);
}

PBT_MAIN
