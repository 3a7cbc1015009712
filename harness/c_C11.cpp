// C11: the tightly focused pulse solves Maxwell's equations to high order.
// LIBS: PhysicsQED Particles Tools
#include "phys.hh"
#include <complex>
using namespace pbt;

static const long double PI = 3.14159265358979323846264338327950288L;
struct EB { V3 e, b; };
struct Pulse
{
    double amp, lambda, tau, waist, pol, dist; V3 dir, focus; FocusingField* f = nullptr;
    V3 ex, ey;
    ~Pulse() { delete f; }
    EB at(long double t, V3 x) const { ThreeVector e(9, 9, 9), b(9, 9, 9); f->GetField((double)t, x.tv(), e, b); return {V3(e), V3(b)}; }
    long double rayleigh() const { return PI * waist * waist / lambda; }
    long double eps() const { return waist / rayleigh(); }      // divergence angle
    long double w(long double z) const { return waist * std::sqrt(1 + z * z / (rayleigh() * rayleigh())); }
    V3 point(long double z, long double u, long double v) const { return focus + dir * z + ex * u + ey * v; }
    V3 local(V3 a) const { return {dot(a, ex), dot(a, ey), dot(a, dir)}; }
};
// pulses long against everything unless a duration is given in wavelengths
static void draw(Gen& g, Pulse& p, double epsLo, double epsHi, bool shortPulse, bool simple = false)
{
    p.amp = g.logu(1e-2, 1e3); p.lambda = g.logu(1e-2, 1e6);
    double eps = g.logu(epsLo, epsHi);
    p.waist = p.lambda / (3.14159265358979 * eps);
    p.tau = shortPulse ? p.lambda * g.real(3, 60) : p.lambda * 1e9;
    p.pol = g.chance(30) ? 1.5707963267948966 * g.draw(4) : g.real(-7, 7);
    p.dist = p.lambda * g.real(0.5, 60);
    p.dir = gen::direction(g);
    double s = p.lambda * 50;
    p.focus = g.chance(simple ? 80 : 40) ? V3() : V3(g.sreal(s), g.sreal(s), g.sreal(s));
    p.focus = V3(p.focus.tv());
    V3 start = p.focus - p.dir * p.dist;
    g.note("amplitude", p.amp); g.note("wavelength", p.lambda); g.note("duration", p.tau); g.note("waist", p.waist);
    g.note("divergence", (double)p.eps()); g.note("polarisation", p.pol); g.note("start", str(start)); g.note("focus", str(p.focus));
    p.f = new FocusingField(p.amp, p.lambda, p.tau, p.waist, p.pol, start.tv(), p.focus.tv());
    V3 best;
    for (int k = 0; k < 4; k++)
    {
        V3 e = p.at(p.dist + k * (long double)p.lambda / 16, p.focus).e;
        if (mag(e) > mag(best)) best = e;
    }
    require(mag(best) > 0.1L * p.amp, "no field at the focus when the pulse arrives: |E| = ", (double)mag(best));
    require(std::fabs(dot(best, p.dir)) <= 1e-3L * p.amp, "the field at the focus is not across the direction");
    p.ex = unit(best - p.dir * dot(best, p.dir)); p.ey = cross(p.dir, p.ex);
    if (turnSlack(p.dir) > 1e-10L) g.label("nearly along -z");
}
struct Where { double t, z, u, v; };
static Where where(Gen& g, const Pulse& p, double zMax, double rMax)
{
    Where w;
    w.z = (double)(g.sreal(zMax) * p.rayleigh());
    w.u = g.sreal(rMax) * (double)p.w(w.z); w.v = g.sreal(rMax) * (double)p.w(w.z);
    w.t = p.dist + w.z + g.sreal(1) * (p.tau > 1e6 * p.lambda ? p.lambda : p.tau);
    g.note("t", w.t); g.note("offset", str(V3(w.u, w.v, w.z)));
    return w;
}

// residual of the four equations in units of wave number times amplitude
static long double residual(const Pulse& p, const Where& w, std::string& which)
{
    V3 x = p.point(w.z, w.u, w.v);
    long double h = p.lambda / 30;
    const long double c[5] = {5.0L / 6, -5.0L / 21, 5.0L / 84, -5.0L / 504, 1.0L / 1260};
    V3 dE[4], dB[4];
    for (int a = 0; a < 4; a++)
        for (int k = 1; k <= 5; k++)
        {
            V3 dx = a == 0 ? p.ex * (h * k) : a == 1 ? p.ey * (h * k) : a == 2 ? p.dir * (h * k) : V3();
            long double dt = a == 3 ? h * k : 0;
            EB q = p.at(w.t + dt, x + dx), m = p.at(w.t - dt, x - dx);
            dE[a] = dE[a] + (c[k - 1] / h) * p.local(q.e - m.e); dB[a] = dB[a] + (c[k - 1] / h) * p.local(q.b - m.b);
        }
    long double norm = 2 * PI / p.lambda * p.amp;
    V3 curlE(dE[1].z - dE[2].y, dE[2].x - dE[0].z, dE[0].y - dE[1].x), curlB(dB[1].z - dB[2].y, dB[2].x - dB[0].z, dB[0].y - dB[1].x);
    long double r[4] = {std::fabs(dE[0].x + dE[1].y + dE[2].z), std::fabs(dB[0].x + dB[1].y + dB[2].z), mag(curlE + dB[3]), mag(curlB - dE[3])};
    const char* n[4] = {"div E = 0", "div B = 0", "curl E = -dB/dt", "curl B = dE/dt"};
    int m = 0;
    for (int i = 1; i < 4; i++) if (r[i] > r[m] || r[i] != r[i]) m = i;
    which = n[m];
    return r[m] / norm;
}
// the series as published leaves 0.3 eps^5
static const long double CBOUND = 0.6L;

PROPERTY(maxwell, 60000, 3000000, "a point off the axis, divergence above 0.01")
{
    Pulse p; draw(g, p, 0.004, 0.25, false, true); Where w = where(g, p, 2, 1.2);
    if ((w.u != 0 || w.v != 0) && p.eps() > 0.01L) g.nontrivial();
    std::string which;
    long double e = p.eps(), r = residual(p, w, which);
    long double far = (p.dist + mag(p.focus) + 2 * p.rayleigh()) / p.lambda;
    // differences of double precision numbers, and the width of the stencil
    long double floor = 2e-10L + 1e-14L * far + 2000 * turnSlack(p.dir) * (1 + far);
    require(r <= CBOUND * std::pow(e, 5.0L) + floor, which, " is missed by ", (double)r, " k E0, which is ", (double)(r / std::pow(e, 5.0L)),
            " times the fifth power of the divergence angle");
}

// Every component of a solution satisfies the wave equation by itself. The series leaves the
// eighth power of the divergence angle for the fields across the axis and the seventh along it,
// so this sees an error in any of its terms, which the four equations above do not.
PROPERTY(wave_equation, 40000, 2000000, "a point off the axis and off the focal plane, divergence above 0.05")
{
    typedef std::complex<long double> Cx;
    Pulse p; draw(g, p, 0.02, 0.3, false, true); Where w = where(g, p, 1.5, 1);
    if (turnSlack(p.dir) > 1e-12L) throw Discard();
    if (w.u != 0 && w.v != 0 && w.z != 0 && p.eps() > 0.05L) g.nontrivial();
    const long double k = 2 * PI / p.lambda, q = p.lambda / 4.0L;
    // slowly varying complex amplitudes of the six components
    auto envelope = [&](long double u, long double v, long double z) {
        double t = w.t, t2 = (double)(w.t + q); V3 x = p.point(z, u, v);
        EB a = p.at(t, x), b = p.at(t2, x);
        Cx turn = std::exp(Cx(0, -k * (t - p.dist - z)));
        std::array<Cx, 6> r;
        V3 ea = p.local(a.e), eb = p.local(b.e), ba = p.local(a.b), bb = p.local(b.b);
        for (int i = 0; i < 3; i++) { r[i] = Cx(ea[i], -eb[i]) * turn / (long double)p.amp; r[3 + i] = Cx(ba[i], -bb[i]) * turn / (long double)p.amp; }
        return r;
    };
    const long double c1[6] = {0, 5.0L / 6, -5.0L / 21, 5.0L / 84, -5.0L / 504, 1.0L / 1260};
    const long double c2[6] = {-5269.0L / 1800, 5.0L / 3, -5.0L / 21, 5.0L / 126, -5.0L / 1008, 1.0L / 3150};
    long double hw = 0.06L * p.waist, hz = 0.06L * p.rayleigh();
    std::array<Cx, 6> sum{};
    std::array<Cx, 6> mid = envelope(w.u, w.v, w.z);
    for (int i = 0; i < 6; i++) sum[i] = c2[0] * mid[i] * (2 / (hw * hw) + 1 / (hz * hz));
    for (int n = 1; n <= 5; n++)
        for (int s = -1; s <= 1; s += 2)
        {
            auto a = envelope(w.u + s * n * hw, w.v, w.z), b = envelope(w.u, w.v + s * n * hw, w.z), z = envelope(w.u, w.v, w.z + s * n * hz);
            for (int i = 0; i < 6; i++)
                sum[i] += c2[n] * ((a[i] + b[i]) / (hw * hw) + z[i] / (hz * hz)) - Cx(0, 2 * k) * (c1[n] * s / hz) * z[i];
        }
    long double e = p.eps(), far = (p.dist + mag(p.focus) + 2 * p.rayleigh()) / p.lambda;
    const char* name[6] = {"E along the polarisation", "E across it", "E along the beam", "B along the polarisation", "B across it", "B along the beam"};
    for (int i = 0; i < 6; i++)
    {
        long double r = std::abs(sum[i]) / (k * k), limit = 1.2L * std::pow(e, i % 3 == 2 ? 7.0L : 8.0L) + 2e-11L + 1e-13L * far * e;
        require(r <= limit, name[i], " misses the wave equation by ", (double)r, " k^2 E0 where the series may leave ", (double)limit);
    }
}

PROPERTY(transverse_for_weak_focusing, 60000, 2000000, "a point off the axis and off the focal plane with a noticeable field")
{
    Pulse p; draw(g, p, 1e-4, 0.15, false); Where w = where(g, p, 1.5, 1);
    long double e2 = p.eps() * p.eps(), far = (p.dist + mag(p.focus) + 2 * p.rayleigh()) / p.lambda;
    long double slack = 1e-9L + 1e-13L * far + 1000 * turnSlack(p.dir) * (1 + far);
    if (slack > 1e-2L) throw Discard();
    V3 x = p.point(w.z, w.u, w.v);
    EB a = p.at(w.t, x), b = p.at(w.t + p.lambda / 4.0L, x);
    V3 ea = p.local(a.e), eb = p.local(b.e), ba = p.local(a.b), bb = p.local(b.b);
    long double r2 = (long double)w.u * w.u + (long double)w.v * w.v, ww = p.w(w.z);
    long double want = p.amp * p.waist / ww * std::exp(-r2 / (ww * ww));
    if (r2 > 0 && w.z != 0 && want > 1e-2 * p.amp) g.nontrivial();
    long double got = std::sqrt(ea.x * ea.x + eb.x * eb.x), gotB = std::sqrt(ba.y * ba.y + bb.y * bb.y);
    require(std::fabs(got - want) <= (3 * e2 + slack) * p.amp, "the electric amplitude is ", (double)(got / p.amp), " of the requested one instead of ", (double)(want / p.amp));
    require(std::fabs(gotB - want) <= (3 * e2 + slack) * p.amp, "the magnetic amplitude is ", (double)(gotB / p.amp), " of the requested one instead of ", (double)(want / p.amp));
    require(std::fabs(ea.x - ba.y) <= (3 * e2 + slack) * p.amp, "E along the polarisation ", (double)ea.x, " does not match B across it ", (double)ba.y);
    require(std::fabs(ea.y) <= (3 * e2 + slack) * p.amp && std::fabs(ba.x) <= (3 * e2 + slack) * p.amp, "the fields leave the polarisation plane");
    require(std::fabs(ea.z) <= (2 * p.eps() + slack) * p.amp && std::fabs(ba.z) <= (2 * p.eps() + slack) * p.amp, "the fields along the axis are too large");
    // the longitudinal field is odd across the axis
    EB o = p.at(w.t, p.point(w.z, -w.u, -w.v));
    V3 eo = p.local(o.e), bo = p.local(o.b);
    require(std::fabs(eo.z + ea.z) <= slack * p.amp && std::fabs(bo.z + ba.z) <= slack * p.amp, "the fields along the axis are not odd across it");
    require(std::fabs(eo.x - ea.x) <= slack * p.amp && std::fabs(bo.y - ba.y) <= slack * p.amp, "the fields across the axis are not even across it");
}

PROPERTY(duration, 60000, 2000000, "a point away from the centre of the pulse")
{
    Pulse p; draw(g, p, 0.005, 0.25, true); Where w = where(g, p, 1.5, 1);
    g.note("x", str(p.point(w.z, w.u, w.v)));
    FocusingField longer(p.amp, p.lambda, p.tau * 1e9, p.waist, p.pol, (p.focus - p.dir * p.dist).tv(), p.focus.tv());
    V3 x = p.point(w.z, w.u, w.v);
    ThreeVector e, b; longer.GetField(w.t, x.tv(), e, b);
    long double s = ((long double)w.t - p.dist - w.z) / p.tau, env = std::exp(-s * s);
    if (std::fabs(s) > 0.1L) g.nontrivial();
    long double far = (p.dist + mag(p.focus)) / p.lambda;
    long double tol = 1e-10L + 1e-13L * far + 1000 * turnSlack(p.dir);
    EB f = p.at(w.t, x);
    requireV(f.e, V3(e) * env, 0, tol * p.amp, "E of the short pulse against the long one times its envelope");
    requireV(f.b, V3(b) * env, 0, tol * p.amp, "B of the short pulse against the long one times its envelope");
}

// The envelope in time holds far from the centre of the pulse too
PROPERTY(tails, 40000, 2000000, "a point more than twice the duration from the centre")
{
    Pulse p; draw(g, p, 0.005, 0.25, true);
    double z = (double)(g.sreal(1.5) * p.rayleigh()), s = g.sreal(5.5);
    double u = g.sreal(1) * (double)p.w(z), v = g.sreal(1) * (double)p.w(z), t = p.dist + z + s * p.tau;
    g.note("offset", str(V3(u, v, z))); g.note("durations from the centre", s);
    FocusingField longer(p.amp, p.lambda, p.tau * 1e9, p.waist, p.pol, (p.focus - p.dir * p.dist).tv(), p.focus.tv());
    V3 x = p.point(z, u, v);
    ThreeVector e, b; longer.GetField(t, x.tv(), e, b);
    if (std::fabs(s) > 2) g.nontrivial();
    s = (double)(((long double)t - p.dist - z) / p.tau);
    long double env = std::exp(-(long double)s * s), far = (p.dist + mag(p.focus) + std::fabs(s) * p.tau) / p.lambda;
    long double rel = (1e-9L + 1e-12L * far + 2000 * turnSlack(p.dir)) * (1 + s * s);
    // the pulse ends where its field is 1e-15 of the Schwinger field
    EB f = p.at(t, x);
    requireV(f.e, V3(e) * env, 0, rel * mag(V3(e)) * env + 2e-14L, "E of the short pulse against the long one times its envelope");
    requireV(f.b, V3(b) * env, 0, rel * mag(V3(b)) * env + 2e-14L, "B of the short pulse against the long one times its envelope");
}

// Far from the axis as well, as long as the focusing is weak enough for the first order
PROPERTY(weak_focusing_tails, 40000, 2000000, "a point more than one and a half widths from the axis")
{
    Pulse p; draw(g, p, 1e-4, 0.01, false);
    double z = (double)(g.sreal(1.5) * p.rayleigh()), q = g.sreal(3), ang = g.real(0, 6.3), t = p.dist + z + g.sreal(1) * p.lambda;
    long double r = q * p.w(z);
    V3 x = p.point(z, r * std::cos(ang), r * std::sin(ang));
    g.note("z", z); g.note("widths from the axis", q); g.note("angle", ang); g.note("t", t);
    if (std::fabs(q) > 1.5) g.nontrivial();
    EB a = p.at(t, x), b = p.at(t + p.lambda / 4.0L, x);
    long double want = p.amp * p.waist / p.w(z) * std::exp(-(long double)q * q), ea = p.local(a.e).x, eb = p.local(b.e).x, got = std::sqrt(ea * ea + eb * eb);
    long double rho2 = r * r / ((long double)p.waist * p.waist), e2 = p.eps() * p.eps(), far = (p.dist + mag(p.focus) + 2 * p.rayleigh()) / p.lambda;
    long double tol = 3 * e2 * (1 + rho2) * (1 + rho2) + (1e-8L + 1e-12L * far + 2000 * turnSlack(p.dir) * (1 + far)) * (1 + q * q);
    if (tol > 0.1L) throw Discard();
    require(std::fabs(got / want - 1) <= tol, "the electric amplitude is ", (double)(got / p.amp), " of the requested one instead of ", (double)(want / p.amp));
}

PROPERTY(moves_with_light, 60000, 2000000, "a flight that is not zero")
{
    Pulse p; draw(g, p, 0.005, 0.2, true);
    // near the focus a weakly focused pulse keeps its shape: a shift along the axis equals a shift in time
    double c = g.sreal(1) * p.lambda * 2, s = g.sreal(1) * p.tau;
    g.note("flight", c); g.note("time after the centre", s);
    long double zr = p.rayleigh();
    EB a = p.at(p.dist + (long double)s, p.focus), b = p.at(p.dist + (long double)s + c, p.focus + p.dir * (long double)c);
    if (std::fabs(c) > 1e-3 * p.lambda) g.nontrivial();
    // apart from the Gouy phase, at most atan(c / zr) times one for the leading term
    long double far = (p.dist + mag(p.focus)) / p.lambda;
    long double tol = 1.2L * std::fabs(c) / zr + 6 * p.eps() * p.eps() * std::min(1.0L, std::fabs((long double)c) / zr) + 1e-9L + 1e-13L * far + 1000 * turnSlack(p.dir);
    requireV(b.e, a.e, 0, tol * p.amp, "E seen by an observer moving with the pulse");
    requireV(b.b, a.b, 0, tol * p.amp, "B seen by an observer moving with the pulse");
}

PROPERTY(polarisation, 50000, 2000000, "angles that differ, off the axis, and a divergence with fields along the axis")
{
    Pulse p; draw(g, p, 0.005, 0.3, g.coin()); Where w = where(g, p, 1, 1);
    double p2 = g.real(-7, 7);
    g.note("other polarisation", p2);
    FocusingField f2(p.amp, p.lambda, p.tau, p.waist, p2, (p.focus - p.dir * p.dist).tv(), p.focus.tv());
    long double turnBy = (long double)p2 - p.pol;
    V3 rel = p.point(w.z, w.u, w.v) - p.focus, x2 = p.focus + turn(rel, p.dir, turnBy);
    EB a = p.at(w.t, p.focus + rel);
    ThreeVector e, b; f2.GetField(w.t, x2.tv(), e, b);
    if (std::fabs(turnBy) > 1e-3L && (w.u != 0 || w.v != 0) && p.eps() > 0.03L) g.nontrivial();
    long double far = (p.dist + mag(p.focus) + p.rayleigh()) / p.lambda;
    long double tol = 1e-9L + 1e-13L * far + 1000 * turnSlack(p.dir) * (1 + far);
    requireV(V3(e), turn(a.e, p.dir, turnBy), 0, tol * p.amp, "E of the turned beam at the turned point");
    requireV(V3(b), turn(a.b, p.dir, turnBy), 0, tol * p.amp, "B of the turned beam at the turned point");
}

// Found by search: where and when the pulse is strongest
PROPERTY(peaks_at_the_focus, 4000, 200000, "a pulse that is short against its way")
{
    Pulse p; draw(g, p, 0.01, 0.1, true, true);
    if (p.tau < p.dist) g.nontrivial();
    long double q = p.lambda / 4.0L;
    auto power = [&](long double t, V3 x) {
        long double a = mag(p.at(t - q / 2, x).e), b = mag(p.at(t + q / 2, x).e);
        return std::sqrt(a * a + b * b) / p.amp;
    };
    long double best = power(p.dist, p.focus), e2 = p.eps() * p.eps();
    long double slack = 1 - std::exp(-(q / 2 / p.tau) * (q / 2 / p.tau)) + e2 + 1e-9L + 1000 * turnSlack(p.dir);
    require(std::fabs(best - 1) <= slack, "the pulse has ", (double)best, " of its amplitude at the focus on arrival");
    long double edge = std::exp((q / p.tau) * (q / p.tau)) - 1;
    for (int i = 0; i < 20; i++)
    {
        double t = p.dist + g.sreal(4) * p.tau + g.sreal(1) * p.dist;
        V3 x = p.focus + p.dir * (g.sreal(1.5) * p.dist + g.sreal(3) * p.tau) + p.ex * (g.sreal(2) * p.waist) + p.ey * (g.sreal(2) * p.waist);
        long double v = power(t, x);
        require(v <= best + 2 * slack + edge + 8 * e2, "the pulse is stronger (", (double)v, ") at t=", t, " x=", str(x), " than at the focus on arrival (", (double)best, ")");
    }
    long double atStart = power(0, p.focus - p.dir * p.dist), want = p.waist / p.w(p.dist);
    require(std::fabs(atStart - want) <= slack + 3 * e2, "at time zero the start has amplitude ", (double)atStart, " instead of ", (double)want);
}

PBT_MAIN
