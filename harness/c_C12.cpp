// C12: fields move and turn with their geometry.
// LIBS: PhysicsQED Particles Tools
#include "phys.hh"
using namespace pbt;

struct EB { V3 e, b; };
static EB at(EMField* f, double t, V3 x) { ThreeVector e(9, 9, 9), b(9, 9, 9); f->GetField(t, x.tv(), e, b); return {V3(e), V3(b)}; }

struct Pulse { int kind; double amp, lambda, tau, waist, pol, dist; V3 dir, focus; };
static Pulse draw(Gen& g)
{
    Pulse p;
    p.kind = (int)g.draw(1);
    p.amp = g.logu(1e-6, 10); p.lambda = g.logu(1e-2, 1e4); p.tau = p.lambda * g.real(1, 30); p.waist = p.lambda * g.real(1.5, 30);
    p.pol = g.chance(30) ? 1.5707963267948966 * g.draw(3) : g.real(-4, 4);
    p.dist = g.chance(5) ? p.lambda : p.lambda * g.real(1, 60);
    p.dir = gen::direction(g);
    double s = p.lambda * 50;
    p.focus = g.chance(40) ? V3() : V3(g.sreal(s), g.sreal(s), g.sreal(s));
    p.focus = V3(p.focus.tv());
    g.note("type", p.kind ? "focusing" : "gaussian"); g.note("amplitude", p.amp); g.note("wavelength", p.lambda); g.note("duration", p.tau);
    g.note("waist", p.waist); g.note("polarisation", p.pol); g.note("distance", p.dist); g.note("direction", str(p.dir)); g.note("focus", str(p.focus));
    return p;
}
static EMField* make(const Pulse& p, double amp, V3 dir, V3 focus)
{
    V3 start = focus - dir * p.dist;
    if (p.kind) return new FocusingField(amp, p.lambda, p.tau, p.waist, p.pol, start.tv(), focus.tv());
    return new GaussianEMField(amp, p.lambda, p.tau, p.waist, p.pol, start.tv(), focus.tv());
}
// a point in the pulse: offset along and across from the moving centre
struct Where { double t; long double along, u, v; };
static Where where(Gen& g, const Pulse& p)
{
    Where w;
    double z = g.sreal(1.0) * std::min(3 * p.waist * p.waist / p.lambda, 40 * p.lambda);
    w.along = z;
    w.t = p.dist + z + g.sreal(1.2) * p.tau;
    w.u = g.sreal(1.2) * p.waist; w.v = g.sreal(1.2) * p.waist;
    g.note("t", w.t); g.note("offset", str(V3(w.u, w.v, w.along)));
    return w;
}
static long double tolShift(const Pulse& p) { return 3e-9L + 400 * turnSlack(p.dir); }

PROPERTY(shifted_geometry, 40000, 2000000, "a non-zero shift and a field that is not near zero")
{
    Pulse p = draw(g); Where w = where(g, p);
    double s = 50 * p.lambda;
    V3 shift(g.sreal(s), g.sreal(s), g.sreal(s));
    g.note("shift", str(shift));
    V3 u = perp(p.dir), v = cross(p.dir, u), x = p.focus + p.dir * w.along + u * w.u + v * w.v;
    EMField *a = make(p, p.amp, p.dir, p.focus), *b = make(p, p.amp, p.dir, p.focus + shift);
    EB fa = at(a, w.t, x), fb = at(b, w.t, x + shift);
    if (mag(shift) > 0 && mag(fa.e) > 1e-3 * p.amp) g.nontrivial();
    requireV(fb.e, fa.e, 0, tolShift(p) * p.amp, "E of the shifted pulse at the shifted point");
    requireV(fb.b, fa.b, 0, tolShift(p) * p.amp, "B of the shifted pulse at the shifted point");
    delete a; delete b;
}

PROPERTY(proportional_to_amplitude, 20000, 1000000, "a factor other than one and a field that is not near zero")
{
    bool plane = g.chance(30);
    if (plane)
    {
        double amp = g.logu(1e-6, 10), f = g.logu(1e-3, 1e3), l = g.logu(1e-2, 1e4), pol = g.sreal(4);
        V3 d = gen::direction(g), x(g.sreal(9 * l), g.sreal(9 * l), g.sreal(9 * l)); double t = g.sreal(9 * l);
        g.note("plane", amp); g.note("factor", f); g.note("x", str(x)); g.note("t", t);
        PlaneEMField a(amp, l, pol, d.tv()), b(amp * f, l, pol, d.tv());
        EB fa = at(&a, t, x), fb = at(&b, t, x);
        if (mag(fa.e) > 1e-3 * amp) g.nontrivial();
        requireV(fb.e, fa.e * f, 0, 1e-10L * amp * f, "E of the scaled wave"); requireV(fb.b, fa.b * f, 0, 1e-10L * amp * f, "B of the scaled wave");
        return;
    }
    Pulse p = draw(g); Where w = where(g, p);
    if (g.chance(30)) { p.amp = g.logu(1e-12, 1e-6); g.note("faint", p.amp); g.label("faint"); }
    double f = g.logu(1e-3, 1e3);
    g.note("factor", f);
    V3 u = perp(p.dir), v = cross(p.dir, u), x = p.focus + p.dir * w.along + u * w.u + v * w.v;
    EMField *a = make(p, p.amp, p.dir, p.focus), *b = make(p, p.amp * f, p.dir, p.focus);
    EB fa = at(a, w.t, x), fb = at(b, w.t, x);
    if (mag(fa.e) > 1e-3 * p.amp) g.nontrivial();
    // the focusing pulse ends where its field is 1e-15 of the Schwinger field
    long double cut = p.kind ? 5e-15L * (1 + f) : 0;
    requireV(fb.e, fa.e * f, 0, 1e-9L * p.amp * f + cut, "E of the scaled pulse");
    requireV(fb.b, fa.b * f, 0, 1e-9L * p.amp * f + cut, "B of the scaled pulse");
    delete a; delete b;
}

PROPERTY(static_field, 20000, 500000, "fields with more than one non-zero component")
{
    V3 e = gen::vec(g, 1e-9, 1e3), b = gen::vec(g, 1e-9, 1e3);
    e = V3(e.tv()); b = V3(b.tv());
    StaticEMField f(e.tv(), b.tv());
    g.note("E", str(e)); g.note("B", str(b));
    if ((e.x != 0) + (e.y != 0) + (e.z != 0) > 1 && mag(b) > 0) g.nontrivial();
    for (int i = 0; i < 4; i++)
    {
        double t = gen::wide(g); V3 x = gen::vec(g);
        EB r = at(&f, t, x);
        requireV(r.e, e, 0, 0, "static E"); requireV(r.b, b, 0, 0, "static B");
    }
}

// The field of a pulse in its own axes: the polarisation of the field at the
// focus gives the first axis, the direction of propagation the third.
struct Axes { V3 x, y, z; };
static Axes axes(const Pulse& p, EMField* f, V3 dir, V3 focus)
{
    // the field at the focus at arrival, at four times within a quarter period: one of them is strong
    V3 best;
    for (int k = 0; k < 4; k++)
    {
        V3 e = at(f, p.dist + k * p.lambda / 16, focus).e;
        if (mag(e) > mag(best)) best = e;
    }
    best = best - dir * dot(best, dir);
    require(mag(best) > 0.1L * p.amp, "no field at the focus when the pulse arrives: |E| = ", (double)mag(best));
    V3 x = unit(best);
    return {x, cross(dir, x), dir};
}

PROPERTY(turned_geometry, 60000, 3000000, "different directions and a field that is not near zero")
{
    Pulse p = draw(g); Where w = where(g, p);
    V3 d2 = g.chance(40) ? V3(0, 0, 1) : gen::direction(g);
    g.note("other direction", str(d2));
    EMField *a = make(p, p.amp, p.dir, p.focus), *b = make(p, p.amp, d2, p.focus);
    Axes A = axes(p, a, p.dir, p.focus), B = axes(p, b, d2, p.focus);
    // the same point in either pulse's own axes
    V3 xa = p.focus + A.x * w.u + A.y * w.v + A.z * w.along, xb = p.focus + B.x * w.u + B.y * w.v + B.z * w.along;
    EB fa = at(a, w.t, xa), fb = at(b, w.t, xb);
    V3 ea(dot(fa.e, A.x), dot(fa.e, A.y), dot(fa.e, A.z)), eb(dot(fb.e, B.x), dot(fb.e, B.y), dot(fb.e, B.z));
    V3 ba(dot(fa.b, A.x), dot(fa.b, A.y), dot(fa.b, A.z)), bb(dot(fb.b, B.x), dot(fb.b, B.y), dot(fb.b, B.z));
    if (mag(p.dir - d2) > 1e-6L && mag(ea) > 1e-3 * p.amp) g.nontrivial();
    long double slack = turnSlack(p.dir) + turnSlack(d2);
    long double tol = (1e-8L + 400 * slack) * p.amp;
    if (slack > 1e-11L) g.label("nearly along -z");
    requireV(eb, ea, 0, tol, "E in the axes of the turned pulse");
    requireV(bb, ba, 0, tol, "B in the axes of the turned pulse");
    // the energy flows along the axis
    long double flow = dot(cross(fb.e, fb.b), d2);
    require(flow >= -1e-2L * p.amp * p.amp * (p.kind ? 1 : 1e-6L) - 10 * slack * p.amp * p.amp, "energy flows against the direction: ", (double)flow);
    delete a; delete b;
}

// The plane wave has no focus: compare in its own axes at equal phase
PROPERTY(turned_plane_wave, 30000, 1000000, "different directions and a field that is not near zero")
{
    double amp = g.logu(1e-6, 10), l = g.logu(1e-2, 1e4), pol = g.sreal(4);
    V3 d1 = gen::direction(g), d2 = gen::direction(g);
    double t = g.sreal(9 * l), along = g.sreal(9 * l), across = g.sreal(9 * l);
    g.note("wavelength", l); g.note("polarisation", pol); g.note("directions", str(d1) + " " + str(d2)); g.note("t", t); g.note("along", along);
    PlaneEMField a(amp, l, pol, d1.tv()), b(amp, l, pol, d2.tv());
    EB fa = at(&a, t, d1 * along + perp(d1) * across), fb = at(&b, t, d2 * along + perp(d2) * across);
    if (mag(d1 - d2) > 1e-6L && mag(fa.e) > 1e-3 * amp) g.nontrivial();
    long double s = 1e-9L + 20 * (turnSlack(d1) + turnSlack(d2));
    require(std::fabs(mag(fa.e) - mag(fb.e)) < s * amp, "|E| is ", (double)mag(fa.e), " for one direction and ", (double)mag(fb.e), " for the other");
    requireV(cross(fa.e, fa.b), d1 * dot(fa.e, fa.e), 0, s * amp * amp, "energy flux for the first direction");
    requireV(cross(fb.e, fb.b), d2 * dot(fb.e, fb.e), 0, s * amp * amp, "energy flux for the second direction");
}

PBT_MAIN
