// C14: radiation reaction removes the right power, against the motion.
// LIBS: PhysicsQED Particles Tools
#include "motion.hh"
using namespace pbt;

static long double classicalLoss(long double eta) { return 2.0L / 3 * ALPHA * eta * eta; }

// the quantum correction of the synchrotron power, from its integral
static double quantumFactor(double chi)
{
    // g = 9 sqrt(3) / (8 pi) int_0^inf dy [ 2 y^2 K_{5/3}(y) / (2 + 3 chi y)^2 + 36 chi^2 y^3 K_{2/3}(y) / (2 + 3 chi y)^4 ]
    double s = 0, lo = std::log(1e-9), hi = std::log(60.0); int n = 800; double h = (hi - lo) / n;
    for (int i = 0; i <= n; i++)
    {
        double y = std::exp(lo + i * h), d = 2 + 3 * chi * y;
        double f = 2 * y * y * std::cyl_bessel_k(5.0 / 3, y) / (d * d) + 36 * chi * chi * y * y * y * std::cyl_bessel_k(2.0 / 3, y) / (d * d * d * d);
        s += f * y * (i == 0 || i == n ? 1 : i % 2 ? 4 : 2);
    }
    return 9 * std::sqrt(3.0) / (8 * M_PI) * s * h / 3;
}
static double quantumFactorTable(double eta)
{
    static std::vector<double> t;
    const double lo = -6, hi = 5; const int n = 440;
    if (t.empty()) for (int i = 0; i <= n; i++) t.push_back(quantumFactor(std::pow(10, lo + (hi - lo) * i / n)));
    double l = std::log10(eta);
    if (l <= lo) return 1;
    double x = std::min((l - lo) / (hi - lo) * n, n - 1e-6); int i = (int)x;
    return t[i] + (t[i + 1] - t[i]) * (x - i);
}

struct Scene { EMField* f = nullptr; V3 x, p, e, b; double t, gamma, eta, varies = 1e30; ~Scene() { delete f; } };
// a field and a particle, with the field scaled so that eta is as wanted
static void draw(Gen& g, Scene& s, double etaLo, double etaHi, double gLo, double gHi, double resolve)
{
    // the loss is to the force as eta gamma / 200 to one
    V3 n = gen::direction(g); double eta = g.logu(etaLo, etaHi), gb = g.logu(std::min(std::max(gLo, g.chance(10) ? 0 : resolve / eta), gHi / 2), gHi);
    s.p = V3((n * gb).tv()); s.gamma = (double)gammaOf(s.p, 1);
    s.x = g.chance(50) ? V3() : V3(V3(g.sreal(3), g.sreal(3), g.sreal(3)).tv());
    s.t = g.chance(50) ? 0 : g.sreal(3);
    V3 e, b; bool plane = g.chance(25); V3 d; double l = 0, pol = 0;
    if (plane)
    {
        d = gen::direction(g); l = g.logu(10, 1000); pol = g.real(-4, 4);
        PlaneEMField one(1, l, pol, d.tv());
        FieldAt a = fieldAt(&one, s.t, s.x); e = a.e; b = a.b; s.varies = l / 10;
        if (mag(e) < 0.2L) throw Discard();     // too close to a node to call the field steady over a step
    }
    else
    {
        unsigned k = g.draw(2);
        if (k != 1) b = gen::direction(g);
        if (k != 0) e = gen::direction(g) * g.real(0.1, 2);
    }
    long double one = etaOf(s.p, 1, e, b);
    if (!(one > 1e-6L * s.gamma) && !(one > 0.3L)) { g.label("field along the motion"); eta = (double)one * 0.1; }
    double scale = one > 0 ? (double)(eta / one) : 0.1;
    scale = std::min(scale, 1e4);
    if (plane) { s.f = new PlaneEMField(scale, l, pol, d.tv()); g.note("plane wave", scale); g.note("wavelength", l); g.note("polarisation", pol); g.note("direction", str(d)); }
    else { s.f = new StaticEMField((e * scale).tv(), (b * scale).tv()); g.note("E", str(e * scale)); g.note("B", str(b * scale)); }
    FieldAt a = fieldAt(s.f, s.t, s.x); s.e = a.e; s.b = a.b;
    s.eta = (double)etaOf(s.p, 1, s.e, s.b);
    g.note("p", str(s.p)); g.note("x", str(s.x)); g.note("t", s.t); g.note("eta", s.eta);
}
static Lepton* particle(const Scene& s, double q) { return new Lepton(1, q, s.x.tv(), s.p.tv(), 1, s.t); }
// a step in which neither the force nor the loss changes the momentum by more than `part`
static double step(const Scene& s, double part)
{
    long double f = mag(s.e) + mag(s.b) + classicalLoss(s.eta), l = classicalLoss(s.eta);
    return (double)std::min((long double)part * s.varies, std::min(part * mag(s.p) / std::max(f, 1e-30L), part * mag(s.p) / std::max(l, 1e-30L)));
}
// momentum taken by radiation in one short step: the radiating pusher against the Lorentz pusher
static V3 taken(const Scene& s, ParticlePusher& rad, double dt, double q)
{
    LorentzPusher plain(s.f, dt);
    std::unique_ptr<Lepton> a(particle(s, q)), b(particle(s, q));
    rad.PushParticle(a.get()); plain.PushParticle(b.get());
    return V3(b->GetMomentum()) - V3(a->GetMomentum());
}

PROPERTY(classical_loss, 40000, 2000000, "eta above 1e-4 and a loss that double precision resolves")
{
    Scene s; draw(g, s, 1e-4, 30, 0.05, 1e5, 0.05);
    double q = g.coin() ? -1 : 1, part = 1e-5, dt = step(s, part);
    g.note("charge", q); g.note("dt", dt);
    LandauPusher rad(s.f, dt);
    V3 d = taken(s, rad, dt, q);
    long double want = classicalLoss(s.eta) * dt, round = 4e-15L * mag(s.p);
    if (want < 300 * round) { g.label("lost in rounding"); throw Discard(); }
    if (s.eta > 1e-4) g.nontrivial();
    // the force and the motion change by `part` within the step
    requireV(d, unit(s.p) * want, 1e-3L, round, "momentum radiated in a step");
}

PROPERTY(quantum_corrected_loss, 40000, 2000000, "eta above 1e-3 and a loss that double precision resolves")
{
    Scene s; draw(g, s, 1e-4, 1000, 0.05, 1e6, 0.05);
    double q = g.coin() ? -1 : 1, dt = step(s, 1e-5);
    g.note("charge", q); g.note("dt", dt);
    ModifiedLandauPusher rad(s.f, dt); LandauPusher cl(s.f, dt);
    V3 d = taken(s, rad, dt, q), c = taken(s, cl, dt, q);
    long double got = dot(d, unit(s.p)), classical = classicalLoss(s.eta) * dt, round = 4e-15L * mag(s.p);
    if (got < 300 * round) { g.label("lost in rounding"); throw Discard(); }
    if (s.eta > 1e-3) g.nontrivial();
    require(mag(d - unit(s.p) * got) <= 1e-3L * got + round, "the radiated momentum ", str(d), " is not along the motion ", str(s.p));
    require(got <= dot(c, unit(s.p)) * (1 + 1e-9L) + round, "the quantum corrected loss ", (double)got, " exceeds the classical one ", (double)dot(c, unit(s.p)));
    long double factor = got / classical, want = quantumFactorTable(s.eta);
    require(std::fabs(factor - want) <= 0.03L * want + round / classical, "the quantum correction at eta = ", s.eta, " is ", (double)factor, ", the synchrotron power gives ", (double)want);
}

PROPERTY(correction_decreases, 40000, 1000000, "two field strengths that differ by more than a thousandth")
{
    // a particle across a magnetic field: eta = p B, one particle, two fields
    double e1 = g.logu(1e-5, 1e3), p = g.logu(std::min(10 / e1, 5e5), 1e6), ratio = g.logu(1.0001, 100);
    V3 n = gen::direction(g), b = perp(n);
    g.note("p", p); g.note("eta", e1); g.note("ratio", ratio);
    auto factor = [&](double eta) {
        Scene s; s.p = V3((n * p).tv()); s.gamma = (double)gammaOf(s.p, 1); s.t = 0; s.b = V3((b * (eta / p)).tv());
        s.f = new StaticEMField(ThreeVector(0, 0, 0), s.b.tv()); s.eta = (double)etaOf(s.p, 1, V3(), s.b);
        double dt = step(s, 1e-6);
        ModifiedLandauPusher rad(s.f, dt); LandauPusher cl(s.f, dt);
        // the force itself, without the rounding of the momentum
        ThreeVector z(0, 0, 0);
        struct Open : ModifiedLandauPusher { using ModifiedLandauPusher::ModifiedLandauPusher; };
        V3 d = taken(s, rad, dt, 1), c = taken(s, cl, dt, 1);
        long double round = 4e-15L * mag(s.p);
        if (mag(d) < 1e3L * round) throw Discard();
        return std::make_pair(mag(d) / mag(c), round / mag(d));
    };
    auto f1 = factor(e1), f2 = factor(e1 * ratio);
    if (ratio > 1.001) g.nontrivial();
    long double slack = f1.second + f2.second + 1e-6L;
    require(f1.first <= 1 + slack && f2.first <= 1 + slack, "the correction exceeds one: ", (double)f1.first, ", ", (double)f2.first);
    require(f2.first <= f1.first + slack, "the correction rises from ", (double)f1.first, " at eta = ", e1, " to ", (double)f2.first, " at eta = ", e1 * ratio);
    if (e1 < 1e-3) require(f1.first >= 1 - 8 * e1 - slack, "the correction at eta = ", e1, " is ", (double)f1.first);
}

PROPERTY(long_way_classical, 6000, 300000, "a particle that loses more than a thousandth of its momentum")
{
    Scene s; draw(g, s, 1e-2, 30, 0.1, 1e4, 3);
    double q = g.coin() ? -1 : 1, part = g.logu(1e-4, 2e-2), dt = step(s, part);
    int steps = (int)g.integer(1, 40);
    g.note("charge", q); g.note("dt", dt); g.note("steps", steps);
    std::unique_ptr<Lepton> a(particle(s, q));
    LandauPusher rad(s.f, dt);
    for (int i = 0; i < steps; i++) rad.PushParticle(a.get());
    State r = reference(s.f, {s.x, s.p, s.t}, 1, q, (long double)dt * steps, steps * 3, classicalLoss);
    State free = reference(s.f, {s.x, s.p, s.t}, 1, q, (long double)dt * steps, steps * 3);
    if (mag(r.p - free.p) > 1e-3L * mag(s.p)) g.nontrivial();
    // the fine-structure constant is known to 1e-8 or so in the code
    long double tol = 1e-6L * mag(r.p - free.p) + 1e-9L * mag(s.p) * (1 + steps * part) + mag(s.p) * steps * std::pow((long double)part * 4, 5.0L);
    requireV(V3(a->GetMomentum()), r.p, 0, tol, "momentum after radiating");
    requireV(V3(a->GetPosition()), r.x, 0, 1e-9L * (1 + dt * steps) * (1 + steps * part) + tol / mag(s.p) * dt * steps * 5, "position after radiating");
}

PROPERTY(same_for_both_charges, 30000, 1000000, "eta above 1e-3")
{
    Scene s; draw(g, s, 1e-3, 30, 0.1, 1e5, 0.05);
    double dt = step(s, 1e-5);
    g.note("dt", dt);
    if (s.eta > 1e-3) g.nontrivial();
    LandauPusher cl(s.f, dt); ModifiedLandauPusher qu(s.f, dt);
    long double round = 8e-15L * mag(s.p);
    requireV(taken(s, cl, dt, 1), taken(s, cl, dt, -1), 1e-3L, round, "classical loss of the positron against the electron");
    requireV(taken(s, qu, dt, 1), taken(s, qu, dt, -1), 1e-3L, round, "quantum corrected loss of the positron against the electron");
}

PROPERTY(faint_fields, 20000, 500000, "a particle of another mass or charge that a field turned")
{
    // where nothing to speak of is radiated the pushers are the Lorentz pusher, for any mass and charge
    double m = g.chance(20) ? 1 : g.logu(0.1, 2000), q = (g.coin() ? -1 : 1) * (g.coin() ? 1 : g.logu(0.3, 5));
    double u = g.logu(1e-2, 1e4), gamma = std::sqrt(1 + u * u);
    double f = 1e-9 * q * q * g.logu(0.01, 1) / (gamma * gamma);        // loss to force as alpha gamma^2 f
    V3 n = gen::direction(g), e = g.coin() ? gen::direction(g) * (0.5 * f) : V3(), b = gen::direction(g) * f;
    V3 p = V3((n * (m * u)).tv());
    double dt = g.logu(1e-3, 0.1) * m * u / (f * std::fabs(q)); int steps = (int)g.integer(1, 20);
    g.note("mass", m); g.note("charge", q); g.note("p", str(p)); g.note("E", str(e)); g.note("B", str(b)); g.note("dt", dt); g.note("steps", steps);
    StaticEMField field(e.tv(), b.tv());
    Lepton plain(m, q, ThreeVector(0, 0, 0), p.tv(), 1, 0);
    LorentzPusher lorentz(&field, dt);
    for (int i = 0; i < steps; i++) lorentz.PushParticle(&plain);
    V3 turned = V3(plain.GetMomentum()) - p;
    if ((m != 1 || std::fabs(q) != 1) && mag(turned) > 1e-3L * mag(p)) g.nontrivial();
    for (int k = 0; k < 2; k++)
    {
        std::unique_ptr<ParticlePusher> push(k ? (ParticlePusher*)new LandauPusher(&field, dt) : (ParticlePusher*)new ModifiedLandauPusher(&field, dt));
        Lepton l(m, q, ThreeVector(0, 0, 0), p.tv(), 1, 0);
        for (int i = 0; i < steps; i++) push->PushParticle(&l);
        requireV(V3(l.GetMomentum()), V3(plain.GetMomentum()), 1e-7L, 0, k ? "momentum, classical loss" : "momentum, quantum corrected loss");
        requireV(V3(l.GetPosition()), V3(plain.GetPosition()), 0, 1e-7L * dt * steps, k ? "position, classical loss" : "position, quantum corrected loss");
    }
}

PROPERTY(nothing_without_a_field, 20000, 500000, "every case")
{
    V3 p = V3((gen::direction(g) * g.logu(1e-3, 1e5)).tv()), x(g.sreal(5), g.sreal(5), g.sreal(5));
    x = V3(x.tv());
    double dt = g.logu(1e-4, 10), q = g.coin() ? -1 : 1; int steps = (int)g.integer(1, 20);
    g.note("p", str(p)); g.note("x", str(x)); g.note("dt", dt); g.note("charge", q);
    g.nontrivial();
    StaticEMField f(ThreeVector(0, 0, 0), ThreeVector(0, 0, 0));
    for (int k = 0; k < 2; k++)
    {
        std::unique_ptr<ParticlePusher> push(k ? (ParticlePusher*)new LandauPusher(&f, dt) : (ParticlePusher*)new ModifiedLandauPusher(&f, dt));
        Lepton l(1, q, x.tv(), p.tv());
        for (int i = 0; i < steps; i++) push->PushParticle(&l);
        requireV(V3(l.GetMomentum()), p, 1e-14L, 0, "momentum without a field");
        requireV(V3(l.GetPosition()), x + p * (dt * steps / gammaOf(p, 1)), 1e-13L, 1e-13L * (1 + dt * steps), "position without a field");
    }
}

PBT_MAIN
