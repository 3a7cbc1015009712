// C13: charged particles follow the Lorentz force; photons fly straight at c.
// LIBS: PhysicsQED Particles Tools
#include "motion.hh"
using namespace pbt;

struct Part { double m, q; V3 x, p; double t; Lepton* l; ~Part() { delete l; } };
static void draw(Gen& g, Part& a, double pLo, double pHi, bool track = false)
{
    a.m = g.chance(70) ? 1 : g.logu(0.1, 2000); a.q = g.coin() ? -1 : 1;
    a.x = g.chance(30) ? V3() : V3(g.sreal(10), g.sreal(10), g.sreal(10));
    a.p = gen::direction(g) * (a.m * g.logu(pLo, pHi));
    if (g.chance(8)) { a.p = V3(); g.label("at rest"); }
    a.t = g.chance(50) ? 0 : g.sreal(5);
    a.x = V3(a.x.tv()); a.p = V3(a.p.tv());
    a.l = new Lepton(a.m, a.q, a.x.tv(), a.p.tv(), 1, a.t, track);
    g.note("mass", a.m); g.note("charge", a.q); g.note("x", str(a.x)); g.note("p", str(a.p)); g.note("t", a.t);
}

PROPERTY(uniform_magnetic_field, 60000, 2000000, "a momentum with components along and across the field")
{
    Part a; draw(g, a, 1e-3, 1e4);
    V3 n = gen::direction(g); double B = g.logu(1e-4, 1e3);
    long double gm = gammaOf(a.p, a.m), om = B / (a.m * gm);
    int steps = (int)g.integer(1, 30); double turnStep = g.logu(1e-3, 0.2);
    double dt = turnStep / (double)om;
    g.note("B", str(n * B)); g.note("turn per step", turnStep); g.note("steps", steps);
    StaticEMField f(ThreeVector(0, 0, 0), (n * B).tv());
    LorentzPusher push(&f, dt);
    for (int i = 0; i < steps; i++) push.PushParticle(a.l);
    V3 pl = n * dot(a.p, n), pt = a.p - pl;
    if (mag(pl) > 1e-3L * mag(a.p) && mag(pt) > 1e-3L * mag(a.p)) g.nontrivial();
    long double T = (long double)dt * steps, ph = -a.q * om * T;    // dp/dt = q v x B turns p by -q om about n
    V3 p = pl + turn(pt, n, ph);
    V3 v = a.p / (a.m * gm), vt = v - n * dot(v, n);
    // the integral of the turned velocity
    long double w = ph / T;
    V3 x = a.x + n * (dot(v, n) * T) + (std::sin(ph) / w) * vt + ((1 - std::cos(ph)) / w) * cross(n, vt);
    long double err = steps * std::pow((long double)turnStep, 5.0L) / 60;
    requireV(V3(a.l->GetMomentum()), p, 0, (err + 1e-13L * steps) * mag(a.p), "momentum after a gyration");
    requireV(V3(a.l->GetPosition()), x, 0, (err * std::max(1.0, turnStep * steps) + 1e-13L * steps) * mag(v) / om + 1e-14L * steps * (mag(a.x) + mag(v) * T), "position after a gyration");
    require(std::fabs(mag(V3(a.l->GetMomentum())) - mag(a.p)) <= (err + 1e-13L * steps) * mag(a.p), "a magnetic field changed the energy");
}

PROPERTY(uniform_electric_field, 60000, 2000000, "a momentum that is not along the field")
{
    Part a; draw(g, a, 1e-3, 1e3);
    V3 n = gen::direction(g); double E = g.logu(1e-4, 1e3);
    long double en = a.m * gammaOf(a.p, a.m);
    int steps = (int)g.integer(1, 30); double kick = g.logu(1e-3, 0.3);
    double dt = kick * a.m / E;
    g.note("E", str(n * E)); g.note("kick per step", kick); g.note("steps", steps);
    V3 Ev((n * E).tv());
    StaticEMField f(Ev.tv(), ThreeVector(0, 0, 0));
    LorentzPusher push(&f, dt);
    for (int i = 0; i < steps; i++) push.PushParticle(a.l);
    if (mag(cross(n, a.p)) > 1e-3L * mag(a.p)) g.nontrivial();
    long double T = (long double)dt * steps;
    V3 F = (long double)a.q * Ev, p = a.p + F * T;
    requireV(V3(a.l->GetMomentum()), p, 1e-13L * steps, 1e-14L * steps * mag(F) * T, "momentum");
    // x(T): the integral of p/energy, exactly
    long double F0 = mag(F); V3 u = F / F0;
    long double p0 = dot(a.p, u), pT = p0 + F0 * T, e1 = a.m * gammaOf(p, a.m);
    V3 across = a.p - u * p0;
    long double mt = std::sqrt(a.m * (long double)a.m + dot(across, across));
    // asinh differences, without cancellation
    long double rap = std::asinh(pT / mt) - std::asinh(p0 / mt);
    long double along = (pT - p0) * (pT + p0) / (e1 + en) / F0;
    V3 x = a.x + u * along + across * (rap / F0);
    long double err = steps * std::pow((long double)kick, 5.0L) / 8;
    requireV(V3(a.l->GetPosition()), x, 0, (err + 1e-13L * steps) * a.m / F0 + 1e-13L * T + 1e-14L * steps * mag(a.x), "position");
    // electric work
    long double work = dot(F, V3(a.l->GetPosition()) - a.x);
    require(std::fabs((e1 - en) - work) <= err * a.m + 1e-12L * (e1 + en) + 1e-13L * F0 * mag(a.x) * steps, "the energy gain ", (double)(e1 - en), " is not the electric work ", (double)work);
}

struct AnyField { EMField* f = nullptr; double rate; ~AnyField() { delete f; } };   // rate: largest field and frequency
static void draw(Gen& g, AnyField& a, double reach)
{
    unsigned k = g.draw(3);
    double amp = g.logu(1e-3, 10), l = g.logu(3, 300);
    V3 d = gen::direction(g);
    if (k == 0)
    {
        V3 e = gen::direction(g) * (g.chance(20) ? 0 : amp), b = gen::direction(g) * (g.chance(20) ? 0 : g.logu(1e-3, 10));
        a.f = new StaticEMField(e.tv(), b.tv()); a.rate = (double)(mag(e) + mag(b)) + 1e-3;
        g.note("static E", str(e)); g.note("B", str(b));
        return;
    }
    double pol = g.real(-4, 4);
    g.note("amplitude", amp); g.note("wavelength", l); g.note("polarisation", pol); g.note("direction", str(d));
    double freq = 6.3 / l;
    if (k == 1) { g.note("field", "plane"); a.f = new PlaneEMField(amp, l, pol, d.tv()); a.rate = 2 * amp + 2 * freq; return; }
    double tau = l * g.real(1, 10), w = l * g.real(1, 6), dist = g.real(1, 20);
    V3 focus(g.sreal(reach), g.sreal(reach), g.sreal(reach));
    g.note("duration", tau); g.note("waist", w); g.note("distance", dist); g.note("focus", str(focus));
    g.note("field", k == 2 ? "gaussian" : "focusing");
    if (k == 2) a.f = new GaussianEMField(amp, l, tau, w, pol, (focus - d * dist).tv(), focus.tv());
    else a.f = new FocusingField(amp, l, tau, w, pol, (focus - d * dist).tv(), focus.tv());
    a.rate = 2 * amp + 4 * (freq + 2 / tau);
}

PROPERTY(any_field_against_reference, 12000, 400000, "a particle whose momentum the field changes by more than a thousandth")
{
    AnyField A; draw(g, A, 10);
    Part a; draw(g, a, 1e-2, 100);
    // how fast anything changes: the force against the momentum or mass, the field as seen on the way
    double m = a.m, rate = A.rate / std::min(1.0, m) ;
    double sub = g.logu(2e-3, 0.08), dt = sub / rate;
    int steps = (int)g.integer(1, 20);
    g.note("dt", dt); g.note("steps", steps);
    LorentzPusher push(A.f, dt);
    State s = reference(A.f, {a.x, a.p, a.t}, a.m, a.q, (long double)dt * steps, steps * 8);
    for (int i = 0; i < steps; i++) push.PushParticle(a.l);
    if (mag(s.p - a.p) > 1e-3L * mag(a.p)) g.nontrivial();
    long double err = steps * std::pow((long double)sub, 5.0L) * 2 + 1e-12L * steps;
    requireV(V3(a.l->GetMomentum()), s.p, 0, err * (m + mag(a.p)), "momentum against the reference integration");
    requireV(V3(a.l->GetPosition()), s.x, 0, err * (1 / rate + (long double)dt * steps) + 1e-13L * steps * (1 + mag(a.x)), "position against the reference integration");
    require(near(a.l->GetTime(), (double)s.t, 1e-12, 1e-12), "the clock shows ", a.l->GetTime(), " instead of ", (double)s.t);
}

PROPERTY(plane_wave_invariants, 30000, 1000000, "a particle that the wave moves across its direction")
{
    double amp = g.logu(1e-3, 3), l = g.logu(3, 300), pol = g.real(-4, 4); V3 d = gen::direction(g);
    d = V3(d.tv());
    g.note("amplitude", amp); g.note("wavelength", l); g.note("polarisation", pol); g.note("direction", str(d));
    PlaneEMField f(amp, l, pol, d.tv());
    Part a; draw(g, a, 1e-2, 100);
    double rate = (2 * amp + 13 / l) / std::min(1.0, a.m), sub = g.logu(2e-3, 0.08), dt = sub / rate;
    int steps = (int)g.integer(1, 100);
    g.note("dt", dt); g.note("steps", steps);
    LorentzPusher push(&f, dt);
    V3 e0 = fieldAt(&f, a.t, a.x).e, e1 = fieldAt(&f, a.t + l / 8, a.x).e;
    V3 pol1 = unit(mag(e0) > mag(e1) ? e0 : e1), pol2 = cross(d, pol1);
    V3 p0 = a.p;
    long double c0 = a.m * gammaOf(p0, a.m) - dot(p0, d);
    for (int i = 0; i < steps; i++) push.PushParticle(a.l);
    V3 p1(a.l->GetMomentum());
    if (std::fabs(dot(p1 - p0, pol1)) > 1e-3L * a.m) g.nontrivial();
    long double err = (steps * std::pow((long double)sub, 5.0L) * 2 + 1e-12L * steps + 10 * turnSlack(d) * steps * sub) * (a.m + mag(p0));
    long double c1 = a.m * gammaOf(p1, a.m) - dot(p1, d);
    require(std::fabs(c1 - c0) <= err, "energy minus momentum along the wave changed from ", (double)c0, " to ", (double)c1);
    require(std::fabs(dot(p1 - p0, pol2)) <= err, "the wave moved the particle across its polarisation by ", (double)dot(p1 - p0, pol2));
    // canonical momentum: p + qA, with A = -int E dt in a wave of the phase (distance - time)
    V3 x1(a.l->GetPosition());
    auto vecA = [&](long double t, V3 x) {   // from the field a quarter wavelength on
        V3 q = fieldAt(&f, t, x + d * (l / 4.0L)).e, q2 = fieldAt(&f, t, x - d * (l / 4.0L)).e;
        return dot(q - q2, pol1) / 2 * l / (2 * PIL);
    };
    // the sign follows from dA/dt = -E
    long double h = l / 1000.0L, dA = (vecA(a.t + h, a.x) - vecA(a.t - h, a.x)) / (2 * h), eNow = dot(fieldAt(&f, a.t, a.x).e, pol1);
    long double sgn = dA * eNow > 0 ? -1 : 1;
    if (std::fabs(eNow) > 0.1L * amp)
    {
        long double lhs = dot(p1 - p0, pol1), rhs = -a.q * sgn * (vecA(a.t + (long double)dt * steps, x1) - vecA(a.t, a.x));
        require(std::fabs(lhs - rhs) <= err + 1e-11L * amp * l, "momentum along the polarisation changed by ", (double)lhs, " but the vector potential by ", (double)rhs);
    }
}

PROPERTY(opposite_charge_in_opposite_field, 30000, 1000000, "both fields present")
{
    V3 e = V3(gen::vec(g, 1e-3, 10).tv()), b = V3(gen::vec(g, 1e-3, 10).tv());
    StaticEMField f(e.tv(), b.tv()), o((-1.0L * e).tv(), (-1.0L * b).tv());
    Part a; draw(g, a, 1e-2, 100);
    Lepton other(a.m, -a.q, a.x.tv(), a.p.tv(), 1, a.t);
    double dt = g.logu(1e-4, 0.1) / (1 + (double)(mag(e) + mag(b)));
    int steps = (int)g.integer(1, 20);
    g.note("E", str(e)); g.note("B", str(b)); g.note("dt", dt); g.note("steps", steps);
    if (mag(e) > 0 && mag(b) > 0) g.nontrivial();
    LorentzPusher p1(&f, dt), p2(&o, dt);
    for (int i = 0; i < steps; i++) { p1.PushParticle(a.l); p2.PushParticle(&other); }
    requireV(V3(other.GetMomentum()), V3(a.l->GetMomentum()), 1e-12L, 0, "momentum of the opposite charge");
    requireV(V3(other.GetPosition()), V3(a.l->GetPosition()), 1e-12L, 1e-13L, "position of the opposite charge");
}

// a list is pushed like its members, photons and the dead included
PROPERTY(photons_and_the_dead, 30000, 1000000, "a list with a photon, a live and a dead particle")
{
    AnyField A; draw(g, A, 10);
    double dt = g.logu(1e-4, 1);   // a step may be too long for the radiating pushers: then leptons prove nothing here
    int steps = (int)g.integer(1, 10), n = (int)g.integer(1, 6);
    g.note("dt", dt); g.note("steps", steps);
    ParticleList list("list", 10);
    struct Want { int kind; bool dead, track; V3 x, p; double t; };
    std::vector<Want> want; std::vector<Particle*> alone;
    bool ph = false, live = false, dead = false;
    for (int i = 0; i < n; i++)
    {
        Want w; w.kind = (int)g.draw(2); w.dead = g.chance(30); w.track = g.coin();
        bool faint = w.kind == 0 && g.chance(20);   // a photon of next to no energy
        w.x = V3(V3(g.sreal(10), g.sreal(10), g.sreal(10)).tv()); w.p = V3((gen::direction(g) * (faint ? g.logu(1e-290, 1e-3) : g.logu(1e-3, 1e4))).tv()); w.t = g.sreal(5);
        g.note("kind", w.kind); g.note("dead", w.dead); g.note("x", str(w.x)); g.note("p", str(w.p)); g.note("t", w.t);
        Particle *a, *b;
        if (w.kind == 0) { a = new Photon(w.x.tv(), w.p.tv(), 1, w.t, w.track); b = new Photon(w.x.tv(), w.p.tv(), 1, w.t, w.track); }
        else { double q = w.kind == 1 ? -1 : 1; a = new Lepton(1, q, w.x.tv(), w.p.tv(), 1, w.t, w.track); b = new Lepton(1, q, w.x.tv(), w.p.tv(), 1, w.t, w.track); }
        if (w.dead) { a->Kill(); b->Kill(); dead = true; } else if (w.kind) live = true; else ph = true;
        list.AddParticle(a); alone.push_back(b); want.push_back(w);
    }
    if (ph && live && dead) g.nontrivial();
    unsigned kind = (unsigned)g.draw(2);
    g.note("pusher", kind);
    std::unique_ptr<ParticlePusher> push(kind == 0 ? (ParticlePusher*)new LorentzPusher(A.f, dt) : kind == 1 ? (ParticlePusher*)new LandauPusher(A.f, dt) : (ParticlePusher*)new ModifiedLandauPusher(A.f, dt));
    for (int s = 0; s < steps; s++) { push->PushParticleList(&list); for (auto* b : alone) push->PushParticle(b); }
    require(list.GetNPart() == want.size(), "pushing changed the number of particles");
    for (int i = 0; i < n; i++)
    {
        Particle* a = list.GetParticle(i); const Want& w = want[i];
        V3 x(a->GetPosition()), p(a->GetMomentum());
        if (x.x == x.x) requireV(x, V3(alone[i]->GetPosition()), 0, 0, "a particle in a list moved differently from the same particle alone");
        require(a->IsAlive() == !w.dead, "pushing changed whether a particle lives");
        if (w.dead)
        {
            require(mag(x - w.x) == 0 && mag(p - w.p) == 0 && a->GetTime() == w.t && a->GetTimeHist().empty(), "a dead particle changed");
        }
        else if (w.kind == 0)
        {
            requireV(p, w.p, 0, 0, "momentum of a photon");
            requireV(x, w.x + unit(w.p) * ((long double)dt * steps), 0, 1e-13L * (30 + dt * steps), "position of a photon");
            require(near(a->GetTime(), w.t + dt * steps, 1e-12, 1e-13), "clock of a photon");
        }
        delete alone[i];
    }
}

PBT_MAIN
