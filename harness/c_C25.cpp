// C25: particle sources produce the requested beam.
// LIBS: PhysicsQED Particles Tools
#include "phys.hh"
#include <malloc.h>
using namespace pbt;
// each event's list reserves 8 MB: keep that memory instead of asking the system for it every time
static bool keepMemory = mallopt(M_MMAP_THRESHOLD, 1 << 28) && mallopt(M_TRIM_THRESHOLD, 1 << 30);

struct Beam { std::string type, distro; unsigned n; double e1, e2, radius, duration, divergence; V3 pos, dir; bool track; };
static Beam drawBeam(Gen& g, unsigned nLo, unsigned nHi)
{
    Beam b;
    b.type = g.pick({"Electron", "electron", "Positron", "positron", "Photon", "photon"});
    b.distro = g.pick({"mono", "Mono", "gaussian", "Gaussian", "linear", "Linear"});
    b.n = (unsigned)std::llround(g.logu(nLo, nHi));
    b.e1 = g.logu(0.1, 1e5);
    b.e2 = (b.distro[0] == 'g' || b.distro[0] == 'G') ? b.e1 * g.real(0, 0.1) : b.e1 * g.real(0.2, 3);
    b.radius = g.chance(30) ? 0 : g.logu(1e-3, 1e6);
    b.duration = g.chance(30) ? 0 : g.logu(1e-3, 1e6);
    b.divergence = g.chance(30) ? 0 : g.chance(25) ? g.real(0.3, 2.5) : g.logu(1e-4, 0.5);
    b.pos = g.chance(30) ? V3() : V3(g.sreal(1e3), g.sreal(1e3), g.sreal(1e3)); b.pos = V3(b.pos.tv());
    b.dir = gen::direction(g) * (g.coin() ? 1 : g.logu(1e-2, 1e2)); b.dir = V3(b.dir.tv());
    b.track = g.coin();
    g.note("type", b.type); g.note("distribution", b.distro); g.note("n", b.n); g.note("energy1", b.e1); g.note("energy2", b.e2); g.note("radius", b.radius);
    g.note("duration", b.duration); g.note("divergence", b.divergence); g.note("position", str(b.pos)); g.note("direction", str(b.dir)); g.note("tracking", b.track);
    return b;
}
static SourceGenerator* make(const Beam& b)
{ return new SourceGenerator(b.type, b.distro, b.n, b.e1, b.e2, b.radius, b.duration, b.divergence, b.pos.tv(), b.dir.tv(), b.track); }

// one particle per event, of the kind asked for, in the numbers asked for
PROPERTY(numbers_and_kinds, 6000, 200000, "more than one particle")
{
    Beam b = drawBeam(g, 1, 30);
    if (b.n > 1) g.nontrivial();
    // the generator's lists reserve room for a million particles: few at a time
    std::unique_ptr<SourceGenerator> s(make(b));
    require(s->GetSourceNumber() == b.n, "the source announces ", s->GetSourceNumber(), " particles instead of ", b.n);
    std::set<std::string> seen;
    for (unsigned i = 0; i < b.n; i++)
    {
        ParticleList* l = s->GenerateList();
        require(l != nullptr && l->GetNPart() == 1, "event ", i, " has ", l ? (long)l->GetNPart() : -1, " particles");
        Particle* p = l->GetParticle(0);
        std::string kind = b.type; kind[0] = toupper(kind[0]);
        require(p->GetName() == kind, "event ", i, " has a ", p->GetName(), " instead of a ", kind);
        require(p->GetCharge() == (kind == "Electron" ? -1 : kind == "Positron" ? 1 : 0), kind, " with the charge ", p->GetCharge());
        require(p->GetMass() == (kind == "Photon" ? 0 : 1), kind, " with the mass ", p->GetMass());
        require(p->GetWeight() == 1 && p->GetTime() == 0 && p->IsAlive(), "a particle of the source has the weight ", p->GetWeight(), " and the time ", p->GetTime());
        require(p->GetTracking() == b.track, "tracking was ", b.track, ", the particle has ", p->GetTracking());
        require(p->GetTimeHist().empty(), "a new particle has a track");
        V3 x(p->GetPosition()), m(p->GetMomentum());
        if (b.radius == 0 && b.duration == 0) requireV(x, b.pos, 1e-15L, 0, "position of a particle from a point source");
        if (b.divergence == 0) requireV(unit(m), unit(b.dir) * (mag(m) > 0 && dot(m, b.dir) < 0 ? -1 : 1), 0, 1e-13L + turnSlack(unit(b.dir)), "direction of a particle without divergence");
        if (b.distro == "mono" || b.distro == "Mono") require(near((double)mag(m), b.e1, 1e-13 + (double)turnSlack(unit(b.dir))), "a mono-energetic source of ", b.e1, " gave ", (double)mag(m));
        if (b.distro == "linear" || b.distro == "Linear")
        {
            double lo = std::min(b.e1, b.e2), hi = std::max(b.e1, b.e2);
            require(mag(m) >= lo * (1 - 1e-12 - turnSlack(unit(b.dir))) && mag(m) <= hi * (1 + 1e-12 + turnSlack(unit(b.dir))), "a source from ", b.e1, " to ", b.e2, " gave ", (double)mag(m));
        }
        if (b.radius > 0) require(seen.insert(str(x)).second, "two particles of one source are at the same place");
        s->FreeSources(l);
    }
    if (g.chance(6))
    {
        g.label("depleted");
        Outcome o = runForked([&]() { s->GenerateList(); return 0; });
        require(o.code != 0 && o.sig == 0 && !o.timeout && o.err.find("Sanitizer") == std::string::npos, "after ", b.n, " particles the source still gave one (status ", o.code, ", signal ", o.sig, ")");
        require(!(o.err + o.out).empty(), "the depleted source gave no diagnostic");
    }
}

PROPERTY(unknown_kinds, 200, 4000, "every case")
{
    Beam b = drawBeam(g, 1, 10);
    g.nontrivial();
    b.type = g.pick({"", "Muon", "ELECTRON", "Electrons", "electron ", "Gamma", "pHoton", "Proton", "None"});
    g.note("kind", b.type);
    Outcome o = runForked([&]() { std::unique_ptr<SourceGenerator> s(make(b)); s->FreeSources(s->GenerateList()); return 0; });
    require(o.code != 0 && o.sig == 0 && !o.timeout && o.err.find("Sanitizer") == std::string::npos, "a source of \"", b.type, "\" was accepted, or crashed (status ", o.code, ", signal ", o.sig, ")");
    require(!(o.err + o.out).empty(), "a source of \"", b.type, "\" was refused without a diagnostic");
}

static double normCdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static void scatter(std::vector<double> v, double sigma, double slack, const std::string& what)
{
    int n = (int)v.size();
    std::set<double> own(v.begin(), v.end()); require(own.size() > 0.9 * n, what, ": ", n, " particles have only ", own.size(), " different values");
    double d = stats::ks(v, [&](double x) { return normCdf(x / sigma); });
    require(d <= stats::ksLimit(n) + slack, what, " differs from a normal distribution of width ", sigma, " by ", d, " (n = ", n, ")");
}

PROPERTY(distributions, 160, 6000, "radius, duration or divergence set, and a direction off the axes")
{
    Beam b = drawBeam(g, 1500, 5000);
    V3 n = unit(b.dir), u = perp(n), w = cross(n, u);
    // u, w: any two directions across the beam
    long double tu = g.real(0, 6.28); V3 u2 = turn(u, n, tu), w2 = cross(n, u2); u = u2; w = w2;
    if ((b.radius > 0 || b.duration > 0 || b.divergence > 0) && std::fabs(n.x) < 0.999L && std::fabs(n.y) < 0.999L && std::fabs(n.z) < 0.999L) g.nontrivial();
    long double sl = turnSlack(n);
    MCTools::SetSeed(g.seed());
    std::vector<Particle*> ps; std::vector<ParticleList*> ls;
    SourceGenerator s(b.type, b.distro, b.n, b.e1, b.e2, b.radius, b.duration, b.divergence, b.pos.tv(), b.dir.tv(), b.track);
    std::vector<double> xu, xw, xl, ang, phi, en, du;
    for (unsigned i = 0; i < b.n; i++)
    {
        ParticleList* l = s.GenerateList();
        Particle* p = l->GetParticle(0);
        V3 x = V3(p->GetPosition()) - b.pos, m(p->GetMomentum());
        xu.push_back((double)dot(x, u)); xw.push_back((double)dot(x, w)); xl.push_back((double)dot(x, n));
        V3 d = unit(m);
        if (p->GetEnergy() > 0 && mag(m) > 0) { du.push_back((double)dot(d, u)); ang.push_back((double)std::atan2(mag(cross(n, d)), dot(n, d))); phi.push_back((double)std::atan2(dot(d, w), dot(d, u))); }
        en.push_back((double)mag(m));
        s.FreeSources(l);
    }
    double mix = (double)(sl * (b.radius + b.duration));
    if (b.radius > 0 && mix < 1e-3 * b.radius && mag(b.pos) * 1e-15L < 1e-4L * b.radius)
    {
        scatter(xu, b.radius, 0, "the position across the beam");
        scatter(xw, b.radius, 0, "the position across the beam");
        // not along a line: the two directions across are independent
        double c = 0; for (size_t i = 0; i < xu.size(); i++) c += xu[i] * xw[i]; c /= xu.size() * b.radius * b.radius;
        require(std::fabs(c) <= 7.5 / std::sqrt(b.n), "the positions across the beam are correlated: ", c);
    } else if (b.radius == 0) for (double v : xu) require(std::fabs(v) <= 1e-14 * (double)mag(b.pos) + 1e-13 * b.duration + mix, "a source without radius scatters across the beam by ", v);
    if (b.duration > 0 && mix < 1e-3 * b.duration && mag(b.pos) * 1e-15L < 1e-4L * b.duration) scatter(xl, b.duration, 0, "the position along the beam");
    else if (b.duration == 0) for (double v : xl) require(std::fabs(v) <= 1e-14 * (double)mag(b.pos) + 1e-13 * b.radius + mix, "a source without duration scatters along the beam by ", v);
    if (b.divergence > 0 && sl < 1e-3L * b.divergence)
    {
        // the polar angle is half-normal, folded back beyond the opposite direction; the azimuth uniform
        double d = stats::ks(ang, [&](double a) {
            double c = 0;
            for (int k = -4; k <= 4; k++) c += normCdf((2 * k * M_PI + a) / b.divergence) - normCdf((2 * k * M_PI - a) / b.divergence);
            return std::min(1.0, c);
        });
        require(d <= stats::ksLimit(ang.size()), "the angle to the beam differs from the divergence ", b.divergence, " by ", d);
        std::vector<double> q; for (double p : phi) q.push_back(p);
        d = stats::ks(q, [&](double p) { return (p + M_PI) / (2 * M_PI); });
        require(d <= stats::ksLimit(q.size()), "the directions are not spread evenly about the beam: ", d);
        // positions and directions are independent
        if (b.radius > 0) { double c = 0, nn = 0; for (size_t i = 0; i < du.size(); i++) { c += xu[i] * du[i]; nn += du[i] * du[i]; } c /= std::sqrt(nn * du.size()) * b.radius; require(std::fabs(c) <= 9 / std::sqrt(b.n), "position and direction are correlated: ", c); }
    }
    bool gauss = b.distro[0] == 'g' || b.distro[0] == 'G', lin = b.distro[0] == 'l' || b.distro[0] == 'L';
    double rel = 1e-12 + (double)sl;
    if (gauss && b.e2 > 1e4 * rel * b.e1)
    {
        double d = stats::ks(en, [&](double e) { return normCdf((e - b.e1) / b.e2); });
        std::set<double> own(en.begin(), en.end()); require(own.size() > 0.99 * en.size(), "a normal spectrum of ", en.size(), " particles has only ", own.size(), " different energies");
        require(d <= stats::ksLimit(b.n), "the energies differ from a normal distribution about ", b.e1, " of width ", b.e2, " by ", d);
    } else if (lin && std::fabs(b.e2 - b.e1) > 1e4 * rel * b.e1)
    {
        double lo = std::min(b.e1, b.e2), hi = std::max(b.e1, b.e2);
        double d = stats::ks(en, [&](double e) { return std::min(1.0, std::max(0.0, (e - lo) / (hi - lo))); });
        // every particle has its own draw
        std::set<double> own(en.begin(), en.end()); require(own.size() > 0.99 * en.size(), "a linear spectrum of ", en.size(), " particles has only ", own.size(), " different energies");
        require(d <= stats::ksLimit(b.n), "the energies differ from a uniform distribution between ", b.e1, " and ", b.e2, " by ", d);
    } else if (!gauss && !lin) for (double e : en) require(near(e, b.e1, 1e-13 + (double)sl), "a mono-energetic source of ", b.e1, " gave ", e);
    // energies do not depend on where in the beam a particle starts
    if ((gauss && b.e2 > 1e-6 * b.e1) || lin)
        if (b.duration > 0) { double me = 0, se = 0, c = 0; for (double e : en) me += e; me /= b.n; for (double e : en) se += (e - me) * (e - me); for (size_t i = 0; i < en.size(); i++) c += (en[i] - me) * xl[i];
            if (se > 0) { c /= std::sqrt(se * b.n) * b.duration; require(std::fabs(c) <= 9 / std::sqrt(b.n), "energy and position along the beam are correlated: ", c); } }
}

// turning the requested direction turns the beam as a whole
PROPERTY(turned_beams, 2000, 80000, "radius, duration and divergence set")
{
    Beam b = drawBeam(g, 5, 20);
    if (b.radius > 0 && b.duration > 0 && b.divergence > 0) g.nontrivial();
    Beam c = b; c.dir = V3((gen::direction(g)).tv()); g.note("second direction", str(c.dir));
    int seed = g.seed();
    MCTools::SetSeed(seed); std::unique_ptr<SourceGenerator> s(make(b));
    MCTools::SetSeed(seed); std::unique_ptr<SourceGenerator> t(make(c));
    V3 n1 = unit(b.dir), n2 = unit(c.dir);
    long double sl = turnSlack(n1) + turnSlack(n2);
    std::vector<V3> xs, ys, ds, es;
    for (unsigned i = 0; i < b.n; i++)
    {
        ParticleList *l = s->GenerateList(), *k = t->GenerateList();
        V3 x = V3(l->GetParticle(0)->GetPosition()) - b.pos, y = V3(k->GetParticle(0)->GetPosition()) - b.pos, d(l->GetParticle(0)->GetMomentum()), e(k->GetParticle(0)->GetMomentum());
        xs.push_back(x); ys.push_back(y); ds.push_back(unit(d)); es.push_back(unit(e));
        s->FreeSources(l); t->FreeSources(k);
        long double sx = (mag(x) + mag(y)) * (1e-12L + sl) + mag(b.pos) * 1e-14L;
        require(std::fabs(dot(x, n1) - dot(y, n2)) <= sx, "turning the beam changed a position along it from ", (double)dot(x, n1), " to ", (double)dot(y, n2));
        require(std::fabs(mag(x) - mag(y)) <= sx, "turning the beam changed a distance from its centre");
        require(std::fabs(mag(d) - mag(e)) <= mag(d) * (1e-12L + sl), "turning the beam changed an energy");
        if (mag(d) > 0) require(std::fabs(dot(unit(d), n1) - dot(unit(e), n2)) <= 1e-12L + sl, "turning the beam changed an angle to it");
        if (i) require(std::fabs(dot(ds[i], ds[i - 1]) - dot(es[i], es[i - 1])) <= 1e-12L + 2 * sl, "turning the beam changed the angle between two particles");
        if (i) require(std::fabs(mag(xs[i] - xs[i - 1]) - mag(ys[i] - ys[i - 1])) <= 2 * sx + (mag(xs[i - 1]) + mag(ys[i - 1])) * (1e-12L + sl), "turning the beam changed the distance between two particles");
    }
}

PBT_MAIN
