// C23: the pair creation rate and energy split follow the nonlinear Breit-Wheeler law.
// LIBS: PhysicsQED Particles Tools
#include "converter.hh"
using namespace pbt;

PROPERTY(conversion_probability, 600, 20000, "between 3 and 60 steps to the conversion on average")
{
    Setup s = drawPhoton(g, 0.02, 900, 2.1, 1e6);
    double rate = theory::pairRate(2 * s.chi, s.k), per = g.logu(0.015, 2), dt = per / rate;
    const int n = 12000;
    g.note("rate times dt", per);
    if (per > 1. / 60 && per < 1. / 3) g.nontrivial();
    MCTools::SetSeed(g.seed());
    NonLinearBreitWheeler bw(&theField(), dt, false);
    ParticleList list("pairs", 2 * n + 10);
    int limit = (int)(12 / per) + 2;
    std::vector<int> count(limit + 2);
    for (int i = 0; i < n; i++)
    {
        Photon ph(s.x.tv(), s.p.tv(), s.w, s.t);
        int k = 1;
        for (; k <= limit; k++) { bw.Interact(&ph, &list); if (!ph.IsAlive()) break; }
        count[std::min(k, limit + 1)]++;
    }
    double cum = 0, worst = 0, m = 0; int at = 0;
    for (int k = 1; k <= limit + 1; k++)
    {
        cum += count[k]; m += (double)k * count[k];
        double d = k <= limit ? std::fabs(cum / n - (1 - std::exp(-per * k))) : 0;
        if (d > worst) { worst = d; at = k; }
    }
    m /= n;
    require(worst <= stats::ksLimit(n), "after ", at, " steps the share that has converted is off by ", worst, " from the exponential law at the rate ", rate, "; mean step ", m);
    double q = std::exp(-per), want = 1 / (1 - q), sd = std::sqrt(q) / (1 - q) / std::sqrt(n);
    require(std::fabs(m - want) <= 7.5 * sd + 0.01 * want, "a photon converts in step ", m, " on average instead of ", want);
}

PROPERTY(step_division, 300, 8000, "more than 3 divisions")
{
    Setup s = drawPhoton(g, 0.03, 900, 2.1, 1e6);
    double rate = theory::pairRate(2 * s.chi, s.k), prob = g.real(0.1, 3), T = prob / rate;
    int k = (int)g.integer(2, 25), n = 15000;
    g.note("rate times T", prob); g.note("divisions", k);
    if (k > 3) g.nontrivial();
    MCTools::SetSeed(g.seed());
    NonLinearBreitWheeler one(&theField(), T, false), many(&theField(), T / k, false);
    int a = 0, b = 0;
    ParticleList list("pairs", 4 * n + 10);
    for (int i = 0; i < n; i++)
    {
        Photon p(s.x.tv(), s.p.tv()), q(s.x.tv(), s.p.tv());
        one.Interact(&p, &list); a += !p.IsAlive();
        for (int j = 0; j < k && q.IsAlive(); j++) many.Interact(&q, &list);
        b += !q.IsAlive();
    }
    double want = 1 - std::exp(-prob), sd = std::sqrt(want * (1 - want) / n);
    require(std::fabs(a / double(n) - want) <= 7.5 * sd + 0.005, "in one step the share ", a / double(n), " converted instead of ", want);
    require(std::fabs(b / double(n) - want) <= 7.5 * sd + 0.005, "in ", k, " steps the share ", b / double(n), " converted instead of ", want);
}

PROPERTY(rate_over_the_range, 60000, 2000000, "a field with an electric and a magnetic part")
{
    Setup s = drawPhoton(g, 0.02, 1e5, 2.01, 1e7);
    double rate = theory::pairRate(2 * s.chi, s.k);
    if (mag(theField().e) > 0 && mag(theField().b) > 0) g.nontrivial();
    double dt = std::pow(1000, std::floor(std::log10(1e-3 / rate) / 3));
    ParticleList list("pairs", 10);
    MCTools::SetSeed(g.seed());
    Photon p(s.x.tv(), s.p.tv(), s.w, s.t);
    double before = p.GetOpticalDepth();
    if (before < 0.005) throw Discard();    // would convert, which the table of the split allows up to chi = 1000 only
    breitWheeler(dt).Interact(&p, &list);
    if (!p.IsAlive() || p.GetOpticalDepth() == before) throw Discard();
    double used = before - p.GetOpticalDepth();
    require(near(used, rate * dt, 0.01, 2e-15 * before), "in a step of ", dt, " the optical depth fell by ", used, " instead of ", rate * dt);
}

// far below the threshold field nothing happens in any reasonable time
PROPERTY(weak_fields, 20000, 500000, "every case")
{
    Setup s = drawPhoton(g, 1e-12, 8e-3, 2.01, 1e7);
    double dt = std::pow(1000, (double)g.integer(-1, 6));
    g.note("dt", dt); g.nontrivial();
    MCTools::SetSeed(g.seed());
    ParticleList list("pairs", 10);
    Photon p(s.x.tv(), s.p.tv(), s.w, s.t);
    for (int i = 0; i < 5; i++) breitWheeler(dt).Interact(&p, &list);
    require(p.IsAlive() && list.GetNPart() == 0, "a photon with chi = ", s.chi, " converted within ", 5 * dt);
    // and it stays convertible
    double k = s.k; V3 n = unit(s.p);
    theField().e = V3(); theField().b = perp(n) * (2 * 1.0 / k);
    breitWheeler(1e40).Interact(&p, &list);
    require(!p.IsAlive() && list.GetNPart() == 2, "after a weak field the photon does not convert any more");
}

// along and against a wave: co-propagating gives nothing, head-on twice the field
PROPERTY(plane_wave_geometry, 20000, 500000, "a direction between along and against")
{
    V3 d = gen::direction(g); if (turnSlack(d) > 1e-9L) throw Discard();
    double amp = g.logu(1e-4, 10), l = g.logu(1, 1e4), pol = g.real(-4, 4), ang = g.chance(30) ? 0 : g.chance(30) ? M_PI : g.real(0, M_PI), phi = g.real(0, 6.3);
    V3 u = perp(d), v = cross(d, u), n = unit(d * std::cos((long double)ang) + (u * std::cos((long double)phi) + v * std::sin((long double)phi)) * std::sin((long double)ang));
    double k = g.logu(3, 1e6);
    V3 x(g.sreal(l), g.sreal(l), g.sreal(l)); double t = g.sreal(l);
    g.note("direction", str(d)); g.note("amplitude", amp); g.note("angle", ang); g.note("k", k);
    PlaneEMField w(amp, l, pol, d.tv());
    FieldAt f = fieldAt(&w, t, x);
    Switch& sw = theField(); sw.f = &w;
    struct Back { ~Back() { theField().f = nullptr; } } back;
    long double trans = mag(f.e) * (1 - std::cos((long double)ang));      // what a photon at this angle feels
    double kappa = (double)(k * trans);
    if (ang > 0.1 && ang < 3.1) g.nontrivial();
    ParticleList list("pairs", 10);
    Photon p(x.tv(), (n * k).tv(), 1, t);
    MCTools::SetSeed(g.seed());
    if (kappa < 0.04 || mag(f.e) < 1e-3 * amp)
    {
        if (kappa > 0.014) throw Discard();
        for (int i = 0; i < 3; i++) breitWheeler(1e12).Interact(&p, &list);
        require(p.IsAlive(), "a photon that feels hardly any field (kappa = ", kappa, ") converted");
        return;
    }
    if (kappa > 1800) throw Discard();
    double rate = theory::pairRate(kappa, k), dt = std::pow(1000, std::floor(std::log10(1e-3 / rate) / 3)), before = p.GetOpticalDepth();
    breitWheeler(dt).Interact(&p, &list);
    if (!p.IsAlive() || p.GetOpticalDepth() == before) throw Discard();
    require(near(before - p.GetOpticalDepth(), rate * dt, 0.012, 2e-15 * before), "at the angle ", ang, " to the wave the optical depth fell by ", before - p.GetOpticalDepth(), " instead of ", rate * dt);
}

PROPERTY(energy_split, 900, 30000, "chi between the first and the last entry of the table")
{
    Setup s = drawPhoton(g, 0.006, 990, 10, 1e6);
    const int n = 15000;
    g.nontrivial();
    theory::PairShare sp = theory::pairShare(2 * s.chi);
    MCTools::SetSeed(g.seed());
    ParticleList list("pairs", 2 * n);
    std::vector<double> share;
    for (int i = 0; i < n; i++)
    {
        Photon p(s.x.tv(), s.p.tv());
        breitWheeler(1e300).Interact(&p, &list);
        require(list.GetNPart() == 2u * (i + 1), "no pair in an endless step");
        Particle* q = list.GetParticle(2 * i); if (q->GetCharge() < 0) q = list.GetParticle(2 * i + 1);
        share.push_back((q->GetEnergy() - 1) / (s.k - 2));
    }
    // the table has a hundred entries of the share: its steps are worth up to one percent
    double d = stats::ks(share, [&](double x) { return sp.cdf(x); });
    require(d <= stats::ksLimit(n) + 0.012, "the positron's share at chi = ", s.chi, " differs from the tabulated spectrum by ", d);
    std::vector<double> m; for (double x : share) m.push_back(1 - x);
    d = stats::ks(m, [&](double x) { return sp.cdf(x); });
    require(d <= stats::ksLimit(n) + 0.012, "the electron's share at chi = ", s.chi, " differs from the tabulated spectrum by ", d);
}

// the higher chi the less evenly the pair shares the energy, without jumps on the way:
// samples of one seed are compared between neighbouring values of chi
PROPERTY(split_varies_smoothly, 250, 6000, "every case")
{
    double k = g.logu(50, 1e6), chi0 = g.logu(0.0105, 700), ratio = g.logu(1.01, 1.3);
    unsigned seed = g.seed();
    const int n = 3000, steps = 8;
    g.note("photon energy", k); g.note("chi from", chi0); g.note("to", chi0 * ratio);
    g.nontrivial();
    V3 dir = gen::direction(g), across = perp(dir);
    std::vector<double> last;
    double was = 0, before = 0;
    for (int j = 0; j <= steps; j++)
    {
        double chi = chi0 * std::pow(ratio, double(j) / steps);
        theField().e = V3(); theField().b = across * (2 * chi / k);
        MCTools::SetSeed(seed);
        ParticleList list("pairs", 2 * n);
        std::vector<double> now;
        for (int i = 0; i < n; i++)
        {
            Photon p(V3().tv(), (dir * k).tv());
            breitWheeler(1e300).Interact(&p, &list);
            require(list.GetNPart() == 2u * (i + 1), "no pair in an endless step");
            now.push_back(std::fabs((list.GetParticle(2 * i)->GetEnergy() - 1) / (k - 2) - 0.5));
        }
        double mean = 0; for (double x : now) mean += x / n;
        if (j > 0)
        {
            double d = 0, d2 = 0;
            for (int i = 0; i < n; i++) { double e = now[i] - last[i]; d += e / n; d2 += e * e / n; }
            double noise = 7.5 * std::sqrt(std::max(0.0, d2 - d * d) / n);
            require(d >= -noise - 2e-5, "from chi = ", before, " to ", chi, " the split becomes more even: its mean distance from a half falls from ", was, " to ", mean);
            require(d <= noise + 0.06 * std::log(chi / before) + 1e-4, "from chi = ", before, " to ", chi, " the split jumps: its mean distance from a half goes from ", was, " to ", mean);
        }
        last = now; was = mean; before = chi;
    }
}

PBT_MAIN
