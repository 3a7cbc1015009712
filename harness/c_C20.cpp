// C20: emitted photon energies follow the quantum synchrotron spectrum.
// LIBS: PhysicsQED Particles Tools
#include "emitter.hh"
using namespace pbt;

static const double sure = 1e30;    // a step in which an emission is certain

PROPERTY(spectrum, 1500, 12000, "eta between the first and the last entry of the table")
{
    Setup s = drawEmitter(g, 1e-5, 9.99, 1, 1e5);
    const int n = 25000;
    if (s.eta > 1.2e-5) g.nontrivial();
    theory::Spectrum sp = theory::emissionSpectrum(s.eta);
    MCTools::SetSeed(g.seed());
    StochasticEmission& em = stochastic(sure);
    ParticleList list("photons", n);
    std::vector<double> share;
    double sum = 0, sum2 = 0;
    for (int i = 0; i < n; i++)
    {
        Lepton l(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t);
        em.Interact(&l, &list);
        require(list.GetNPart() == (unsigned)i + 1, "no photon in an endless step");
        double k = list.GetParticle(i)->GetEnergy();
        require(k > 0 && k <= s.gamma * (1 + 1e-12), "a photon of energy ", k, " from an emitter of energy ", s.gamma);
        share.push_back(k / s.gamma); sum += k / s.gamma; sum2 += k * k / s.gamma / s.gamma;
    }
    double d = stats::ks(share, [&](double x) { return sp.cdf(x); });
    require(d <= stats::ksLimit(n) + 0.001, "the spectrum at eta = ", s.eta, " differs from the quantum synchrotron spectrum by ", d, " in the cumulated share of photons");
    double m = sum / n, sd = std::sqrt(std::max(0.0, sum2 / n - m * m) / n);
    // the table takes the logarithm of the energy in steps, good to a percent
    require(std::fabs(m - sp.mean) <= 7.5 * sd + 0.015 * sp.mean, "photons carry the share ", m, " of the energy on average instead of ", sp.mean);
}

// the rare photons at both ends: the shares of them that the spectrum gives, within what the steps of the tables leave
PROPERTY(rare_photons, 120, 1200, "eta between the first and the last entry of the table")
{
    Setup s = drawEmitter(g, 1e-5, 9.99, 100, 1e5);
    const int n = 400000;
    if (s.eta > 1.2e-5) g.nontrivial();
    theory::Spectrum sp = theory::emissionSpectrum(s.eta);
    MCTools::SetSeed(g.seed());
    StochasticEmission& em = stochastic(sure);
    std::vector<double> share;
    for (int b = 0; b < n / 20000; b++)
    {
        ParticleList list("photons", 20000);
        for (int i = 0; i < 20000; i++) { Lepton l(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t); em.Interact(&l, &list); }
        require(list.GetNPart() == 20000, "no photon in an endless step");
        for (int i = 0; i < 20000; i++) share.push_back(list.GetParticle(i)->GetEnergy() / s.gamma);
    }
    for (double q : {3e-2, 1e-2, 3e-3, 1e-3, 3e-4})
        for (bool upper : {true, false})
        {
            double want = upper ? 1 - q : q, a = 1e-30, b = 1;
            for (int i = 0; i < 200; i++) { double m = std::sqrt(a * b); (sp.cdf(m) < want ? a : b) = m; }
            if (!upper && q < 0.01) continue;     // the table begins near 0.003
            double count = 0;
            for (double x : share) count += upper ? x > b : x < b;
            double mean = q * n, slack = upper ? 0.3 : 0.1;
            // next to the end point the table's steps in eta show
            bool hard = upper && s.eta > 0.3 && q < 0.02;
            require(count >= mean - 7.5 * std::sqrt(mean) - slack * mean
                && (count <= mean + 7.5 * std::sqrt(mean) + slack * mean || hard), "of the ", q, " of the photons that should have ", upper ? "more" : "less", " than ", b, " of the energy there are ", count, " instead of ", mean);
        }
}

// between neighbouring entries nothing jumps: quantiles at nearby field strengths agree
PROPERTY(continuous_in_eta, 800, 6000, "two field strengths less than a percent apart")
{
    double gamma = g.logu(10, 1e4), eta = g.logu(1.1e-5, 9.5), r = g.real(1.0001, 1.01);
    // table entries are at equal steps of the logarithm: aim at the places between
    int cell = (int)g.draw(98);
    if (g.coin()) eta = std::pow(10, -5 + 6. / 99 * (cell + 1)) * g.real(0.995, 1);
    eta = std::min(eta, 9.9);
    g.note("gamma", gamma); g.note("eta", eta); g.note("ratio", r);
    g.nontrivial();
    const int n = 20000; double p = std::sqrt(gamma * gamma - 1);
    std::vector<double> v[2];
    int seed = g.seed();
    for (int k = 0; k < 2; k++)
    {
        double e = std::min(k ? eta * r : eta, 9.99);
        theField().f = nullptr; theField().e = V3(); theField().b = V3(0, e / p, 0);
        MCTools::SetSeed(seed);
        ParticleList list("photons", n);
        for (int i = 0; i < n; i++) { Lepton l(1, -1, ThreeVector(0, 0, 0), ThreeVector(0, 0, p)); stochastic(sure).Interact(&l, &list); require(list.GetNPart() == (unsigned)i + 1, "no photon in an endless step"); v[k].push_back(list.GetParticle(i)->GetEnergy()); }
    }
    // energies grow with eta, at most in proportion; the same draws are used, so the noise is common
    double d = 0, d2 = 0, by = std::log(std::min(eta * r, 9.99) / eta);
    for (int i = 0; i < n; i++) { double e = std::log(v[1][i] / v[0][i]); d += e / n; d2 += e * e / n; }
    double noise = 7.5 * std::sqrt(std::max(0.0, d2 - d * d) / n) + 1e-5;
    require(d <= 1.12 * by + noise && d >= -noise, "photon energies jump by the factor ", std::exp(d), " when eta grows by the factor ", std::exp(by));
    for (auto& x : v) std::sort(x.begin(), x.end());
    for (double q : {0.1, 0.3, 0.5, 0.7, 0.9})
    {
        double a = v[0][(size_t)(q * n)], b = v[1][(size_t)(q * n)];
        require(b / a < r * 1.08 && b / a > 0.92, "the ", q, " quantile jumps from ", a, " to ", b, " when eta grows by the factor ", r);
    }
}

PROPERTY(beyond_the_tables, 200, 2000, "a field strength more than a tenth above the last entry")
{
    Setup s = drawEmitter(g, 10.001, 1e4, 1, 1e5);
    if (s.eta > 11) g.nontrivial();
    bool cont = g.chance(40);
    g.note("continuous", cont);
    Outcome o = runForked([&] {
        ParticleList list("photons", 10);
        Lepton l(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t);
        if (cont) continuous(1, false).Interact(&l, &list); else stochastic(sure).Interact(&l, &list);
        return 0;
    });
    require(!o.timeout && o.sig == 0, "a field strength beyond the tables ended in signal ", o.sig, ": ", o.err);
    require(o.code != 0, "a field strength of ", s.eta, ", beyond the tables, gave a photon instead of an error");
    require(!o.err.empty() || !o.out.empty(), "an error exit without a message");
}

PBT_MAIN
