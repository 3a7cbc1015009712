// C21: continuous emission radiates what the pusher takes away, unbiased by sampling.
// LIBS: PhysicsQED Particles Tools
#include "emitter.hh"
using namespace pbt;

static double fraction(Gen& g) { double f = g.chance(25) ? 1 : g.chance(10) ? 0.01 : std::round(20 * g.real(0.05, 1)) / 20; g.note("fraction", f); return f; }

PROPERTY(energy_balance, 500, 20000, "a sampling fraction below one")
{
    Setup s = drawEmitter(g, 1e-4, 9.9, 20, 1e5);
    bool classical = g.coin(); double frac = fraction(g);
    g.note("classical", classical);
    if (frac < 1) g.nontrivial();
    // a step in which the push changes little
    double force = (double)(mag(theField().e) + mag(theField().b)), loss = 2. / 3 * theory::alpha * s.eta * s.eta;
    double dt = 1e-5 * (double)mag(s.p) / std::max(force, loss);
    LorentzPusher plain(&theField(), dt);
    std::unique_ptr<ParticlePusher> rad(classical ? (ParticlePusher*)new LandauPusher(&theField(), dt) : (ParticlePusher*)new ModifiedLandauPusher(&theField(), dt));
    Lepton a(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t), b(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t);
    plain.PushParticle(&a); rad->PushParticle(&b);
    // energy taken: momentum difference along the motion times the speed
    double beta = (double)(mag(s.p) / s.gamma), taken = (double)dot(V3(a.GetMomentum()) - V3(b.GetMomentum()), unit(s.p)) * beta;
    double round = 4e-15 * s.gamma;
    if (taken < 2000 * round) { g.label("lost in rounding"); throw Discard(); }
    MCTools::SetSeed(g.seed());
    ContinuousEmission em(&theField(), dt, classical, frac);
    int n = (int)(25000 / std::max(frac, 0.1));
    ParticleList list("photons", n);
    for (int i = 0; i < n; i++) { Lepton l(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t); em.Interact(&l, &list); }
    double sum = 0, sum2 = 0, weight = 0;
    for (unsigned i = 0; i < list.GetNPart(); i++)
    {
        Particle* ph = list.GetParticle(i); double e = ph->GetEnergy() * ph->GetWeight() / s.w;
        sum += e; sum2 += e * e; weight += ph->GetWeight() / s.w;
    }
    double mean = sum / n, sd = std::sqrt(std::max(0.0, sum2 / n - mean * mean) / n);
    require(std::fabs(mean - taken) <= 7.5 * sd + 0.02 * taken, "the photons of a step carry ", mean, " per emitter (weight times energy), the push takes ", taken);
    // the expected weight: the number of photons per step, for any fraction
    double rate = classical ? theory::emissionRate(1e-7, s.gamma) / 1e-7 * s.eta : theory::emissionRate(s.eta, s.gamma);
    double w = weight / n, one = rate * dt / frac, wsd = one * std::sqrt(frac * (1 - frac) / n);
    require(std::fabs(w - rate * dt) <= 7.5 * wsd + 0.01 * rate * dt, "the expected weight per step is ", w, " instead of ", rate * dt);
    double c = list.GetNPart();
    require(std::fabs(c - n * frac) <= 7.5 * std::sqrt(n * frac * (1 - frac)) + 1e-9, c, " photons from ", n, " emitters with the sampling fraction ", frac);
}

PROPERTY(semiclassical_spectrum, 400, 15000, "eta above 1e-3")
{
    Setup s = drawEmitter(g, 1e-5, 9.9, 1, 1e5);
    const int n = 20000; double frac = g.coin() ? 1 : 0.5;
    if (s.eta > 1e-3) g.nontrivial();
    theory::Spectrum sp = theory::emissionSpectrum(s.eta);
    // a cut within the spectrum for some
    double cut = g.chance(60) ? 0 : sp.mean * s.gamma * g.logu(0.05, 1);
    g.note("fraction", frac); g.note("cut", cut);
    MCTools::SetSeed(g.seed());
    ContinuousEmission em(&theField(), 1, false, frac, cut);
    ParticleList list("photons", n);
    for (int i = 0; i < n; i++) { Lepton l(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t); em.Interact(&l, &list); }
    double pCut = cut > 0 ? sp.cdf(cut / s.gamma) : 0, m = list.GetNPart(), want = n * frac * (1 - pCut);
    require(std::fabs(m - want) <= 7.5 * std::sqrt(want * (1 - want / n) + 1) + 0.003 * n, m, " photons instead of ", want, " (cut ", cut, ", fraction ", frac, ")");
    std::vector<double> share;
    for (unsigned i = 0; i < list.GetNPart(); i++)
    {
        double e = list.GetParticle(i)->GetEnergy();
        require(e > cut, "a photon of energy ", e, " below the cut ", cut);
        share.push_back(e / s.gamma);
    }
    if (m < 500) return;
    double d = stats::ks(share, [&](double x) { return (sp.cdf(x) - pCut) / (1 - pCut); });
    require(d <= stats::ksLimit(m) + 0.002, "the spectrum at eta = ", s.eta, " differs from the quantum synchrotron spectrum by ", d);
}

PROPERTY(classical_spectrum_scales, 300, 10000, "a field strength above 1e-3")
{
    // classical photons: energies in units of eta gamma are distributed alike at any field strength
    Setup s = drawEmitter(g, 1e-5, 9.9, 1, 1e5);
    const int n = 20000;
    if (s.eta > 1e-3) g.nontrivial();
    static theory::Spectrum low = theory::emissionSpectrum(1e-5);
    MCTools::SetSeed(g.seed());
    ContinuousEmission em(&theField(), 1, true);
    ParticleList list("photons", n);
    std::vector<double> x;
    for (int i = 0; i < n; i++) { Lepton l(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t); em.Interact(&l, &list); }
    require(list.GetNPart() == (unsigned)n, list.GetNPart(), " photons from ", n, " emitters");
    for (int i = 0; i < n; i++) x.push_back(list.GetParticle(i)->GetEnergy() / s.gamma / s.eta * 1e-5);
    double d = stats::ks(x, [&](double v) { return low.cdf(v); });
    require(d <= stats::ksLimit(n) + 0.002, "the classical spectrum at eta = ", s.eta, " differs from the scaled synchrotron spectrum by ", d);
}

PROPERTY(photon_and_emitter, 20000, 800000, "a photon with a weight other than one")
{
    Setup s = drawEmitter(g, 1e-5, 9.9);
    static const double fracs[] = {1, 0, 0.5, 0.1}, cuts[] = {0, 1e-3, 1, 20}, dts[] = {0.01, 1, 33};
    double frac = fracs[g.draw(3)], dt = dts[g.draw(2)]; int cutNo = (int)g.draw(3); double cut = cuts[cutNo]; bool track = cutNo % 2, classical = g.coin();
    g.note("fraction", frac); g.note("cut", cut); g.note("dt", dt); g.note("classical", classical);
    MCTools::SetSeed(g.seed());
    ContinuousEmission& em = continuous(dt, classical, frac, cut, track);
    unsigned kind = (unsigned)g.draw(5);    // mostly living leptons
    bool emitterTracks = g.coin();
    std::unique_ptr<Particle> a(kind == 1 ? (Particle*)new Photon(s.x.tv(), s.p.tv(), s.w, s.t, emitterTracks) : (Particle*)new Lepton(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t, emitterTracks));
    if (kind == 2) a->Kill();
    bool none = kind == 3;
    if (none) theField().e = theField().b = V3();
    g.note("kind", kind);
    ParticleList list("photons", 20);
    int before = (int)g.draw(2), steps = (int)g.integer(1, 5);
    std::vector<Particle*> model;
    for (int i = 0; i < before; i++) { model.push_back(new Photon(V3(i, 0, 0).tv(), V3(0, 0, 1).tv())); list.AddParticle(model.back()); }
    for (int i = 0; i < steps; i++)
    {
        em.Interact(a.get(), &list);
        requireV(V3(a->GetMomentum()), s.p, 0, 0, "momentum of the emitter"); requireV(V3(a->GetPosition()), s.x, 0, 0, "position of the emitter");
        require(a->GetTime() == s.t && a->GetWeight() == s.w && a->IsAlive() == (kind != 2), "the emitter's clock, weight or life changed");
        require(a->GetTimeHist().empty(), "the emitter recorded something");
        unsigned born = list.GetNPart() - model.size();
        require(born <= 1, born, " photons in one step");
        for (size_t j = 0; j < model.size(); j++) require(list.GetParticle(j) == model[j], "the list was disturbed");
        if (born)
        {
            Particle* ph = list.GetParticle(model.size()); model.push_back(ph);
            require(kind != 1 && kind != 2, kind == 1 ? "a photon emitted" : "a dead particle emitted");
            require(!none, "a photon without a field, of energy ", ph->GetEnergy());
            require(ph->GetType() == "Photon" && ph->IsAlive() && ph->GetTracking() == track, "the new particle is no living photon, or its tracking is wrong");
            require(ph->GetEnergy() > cut && std::isfinite(ph->GetEnergy()), "a photon of energy ", ph->GetEnergy(), ", the cut being ", cut);
            requireV(unit(V3(ph->GetMomentum())), unit(s.p), 0, 1e-14L, "direction of the photon");
            requireV(V3(ph->GetPosition()), s.x, 0, 0, "position of the photon");
            require(ph->GetTime() == s.t, "clock of the photon");
            double rate = classical ? theory::emissionRate(1e-7, s.gamma) / 1e-7 * s.eta : theory::emissionRate(s.eta, s.gamma);
            require(near(ph->GetWeight(), s.w * rate * dt / frac, 0.01), "weight of the photon ", ph->GetWeight(), " instead of ", s.w * rate * dt / frac);
            if (s.w != 1) g.nontrivial();
        }
        else if (frac == 1 && cut == 0 && kind != 1 && kind != 2 && !none) require(false, "no photon although every step should give one");
    }
}

PBT_MAIN
