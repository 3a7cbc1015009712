// C18: quantum photon emission conserves momentum and respects its cuts.
// LIBS: PhysicsQED Particles Tools
#include "emitter.hh"
using namespace pbt;

static double longStep(Gen& g, const Setup& s)
{
    // powers of 100 so that few processes are needed
    double od = g.logu(0.3, 300), dt = od / theory::emissionRate(std::max(s.eta, 1e-8), s.gamma);
    dt = std::pow(100, std::round(std::log10(dt) / 2));
    g.note("dt", dt);
    return dt;
}

PROPERTY(conservation, 30000, 2000000, "an emission")
{
    Setup s = drawEmitter(g, 1e-5, 9.9);
    double dt = longStep(g, s);
    static const double fracs[] = {1, 0, 0.5, 0.1, 0.85, 0.02};
    double frac = fracs[g.draw(5)];
    static const double cuts[] = {0, 1e-3, 1, 20};
    int cutNo = (int)g.draw(3); double cut = cuts[cutNo]; bool track = cutNo % 2;
    g.note("fraction", frac); g.note("cut", cut);
    int before = (int)g.draw(3), steps = (int)g.integer(1, 6);
    MCTools::SetSeed(g.seed());
    StochasticEmission& em = stochastic(dt, frac, cut, track);
    Lepton l(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t, g.coin());
    ParticleList list("photons", 20);
    std::vector<Particle*> model;
    for (int i = 0; i < before; i++) { model.push_back(new Photon(V3(i, 0, 0).tv(), V3(0, 0, 1).tv())); list.AddParticle(model.back()); }
    for (int i = 0; i < steps; i++)
    {
        V3 p(l.GetMomentum()); long double en = l.GetEnergy();
        if (mag(p) < 1e-6L || etaOf(p, 1, theField().e, theField().b) > 9.9L) break;
        em.Interact(&l, &list);
        V3 p2(l.GetMomentum()), k = p - p2; long double km = dot(k, unit(p));
        unsigned born = list.GetNPart() - model.size();
        require(born <= 1, born, " photons in one step");
        require(l.IsAlive() && l.GetWeight() == s.w && l.GetTime() == s.t && mag(V3(l.GetPosition()) - s.x) == 0 && l.GetCharge() == s.q && l.GetMass() == 1, "an emission changed more than the momentum");
        for (size_t j = 0; j < model.size(); j++) require(list.GetParticle(j) == model[j], "an emission disturbed the particles in the list");
        if (mag(k) == 0) { require(born == 0 || list.GetParticle(model.size())->GetEnergy() < 1e-15L * mag(p), "a photon without recoil"); for (unsigned j = 0; j < born; j++) model.push_back(list.GetParticle(model.size())); continue; }
        g.nontrivial();
        require(mag(k - unit(p) * km) <= 1e-14L * (mag(p) + mag(k)), "the recoil ", str(k), " is not along the motion ", str(p));
        require(km > -1e-15L * mag(p), "the emitter gained momentum: ", (double)km);
        require(km <= en * (1 + 1e-13L), "the recoil ", (double)km, " exceeds the energy ", (double)en);
        if (born)
        {
            Particle* ph = list.GetParticle(model.size()); model.push_back(ph);
            require(ph->GetType() == "Photon" && ph->GetMass() == 0 && ph->IsAlive(), "the new particle is no living photon");
            requireV(V3(ph->GetMomentum()), k, 1e-12L, 4e-16L * mag(p), "momentum of the photon against the recoil");
            requireV(V3(ph->GetPosition()), s.x, 0, 0, "position of the photon");
            require(ph->GetTime() == s.t, "clock of the photon ", ph->GetTime(), " instead of ", s.t);
            require(near(ph->GetWeight(), s.w / frac, 1e-14), "weight of the photon ", ph->GetWeight(), " instead of ", s.w / frac);
            require(ph->GetTracking() == track, "tracking of the photon");
            require(ph->GetEnergy() > cut, "a photon of energy ", ph->GetEnergy(), " below the cut ", cut);
            require(frac > 0, "a photon was recorded although the sampling fraction is zero");
            g.label("recorded");
        }
        else if (km > cut * (1 + 1e-10L) + 1e-13L * mag(p)) { require(frac < 1, "a photon of energy ", (double)km, " above the cut ", cut, " was not recorded"); g.label("not sampled"); }
        else g.label("below the cut");
    }
}

PROPERTY(sampling_fraction, 400, 20000, "a fraction between a tenth and nine tenths")
{
    Setup s = drawEmitter(g, 1e-2, 9.9);
    double dt = 1e6 * std::pow(100, std::ceil(std::log10(1 / theory::emissionRate(s.eta, s.gamma)) / 2));
    double frac = g.chance(10) ? 1 : g.chance(10) ? 0.01 : std::round(g.real(0, 1) * 20) / 20;
    g.note("fraction", frac);
    if (frac >= 0.1 && frac <= 0.9) g.nontrivial();
    // a cut within the spectrum
    theory::Spectrum sp = theory::emissionSpectrum(s.eta);
    double cut = g.chance(50) ? 0 : sp.mean * s.gamma * g.logu(0.1, 2);
    g.note("cut", cut);
    MCTools::SetSeed(g.seed());
    StochasticEmission em(&theField(), dt, frac, cut);
    const int n = 1500;
    ParticleList list("photons", n);
    int above = 0;
    for (int i = 0; i < n; i++)
    {
        Lepton l(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t);
        em.Interact(&l, &list);
        if (mag(s.p - V3(l.GetMomentum())) > cut) above++;
    }
    double got = list.GetNPart(), sigma = std::sqrt(above * frac * (1 - frac));
    require(std::fabs(got - above * frac) <= 7.5 * sigma + (frac < 1 && frac > 0 ? 3 : 0.1) + 1e-9, got, " photons were recorded out of ", above, " above the cut, with the sampling fraction ", frac);
}

PROPERTY(who_does_not_emit, 20000, 500000, "a photon and a dead particle")
{
    Setup s = drawEmitter(g, 1e-3, 9.9);
    StochasticEmission& em = stochastic(1e20, 1, 0);
    ParticleList list("photons", 20);
    MCTools::SetSeed(g.seed());
    Photon ph(s.x.tv(), s.p.tv(), s.w, s.t, true);
    Lepton dead(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t, true); dead.Kill();
    g.nontrivial();
    for (Particle* a : {(Particle*)&ph, (Particle*)&dead})
    {
        em.Interact(a, &list);
        require(list.GetNPart() == 0, a == &ph ? "a photon emitted" : "a dead particle emitted");
        requireV(V3(a->GetMomentum()), s.p, 0, 0, "momentum"); requireV(V3(a->GetPosition()), s.x, 0, 0, "position");
        require(a->GetTime() == s.t && a->GetTimeHist().empty(), "clock or track changed");
    }
    // nor does anything in a vanishing field, which leaves no trace
    V3 e = theField().e, b = theField().b;
    theField().e = theField().b = V3();
    Lepton l(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t);
    em.Interact(&l, &list);
    require(list.GetNPart() == 0 && mag(V3(l.GetMomentum()) - s.p) == 0, "an emission without a field");
    theField().e = e; theField().b = b;
    em.Interact(&l, &list);
    require(list.GetNPart() == 1, "after a stay without a field the particle does not emit any more, optical depth ", l.GetOpticalDepth());
}

PBT_MAIN
