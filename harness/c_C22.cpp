// C22: pair creation conserves energy and charge and consumes the photon once.
// LIBS: PhysicsQED Particles Tools
#include "converter.hh"
using namespace pbt;

static double longStep(Gen& g, const Setup& s)
{
    double od = g.logu(0.1, 1000), dt = od / theory::pairRate(2 * s.chi, s.k);
    dt = std::pow(1000, std::round(std::log10(dt) / 3));
    g.note("dt", dt);
    return dt;
}

PROPERTY(conversion, 30000, 2000000, "a conversion")
{
    Setup s = drawPhoton(g, 0.02, 900, 2.0001, 1e6);
    double dt = longStep(g, s); bool track = g.coin();
    NonLinearBreitWheeler& bw = breitWheeler(dt, track);
    MCTools::SetSeed(g.seed());
    int before = (int)g.draw(3), steps = (int)g.integer(1, 6);
    Photon ph(s.x.tv(), s.p.tv(), s.w, s.t, s.track);
    ParticleList list("pairs", 20);
    std::vector<Particle*> model;
    for (int i = 0; i < before; i++) { model.push_back(new Photon(V3(i, 0, 0).tv(), V3(0, 0, 1).tv())); list.AddParticle(model.back()); }
    bool gone = false;
    for (int i = 0; i < steps; i++)
    {
        bw.Interact(&ph, &list);
        requireV(V3(ph.GetMomentum()), s.p, 0, 0, "momentum of the photon"); requireV(V3(ph.GetPosition()), s.x, 0, 0, "position of the photon");
        require(ph.GetTime() == s.t && ph.GetWeight() == s.w && ph.GetTimeHist().empty(), "the photon's clock, weight or track changed");
        for (size_t j = 0; j < model.size(); j++) require(list.GetParticle(j) == model[j], "the list was disturbed");
        unsigned born = list.GetNPart() - model.size();
        if (born == 0) { require(ph.IsAlive() == !gone, gone ? "the photon came back" : "the photon vanished without a pair"); continue; }
        require(!gone, "the photon converted again");
        require(born == 2, born, " particles from one photon");
        require(!ph.IsAlive(), "the photon survives its conversion");
        gone = true; g.nontrivial();
        Particle *a = list.GetParticle(model.size()), *b = list.GetParticle(model.size() + 1);
        if (a->GetCharge() < b->GetCharge()) std::swap(a, b);
        require(a->GetCharge() == 1 && b->GetCharge() == -1 && a->GetName() == "Positron" && b->GetName() == "Electron", "the pair is ", a->GetName(), " and ", b->GetName());
        long double sum = (long double)a->GetEnergy() + b->GetEnergy();
        require(std::fabs(sum - s.k) <= 1e-12L * s.k, "the pair has the energy ", (double)sum, ", the photon ", s.k);
        for (Particle* q : {a, b})
        {
            require(q->GetMass() == 1 && q->IsAlive() && q->GetType() == "Lepton", "no living lepton of unit mass");
            require(q->GetEnergy() >= 1 && std::isfinite(q->GetEnergy()), "a lepton of energy ", q->GetEnergy());
            require(q->GetWeight() == s.w, "weight ", q->GetWeight(), " instead of ", s.w);
            require(q->GetTime() == s.t, "clock ", q->GetTime(), " instead of ", s.t);
            require(q->GetTracking() == track && q->GetTimeHist().empty(), "tracking of the pair");
            requireV(V3(q->GetPosition()), s.x, 0, 0, "position of the pair");
            V3 m(q->GetMomentum());
            require(mag(cross(m, unit(s.p))) <= 1e-13L * mag(m) && dot(m, s.p) >= 0, "the pair does not follow the photon: ", str(m));
        }
        model.push_back(list.GetParticle(model.size())); model.push_back(list.GetParticle(model.size()));
    }
}

PROPERTY(below_threshold_and_bystanders, 20000, 500000, "a photon between 1 and 2")
{
    Setup s = drawPhoton(g, 0.02, 900, 0.01, 2);
    if (s.k > 2) throw Discard();
    if (s.k > 1) g.nontrivial();
    NonLinearBreitWheeler& bw = breitWheeler(1e30);
    MCTools::SetSeed(g.seed());
    ParticleList list("pairs", 20);
    Photon weak(s.x.tv(), s.p.tv(), s.w, s.t, true);
    V3 big = s.p * (1e4L / s.k);
    Lepton e(1, -1, s.x.tv(), big.tv(), s.w, s.t, true), p(1, 1, s.x.tv(), big.tv(), s.w, s.t, true);
    Photon dead(s.x.tv(), (s.p * (50 / s.k)).tv(), s.w, s.t, true); dead.Kill();
    const char* names[] = {"a photon without the energy for a pair", "an electron", "a positron", "a dead photon"};
    Particle* all[] = {&weak, &e, &p, &dead};
    for (int i = 0; i < 4; i++)
    {
        V3 m(all[i]->GetMomentum()); bool alive = all[i]->IsAlive();
        for (int k = 0; k < 3; k++) bw.Interact(all[i], &list);
        require(list.GetNPart() == 0, names[i], " of energy ", all[i]->GetEnergy(), " made a pair");
        require(all[i]->IsAlive() == alive, names[i], " died");
        requireV(V3(all[i]->GetMomentum()), m, 0, 0, "momentum"); requireV(V3(all[i]->GetPosition()), s.x, 0, 0, "position");
        require(all[i]->GetTime() == s.t && all[i]->GetTimeHist().empty() && all[i]->GetWeight() == s.w, names[i], " changed");
    }
}

// no field, a field along the motion, a co-propagating wave; and afterwards the photon is as convertible as before
PROPERTY(nothing_in_a_vanishing_field, 20000, 500000, "every case")
{
    Setup s = drawPhoton(g, 0.05, 50, 10, 1e6);
    NonLinearBreitWheeler& bw = breitWheeler(1e12);
    MCTools::SetSeed(g.seed());
    g.nontrivial();
    V3 e = theField().e, b = theField().b, n = unit(s.p);
    Photon ph(s.x.tv(), s.p.tv(), s.w, s.t, false);
    ParticleList list("pairs", 20);
    int kind = (int)g.draw(2), steps = (int)g.integer(1, 5);
    g.note("kind", kind); g.note("steps", steps);
    if (kind == 0) theField().e = theField().b = V3();
    else
    {
        // exactly along the motion only if the motion is along an axis; otherwise to rounding
        double a = g.logu(1e-6, 1e-2);
        if (kind == 1) { theField().e = V3((n * a).tv()); theField().b = V3((n * -a).tv()); }
        else { V3 u = perp(n); theField().e = V3((u * a).tv()); theField().b = V3((cross(n, u) * a).tv()); }
    }
    for (int i = 0; i < steps; i++) bw.Interact(&ph, &list);
    require(list.GetNPart() == 0 && ph.IsAlive(), "a pair without a transverse field");
    theField().e = e; theField().b = b;
    NonLinearBreitWheeler& sure = breitWheeler(1e30);
    sure.Interact(&ph, &list);
    require(list.GetNPart() == 2, "after a stay without a field the photon does not convert any more, optical depth ", ph.GetOpticalDepth());
}

PROPERTY(share_is_charge_symmetric, 40, 2000, "every case")
{
    Setup s = drawPhoton(g, 0.02, 900, 4, 1e5);
    g.nontrivial();
    MCTools::SetSeed(g.seed());
    const int n = 4000; ParticleList list("pairs", 2 * n);
    int more = 0;
    for (int i = 0; i < n; i++)
    {
        Photon ph(s.x.tv(), s.p.tv());
        breitWheeler(1e200).Interact(&ph, &list);
        require(list.GetNPart() == 2u * (i + 1), "no pair in an endless step");
        Particle *a = list.GetParticle(2 * i), *b = list.GetParticle(2 * i + 1);
        if (a->GetCharge() < b->GetCharge()) std::swap(a, b);
        more += a->GetEnergy() > b->GetEnergy();
    }
    require(std::fabs(more - n / 2.) <= 7.5 * std::sqrt(n / 4.) + 0.01 * n, "the positron gets more than half in ", more, " of ", n, " pairs");
}

PBT_MAIN
