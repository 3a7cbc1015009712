// C16: particle kinematics are self-consistent.
// LIBS: PhysicsQED Particles Tools
#include "phys.hh"
using namespace pbt;

struct Args { double m, q, w, t; bool track; V3 x, p; };
static Args draw(Gen& g, bool photon)
{
    Args a;
    a.m = photon ? 0 : g.chance(60) ? 1 : g.logu(1e-2, 1e4); a.q = photon ? 0 : g.coin() ? -1 : 1;
    a.w = g.chance(40) ? 1 : g.logu(1e-6, 1e6); a.t = g.chance(40) ? 0 : g.sreal(1000); a.track = g.coin();
    a.x = V3(gen::vec(g).tv()); a.p = V3((gen::direction(g) * ((photon ? 1 : a.m) * g.logu(1e-4, 1e7))).tv());
    g.note("mass", a.m); g.note("charge", a.q); g.note("weight", a.w); g.note("time", a.t); g.note("track", a.track); g.note("x", str(a.x)); g.note("p", str(a.p));
    return a;
}
static void common(const Particle& k, const Args& a, const std::string& name, const std::string& type)
{
    require(k.GetMass() == a.m, "mass ", k.GetMass()); require(k.GetCharge() == a.q, "charge ", k.GetCharge());
    require(k.GetWeight() == a.w, "weight ", k.GetWeight()); require(k.GetTime() == a.t, "time ", k.GetTime());
    require(k.GetTracking() == a.track, "tracking"); require(k.IsAlive(), "born dead");
    require(k.GetName() == name, "name '", k.GetName(), "' instead of '", name, "'"); require(k.GetType() == type, "type '", k.GetType(), "' instead of '", type, "'");
    requireV(V3(k.GetPosition()), a.x, 0, 0, "position");
    require(k.GetPosHist().empty() && k.GetMomHist().empty() && k.GetTimeHist().empty() && k.GetGammaHist().empty(), "a new particle has a history");
    double od = k.GetOpticalDepth();
    require(od >= 0 && !std::isnan(od), "optical depth ", od);
}
static void kinematics(const Particle& k, double m)
{
    V3 p(k.GetMomentum()), d(k.GetDirection());
    long double pm = mag(p), en = k.GetEnergy(), ga = k.GetGamma(), be = k.GetBeta();
    requireV(d, p / pm, 1e-14L * 10, 0, "direction");
    if (m == 0) { require(near(en, pm, 1e-14), "energy of a photon ", (double)en, " with momentum ", (double)pm); require(be == 1, "speed of a photon ", (double)be); return; }
    long double want = std::sqrt(m * (long double)m + pm * pm);
    require(near(en, want, 1e-13), "energy ", (double)en, " instead of ", (double)want);
    require(near(ga, want / m, 1e-13), "gamma ", (double)ga, " instead of ", (double)(want / m));
    // 1 - 1/gamma^2 loses digits for slow particles
    long double bw = pm / want;
    require(std::fabs(be - bw) <= 1e-13L + 4e-16L / bw, "speed ", (double)be, " instead of ", (double)bw);
    require(be <= 1, "speed ", (double)be, " above one");
}

PROPERTY(lepton_from_momentum, 60000, 3000000, "a mass other than one or a weight other than one")
{
    Args a = draw(g, false);
    if (a.m != 1 || a.w != 1) g.nontrivial();
    Lepton k(a.m, a.q, a.x.tv(), a.p.tv(), a.w, a.t, a.track);
    common(k, a, a.q == -1 ? "Electron" : "Positron", "Lepton");
    requireV(V3(k.GetMomentum()), a.p, 0, 0, "momentum");
    kinematics(k, a.m);
}

PROPERTY(lepton_from_energy, 60000, 3000000, "a direction that is not a unit vector")
{
    Args a = draw(g, false);
    // the total energy: at least the rest energy
    double e = (double)(a.m * g.logu(1.0001, 1e6)), len = g.chance(30) ? 1 : g.logu(1e-3, 1e3);
    V3 d = V3((unit(a.p) * len).tv());
    g.note("energy", e); g.note("direction", str(d));
    if (std::fabs(len - 1) > 1e-6) g.nontrivial();
    Lepton k(a.m, a.q, e, a.x.tv(), d.tv(), a.w, a.t, a.track);
    common(k, a, a.q == -1 ? "Electron" : "Positron", "Lepton");
    requireV(V3(k.GetDirection()), unit(d), 0, 1e-14L, "direction");
    kinematics(k, a.m);
    if (!near(k.GetEnergy(), e, 1e-12))
    {
        // the listed finding: the energy is taken for the momentum
        std::string msg = cat("built from the energy ", e, " it reports ", k.GetEnergy());
        if (near((double)mag(V3(k.GetMomentum())), e, 1e-13)) g.known("KF1", msg + ": the energy was taken for the momentum");
        else require(false, msg);
    }
}

PROPERTY(photon, 60000, 3000000, "a weight other than one")
{
    Args a = draw(g, true);
    if (a.w != 1) g.nontrivial();
    Photon k(a.x.tv(), a.p.tv(), a.w, a.t, a.track);
    common(k, a, "Photon", "Photon");
    requireV(V3(k.GetMomentum()), a.p, 0, 0, "momentum");
    kinematics(k, 0);
    double e = g.logu(1e-8, 1e8), len = g.chance(30) ? 1 : g.logu(1e-3, 1e3); V3 d = V3((unit(a.p) * len).tv());
    g.note("energy", e); g.note("direction", str(d));
    Photon h(e, a.x.tv(), d.tv(), a.w, a.t, a.track);
    common(h, a, "Photon", "Photon");
    require(near(h.GetEnergy(), e, 1e-13), "built from the energy ", e, " it reports ", h.GetEnergy());
    requireV(V3(h.GetDirection()), unit(d), 0, 1e-14L, "direction");
    kinematics(h, 0);
}

PROPERTY(updates, 30000, 1000000, "three updates or more")
{
    Args a = draw(g, g.chance(40));
    bool photon = a.m == 0;
    std::unique_ptr<Particle> k(photon ? (Particle*)new Photon(a.x.tv(), a.p.tv(), a.w, a.t, a.track) : (Particle*)new Lepton(a.m, a.q, a.x.tv(), a.p.tv(), a.w, a.t, a.track));
    int n = (int)g.integer(1, 6);
    if (n >= 3) g.nontrivial();
    double t = a.t, od = k->GetOpticalDepth();
    for (int i = 0; i < n; i++)
    {
        V3 x = V3(gen::vec(g).tv()), p = V3((gen::direction(g) * ((photon ? 1 : a.m) * g.logu(1e-3, 1e5))).tv()); double dt = g.real(0, 10), d = g.real(0, 1);
        k->UpdateTime(dt); t += dt; k->UpdateTrack(x.tv(), p.tv()); k->UpdateOpticalDepth(d); od -= d;
        requireV(V3(k->GetPosition()), x, 0, 0, "position"); requireV(V3(k->GetMomentum()), p, 0, 0, "momentum");
        require(k->GetTime() == t, "time ", k->GetTime()); require(k->GetOpticalDepth() == od, "optical depth ", k->GetOpticalDepth(), " instead of ", od);
        require(k->GetWeight() == a.w && k->GetMass() == a.m && k->GetCharge() == a.q, "an update changed the species or weight");
        require(k->GetPosHist().size() == (a.track ? i + 1u : 0u), "history of ", k->GetPosHist().size(), " after ", i + 1, " updates");
        kinematics(*k, a.m);
    }
    k->Kill();
    require(!k->IsAlive(), "alive after Kill");
}

PBT_MAIN
