// Every class of the physics library.  Lepton.hh has no include guard and comes
// with PhotonEmission.hh.
#ifndef PHYS_HH
#define PHYS_HH
#include "gens.hh"
#include "MCTools.hh"
#include "Numerics.hh"
#include "UnitsSystem.hh"
#include "StochasticEmission.hh"
#include "ContinuousEmission.hh"
#include "NonLinearBreitWheeler.hh"
#include "Photon.hh"
#include "ParticleList.hh"
#include "SourceGenerator.hh"
#include "StaticEMField.hh"
#include "PlaneEMField.hh"
#include "GaussianEMField.hh"
#include "FocusingField.hh"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"

// Every case starts from a generator state of its own, so that it can be repeated.
inline bool seedEveryCase() { pbt::beforeCase() = [](pbt::Gen& g) { MCTools::SetSeed(g.seed()); }; return true; }
static bool seedsEveryCase = seedEveryCase();

// Turning the z axis onto a direction within delta of -z loses about 1/delta^2
// of the machine precision, and directions closer than 1e-5 count as -z itself.
inline long double turnSlack(V3 dir)
{
    long double d = mag(dir + V3(0, 0, 1));
    if (d < 1e-15L) return 0;
    if (d < 2e-5L) return 1e-4L;
    return std::min(1e-13L / (d * d), 1e-4L);
}
#endif
