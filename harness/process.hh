// Processes over a field that can be exchanged, made once per worker because
// each reads the tables.
#ifndef PROCESS_HARNESS_HH
#define PROCESS_HARNESS_HH
#include "motion.hh"
#include <tuple>

struct Switch : EMField
{
    EMField* f = nullptr; V3 e, b;
    void GetField(double t, const ThreeVector& x, ThreeVector& E, ThreeVector& B) const override
    { if (f) { f->GetField(t, x, E, B); return; } E = e.tv(); B = b.tv(); }
};
inline Switch& theField() { static Switch s; return s; }
inline StochasticEmission& stochastic(double dt, double frac = 1, double eMin = 0, bool track = false)
{
    static std::map<std::tuple<double, double, double, bool>, StochasticEmission*> m;
    auto& p = m[std::make_tuple(dt, frac, eMin, track)];
    if (!p) { if (m.size() > 300) { for (auto& i : m) if (i.second) delete i.second; m.clear(); return stochastic(dt, frac, eMin, track); } p = new StochasticEmission(&theField(), dt, frac, eMin, track); }
    return *p;
}
inline ContinuousEmission& continuous(double dt, bool classical, double frac = 1, double eMin = 0, bool track = false)
{
    static std::map<std::tuple<double, bool, double, double, bool>, ContinuousEmission*> m;
    auto& p = m[std::make_tuple(dt, classical, frac, eMin, track)];
    if (!p) { if (m.size() > 300) { for (auto& i : m) if (i.second) delete i.second; m.clear(); return continuous(dt, classical, frac, eMin, track); } p = new ContinuousEmission(&theField(), dt, classical, frac, eMin, track); }
    return *p;
}
inline NonLinearBreitWheeler& breitWheeler(double dt, bool track = false)
{
    static std::map<std::tuple<double, bool>, NonLinearBreitWheeler*> m;
    auto& p = m[std::make_tuple(dt, track)];
    if (!p) { if (m.size() > 300) { for (auto& i : m) if (i.second) delete i.second; m.clear(); return breitWheeler(dt, track); } p = new NonLinearBreitWheeler(&theField(), dt, track); }
    return *p;
}
#endif
