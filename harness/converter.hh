// Photons in a field of a wanted strength.
#ifndef CONVERTER_HH
#define CONVERTER_HH
#include "process.hh"
#include "theory.hh"
struct Setup { V3 p, x; double k, t, w, chi; bool track; };
inline Setup drawPhoton(pbt::Gen& g, double chiLo, double chiHi, double kLo, double kHi)
{
    Setup s;
    V3 n = gen::direction(g); s.p = V3((n * g.logu(kLo, kHi)).tv()); s.k = (double)mag(s.p); n = unit(s.p);
    s.x = V3(V3(g.sreal(20), g.sreal(20), g.sreal(20)).tv()); s.t = g.coin() ? 0 : g.sreal(50); s.w = g.chance(50) ? 1 : g.logu(1e-4, 1e4); s.track = g.coin();
    s.chi = g.logu(chiLo, chiHi);   // half the energy times the transverse field
    Switch& f = theField(); f.f = nullptr; f.e = f.b = V3();
    unsigned kind = g.draw(2);
    V3 e, b;
    if (kind != 1) b = gen::direction(g);
    if (kind != 0) e = gen::direction(g) * g.real(0.1, 2);
    auto across = [&](V3 e, V3 b) { V3 t = e - n * dot(e, n) + cross(n, b); return mag(t); };
    if (across(e, b) < 1e-2L) { b = perp(n); e = V3(); }
    long double scale = 2 * s.chi / s.k / across(e, b);
    f.e = V3((e * scale).tv()); f.b = V3((b * scale).tv());
    g.note("p", str(s.p)); g.note("weight", s.w); g.note("E", str(f.e)); g.note("B", str(f.b)); g.note("chi", s.chi);
    return s;
}
#endif
