// Emitters with a wanted field strength in their rest frame.
#ifndef EMITTER_HH
#define EMITTER_HH
#include "process.hh"
#include "theory.hh"
struct Setup { V3 p, x; double q, t, w, gamma, eta; };
inline Setup drawEmitter(pbt::Gen& g, double etaLo, double etaHi, double gbLo = 0.05, double gbHi = 1e5)
{
    Setup s;
    V3 n = gen::direction(g); s.p = V3((n * g.logu(gbLo, gbHi)).tv()); s.gamma = (double)gammaOf(s.p, 1);
    s.x = V3(V3(g.sreal(20), g.sreal(20), g.sreal(20)).tv()); s.q = g.coin() ? -1 : 1; s.t = g.coin() ? 0 : g.sreal(50); s.w = g.chance(50) ? 1 : g.logu(1e-4, 1e4);
    double eta = g.logu(etaLo, etaHi);
    Switch& f = theField(); f.f = nullptr; f.e = f.b = V3();
    unsigned k = g.draw(2);
    V3 e, b;
    if (k != 1) b = gen::direction(g);
    if (k != 0) e = gen::direction(g) * g.real(0.1, 2);
    long double one = etaOf(s.p, 1, e, b);
    if (one < 1e-3L) { b = perp(n); e = V3(); one = etaOf(s.p, 1, e, b); }
    f.e = V3((e * (eta / one)).tv()); f.b = V3((b * (eta / one)).tv());
    s.eta = (double)etaOf(s.p, 1, f.e, f.b);
    g.note("p", str(s.p)); g.note("charge", s.q); g.note("weight", s.w); g.note("E", str(f.e)); g.note("B", str(f.b)); g.note("eta", s.eta);
    return s;
}
#endif
