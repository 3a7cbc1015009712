// Generated input decks: the text and the values it stands for, in SI units.
#ifndef DECK_HH
#define DECK_HH
#include "gens.hh"
#include "FileParser.hh"
#include <optional>

// natural units, from the constants of the documentation
static const long double C0 = 2.99792458e8L, ME = 9.10938356e-31L, QE = 1.60217662e-19L, ES = 1.3232855e18L;
static const long double FREQ = ES * QE / (ME * C0), U_TIME = 1 / FREQ, U_LEN = C0 / FREQ, U_E = ES, U_B = ES / C0, U_EN = ME * C0 * C0;

struct Entry { std::string key, value; };
struct Section { std::string name; std::vector<Entry> e; };
struct Particles { std::string name, type, distro; long number; V3 pos, dir; double e1, e2, radius, div, dur; bool output; };
struct Hist { std::string name, particle, type; double time; long bins; double lo, hi; };
struct Deck
{
    std::string units, file; double step, end; bool tracking;
    bool hasField; std::string field; V3 e, b, dir, start, focus; double emax, lambda, dur, waist, pol;
    std::string model; double emin, frac; bool pairs;
    std::vector<Particles> parts; std::vector<Hist> hists;
    std::vector<Section> sections;
};
inline std::string num(pbt::Gen& g, double v)
{
    char b[64];
    if (v == 0) v = 0;      // no minus zero
    switch (g.draw(3)) { case 0: snprintf(b, 64, "%.17g", v); break; case 1: snprintf(b, 64, "%.17e", v); break; case 2: snprintf(b, 64, "%.17E", v); break;
        default: snprintf(b, 64, "%s%.17g", v >= 0 ? "+" : "", v); }
    return b;
}
inline std::string integer(pbt::Gen& g, long v)
{
    char b[64];
    switch (g.draw(3)) { case 2: snprintf(b, 64, "0x%lx", v); break; case 3: snprintf(b, 64, "0%lo", v); break; default: snprintf(b, 64, "%ld", v); }
    return b;
}
inline std::string truth(pbt::Gen& g, bool v)
{
    std::string s = v ? g.pick({"true", "yes", "on", "1"}) : g.pick({"false", "no", "off", "0"});
    if (g.chance(30)) for (char& c : s) if (g.coin()) c = toupper(c);
    return s;
}
inline std::string vector(pbt::Gen& g, V3 v)
{
    std::string sep = g.pick({" ", ",", ", ", "  ", " , "}), open = g.pick({"", "[", "(", "[ ", "{"}), close = open.empty() ? "" : open[0] == '[' ? "]" : open[0] == '(' ? ")" : "}";
    return open + num(g, (double)v.x) + sep + num(g, (double)v.y) + sep + num(g, (double)v.z) + close;
}
// an optional key: written with the value, or left out, with the default
template <class T> T opt(pbt::Gen& g, Section& s, const char* key, T v, T dflt, std::string text, unsigned p = 75)
{ if (!g.chance(p)) return dflt; s.e.push_back({key, text}); return v; }

inline Deck drawDeck(pbt::Gen& g)
{
    Deck d;
    auto real = [&](double lo, double hi) { double v = g.chance(15) ? 0 : g.logu(lo, hi); return v; };
    auto sreal = [&](double lo, double hi) { double v = real(lo, hi); return g.coin() ? v : -v; };
    auto vec = [&](double lo, double hi) { return V3(sreal(lo, hi), sreal(lo, hi), sreal(lo, hi)); };
    Section gen{"General", {}};
    d.units = g.pick({"SI", "si"}); gen.e.push_back({"units", d.units});
    d.step = g.logu(1e-22, 1e-10); gen.e.push_back({"time_step", num(g, d.step)});
    d.end = real(1e-20, 1e-8); gen.e.push_back({"time_end", num(g, d.end)});
    std::string fn = g.pick({"out2.h5", "result", "my file.h5", "a.b.c", "x=y.h5"}); d.file = opt<std::string>(g, gen, "file_name", fn, "out.h5", fn);
    bool tr = g.coin(); d.tracking = opt(g, gen, "tracking", tr, false, truth(g, tr));
    d.sections.push_back(gen);
    d.hasField = g.chance(92);
    if (d.hasField)
    {
        Section f{"Field", {}};
        d.field = g.pick({"static", "plane", "gaussian", "focusing"}); f.e.push_back({"field_type", d.field});
        if (d.field == "static")
        {
            V3 e = vec(1e5, 1e18), b = vec(1e-3, 1e9);
            d.e = opt(g, f, "e_field", e, V3(), vector(g, e)); d.b = opt(g, f, "b_field", b, V3(), vector(g, b));
        } else
        {
            double a = real(1e8, 1e18), l = g.logu(1e-9, 1e-3), p = g.sreal(4), du = g.logu(1e-16, 1e-12), w = g.logu(1e-7, 1e-4);
            d.emax = opt(g, f, "e_max", a, 0.0, num(g, a)); d.lambda = opt(g, f, "wavelength", l, 1.0, num(g, l)); d.pol = opt(g, f, "polerisation", p, 0.0, num(g, p));
            if (d.field == "plane") { V3 v = gen::direction(g) * g.logu(0.1, 10); v = V3(v.tv()); d.dir = opt(g, f, "direction", v, V3(0, 0, 1), vector(g, v)); }
            else
            {
                d.dur = opt(g, f, "duration", du, 1.0, num(g, du)); d.waist = opt(g, f, "waist", w, 1.0, num(g, w));
                V3 s = vec(1e-7, 1e-3), q = vec(1e-7, 1e-3);
                d.start = opt(g, f, "start", s, V3(), vector(g, s)); d.focus = opt(g, f, "focus", q, V3(), vector(g, q));
            }
        }
        d.sections.push_back(f);
    }
    {
        Section p{"Physics", {}};
        std::string m = g.pick({"Quantum", "quantum", "Classical", "semiclassical", "Semiclassical", "classical"}); d.model = opt<std::string>(g, p, "radiation_model", m, "", m);
        double e = real(1e-20, 1e-10), fr = g.real(0, 1); d.emin = opt(g, p, "min_energy", e, 0.0, num(g, e)); d.frac = opt(g, p, "sample_fraction", fr, 1.0, num(g, fr));
        bool pp = g.coin(); d.pairs = opt(g, p, "pair_production", pp, false, truth(g, pp));
        d.sections.push_back(p);
    }
    int np = (int)g.draw(4), nh = (int)g.draw(4);
    if (g.chance(6)) { int top = g.chance(70) ? 12 : 40; np = (int)g.integer(9, top); nh = (int)g.integer(9, top); }     // two-digit section names
    for (int i = 0; i < np; i++)
    {
        Section s{pbt::cat("Particle", i + 1), {}}; Particles p;
        std::string n = g.pick({"beam", "my beam", "e-"}), t = g.pick({"Electron", "Positron", "Photon", "photon"}), di = g.pick({"mono", "gaussian", "linear"});
        long k = (long)g.logu(1, g.chance(80) ? 1e6 : 4e9); p.number = opt(g, s, "number_particles", k, 1L, integer(g, k));
        p.name = opt<std::string>(g, s, "name", n, s.name, n); p.type = opt<std::string>(g, s, "particle_type", t, "Electron", t); p.distro = opt<std::string>(g, s, "energy_distribution", di, "mono", di);
        V3 x = vec(1e-9, 1e-2), v = V3((gen::direction(g) * g.logu(0.1, 10)).tv());
        p.pos = opt(g, s, "position", x, V3(), vector(g, x)); p.dir = opt(g, s, "direction", v, V3(0, 0, 1), vector(g, v));
        double e1 = real(1e-15, 1e-8), e2 = real(1e-17, 1e-8), r = real(1e-9, 1e-3), dv = real(1e-6, 1), du = real(1e-17, 1e-9);
        p.e1 = opt(g, s, "energy_mean", e1, 0.0, num(g, e1)); p.e2 = opt(g, s, "energy_sig", e2, 0.0, num(g, e2)); p.radius = opt(g, s, "radius", r, 0.0, num(g, r));
        p.div = opt(g, s, "divergence", dv, 0.0, num(g, dv)); p.dur = opt(g, s, "duration", du, 0.0, num(g, du));
        bool o = g.coin(); p.output = opt(g, s, "output", o, false, truth(g, o));
        if (s.e.empty()) { s.e.push_back({"name", s.name}); }     // a section needs a key to exist
        d.parts.push_back(p); d.sections.push_back(s);
    }
    for (int i = 0; i < nh; i++)
    {
        Section s{pbt::cat("Histogram", i + 1), {}}; Hist h;
        std::string n = g.pick({"spectrum", "h 1", "x"}), p = g.pick({"Electron", "Photon", "Positron"}), t = g.pick({"Energy", "X", "pz", "y"});
        h.name = opt<std::string>(g, s, "name", n, s.name, n); h.particle = opt<std::string>(g, s, "particle", p, "", p); h.type = opt<std::string>(g, s, "type", t, "", t);
        double ti = real(1e-18, 1e-10), lo = sreal(1e-3, 1e6), hi = sreal(1e-3, 1e6); long b = (long)g.logu(1, g.chance(80) ? 1e4 : 2e9);
        h.time = opt(g, s, "time", ti, 0.0, num(g, ti)); h.bins = opt(g, s, "bins", b, 1L, integer(g, b)); h.lo = opt(g, s, "min_bin", lo, 0.0, num(g, lo)); h.hi = opt(g, s, "max_bin", hi, 1.0, num(g, hi));
        if (s.e.empty()) s.e.push_back({"name", s.name});
        d.hists.push_back(h); d.sections.push_back(s);
    }
    return d;
}
template <class T> void shuffle(pbt::Gen& g, std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.draw(i - 1)]); }
inline void casing(pbt::Gen& g, std::string& s) { if (g.chance(20)) for (char& c : s) if (g.coin()) c = toupper(c); }
// the text of a deck, in any order and with any decoration
inline std::string write(pbt::Gen& g, Deck d)
{
    std::string eol = g.chance(15) ? "\r\n" : "\n", t = g.chance(5) ? "\xEF\xBB\xBF" : "";
    bool plain = g.chance(25);
    auto noise = [&]() {
        if (plain) return;
        while (g.chance(25)) t += g.pick({"", "# comment", "; time_step = 3", "#[General]", "   ; indented comment", "  ", "\t"}) + eol;
    };
    if (!plain) shuffle(g, d.sections);
    for (auto& s : d.sections)
    {
        noise();
        // a section may be given in two pieces
        size_t cut = !plain && g.chance(10) ? g.draw(s.e.size()) : s.e.size();
        if (!plain) shuffle(g, s.e);
        for (size_t i = 0; i < s.e.size() || i == 0; i++)
        {
            if (i == 0 || i == cut) t += "[" + s.name + "]" + (plain ? "" : g.pick({"", " ; a section", " "})) + eol;
            if (i >= s.e.size()) break;
            noise();
            std::string k = s.e[i].key, v = s.e[i].value;
            if (!plain) casing(g, k);
            std::string eq = plain ? " = " : g.pick({"=", " = ", ":", ": ", "\t=\t", "  =   "});
            t += k + eq + v + (plain ? "" : g.pick({"", "  ", " ; comment", "\t; [x]=y", " ;"})) + eol;
        }
    }
    noise();
    if (!plain && g.chance(20)) t.resize(t.size() - eol.size());
    return t;
}
#endif
