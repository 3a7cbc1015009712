// C01: deck values reach the simulation faithfully and in consistent units.
// LIBS: IO PhysicsQED Particles Tools
#include "deck.hh"
using namespace pbt;

static void same(double got, long double want, const char* what, double rel = 1e-13) { require(near(got, (double)want, rel), what, ": got ", got, ", expected ", (double)want); }
static void sameV(ThreeVector got, V3 want, const char* what) { for (int i = 0; i < 3; i++) require(near(got[i], (double)want[i], 1e-13), what, ": got ", str(V3(got)), ", expected ", str(want)); }
static void sameS(const std::string& got, const std::string& want, const char* what) { require(got == want, what, ": got \"", got, "\", expected \"", want, "\""); }

static void compare(const FileParser& f, const Deck& d)
{
    GeneralParameters ge = f.GetGeneral();
    sameS(ge.units, d.units, "units"); same(ge.timeStep, d.step / U_TIME, "time_step"); same(ge.timeEnd, d.end / U_TIME, "time_end"); sameS(ge.fileName, d.file, "file_name");
    require(ge.tracking == d.tracking, "tracking: got ", ge.tracking);
    if (d.hasField)
    {
        FieldParameters x = f.GetField();
        sameS(x.Type, d.field, "field_type");
        if (d.field == "static") { sameV(x.E, d.e / U_E, "e_field"); sameV(x.B, d.b / U_B, "b_field"); }
        else
        {
            same(x.MaxE, d.emax / U_E, "e_max"); same(x.Wavelength, d.lambda / U_LEN, "wavelength"); same(x.Polerisation, d.pol, "polerisation", 0);
            if (d.field == "plane") sameV(x.Direction, d.dir, "direction");
            else { same(x.Duration, d.dur / U_TIME, "duration"); same(x.Waist, d.waist / U_LEN, "waist"); sameV(x.Start, d.start / U_LEN, "start"); sameV(x.Focus, d.focus / U_LEN, "focus"); }
        }
    }
    PhysicsParameters p = f.GetPhysics();
    sameS(p.Physics, d.model, "radiation_model"); same(p.MinEnergy, d.emin / U_EN, "min_energy"); same(p.SampleFraction, d.frac, "sample_fraction", 0); require(p.PairProduction == d.pairs, "pair_production: got ", p.PairProduction);
    auto ps = f.GetParticle(); auto hs = f.GetHistograms();
    require(ps.size() == d.parts.size(), ps.size(), " particle sources instead of ", d.parts.size());
    require(hs.size() == d.hists.size(), hs.size(), " histograms instead of ", d.hists.size());
    for (size_t i = 0; i < ps.size(); i++)
    {
        auto &a = ps[i]; auto& b = d.parts[i];
        require((long)a.Number == b.number, "number_particles of source ", i + 1, ": got ", a.Number, ", expected ", b.number);
        sameS(a.Name, b.name, "name"); sameS(a.Type, b.type, "particle_type"); sameS(a.Distro, b.distro, "energy_distribution");
        sameV(a.Position, b.pos / U_LEN, "position"); sameV(a.Direction, b.dir, "direction of the source"); same(a.Energy1, b.e1 / U_EN, "energy_mean"); same(a.Energy2, b.e2 / U_EN, "energy_sig");
        same(a.Radius, b.radius / U_LEN, "radius"); same(a.Divergence, b.div, "divergence", 0); same(a.Duration, b.dur / U_TIME, "duration of the source"); require(a.Output == b.output, "output of source ", i + 1, ": got ", a.Output);
    }
    for (size_t i = 0; i < hs.size(); i++)
    {
        auto &a = hs[i]; auto& b = d.hists[i];
        sameS(a.Name, b.name, "name of the histogram"); sameS(a.Particle, b.particle, "particle"); sameS(a.Type, b.type, "type"); same(a.Time, b.time / U_TIME, "time");
        require((long)a.Bins == b.bins, "bins of histogram ", i + 1, ": got ", a.Bins, ", expected ", b.bins); same(a.MinBin, b.lo, "min_bin", 0); same(a.MaxBin, b.hi, "max_bin", 0);
    }
}
static void parse(const std::string& text, const std::function<void(const FileParser&)>& f)
{
    std::string name = tmpName("deck") + ".ini";
    struct Gone { std::string n; ~Gone() { unlink(n.c_str()); } } gone{name};
    { std::ofstream o(name, std::ios::binary); o << text; }
    FileParser p(name);
    f(p);
}

PROPERTY(decks, 20000, 800000, "a deck with a field, a source and a histogram")
{
    Deck d = drawDeck(g);
    std::string t = write(g, d);
    g.note("deck", t);
    if (d.hasField && !d.parts.empty() && !d.hists.empty()) g.nontrivial();
    parse(t, [&](const FileParser& f) { compare(f, d); });
}

// the same deck in another order and decoration gives the same values
PROPERTY(order_and_comments, 6000, 200000, "every case")
{
    Deck d = drawDeck(g);
    g.nontrivial();
    std::string a = write(g, d), b = write(g, d);
    g.note("first", a); g.note("second", b);
    parse(a, [&](const FileParser& f) { compare(f, d); });
    parse(b, [&](const FileParser& f) { compare(f, d); });
}

// sections beyond a gap in the numbers, or unknown ones, are no sources; unknown keys change nothing
PROPERTY(foreign_sections, 6000, 200000, "every case")
{
    Deck d = drawDeck(g);
    g.nontrivial();
    Deck w = d;
    if (g.coin())
    {
        // names that only begin as the next one would
        bool part = g.coin(); size_t next = (part ? d.parts.size() : d.hists.size()) + 1; std::string stem = part ? "Particle" : "Histogram";
        std::string name = g.coin() ? pbt::cat(stem, next, g.pick({"0", "7", "x", "_old", " b"})) : g.coin() ? pbt::cat(stem, next + 1 + g.draw(20)) : pbt::cat(g.pick({"0", "My", "x"}), stem, next);
        w.sections.push_back({name, {{"name", "no"}, {"time", "1e-15"}, {"number_particles", "5"}}});
    }
    if (g.coin()) w.sections.push_back({g.pick({"Output", "Notes", "Particle", "Particles1", "Histogram", "General2", "Field2"}), {{"time_step", "7"}, {"name", "no"}}});
    for (auto& s : w.sections) if (g.chance(30)) s.e.push_back({g.pick({"comment_", "energy", "time", "x", "name2", "bin"}) + "_x", g.pick({"1", "abc", "1 2 3 4 5"})});
    std::string t = write(g, w);
    g.note("deck", t);
    parse(t, [&](const FileParser& f) { compare(f, d); });
}

PBT_MAIN
