// C02: malformed decks are refused cleanly, never crash or hang.
// LIBS: IO PhysicsQED Particles Tools
#include "deck.hh"
using namespace pbt;

static std::string save(const std::string& text) { std::string name = tmpName("deck") + ".ini"; std::ofstream o(name, std::ios::binary); o << text; return name; }
static Outcome read(const std::string& name)
{
    return runForked([&]() {
        FileParser p(name);
        // touch everything a user of the parser gets
        std::ostringstream s;
        auto v = [&](ThreeVector x) { s << x[0] << x[1] << x[2]; };
        s << p.GetGeneral().units << p.GetGeneral().timeStep << p.GetGeneral().fileName << p.GetField().Type << p.GetPhysics().Physics << p.GetPhysics().MinEnergy;
        for (auto& x : p.GetParticle()) { s << x.Name << x.Type << x.Distro << x.Number << x.Energy1; v(x.Position); v(x.Direction); }
        for (auto& x : p.GetHistograms()) s << x.Name << x.Particle << x.Type << x.Bins << x.Time;
        if (!(p.GetGeneral().timeStep > 0)) { std::cerr << "PBT: accepted a time step of " << p.GetGeneral().timeStep << "\n"; return 96; }
        return s.str().size() > 0 ? 0 : 95;
    }, 10);
}
static void clean(const Outcome& o)
{
    require(!o.timeout, "reading the deck does not end");
    require(o.sig == 0, "reading the deck crashes with signal ", o.sig, ": ", o.err.substr(0, 800));
    require(o.err.find("AddressSanitizer") == std::string::npos && o.err.find("runtime error") == std::string::npos && o.code != 77, "memory error: ", o.err.substr(0, 1500));
    require(o.code != 97 && o.code != 98, "uncaught exception: ", o.err);
    require(o.code < 95 || o.code > 96, o.err);
    require(o.code == 0 || !o.err.empty(), "refused with status ", o.code, " without a word on standard error");
}
static void refused(const std::string& name, const std::string& why)
{
    Outcome o = read(name);
    clean(o);
    require(o.code != 0, "accepted a deck ", why);
}

static std::string junk(Gen& g, int n)
{
    std::string s;
    for (int i = 0; i < n; i++) s += g.chance(50) ? (char)g.draw(255) : "[]=:;#\n\r\t .,-+eE0123456789xX(){}\\\"'"[g.draw(35)];
    return s;
}
static std::string token(Gen& g)
{
    switch (g.draw(12))
    {
        case 0: return "["; case 1: return "]"; case 2: return "="; case 3: return "\n[General]\n"; case 4: return "\n   continued";
        case 5: return std::string(1, '\0'); case 6: return "1e999"; case 7: return "-nan"; case 8: return "0x"; case 9: return "99999999999999999999999";
        case 10: return std::string(g.integer(1, 2000), "a [=;0."[g.draw(6)]); case 11: return "\n" + std::string(g.integer(40, 60), 'n') + "=1\n";
        default: return "\n[" + std::string(g.integer(40, 260), 's') + "]\nx=1\n";
    }
}

// valid decks with bytes changed
PROPERTY(mutated_decks, 12000, 600000, "a deck that differs from the valid one")
{
    std::string t = write(g, drawDeck(g)), was = t;
    int n = (int)g.integer(1, 8);
    for (int i = 0; i < n && !t.empty(); i++)
    {
        size_t a = g.index(t.size()), b = std::min(t.size(), a + (size_t)g.logu(1, 80)), c = g.index(t.size());
        switch (g.draw(8))
        {
            case 0: t[a] = (char)g.draw(255); break;
            case 1: t.erase(a, b - a); break;
            case 2: t.insert(c, t.substr(a, b - a)); break;
            case 3: t.insert(a, token(g)); break;
            case 4: t.insert(a, junk(g, (int)g.integer(1, 30))); break;
            case 5: t.resize(a); break;
            case 6: { size_t e = t.find('\n', a); if (e != std::string::npos) t.erase(e, 1); break; }
            case 7: { size_t l = t.rfind('=', a); if (l != std::string::npos) t.replace(l + 1, t.find('\n', l) - l - 1, token(g)); break; }
            default: { size_t p = t.find_first_of("0123456789", a); if (p != std::string::npos) t.insert(p, g.pick({"-", "e", "999999999", ".", "0x", " "})); }
        }
    }
    g.note("deck", t);
    if (t != was) g.nontrivial();
    std::string name = save(t);
    Outcome o = read(name);
    unlink(name.c_str());
    g.label(o.code ? "refused" : "accepted");
    clean(o);
}

PROPERTY(random_bytes, 3000, 150000, "more than twenty bytes")
{
    std::string t;
    int kind = (int)g.draw(3), n = (int)g.logu(1, 3000);
    if (kind == 0) for (int i = 0; i < n; i++) t += (char)g.draw(255);
    else if (kind == 1) t = junk(g, n);
    else for (int i = 0; i < n / 10 + 1; i++)
        t += g.chance(40) ? token(g) : g.pick({"[General]\n", "units=SI\n", "time_step=1e-15\n", "time_end = 1e-14\n", "[Field]\n", "field_type=static\n", "e_field=", "[Particle1]\n", "[Histogram1]\n", "b_field = ", "1 2 3 4\n", "position:", "number_particles = -4\n", "bins=-1\n", "direction=", "\n", "\r\n"});
    g.note("bytes", t);
    if (t.size() > 20) g.nontrivial();
    std::string name = save(t);
    Outcome o = read(name);
    unlink(name.c_str());
    g.label(o.code ? "refused" : "accepted");
    clean(o);
}

// a valid deck with one of the listed faults
PROPERTY(listed_faults, 6000, 200000, "every case")
{
    Deck d = drawDeck(g);
    g.nontrivial();
    auto& gen = d.sections[0];
    auto drop = [&](const std::string& key) { for (size_t i = 0; i < gen.e.size(); i++) if (gen.e[i].key == key) { gen.e.erase(gen.e.begin() + i); return; } };
    auto set = [&](Section& s, const std::string& key, const std::string& v) { for (auto& e : s.e) if (e.key == key) { e.value = v; return; } s.e.push_back({key, v}); };
    auto find = [&](const std::string& start) { for (auto& s : d.sections) if (s.name.rfind(start, 0) == 0) return &s; return (Section*)nullptr; };
    // a valid word with one letter too many, too few or changed
    auto almost = [&](const std::vector<std::string>& words)
    {
        std::string w = words[g.integer(0, words.size() - 1)];
        size_t at = g.integer(0, w.size());
        std::string c(1, (char)('a' + g.integer(0, 25)));
        switch (g.integer(0, 3))
        {
            case 0: w += c; break;
            case 1: w.insert(at, c); break;
            case 2: if (w.size() > 2) { w.erase(std::min(at, w.size() - 1), 1); break; }
                    w += c; break;
            default: at = std::min(at, w.size() - 1); w[at] = w[at] == c[0] ? '_' : c[0];
        }
        for (auto& v : words) { std::string a = v, b = w; for (auto& x : a) x = tolower(x); for (auto& x : b) x = tolower(x); if (a == b) return w + "x"; }
        return w;
    };
    std::string why;
    switch (g.draw(8))
    {
        case 0: d.sections.erase(d.sections.begin()); why = "without a general section"; break;
        case 1: drop("time_step"); why = "without a time step"; break;
        case 2: drop("time_end"); why = "without an end time"; break;
        case 3: drop("units"); why = "without units"; break;
        case 4: set(gen, "units", g.coin() ? g.pick({"cgs", "CGS", "SIs", "S I", "0", "natural", "foot"}) : almost({"SI", "si"})); why = "with unknown units"; break;
        case 5: set(gen, "time_step", g.pick({"0", "-1e-15", "-0", "abc", "1e-400", "0x0", "nan", "-inf", "-5e-324"})); why = "with a time step that is not positive"; break;
        case 6:
        {
            Section* s = find("Field");
            if (!s) { d.sections.push_back({"Field", {}}); s = &d.sections.back(); }
            set(*s, "field_type", g.coin() ? g.pick({"magnetic", "Statics", "laser", "plane wave", "gauss", "statics", "focus", "planes", "0"})
                : almost({"static", "plane", "gaussian", "focusing"})); why = "with an unknown field type"; break;
        }
        case 7:
        {
            Section* s = find(g.coin() ? "Particle1" : "Field");
            std::string key;
            if (s && s->name == "Field") key = d.field == "static" ? g.pick({"e_field", "b_field"}) : d.field == "plane" ? "direction" : g.pick({"start", "focus"});
            else { if (!s) { d.sections.push_back({"Particle1", {}}); s = &d.sections.back(); } key = g.pick({"position", "direction"}); }
            std::string v = vector(g, V3(g.sreal(3), g.sreal(3), g.sreal(3)));
            std::string more; int n = (int)g.integer(1, 3);
            for (int i = 0; i < n; i++) more += g.pick({" ", ",", ", "}) + (g.chance(30) ? g.pick({"0", "0.0", "-0", "0e5"}) : num(g, g.sreal(5)));
            if (v.find_first_of(")]}") != std::string::npos) v.insert(v.find_first_of(")]}"), more); else v += more;
            set(*s, key, v); why = "with too many components of " + key; break;
        }
        default: drop("units"); drop("time_end"); why = "without units and end time"; break;
    }
    std::string t = write(g, d);
    g.note("fault", why); g.note("deck", t); g.label(why);
    std::string name = save(t);
    struct Gone { std::string n; ~Gone() { unlink(n.c_str()); } } gone{name};
    refused(name, why);
}

PROPERTY(no_such_file, 200, 2000, "every case")
{
    g.nontrivial();
    std::string n = tmpName("missing");
    switch (g.draw(4))
    {
        case 0: n += ".ini"; break;
        case 1: n += "/deck.ini"; break;
        case 2: n = ""; break;
        case 3: n = std::string(g.integer(200, 6000), 'x') + ".ini"; break;
        default: mkdir(n.c_str(), 0700);        // a directory
    }
    g.note("file", n.substr(0, 60));
    refused(n, "that does not exist");
    rmdir(n.c_str());
}

PBT_MAIN
