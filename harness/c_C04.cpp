// C04: the input summary reports exactly what was parsed.
// LIBS: IO PhysicsQED Particles Tools
#include "deck.hh"
using namespace pbt;

struct Block { std::string title; std::vector<std::pair<std::string, std::string>> lines; };
static std::string squeeze(const std::string& s) { std::string o; for (char c : s) if (c != ' ' && c != '\t') o += tolower(c); return o; }
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::vector<Block> blocks(const std::string& text)
{
    std::vector<Block> v;
    for (auto& l : lines(text))
    {
        if (trim(l).empty()) continue;
        size_t e = l.find('=');
        if (e == std::string::npos) { v.push_back({trim(l), {}}); continue; }
        require(!v.empty(), "a value outside any block: ", l);
        v.back().lines.push_back({squeeze(l.substr(0, e)), trim(l.substr(e + 1))});
    }
    return v;
}
struct Expect
{
    Block b;
    std::string value(const std::string& key)
    {
        std::string found; int n = 0;
        for (auto& l : b.lines) if (l.first == squeeze(key)) { found = l.second; n++; }
        require(n == 1, "block \"", b.title, "\" has ", n, " lines for ", key);
        return found;
    }
    void text(const std::string& key, const std::string& want) { std::string v = value(key); require(v == trim(want), b.title, ", ", key, ": got \"", v, "\", expected \"", want, "\""); }
    void number(const std::string& key, long double want)
    {
        std::string v = value(key); char* e; double x = strtod(v.c_str(), &e);
        require(*e == 0 && !v.empty() && near(x, (double)want, 1.1e-5), b.title, ", ", key, ": got \"", v, "\", expected ", (double)want);
    }
    void flag(const std::string& key, bool want) { std::string v = value(key); require(v == (want ? "1" : "0") || squeeze(v) == (want ? "true" : "false"), b.title, ", ", key, ": got \"", v, "\", expected ", want); }
    void vec(const std::string& key, V3 want)
    {
        std::string v = value(key); std::vector<double> x; std::string w;
        for (char c : v) w += c == '[' || c == ']' || c == ',' ? ' ' : c;
        std::istringstream s(w); for (double d; s >> d;) x.push_back(d);
        require(x.size() == 3 && near(x[0], (double)want.x, 1.1e-5) && near(x[1], (double)want.y, 1.1e-5) && near(x[2], (double)want.z, 1.1e-5), b.title, ", ", key, ": got \"", v, "\", expected ", str(want));
    }
};

PROPERTY(summary, 8000, 300000, "a deck with a field and a source or histogram")
{
    Deck d = drawDeck(g);
    // the summary is text: a name with '=' in it is no trouble, but white space at its ends is
    std::string t = write(g, d);
    g.note("deck", t);
    if (d.hasField && d.parts.size() + d.hists.size() > 0) g.nontrivial();
    std::string dir = tmpName("cwd");
    mkdir(dir.c_str(), 0700);
    struct Gone { std::string d; ~Gone() { if (chdir(scratchDir().c_str())) {} unlink((d + "/deck.ini").c_str()); unlink((d + "/input-check.txt").c_str()); rmdir(d.c_str()); } } gone{dir};
    require(chdir(dir.c_str()) == 0, "chdir");
    { std::ofstream o("deck.ini", std::ios::binary); o << t; }
    if (g.chance(30)) { std::ofstream o("input-check.txt"); o << "General input parameters\nTime step = 7\nrubbish of an older run, and rather longer than that\n" << std::string(g.chance(50) ? 9000 : 1, 'x') << "\n"; }
    delete new FileParser("deck.ini", true);
    std::string s = slurp("input-check.txt");
    auto all = blocks(s);
    std::vector<Block> parts, hists; Block* general = nullptr; Block* field = nullptr; Block* physics = nullptr;
    for (auto& b : all)
    {
        std::string k = squeeze(b.title);
        auto once = [&](Block*& p) { require(!p, "two blocks \"", b.title, "\""); p = &b; };
        if (k.rfind("general", 0) == 0) once(general);
        else if (k.rfind("field", 0) == 0) once(field);
        else if (k.rfind("physics", 0) == 0) once(physics);
        else if (k.rfind("particle", 0) == 0) parts.push_back(b);
        else if (k.rfind("histogram", 0) == 0) hists.push_back(b);
        else require(false, "an unexpected line: ", b.title);
    }
    require(general && physics && !!field == d.hasField, "missing or extra blocks: ", s);
    Expect e{*general};
    e.text("units", d.units); e.number("time step", d.step / U_TIME); e.number("time end", d.end / U_TIME); e.text("output file", d.file); e.flag("tracking", d.tracking);
    if (field)
    {
        e.b = *field;
        e.text("field type", d.field);
        if (d.field == "static") { e.vec("e strength", d.e / U_E); e.vec("b strength", d.b / U_B); }
        else
        {
            e.number("max e", d.emax / U_E); e.number("wavelength", d.lambda / U_LEN); e.number("polerisation", d.pol);
            if (d.field == "plane") e.vec("direction", d.dir);
            else { e.number("duration", d.dur / U_TIME); e.number("waist", d.waist / U_LEN); e.vec("start", d.start / U_LEN); e.vec("focus", d.focus / U_LEN); }
        }
    }
    e.b = *physics;
    e.text("physics module used", d.model); e.flag("pair production", d.pairs); e.number("sample fraction", d.frac); e.number("minimum photon energy", d.emin / U_EN);
    require(parts.size() == d.parts.size(), parts.size(), " blocks for ", d.parts.size(), " sources");
    require(hists.size() == d.hists.size(), hists.size(), " blocks for ", d.hists.size(), " histograms");
    for (size_t i = 0; i < parts.size(); i++)
    {
        e.b = parts[i]; auto& p = d.parts[i];
        require(squeeze(e.b.title) == cat("particle", i + 1), "block ", e.b.title, " for source ", i + 1);
        e.text("name", p.name); e.number("number", p.number); e.text("type", p.type); e.text("distribution", p.distro); e.number("energy1", p.e1 / U_EN); e.number("energy2", p.e2 / U_EN);
        e.number("radius", p.radius / U_LEN); e.number("divergence", p.div); e.number("duration", p.dur / U_TIME); e.flag("output", p.output); e.vec("direction", p.dir); e.vec("position", p.pos / U_LEN);
    }
    for (size_t i = 0; i < hists.size(); i++)
    {
        e.b = hists[i]; auto& h = d.hists[i];
        require(squeeze(e.b.title) == cat("histogram", i + 1), "block ", e.b.title, " for histogram ", i + 1);
        e.text("name", h.name); e.text("particle", h.particle); e.text("type", h.type); e.number("time", h.time / U_TIME); e.number("bins", h.bins); e.number("min bin", h.lo); e.number("max bin", h.hi);
    }
}

PBT_MAIN
