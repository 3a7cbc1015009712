// C03: INI syntax and typed values follow the documented rules.
// LIBS: IO PhysicsQED Particles Tools
#include "gens.hh"
#include "INIReader.hh"
#include <algorithm>
using namespace pbt;

static std::string lower(std::string s) { for (char& c : s) c = tolower((unsigned char)c); return s; }
static std::string recase(Gen& g, std::string s) { for (char& c : s) if (g.coin()) c = isupper((unsigned char)c) ? tolower(c) : toupper(c); return s; }
static std::string word(Gen& g, const char* alphabet, int lo, int hi)
{
    std::string a = alphabet, s; int n = (int)g.integer(lo, hi);
    for (int i = 0; i < n; i++) s += a[g.index(a.size())];
    return s;
}
static std::string trim(const std::string& s)
{
    size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
// no white space followed by ';', which would start a comment
static std::string calm(std::string s) { for (size_t i = 1; i < s.size(); i++) if (s[i] == ';' && (s[i - 1] == ' ' || s[i - 1] == '\t')) s[i] = ','; return s; }
static const char* LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
static const char* PRINT = "abcXYZ019 _-+.,/\\|!?*&%$@~^(){}<>[]#;:='\"\t";

struct Item { std::string section, name, value; };
struct Text
{
    std::string text; std::vector<Item> items; std::vector<std::string> sections; int lines = 0, firstBad = 0;
};
struct Writer
{
    Gen& g; Text t; std::string eol; bool noisy, last = false;
    std::set<std::string> used; bool canIndent = true;
    explicit Writer(Gen& gg, bool decorate = true) : g(gg) { eol = g.chance(20) ? "\r\n" : "\n"; noisy = decorate && g.chance(80); if (g.chance(10)) t.text = "\xEF\xBB\xBF"; }
    void line(const std::string& s) { t.text += s + eol; t.lines++; }
    void noise() { while (noisy && g.chance(25)) line(g.pick({"", "; name = 7", "# [section]", "   ; indented", "\t# x=y", "   ", "\t", "#", ";"})); }
    void bad() { if (!t.firstBad) t.firstBad = t.lines + 1; line(g.pick({"no separator here", "word", "[unclosed", "a b ; x=y", "name ;=1"})); }
    std::string sectionName()
    {
        if (g.chance(50)) return g.pick({"General", "Field", "Physics", "Particle1", "Particle2", "my section", "a.b-c/d", "x=y:z", "Sec#1", "UPPER", "lower"});
        std::string s; do s = calm(trim(word(g, "abcXYZ019 _-+.,/!?*&%$@(){}<>#:='", 1, 49))); while (s.empty() || s[0] == ';');
        return s;
    }
    void section(const std::string& s)
    {
        noise();
        line((noisy && g.chance(15) && canIndent ? "  " : "") + std::string("[") + s + "]" + (noisy ? g.pick({"", " ", " ; comment", " trailing words", "=1"}) : ""));
        cur = s; canIndent = true;
    }
    std::string cur;
    bool fresh(const std::string& n) { return used.insert(lower(cur + "=" + n)).second; }
    std::string name()
    {
        for (int k = 0;; k++)
        {
            std::string n = g.chance(40) ? g.pick({"time_step", "units", "a", "Name", "energy mean", "x.y", "e-field", "k2", "#x"}) : word(g, "abcdefgXYZ012_-. /()#'", 1, 49);
            n = trim(n);
            if (k > 20) n = cat("key", used.size());
            if (n.empty() || n[0] == '[' || n[0] == ';' || n[0] == '#') continue;
            if (fresh(n)) return n;
        }
    }
    // a value as written; what is read back is kept
    void item(const std::string& n, const std::string& v, bool more = false)
    {
        noise();
        bool tight = !v.empty() && v[0] == ';';
        std::string sep = tight ? g.pick({"=", ":"}) : noisy ? g.pick({"=", ":", " = ", " : ", "\t=", "= ", "  :\t"}) : " = ";
        std::string head = canIndent && noisy && g.chance(15) ? "   " : "";
        line(head + n + sep + v + (noisy ? g.pick({"", "", " ", "\t ", " ; comment", " ;", "\t; a=b", " ;; [x]"}) : ""));
        canIndent = false;
        std::string value = v;
        while (more && g.chance(50))
        {
            noise();
            std::string w;
            do w = calm(trim(word(g, PRINT, 1, 60))); while (w.empty() || w[0] == ';' || w[0] == '#');
            line(g.pick({" ", "   ", "\t", " \t "}) + w + (noisy ? g.pick({"", " ", "\t"}) : ""));
            value += (value.empty() ? "" : "\n") + w;
        }
        t.items.push_back({cur, n, value});
        if (std::find(t.sections.begin(), t.sections.end(), cur) == t.sections.end()) t.sections.push_back(cur);
    }
};
static void read(const Text& t, const std::function<void(const INIReader&)>& f)
{
    std::string n = tmpName("ini");
    struct Gone { std::string n; ~Gone() { unlink(n.c_str()); } } gone{n};
    { std::ofstream o(n, std::ios::binary); o << t.text; }
    INIReader r(n);
    f(r);
}

PROPERTY(syntax, 15000, 600000, "at least two values of which one has several lines or several sections exist")
{
    Writer w(g);
    int ns = (int)g.draw(4); bool multi = false;
    for (int s = 0; s <= ns; s++)
    {
        if (s > 0 || g.coin()) w.section(s > 1 && g.chance(20) && !w.t.sections.empty() ? g.pick(w.t.sections) : w.sectionName());
        int n = (int)g.draw(5);
        for (int i = 0; i < n; i++)
        {
            if (g.chance(4)) { w.noise(); w.bad(); }
            std::string v = calm(trim(word(g, PRINT, 0, 80)));
            size_t was = w.t.items.size();
            w.item(w.name(), v, g.chance(30));
            if (w.t.items[was].value != v) multi = true;
        }
    }
    w.noise();
    Text& t = w.t;
    if (g.chance(20) && t.lines) t.text.resize(t.text.size() - w.eol.size());
    g.note("text", t.text);
    if (t.items.size() > 1 && (multi || t.sections.size() > 1)) g.nontrivial();
    read(t, [&](const INIReader& r) {
        require(r.ParseError() == t.firstBad, "the parse error is ", r.ParseError(), " instead of ", t.firstBad);
        for (auto& i : t.items)
        {
            std::string s = g.coin() ? recase(g, i.section) : i.section, n = g.coin() ? recase(g, i.name) : i.name;
            require(r.HasValue(s, n), "no value for [", s, "] ", n);
            std::string got = r.Get(s, n, "DEFAULT");
            require(got == i.value, "[", s, "] ", n, ": got \"", got, "\", expected \"", i.value, "\"");
            got = r.GetString(s, n, "DEFAULT");
            require(got == (i.value.empty() ? "DEFAULT" : i.value), "string of [", s, "] ", n, ": got \"", got, "\"");
        }
        require(r.GetSections() == t.sections, "other sections than written: ", r.GetSections().size(), " instead of ", t.sections.size());
        // nothing else
        std::string n = w.name();
        require(!r.HasValue(w.cur, n) && r.Get(w.cur, n, "DEFAULT") == "DEFAULT" && r.GetString("nowhere at all", "x", "D") == "D", "a value that was never written: ", n);
    });
}

PROPERTY(typed_values, 15000, 600000, "every case with a value that can be converted")
{
    Writer w(g);
    w.section(w.sectionName());
    struct Want { std::string name, kind, text; bool ok; long n; double x; bool b; V3 v; };
    std::vector<Want> wants;
    int n = (int)g.integer(1, 6);
    for (int i = 0; i < n; i++)
    {
        Want a; a.name = w.name(); a.ok = g.chance(75); a.n = 0; a.x = 0; a.b = false;
        char b[80];
        switch (g.draw(3))
        {
            case 0:
            {
                a.kind = "integer"; a.n = (long)g.logu(1, 9e18); if (g.chance(20)) a.n = (long)g.draw(20); if (g.coin()) a.n = -a.n;
                const char* sign = a.n < 0 ? "-" : g.chance(20) ? "+" : ""; unsigned long m = a.n < 0 ? -a.n : a.n;
                switch (g.draw(3)) { case 0: case 3: snprintf(b, 80, "%s%lu", sign, m); break; case 1: snprintf(b, 80, g.coin() ? "%s0x%lx" : "%s0X%lX", sign, m); break; default: snprintf(b, 80, "%s0%lo", sign, m); }
                a.text = a.ok ? b : g.pick({"", "abc", "x12", "--5", "-", "+", "e5", ".5", "#3", "(4)", "true", "one"});
                break;
            }
            case 1:
            {
                a.kind = "real"; a.x = g.chance(10) ? 0 : g.logu(1e-300, 1e300); if (g.coin() && a.x != 0) a.x = -a.x;
                switch (g.draw(3))
                {
                    case 0: snprintf(b, 80, "%.17g", a.x); break;
                    case 1: snprintf(b, 80, "%.17E", a.x); break;
                    case 2: a.x = (double)(long)g.sreal(1e6); if (a.x == 0) a.x = 0; snprintf(b, 80, "%.0f.", a.x); break;
                    default: a.x = g.coin() ? .5 : -.25; snprintf(b, 80, a.x > 0 ? ".5" : "-.25");
                }
                a.text = a.ok ? b : g.pick({"", "abc", "x1", "--5", "-", ".", "e5", "#3", "(4.5)", "[1]", "true", "E"});
                break;
            }
            case 2:
            {
                a.kind = "boolean"; a.b = g.coin();
                a.text = a.b ? g.pick({"true", "yes", "on", "1"}) : g.pick({"false", "no", "off", "0"});
                if (g.chance(40)) a.text = recase(g, a.text);
                if (!a.ok) a.text = g.pick({"", "2", "maybe", "truee", "y", "n", "tru", "-1", "10", "o", "offf", "yes no", "01"});
                break;
            }
            default:
            {
                a.kind = "vector"; a.v = V3(g.sreal(1) * g.logu(1e-20, 1e20), g.sreal(1) * g.logu(1e-3, 1e3), g.chance(30) ? 0 : g.sreal(100));
                std::string part[3];
                for (int k = 0; k < 3; k++) { double x = (double)(k == 0 ? a.v.x : k == 1 ? a.v.y : a.v.z); snprintf(b, 80, g.coin() ? "%.17g" : g.coin() ? "%.17E" : x < 0 ? "%.17e" : "+%.17e", x == 0 ? 0.0 : x); part[k] = b; }
                std::string sep = g.pick({" ", ",", ", ", " , ", "\t", "   "}), open = g.pick({"", "[", "(", "[ ", "{ ", "( "}), close = open.empty() ? "" : open[0] == '[' ? "]" : open[0] == '(' ? " )" : "}";
                a.text = open + part[0] + sep + part[1] + sep + part[2] + close;
                if (!a.ok) a.text = g.pick({"", "abc", "here", "[]", "( , , )", "none", "x y z", "[ ]"});
            }
        }
        w.item(a.name, a.text);
        wants.push_back(a);
        if (a.ok) g.nontrivial();
        g.label(a.kind + (a.ok ? "" : " unconvertible"));
    }
    w.noise();
    g.note("text", w.t.text);
    long dn = (long)g.integer(-100, 100); double dx = g.sreal(50); bool db = g.coin(); V3 dv(g.sreal(9), g.sreal(9), g.sreal(9)); ThreeVector dt = dv.tv();
    read(w.t, [&](const INIReader& r) {
        auto check = [&](const Want& a, const std::string& section, const std::string& name, bool ok) {
            if (a.kind == "integer") { long v = r.GetInteger(section, name, dn), e = ok ? a.n : dn; require(v == e, "integer \"", a.text, "\": got ", v, ", expected ", e); }
            else if (a.kind == "real") { double v = r.GetReal(section, name, dx), e = ok ? a.x : dx; require(v == e, "real \"", a.text, "\": got ", v, ", expected ", e); }
            else if (a.kind == "boolean") { bool v = r.GetBoolean(section, name, db), e = ok ? a.b : db; require(v == e, "boolean \"", a.text, "\": got ", v, ", expected ", e); }
            else
            {
                ThreeVector v = r.GetThreeVector(section, name, dt), e = ok ? a.v.tv() : dt;
                require(v[0] == e[0] && v[1] == e[1] && v[2] == e[2], "vector \"", a.text, "\": got ", str(V3(v)), ", expected ", str(V3(e)));
            }
        };
        for (auto& a : wants)
        {
            check(a, g.coin() ? recase(g, w.cur) : w.cur, g.coin() ? recase(g, a.name) : a.name, a.ok);
            check(a, w.cur, a.name + "?", false);       // a missing name
            check(a, w.cur + "?", a.name, false);       // a missing section
        }
    });
}

PBT_MAIN
