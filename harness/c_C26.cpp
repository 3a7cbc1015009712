// C26: histograms count each particle once in the nearest bin of the right quantity.
// LIBS: IO PhysicsQED Particles Tools
#include "phys.hh"
#include "Histogram.hh"
using namespace pbt;

static const char* TYPES[] = {"Energy", "X", "Y", "Z", "PX", "PY", "PZ", "energy", "x", "y", "z", "px", "py", "pz"};
struct Part { V3 x, p; int kind; };
static Particle* make(const Part& a) { return a.kind == 0 ? (Particle*)new Photon(a.x.tv(), a.p.tv()) : (Particle*)new Lepton(1, a.kind == 1 ? -1 : 1, a.x.tv(), a.p.tv()); }
static double quantity(const Part& a, int type)
{
    int t = type % 7;
    if (t == 0) return (double)(a.kind == 0 ? mag(a.p) : std::sqrt(1 + dot(a.p, a.p)));
    return (double)(t < 4 ? a.x[t - 1] : a.p[t - 4]);
}

// bins, what they hold, and the bins that a value half way between two may be in
struct Model
{
    double lo, hi; unsigned n; std::vector<double> v;
    std::vector<std::pair<int, int>> open;     // counted in one of two
    double centre(unsigned i) const { return lo + i * ((hi - lo) / (n - 1.0)); }
};
static std::vector<double> read(Histogram& h) { return std::vector<double>(h.GetBinValues(), h.GetBinValues() + h.GetNBins()); }
// what adding a value must have done to the bins
static void added(const Model& m, const std::vector<double>& before, const std::vector<double>& after, double q, const std::string& what)
{
    double d = (m.hi - m.lo) / (m.n - 1.0), tol = 1e-9 * d + 4e-16 * std::max(std::fabs(m.lo), std::fabs(m.hi));
    int hit = -1, hits = 0;
    for (unsigned i = 0; i < m.n; i++) if (after[i] != before[i])
    {
        require(near(after[i], before[i] + 1, 1e-14), what, ": bin ", i, " went from ", before[i], " to ", after[i]);
        hit = i; hits++;
    }
    require(hits <= 1, what, ": ", hits, " bins changed");
    bool edge = std::fabs(q - m.lo) <= tol || std::fabs(q - m.hi) <= tol;
    if (!edge && (q < m.lo || q > m.hi || std::isnan(q))) { require(hits == 0, what, ": ", q, " lies outside and was counted in bin ", hit, " at ", m.centre(hit)); return; }
    if (!edge) require(hits == 1, what, ": ", q, " was not counted");
    if (hits) for (unsigned i = 0; i < m.n; i++)
        require(std::fabs(q - m.centre(hit)) <= std::fabs(q - m.centre(i)) + tol, what, ": ", q, " was counted in bin ", hit, " at ", m.centre(hit), ", bin ", i, " at ", m.centre(i), " is nearer");
}
static Model drawBins(Gen& g, double scale)
{
    Model m; m.n = (unsigned)(g.chance(30) ? g.integer(2, 5) : g.chance(3) ? g.integer(121, 5000) : g.integer(2, 120));
    switch (g.draw(3))
    {
        case 0: m.lo = 0; m.hi = scale * g.real(0.1, 2); break;
        case 1: m.lo = -scale * g.real(0.1, 2); m.hi = scale * g.real(0.1, 2); break;
        case 2: m.lo = g.sreal(scale); m.hi = m.lo + scale * g.logu(1e-3, 2); break;
        default: m.lo = (double)g.integer(-5, 5); m.hi = m.lo + g.integer(1, 12); break;
    }
    m.v.assign(m.n, 0);
    return m;
}
static Part drawPart(Gen& g, const Model& m, int type)
{
    double q;
    switch (g.draw(4))
    {
        case 0: q = g.real(m.lo, m.hi); break;
        case 1: q = m.centre((unsigned)g.index(m.n)); break;                                                 // at a centre
        case 2: { unsigned i = (unsigned)g.index(m.n - 1); q = m.centre(i) + (m.centre(i + 1) - m.centre(i)) * (0.5 + (g.coin() ? 1 : -1) * g.logu(1e-7, 0.4)); break; }  // near the middle of two
        case 3: q = m.lo - (m.hi - m.lo) * g.logu(1e-8, 3); break;
        default: q = m.hi + (m.hi - m.lo) * g.logu(1e-8, 3); break;
    }
    Part a; a.kind = (int)g.draw(2);
    double sc = std::max(std::fabs(m.lo), std::fabs(m.hi));
    // the other components fall into the range as well: a mix-up of quantities shows
    a.x = V3(V3(g.sreal(sc), g.sreal(sc), g.sreal(sc)).tv()); a.p = V3((gen::direction(g) * g.logu(0.05 * sc + 1e-3, 2 * sc + 1e-2)).tv());
    int t = type % 7;
    if (t == 0) { long double e = std::fabs((long double)q), k = a.kind == 0 ? e : e > 1 ? std::sqrt(e * e - 1) : 0.5L; if (k > 0) a.p = V3((unit(a.p) * k).tv()); }
    else { V3& v = t < 4 ? a.x : a.p; ((t - 1) % 3 == 0 ? v.x : (t - 1) % 3 == 1 ? v.y : v.z) = q; }
    return a;
}

PROPERTY(counting, 40000, 1500000, "particles of more than one kind, at least one inside and one outside")
{
    int type = (int)g.draw(13);
    double scale = g.logu(1e-3, 1e5);
    Model m = drawBins(g, scale);
    g.note("type", TYPES[type]); g.note("bins", m.n); g.note("from", m.lo); g.note("to", m.hi);
    std::string name = g.pick({"h", "a histogram", ""}), pname = g.pick({"Electron", "Photon", "Positron", "x"}); double time = g.sreal(100);
    Histogram h(name, pname, TYPES[type], time, m.lo, m.hi, m.n);
    require(h.GetNBins() == m.n && h.GetName() == name && h.GetParticle() == pname && h.GetTime() == time, "the histogram does not keep its name, particle, time or number of bins");
    for (unsigned i = 0; i < m.n; i++)
    {
        require(near(h.GetBinCentres()[i], m.centre(i), 1e-13, 1e-13 * std::max(std::fabs(m.lo), std::fabs(m.hi))), "bin ", i, " is at ", h.GetBinCentres()[i], " instead of ", m.centre(i));
        require(h.GetBinValues()[i] == 0, "bin ", i, " of a new histogram holds ", h.GetBinValues()[i]);
    }
    int n = (int)g.integer(1, 25); std::set<int> kinds; bool in = false, out = false;
    for (int i = 0; i < n; i++)
    {
        Part a = drawPart(g, m, type);
        std::unique_ptr<Particle> p(make(a));
        a.p = V3(p->GetMomentum()); a.x = V3(p->GetPosition());
        double q = quantity(a, type);
        g.note("value", q);
        kinds.insert(a.kind); (q > m.lo && q < m.hi ? in : out) = true;
        std::vector<double> before = read(h);
        h.AppParticle(p.get());
        added(m, before, read(h), q, cat("particle ", i));
        require(nearV(V3(p->GetMomentum()), a.p, 0) && nearV(V3(p->GetPosition()), a.x, 0) && p->IsAlive(), "counting a particle changed it");
    }
    if (kinds.size() > 1 && in && out) g.nontrivial();
}

PROPERTY(filling_and_merging, 15000, 500000, "a list with several particles inside the range")
{
    int type = (int)g.draw(13);
    Model m = drawBins(g, g.logu(1e-2, 1e4));
    int n = (int)g.integer(0, 40); std::vector<Part> ps; int in = 0;
    g.note("type", TYPES[type]); g.note("bins", m.n); g.note("from", m.lo); g.note("to", m.hi); g.note("particles", n);
    ParticleList list("list", 100);
    for (int i = 0; i < n; i++) { ps.push_back(drawPart(g, m, type)); Particle* p = make(ps.back()); list.AddParticle(p); }
    auto fresh = [&]() { return new Histogram("h", "Electron", TYPES[type], 0, m.lo, m.hi, m.n); };
    std::unique_ptr<Histogram> one(fresh()), filled(fresh());
    for (int i = 0; i < n; i++) one->AppParticle(list.GetParticle(i));
    filled->Fill(&list);
    std::vector<double> c = read(*one), f = read(*filled);
    double sum = 0; for (double v : c) sum += v;
    in = (int)sum;
    if (in > 2) g.nontrivial();
    for (unsigned i = 0; i < m.n; i++)
        require(near(f[i], sum > 0 ? c[i] / sum : 0, 1e-12), "bin ", i, " of the filled histogram holds ", f[i], ", counted one by one ", c[i], " of ", sum);
    require(list.GetNPart() == (unsigned)n, "filling changed the list");
    // merging: parts of the list, counted apart
    int cut = (int)g.draw(n);
    std::unique_ptr<Histogram> a(fresh()); Histogram* b = fresh();
    for (int i = 0; i < n; i++) (i < cut ? a.get() : b)->AppParticle(list.GetParticle(i));
    a->Merge(b);
    std::vector<double> s = read(*a);
    for (unsigned i = 0; i < m.n; i++) require(s[i] == c[i], "bin ", i, " of the merged histogram holds ", s[i], " instead of ", c[i]);
    // incompatible histograms leave it as it is
    int how = (int)g.draw(3);
    unsigned n2 = how == 0 ? m.n + 1 + (unsigned)g.draw(3) : m.n; double lo2 = how == 1 || how == 3 ? m.lo - (m.hi - m.lo) * g.logu(1e-3, 1) : m.lo, hi2 = how == 2 || how == 3 ? m.hi + (m.hi - m.lo) * g.logu(1e-3, 1) : m.hi;
    if (how == 0 && g.coin() && m.n > 2) n2 = m.n - 1;
    g.note("incompatible", how);
    Histogram* other = new Histogram("other", "Electron", TYPES[type], 0, lo2, hi2, n2);
    for (int i = 0; i < n; i++) other->AppParticle(list.GetParticle(i));
    std::stringstream diag; auto* old = std::cerr.rdbuf(diag.rdbuf());
    a->Merge(other);
    std::cerr.rdbuf(old);
    require(!diag.str().empty(), "no message for histograms that do not fit (", m.n, " bins ", m.lo, " to ", m.hi, " and ", n2, " bins ", lo2, " to ", hi2, ")");
    require(read(*a) == c && a->GetNBins() == m.n, "merging a histogram that does not fit changed the contents");
    // and it still counts
    if (n) { std::vector<double> before = read(*a); a->AppParticle(list.GetParticle(0)); Part p = ps[0]; p.p = V3(list.GetParticle(0)->GetMomentum()); added(m, before, read(*a), quantity(p, type), "after merging"); }
    // filling a second time adds to what is there
    filled->Fill(&list);
    std::vector<double> f2 = read(*filled);
    if (sum > 0) for (unsigned i = 0; i < m.n; i++) require(near(f2[i], c[i] / sum, 1e-12), "filling twice from the same list changes the shape in bin ", i, ": ", f2[i], " instead of ", c[i] / sum);
}

// any history of counting, filling and merging over several histograms, against plain arrays
PROPERTY(histories, 4000, 150000, "a fill after a merge, with something counted")
{
    int type = (int)g.draw(13);
    Model m = drawBins(g, g.logu(1e-2, 1e4));
    g.note("type", TYPES[type]); g.note("bins", m.n); g.note("from", m.lo); g.note("to", m.hi);
    struct H { std::unique_ptr<Histogram> h; std::vector<double> v; };
    auto fresh = [&]() { H x; x.h.reset(new Histogram("h", "Electron", TYPES[type], 0, m.lo, m.hi, m.n)); x.v.assign(m.n, 0); return x; };
    std::vector<H> hs; for (int i = 0, k = (int)g.integer(1, 3); i < k; i++) hs.push_back(fresh());
    bool merged = false, good = false; int steps = (int)g.integer(1, 14);
    auto count = [&](Particle* p) { // the counts of one particle, as a new histogram has them: the property "counting" decides where they belong
        H one = fresh(); one.h->AppParticle(p); return read(*one.h); };
    auto compare = [&](H& x, const char* what) {
        std::vector<double> c = read(*x.h);
        for (unsigned i = 0; i < m.n; i++) require(near(c[i], x.v[i], 1e-11, 1e-13), what, ": bin ", i, " holds ", c[i], " instead of ", x.v[i]); };
    for (int s = 0; s < steps; s++)
    {
        size_t w = g.index(hs.size()); H& x = hs[w];
        int op = (int)g.draw(4);
        g.note("step", cat(op, " on ", w));
        if (op <= 1)
        {
            std::unique_ptr<Particle> p(make(drawPart(g, m, type)));
            std::vector<double> c = count(p.get());
            x.h->AppParticle(p.get());
            for (unsigned i = 0; i < m.n; i++) x.v[i] += c[i];
            compare(x, "after a particle");
        }
        else if (op == 2)
        {
            ParticleList list("list", 4); int n = (int)g.integer(0, 4);
            double sum = 0; for (int i = 0; i < n; i++) { Particle* p = make(drawPart(g, m, type)); list.AddParticle(p); std::vector<double> c = count(p); for (unsigned j = 0; j < m.n; j++) x.v[j] += c[j]; }
            x.h->Fill(&list);
            for (double v : x.v) sum += v;
            for (double& v : x.v) if (sum > 0) v /= sum;
            if (sum > 0 && merged) good = true;
            compare(x, "after a list");
        }
        else
        {
            H other = fresh();
            for (int i = 0, n = (int)g.draw(3); i < n; i++) { std::unique_ptr<Particle> p(make(drawPart(g, m, type))); std::vector<double> c = count(p.get()); other.h->AppParticle(p.get()); for (unsigned j = 0; j < m.n; j++) other.v[j] += c[j]; }
            if (hs.size() > 1 && g.coin()) { size_t o = g.index(hs.size()); if (o != w) { std::swap(other, hs[o]); } } // the place is taken by the one just made
            for (unsigned j = 0; j < m.n; j++) hs[w].v[j] += other.v[j];
            hs[w].h->Merge(other.h.release());
            merged = true;
            compare(hs[w], "after a merge");
        }
    }
    if (good) g.nontrivial();
}

PROPERTY(refusals, 150, 4000, "every case")
{
    g.nontrivial();
    bool empty = g.coin();
    std::string type = g.pick({"", "Gamma", "ENERGY", "Px", "Weight", "XX", "eta", "Momentum", "xy"});
    g.note("uninitialised", empty); g.note("type", type);
    Outcome o = runForked([&]() {
        std::unique_ptr<Histogram> h(empty ? new Histogram() : new Histogram("h", "Electron", type, 0, 0, 1, 10));
        std::unique_ptr<Particle> p(make({V3(0.5, 0.5, 0.5), V3(0.5, 0.5, 0.5), (int)g.draw(2)}));
        h->AppParticle(p.get());
        return 0;
    });
    require(o.code != 0 && o.sig == 0 && !o.timeout && o.err.find("Sanitizer") == std::string::npos, empty ? "a histogram that was not set up" : "a histogram of \"" + type + "\"", " counted a particle, or crashed: status ", o.code, ", signal ", o.sig, " ", o.err.substr(0, 500));
    require(!o.err.empty(), "refused without a diagnostic");
}

// setting up an empty histogram later is the same as building it
PROPERTY(initialise, 3000, 50000, "every case")
{
    g.nontrivial();
    int type = (int)g.draw(13);
    Model m = drawBins(g, g.logu(1e-2, 1e4));
    g.note("type", TYPES[type]); g.note("bins", m.n); g.note("from", m.lo); g.note("to", m.hi);
    Histogram h; h.Initialise("late", "Photon", TYPES[type], 3, m.lo, m.hi, m.n);
    Histogram r("late", "Photon", TYPES[type], 3, m.lo, m.hi, m.n);
    for (int i = 0; i < 10; i++) { std::unique_ptr<Particle> p(make(drawPart(g, m, type))); h.AppParticle(p.get()); r.AppParticle(p.get()); }
    require(h.GetNBins() == r.GetNBins() && h.GetName() == "late" && h.GetParticle() == "Photon" && h.GetTime() == 3, "set up differently");
    require(read(h) == read(r), "counts differently");
    for (unsigned i = 0; i < m.n; i++) require(h.GetBinCentres()[i] == r.GetBinCentres()[i], "bin ", i, " lies elsewhere");
}

// large numbers: every particle counts, alone, in lists and in merged parts
PROPERTY(many_particles, 150, 3000, "a bin that counts more than a thousand")
{
    int type = (int)g.draw(13), n = (int)g.logu(500, 30000), parts = (int)g.integer(1, 4);
    Model m; m.n = (unsigned)g.integer(2, g.chance(70) ? 12 : 400); m.lo = g.coin() ? 0 : -g.logu(0.1, 10); m.hi = g.logu(0.1, 10); m.v.assign(m.n, 0);
    g.note("type", TYPES[type]); g.note("bins", m.n); g.note("from", m.lo); g.note("to", m.hi); g.note("particles", n); g.note("parts", parts);
    std::mt19937_64 rng(g.seed()); std::uniform_real_distribution<double> u(0, 1);
    double focus = g.coin() ? 1 : g.logu(1e-2, 1), d = (m.hi - m.lo) / (m.n - 1.0);
    std::vector<double> want(m.n, 0); double inside = 0, doubt = 0;
    auto fresh = [&]() { return new Histogram("h", "Electron", TYPES[type], 0, m.lo, m.hi, m.n); };
    std::unique_ptr<Histogram> all(fresh()), filled(fresh());
    ParticleList list("list", n);
    for (int i = 0; i < n; i++)
    {
        // between 5 % beyond both ends, or gathered in few bins; never half way between two
        double q;
        do q = m.lo + (m.hi - m.lo) * (focus < 1 ? focus * u(rng) : u(rng) * 1.1 - 0.05); while (std::fabs((q - m.lo) / d - std::floor((q - m.lo) / d) - 0.5) < 1e-6);
        int t = type % 7;
        // energies of electrons are at least one: photons carry any
        V3 x(u(rng), u(rng), u(rng)), p(u(rng), u(rng), u(rng));
        if (t == 0) { q = std::fabs(q); if (std::fabs((q - m.lo) / d - std::floor((q - m.lo) / d) - 0.5) < 1e-6) q += 1e-4 * d; p = V3(0, 0, q); } else { V3& v = t < 4 ? x : p; ((t - 1) % 3 == 0 ? v.x : (t - 1) % 3 == 1 ? v.y : v.z) = q; }
        list.AddParticle(new Photon(x.tv(), p.tv(), u(rng) < 0.5 ? 1 : u(rng) * 10));
        if (std::fabs(q - m.lo) < 1e-9 * d || std::fabs(q - m.hi) < 1e-9 * d) { doubt++; continue; }
        if (q > m.lo && q < m.hi) { want[(size_t)std::floor((q - m.lo) / d + 0.5)]++; inside++; }
    }
    for (double w : want) if (w > 1000) { g.nontrivial(); break; }
    std::vector<std::unique_ptr<Histogram>> part; for (int k = 0; k < parts; k++) part.emplace_back(fresh());
    for (int i = 0; i < n; i++) part[(i * 7) % parts]->AppParticle(list.GetParticle(i));
    for (int k = 0; k < parts; k++) all->Merge(part[k].release());
    filled->Fill(&list);
    std::vector<double> a = read(*all), f = read(*filled); double total = 0;
    for (unsigned i = 0; i < m.n; i++)
    {
        require(std::fabs(a[i] - want[i]) <= doubt, "bin ", i, " at ", m.centre(i), " counts ", a[i], " of ", n, " particles in ", parts, " parts, there are ", want[i]);
        require(inside == 0 || std::fabs(f[i] - want[i] / inside) <= (2 * doubt + 1e-11 * want[i]) / inside, "bin ", i, " of the filled histogram holds ", f[i], " instead of ", want[i], " of ", inside);
        total += f[i];
    }
    if (inside > 0) require(near(total, 1, 1e-9), "the filled histogram adds up to ", total);
}

PBT_MAIN
