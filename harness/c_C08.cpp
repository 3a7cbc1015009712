// C08: a seed fixes the whole simulated history.
// LIBS: PhysicsQED Particles Tools
#include "phys.hh"
#include <thread>
#include <cstring>
using namespace pbt;

typedef std::vector<double> Trace;
static void addV(Trace& t, const ThreeVector& v) { for (int i = 0; i < 3; i++) t.push_back(v[i]); }
static void addP(Trace& t, Particle* p)
{
    addV(t, p->GetPosition()); addV(t, p->GetMomentum());
    t.push_back(p->GetTime()); t.push_back(p->GetWeight()); t.push_back(p->GetOpticalDepth()); t.push_back(p->IsAlive());
}
static bool same(const Trace& a, const Trace& b)
{ return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }

struct Op { int kind; double a, b; unsigned n; int type; V3 dir; double frac; };
static Op drawOp(Gen& g)
{
    Op o;
    o.kind = (int)g.draw(7);
    o.a = g.sreal(5); o.b = g.logu(0.1, 10);
    o.n = (unsigned)g.integer(1, 40);
    o.type = (int)g.draw(2);
    o.dir = gen::direction(g);
    o.frac = g.real(0.1, 1);
    return o;
}
static const char* names[] = {"uniform", "normal", "poisson", "discrete", "bulk", "source", "cascade", "continuous"};

static void cascade(Trace& t, const Op& o, bool continuous)
{
    PlaneEMField field(1e-4, 20000.0, 0.3, ThreeVector(0, 0, -1));
    StaticEMField strong(ThreeVector(0, 0, 0), (perp(o.dir) * (0.004L / o.b)).tv());
    EMField* f = continuous ? (EMField*)&field : (EMField*)&strong;
    double dt = 200.0 * o.b;
    LorentzPusher push(f, dt);
    LandauPusher landau(f, dt);
    StochasticEmission em(f, dt, o.frac, 0);
    ContinuousEmission ce(f, dt, o.type == 1, o.frac, 0);
    NonLinearBreitWheeler bw(f, dt);
    ParticleList list("l", 2000);
    ThreeVector mom = (o.dir * (1000.0L * o.b)).tv();
    if (o.type == 0) list.AddParticle(new Lepton(1, -1, ThreeVector(0, 0, 0), mom));
    else if (o.type == 1) list.AddParticle(new Lepton(1, 1, ThreeVector(0, 0, 0), mom));
    else list.AddParticle(new Photon(ThreeVector(0, 0, 0), mom));
    for (unsigned s = 0; s < o.n; s++)
    {
        unsigned n = list.GetNPart();
        if (n > 300) break;
        for (unsigned k = 0; k < n; k++)
        {
            Particle* p = list.GetParticle(k);
            if (continuous) { landau.PushParticle(p); ce.Interact(p, &list); }
            else { push.PushParticle(p); em.Interact(p, &list); bw.Interact(p, &list); }
        }
    }
    t.push_back(list.GetNPart());
    for (unsigned k = 0; k < list.GetNPart(); k++) addP(t, list.GetParticle(k));
}

static Trace perform(const std::vector<Op>& ops)
{
    Trace t;
    for (const Op& o : ops) switch (o.kind)
    {
        case 0: for (unsigned i = 0; i < o.n; i++) t.push_back(MCTools::RandDouble(o.a, o.a + o.b)); break;
        case 1: for (unsigned i = 0; i < o.n; i++) t.push_back(MCTools::RandNorm(o.a, o.b)); break;
        case 2: for (unsigned i = 0; i < o.n; i++) t.push_back(MCTools::RandPoisson(o.b)); break;
        case 3: { std::vector<double> w; for (unsigned i = 0; i < o.n; i++) w.push_back(1 + i % 3); for (unsigned i = 0; i < o.n; i++) t.push_back(MCTools::RandDiscrete(w)); break; }
        case 4: for (double v : MCTools::SampleNorm(o.a, o.b, o.n)) t.push_back(v); for (double v : MCTools::SampleUniform(o.a, o.a + o.b, o.n)) t.push_back(v); break;
        case 5:
        {
            const char* ty[] = {"Electron", "Positron", "Photon"};
            const char* di[] = {"mono", "linear", "gaussian"};
            unsigned n = o.n % 5 + 1;
            SourceGenerator s(ty[o.type], di[o.n % 3], n, 100, 150, o.b, 2 * o.b, 0.01, o.dir.tv(), o.dir.tv());
            for (unsigned i = 0; i < n; i++) { ParticleList* l = s.GenerateList(); for (unsigned k = 0; k < l->GetNPart(); k++) addP(t, l->GetParticle(k)); s.FreeSources(l); }
            break;
        }
        case 6: cascade(t, o, false); break;
        case 7: cascade(t, o, true); break;
    }
    return t;
}
static std::string showOps(const std::vector<Op>& ops)
{
    std::string s;
    for (auto& o : ops) s += cat(names[o.kind], "(", o.n, ") ");
    return s;
}
static unsigned burn(unsigned n) { for (unsigned i = 0; i < n; i++) { MCTools::RandDouble(0, 1); if (i % 3 == 0) MCTools::RandNorm(0, 1); if (i % 5 == 0) MCTools::SampleNorm(0, 1, 3); } return n; }

PROPERTY(same_seed_same_history, 400, 15000, "at least two operations, one of them a source or a cascade")
{
    std::vector<Op> ops;
    unsigned n = (unsigned)g.integer(1, 6);
    for (unsigned i = 0; i < n; i++) ops.push_back(drawOp(g));
    int s1 = g.chance(20) ? (int)g.draw(3) : g.seed();
    unsigned b1 = (unsigned)g.draw(50), b2 = (unsigned)g.draw(50);
    g.note("seed", s1); g.note("operations", showOps(ops)); g.note("drawn before", cat(b1, "/", b2));
    for (auto& o : ops) { if (o.kind >= 5 && n > 1) g.nontrivial(); g.label(names[o.kind]); }
    burn(b1);
    MCTools::SetSeed(s1);
    Trace a = perform(ops);
    burn(b2);
    MCTools::SetSeed(s1);
    Trace b = perform(ops);
    require(same(a, b), "seed ", s1, " gave two different histories");
    // and in a thread of its own
    Trace c;
    std::thread th([&] { burn(b1 / 2); MCTools::SetSeed(s1); c = perform(ops); });
    th.join();
    require(same(a, c), "seed ", s1, " set in another thread gave a different history");
}

PROPERTY(different_seeds_differ, 1500, 60000, "seeds that differ")
{
    int s1 = g.chance(30) ? (int)g.draw(10) : g.seed(), s2 = g.chance(50) ? s1 + 1 + (int)g.draw(5) : g.chance(30) ? -s1 : g.chance(30) ? s1 ^ (1 << g.integer(0, 30)) : g.seed();
    if (s1 == s2) throw Discard{};
    g.note("seeds", cat(s1, ",", s2));
    g.nontrivial();
    auto run = [&](int s) { MCTools::SetSeed(s); Trace t; for (int i = 0; i < 400; i++) t.push_back(MCTools::RandDouble(0, 1)); return t; };
    Trace a = run(s1), b = run(s2);
    require(!same(a, b), "seeds ", s1, " and ", s2, " give the same stream");
    // unrelated: no value shared at any shift, no correlation
    std::set<double> sa(a.begin(), a.end());
    int common = 0;
    for (double v : b) common += sa.count(v);
    require(common < 4, "the streams of seeds ", s1, " and ", s2, " share ", common, " values");
    double c = 0;
    for (size_t i = 0; i < a.size(); i++) c += (a[i] - 0.5) * (b[i] - 0.5) * 12;
    require(std::fabs(c) < 9 * std::sqrt(400.0), "the streams of seeds ", s1, " and ", s2, " are correlated: ", c / 400);
}

PROPERTY(threads_have_their_own_streams, 150, 4000, "at least two threads")
{
    unsigned n = (unsigned)g.integer(2, 6);
    bool seedMain = g.coin();
    int s = g.seed();
    g.note("threads", n); g.note("main seeded", seedMain); g.note("seed", s);
    g.nontrivial();
    if (seedMain) MCTools::SetSeed(s);
    std::vector<Trace> t(n + 1);
    std::vector<std::thread> th;
    for (unsigned i = 0; i < n; i++) th.emplace_back([&t, i] { for (int k = 0; k < 200; k++) t[i].push_back(MCTools::RandDouble(0, 1)); });
    for (int k = 0; k < 200; k++) t[n].push_back(MCTools::RandDouble(0, 1));
    for (auto& x : th) x.join();
    for (unsigned i = 0; i <= n; i++) for (unsigned j = 0; j < i; j++)
    {
        std::set<double> a(t[i].begin(), t[i].end());
        int common = 0;
        for (double v : t[j]) common += a.count(v);
        require(common < 4, "two threads share ", common, " of 200 random numbers");
    }
    if (seedMain)
    {
        // the other threads did not disturb the seeded stream
        Trace b;
        MCTools::SetSeed(s);
        for (int k = 0; k < 200; k++) b.push_back(MCTools::RandDouble(0, 1));
        require(same(b, t[n]), "other threads changed the stream of the seeded one");
    }
}

PBT_MAIN
