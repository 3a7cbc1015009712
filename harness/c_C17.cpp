// C17: a particle list keeps its particles, in order, up to its capacity.
// LIBS: PhysicsQED Particles Tools
#include "phys.hh"
using namespace pbt;

// particles that report their end
static std::vector<int> freed;
struct Probe : Photon
{
    int id;
    Probe(int i, V3 p) : Photon(ThreeVector(i, 0, 0), p.tv()), id(i) {}
    ~Probe() override { freed[id]++; }
};

PROPERTY(model, 30000, 1000000, "a list that was filled to its capacity and beyond, or two lists in turn")
{
    int lists = (int)g.integer(1, 3);
    std::vector<ParticleList*> ls; std::vector<unsigned> cap; std::vector<std::vector<Probe*>> model(lists); std::vector<std::string> names;
    for (int i = 0; i < lists; i++)
    {
        cap.push_back((unsigned)g.draw(12)); names.push_back(cat("list", g.draw(3)));
        ls.push_back(new ParticleList(names[i], cap[i]));
        g.note("capacity", cap[i]);
    }
    freed.clear();
    int ops = (int)g.integer(1, 40);
    bool over = false;
    std::vector<Probe*> loose;
    // diagnostics of this process go to the case's own file
    std::stringstream diag; auto* old = std::cerr.rdbuf(diag.rdbuf());
    struct Restore { std::streambuf* o; ~Restore() { std::cerr.rdbuf(o); } } restore{old};
    for (int o = 0; o < ops; o++)
    {
        int l = (int)g.index(lists); g.note("to", l);
        Probe* p = new Probe((int)freed.size(), gen::direction(g) * g.logu(1e-2, 1e2));
        freed.push_back(0);
        diag.str("");
        ls[l]->AddParticle(p);
        bool full = model[l].size() >= cap[l];
        if (full) { loose.push_back(p); over = true; require(!diag.str().empty(), "no message when particle ", model[l].size() + 1, " was added to a list for ", cap[l]); }
        else { model[l].push_back(p); require(diag.str().empty(), "a message although the list has room: ", diag.str()); }
        for (int i = 0; i < lists; i++)
        {
            require(ls[i]->GetNPart() == model[i].size(), "list ", i, " counts ", ls[i]->GetNPart(), " particles instead of ", model[i].size(), " (capacity ", cap[i], ")");
            for (size_t k = 0; k < model[i].size(); k++) require(ls[i]->GetParticle(k) == model[i][k], "particle ", k, " of list ", i, " is another one");
            require(ls[i]->GetName() == names[i], "the list's name is now '", ls[i]->GetName(), "'");
        }
    }
    if (over || lists > 1) g.nontrivial();
    for (int f : freed) require(f == 0, "a particle was freed while its list lives");
    std::vector<std::vector<int>> ids(lists); std::vector<int> looseIds;
    for (int j = 0; j < lists; j++) for (auto* p : model[j]) ids[j].push_back(p->id);
    for (auto* p : loose) looseIds.push_back(p->id);
    for (int i = 0; i < lists; i++)
    {
        delete ls[i];
        for (int j = 0; j < lists; j++) for (int id : ids[j])
            require(freed[id] == (j <= i ? 1 : 0), "after freeing lists 0 to ", i, " particle ", id, " of list ", j, " has been freed ", freed[id], " times");
    }
    std::vector<int> want(freed.size(), 1);
    for (int id : looseIds) want[id] = 0;
    for (size_t i = 0; i < freed.size(); i++) require(freed[i] == want[i], "particle ", i, " was freed ", freed[i], " times");
    for (auto* p : loose) delete p;
}

// the default capacity holds a million
PROPERTY(large_lists, 24, 400, "every case")
{
    unsigned cap = (unsigned)g.logu(100, 3e5), extra = (unsigned)g.draw(3);
    bool deflt = g.chance(20);
    g.note("capacity", deflt ? 0 : cap); g.note("extra", extra);
    g.nontrivial();
    std::stringstream diag; auto* old = std::cerr.rdbuf(diag.rdbuf());
    struct Restore { std::streambuf* o; ~Restore() { std::cerr.rdbuf(o); } } restore{old};
    std::unique_ptr<ParticleList> l(deflt ? new ParticleList("list") : new ParticleList("list", cap));
    std::vector<Particle*> lost;
    for (unsigned i = 0; i < cap + extra; i++)
    {
        Particle* p = new Photon(ThreeVector(i, 0, 0), ThreeVector(0, 0, 1));
        l->AddParticle(p);
        if (!deflt && i >= cap) lost.push_back(p);
    }
    unsigned want = deflt ? cap + extra : cap;
    require(l->GetNPart() == want, "the list counts ", l->GetNPart(), " instead of ", want);
    for (unsigned i = 0; i < want; i++) require(l->GetParticle(i)->GetPosition()[0] == i, "particle ", i, " is not where it was added");
    for (auto* p : lost) delete p;
}

PBT_MAIN
