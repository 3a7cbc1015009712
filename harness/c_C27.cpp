// C27: particle data written to the output file reads back unchanged.
// LIBS: IO PhysicsQED Particles Tools
#include "phys.hh"
#include "OutputManager.hh"
#include "h5file.hh"
using namespace pbt;

// SI values of the natural units, from the constants of the documentation
static const long double C0 = 2.99792458e8L, ME = 9.10938356e-31L, QE = 1.60217662e-19L, ES = 1.3232855e18L;
static const long double FREQ = ES * QE / (ME * C0);

struct Track { std::vector<V3> x, p; std::vector<double> t, g; };
static Table rows(const std::vector<V3>& v, long double s)
{ Table t; t.dims = {v.size(), 3}; for (auto& a : v) for (int i = 0; i < 3; i++) t.data.push_back((double)(a[i] * s)); return t; }
static Table column(const std::vector<double>& v, long double s)
{ Table t; t.dims = {v.size()}; for (double a : v) t.data.push_back((double)(a * s)); return t; }

static Particle* drawParticle(Gen& g, bool track)
{
    int kind = (int)g.draw(2);
    ThreeVector x = V3(g.sreal(1e3), g.sreal(1e3), g.sreal(1e3)).tv(), p = (gen::direction(g) * g.logu(1e-2, 1e5)).tv();
    double t = g.sreal(10), w = g.chance(50) ? 1 : g.logu(1e-3, 10);
    if (kind == 0) return new Photon(x, p, w, t, track);
    return new Lepton(1, kind == 1 ? -1 : 1, x, p, w, t, track);
}
// moves a particle a few times; the track it must have
static Track wander(Gen& g, Particle* p, int steps)
{
    Track k; double t = p->GetTime();
    for (int i = 0; i < steps; i++)
    {
        double dt = g.logu(1e-3, 10);
        ThreeVector x = (V3(p->GetPosition()) + gen::direction(g) * g.real(0, 5)).tv(), m = (V3(p->GetMomentum()) * g.real(0.5, 1.5)).tv();
        p->UpdateTime(dt); t += dt;
        p->UpdateTrack(x, m);
        k.x.push_back(V3(x)); k.p.push_back(V3(m)); k.t.push_back(t);
        V3 mm(m); k.g.push_back((double)(p->GetName() == "Photon" ? mag(mm) : std::sqrt(1 + dot(mm, mm))));
    }
    return k;
}

struct File
{
    std::map<std::string, Table> want;
    long double L, P, T;
    void track(const std::string& group, const Track& k)
    {
        want[group + "/Position"] = rows(k.x, L); want[group + "/Momentum"] = rows(k.p, P);
        want[group + "/Time"] = column(k.t, T); want[group + "/Gamma"] = column(k.g, 1);
    }
};
static void row(std::vector<double>& v, int id, Particle* p)
{
    V3 m(p->GetMomentum()), x(p->GetPosition());
    double e = (double)(p->GetName() == "Photon" ? mag(m) : std::sqrt(1 + dot(m, m)));
    for (double d : {(double)id, e, (double)m.x, (double)m.y, (double)m.z, (double)x.x, (double)x.y, (double)x.z}) v.push_back(d);
}

PROPERTY(output_sequences, 4000, 120000, "at least three kinds of output in one file")
{
    bool si = g.coin(); g.note("units", si ? "SI" : "natural");
    File f; f.L = si ? C0 / FREQ : 1; f.P = si ? ME * C0 : 1; f.T = si ? 1 / FREQ : 1;
    std::string name = tmpName("out") + ".h5";
    struct Gone { std::string n; ~Gone() { unlink(n.c_str()); } } gone{name};
    std::unique_ptr<UnitsSystem> units(si ? new UnitsSystem("SI") : nullptr);
    std::unique_ptr<OutputManager> out(si ? new OutputManager(name, units.get()) : new OutputManager(name));
    std::set<std::string> used; std::set<int> kinds; int nTracks = 0, nSources = 0; std::vector<double> none;
    auto fresh = [&](const std::string& kind) { std::string n; int k = (int)g.draw(3); for (;; k++) { n = k == 0 ? "a" : k == 1 ? "Electron" : k == 2 ? "some name" : cat("n", k); if (used.insert(kind + n).second) return n; } };
    int ops = (int)g.integer(1, 8);
    for (int o = 0; o < ops; o++)
    {
        int op = (int)g.draw(6);
        kinds.insert(op);
        if (op == 0)
        {
            std::unique_ptr<Particle> p(drawParticle(g, true)); std::string n = fresh("s"); int steps = (int)g.draw(6);
            g.note("op", cat("SingleParticle ", n, " ", steps, " records"));
            Track k = wander(g, p.get(), steps);
            out->SingleParticle(p.get(), n); f.track("Particles/Single/" + n, k);
        } else if (op == 1 || op == 2)
        {
            // a list's tracks and properties may be stored under the same or different names
            std::string listName = g.pick({"list", "beam 1", "Electrons", "a"}), n = op == 1 ? fresh("l") : fresh("p" + listName); int np = (int)g.draw(4);
            if (op == 2 && np == 0) np = 1;
            g.note("op", cat(op == 1 ? "ListTracks " : "ListProperties of ", op == 1 ? "" : listName + " ", n, " ", np, " particles"));
            ParticleList list(listName, 10); Table t;
            for (int i = 0; i < np; i++)
            {
                Particle* p = drawParticle(g, true); list.AddParticle(p);
                Track k = wander(g, p, (int)g.draw(4));
                if (op == 1) f.track(cat("Particles/ParticleList/", n, "/", i), k);
                else { std::vector<double> r; row(r, i, p); for (int c : {0, 1, 5, 6, 7}) t.data.push_back(r[c]); }
            }
            if (op == 1) { if (used.count("p" + n)) {} out->ListTracks(&list, n); }
            else { t.dims = {(size_t)np, 5}; out->ListProperties(&list, n); f.want["Particles/ParticleList/" + listName + "/" + n] = t; }
        } else if (op == 3 || op == 4)
        {
            // events, stored in any order
            bool outSource = op == 3, outTrack = op == 4 || g.coin();
            int n = (int)g.integer(outSource ? 1 : 0, 6);
            std::vector<int> order; for (int i = 0; i < n; i++) order.push_back(i);
            for (int i = n - 1; i > 0; i--) std::swap(order[i], order[g.draw(i)]);
            std::vector<std::vector<double>> prim(n), el(n), po(n), ph(n);
            g.note("op", cat("events ", n, outSource ? " with source" : "", outTrack ? " with tracks" : ""));
            if (outSource) { out->InitSource(n); nSources++; }
            for (int id : order)
            {
                ParticleList* l = new ParticleList(std::to_string(id), 20);
                l->AddParticle(drawParticle(g, g.coin()));
                if (outSource) { row(prim[id], id, l->GetParticle(0)); out->StoreSource(l, id, true); }
                int born = (int)g.draw(5);
                for (int i = 0; i < born; i++) l->AddParticle(drawParticle(g, g.coin()));
                std::vector<Track> ks;
                for (unsigned i = 0; i < l->GetNPart(); i++)
                {
                    Particle* p = l->GetParticle(i);
                    Track k; ThreeVector m = p->GetMomentum(), x = p->GetPosition();
                    int steps = (int)g.draw(3);
                    k = wander(g, p, steps);
                    if (!p->GetTracking()) k = Track();
                    ks.push_back(k);
                    if (p->GetName() == "Photon" && g.chance(30)) p->Kill();
                    if (p->IsAlive()) row(p->GetName() == "Electron" ? el[id] : p->GetName() == "Positron" ? po[id] : ph[id], id, p);
                }
                if (outSource) out->StoreSource(l, id, false);
                if (outTrack) { out->StoreTrack(l, id); for (auto& k : ks) f.track(cat("Particles/ParticleTrack/Event", nTracks++), k); }
                delete l;
            }
            out->OutputEvents(outSource, outTrack);
            if (outSource)
            {
                auto table = [&](const char* n, std::vector<std::vector<double>>& v) {
                    Table t; for (auto& e : v) t.data.insert(t.data.end(), e.begin(), e.end());
                    t.dims = {t.data.size() / 8, 8}; if (!t.data.empty()) f.want[cat("Particles/ParticleSource", nSources > 1 ? std::to_string(nSources) : "", "/", n)] = t; };
                table("Primary", prim); table("Electrons", el); table("Positrons", po); table("Photons", ph);
            }
        } else if (op == 5)
        {
            std::string n = fresh("h"); unsigned nb = (unsigned)g.integer(2, 20); double lo = g.sreal(10), hi = lo + g.logu(0.1, 10);
            g.note("op", cat("OutputHist ", n, " ", nb, " bins"));
            Histogram h(n, "Electron", "x", 0, lo, hi, nb);
            for (int i = 0; i < 10; i++) { Photon p(V3(g.real(lo, hi), 0, 0).tv(), ThreeVector(0, 0, 1)); h.AppParticle(&p); }
            Table c, v; c.dims = v.dims = {nb}; c.data.assign(h.GetBinCentres(), h.GetBinCentres() + nb); v.data.assign(h.GetBinValues(), h.GetBinValues() + nb);
            out->OutputHist(&h);
            f.want["Histograms/" + n + "/BinCentres"] = c; f.want["Histograms/" + n + "/BinValues"] = v;
        } else
        {
            if (!used.insert("field").second) continue;
            g.note("op", "OutEMField");
            StaticEMField e(ThreeVector(1, 2, 3), ThreeVector(4, 5, 6));
            out->OutEMField(&e, {0, 1}, {0, 1}, {2}, {3, 4, 5});
            for (int t = 0; t < 2; t++) for (int d = 0; d < 3; d++) { f.want[cat("Fields/", t, "/E", d)] = {{2, 1, 3}, std::vector<double>(6, 1 + d)}; f.want[cat("Fields/", t, "/B", d)] = {{2, 1, 3}, std::vector<double>(6, 4 + d)}; }
        }
    }
    if (kinds.size() >= 3) g.nontrivial();
    out.reset();
    compareH5(readH5(name), f.want, 1e-12);
}

// values are stored to the last bit, whatever they are
PROPERTY(values_to_the_bit, 3000, 100000, "every case")
{
    g.nontrivial();
    std::string name = tmpName("out") + ".h5";
    struct Gone { std::string n; ~Gone() { unlink(n.c_str()); } } gone{name};
    auto num = [&]() { double v = g.coin() ? g.logu(1e-300, 1e300) : g.real(0, 1); return g.coin() ? v : -v; };
    std::map<std::string, Table> want;
    {
        OutputManager out(name);
        ParticleList list("list", 100); int n = (int)g.integer(1, 40);
        Table pr, el, ph; std::vector<V3> x, p;
        out.InitSource(1);
        for (int i = 0; i < n; i++)
        {
            // momenta stay below 1e100 so that squares are finite
            auto mom = [&]() { double v = g.coin() ? g.logu(1e-100, 1e100) : g.real(0, 1); return g.coin() ? v : -v; };
            ThreeVector xx(num(), num(), num()), pp(mom(), mom(), mom());
            Particle* a = i == 0 || g.coin() ? (Particle*)new Lepton(1, -1, xx, pp, 1, 0, true) : (Particle*)new Photon(xx, pp, 1, 0, true);
            list.AddParticle(a);
            Table& t = a->GetName() == "Electron" ? el : ph;
            for (double d : {0.0, a->GetEnergy(), pp[0], pp[1], pp[2], xx[0], xx[1], xx[2]}) { t.data.push_back(d); if (i == 0) pr.data.push_back(d); }
        }
        g.note("particles", n); g.note("first", cat(el.data[2], " ", el.data[5]));
        out.StoreSource(&list, 0, true); out.StoreSource(&list, 0, false);
        out.OutputEvents(true, false);
        for (Table* t : {&pr, &el, &ph}) t->dims = {t->data.size() / 8, 8};
        want["Particles/ParticleSource/Primary"] = pr; want["Particles/ParticleSource/Electrons"] = el; if (!ph.data.empty()) want["Particles/ParticleSource/Photons"] = ph;
        Particle* a = list.GetParticle(0); Track k;
        int steps = (int)g.integer(1, 20);
        for (int i = 0; i < steps; i++) { ThreeVector xx(num(), num(), num()), pp(num(), num(), num()); a->UpdateTrack(xx, pp); k.x.push_back(V3(xx)); k.p.push_back(V3(pp)); }
        out.SingleParticle(a, "s");
        want["Particles/Single/s/Position"] = rows(k.x, 1); want["Particles/Single/s/Momentum"] = rows(k.p, 1);
        want["Particles/Single/s/Time"] = column(a->GetTimeHist(), 1); want["Particles/Single/s/Gamma"] = column(a->GetGammaHist(), 1);
    }
    compareH5(readH5(name), want, 0);
}

PROPERTY(long_tracks, 12, 100, "every case")
{
    g.nontrivial();
    int n = (int)g.logu(1e4, 1e6); bool list = g.coin(), event = !list && g.coin();
    g.note("records", n); g.note("as", list ? "list" : event ? "event" : "single");
    std::string name = tmpName("out") + ".h5";
    struct Gone { std::string n; ~Gone() { unlink(n.c_str()); } } gone{name};
    std::map<std::string, Table> want;
    {
        OutputManager out(name);
        ParticleList l("list", 2);
        Particle* p = new Photon(ThreeVector(0, 0, 0), ThreeVector(0, 0, 1), 1, 0, true); l.AddParticle(p);
        std::vector<V3> x, m; std::vector<double> t, ga(n, 2.0);
        for (int i = 0; i < n; i++) { p->UpdateTime(1); p->UpdateTrack(ThreeVector(i, 2 * i, 1), ThreeVector(0, 0, 2)); x.push_back(V3(i, 2 * i, 1)); m.push_back(V3(0, 0, 2)); t.push_back(i + 1); }
        if (list) out.ListTracks(&l, "t"); else if (event) { out.StoreTrack(&l, 0); out.OutputEvents(false, true); } else out.SingleParticle(p, "t");
        std::string gr = list ? "Particles/ParticleList/t/0" : event ? "Particles/ParticleTrack/Event0" : "Particles/Single/t";
        want[gr + "/Position"] = rows(x, 1); want[gr + "/Momentum"] = rows(m, 1); want[gr + "/Time"] = column(t, 1); want[gr + "/Gamma"] = column(ga, 1);
    }
    compareH5(readH5(name), want, 0);
}

PROPERTY(untracked_particles_are_refused, 60, 1000, "every case")
{
    g.nontrivial();
    bool list = g.coin(); int n = (int)g.integer(1, 4), bad = (int)g.index(n);
    std::string name = tmpName("out") + ".h5";
    Outcome o = runForked([&]() {
        OutputManager out(name);
        ParticleList l("list", 5);
        for (int i = 0; i < n; i++) l.AddParticle(drawParticle(g, i != bad));
        if (list) out.ListTracks(&l, "n"); else out.SingleParticle(l.GetParticle(bad), "n");
        return 0;
    });
    unlink(name.c_str());
    require(o.code != 0 && o.sig == 0 && o.err.find("Sanitizer") == std::string::npos && !o.err.empty(), "the track of a particle that is not tracked was written, or the program crashed: status ", o.code, ", signal ", o.sig, " ", o.err);
}

// many events, many particles and many sources: nothing depends on how much there is
PROPERTY(many_rows, 300, 4000, "more than a thousand rows or nine sources")
{
    std::string name = tmpName("out") + ".h5";
    struct Gone { std::string n; ~Gone() { unlink(n.c_str()); } } gone{name};
    std::map<std::string, Table> want;
    int sources = g.chance(25) ? (int)g.integer(8, 25) : (int)g.integer(1, 2), most = sources > 2 ? 5 : 1500;
    bool tracks = g.chance(30);
    long total = 0, seed = g.seed();
    g.note("sources", sources);
    std::mt19937_64 rng(seed); std::normal_distribution<double> nor;
    {
        OutputManager out(name);
        for (int k = 1; k <= sources; k++)
        {
            int events = (int)g.logu(1, most), per = (int)g.logu(1, tracks ? 3 : 3e4 / events + 1);
            g.note("events", events); g.note("particles per event", per);
            std::vector<int> order(events); for (int i = 0; i < events; i++) order[i] = i;
            if (g.coin()) std::shuffle(order.begin(), order.end(), rng);
            std::vector<std::vector<double>> pr(events), el(events), po(events), ph(events);
            out.InitSource(events);
            for (int id : order)
            {
                ParticleList l("l", per + 1);
                for (int i = 0; i < per; i++)
                {
                    ThreeVector x(nor(rng), nor(rng), nor(rng)), p(nor(rng), nor(rng), nor(rng));
                    int kind = (int)(rng() % 3);
                    Particle* a = kind == 0 ? (Particle*)new Photon(x, p, 1, 0, tracks) : (Particle*)new Lepton(1, kind == 1 ? -1 : 1, x, p, 1, 0, tracks);
                    l.AddParticle(a);
                    if (i == 0) row(pr[id], id, a);
                    row(kind == 0 ? ph[id] : kind == 1 ? el[id] : po[id], id, a);
                    if (tracks) { a->UpdateTime(1); a->UpdateTrack(x, p); Track t; t.x = {V3(x)}; t.p = {V3(p)}; t.t = {1}; V3 m(p); t.g = {kind == 0 ? (double)mag(m) : (double)std::sqrt(1 + dot(m, m))};
                        std::string at = cat("Particles/ParticleTrack/Event", total++);
                        want[at + "/Position"] = rows(t.x, 1); want[at + "/Momentum"] = rows(t.p, 1); want[at + "/Time"] = column(t.t, 1); want[at + "/Gamma"] = column(t.g, 1); }
                    else total++;
                }
                out.StoreSource(&l, id, true);
                out.StoreSource(&l, id, false);
                if (tracks) out.StoreTrack(&l, id);
            }
            out.OutputEvents(true, tracks);
            auto table = [&](const char* n, std::vector<std::vector<double>>& v) {
                Table t; for (auto& e : v) t.data.insert(t.data.end(), e.begin(), e.end());
                t.dims = {t.data.size() / 8, 8}; if (!t.data.empty()) want[cat("Particles/ParticleSource", k > 1 ? std::to_string(k) : "", "/", n)] = t; };
            table("Primary", pr); table("Electrons", el); table("Positrons", po); table("Photons", ph);
        }
    }
    if (total > 1000 || sources > 9) g.nontrivial();
    compareH5(readH5(name), want, 1e-12);
}

PBT_MAIN
