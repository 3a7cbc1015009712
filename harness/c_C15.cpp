// C15: particle clocks and recorded tracks are consistent.
// LIBS: PhysicsQED Particles Tools
#include "process.hh"
using namespace pbt;

struct Record { V3 x, p; double g, t; };
struct Model { Particle* a; int kind; bool track; double t; std::vector<Record> rec; bool dead = false; };
static double gammaFor(int kind, V3 p) { return (double)(kind == 0 ? mag(p) : std::sqrt(1 + dot(p, p))); }

// equal up to rounding, far below any step used here
static bool sameTime(double a, double b) { return a == b || std::fabs(a - b) <= 1e-14 * std::max(std::fabs(a), std::fabs(b)); }

static void compare(const Model& m, const std::string& when)
{
    auto x = m.a->GetPosHist(); auto p = m.a->GetMomHist(); auto t = m.a->GetTimeHist(); auto ga = m.a->GetGammaHist();
    require(x.size() == p.size() && p.size() == t.size() && t.size() == ga.size(), when, ": the histories have ", x.size(), " positions, ", p.size(),
            " momenta, ", t.size(), " times and ", ga.size(), " gamma factors");
    require(x.size() == m.rec.size(), when, ": ", x.size(), " records instead of ", m.rec.size());
    for (size_t i = 0; i < x.size(); i++)
    {
        requireV(V3(x[i]), m.rec[i].x, 0, 0, when + ": recorded position");
        requireV(V3(p[i]), m.rec[i].p, 0, 0, when + ": recorded momentum");
        require(sameTime(t[i], m.rec[i].t), when, ": record ", i, " has the time ", t[i], ", the particle's clock showed ", m.rec[i].t);
        require(near(ga[i], m.rec[i].g, 1e-12, 1e-300), when, ": record ", i, " has gamma ", ga[i], ", its momentum gives ", m.rec[i].g);
        require(i == 0 || t[i] >= t[i - 1], when, ": the recorded times decrease");
    }
}

PROPERTY(histories, 20000, 800000, "a tracked particle with at least five operations, of two kinds")
{
    static const double dts[] = {0.01, 0.2, 1, 3.7};
    Switch& sw = theField();
    sw.f = nullptr; sw.b = gen::direction(g) * g.logu(1e-4, 0.012); sw.e = g.chance(50) ? V3() : gen::direction(g) * g.logu(1e-4, 0.012);
    g.note("B", str(sw.b)); g.note("E", str(sw.e));
    int n = (int)g.integer(1, 3);
    std::vector<std::unique_ptr<Particle>> own;
    std::vector<Model> ms;
    ParticleList list("list", 8), born("born", 4000);
    for (int i = 0; i < n; i++)
    {
        Model m; m.kind = (int)g.draw(2); m.track = g.chance(75); m.t = g.chance(50) ? 0 : g.chance(60) ? g.sreal(100) : (g.coin() ? 1 : -1) * g.logu(100, 1e10);
        V3 x(g.sreal(10), g.sreal(10), g.sreal(10)), p = gen::direction(g) * g.logu(1, 300);
        double q = m.kind == 1 ? -1 : 1;
        // both ways of building a particle
        if (g.coin()) m.a = m.kind == 0 ? (Particle*)new Photon(x.tv(), p.tv(), 1, m.t, m.track) : (Particle*)new Lepton(1, q, x.tv(), p.tv(), 1, m.t, m.track);
        else m.a = m.kind == 0 ? (Particle*)new Photon((double)mag(p), x.tv(), p.tv(), 1, m.t, m.track) : (Particle*)new Lepton(1, q, (double)mag(p), x.tv(), p.tv(), 1, m.t, m.track);
        g.note("particle", cat(m.kind == 0 ? "photon" : m.kind == 1 ? "electron" : "positron", m.track ? " tracked" : " untracked", " x=", str(x), " p=", str(p), " t=", m.t));
        list.AddParticle(m.a);
        ms.push_back(m);
    }
    int ops = (int)g.integer(1, 12);
    std::set<int> kinds; bool tracked = false;
    MCTools::SetSeed(g.seed());
    std::string script;
    for (int o = 0; o < ops; o++)
    {
        int op = (int)g.draw(8); double dt = dts[g.draw(3)]; int who = (int)g.index(n);
        static const char* names[] = {"push list (Lorentz)", "push (Lorentz)", "push (Landau)", "push (modified Landau)", "emit", "emit continuously", "create pair", "kill", "push list twice"};
        std::string when = cat("operation ", o, ", ", names[op], ", dt=", dt);
        script += cat(names[op], " particle ", who, " dt=", dt, "; ");
        g.note(cat("op", o), cat(names[op], " particle ", who, " dt=", dt));
        kinds.insert(op);
        std::vector<bool> pushed(n, false);
        int times = 1;
        if (op == 0) { LorentzPusher p(&sw, dt); p.PushParticleList(&list); pushed.assign(n, true); }
        else if (op == 8) { LandauPusher p(&sw, dt); p.PushParticleList(&list); pushed.assign(n, true); }
        else if (op < 4)
        {
            std::unique_ptr<ParticlePusher> p(op == 1 ? (ParticlePusher*)new LorentzPusher(&sw, dt) : op == 2 ? (ParticlePusher*)new LandauPusher(&sw, dt) : (ParticlePusher*)new ModifiedLandauPusher(&sw, dt));
            p->PushParticle(ms[who].a); pushed[who] = true;
        }
        else if (op == 7) { ms[who].a->Kill(); ms[who].dead = true; }
        else
        {
            Model& m = ms[who];
            V3 x(m.a->GetPosition()), p(m.a->GetMomentum()); size_t before = m.a->GetTimeHist().size();
            unsigned nb = born.GetNPart();
            bool alive = m.a->IsAlive();
            // emission over a long step so that it happens often
            double over = dt * 30000;
            if (op == 4) stochastic(over, 1, 0, g.coin()).Interact(m.a, &born);
            else if (op == 5) continuous(over, g.coin(), 1, 0, g.coin()).Interact(m.a, &born);
            else breitWheeler(over * 1000, g.coin()).Interact(m.a, &born);
            V3 x2(m.a->GetPosition()), p2(m.a->GetMomentum());
            requireV(x2, x, 0, 0, when + ": position");
            bool emitted = mag(p2 - p) > 0;
            size_t after = m.a->GetTimeHist().size();
            if (op != 4) require(!emitted, when, ": the momentum changed");
            if (m.track && alive)
            {
                require(!emitted || after == before + 1, when, ": an emission added ", (long)after - (long)before, " records instead of one");
                require(after - before <= 1, when, ": added ", after - before, " records");
            }
            if (after == before + 1) m.rec.push_back({x2, p2, gammaFor(m.kind, p2), m.t});
            if (emitted) g.label("emission");
            if (op == 6 && m.kind == 0 && !m.a->IsAlive() && alive) { m.dead = true; g.label("pair"); }
            for (unsigned i = nb; i < born.GetNPart(); i++)
            {
                require(sameTime(born.GetParticle(i)->GetTime(), m.t), when, ": a new particle has the clock ", born.GetParticle(i)->GetTime(), ", its parent ", m.t);
                require(born.GetParticle(i)->GetTimeHist().empty(), when, ": a new particle comes with ", born.GetParticle(i)->GetTimeHist().size(), " records");
            }
        }
        for (int i = 0; i < n; i++)
        {
            Model& m = ms[i];
            if (pushed[i] && !m.dead)
            {
                m.t += dt * times;
                if (m.track) m.rec.push_back({V3(m.a->GetPosition()), V3(m.a->GetMomentum()), gammaFor(m.kind, V3(m.a->GetMomentum())), m.t});
            }
            require(sameTime(m.a->GetTime(), m.t), when, ": the clock of particle ", i, " shows ", m.a->GetTime(), " instead of ", m.t);
            require(m.a->IsAlive() == !m.dead, when, ": particle ", i, m.dead ? " came back to life" : " died");
            require(m.a->GetTracking() == m.track, when, ": tracking of particle ", i, " changed");
            if (!m.track) require(m.a->GetTimeHist().empty(), when, ": an untracked particle recorded something");
            tracked |= m.track;
            compare(m, when);
        }
    }
    if (tracked && ops >= 5 && kinds.size() >= 2) g.nontrivial();
}

// the record is of the instant it is stamped with: straight flight fixes position and time together
PROPERTY(records_belong_to_one_instant, 20000, 500000, "three steps or more")
{
    theField().f = nullptr; theField().b = V3();
    V3 e = gen::direction(g) * g.logu(1e-3, 1), x(g.sreal(10), g.sreal(10), g.sreal(10)), p = gen::direction(g) * g.logu(0.1, 100);
    bool photon = g.chance(40); double t0 = g.sreal(10), q = g.coin() ? -1 : 1; int steps = (int)g.integer(1, 30);
    double dt = g.logu(1e-3, 1) * 0.1;
    g.note("E", str(e)); g.note("x", str(x)); g.note("p", str(p)); g.note("t", t0); g.note("photon", photon); g.note("dt", dt); g.note("steps", steps); g.note("charge", q);
    StaticEMField f(e.tv(), ThreeVector(0, 0, 0));
    std::unique_ptr<Particle> a(photon ? (Particle*)new Photon(x.tv(), p.tv(), 1, t0, true) : (Particle*)new Lepton(1, q, x.tv(), p.tv(), 1, t0, true));
    LorentzPusher push(&f, dt);
    for (int i = 0; i < steps; i++) push.PushParticle(a.get());
    if (steps >= 3) g.nontrivial();
    auto xs = a->GetPosHist(), ps = a->GetMomHist(); auto ts = a->GetTimeHist(), gs = a->GetGammaHist();
    require((int)xs.size() == steps && (int)ps.size() == steps && (int)ts.size() == steps && (int)gs.size() == steps, "not one record per step");
    long double en0 = gammaOf(p, 1);
    for (int i = 0; i < steps; i++)
    {
        long double el = ts[i] - (long double)t0;
        V3 pw = photon ? p : p + e * (q * el);
        require(near(el, dt * (i + 1), 1e-10, 1e-12), "record ", i, " is stamped ", (double)el, " after the start, not ", i + 1, " steps of ", dt);
        requireV(V3(ps[i]), pw, 1e-11L, 1e-13L * mag(e) * 10, "momentum at the recorded time");
        long double gw = photon ? mag(p) : gammaOf(pw, 1);
        require(near(gs[i], (double)gw, 1e-11), "gamma ", gs[i], " at the recorded time instead of ", (double)gw);
        // position: straight for photons, for leptons through the work done
        if (photon) requireV(V3(xs[i]), x + unit(p) * el, 0, 1e-12L * 20, "position at the recorded time");
        else
        {
            long double work = q * dot(e, V3(xs[i]) - x), kick = mag(e) * dt;
            require(std::fabs(gw - en0 - work) <= 1e-11L * (gw + mag(e) * 20) + (i + 1) * std::pow(kick, 5.0L), "position at the recorded time: work ", (double)work, ", energy gained ", (double)(gw - en0));
        }
    }
}

// a run of many thousand steps is recorded to its end, and the clock does not wear
PROPERTY(long_runs, 60, 600, "more than 5000 steps")
{
    V3 e = g.chance(30) ? V3() : gen::direction(g) * g.logu(1e-6, 1e-3), x(g.sreal(10), g.sreal(10), g.sreal(10)), p = gen::direction(g) * g.logu(0.1, 100);
    bool photon = g.chance(30), track = g.chance(75); int steps = (int)std::pow(10, g.real(2, 4.85));
    double t0 = g.chance(40) ? 0 : (g.coin() ? 1 : -1) * g.logu(1, 1e9), dt = g.logu(1e-3, 10) * std::max(1.0, std::fabs(t0) * 1e-6), q = g.coin() ? -1 : 1;
    g.note("E", str(e)); g.note("x", str(x)); g.note("p", str(p)); g.note("t", t0); g.note("photon", photon); g.note("tracked", track); g.note("dt", dt); g.note("steps", steps); g.note("charge", q);
    StaticEMField f(e.tv(), ThreeVector(0, 0, 0));
    std::unique_ptr<Particle> a(photon ? (Particle*)new Photon(x.tv(), p.tv(), 1, t0, track) : (Particle*)new Lepton(1, q, x.tv(), p.tv(), 1, t0, track));
    LorentzPusher push(&f, dt);
    if (steps > 5000) g.nontrivial();
    for (int i = 0; i < steps; i++) push.PushParticle(a.get());
    auto within = [&](double t, int n) { return std::fabs((long double)t - t0 - (long double)dt * n) <= 1e-5L * dt + 1e-15L * n * std::max<long double>(std::fabs(t0), std::fabs((long double)t)); };
    require(within(a->GetTime(), steps), "after ", steps, " steps of ", dt, " from ", t0, " the clock shows ", a->GetTime());
    auto xs = a->GetPosHist(), ps = a->GetMomHist(); auto ts = a->GetTimeHist(), gs = a->GetGammaHist();
    if (!track) { require(xs.empty() && ts.empty(), "an untracked particle recorded something"); return; }
    require((int)xs.size() == steps && (int)ps.size() == steps && (int)ts.size() == steps && (int)gs.size() == steps, steps, " steps left ", xs.size(), " positions, ", ps.size(), " momenta, ", ts.size(), " times, ", gs.size(), " gamma factors");
    for (int i = 0; i < steps; i++)
    {
        require(within(ts[i], i + 1), "record ", i, " of ", steps, " is stamped ", ts[i]);
        long double el = (long double)dt * (i + 1);
        requireV(V3(ps[i]), photon ? p : p + e * (q * el), 1e-9L, 1e-10L * (mag(p) + mag(e) * el), cat("momentum in record ", i));
        if (photon) requireV(V3(xs[i]), x + unit(p) * el, 1e-9L, 1e-9L * (10 + el), cat("position in record ", i));
        long double gw = photon ? mag(p) : gammaOf(p + e * (q * el), 1);
        require(near(gs[i], (double)gw, 1e-8), "gamma ", gs[i], " in record ", i, " instead of ", (double)gw);
    }
    require(sameTime(ts.back(), a->GetTime()) && near(mag(V3(xs.back()) - V3(a->GetPosition())), 0, 0, 1e-12 * (double)(10 + mag(V3(xs.back())))), "the last record is not the particle's last state");
}

PBT_MAIN
