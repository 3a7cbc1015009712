// C28: field snapshots and histograms written to file equal their sources.
// LIBS: IO PhysicsQED Particles Tools
#include "phys.hh"
#include "motion.hh"
#include "OutputManager.hh"
#include "h5file.hh"
using namespace pbt;

// a field with a value of its own at every point
struct Marked : EMField
{
    double k[7];
    void GetField(double t, const ThreeVector& x, ThreeVector& e, ThreeVector& b) const override
    {
        double s = k[0] * t + k[1] * x[0] + k[2] * x[1] + k[3] * x[2];
        e = ThreeVector(s + k[4], 2 * s - k[5], x[0] * x[1] + t); b = ThreeVector(x[2] - s, s * s + k[6], std::sin(s));
    }
};
static EMField* drawField(Gen& g)
{
    V3 d = gen::direction(g);
    double a = g.logu(1e-3, 10), w = g.logu(0.1, 100);
    V3 focus(g.sreal(w), g.sreal(w), g.sreal(w)), start = focus - d * (w * g.real(5, 50));
    switch (g.draw(4))
    {
        case 0: { auto* m = new Marked; for (double& k : m->k) k = g.sreal(10); g.note("field", "marked"); return m; }
        case 1: g.note("field", "static"); return new StaticEMField((gen::direction(g) * a).tv(), gen::direction(g).tv());
        case 2: g.note("field", "plane"); return new PlaneEMField(a, w, g.sreal(3), d.tv());
        case 3: g.note("field", "gaussian"); return new GaussianEMField(a, w, w * g.real(1, 20), w * g.real(2, 10), g.sreal(3), start.tv(), focus.tv());
        default: g.note("field", "focusing"); return new FocusingField(a, w, w * g.real(1, 20), w * g.real(2, 10), g.sreal(3), start.tv(), focus.tv());
    }
}

PROPERTY(snapshots, 6000, 200000, "a grid with two different lengths above one")
{
    std::unique_ptr<EMField> f(drawField(g));
    std::vector<double> ax[4]; double scale = g.logu(0.1, 200);
    int many = g.chance(6) ? (int)g.draw(3) : -1;      // one axis with many points
    for (int a = 0; a < 4; a++)
    {
        int n = (int)g.integer(1, many >= 0 ? 3 : a == 0 ? 4 : 6);
        if (a == many) n = a == 0 ? (int)g.integer(5, 24) : (int)g.logu(7, 1500);
        double v = g.sreal(scale), step = g.logu(1e-2, 1) * scale;
        for (int i = 0; i < n; i++) ax[a].push_back(v + (g.chance(70) ? i * step : g.sreal(scale)));      // need not be evenly spaced
        g.note(std::string(1, "txyz"[a]), cat(n, " points from ", ax[a][0]));
    }
    size_t nx = ax[1].size(), ny = ax[2].size(), nz = ax[3].size();
    if (std::set<size_t>{nx, ny, nz, 1}.size() >= 3) g.nontrivial();
    std::string name = tmpName("out") + ".h5";
    struct Gone { std::string n; ~Gone() { unlink(n.c_str()); } } gone{name};
    UnitsSystem si("SI"); bool units = g.coin();
    { std::unique_ptr<OutputManager> out(units ? new OutputManager(name, &si) : new OutputManager(name)); out->OutEMField(f.get(), ax[0], ax[1], ax[2], ax[3]); }
    std::map<std::string, Table> want;
    for (size_t t = 0; t < ax[0].size(); t++)
    {
        Table c[6];
        for (size_t i = 0; i < nx; i++) for (size_t j = 0; j < ny; j++) for (size_t k = 0; k < nz; k++)
        {
            ThreeVector e(9, 9, 9), b(9, 9, 9);
            f->GetField(ax[0][t], ThreeVector(ax[1][i], ax[2][j], ax[3][k]), e, b);
            for (int d = 0; d < 3; d++) { c[d].data.push_back(e[d]); c[3 + d].data.push_back(b[d]); }
        }
        for (int d = 0; d < 3; d++) { c[d].dims = c[3 + d].dims = {nx, ny, nz}; want[cat("Fields/", t, "/E", d)] = c[d]; want[cat("Fields/", t, "/B", d)] = c[3 + d]; }
    }
    compareH5(readH5(name), want, 0);
}

PROPERTY(histograms, 6000, 200000, "two histograms with counts")
{
    std::string name = tmpName("out") + ".h5";
    struct Gone { std::string n; ~Gone() { unlink(n.c_str()); } } gone{name};
    std::map<std::string, Table> want; int counted = 0;
    {
        OutputManager out(name);
        int n = (int)g.integer(1, 5);
        static const char* types[] = {"Energy", "X", "Y", "Z", "PX", "PY", "PZ"};
        for (int h = 0; h < n; h++)
        {
            unsigned nb = (unsigned)g.integer(2, 60); double lo = g.sreal(100), hi = lo + g.logu(1, 100); int type = (int)g.draw(6);
            std::string hn = cat(g.pick({"h", "Histogram", "a name ", "x"}), h);
            g.note("histogram", cat(hn, " ", types[type], " ", nb, " bins ", lo, " to ", hi));
            Histogram hist(hn, "Photon", types[type], 0, lo, hi, nb);
            int np = (int)g.draw(30);
            std::vector<double> counts(nb, 0);
            double d = (hi - lo) / (nb - 1.0);
            for (int i = 0; i < np; i++)
            {
                // near a centre, so that the bin is sure
                unsigned bin = (unsigned)g.index(nb); double v = lo + d * (bin + g.real(-0.45, 0.45));
                if (type == 0 && v <= 0) continue;
                V3 x(1e9, 1e9, 1e9), p(1e9, 1e9, 1e9);
                if (type == 0) p = V3(0, 0, v); else if (type < 4) (&x.x)[type - 1] = v; else (&p.x)[type - 4] = v;
                std::unique_ptr<Particle> ph(new Photon(x.tv(), p.tv()));
                hist.AppParticle(ph.get());
                if (v > lo && v < hi) { counts[bin]++; }
            }
            bool norm = false;
            if (g.chance(30)) { ParticleList empty("none", 1); hist.Fill(&empty); norm = true; }
            double sum = 0; for (double c : counts) sum += c;
            if (sum > 0) { counted++; if (norm) for (double& c : counts) c /= sum; }
            out.OutputHist(&hist);
            Table c, v; c.dims = v.dims = {nb}; v.data = counts;
            for (unsigned i = 0; i < nb; i++) c.data.push_back(hist.GetBinCentres()[i]);
            for (unsigned i = 0; i < nb; i++) require(near(c.data[i], lo + i * d, 1e-12, 1e-12 * (std::fabs(lo) + std::fabs(hi))), "bin centre ", i);
            want["Histograms/" + hn + "/BinCentres"] = c; want["Histograms/" + hn + "/BinValues"] = v;
        }
    }
    if (counted >= 2) g.nontrivial();
    compareH5(readH5(name), want, 1e-15);
}

PBT_MAIN
