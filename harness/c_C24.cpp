// C24: missing physics tables stop the run with an error.
// LIBS: PhysicsQED Particles Tools
#include "process.hh"
using namespace pbt;

static const char* FILES[] = {"hsokolov.table", "ksi_sokolov.table", "chimin.table", "pairprod.table", "e_split.table", "epsilon.table", "log_chi.table"};
static std::string source() { static std::string s = getenv("QED_TABLES_PATH"); return s; }
static void copyFile(const std::string& a, const std::string& b) { std::ofstream f(b, std::ios::binary); f << slurp(a); }
static bool needs(int process, int file) { return process == 3 ? file >= 3 : file < 3; }

// what the process does to a few particles, as text
static std::string use(int process, int seed)
{
    struct Strong : EMField { void GetField(double, const ThreeVector&, ThreeVector& e, ThreeVector& b) const override { e = ThreeVector(0, 0, 0); b = ThreeVector(0, 1e-3, 0); } } field;
    std::unique_ptr<Process> p;
    if (process == 0) p.reset(new StochasticEmission(&field, 1e4, 1, 0, false));
    else if (process < 3) p.reset(new ContinuousEmission(&field, 1e4, process == 1, 1, 0, false));
    else p.reset(new NonLinearBreitWheeler(&field, 1e6, false));
    MCTools::SetSeed(seed);
    ParticleList list("list", 3000);
    std::ostringstream s; s.precision(17);
    for (int i = 0; i < 40; i++)
    {
        ThreeVector x(0, 0, i), m(0, 0, 200 + 50 * i);
        std::unique_ptr<Particle> a(process == 3 ? (Particle*)new Photon(x, m) : (Particle*)new Lepton(1, -1, x, m));
        for (int k = 0; k < 5; k++) p->Interact(a.get(), &list);
        s << a->GetMomentum()[2] << " " << a->GetOpticalDepth() << " " << a->IsAlive() << "\n";
    }
    for (unsigned i = 0; i < list.GetNPart(); i++) s << list.GetParticle(i)->GetName() << list.GetParticle(i)->GetMomentum()[2] << "\n";
    s << list.GetNPart() << " born";
    return s.str();
}
static void clean(const Outcome& o, const std::string& what)
{
    require(!o.timeout, what, ": no end");
    require(o.sig == 0, what, ": the program crashed with signal ", o.sig, ": ", o.err.substr(0, 800));
    require(o.err.find("AddressSanitizer") == std::string::npos && o.err.find("runtime error") == std::string::npos, what, ": memory error: ", o.err.substr(0, 1200));
    require(o.code != 97, what, ": uncaught exception: ", o.err);
}

PROPERTY(files_and_places, 600, 6000, "a missing file that is needed, or all needed files in another place")
{
    int process = (int)g.draw(3), seed = g.seed();
    static const char* names[] = {"stochastic emission", "classical emission", "semiclassical emission", "pair production"};
    g.note("process", names[process]);
    std::string root = tmpName("tables"); mkdir(root.c_str(), 0700);
    struct Clean { std::string d; ~Clean() { std::string c = "rm -rf '" + d + "'"; if (system(c.c_str())) {} } } cleanup{root};
    int where = (int)g.draw(7);
    std::string dir = root, env;
    static const char* subs[] = {"", "/with a space", "/deep/er/tables.d", "/x", "/relative", "/linked", "", ""};
    if (where == 2) { mkdir((root + "/deep").c_str(), 0700); mkdir((root + "/deep/er").c_str(), 0700); }
    dir += subs[where];
    mkdir(dir.c_str(), 0700);
    env = dir;
    if (where == 3) env = dir + "/";
    if (where == 4) env = dir.substr(scratchDir().size() + 1);       // relative to the current directory
    if (where == 5) { env = root + "/link"; if (symlink(dir.c_str(), env.c_str())) throw Discard(); }
    // which files are there
    bool all = g.chance(35), missing = false;
    std::string have;
    int one = g.coin() ? (int)g.draw(6) : -1;                        // exactly one missing, or any
    for (int f = 0; f < 7; f++)
    {
        bool there = all || (one >= 0 ? f != one : g.chance(80));
        if (where == 6) there = false;
        if (there) { copyFile(source() + "/" + FILES[f], dir + "/" + FILES[f]); have += cat(FILES[f], " "); }
        else if (needs(process, f)) missing = true;
        // a link that leads nowhere is a file that cannot be opened
        if (!there && g.chance(30)) { if (symlink("/nonexistent/table", (dir + "/" + FILES[f]).c_str())) {} }
    }
    std::string mode = "directory";
    if (where == 6) { int k = (int)g.draw(2); mode = k == 0 ? "not set" : k == 1 ? "empty" : "no such directory"; env = k == 1 ? "" : root + "/nowhere"; missing = true; }
    if (where == 7 && g.coin()) { mode = "a file"; env = root + "/file"; copyFile(source() + "/" + FILES[0], env); missing = true; }
    g.note("tables path", mode == "directory" ? subs[where] : mode.c_str()); g.note("files", have);
    if (missing || where > 0) g.nontrivial();
    Outcome o = runForked([&]() {
        if (mode == "not set") unsetenv("QED_TABLES_PATH"); else setenv("QED_TABLES_PATH", env.c_str(), 1);
        std::cout << use(process, seed) << std::endl;
        return 0;
    });
    clean(o, names[process]);
    if (missing)
    {
        require(o.code != 0, names[process], " without its tables went on, and gave ", o.out.substr(0, 200));
        require(!(o.err + o.out).empty(), names[process], " without its tables ended without a diagnostic");
        require(o.out.find("born") == std::string::npos, names[process], " without its tables was still used");
        g.label("missing");
    } else
    {
        require(o.code == 0, names[process], " with all its tables in ", env, " ended with the status ", o.code, ": ", o.err + o.out);
        std::string ref = use(process, seed);
        require(o.out == ref + "\n", names[process], " behaves differently with the tables in another place");
        g.label("complete");
    }
}

// the tables are read when the process is made: what happens to the variable or the files later does not matter,
// and making several processes in a row finds them all
PROPERTY(several_in_a_row, 150, 3000, "every case")
{
    g.nontrivial();
    std::string root = tmpName("tables"); mkdir(root.c_str(), 0700);
    struct Clean { std::string d; ~Clean() { std::string c = "rm -rf '" + d + "'"; if (system(c.c_str())) {} } } cleanup{root};
    for (auto f : FILES) copyFile(source() + "/" + f, root + "/" + f);
    int n = (int)g.integer(2, 5), gone = (int)g.integer(1, n); std::vector<int> procs; int file = (int)g.draw(6);
    for (int i = 0; i < n; i++) { procs.push_back((int)g.draw(3)); g.note("process", procs.back()); }
    g.note("removed before", gone); g.note("file", FILES[file]);
    std::string want; int fails = -1;
    for (int i = 0; i < n; i++) { if (i >= gone && needs(procs[i], file) && fails < 0) fails = i; if (fails < 0) want += "done "; }
    Outcome o = runForked([&]() {
        setenv("QED_TABLES_PATH", root.c_str(), 1);
        for (int i = 0; i < n; i++)
        {
            if (i == gone) unlink((root + "/" + FILES[file]).c_str());
            std::string a = use(procs[i], 5);
            std::cout << "done " << std::flush;
        }
        return 0;
    });
    clean(o, "several processes");
    require(o.out.substr(0, want.size()) == want && (fails < 0 ? o.out == want && o.code == 0 : o.code != 0 && o.out.find("done", want.size()) == std::string::npos),
            "made ", n, " processes, ", FILES[file], " removed before the ", gone + 1, "th: ", o.out, ", status ", o.code, ", expected ", want, fails < 0 ? "" : "and an error", " ", o.err);
}

PBT_MAIN
