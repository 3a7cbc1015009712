// C07: random samples follow the requested distributions.
// LIBS: Tools
#include "gens.hh"
#include "MCTools.hh"
using namespace pbt;

static const unsigned N = 20000;
static std::string kind(bool bulk) { return bulk ? "bulk" : "one by one"; }

static void serial(const std::vector<double>& s, double mean, double var, const char* what)
{
    // successive samples are uncorrelated
    if (var <= 0) return;
    double c = 0, m = 0, v = 0;
    for (double x : s) m += x - mean;
    m /= s.size();
    for (double x : s) v += (x - mean - m) * (x - mean - m);
    for (size_t i = 0; i + 1 < s.size(); i++) c += (s[i] - mean - m) * (s[i + 1] - mean - m);
    if (v > 0) require(std::fabs(c / v) < 8 / std::sqrt((double)s.size()), what, ": successive samples are correlated: ", c / v);
}

PROPERTY(uniform, 400, 8000, "a range of non-zero length")
{
    double lo = gen::wide(g, 1e-6, 1e6), len = g.logu(1e-6, 1e6);
    if (len < 1e-9 * std::fabs(lo)) throw Discard{};
    double hi = lo + len;
    bool bulk = g.coin();
    int seed = g.seed();
    g.note("low", lo); g.note("high", hi); g.note("how", kind(bulk)); g.note("seed", seed);
    g.nontrivial();
    MCTools::SetSeed(seed);
    std::vector<double> s;
    if (bulk) s = MCTools::SampleUniform(lo, hi, N); else for (unsigned i = 0; i < N; i++) s.push_back(MCTools::RandDouble(lo, hi));
    require(s.size() == N, "asked for ", N, " samples, got ", s.size());
    for (double x : s) require(x >= lo && x <= hi, "sample ", x, " outside [", lo, ", ", hi, "]");
    serial(s, lo, len * len / 12, "uniform");
    double d = stats::ks(s, [&](double x) { return (x - lo) / (hi - lo); });
    require(d < stats::ksLimit(N), "uniform samples miss their distribution: Kolmogorov distance ", d);
}

PROPERTY(normal, 400, 8000, "a non-zero width")
{
    double mean = gen::wide(g, 1e-6, 1e6), sig = g.chance(5) ? 0 : g.logu(1e-6, 1e6);
    if (sig > 0 && sig < 1e-9 * std::fabs(mean)) throw Discard{};
    bool bulk = g.coin() || sig == 0;
    int seed = g.seed();
    g.note("mean", mean); g.note("sigma", sig); g.note("how", kind(bulk)); g.note("seed", seed);
    MCTools::SetSeed(seed);
    std::vector<double> s;
    if (bulk) s = MCTools::SampleNorm(mean, sig, N); else for (unsigned i = 0; i < N; i++) s.push_back(MCTools::RandNorm(mean, sig));
    require(s.size() == N, "asked for ", N, " samples, got ", s.size());
    if (sig == 0) { for (double x : s) require(x == mean, "zero width gives ", x); return; }
    g.nontrivial();
    serial(s, mean, sig * sig, "normal");
    double d = stats::ks(s, [&](double x) { return 0.5 * std::erfc(-(x - mean) / sig / std::sqrt(2.0)); });
    require(d < stats::ksLimit(N), "normal samples miss their distribution: Kolmogorov distance ", d);
}

// frequencies against probabilities, with the rare values lumped together
static void frequencies(const std::map<unsigned, double>& p, const std::map<unsigned, unsigned>& n, double total, const char* what)
{
    double rareP = 0, rareN = 0;
    for (auto& e : p)
    {
        double exp = e.second * total;
        auto it = n.find(e.first);
        double got = it == n.end() ? 0 : it->second;
        if (e.second == 0) { require(got == 0, what, ": value ", e.first, " of probability zero drawn ", got, " times"); continue; }
        if (exp < 25) { rareP += e.second; rareN += got; continue; }
        double sd = std::sqrt(exp * (1 - e.second));
        require(std::fabs(got - exp) < 8 * sd + 1, what, ": value ", e.first, " drawn ", got, " times, expected ", exp, " +- ", sd);
    }
    double exp = rareP * total;
    require(rareN < exp + 8 * std::sqrt(exp) + 12, what, ": rare values drawn ", rareN, " times, expected ", exp);
}

PROPERTY(poisson, 250, 5000, "a mean above 0.05")
{
    double mean = g.logu(0.01, 100);
    int seed = g.seed();
    g.note("mean", mean); g.note("seed", seed);
    if (mean > 0.05) g.nontrivial();
    MCTools::SetSeed(seed);
    std::map<unsigned, unsigned> n;
    for (unsigned i = 0; i < N; i++) n[MCTools::RandPoisson(mean)]++;
    std::map<unsigned, double> p;
    for (unsigned k = 0; k < 200; k++) p[k] = std::exp(k * std::log(mean) - mean - std::lgamma(k + 1.0));
    for (auto& e : n) require(e.first < 200, "value ", e.first, " for mean ", mean);
    frequencies(p, n, N, "Poisson");
    // the third moment, which an approximation by a normal distribution misses
    if (mean < 1) return;
    unsigned more = 20 * N;
    long double m3 = 0;
    for (unsigned i = 0; i < more; i++) { long double d = (MCTools::RandPoisson(mean) - (long double)mean) / std::sqrt((long double)mean); m3 += d * d * d; }
    // its variance: E d^6 - (E d^3)^2 for a Poisson number
    double var = 15 + 24 / mean + 1 / (mean * mean);
    require(std::fabs((double)m3 / more - 1 / std::sqrt(mean)) <= 7.5 * std::sqrt(var / more) + 60 / (std::pow(mean, 1.5) * more), "the third moment of ", more, " Poisson numbers of mean ", mean, " is ", (double)m3 / more,
            ", expected ", 1 / std::sqrt(mean));
}

PROPERTY(discrete, 500, 10000, "more than one index with weight")
{
    unsigned k = (unsigned)g.integer(1, g.chance(10) ? 60 : 8);
    double scale = g.logu(1e-6, 1e6), sum = 0;
    std::vector<double> w(k);
    for (double& v : w) { v = g.chance(20) ? 0 : g.real(0.02, 1) * scale; sum += v; }
    if (sum == 0) throw Discard{};
    int seed = g.seed();
    std::string ws;
    for (double v : w) ws += cat(v, " ");
    g.note("weights", ws); g.note("seed", seed);
    unsigned pos = 0;
    for (double v : w) pos += v > 0;
    if (pos > 1) g.nontrivial();
    MCTools::SetSeed(seed);
    std::map<unsigned, unsigned> n;
    for (unsigned i = 0; i < N; i++) { unsigned v = MCTools::RandDiscrete(w); require(v < k, "index ", v, " of ", k); n[v]++; }
    std::map<unsigned, double> p;
    for (unsigned i = 0; i < k; i++) p[i] = w[i] / sum;
    frequencies(p, n, N, "discrete");
    for (unsigned i = 0; i < k; i++) if (p[i] > 0.01) require(n.count(i), "index ", i, " of probability ", p[i], " never drawn");
}

PROPERTY(bulk_sizes, 2000, 20000, "more than one sample asked for")
{
    unsigned n = (unsigned)g.integer(0, g.chance(5) ? 100000 : 300);
    double lo = g.sreal(10), len = g.logu(1e-3, 10);
    int seed = g.seed();
    g.note("n", n); g.note("low", lo); g.note("len", len); g.note("seed", seed);
    if (n > 1) g.nontrivial();
    MCTools::SetSeed(seed);
    std::vector<double> u = MCTools::SampleUniform(lo, lo + len, n), v = MCTools::SampleNorm(lo, len, n);
    require(u.size() == n, "uniform: asked for ", n, ", got ", u.size());
    require(v.size() == n, "normal: asked for ", n, ", got ", v.size());
    std::set<double> du(u.begin(), u.end()), dv(v.begin(), v.end());
    // genuine samples do not repeat (collisions in 2^53 values are hopelessly rare here)
    require(du.size() + 3 >= u.size(), "uniform samples repeat");
    require(dv.size() + 3 >= v.size(), "normal samples repeat");
    for (double x : u) require(x >= lo && x <= lo + len, "sample ", x, " outside its range");
}

PBT_MAIN
