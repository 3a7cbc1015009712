// C06: interpolation, lookup, integration.
// LIBS: Tools
#include "gens.hh"
#include "Numerics.hh"
using namespace pbt;

static std::vector<double> axis(Gen& g, unsigned n)
{
    std::vector<double> x(n);
    bool even = g.coin();
    double step = g.logu(1e-3, 1e3), v = g.sreal(10) * step;
    for (auto& e : x) { e = v; v += even ? step : step * g.real(0.05, 3); }
    if (g.chance(20)) for (auto& e : x) e -= 1e3 * step;
    return x;
}
static double query(Gen& g, const std::vector<double>& x)
{
    size_t n = x.size();
    double span = x.back() - x[0];
    switch (g.draw(6))
    {
        case 0: g.label("at a sample"); return x[g.index(n)];
        case 1: g.label("first or last sample"); return g.coin() ? x.back() : x[0];
        case 2: g.label("below"); return x[0] - span * g.logu(1e-6, 2);
        case 3: g.label("above"); return x.back() + span * g.logu(1e-6, 2);
        case 4:
        {
            g.label("next to a sample");
            double s = g.chance(50) ? x[g.index(n)] : g.coin() ? x[0] : x.back(), to = g.coin() ? INFINITY : -INFINITY;
            if (g.coin()) return s + (to > 0 ? 1 : -1) * span * g.logu(1e-15, 1e-6);
            for (int i = (int)g.integer(1, 4); i > 0; i--) s = std::nextafter(s, to);
            return s;
        }
        default: { size_t i = g.index(n - 1); g.label("inside"); return x[i] + (x[i + 1] - x[i]) * g.unit(); }
    }
}
static std::string show(const std::vector<double>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 12; i++) s += cat(i ? "," : "", v[i]);
    return s + (v.size() > 12 ? ",...]" : "]");
}

PROPERTY(interpolation, 100000, 5000000, "at least three samples on a line that is not straight")
{
    unsigned n = (unsigned)g.integer(2, g.chance(10) ? 400 : 12);
    std::vector<double> x = axis(g, n), y(n);
    double sc = g.logu(1e-6, 1e6);
    for (auto& v : y) v = g.sreal(sc);
    double q = query(g, x);
    g.note("x", show(x)); g.note("y", show(y)); g.note("q", q);
    if (n > 2) g.nontrivial();
    std::vector<double> xc = x, yc = y;
    double got = Numerics::Interpolate1D(xc.data(), yc.data(), n, q);
    // the segment the query lies on, or the one it continues
    size_t k = 0;
    while (k + 2 < n && q >= x[k + 1]) k++;
    long double t = ((long double)q - x[k]) / ((long double)x[k + 1] - x[k]);
    long double want = y[k] + t * ((long double)y[k + 1] - y[k]);
    double tol = 1e-12 * sc * (1 + (double)std::fabs(t)) * (1 + std::fabs(x[0]) / (x[k + 1] - x[k]) * 1e-3);
    require(near(got, (double)want, 1e-12, tol), "interpolated ", got, ", expected ", (double)want);
    for (unsigned i = 0; i < n; i++)
        if (q == x[i]) require(near(got, y[i], 1e-12, 1e-13 * sc), "at sample ", i, ": ", got, " instead of the tabulated ", y[i]);
    require(xc == x && yc == y, "the table was changed");
}

PROPERTY(nearest_sample, 100000, 5000000, "a query between two samples")
{
    unsigned n = (unsigned)g.integer(1, g.chance(10) ? 300 : 12);
    std::vector<double> x = axis(g, n);
    double q = n > 1 ? query(g, x) : x[0] + g.sreal(2);
    g.note("x", show(x)); g.note("q", q);
    if (n > 1 && q > x[0] && q < x.back()) g.nontrivial();
    int got = Numerics::ArrayIndex(x.data(), n, q);
    require(got >= 0 && got < (int)n, "index ", got, " of ", n, " samples");
    double best = 1e300;
    for (double v : x) best = std::min(best, std::fabs(v - q));
    require(std::fabs(x[got] - q) <= best * (1 + 1e-12) + 1e-12 * std::fabs(q), "sample ", got, " at distance ", std::fabs(x[got] - q), " but another is at ", best);
}

PROPERTY(bracketing, 60000, 1000000, "a query strictly inside an interval")
{
    unsigned n = (unsigned)g.integer(2, g.chance(10) ? 300 : 12);
    std::vector<double> x = axis(g, n);
    double q = query(g, x);
    g.note("x", show(x)); g.note("q", q);
    if (q < x[0]) throw Discard{};
    if (q > x.back())
    {
        if (!g.chance(30)) throw Discard{};
        g.nontrivial();
        Outcome o = runForked([&] { int i = 0; double f = 0; Numerics::ClosestPoints(x.data(), n, q, i, f); return 0; });
        require(o.sig == 0 && o.code != 0, "a query beyond the last sample ended with code ", o.code, " signal ", o.sig);
        require(!o.err.empty(), "no message about the query beyond the table");
        return;
    }
    if (q > x[0] && q < x.back()) g.nontrivial();
    int i = -7; double f = -7;
    Numerics::ClosestPoints(x.data(), n, q, i, f);
    require(i >= 0 && i + 1 < (int)n, "interval ", i, " of ", n - 1);
    require(f >= -1e-12 && f <= 1 + 1e-12, "fraction ", f);
    require(x[i] <= q && q <= x[i + 1], "the interval ", i, " does not hold the query");
    double back = (1 - f) * x[i] + f * x[i + 1];
    require(near(back, q, 1e-12, 1e-12 * (x.back() - x[0] + std::fabs(x[0]))), "fraction ", f, " stands for ", back, " instead of ", q);
}

PROPERTY(simpson, 100000, 5000000, "a cubic with a non-zero cubic term")
{
    unsigned n = 2 * (unsigned)g.integer(1, g.chance(10) ? 200 : 8) + 1;
    double a = g.sreal(5), h = g.logu(1e-3, 1e2) * (n > 50 ? 0.1 : 1);
    double c[4];
    for (double& v : c) v = g.sreal(3);
    std::vector<double> x(n), y(n);
    for (unsigned i = 0; i < n; i++) { x[i] = a + i * h; y[i] = c[0] + x[i] * (c[1] + x[i] * (c[2] + x[i] * c[3])); }
    g.note("n", n); g.note("from", a); g.note("step", h);
    for (int i = 0; i < 4; i++) g.note(cat("c", i), c[i]);
    if (c[3] != 0) g.nontrivial();
    auto F = [&](long double t) { return t * (c[0] + t * (c[1] / 2.0L + t * (c[2] / 3.0L + t * c[3] / 4.0L))); };
    long double want = F(x.back()) - F(x[0]);
    long double scale = 0;
    for (double v : y) scale += std::fabs(v) * h;
    double got = Numerics::SimpsonsRule(x, y);
    require(near(got, (double)want, 1e-10, (double)(1e-11L * scale)), "integral ", got, ", expected ", (double)want);
}

PBT_MAIN
