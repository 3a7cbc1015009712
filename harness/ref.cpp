// The reference integrator behind a C interface, for the end-to-end checks.
// LIBS: PhysicsQED Particles Tools
#include "motion.hh"
#include "theory.hh"

static double quantumFactor(double chi)
{
    double s = 0, lo = std::log(1e-9), hi = std::log(60.0); int n = 800; double h = (hi - lo) / n;
    for (int i = 0; i <= n; i++)
    {
        double y = std::exp(lo + i * h), d = 2 + 3 * chi * y;
        double f = 2 * y * y * std::cyl_bessel_k(5.0 / 3, y) / (d * d) + 36 * chi * chi * y * y * y * std::cyl_bessel_k(2.0 / 3, y) / (d * d * d * d);
        s += f * y * (i == 0 || i == n ? 1 : i % 2 ? 4 : 2);
    }
    return 9 * std::sqrt(3.0) / (8 * M_PI) * s * h / 3;
}
static double factor(double eta)
{
    static std::vector<double> t;
    const double lo = -6, hi = 3; const int n = 270;
    if (t.empty()) for (int i = 0; i <= n; i++) t.push_back(quantumFactor(std::pow(10, lo + (hi - lo) * i / n)));
    double l = std::log10(eta);
    if (!(l > lo)) return 1;
    double x = std::min((l - lo) / (hi - lo) * n, n - 1e-6); int i = (int)x;
    return t[i] + (t[i + 1] - t[i]) * (x - i);
}
extern "C" {
// static: Ex Ey Ez Bx By Bz; plane: Emax wavelength polarisation dx dy dz;
// gaussian, focusing: Emax wavelength duration waist polarisation start focus
void* ref_field(const char* type, const double* a)
{
    std::string t = type;
    if (t == "static") return (EMField*)new StaticEMField(ThreeVector(a[0], a[1], a[2]), ThreeVector(a[3], a[4], a[5]));
    if (t == "plane") return (EMField*)new PlaneEMField(a[0], a[1], a[2], ThreeVector(a[3], a[4], a[5]));
    if (t == "gaussian") return (EMField*)new GaussianEMField(a[0], a[1], a[2], a[3], a[4], ThreeVector(a[5], a[6], a[7]), ThreeVector(a[8], a[9], a[10]));
    return (EMField*)new FocusingField(a[0], a[1], a[2], a[3], a[4], ThreeVector(a[5], a[6], a[7]), ThreeVector(a[8], a[9], a[10]));
}
void ref_free(void* f) { delete (EMField*)f; }
// moves s = (t, x, p) on by T; model 0: no radiation, 1: classical, 2: quantum corrected; 3, 4: the same with 5 % more loss; etaMax is the largest eta on the way
void ref_push(void* f, double* s, double charge, double T, int steps, int model, double* etaMax)
{
    std::function<long double(long double)> loss;
    long double top = 0;
    loss = [&](long double eta) { top = std::max(top, eta); return model == 0 ? 0.0L : 2.0L / 3 * ALPHA * eta * eta * (model % 2 == 1 ? 1 : factor((double)eta)) * (model > 2 ? 1.05 : 1); };
    State r = reference((EMField*)f, State{V3(s[1], s[2], s[3]), V3(s[4], s[5], s[6]), s[0]}, 1, charge, T, steps, loss);
    s[0] = (double)r.t; for (int i = 0; i < 3; i++) { s[1 + i] = (double)r.x[i]; s[4 + i] = (double)r.p[i]; }
    if (etaMax) *etaMax = (double)top;
}
// photons per unit time; cumulated spectrum over the share of the energy of the emitter; mean share
double ref_pair_rate(double kappa, double k) { return theory::pairRate(kappa, k); }
double ref_pair_cdf(double kappa, double share) { return theory::pairShare(kappa).cdf(share); }
double ref_emission_rate(double eta, double gamma) { return theory::emissionRate(eta, gamma); }
void ref_emission_cdf(double eta, int n, const double* share, double* cdf, double* mean)
{
    theory::Spectrum t = theory::emissionSpectrum(eta);
    for (int i = 0; i < n; i++) cdf[i] = t.cdf(share[i]);
    *mean = t.mean;
}
}
