// Quantum synchrotron radiation and nonlinear Breit-Wheeler pair creation in
// locally constant crossed fields, from their integrals over Bessel functions.
#ifndef THEORY_HH
#define THEORY_HH
#include <algorithm>
#include <cmath>
#include <vector>

namespace theory {
static const double alpha = 1 / 137.035999;
inline double K(double nu, double z) { return z > 600 ? 0 : std::cyl_bessel_k(nu, z); }

// a function tabulated on a logarithmic axis, interpolated in the logarithm of both
struct LogTable
{
    double lo, hi; std::vector<double> y;
    template <class F> LogTable(double l, double h, int n, F f) : lo(std::log(l)), hi(std::log(h))
    { for (int i = 0; i <= n; i++) y.push_back(std::log(std::max(1e-300, f(std::exp(lo + (hi - lo) * i / n))))); }
    double operator()(double x) const
    {
        double s = (std::log(x) - lo) / (hi - lo) * (y.size() - 1);
        s = std::min(std::max(s, 0.0), y.size() - 1.0 - 1e-9);
        size_t i = (size_t)s;
        return std::exp(y[i] + (y[i + 1] - y[i]) * (s - i));
    }
};
// int_z^inf K_{5/3}
inline const LogTable& intK53()
{
    static LogTable* t = nullptr;
    if (!t)
    {
        // from the top down, Simpson in log z
        const int n = 4000; const double lo = std::log(1e-12), hi = std::log(300.0), h = (hi - lo) / n;
        std::vector<double> v(n + 1); double s = K(5. / 3, 300);
        v[n] = s;
        auto f = [](double l) { double z = std::exp(l); return K(5. / 3, z) * z; };
        for (int i = n - 1; i >= 0; i--) { double a = lo + i * h; s += h / 6 * (f(a) + 4 * f(a + h / 2) + f(a + h)); v[i] = s; }
        int k = 0;
        t = new LogTable(1e-12, 300, n, [&](double) { return v[k++]; });
    }
    return *t;
}
inline const LogTable& K23()
{
    static LogTable* t = nullptr;
    if (!t) t = new LogTable(1e-12, 300, 4000, [](double z) { return K(2. / 3, z); });
    return *t;
}
// cumulated spectrum of emitted photons over the share of the energy, and its mean
struct Spectrum
{
    std::vector<double> share, cum; double mean, rate;     // rate times gamma
    double cdf(double x) const
    {
        if (x <= share.front()) return cum.front() * std::cbrt(x / share.front());     // soft photons: x^(-2/3)
        if (x >= share.back()) return 1;
        size_t i = std::upper_bound(share.begin(), share.end(), x) - share.begin();
        double a = std::log(share[i - 1]), b = std::log(share[i]);
        return cum[i - 1] + (cum[i] - cum[i - 1]) * (std::log(x) - a) / (b - a);
    }
};
inline Spectrum emissionSpectrum(double eta)
{
    Spectrum s;
    const int n = 3000;
    double lo = std::log(eta * 1e-11), hi = std::log(eta * 400), h = (hi - lo) / n;
    auto f = [&](double l) {
        double u = std::exp(l), z = 2 * u / (3 * eta);
        if (z > 290) return 0.0;
        return u / ((1 + u) * (1 + u)) * (intK53()(z) + u * u / (1 + u) * K23()(z));
    };
    double c = 3 * f(lo), m = 0, prev = f(lo);      // below: f(u)du ~ u^(-2/3)du
    for (int i = 0; i <= n; i++)
    {
        double l = lo + i * h, u = std::exp(l);
        if (i > 0)
        {
            double mid = f(l - h / 2), now = f(l), um = std::exp(l - h / 2), up = std::exp(l - h);
            c += h / 6 * (prev + 4 * mid + now);
            m += h / 6 * (prev * up / (1 + up) + 4 * mid * um / (1 + um) + now * u / (1 + u));
            prev = now;
        }
        s.share.push_back(u / (1 + u)); s.cum.push_back(c);
    }
    for (double& x : s.cum) x /= c;
    s.mean = m / c; s.rate = alpha / (std::sqrt(3.0) * M_PI) * c;
    return s;
}
// photons per unit time
inline double emissionRate(double eta, double gamma)
{
    static LogTable* t = nullptr;
    if (!t) t = new LogTable(1e-8, 20, 400, [](double e) { return emissionSpectrum(e).rate; });
    return (*t)(eta) / gamma;
}

// Pair creation by a photon of energy k (rest energies) with kappa = k |transverse field|
// share s of the positron: cumulated, as given by Daugherty and Harding
struct PairShare
{
    std::vector<double> cum;    // at equal steps of s
    double cdf(double s) const
    {
        double x = std::min(std::max(s, 0.0), 1.0) * (cum.size() - 1); size_t i = std::min((size_t)x, cum.size() - 2);
        return cum[i] + (cum[i + 1] - cum[i]) * (x - i);
    }
};
inline PairShare pairShare(double kappa)
{
    PairShare r; const int n = 2000; double c = 0, prev = 0;
    auto f = [&](double s) {
        if (s <= 0 || s >= 1) return 0.0;
        double z = 2 / (3 * kappa * s * (1 - s));
        return z > 290 ? 0.0 : (2 + s * (1 - s)) / (s * (1 - s)) * K23()(z);
    };
    r.cum.push_back(0);
    for (int i = 1; i <= n; i++) { double s = i / double(n), now = f(s); c += (prev + 4 * f(s - 0.5 / n) + now) / 6 / n; prev = now; r.cum.push_back(c); }
    for (double& x : r.cum) x /= c;
    return r;
}
// Erber's form of the rate
inline double pairRate(double kappa, double k)
{
    double b = K(1. / 3, 4 / (3 * kappa));
    return 0.16 * alpha / k * b * b;
}
}
#endif
