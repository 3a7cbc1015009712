// C19: the photon emission rate is the quantum synchrotron rate.
// LIBS: PhysicsQED Particles Tools
#include "emitter.hh"
using namespace pbt;

static Lepton make(const Setup& s) { return Lepton(1, s.q, s.x.tv(), s.p.tv(), s.w, s.t); }

// First emission of many equal particles: the state is still the initial one, so
// the step in which it happens is known exactly: P(later than n) = exp(-rate n dt)
PROPERTY(first_emission, 600, 12000, "between 3 and 60 steps to the first emission on average")
{
    Setup s = drawEmitter(g, 1e-5, 9.9);
    double rate = theory::emissionRate(s.eta, s.gamma), per = g.logu(0.015, 1.5), dt = per / rate;
    int n = 12000;
    g.note("rate times dt", per);
    if (per > 1. / 60 && per < 1. / 3) g.nontrivial();
    MCTools::SetSeed(g.seed());
    StochasticEmission em(&theField(), dt);
    ParticleList list("photons", n + 10);
    int limit = (int)(12 / per) + 2;
    std::vector<int> count(limit + 2);
    for (int i = 0; i < n; i++)
    {
        Lepton l = make(s);
        int k = 1;
        for (; k <= limit; k++) { em.Interact(&l, &list); if (mag(V3(l.GetMomentum()) - s.p) > 0) break; }
        count[std::min(k, limit + 1)]++;
    }
    double cum = 0, worst = 0; int at = 0;
    for (int k = 1; k <= limit; k++)
    {
        cum += count[k];
        double d = std::fabs(cum / n - (1 - std::exp(-per * k)));
        if (d > worst) { worst = d; at = k; }
    }
    require(worst <= stats::ksLimit(n), "after ", at, " steps the share that has emitted is off by ", worst, " from the exponential law at the quantum synchrotron rate ", rate, "; the mean step is ",
            [&] { double m = 0; for (int k = 1; k <= limit + 1; k++) m += (double)k * count[k]; return m / n; }(), " instead of ", 1 / (1 - std::exp(-per)));
    // the mean is sharper: geometric law
    double m = 0; for (int k = 1; k <= limit + 1; k++) m += (double)k * count[k];
    m /= n;
    double q = std::exp(-per), want = 1 / (1 - q), sd = std::sqrt(q) / (1 - q) / std::sqrt(n);
    require(std::fabs(m - want) <= 7.5 * sd + 0.005 * want, "the first emission comes in step ", m, " on average instead of ", want);
}

// The optical depth used up in a step is the rate times the step, to the precision of the table
PROPERTY(rate_over_the_range, 60000, 1000000, "a field with an electric and a magnetic part")
{
    Setup s = drawEmitter(g, 1e-6, 9.9);
    double rate = theory::emissionRate(s.eta, s.gamma);
    if (mag(theField().e) > 0 && mag(theField().b) > 0) g.nontrivial();
    // steps of powers of 100, well below one emission
    double dt = std::pow(100, std::floor(std::log10(1e-3 / rate) / 2));
    StochasticEmission& em = stochastic(dt);
    ParticleList list("photons", 10);
    double used[2];
    for (int i = 0; i < 2; i++)
    {
        Lepton l(1, i ? -s.q : s.q, s.x.tv(), s.p.tv(), i ? 3.5 : 1, s.t);
        double before = l.GetOpticalDepth();
        em.Interact(&l, &list);
        // an emission sets a new depth; a code that counts otherwise leaves it alone
        if (mag(V3(l.GetMomentum()) - s.p) > 0 || l.GetOpticalDepth() == before) throw Discard();
        used[i] = before - l.GetOpticalDepth();
        require(near(used[i], rate * dt, 0.003, 1e-15 * before * 2), "in a step of ", dt, " the optical depth fell by ", used[i], " instead of ", rate * dt);
    }
    require(near(used[0], used[1], 1e-6, 1e-14), "the rate depends on the charge or weight: ", used[0], " and ", used[1]);
}

// Many emissions with little recoil: counts in a time, whatever the steps
PROPERTY(number_in_a_time, 600, 6000, "more than 5 emissions per particle")
{
    // eta small: an emission takes less than a hundredth of the energy, and the rate hardly depends on the energy
    Setup s = drawEmitter(g, 1e-5, 2e-4, 100, 1e6);
    // only magnetic: turn nothing, since nothing is pushed
    double rate = theory::emissionRate(s.eta, s.gamma), mean = g.logu(1, 20), T = mean / rate;
    int sub = (int)g.logu(1, 30);
    double per = g.logu(0.01, 0.08); int steps = std::max(1, (int)std::lround(mean / per)); double dt = T / steps;
    (void)sub;
    int n = 250;
    g.note("emissions", mean); g.note("steps", steps);
    if (mean > 5) g.nontrivial();
    MCTools::SetSeed(g.seed());
    StochasticEmission em(&theField(), dt, 1, 1e300);   // nothing recorded
    ParticleList list("photons", 10);
    double sum = 0, sum2 = 0; double gapSum = 0; long gaps = 0; std::vector<long> gapCount(400);
    for (int i = 0; i < n; i++)
    {
        Lepton l = make(s);
        int c = 0; V3 p(l.GetMomentum()); int last = 0;
        for (int k = 1; k <= steps; k++)
        {
            em.Interact(&l, &list);
            V3 q(l.GetMomentum());
            if (mag(q - p) > 0) { c++; if (c > 1) { gapSum += k - last; gaps++; } last = k; p = q; }
        }
        sum += c; sum2 += (double)c * c;
    }
    double m = sum / n, var = sum2 / n - m * m, w = mean;
    // recoil takes eta or so of the energy per emission; a step counts at most one emission
    double slack = mean * (3 * s.eta * mean + per * 0.6 + 0.01);
    require(std::fabs(m - w) <= 7.5 * std::sqrt(w / n) + slack, "on average ", m, " emissions instead of ", w, " in ", steps, " steps");
    // Poisson: variance equals mean; the spread of the variance estimate for n particles
    double vs = std::sqrt((w + 2 * w * w * n / (n - 1.0)) / n);
    require(std::fabs(var - w) <= 7.5 * vs + 2.5 * slack, "the number of emissions has the variance ", var, " instead of ", w);
}

// dividing a step: the same total
PROPERTY(step_division, 300, 4000, "more than 3 divisions")
{
    Setup s = drawEmitter(g, 1e-4, 9.9);
    double rate = theory::emissionRate(s.eta, s.gamma), prob = g.real(0.1, 3), T = prob / rate;
    int k = (int)g.integer(2, 25);
    g.note("rate times T", prob); g.note("divisions", k);
    if (k > 3) g.nontrivial();
    int n = 20000;
    MCTools::SetSeed(g.seed());
    StochasticEmission one(&theField(), T), many(&theField(), T / k);
    ParticleList list("photons", 2 * n + 10);
    int a = 0, b = 0;
    for (int i = 0; i < n; i++)
    {
        Lepton l = make(s); one.Interact(&l, &list); a += mag(V3(l.GetMomentum()) - s.p) > 0;
        Lepton h = make(s); for (int j = 0; j < k; j++) { many.Interact(&h, &list); if (mag(V3(h.GetMomentum()) - s.p) > 0) { b++; break; } }
    }
    double want = 1 - std::exp(-prob), sd = std::sqrt(want * (1 - want) / n);
    require(std::fabs(a / double(n) - want) <= 7.5 * sd + 0.003, "in one step the share ", a / double(n), " emitted instead of ", want);
    require(std::fabs(b / double(n) - want) <= 7.5 * sd + 0.003, "in ", k, " steps the share ", b / double(n), " emitted instead of ", want);
}

// Each step is a trial of its own, however long the step and whatever happened before
PROPERTY(trials, 500, 8000, "steps of more than half an emission, or photons below a millionth of the rest energy")
{
    Setup s = drawEmitter(g, 1e-7, 2e-4, 1.2, 1e6);
    double rate = theory::emissionRate(s.eta, s.gamma), per = g.logu(0.1, 5), dt = per / rate;
    const int steps = 12, n = 800;
    g.note("rate times dt", per);
    if (per > 0.5 || s.eta * s.gamma < 1e-6) g.nontrivial();
    MCTools::SetSeed(g.seed());
    StochasticEmission em(&theField(), dt, 1, 1e300);   // nothing recorded
    ParticleList list("photons", 10);
    double q = 1 - std::exp(-per), count[2] = {0, 0}, trials[2] = {0, 0};     // after a step without, with an emission
    for (int i = 0; i < n; i++)
    {
        Lepton l = make(s);
        V3 p(l.GetMomentum()); int last = 0;
        for (int k = 0; k < steps; k++)
        {
            em.Interact(&l, &list);
            V3 now(l.GetMomentum()); int did = mag(now - p) > 0; p = now;
            if (k) { trials[last]++; count[last] += did; }
            last = did;
        }
    }
    for (int j = 0; j < 2; j++)
        require(std::fabs(count[j] - trials[j] * q) <= 7.5 * std::sqrt(trials[j] * q * (1 - q)) + 4 + 0.015 * trials[j] * q, "after a step ", j ? "with" : "without", " an emission there were ", count[j], " emissions in ", trials[j], " steps of ", per, " times the mean time between emissions, instead of ", trials[j] * q);
}

PBT_MAIN
