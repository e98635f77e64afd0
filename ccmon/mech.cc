// Noise of the C++ library.
#include "mon.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <thread>

using namespace mon;
namespace dp = differential_privacy;
using Mech = std::unique_ptr<dp::NumericalMechanism>;

namespace {
struct P {
  bool laplace;
  double eps, delta, l0, linf, l1, l2, scale;
  D& Put(D& d) const {
    return d("noise", laplace ? "Laplace" : "Gaussian")("epsilon", eps)("delta", delta)("l0", l0)("linf", linf)("scale", scale);
  }
};
double Phi(double x) { return std::erfc(-x / std::sqrt(2.0)) / 2; }
// delta of Gaussian noise, with long doubles and logarithms
long double DeltaOf(long double eps, long double l2, long double sigma) {
  long double a = l2 / (2 * sigma), b = eps * sigma / l2;
  auto logtail = [](long double t) -> long double {  // log Pr[N > t]
    if (t < 100) return logl(erfcl(t / sqrtl(2.0L)) / 2);
    return -t * t / 2 - logl(t * sqrtl(2 * M_PIl));
  };
  long double x = expl(logtail(b - a)), y = expl(eps + logtail(a + b));
  return x - y;
}
Mech Make(P* p, bool direct = false) {
  p->laplace = g.Coin();
  p->eps = g.Pick<double>({g.LogU(.01, 20), g.LogU(1e-6, 1), 1, 0.5, std::log(3.0)});
  p->delta = g.LogU(1e-12, .4);
  p->l0 = g.Pick<double>({1, 2, 3, (double)g.Int(1, 100), 10});
  p->linf = g.Pick<double>({1, 2, g.LogU(1e-6, 1e9), (double)g.Int(1, 50)});
  p->l1 = p->l0 * p->linf;
  p->l2 = std::sqrt(p->l0) * p->linf;
  absl::StatusOr<Mech> m;
  if (p->laplace) {
    dp::LaplaceMechanism::Builder b;
    b.SetEpsilon(p->eps);
    if (direct) b.SetL1Sensitivity(p->l1); else b.SetL0Sensitivity(p->l0).SetLInfSensitivity(p->linf);
    m = b.Build();
    p->scale = p->l1 / p->eps;
  } else {
    dp::GaussianMechanism::Builder b;
    b.SetEpsilon(p->eps).SetDelta(p->delta);
    if (direct) b.SetL2Sensitivity(p->l2); else b.SetL0Sensitivity(p->l0).SetLInfSensitivity(p->linf);
    m = b.Build();
    p->scale = dp::GaussianMechanism::CalculateStddev(p->eps, p->delta, p->l2);
  }
  if (!m.ok()) {
    Check(false, "noise:build", "valid parameters are refused", [&](D& d) { p->Put(d)("error", std::string(m.status().message())); });
    return nullptr;
  }
  return std::move(m).value();
}
double CdfOf(const P& p, double x) {
  if (!p.laplace) return Phi(x / p.scale);
  return x > 0 ? 1 - std::exp(-x / p.scale) / 2 : std::exp(x / p.scale) / 2;
}
double Pow2Above(double x) {
  int e;
  double f = std::frexp(x, &e);
  return std::ldexp(1, f == .5 ? e - 1 : e);
}

void Law(int n, bool integer) {
  for (int k = 0; k < n; ++k) {
    P p;
    Mech m = Make(&p, g.Coin(.3));
    if (!m) continue;
    if (integer && (p.scale < .3 || p.scale > 1e15)) { --k; continue; }
    double gran = p.laplace ? Pow2Above(p.scale / 0x1p40) : Pow2Above(2 * p.scale / 0x1p57);
    double base = g.Pick<double>({0, 0, g.Unif(-5, 5) * p.scale, g.Unif(-1000, 1000)});
    if (integer) base = std::round(base);
    int draws = 3000;
    std::vector<double> v;
    bool grid = true, frac = true;
    int zero = 0;
    for (int i = 0; i < draws; ++i) {
      double x;
      if (integer) {
        x = static_cast<double>(m->AddNoise(static_cast<int64_t>(base)) - static_cast<int64_t>(base));
      } else {
        double y = m->AddNoise(base);
        if (std::fabs(y) < gran * 0x1p50) grid = grid && std::fmod(y, gran) == 0;
        x = y - base;
      }
      zero += x == 0;
      v.push_back(x);
    }
    Count("draws", draws);
    Key(Cat(integer, p.laplace, p.eps, p.delta, p.l0, p.linf));
    double stat = 0;
    bool ok;
    if (integer) {  // dithering turns the rounded values into a continuous law (a mixture of uniforms)
      int64_t lo = 0;
      auto F = [&](double x) { double f = std::floor(x + .5); double c0 = CdfOf(p, f - .5), c1 = CdfOf(p, f + .5); return c0 + (c1 - c0) * (x + .5 - f); };
      for (auto& x : v) x += g.U() - .5;
      (void)lo;
      ok = Ks(v, F, &stat);
    } else {
      ok = Ks(v, [&](double x) { return CdfOf(p, x); }, &stat);
    }
    Check(ok, integer ? "noise:lawInt" : "noise:law", "the noise does not follow its law", [&](D& d) { p.Put(d)("ks", stat)("base", base); });
    Check(grid, "noise:grid", "results are not multiples of the granularity", [&](D& d) { p.Put(d)("granularity", gran)("base", base); });
    if (!integer) {
      std::set<double> u(v.begin(), v.end());
      Check(u.size() + 5 >= v.size(), "noise:repeats", "noise values repeat", [&](D& d) { p.Put(d)("distinct", u.size())("n", v.size()); });
    }
    (void)frac;
  }
}
Reg r1("lawFloat", [](int n) { Law(n, false); });
Reg r2("lawInt", [](int n) { Law(n, true); });

Reg r3("sigma", [](int n) {
  for (int k = 0; k < n; ++k) {
    double eps = g.Pick<double>({g.LogU(1e-4, 50), g.LogU(.1, 5), g.LogU(1e-8, 1)}), delta = g.Pick<double>({g.LogU(1e-15, .5), g.LogU(1e-6, .1)});
    double l2 = g.LogU(1e-6, 1e6);
    double s = dp::GaussianMechanism::CalculateStddev(eps, delta, l2);
    Count("sigmas");
    Key(Cat(eps, delta, l2));
    auto put = [&](D& d) { d("epsilon", eps)("delta", delta)("l2", l2)("sigma", s)("achieved", (double)DeltaOf(eps, l2, s)); };
    if (!Check(std::isfinite(s) && s > 0, "sigma:value", "sigma is not a positive number", put)) continue;
    // Cancellation in double precision limits how well delta can be known.
    double tol = delta * 1e-6 + 4e-15;
    Check((double)DeltaOf(eps, l2, s) <= delta + tol, "sigma:private", "the standard deviation is too small for epsilon and delta", put);
    Check((double)DeltaOf(eps, l2, s / 1.0021) >= delta - tol - delta * 1e-3 * 0, "sigma:tight", "the standard deviation is larger than documented", put);
  }
});

Reg r4("interval", [](int n) {
  for (int k = 0; k < n; ++k) {
    P p;
    bool direct = g.Coin(.2);
    Mech m;
    if (direct) {
      p = P{false, 0, 0, 0, 0, 0, 0, g.LogU(1e-6, 1e6)};
      dp::GaussianMechanism::Builder b;
      b.SetStandardDeviation(p.scale);
      auto x = b.Build();
      if (!Check(x.ok(), "noise:build", "a standard deviation is refused", [&](D& d) { p.Put(d); })) continue;
      m = std::move(x).value();
    } else {
      m = Make(&p, g.Coin(.3));
    }
    if (!m) continue;
    Key(Cat(p.laplace, p.eps, p.delta, p.l0, p.linf, p.scale));
    double level = g.Pick<double>({.95, .5, g.U() * .998 + .001, 1 - g.LogU(1e-9, .1), g.LogU(1e-6, .1)});
    double at = g.Pick<double>({0, g.Unif(-10, 10) * p.scale});
    auto ci = m->NoiseConfidenceInterval(level, at);
    Count("intervals");
    auto put = [&](D& d) { p.Put(d)("level", level)("value", at); if (ci.ok()) d("lower", ci->lower_bound())("upper", ci->upper_bound()); };
    if (!Check(ci.ok(), "interval:refused", "a valid confidence level is refused", put)) continue;
    double lo = ci->lower_bound() - at, hi = ci->upper_bound() - at;
    double seen = 1 - CdfOf(p, -hi) - CdfOf(p, lo);  // symmetric law
    double noise = 1e-9 + 4 * 2.3e-16 * std::fabs(at) / p.scale;
    double alpha = 1 - level;
    // The library inverts the error function with a formula for single precision.
    double rel = p.laplace || alpha > 1e-6 ? 1e-5 : .03;
    Check(std::fabs((1 - seen) - alpha) <= alpha * rel + noise * 1e-3 + noise * alpha, "interval:coverage", "the interval does not contain the noise with its level", [&](D& d) { put(d); d("covers", seen); });
    Check(std::fabs(lo + hi) <= 1e-9 * (hi - lo) + 1e-15 * std::fabs(at), "interval:symmetric", "the interval is not symmetric", put);
    Check(ci->confidence_level() == level, "interval:level", "the interval names another level", put);
    auto z = m->NoiseConfidenceInterval(level);
    Check(z.ok() && std::fabs(z->upper_bound() - hi) <= 1e-9 * hi + 1e-15 * std::fabs(at), "interval:zero", "the interval around zero differs", put);
    Check(std::fabs(m->GetVariance() - (p.laplace ? 2 : 1) * p.scale * p.scale) <= 1e-9 * m->GetVariance(), "noise:variance", "the reported variance differs from that of the noise", [&](D& d) { put(d); d("variance", m->GetVariance()); });
    for (double bad : {0.0, 1.0, -.1, 1.5, std::nan(""), (double)INFINITY}) {
      Check(!m->NoiseConfidenceInterval(bad).ok(), "interval:invalid", "an invalid level is accepted", [&](D& d) { p.Put(d)("level", bad); });
    }
    double q = g.Pick<double>({g.U() * .998 + .001, g.LogU(1e-6, .1), 1 - g.LogU(1e-6, .1)});
    double x = m->Quantile(q);
    Check(std::fabs(CdfOf(p, x) - q) <= 1e-7 * std::min(q, 1 - q) + 1e-15, "noise:quantile", "Quantile is not the inverse of the distribution", [&](D& d) { p.Put(d)("p", q)("x", x); });
    double y = g.Unif(-8, 8) * p.scale;
    Check(std::fabs(m->Cdf(y) - CdfOf(p, y)) <= 1e-9 * m->Cdf(y) + 1e-15, "noise:cdf", "Cdf is not the distribution of the noise", [&](D& d) { p.Put(d)("x", y)("cdf", m->Cdf(y)); });
    double t = at + g.Unif(-4, 4) * p.scale;
    double pr = m->ProbabilityOfNoisedValueAboveThreshold(at, t);
    Check(std::fabs(pr - CdfOf(p, at - t)) <= 1e-9 + 1e-6 * pr, "threshold:probability", "the probability of exceeding a threshold is wrong", [&](D& d) { p.Put(d)("at", at)("threshold", t)("probability", pr); });
  }
});

Reg r5("above", [](int n) {
  for (int k = 0; k < n; ++k) {
    P p;
    Mech m = Make(&p);
    if (!m) continue;
    double at = g.Unif(-3, 3) * p.scale, t = at + g.Unif(-3, 3) * p.scale;
    int hits = 0, N = 3000;
    for (int i = 0; i < N; ++i) hits += m->NoisedValueAboveThreshold(at, t);
    Count("above", N);
    Key(Cat(p.laplace, p.eps, p.l0, at, t));
    Check(Binomial(N, hits, CdfOf(p, at - t)), "threshold:frequency", "a threshold is not exceeded as often as it should be", [&](D& d) { p.Put(d)("at", at)("threshold", t)("hits", hits)("expected", N * CdfOf(p, at - t)); });
  }
});

Reg r6("invalid", [](int n) {
  const double bad[] = {0, -1, std::nan(""), INFINITY, -INFINITY, -1e-300};
  for (int k = 0; k < n; ++k) {
    double eps = g.LogU(.01, 5), delta = g.LogU(1e-9, .1), l0 = g.Int(1, 5), linf = g.LogU(.1, 10);
    bool laplace = g.Coin();
    int which = g.Int(0, laplace ? 3 : 5);
    double b = bad[g.Int(0, 5)];
    bool missing = g.Coin(.15);
    if (which == 4 && b == 0 && g.Coin()) b = 1;
    absl::StatusOr<Mech> m;
    auto put = [&](D& d) { d("noise", laplace ? "Laplace" : "Gaussian")("which", which)("bad", b)("missing", missing); };
    auto fill = [&](dp::NumericalMechanismBuilder& x) {
      if (!(missing && which == 0)) x.SetEpsilon(which == 0 ? b : eps);
      if (!laplace && !(missing && which == 4)) x.SetDelta(which == 4 ? b : delta);
      if (which != 3 && which != 5) {
        if (!(missing && which == 1)) x.SetL0Sensitivity(which == 1 ? b : l0);
        if (!(missing && which == 2)) x.SetLInfSensitivity(which == 2 ? b : linf);
      }
    };
    if (laplace) {
      dp::LaplaceMechanism::Builder x;
      fill(x);
      if (which == 3 && !missing) x.SetL1Sensitivity(b);
      m = x.Build();
    } else {
      dp::GaussianMechanism::Builder x;
      fill(x);
      if ((which == 3 || which == 5) && !missing) x.SetL2Sensitivity(b);
      m = x.Build();
    }
    Count("invalid");
    Key(Cat(laplace, which, b, missing));
    Check(!m.ok(), "noise:invalid", "invalid parameters are accepted", put);
    // The least epsilon of Laplace noise, and noise that would overflow
    dp::LaplaceMechanism::Builder y;
    double tiny = g.Coin() ? 0x1p-50 * g.Unif(.01, .999) : 0x1p-50 * g.Unif(1.001, 4);
    y.SetEpsilon(tiny).SetL0Sensitivity(1).SetLInfSensitivity(1);
    Check(y.Build().ok() == (tiny >= 0x1p-50), "noise:tiny", "the least epsilon is not 2^-50", [&](D& d) { d("epsilon", tiny); });
    dp::LaplaceMechanism::Builder z;
    z.SetEpsilon(g.LogU(.001, .1)).SetL0Sensitivity(1e10).SetLInfSensitivity(g.LogU(1e296, 1e298));
    Check(!z.Build().ok(), "noise:overflow", "noise that overflows is accepted", [&](D&) {});
  }
});

Reg r7("roundtrip", [](int n) {
  for (int k = 0; k < n; ++k) {
    P p;
    Mech m = Make(&p, g.Coin(.3));
    if (!m) continue;
    Count("roundtrips");
    Key(Cat(p.laplace, p.eps, p.delta, p.l0, p.linf));
    double sc;
    if (p.laplace) {
      auto x = dp::LaplaceMechanism::Deserialize(dynamic_cast<dp::LaplaceMechanism*>(m.get())->Serialize());
      if (!Check(x.ok(), "noise:serialize", "a serialized mechanism cannot be read", [&](D& d) { p.Put(d); })) continue;
      sc = dynamic_cast<dp::LaplaceMechanism*>(x->get())->GetDiversity();
    } else {
      auto x = dp::GaussianMechanism::Deserialize(dynamic_cast<dp::GaussianMechanism*>(m.get())->Serialize());
      if (!Check(x.ok(), "noise:serialize", "a serialized mechanism cannot be read", [&](D& d) { p.Put(d); })) continue;
      sc = dynamic_cast<dp::GaussianMechanism*>(x->get())->CalculateStddev();
    }
    Check(std::fabs(sc - p.scale) <= 1e-12 * p.scale, "noise:serialize", "a serialized mechanism reads back with another scale", [&](D& d) { p.Put(d)("scale read", sc); });
    // The mechanism with the lower variance
    dp::MinVarianceMechanismBuilder b;
    double delta = p.delta;
    b.SetEpsilon(p.eps).SetDelta(delta).SetL0Sensitivity(p.l0).SetLInfSensitivity(p.linf);
    auto best = b.Build();
    if (!Check(best.ok(), "noise:min", "valid parameters are refused", [&](D& d) { p.Put(d); })) continue;
    double lap = 2 * std::pow(p.l1 / p.eps, 2), gau = std::pow(dp::GaussianMechanism::CalculateStddev(p.eps, delta, p.l2), 2);
    Check(std::fabs((*best)->GetVariance() - std::min(lap, gau)) <= 1e-9 * std::min(lap, gau), "noise:min", "not the mechanism of lower variance", [&](D& d) { p.Put(d)("laplace", lap)("gaussian", gau)("got", (*best)->GetVariance()); });
  }
});

// With the same randomness a value is moved by what its input moves, rounded to the granularity.
Reg r8("coupled", [](int n) {
  for (int k = 0; k < n; ++k) {
    P p;
    Mech m = Make(&p);
    if (!m) continue;
    bool integer = g.Coin();
    double gran = p.laplace ? Pow2Above(p.scale / 0x1p40) : Pow2Above(2 * p.scale / 0x1p57);
    if (integer && g.Coin(.7)) {
      double s = p.laplace ? g.LogU(0x1p41, 0x1p48) : g.LogU(0x1p56, 0x1p58);
      if (p.laplace) {
        dp::LaplaceMechanism::Builder b;
        b.SetEpsilon(1).SetL0Sensitivity(1).SetLInfSensitivity(s);
        m = b.Build().value();
      } else {
        dp::GaussianMechanism::Builder b;
        b.SetStandardDeviation(s);
        m = b.Build().value();
      }
      p.scale = s;
      gran = p.laplace ? Pow2Above(s / 0x1p40) : Pow2Above(2 * s / 0x1p57);
    }
    if (integer && p.scale > 4e17) continue;
    uint64_t seed = g.U64();
    auto draw = [&](double x, double* f, int64_t* i) {
      Source({0xff});
      int64_t h = Handed();
      while (Handed() == h) dp::SecureURBG::GetInstance()();
      Source({});
      Seed(seed);
      h = Handed();
      while (Handed() == h) dp::SecureURBG::GetInstance()();
      if (integer) *i = m->AddNoise(static_cast<int64_t>(x)); else *f = m->AddNoise(x);
    };
    double f0 = 0, f1 = 0;
    int64_t i0 = 0, i1 = 0;
    draw(0, &f0, &i0);
    draw(0, &f1, &i1);
    if (f0 != f1 || i0 != i1) { Count("not_replayed"); continue; }
    for (int j = 0; j < 4; ++j) {
      double x = g.Pick<double>({gran * g.Int(-40, 40), gran * g.Unif(-5, 5), p.scale * g.Unif(-2, 2), g.Unif(-1e6, 1e6)});
      if (integer) {
        x = std::round(x);
        if (std::fabs(x) > 1e17) x = std::fmod(x, 1e17);
        if (std::fabs(x) > 0x1p53) x = std::round(x / 1024) * 1024;
      }
      draw(x, &f1, &i1);
      Count("coupled");
      Key(Cat(p.laplace, integer, p.scale, x));
      auto put = [&](D& d) { p.Put(d)("integer", integer)("x", x)("granularity", gran)("base", integer ? (double)i0 : f0)("value", integer ? (double)i1 : f1); };
      if (integer) {
        int64_t diff = i1 - i0 - static_cast<int64_t>(x), h = static_cast<int64_t>(std::max(gran, 1.0));
        Check((i1 - i0) % h == 0 && 2 * diff <= h && -2 * diff <= h && (gran > 1 || diff == 0), "coupled:int", "the value is not rounded to the nearest multiple of the granularity", put);
      } else {
        double diff = f1 - f0 - x, tol = gran / 2 * (1 + 1e-9) + 4.5e-16 * (std::fabs(f0) + std::fabs(f1) + std::fabs(x));
        Check(std::fabs(diff) <= tol, "coupled:float", "with the same randomness the noise differs for another value", put);
      }
    }
  }
});

// The uniform and geometric generators behind the noise.
Reg r9("rand", [](int n) {
  for (int k = 0; k < n; ++k) {
    std::vector<double> u;
    std::map<int, int> geo;
    int N = 4000, low = 0;
    for (int i = 0; i < N; ++i) {
      double x = dp::UniformDouble();
      u.push_back(x);
      if (!Check(x > 0 && x < 1, "rand:range", "a uniform number lies outside (0, 1)", [&](D& d) { d("value", x); })) return;
      low += std::fmod(x * 0x1p60, 256) != 0;
      geo[dp::Geometric() >= 12 ? 12 : (int)dp::Geometric()]++;
    }
    Count("uniform", N);
    Key(Cat(g.U64()));
    double stat;
    Check(Ks(u, [](double x) { return x; }, &stat), "rand:uniform", "uniform numbers are not uniform", [&](D& d) { d("ks", stat); });
    // Small numbers have as many bits as large ones.
    std::vector<double> tiny;
    std::set<uint64_t> seen;
    for (int i = 0; i < 2000; ++i) seen.insert(dp::SecureURBG::GetInstance()());
    Check(seen.size() == 2000, "rand:repeats", "64 random bits repeat", [&](D& d) { d("distinct", seen.size()); });
    std::map<int, int> h;
    for (int i = 0; i < N; ++i) h[std::min<uint64_t>(dp::Geometric(), 13)]++;
    for (int j = 1; j <= 12; ++j) {
      Check(Binomial(N, h[j], std::ldexp(1, -j)), "rand:geometric", "geometric numbers do not follow their law", [&](D& d) { d("value", j)("seen", h[j])("expected", std::ldexp(N, -j)); });
    }
    // A run of zero bits is used to the end.
    Source({0});
    int64_t q = Handed();
    while (Handed() == q) dp::SecureURBG::GetInstance()();
    double z = dp::UniformDouble();
    uint64_t gz = dp::Geometric();
    Source({});
    q = Handed();
    while (Handed() == q) dp::SecureURBG::GetInstance()();
    Check(z >= 0 && z < 1e-300 && gz >= 1023, "rand:zeros", "a long run of zero bits is not a small number", [&](D& d) { d("uniform", z)("geometric", (double)gz); });
  }
});

// What the source delivers is handed out once, whoever asks.
Reg r10("threads", [](int n) {
  auto& u = dp::SecureURBG::GetInstance();
  for (int k = 0; k < n; ++k) {
    TagSource(true);
    int64_t h = Handed();
    while (Handed() == h) u();
    int T = g.Int(2, 8), per = g.Int(1000, 12000);
    bool noise = g.Coin(.3);
    std::vector<std::vector<uint64_t>> got(T);
    std::vector<std::vector<double>> dbl(T);
    std::vector<std::thread> ts;
    std::atomic<int> go{0};
    std::vector<uint64_t> pause(T);
    for (auto& p : pause) p = g.Int(1, 300);
    for (int t = 0; t < T; ++t) ts.emplace_back([&, t] {
      ++go;
      while (go < T) std::this_thread::yield();
      for (int i = 0; i < per; ++i) {
        if (noise) dbl[t].push_back(dp::UniformDouble()); else got[t].push_back(u());
        if (i % pause[t] == 0) std::this_thread::yield();
      }
    });
    for (auto& t : ts) t.join();
    int64_t total = 0, foreign = 0;
    std::set<uint64_t> all;
    std::set<double> alld;
    for (auto& v : got) for (auto w : v) { ++total; all.insert(w); foreign += !Given(w); }
    for (auto& v : dbl) for (auto w : v) { ++total; alld.insert(w); }
    TagSource(false);
    Count("concurrent", total);
    Key(Cat(T, per, noise, pause[0]));
    auto put = [&](D& d) { d("threads", T)("each", per)("total", (double)total)("distinct", (double)(all.size() + alld.size()))("not from the source", (double)foreign); };
    Check((int64_t)(all.size() + alld.size()) >= total - (noise ? 2 : 0), "rand:shared", "threads get the same random bits", put);
    Check(foreign == 0, "rand:foreign", "random bits do not come from the source", put);
  }
});

// Without random bytes the process stops.
Reg r11("failure", [](int n) {
  for (int k = 0; k < n; ++k) {
    int skip = g.Int(0, 20000), what = g.Int(0, 3);
    double eps = g.LogU(1e-3, 10);
    std::fflush(stdout);
    pid_t c = fork();
    if (c == 0) {
      int null = open("/dev/null", O_WRONLY);
      dup2(null, 2);
      dup2(null, 1);
      signal(SIGABRT, SIG_DFL);
      for (int i = 0; i < skip; ++i) dp::SecureURBG::GetInstance()();
      FailSource();
      auto m = dp::LaplaceMechanism::Builder().SetL0Sensitivity(1).SetLInfSensitivity(1).SetEpsilon(eps).Build();
      // More than a buffer holds.
      for (int i = 0; i < 300000; ++i) {
        if (what == 0) dp::SecureURBG::GetInstance()();
        if (what == 1) dp::UniformDouble();
        if (what == 2) dp::Geometric();
        if (what == 3) (*m)->AddNoise(1.0);
      }
      _exit(0);
    }
    int st = 0;
    waitpid(c, &st, 0);
    Count("failures");
    Key(Cat(skip, what, eps));
    Check(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "rand:failure", "noise goes on without random bytes", [&](D& d) { d("draws before", skip)("what", what); });
  }
});
}  // namespace
