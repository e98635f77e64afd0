// Partition selection of the C++ library.
#include "algorithms/partition-selection.h"
#include "mon.h"

using namespace mon;
namespace dp = differential_privacy;

namespace {
long double Sf(long double x) { return erfcl(x / sqrtl(2.0L)) / 2; }
struct P {
  int kind;
  double eps, delta;
  int64_t l0;
  int pre;
  bool setpre;
  double adj;
  D& Put(D& d) const {
    return d("strategy", kind == 0 ? "geometric" : kind == 1 ? "Laplace" : "Gaussian")("epsilon", eps)("delta", delta)("l0", l0)("pre_threshold", pre);
  }
};
double Adjust(double delta, double l0) { return -std::expm1(std::log1p(-delta) / l0); }
std::unique_ptr<dp::PartitionSelectionStrategy> Make(P* p) {
  p->kind = g.Int(0, 2);
  p->eps = g.Pick<double>({g.LogU(.01, 20), g.LogU(.1, 3), 1});
  p->delta = g.Pick<double>({g.LogU(1e-12, .3), g.LogU(1e-5, .1), g.Unif(.3, .99)});
  p->l0 = g.Pick<int64_t>({1, 1, 2, 3, g.Int(1, 50)});
  p->setpre = g.Coin(.6);
  p->pre = p->setpre ? g.Pick<int>({1, 2, 5, g.Int(1, 60)}) : 1;
  std::unique_ptr<dp::PartitionSelectionStrategyBuilder> b;
  if (p->kind == 0) b = std::make_unique<dp::NearTruncatedGeometricPartitionSelection::Builder>();
  if (p->kind == 1) b = std::make_unique<dp::LaplacePartitionSelection::Builder>();
  if (p->kind == 2) b = std::make_unique<dp::GaussianPartitionSelection::Builder>();
  b->SetEpsilon(p->eps).SetDelta(p->delta).SetMaxPartitionsContributed(p->l0);
  if (p->setpre) b->SetPreThreshold(p->pre);
  auto s = b->Build();
  p->adj = Adjust(p->kind == 2 ? p->delta / 2 : p->delta, p->l0);
  if (!Check(s.ok(), "selection:build", "valid parameters are refused", [&](D& d) { p->Put(d); })) return nullptr;
  return std::move(s).value();
}
// The probability of keeping a partition of n users.
double Truth(const P& p, int64_t n) {
  if (n < p.pre) return 0;
  if (p.kind == 0) {
    long double e = expl((long double)p.eps / p.l0), q = 0, dl = p.adj;
    for (int64_t i = p.pre; i <= n; ++i) q = std::min(std::min(e * q + dl, 1 - (1 - q - dl) / e), 1.0L);
    return q;
  }
  double x = n - p.pre;  // users beyond the first that may be kept
  if (p.kind == 1) {
    double b = p.l0 / p.eps;
    double t = p.adj <= .5 ? -b * std::log(2 * p.adj) : b * std::log(2 * (1 - p.adj));  // threshold above one user
    double y = t - x;
    return y > 0 ? std::exp(-y / b) / 2 : 1 - std::exp(y / b) / 2;
  }
  double s = dp::GaussianMechanism::CalculateStddev(p.eps, p.delta / 2, std::sqrt((double)p.l0));
  long double lo = -60, hi = 60;
  for (int i = 0; i < 200; ++i) {
    long double mid = (lo + hi) / 2;
    if (Sf(mid) > p.adj) lo = mid; else hi = mid;
  }
  return Sf(lo - x / s);
}

Reg r1("selExact", [](int n) {
  for (int k = 0; k < n; ++k) {
    P p;
    auto s = Make(&p);
    if (!s) continue;
    Key(Cat(p.kind, p.eps, p.delta, p.l0, p.pre));
    double last = 0;
    int64_t step = g.Pick<int64_t>({1, 1, 7});
    for (int64_t u = g.Pick<int64_t>({0, p.pre - 1, p.pre}), i = 0; i < 60; ++i, u += step) {
      double got = s->ProbabilityOfKeep(u), want = Truth(p, u);
      Count("selection_probabilities");
      auto put = [&](D& d) { p.Put(d)("users", u)("probability", got)("exact", want); };
      if (!Check(std::fabs(got - want) <= 1e-7 * want + 1e-15, "selection:probability", "the probability of keeping a partition is wrong", put)) break;
      if (!Check(got >= last - 1e-12 && got <= 1 + 1e-12, "selection:monotone", "more users lower the probability", put)) break;
      if (u < p.pre) Check(got == 0 && !s->ShouldKeep(u), "selection:pre", "a partition below the pre-threshold is kept", put);
      last = got;
    }
  }
});

Reg r2("selLaw", [](int n) {
  for (int k = 0; k < n; ++k) {
    P p;
    auto s = Make(&p);
    if (!s) continue;
    Key(Cat(p.kind, p.eps, p.delta, p.l0, p.pre));
    // users where something may happen either way
    int64_t hi = p.pre;
    while (Truth(p, hi) < .5 && hi < p.pre + 3000) hi += 1 + (hi - p.pre) / 4;
    for (int j = 0; j < 3; ++j) {
      int64_t u = g.I64(std::max<int64_t>(0, p.pre - 1), hi + 1);
      double want = Truth(p, u);
      int N = 2000, kept = 0, kept2 = 0;
      bool above = true;
      for (int i = 0; i < N; ++i) kept += s->ShouldKeep(u);
      Count("selections", N);
      Check(Binomial(N, kept, want), "selection:frequency", "partitions are not kept as often as they should be", [&](D& d) { p.Put(d)("users", u)("kept", kept)("expected", want * N); });
      if (p.kind == 0) continue;
      double thr = p.kind == 1 ? dynamic_cast<dp::LaplacePartitionSelection*>(s.get())->GetThreshold() : dynamic_cast<dp::GaussianPartitionSelection*>(s.get())->GetThreshold();
      for (int i = 0; i < N; ++i) {
        auto v = p.kind == 1 ? dynamic_cast<dp::LaplacePartitionSelection*>(s.get())->NoiseValueIfShouldKeep(u) : dynamic_cast<dp::GaussianPartitionSelection*>(s.get())->NoiseValueIfShouldKeep(u);
        kept2 += v.has_value();
        above = above && (!v.has_value() || *v > thr);
      }
      Check(Binomial(N, kept2, want), "selection:noisedFrequency", "noised partitions are not kept as often as they should be", [&](D& d) { p.Put(d)("users", u)("kept", kept2)("expected", want * N); });
      Check(above, "selection:below", "a released value lies below the threshold", [&](D& d) { p.Put(d)("users", u); });
    }
  }
});

Reg r3("selThreshold", [](int n) {
  for (int k = 0; k < n; ++k) {
    double eps = g.LogU(.01, 20), delta = g.Pick<double>({g.LogU(1e-12, .3), g.Unif(.3, .99)});
    int64_t l0 = g.Pick<int64_t>({1, 2, g.Int(1, 60)});
    auto t = dp::LaplacePartitionSelection::CalculateThreshold(eps, delta, l0);
    Count("selection_thresholds");
    Key(Cat(eps, delta, l0));
    auto put = [&](D& d) { d("epsilon", eps)("delta", delta)("l0", l0); if (t.ok()) d("threshold", *t); };
    if (!Check(t.ok(), "threshold:refused", "valid parameters are refused", put)) continue;
    double b = l0 / eps, y = *t - 1;
    double one = y > 0 ? std::exp(-y / b) / 2 : 1 - std::exp(y / b) / 2;  // one user exceeds it
    double total = -std::expm1(l0 * std::log1p(-one));
    Check(std::fabs(total - delta) <= 1e-7 * delta, "threshold:laplace", "the threshold does not meet delta", [&](D& d) { put(d); d("achieved", total); });
    auto back = dp::LaplacePartitionSelection::CalculateDelta(eps, *t, l0);
    Check(back.ok() && std::fabs(*back - delta) <= 1e-7 * delta, "threshold:inverse", "CalculateDelta does not invert CalculateThreshold", [&](D& d) { put(d); if (back.ok()) d("delta back", *back); });
    double nd = delta * .5;
    auto u = dp::GaussianPartitionSelection::CalculateThreshold(eps, nd, nd, l0);
    if (!Check(u.ok(), "threshold:refused", "valid parameters are refused", put)) continue;
    double sg = dp::GaussianMechanism::CalculateStddev(eps, nd, std::sqrt((double)l0));
    double o2 = Sf((*u - 1) / sg), tot2 = -std::expm1(l0 * std::log1p(-o2));
    Check(std::fabs(tot2 - nd) <= 1e-6 * nd, "threshold:gaussian", "the threshold does not meet delta", [&](D& d) { put(d); d("gaussian threshold", *u)("achieved", tot2)("wanted", nd); });
    auto b2 = dp::GaussianPartitionSelection::CalculateThresholdDelta(eps, nd, *u, l0);
    Check(b2.ok() && std::fabs(*b2 - nd) <= 1e-6 * nd + 1e-14 * l0, "threshold:gaussianInverse", "CalculateThresholdDelta does not invert CalculateThreshold", [&](D& d) { put(d); if (b2.ok()) d("delta back", *b2)("wanted", nd); });
  }
});

Reg r4("selInvalid", [](int n) {
  for (int k = 0; k < n; ++k) {
    int kind = g.Int(0, 2), which = g.Int(0, 3);
    std::unique_ptr<dp::PartitionSelectionStrategyBuilder> b;
    if (kind == 0) b = std::make_unique<dp::NearTruncatedGeometricPartitionSelection::Builder>();
    if (kind == 1) b = std::make_unique<dp::LaplacePartitionSelection::Builder>();
    if (kind == 2) b = std::make_unique<dp::GaussianPartitionSelection::Builder>();
    double bad = g.Pick<double>({0, -1, std::nan(""), INFINITY});
    bool missing = g.Coin(.2) && which != 3;
    double delta = g.LogU(1e-6, .1);
    if (!(missing && which == 0)) b->SetEpsilon(which == 0 ? bad : 1);
    if (!(missing && which == 1)) b->SetDelta(which == 1 ? g.Pick<double>({-.1, 1.1, std::nan(""), INFINITY}) : delta);
    if (!(missing && which == 2)) b->SetMaxPartitionsContributed(which == 2 ? g.Int(-3, 0) : 1);
    if (which == 3) b->SetPreThreshold(g.Int(-3, 0));
    Count("invalid");
    Key(Cat(kind, which, bad, missing));
    Check(!b->Build().ok(), "selection:invalid", "invalid parameters are accepted", [&](D& d) { d("strategy", kind)("which", which)("bad", bad)("missing", missing); });
  }
});
}  // namespace
