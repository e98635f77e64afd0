// Quantiles, order statistics and automatic bounds of the C++ library, with recording noise.
#include <algorithm>

#include "algorithms/approx-bounds.h"
#include "algorithms/order-statistics.h"
#include "algorithms/quantile-tree.h"
#include "algorithms/quantiles.h"
#include "mon.h"

using namespace mon;
namespace dp = differential_privacy;

namespace {
template <class T>
struct Q {
  T lo, hi;
  int height, branching, l0, c;
  double eps, delta;
  D& Put(D& d) const {
    return d("type", std::is_integral<T>::value ? "int64" : "double")("lower", (double)lo)("upper", (double)hi)("height", height)("branching", branching)("l0", l0)("contributions", c)("epsilon", eps);
  }
  double Leaves() const { return std::pow((double)branching, height); }
};
template <class T>
Q<T> Draw() {
  Q<T> q;
  if (std::is_integral<T>::value) {
    int64_t w = g.Pick<int64_t>({1, 10, 1000, 1000000, (int64_t)1 << 40});
    q.lo = g.I64(-w, w);
    q.hi = q.lo + g.I64(1, w);
  } else {
    double w = g.Pick<double>({1, g.LogU(1e-3, 1e6)});
    q.lo = g.Pick<double>({0, -w, g.Unif(-w, w)});
    q.hi = q.lo + w * g.Unif(.1, 1);
  }
  q.height = g.Int(1, 4);
  q.branching = g.Pick<int>({2, 3, 4, g.Int(2, 16)});
  q.l0 = g.Pick<int>({1, 1, 2, g.Int(1, 20)});
  q.c = g.Pick<int>({1, 1, 2, g.Int(1, 9)});
  q.eps = g.LogU(.01, 10);
  q.delta = g.Coin() ? 0 : g.LogU(1e-9, .1);
  return q;
}
template <class T>
std::unique_ptr<dp::QuantileTree<T>> Tree(const Q<T>& q) {
  typename dp::QuantileTree<T>::Builder b;
  auto t = b.SetLower(q.lo).SetUpper(q.hi).SetTreeHeight(q.height).SetBranchingFactor(q.branching).Build();
  if (!Check(t.ok(), "tree:build", "valid options are refused", [&](D& d) { q.Put(d); })) return nullptr;
  return std::move(t).value();
}
template <class T>
typename dp::QuantileTree<T>::DPParams Params(const Q<T>& q) {
  typename dp::QuantileTree<T>::DPParams p;
  p.epsilon = q.eps;
  p.delta = q.delta;
  p.max_contributions_per_partition = q.c;
  p.max_partitions_contributed_to = q.l0;
  p.mechanism_builder = std::make_unique<RecBuilder>();
  return p;
}
template <class T>
T Value(const Q<T>& q) {
  if (std::is_integral<T>::value) {
    int64_t lo = q.lo, hi = q.hi;
    return g.Pick<int64_t>({lo, hi, g.I64(lo, hi), g.I64(lo, hi), lo - 1, hi + 1, lo + (hi - lo) / 2, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::lowest()});
  }
  double w = q.hi - q.lo;
  return g.Pick<double>({(double)q.lo, (double)q.hi, g.Unif(q.lo, q.hi), g.Unif(q.lo, q.hi), g.Unif(q.lo, q.lo + w / 50), q.lo + w * g.Int(0, 8) / 8, q.lo - w, std::nan(""), INFINITY, -INFINITY, 1e300});
}
template <class T>
std::vector<double> Clean(const Q<T>& q, const std::vector<T>& v) {
  std::vector<double> o;
  for (T x : v) if (!std::isnan((double)x)) o.push_back(std::min(std::max((double)x, (double)q.lo), (double)q.hi));
  std::sort(o.begin(), o.end());
  return o;
}
double Rank() { return g.Pick<double>({0, 1, .5, .25, g.U(), g.U(), .005, .995, .001, .999, g.LogU(1e-6, .1)}); }
int Odd(double v) { return (int)(std::llround(std::fabs(v)) * 2654435761u % 7) - 3; }

// Answers without noise are the quantiles, interpolated within a leaf; asking for one does not change another.
template <class T>
void Exact(int n) {
  for (int k = 0; k < n; ++k) {
    Q<T> q = Draw<T>();
    auto t = Tree(q);
    if (!t) continue;
    std::vector<T> v;
    int size = g.Pick<int>({0, 1, 2, g.Int(0, 150)});
    for (int i = 0; i < size; ++i) v.push_back(Value(q));
    for (T x : v) t->AddEntry(x);
    Fresh();
    bool noisy = g.Coin(.4);
    if (noisy) rec.noise = [](double x, int) { return (double)Odd(x); };
    auto p = t->MakePrivate(Params(q));
    auto put = [&](D& d) -> D& { return q.Put(d)("size", (double)size)("noise", noisy); };
    if (!Check(p.ok(), "tree:private", "valid parameters are refused", [&](D& d) { put(d)("error", std::string(p.status().message())); })) continue;
    for (auto& b : rec.built) {
      Check(b.eps <= q.eps * (1 + 1e-12) && b.delta <= q.delta * (1 + 1e-12), "tree:budget", "more than the privacy budget is spent", [&](D& d) { put(d)("spent", b.eps); });
      Check(b.l0 >= (double)q.l0 * q.height && b.linf >= q.c, "tree:sensitivity", "the noise is for fewer counts than a user changes", [&](D& d) { put(d)("noise l0", b.l0)("noise linf", b.linf); });
    }
    Check(rec.built.size() == 1, "tree:budget", "noise is made more than once", [&](D& d) { put(d)("times", rec.built.size()); });
    Count("trees");
    Key(Cat(std::is_integral<T>::value, (double)q.lo, (double)q.hi, q.height, q.branching, size));
    t->AddEntry(q.hi);  // too late
    std::vector<double> c = Clean(q, v);
    double L = q.Leaves(), width = ((double)q.hi - (double)q.lo) / L;
    std::vector<std::pair<double, double>> seen;
    for (int i = 0; i < 6; ++i) {
      double rank = Rank();
      auto r = p->GetQuantile(rank);
      if (!Check(r.ok(), "tree:rank", "a valid rank is refused", [&](D& d) { put(d)("rank", rank); })) continue;
      double x = *r;
      Count("quantiles");
      seen.push_back({rank, x});
      Check(x >= q.lo - 1e-12 * std::fabs((double)q.lo) && x <= q.hi + 1e-12 * std::fabs((double)q.hi), "tree:range", "a quantile lies outside of the bounds", [&](D& d) { put(d)("rank", rank)("value", x); });
      // a separate copy asked for this one only
      rec.built.clear();
      auto t2 = Tree(q);
      for (T y : v) t2->AddEntry(y);
      auto p2 = t2->MakePrivate(Params(q));
      auto alone = p2->GetQuantile(rank);
      Check(alone.ok() && *alone == x, "tree:alone", "a quantile differs when it is asked for alone", [&](D& d) { put(d)("rank", rank)("value", x)("alone", *alone); });
      if (!noisy) {
        double m = std::min(std::max(rank, .005), .995) * c.size();
        if (c.empty()) {
          Check(std::fabs(x - (q.lo + (double)(q.hi - q.lo) * m * 0 - 0)) <= (double)q.hi - q.lo, "tree:empty", "no quantile of nothing", put);
        } else if (std::fabs(m - std::round(m)) > 1e-3) {
          double truth = c[(size_t)std::ceil(m) - 1], lo = q.lo, f = (truth - lo) / ((double)q.hi - lo);
          bool fits = false;
          double want[2];
          for (int way = 0; way < 2; ++way) {
            auto leaf = [&](double y) { double h = (y - lo) / ((double)q.hi - lo); return way ? std::min(std::floor(h * L), L - 1) : std::floor(h * (L - 1)); };
            double mine = leaf(truth), before = 0, in = 0;
            for (double y : c) { before += leaf(y) < mine; in += leaf(y) == mine; }
            want[way] = lo + width * (mine + (m - before) / in);
            fits = fits || std::fabs(want[way] - x) <= 1e-4 * width + 1e-9 * (std::fabs(lo) + std::fabs((double)q.hi));
          }
          Count("exact");
          Check(fits, "tree:exact", "a quantile without noise is not that of the data, interpolated within its leaf", [&](D& d) { put(d)("rank", rank)("value", x)("expected", want[0])("data there", truth)("leaf", width); });
          (void)f;
        }
      }
    }
    // A search for an interval may pass nodes no quantile has passed before, except in a tree of one level.
    bool fresh = q.height > 1;
    std::vector<std::pair<double, double>> first = seen;
    for (auto& s : first) {
      if (g.Coin()) continue;
      double level = g.Unif(.01, .99), rank = s.first, x = s.second;
      auto ci = p->ComputeNoiseConfidenceInterval(rank, level);
      Count("intervals");
      if (!Check(ci.ok(), "tree:interval", "no confidence interval", [&](D& d) { put(d)("rank", rank)("level", level); })) continue;
      double e = 1e-9 * (std::fabs((double)q.lo) + std::fabs((double)q.hi)) + 1e-5 * ((double)q.hi - q.lo);
      auto put2 = [&](D& d) { put(d)("rank", rank)("value", x)("level", level)("interval lower", ci->lower_bound())("interval upper", ci->upper_bound()); };
      Check(ci->lower_bound() >= q.lo - e && ci->upper_bound() <= q.hi + e && ci->confidence_level() == level, "tree:interval", "a confidence interval exceeds the bounds", put2);
      Check(noisy || (ci->lower_bound() <= x + e && x <= ci->upper_bound() + e), "tree:interval", "a confidence interval does not contain the quantile", put2);
      auto again = p->GetQuantile(rank);
      Check(again.ok() && *again == x, "tree:after", "a quantile changes after its confidence interval", [&](D& d) { put(d)("rank", rank)("value", x)("again", *again); });
    }
    for (int i = 0; i < 3; ++i) {
      double rank = Rank();
      auto r = p->GetQuantile(rank);
      auto t2 = Tree(q);
      for (T y : v) t2->AddEntry(y);
      auto p2 = t2->MakePrivate(Params(q));
      auto alone = p2->GetQuantile(rank);
      Count("late_quantiles");
      Check(r.ok() && alone.ok() && *alone == *r, fresh ? "tree:afterUnvisited" : "tree:after", "a quantile changes after a confidence interval", [&](D& d) { put(d)("rank", rank)("value", *r)("alone", *alone); });
    }
    std::sort(seen.begin(), seen.end());
    for (size_t i = 1; i < seen.size(); ++i) {
      Check(seen[i].second >= seen[i - 1].second - 2e-5 * ((double)q.hi - q.lo), "tree:monotone", "quantiles are not monotone", [&](D& d) { put(d)("rank", seen[i - 1].first)("value", seen[i - 1].second)("higher rank", seen[i].first)("lower value", seen[i].second); });
    }
    for (double bad : {-.1, 1.1, -1e-9, (double)INFINITY}) Check(!p->GetQuantile(bad).ok() && !p->ComputeNoiseConfidenceInterval(bad, .5).ok(), "tree:badRank", "an invalid rank is accepted", [&](D& d) { put(d)("rank", bad); });
  }
}
Reg r1("treeExact", [](int n) { Exact<double>(n / 2); Exact<int64_t>(n / 2); });

// Neighbours: one user moves the counts asked for by no more than the noise is made for, and
// equal noised counts give equal answers.
template <class T>
void Neighbours(int n) {
  for (int k = 0; k < n; ++k) {
    Q<T> q = Draw<T>();
    auto a = Tree(q), b = Tree(q);
    if (!a || !b) continue;
    int size = g.Int(0, 60);
    for (int i = 0; i < size; ++i) {
      T x = Value(q);
      a->AddEntry(x);
      b->AddEntry(x);
    }
    bool same = g.Coin();
    T one = Value(q);
    for (int i = 0; i < q.c; ++i) b->AddEntry(same ? one : Value(q));
    std::vector<double> ranks, levels;
    for (int i = 0; i < 8; ++i) { ranks.push_back(Rank()); levels.push_back(g.Coin() ? 0 : g.Unif(.1, .9)); }
    int mode = g.Int(0, 2);
    std::vector<double> script(2000);
    for (auto& x : script) x = mode == 0 ? 10 : mode == 1 ? g.Int(0, 20) : g.Int(-20, 40);
    auto run = [&](dp::QuantileTree<T>* t, std::vector<double>* out) {
      Fresh();
      size_t j = 0;
      rec.noise = [&](double x, int) { return script[j++ % script.size()] - x; };
      auto p = t->MakePrivate(Params(q));
      if (!p.ok()) return;
      for (size_t i = 0; i < ranks.size(); ++i) {
        out->push_back(p->GetQuantile(ranks[i]).value_or(-1));
        if (levels[i] > 0) {
          auto ci = p->ComputeNoiseConfidenceInterval(ranks[i], levels[i]);
          if (ci.ok()) { out->push_back(ci->lower_bound()); out->push_back(ci->upper_bound()); }
        }
      }
    };
    std::vector<double> x, y;
    run(a.get(), &x);
    auto p = rec.asks;
    run(b.get(), &y);
    auto r = rec.asks;
    Count("neighbours");
    Key(Cat(std::is_integral<T>::value, (double)q.lo, (double)q.hi, q.height, q.branching, size));
    auto put = [&](D& d) -> D& { return q.Put(d)("size", (double)size); };
    if (!Check(p.size() == r.size() && x == y, "tree:release", "with equal noised counts the answers differ", put)) continue;
    double moved = 0;
    for (size_t i = 0; i < p.size(); ++i) moved += std::fabs(p[i].value - r[i].value);
    double nodes = (q.Leaves() * q.branching - 1) / (q.branching - 1) - 1;
    Check(p.size() <= nodes, "tree:once", "more counts are noised than there are nodes", [&](D& d) { put(d)("asked", p.size())("nodes", nodes); });
    if (!p.empty()) Check(moved <= p[0].linf * p[0].l0 / q.l0, "tree:moved", "one user moves the counts by more than their noise is made for", [&](D& d) { put(d)("moved", moved)("made for", p[0].linf * p[0].l0 / q.l0); });
  }
}
Reg r2("treeNeighbours", [](int n) { Neighbours<double>(n / 2); Neighbours<int64_t>(n / 2); });

template <class T>
void MergeTrees(int n) {
  for (int k = 0; k < n; ++k) {
    Q<T> q = Draw<T>();
    auto all = Tree(q), a = Tree(q), b = Tree(q);
    if (!all) continue;
    int size = g.Int(0, 60);
    for (int i = 0; i < size; ++i) {
      T x = Value(q);
      all->AddEntry(x);
      (g.Coin() ? a : b)->AddEntry(x);
    }
    if (g.Coin(.2)) {
      auto junk = Tree(q);
      for (int i = 0; i < 5; ++i) junk->AddEntry(Value(q));
      junk->Reset();
      auto z = a->Serialize();
      if (junk->Merge(z).ok()) a = std::move(junk);
    }
    dp::BoundedQuantilesSummary m;
    m.ParseFromString(b->Serialize().SerializeAsString());
    auto put = [&](D& d) -> D& { return q.Put(d)("size", (double)size); };
    Count("merged");
    Key(Cat(std::is_integral<T>::value, (double)q.lo, (double)q.hi, q.height, q.branching, size));
    if (!Check(a->Merge(m).ok(), "tree:merge", "a part of the input is refused", put)) continue;
    int what = g.Int(0, 5);
    auto bad = b->Serialize();
    if (what == 0) bad.set_lower(bad.lower() - 1);
    if (what == 1) bad.set_upper(bad.upper() * 2 + 7);
    if (what == 2) bad.set_tree_height(q.height + 1);
    if (what == 3) bad.set_branching_factor(q.branching + 1);
    if (what == 4) bad.clear_tree_height();
    if (what == 5) bad.clear_branching_factor();
    if (bad.lower() != (double)q.lo || bad.upper() != (double)q.hi || what > 1) {
      Check(!a->Merge(bad).ok(), "tree:bad", "an unsuitable summary is merged", [&](D& d) { put(d)("what", what); });
    }
    Fresh();
    auto p = a->MakePrivate(Params(q)), r = all->MakePrivate(Params(q));
    for (int i = 0; i < 8; ++i) {
      double rank = Rank(), x = p->GetQuantile(rank).value(), y = r->GetQuantile(rank).value();
      Check(x == y, "tree:merged", "merged parts are not the whole", [&](D& d) { put(d)("rank", rank)("merged", x)("whole", y); });
    }
  }
}
Reg r3("treeMerge", [](int n) { MergeTrees<double>(n / 2); MergeTrees<int64_t>(n / 2); });

// Quantiles as an aggregation: budget, range, once only.
Reg r4("quantiles", [](int n) {
  for (int k = 0; k < n; ++k) {
    Q<double> q = Draw<double>();
    q.height = 4;
    q.branching = 16;
    std::vector<double> ranks;
    for (int i = g.Int(1, 5); i > 0; --i) ranks.push_back(Rank());
    int bad = g.Int(0, 11);
    typename dp::Quantiles<double>::Builder b;
    b.SetEpsilon(bad == 0 ? g.Pick<double>({0, -1, std::nan(""), INFINITY}) : q.eps).SetDelta(bad == 1 ? g.Pick<double>({-1, 2, std::nan("")}) : q.delta);
    b.SetMaxPartitionsContributed(bad == 2 ? g.Int(-2, 0) : q.l0).SetMaxContributionsPerPartition(bad == 3 ? g.Int(-2, 0) : q.c);
    if (bad != 4) b.SetLower(bad == 5 ? q.hi + 1 : q.lo);
    b.SetUpper(bad == 6 ? g.Pick<double>({std::nan(""), INFINITY}) : q.hi);
    if (bad == 7) ranks.clear();
    if (bad == 8) ranks.push_back(g.Pick<double>({-.1, 1.1, INFINITY}));
    b.SetQuantiles(ranks);
    Fresh();
    b.SetLaplaceMechanism(std::make_unique<RecBuilder>());
    auto a = b.Build();
    Count(bad > 8 ? "quantile_aggregations" : "invalid");
    Key(Cat(bad, q.eps, q.lo));
    auto put = [&](D& d) -> D& { return q.Put(d)("bad", bad); };
    if (!Check(a.ok() == (bad > 8), "quantiles:options", bad > 8 ? "valid options are refused" : "invalid options are accepted", put) || !a.ok()) continue;
    for (int i = g.Int(0, 20); i > 0; --i) (*a)->AddEntry(Value(q));
    rec.built.clear();
    rec.noise = [](double x, int) { return (double)g.Int(-5, 5); };
    auto r = (*a)->PartialResult();
    if (!Check(r.ok() && r->elements_size() == (int)ranks.size(), "quantiles:result", "not one answer for each rank", put)) continue;
    for (int i = 0; i < r->elements_size(); ++i) {
      double x = r->elements(i).value().float_value();
      Check(x >= q.lo - 1e-12 * std::fabs(q.lo) && x <= q.hi + 1e-12 * std::fabs(q.hi), "quantiles:range", "a quantile lies outside of the bounds", put);
    }
    double spent = 0, del = 0;
    bool l0 = true;
    for (auto& m : rec.built) { spent += m.eps; del += m.delta; l0 = l0 && m.l0 >= 4. * q.l0 && m.linf >= q.c; }
    Check(spent <= q.eps * (1 + 1e-12) && del <= q.delta * (1 + 1e-12) && l0, "quantiles:budget", "more than the privacy budget is spent", [&](D& d) { put(d)("spent", spent); });
    size_t asked = rec.asks.size();
    Check(!(*a)->PartialResult().ok() && rec.asks.size() == asked, "quantiles:twice", "a result is given twice", put);
    (*a)->Reset();
    Check((*a)->PartialResult().ok(), "quantiles:reset", "no result after Reset", put);
  }
});

// Laplace noise that records, for the order statistics, which insist on Laplace noise.
class RecLaplace : public dp::LaplaceMechanism {
 public:
  class Builder : public dp::LaplaceMechanism::Builder {
   public:
    absl::StatusOr<std::unique_ptr<dp::NumericalMechanism>> Build() override {
      double l0 = GetL0Sensitivity().value_or(-1), linf = GetLInfSensitivity().value_or(-1);
      Ask a{GetEpsilon().value_or(-1), 0, l0, linf, 0, static_cast<int>(rec.built.size())};
      rec.built.push_back(a);
      if (!(a.eps > 0) || !(l0 > 0) || !(linf > 0)) return absl::InvalidArgumentError("recorder");
      return absl::StatusOr<std::unique_ptr<dp::NumericalMechanism>>(std::make_unique<RecLaplace>(a));
    }
    std::unique_ptr<dp::NumericalMechanismBuilder> Clone() const override { return std::make_unique<Builder>(*this); }
  };
  explicit RecLaplace(Ask a) : LaplaceMechanism(a.eps, a.l0 * a.linf), a_(a) {}
  double AddDoubleNoise(double v) override {
    a_.value = v;
    rec.asks.push_back(a_);
    return v + (rec.noise ? rec.noise(v, a_.id) : rec.offset);
  }
  int64_t AddInt64Noise(int64_t v) override { return static_cast<int64_t>(AddDoubleNoise(static_cast<double>(v))); }

 private:
  Ask a_;
};
template <class T>
std::unique_ptr<dp::Algorithm<T>> Order(int kind, double p, const Q<T>& q, bool bounded, absl::Status* st) {
  auto fill = [&](auto& b) -> std::unique_ptr<dp::Algorithm<T>> {
    b.SetEpsilon(q.eps).SetMaxPartitionsContributed(q.l0).SetMaxContributionsPerPartition(q.c).SetLaplaceMechanism(std::make_unique<RecLaplace::Builder>());
    if (bounded) b.SetLower(q.lo).SetUpper(q.hi);
    auto r = b.Build();
    *st = r.status();
    if (!r.ok()) return nullptr;
    return std::move(r).value();
  };
  if (kind == 0) { typename dp::continuous::Max<T>::Builder b; return fill(b); }
  if (kind == 1) { typename dp::continuous::Min<T>::Builder b; return fill(b); }
  if (kind == 2) { typename dp::continuous::Median<T>::Builder b; return fill(b); }
  typename dp::continuous::Percentile<T>::Builder b;
  b.SetPercentile(p);
  return fill(b);
}
template <class T>
void OrderStats(int n) {
  for (int k = 0; k < n; ++k) {
    Q<T> q = Draw<T>();
    q.eps = g.LogU(.05, 10);
    int kind = g.Int(0, 3);
    double p = g.Pick<double>({g.U(), .1, .9, .25, .75});
    if (std::fabs(p - .5) < .01) p = .3;
    bool bounded = g.Coin(.8);
    absl::Status st;
    Fresh();
    auto a = Order(kind, p, q, bounded, &st), b = Order(kind, p, q, bounded, &st);
    auto put = [&](D& d) -> D& { return q.Put(d)("statistic", kind == 0 ? "max" : kind == 1 ? "min" : kind == 2 ? "median" : "percentile")("percentile", p)("bounded", bounded); };
    if (!Check(a && b, "order:build", "valid options are refused", [&](D& d) { put(d)("error", std::string(st.message())); })) continue;
    int size = g.Pick<int>({0, 1, g.Int(0, 50)});
    for (int i = 0; i < size; ++i) {
      T x = Value(q);
      a->AddEntry(x);
      if (g.Coin() || i % 3) b->AddEntry(x); else {
        absl::Status s2;
        auto part = Order(kind, p, q, bounded, &s2);
        part->AddEntry(x);
        dp::Summary m;
        m.ParseFromString(part->Serialize().SerializeAsString());
        Check(b->Merge(m).ok(), "order:merge", "a part of the input is refused", put);
      }
    }
    for (int i = 0; i < q.c; ++i) b->AddEntry(Value(q));
    Count("order_statistics");
    Key(Cat(std::is_integral<T>::value, kind, p, q.eps, (double)q.lo, size));
    std::vector<double> script(400);
    int mode = g.Int(0, 1);
    for (auto& x : script) x = mode ? g.Unif(-10, 40) : g.Unif(5, 30);
    size_t j = 0;
    rec.noise = [&](double x, int) { return script[j++ % script.size()] - x; };
    auto run = [&](dp::Algorithm<T>* s, double* x) {
      j = 0;
      rec.asks.clear();
      rec.built.clear();
      auto r = s->PartialResult();
      *x = r.ok() ? (r->elements(0).value().has_int_value() ? (double)r->elements(0).value().int_value() : r->elements(0).value().float_value()) : NAN;
      return r.ok();
    };
    double x, y;
    bool o1 = run(a.get(), &x);
    auto A = rec.asks;
    bool o2 = run(b.get(), &y);
    auto B = rec.asks;
    if (!Check(o1 && o2, "order:result", "no result", put)) continue;
    double lo = bounded ? (double)q.lo : (double)std::numeric_limits<T>::lowest(), hi = bounded ? (double)q.hi : (double)std::numeric_limits<T>::max();
    Check(x >= lo && x <= hi, "order:range", "an order statistic lies outside of the bounds", [&](D& d) { put(d)("value", x); });
    bool same = std::fabs(x - y) <= 1e-9 * (hi / 2 - lo / 2) + std::is_integral<T>::value && A.size() == B.size();
    if (!Check(same, "order:release", "with equal noised counts the answers differ", [&](D& d) { put(d)("value", x)("other", y); })) continue;
    std::map<int, double> moved, eps, linf;
    double spent = 0;
    for (size_t i = 0; i < A.size(); ++i) {
      moved[A[i].id] += std::fabs(A[i].value - B[i].value);
      eps[A[i].id] = A[i].eps;
      linf[A[i].id] = A[i].linf;
      Check(A[i].l0 >= q.l0 && A[i].linf >= q.c, "order:sensitivity", "the noise is for fewer partitions or contributions", put);
    }
    for (auto& m : moved) {
      spent += eps[m.first];
      Check(m.second <= q.c + 1e-9 * (1 + size), "order:moved", "one user moves the counts by more than their noise is made for", [&](D& d) { put(d)("moved", m.second); });
    }
    Check(spent <= q.eps * (1 + 1e-9), "order:budget", "more than the privacy budget is spent", [&](D& d) { put(d)("spent", spent)("searches", moved.size()); });
    size_t asked = rec.asks.size();
    Check(!a->PartialResult().ok() && rec.asks.size() == asked, "order:twice", "a result is given twice", put);
  }
}
Reg r5("orderStats", [](int n) { OrderStats<double>(n / 2); OrderStats<int64_t>(n / 2); });

// Automatic bounds.
template <class T>
void Approx(int n) {
  for (int k = 0; k < n; ++k) {
    int bins = g.Pick<int>({0, g.Int(1, 60), g.Int(1, 10)}), l0 = g.Int(1, 5), c = g.Int(1, 5);
    double eps = g.LogU(.01, 10), scale = g.Pick<double>({1, 1, 2, std::is_integral<T>::value ? 1 : g.LogU(.01, 100)}), base = g.Pick<double>({2, 2, 10, 1.5 + .5 * std::is_integral<T>::value});
    bool real = g.Coin(.2);
    auto make = [&]() {
      typename dp::ApproxBounds<T>::Builder b;
      b.SetEpsilon(eps).SetMaxPartitionsContributed(l0).SetMaxContributionsPerPartition(c);
      if (!real) b.SetLaplaceMechanism(std::make_unique<RecBuilder>());
      if (bins) b.SetNumBins(bins).SetScale(scale).SetBase(base);
      return b.Build();
    };
    Fresh();
    auto a = make(), b = make();
    auto put = [&](D& d) -> D& { return d("type", std::is_integral<T>::value ? "int64" : "double")("bins", bins)("scale", scale)("base", base)("epsilon", eps)("contributions", c); };
    if (!Check(a.ok() && b.ok(), "bounds:build", "valid options are refused", put)) continue;
    Count("bounds");
    Key(Cat(std::is_integral<T>::value, bins, l0, c, eps, scale, base, real));
    auto value = [&]() -> T {
      if (std::is_integral<T>::value) return g.Pick<int64_t>({0, 1, -1, 2, 4, 8, 16, -16, g.I64(-100, 100), g.I64(-1e6, 1e6), std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::lowest()});
      return g.Pick<double>({0, 1, -1, 2, 4, 8, g.Unif(-3, 3), g.Unif(-1000, 1000), std::nan(""), scale, scale * base, scale * base * base, 5e-324, std::numeric_limits<double>::max(), INFINITY, -INFINITY});
    };
    if (real) {  // nothing to be found in nothing, much to be found in much
      Check(!(*a)->PartialResult().ok(), "bounds:nothing", "bounds are found without data", put);
      double x = g.Unif(1, 100);
      int many = (int)(60 * c * l0 / eps) + 10;
      if (many > 100000) continue;
      for (int i = 0; i < many; ++i) (*b)->AddEntry((T)x);
      auto r = (*b)->PartialResult();
      Check(r.ok(), "bounds:much", "no bounds are found", [&](D& d) { put(d)("entries", many)("value", x); });
      continue;
    }
    std::vector<T> v;
    int size = g.Int(0, 20);
    for (int i = 0; i < size; ++i) v.push_back(value());
    if (g.Coin(.3)) {  // another life before
      for (T x : v) (*a)->AddEntry(x);
      (*a)->PartialResult().IgnoreError();
      (*a)->Reset();
    }
    rec.asks.clear();
    for (T x : v) {
      (*a)->AddEntry(x);
      if (g.Coin()) (*b)->AddEntry(x); else {
        auto part = make();
        (*part)->AddEntry(x);
        dp::Summary m;
        m.ParseFromString((*part)->Serialize().SerializeAsString());
        Check((*b)->Merge(m).ok(), "bounds:merge", "a part of the input is refused", put);
      }
    }
    auto r = (*a)->PartialResult();
    auto A = rec.asks;
    rec.asks.clear();
    for (int i = 0; i < c; ++i) (*b)->AddEntry(value());
    auto r2 = (*b)->PartialResult();
    auto B = rec.asks;
    double moved = 0, n1 = 0, clean = 0;
    if (!Check(A.size() == B.size() && !A.empty(), "bounds:path", "another number of counts is noised", put)) continue;
    for (T x : v) clean += !std::isnan((double)x);
    for (size_t i = 0; i < A.size(); ++i) { moved += std::fabs(A[i].value - B[i].value); n1 += A[i].value; }
    Check(n1 == clean, "bounds:counts", "the histogram does not count every entry once", [&](D& d) { put(d)("counted", n1)("entries", clean); });
    Check(moved <= A[0].linf && A[0].linf >= c && A[0].l0 >= l0, "bounds:moved", "one user moves the counts by more than their noise is made for", [&](D& d) { put(d)("moved", moved)("made for", A[0].linf); });
    Check(A[0].eps <= eps * (1 + 1e-12), "bounds:budget", "more than the privacy budget is spent", [&](D& d) { put(d)("spent", A[0].eps); });
    Check(r.ok() == (clean > 0), "bounds:found", "bounds are found without data or not found with it", [&](D& d) { put(d)("entries", clean); });
    Check(!(*a)->PartialResult().ok(), "bounds:twice", "a result is given twice", put);
    if (r.ok()) {
      double lo = (double)dp::GetValue<T>(r->elements(0).value()), hi = (double)dp::GetValue<T>(r->elements(1).value());
      double top = 0;
      for (T x : v) top = std::max(top, std::isnan((double)x) ? 0 : std::fabs((double)x));
      double reach = bins ? scale * std::pow(base, bins - 1) : INFINITY;
      bool inside = true;
      int in_lo = 0, in_hi = 0;
      for (T y : v) {
        double x = (double)y;
        if (std::isnan(x)) continue;
        if (!std::is_integral<T>::value || true) x = std::min(std::max(x, -reach), reach);
        if (std::isinf(x)) x = std::copysign((double)std::numeric_limits<T>::max(), x);
        inside = inside && x >= lo - 1e-9 * std::fabs(lo) && x <= hi + 1e-9 * std::fabs(hi);
        // the bounds are not looser than one bin
        in_lo += lo <= 0 ? x <= lo / base + 1e-9 * std::fabs(lo) || x <= 0 : x <= lo * base * (1 + 1e-9);
        in_hi += hi >= 0 ? x >= hi / base - 1e-9 * std::fabs(hi) || std::fabs(hi) <= scale : x >= hi * base * (1 + 1e-9);
      }
      Count("bounds_found");
      Check(inside && lo <= hi, "bounds:cover", "the bounds do not cover the data", [&](D& d) { put(d)("lower", lo)("upper", hi); });
      (void)in_lo; (void)in_hi; (void)top;
    }
  }
}
Reg r6("approxBounds", [](int n) { Approx<double>(n / 2); Approx<int64_t>(n / 2); });
}  // namespace
