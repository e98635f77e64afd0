// Bounded aggregations of the C++ library, with recording noise.
#include <algorithm>

#include "algorithms/approx-bounds.h"
#include "algorithms/bounded-mean.h"
#include "algorithms/bounded-standard-deviation.h"
#include "algorithms/bounded-sum.h"
#include "algorithms/bounded-variance.h"
#include "algorithms/count.h"
#include "mon.h"

using namespace mon;
namespace dp = differential_privacy;

namespace {
const char* kNames[] = {"count", "sum", "mean", "variance", "stddev"};

template <class T>
struct Spec {
  int kind = 0;
  bool fixed = true, own_bounds = false;
  double eps = 1, delta = 0;
  int l0 = 1, c = 1;
  T lo = 0, hi = 1;
  int bins = 0;
  double share = .5;
  D& Put(D& d) const {
    return d("aggregation", kNames[kind])("type", std::is_integral<T>::value ? "int64" : "double")("fixed bounds", fixed)("epsilon", eps)("l0", l0)(
        "contributions", c)("lower", (double)lo)("upper", (double)hi)("bins", bins);
  }
};

template <class T>
Spec<T> Draw(bool approx_ok = true) {
  Spec<T> s;
  s.kind = g.Int(0, 4);
  s.fixed = !approx_ok || g.Coin(.6);
  s.own_bounds = g.Coin();
  s.eps = g.LogU(.01, 10);
  s.delta = g.Coin(.4) && s.kind < 3 ? g.LogU(1e-10, .1) : 0;
  s.l0 = g.Pick<int>({1, 1, 2, g.Int(1, 20)});
  s.c = g.Pick<int>({1, 1, 2, 3, g.Int(1, 9)});
  if (std::is_integral<T>::value) {
    int64_t w = g.Pick<int64_t>({1, 2, 3, 10, 1000, 1000000});
    s.lo = g.Pick<int64_t>({0, -1, -w, g.I64(-w, w), -1000, 7});
    s.hi = s.lo + g.I64(1, w);
  } else {
    double w = g.Pick<double>({1, g.LogU(1e-6, 1e9), 10});
    s.lo = g.Pick<double>({0, -w, g.Unif(-w, w), -w / 2});
    s.hi = s.lo + w * g.Unif(.01, 1);
  }
  s.bins = g.Pick<int>({0, 0, 5, g.Int(2, 40)});
  s.share = g.Unif(.1, .9);
  return s;
}

template <class T>
std::unique_ptr<dp::ApproxBounds<T>> Bounds(const Spec<T>& s) {
  typename dp::ApproxBounds<T>::Builder b;
  b.SetEpsilon(s.eps * s.share).SetLaplaceMechanism(std::make_unique<RecBuilder>()).SetMaxPartitionsContributed(s.l0).SetMaxContributionsPerPartition(s.c);
  if (s.bins) b.SetNumBins(s.bins);
  if (s.bins) b.SetScale(1).SetBase(2);
  return std::move(b.Build()).value();
}

template <class T, class B>
absl::Status Finish(const Spec<T>& s, B& b, std::unique_ptr<dp::Algorithm<T>>* out) {
  b.SetEpsilon(s.eps).SetDelta(s.delta).SetMaxPartitionsContributed(s.l0).SetMaxContributionsPerPartition(s.c).SetLaplaceMechanism(std::make_unique<RecBuilder>());
  if constexpr (!std::is_same<B, typename dp::Count<T>::Builder>::value) {
    if (s.fixed) {
      b.SetLower(s.lo).SetUpper(s.hi);
    } else if (s.own_bounds || s.bins) {
      b.SetApproxBounds(Bounds(s));
    }
  }
  auto r = b.Build();
  if (!r.ok()) return r.status();
  *out = std::move(r).value();
  return absl::OkStatus();
}
template <class T>
absl::Status Build(const Spec<T>& s, std::unique_ptr<dp::Algorithm<T>>* out) {
  switch (s.kind) {
    case 0: { typename dp::Count<T>::Builder b; return Finish(s, b, out); }
    case 1: { typename dp::BoundedSum<T>::Builder b; return Finish(s, b, out); }
    case 2: { typename dp::BoundedMean<T>::Builder b; return Finish(s, b, out); }
    case 3: { typename dp::BoundedVariance<T>::Builder b; return Finish(s, b, out); }
    default: { typename dp::BoundedStandardDeviation<T>::Builder b; return Finish(s, b, out); }
  }
}

template <class T>
T Value(const Spec<T>& s) {
  if (std::is_integral<T>::value) {
    int64_t lo = s.lo, hi = s.hi;
    int64_t big = s.fixed ? std::numeric_limits<int64_t>::max() : (int64_t)1 << 24;
    return g.Pick<int64_t>({lo, hi, g.I64(lo, hi), lo - 1, hi + 1, g.I64(-50, 50), 0, s.fixed ? std::numeric_limits<int64_t>::lowest() : -big, big});
  }
  double w = s.hi - s.lo;
  double big = s.fixed ? std::numeric_limits<double>::max() : 1e6;
  return g.Pick<double>({(double)s.lo, (double)s.hi, g.Unif(s.lo, s.hi), g.Unif(s.lo - w, s.hi + w), 0., -0., std::nan(""), big, -big,
                         s.fixed ? INFINITY : 1e7, s.fixed ? -INFINITY : -1e7, 5e-324});
}

template <class T>
double N(const Spec<T>& s, const std::vector<T>& v) {
  double n = 0;
  for (T x : v) n += s.kind == 0 || !std::isnan((double)x);
  return n;
}

// What the aggregation answers without noise, for bounds lo and hi.
template <class T>
double Truth(const Spec<T>& s, const std::vector<T>& v, double lo, double hi) {
  long double n = 0, sum = 0, sq = 0;
  for (T y : v) {
    double x = (double)y;
    if (std::isnan(x)) { n += s.kind == 0; continue; }
    long double z = std::min(std::max(x, lo), hi);
    n += 1;
    sum += z;
    sq += z * z;
  }
  if (s.kind == 0) return n;
  if (s.kind == 1) return sum;
  if (s.kind == 2) return n < 1 ? (lo + hi) / 2 : (double)(sum / n);
  long double m = sum / n, var = 0;
  for (T y : v) {
    double x = (double)y;
    if (std::isnan(x)) continue;
    long double z = std::min(std::max(x, lo), hi);
    var += (z - m) * (z - m);
  }
  double r = n < 2 ? NAN : (double)(var / n);
  return s.kind == 3 ? r : std::sqrt(r);
}

double Of(const dp::Output& o, bool integer) {
  const auto& v = o.elements(0).value();
  return v.has_int_value() ? (double)v.int_value() : v.float_value();
}
double Tolerance(int kind, double lo, double hi, double n) {
  double m = std::max(std::fabs(lo), std::fabs(hi));
  if (kind == 0) return 0;
  if (kind == 1) return 1e-12 * m * (n + 1);
  if (kind == 2) return 1e-11 * m;
  double v = 1e-10 * m * m;
  return kind == 3 ? v : std::sqrt(v);
}

template <class T>
std::string Show(const std::vector<T>& v) {
  std::ostringstream o;
  o.precision(17);
  for (size_t i = 0; i < v.size() && i < 30; ++i) o << (double)v[i] << " ";
  return o.str();
}

// Results without noise, once only, in range, spending no more than the budget.
template <class T>
void Exact(int n) {
  for (int k = 0; k < n; ++k) {
    Spec<T> s = Draw<T>();
    Fresh();
    std::unique_ptr<dp::Algorithm<T>> a;
    auto st = Build(s, &a);
    if (!Check(st.ok(), "aggregation:build", "valid options are refused", [&](D& d) { s.Put(d)("error", std::string(st.message())); })) continue;
    std::vector<T> v;
    int size = g.Pick<int>({0, 1, 2, 5, g.Int(0, 60)});
    for (int round = 0; round < 2; ++round) {
      v.clear();
      rec.asks.clear();
      rec.offset = 0;
      rec.noise = nullptr;
      int wild = round && g.Coin() ? 1 : 0;
      if (wild) rec.noise = [](double v, int id) { return g.Pick<double>({0, 1e3, -1e3, g.Unif(-10, 10), 1e9, -1e9, -v}); };
      for (int i = 0; i < size; ++i) v.push_back(Value(s));
      for (T x : v) a->AddEntry(x);
      size = g.Int(0, 20);
      double level = g.Unif(.1, .99);
      auto r = a->PartialResult(level);
      Count("results");
      Key(Cat(s.kind, std::is_integral<T>::value, s.fixed, s.eps, (double)s.lo, (double)s.hi, v.size(), round));
      auto put = [&](D& d) -> D& { return s.Put(d)("round", round)("data", Show(v)); };
      double spent = 0, delta = 0;
      std::set<int> ids;
      for (auto& q : rec.asks) if (ids.insert(q.id).second) { spent += q.eps; delta += q.delta; }
      Check(spent <= s.eps * (1 + 1e-9) && delta <= s.delta * (1 + 1e-9), "aggregation:budget", "more than the privacy budget is spent", [&](D& d) { put(d)("spent", spent)("delta spent", delta)("delta", s.delta); });
      for (auto& q : rec.asks) {
        if (!Check(q.l0 >= s.l0, "aggregation:l0", "the noise is for fewer partitions than a user contributes to", [&](D& d) { put(d)("noise l0", q.l0); })) break;
      }
      if (!r.ok()) {
        Count("no_bounds");
        Check(!s.fixed && s.kind > 0, "aggregation:error", "an aggregation has no result", [&](D& d) { put(d)("error", std::string(r.status().message())); });
      } else {
        double x = Of(*r, false), lo = s.lo, hi = s.hi;
        if (!s.fixed && s.kind > 0) {
          if (r->error_report().has_bounding_report()) {
            lo = dp::GetValue<T>(r->error_report().bounding_report().lower_bound());
            hi = dp::GetValue<T>(r->error_report().bounding_report().upper_bound());
          } else {
            Check(false, "aggregation:report", "automatic bounds are not reported", put);
          }
        }
        // Automatic bounds may be near the largest double, where the arithmetic overflows.
        bool huge = std::max(std::fabs(lo), std::fabs(hi)) > 1e150;
        if (s.kind == 2 && !huge) Check(x >= lo && x <= hi, "aggregation:range", "a mean lies outside of the bounds", [&](D& d) { put(d)("result", x)("lower used", lo)("upper used", hi); });
        if (s.kind == 3 && !huge) Check(x >= 0 && x <= (hi - lo) * (hi - lo) / 4, "aggregation:range", "a variance lies outside of its range", [&](D& d) { put(d)("result", x); });
        if (s.kind == 4 && !huge) Check(x >= 0 && x <= (hi - lo) / 2 * (1 + 1e-15), "aggregation:range", "a standard deviation lies outside of its range", [&](D& d) { put(d)("result", x); });
        if (!wild && !huge && !(s.kind > 2 && N(s, v) < 2)) {
          double want = Truth(s, v, lo, hi), tol = Tolerance(s.kind, lo, hi, N(s, v));
          Count("exact");
          Check(std::fabs(x - want) <= tol, "aggregation:exact", "the result without noise is not the aggregate of the clamped values", [&](D& d) { put(d)("result", x)("exact", want)("lower used", lo)("upper used", hi); });
        }
        if (s.kind < 2 && (s.fixed || s.kind == 0)) {
          auto ci = dp::GetNoiseConfidenceInterval(*r);
          double w = -std::log1p(-level);
          Check(std::fabs(ci.lower_bound() + w) < 1e-12 && std::fabs(ci.upper_bound() - w) < 1e-12 && ci.confidence_level() == level, "aggregation:interval", "the confidence interval is not that of the noise", [&](D& d) { put(d)("level", level)("lower", ci.lower_bound())("upper", ci.upper_bound()); });
        }
        if (s.kind == 2 && !huge && r->elements(0).has_noise_confidence_interval()) {
          auto ci = r->elements(0).noise_confidence_interval();
          Check(ci.lower_bound() <= x && x <= ci.upper_bound() && ci.lower_bound() >= lo && ci.upper_bound() <= hi, "aggregation:meanInterval", "the confidence interval of a mean does not contain it or exceeds the bounds", [&](D& d) { put(d)("result", x)("level", level)("interval lower", ci.lower_bound())("interval upper", ci.upper_bound()); });
        }
      }
      size_t asked = rec.asks.size();
      Check(!a->PartialResult().ok() && rec.asks.size() == asked, "aggregation:twice", "a result is given twice", put);
      a->AddEntry(T(1));
      Check(!a->PartialResult(.5).ok() && rec.asks.size() == asked, "aggregation:twice", "a result is given twice after more input", put);
      a->Reset();
    }
  }
}
Reg e1("aggExact", [](int n) { Exact<double>(n / 2); Exact<int64_t>(n / 2); });

struct Seen {
  std::vector<Ask> asks;
  bool ok;
  double x;
};
template <class T>
Seen Run(dp::Algorithm<T>* a, const std::vector<T>& v) {
  rec.asks.clear();
  a->Reset();
  for (T x : v) a->AddEntry(x);
  auto r = a->PartialResult();
  Seen o{rec.asks, r.ok(), r.ok() ? Of(*r, false) : 0};
  return o;
}

// Neighbouring inputs: what noise is added to moves by no more than the noise is calibrated for,
// and with equal noised values the result is equal.
template <class T>
void Neighbours(int n) {
  for (int k = 0; k < n; ++k) {
    Spec<T> s = Draw<T>();
    if (!s.fixed) s.own_bounds = true;
    Fresh();
    std::unique_ptr<dp::Algorithm<T>> a;
    if (!Build(s, &a).ok()) continue;
    int nb = !s.fixed && s.kind > 0 ? 1 : 0;  // the first mechanism built is that of the bounds
    std::vector<T> v, w;
    int size = g.Pick<int>({0, 1, 3, g.Int(0, 40)});
    for (int i = 0; i < size; ++i) v.push_back(Value(s));
    w = v;
    int more = g.Int(1, s.c);
    bool same = g.Coin();
    T one = Value(s);
    for (int i = 0; i < more; ++i) w.push_back(same ? one : Value(s));
    // The bounds see the same noised histogram.
    std::vector<double> script(4200);
    int hits = g.Int(1, 5);
    for (int i = 0; i < hits; ++i) script[g.Pick<int>({g.Int(0, 4), g.Int(0, 30), g.Int(0, s.bins ? 2 * s.bins - 1 : 200)})] = g.Int(1, 100);
    size_t mine = 0;
    rec.noise = [&](double x, int id) {
      if (id >= nb) return 0.;
      return script[mine++ % script.size()] - x;
    };
    mine = 0;
    Seen p = Run(a.get(), v);
    mine = 0;
    Seen q = Run(a.get(), w);
    Count("neighbours");
    Key(Cat(s.kind, std::is_integral<T>::value, s.fixed, s.eps, (double)s.lo, (double)s.hi, v.size(), more));
    auto put = [&](D& d) -> D& { return s.Put(d)("data", Show(v))("with another user", Show(w)); };
    if (!Check(p.ok == q.ok && p.asks.size() == q.asks.size(), "sensitivity:path", "with equal noised values another path is taken", put)) continue;
    // mechanisms are numbered anew when they are built for the result
    std::map<int, int> order;
    std::map<int, double> moved, moved2, linf, height, size_of;
    std::map<int, int> o1, o2;
    double mid = ((double)s.lo + (double)s.hi) / 2;
    bool ok = true;
    for (size_t i = 0; i < p.asks.size(); ++i) {
      int id = o1.emplace(p.asks[i].id, o1.size()).first->second, id2 = o2.emplace(q.asks[i].id, o2.size()).first->second;
      ok = ok && id == id2 && p.asks[i].linf == q.asks[i].linf;
      double d = q.asks[i].value - p.asks[i].value;
      moved[id] += std::fabs(d);
      moved2[id] += std::fabs(d - (N(s, w) - N(s, v)) * mid);
      linf[id] = p.asks[i].linf;
      height[id] = p.asks[i].l0 / s.l0;
      size_of[id] += std::max(std::fabs(q.asks[i].value), std::fabs(p.asks[i].value));
    }
    if (!Check(ok, "sensitivity:path", "with equal noised values other noise is asked for", put)) continue;
    for (auto& m : moved) {
      double lim = linf[m.first] * std::max(1., height[m.first]) * (1 + 1e-12) + 1e-13 * size_of[m.first] * (1 + (double)v.size());
      bool fine = m.second <= lim;
      if (!fine && s.kind == 2 && s.fixed && std::is_integral<T>::value) fine = moved2[m.first] <= lim;  // normalized after adding the noise
      Count("sensitivities");
      Check(fine, "sensitivity:moved", "one user moves a value by more than its noise is calibrated for", [&](D& d) { put(d)("moved", m.second)("calibrated for", linf[m.first])("request", m.first); });
    }
    // Equal noised values (an integer mean is normalized after the noise).
    if (!p.ok || (s.kind == 2 && s.fixed && std::is_integral<T>::value)) continue;
    std::vector<double> target(64);
    bool whole = std::is_integral<T>::value || s.kind == 0;
    for (auto& t : target) t = g.Pick<double>({(double)g.Int(-3, 50), (double)g.Int(-100, 100), 0});
    size_t other = 0;
    rec.noise = [&](double x, int id) {
      double t = id < nb ? script[mine++ % script.size()] : target[other++ % target.size()];
      (void)whole;
      return t - x;
    };
    mine = other = 0;
    Seen y = Run(a.get(), v);
    mine = other = 0;
    Seen z = Run(a.get(), w);
    double scale = 0;
    for (auto& t : y.asks) scale = std::max(scale, std::fabs(t.value));
    for (auto& t : z.asks) scale = std::max(scale, std::fabs(t.value));
    if (scale > 1e12) continue;
    double tol = s.kind < 2 ? 1e-15 * (scale + 100) : 1e-9 * (1 + scale);
    Count("postprocessed");
    if (s.kind == 4) tol = std::sqrt(tol) ;
    Check(y.ok == z.ok && std::fabs(y.x - z.x) <= tol, "sensitivity:release", "with equal noised values the result differs", [&](D& d) { put(d)("result", y.x)("other result", z.x); });
  }
}
Reg e2("aggNeighbours", [](int n) { Neighbours<double>(n / 2); Neighbours<int64_t>(n / 2); });

// Merging serialized parts is aggregating all the input at once.
template <class T>
void MergeAll(int n) {
  for (int k = 0; k < n; ++k) {
    Spec<T> s = Draw<T>();
    Fresh();
    int parts = g.Int(1, 4);
    std::vector<std::unique_ptr<dp::Algorithm<T>>> a(parts);
    std::unique_ptr<dp::Algorithm<T>> all;
    bool built = Build(s, &all).ok();
    for (auto& x : a) built = built && Build(s, &x).ok();
    if (!built) continue;
    std::vector<T> v;
    int size = g.Int(0, 40);
    for (int i = 0; i < size; ++i) {
      v.push_back(Value(s));
      all->AddEntry(v.back());
      a[g.Int(0, parts - 1)]->AddEntry(v.back());
    }
    Count("merged");
    Key(Cat(s.kind, std::is_integral<T>::value, s.fixed, parts, size, (double)s.lo));
    auto put = [&](D& d) -> D& { return s.Put(d)("parts", parts)("data", Show(v)); };
    bool fine = true;
    for (int i = 1; i < parts; ++i) {
      dp::Summary m;
      m.ParseFromString(a[i]->Serialize().SerializeAsString());
      fine = fine && a[0]->Merge(m).ok();
    }
    if (!Check(fine, "merge:refused", "a part of the input is refused", put)) continue;
    // Things that must be refused and leave no trace.
    for (int i = 0; i < 3; ++i) {
      dp::Summary bad;
      int what = g.Int(0, 4);
      if (what == 1) { dp::BinarySearchSummary x; bad.mutable_data()->PackFrom(x); }
      if (what == 2) {
        if (s.kind == 0) { dp::BoundedSumSummary x; bad.mutable_data()->PackFrom(x); } else { dp::CountSummary x; x.set_count(5); bad.mutable_data()->PackFrom(x); }
      }
      if (what == 3) {
        if (s.kind == 0) continue;
        int m = g.Pick<int>({0, 2, 3, 100000});
        dp::BoundedSumSummary x; dp::BoundedMeanSummary y; dp::BoundedVarianceSummary z;
        z.mutable_bounds();
        for (int j = 0; j < m && j < 2000; ++j) { x.add_pos_sum()->set_int_value(7); y.add_pos_sum()->set_int_value(7); z.add_pos_sum()->set_int_value(7); }
        y.set_count(3);
        z.set_count(3);
        if (!s.fixed && s.bins == m) continue;
        if (s.kind == 1) bad.mutable_data()->PackFrom(x);
        if (s.kind == 2) bad.mutable_data()->PackFrom(y);
        if (s.kind > 2) bad.mutable_data()->PackFrom(z);
      }
      if (what == 4) {
        bad = a[0]->Serialize();
        std::string b = bad.data().value();
        if (b.size() < 2) continue;
        bad.mutable_data()->set_value(std::string("\xff\xff\xff", 3) + b);
      }
      Count("bad_merges");
      Check(!a[0]->Merge(bad).ok(), "merge:bad", "an unsuitable summary is merged", [&](D& d) { put(d)("what", what); });
    }
    rec.asks.clear();
    auto r = a[0]->PartialResult();
    auto p = rec.asks;
    rec.asks.clear();
    auto e = all->PartialResult();
    auto q = rec.asks;
    if (!Check(r.ok() == e.ok() && p.size() == q.size(), "merge:path", "merged parts behave differently", put)) continue;
    double worst = 0;
    for (size_t i = 0; i < p.size(); ++i) worst = std::max(worst, std::fabs(p[i].value - q[i].value) / (1e-300 + 1e-11 * (std::fabs(q[i].value) + std::max(std::fabs((double)s.lo), std::fabs((double)s.hi)) * (size + 1) * (s.kind > 2 ? std::max(std::fabs((double)s.lo), std::fabs((double)s.hi)) + 1 : 1) + (s.fixed ? 0 : 1e7 * (s.kind > 2 ? 1e7 : 1)))));
    Check(worst <= 1, "merge:value", "merged parts are not the whole", [&](D& d) { put(d)("worst", worst); if (r.ok()) d("result", Of(*r, false))("whole", Of(*e, false)); });
  }
}
Reg e3("aggMerge", [](int n) { MergeAll<double>(n / 2); MergeAll<int64_t>(n / 2); });

template <class T>
void Invalid(int n) {
  for (int k = 0; k < n; ++k) {
    Spec<T> s = Draw<T>();
    int what = g.Int(0, 7);
    if (what == 0) s.eps = g.Pick<double>({0, -1, std::nan(""), INFINITY, -INFINITY});
    if (what == 1) s.delta = g.Pick<double>({-.1, 1.1, std::nan(""), INFINITY});
    if (what == 2) s.l0 = g.Pick<int>({0, -1, -5});
    if (what == 3) s.c = g.Pick<int>({0, -1, -5});
    if (what >= 4 && s.kind == 0) continue;
    if (what >= 4) s.fixed = true;
    if (what == 4) std::swap(s.lo, s.hi);
    if (what == 5) {
      if (std::is_integral<T>::value) {
        s.lo = std::numeric_limits<T>::lowest();
        if (s.kind > 1) s.hi = g.I64(0, 100);
      } else {
        s.lo = s.kind == 1 ? -INFINITY : std::numeric_limits<T>::lowest();
        s.hi = std::numeric_limits<T>::max();
      }
    }
    if (what == 6) {
      if (std::is_integral<T>::value) continue;
      (g.Coin() ? s.lo : s.hi) = static_cast<T>(std::nan(""));
    }
    if (what == 7) {  // more for the bounds than there is
      if (s.kind == 0) continue;
      s.fixed = false;
      s.own_bounds = true;
      s.share = g.Unif(1, 3);
    }
    if (!s.fixed && what < 4) s.own_bounds = false, s.bins = 0;
    Fresh();
    Count("invalid");
    Key(Cat(s.kind, std::is_integral<T>::value, what, s.fixed));
    std::unique_ptr<dp::Algorithm<T>> a;
    Check(!Build(s, &a).ok(), "aggregation:invalid", "invalid options are accepted", [&](D& d) { s.Put(d)("what", what)("delta", s.delta); });
  }
}
Reg e4("aggInvalid", [](int n) { Invalid<double>(n / 2); Invalid<int64_t>(n / 2); });
}  // namespace
