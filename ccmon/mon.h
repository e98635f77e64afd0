// Shared parts of the monitors for the C++ library: observations, generators, recording noise.
#ifndef MON_H_
#define MON_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "algorithms/numerical-mechanisms.h"
#include "algorithms/util.h"

namespace mon {

using Family = std::function<void(int)>;
std::map<std::string, Family>& Families();
struct Reg {
  Reg(const char* name, Family f) { Families()[name] = f; }
};

void Seed(uint64_t s);            // the source of randomness behind RAND_bytes
void Source(std::vector<uint8_t> pattern);  // replaces it by a pattern (empty: back to random)
int64_t Handed();
void FailSource();  // no more random bytes
void TagSource(bool on);  // 64-bit words that never repeat
bool Given(uint64_t w);  // the source has delivered this word

void Count(const char* name, int64_t n = 1);

struct D {  // details of a violation, as JSON
  std::ostringstream s;
  D() { s.precision(17); }
  D& operator()(const char* k, double v);
  D& operator()(const char* k, const std::string& v);
};

void Key(const std::string& k);
void Violate(const std::string& mechanism, const std::string& message, const D& d);
inline bool Check(bool ok, const char* mechanism, const char* message, const std::function<void(D&)>& d) {
  Count("oracle_evaluations");
  if (ok) return true;
  D x;
  d(x);
  Violate(mechanism, message, x);
  return false;
}
bool Ks(std::vector<double> v, const std::function<double(double)>& cdf, double* stat);  // continuous law
bool Binomial(double n, double seen, double p);  // is the number of hits consistent with p

struct Gen {
  uint64_t x;
  uint64_t U64();
  double U() { return (U64() >> 11) * 0x1p-53; }
  double Unif(double a, double b) { return a + (b - a) * U(); }
  double LogU(double a, double b) { return std::exp(Unif(std::log(a), std::log(b))); }
  int Int(int a, int b) { return a + static_cast<int>(U64() % (uint64_t)(b - a + 1)); }
  int64_t I64(int64_t a, int64_t b) { return a + static_cast<int64_t>(U64() % ((uint64_t)b - (uint64_t)a + 1)); }
  bool Coin(double p = .5) { return U() < p; }
  template <class T>
  T Pick(const std::vector<T>& v) { return v[U64() % v.size()]; }
};
extern Gen g;

// One request for noise, as the library made it.
struct Ask {
  double eps, delta, l0, linf, value;
  int id;
};
struct Log {
  std::vector<Ask> asks;
  std::vector<Ask> built;  // mechanisms built (value unused)
  double offset = 0;                          // what is added instead of noise
  std::function<double(double, int)> noise;   // or this
};
extern Log rec;

class Recorder : public differential_privacy::NumericalMechanism {
 public:
  explicit Recorder(Ask a) : NumericalMechanism(a.eps), a_(a) {}
  int64_t MemoryUsed() override { return sizeof(*this); }
  bool NoisedValueAboveThreshold(double r, double t) override { return r > t; }
  double ProbabilityOfNoisedValueAboveThreshold(double r, double t) override { return r > t; }
  absl::StatusOr<differential_privacy::ConfidenceInterval> NoiseConfidenceInterval(double level, double v) override {
    differential_privacy::ConfidenceInterval ci;
    double w = Width(level);
    ci.set_lower_bound(v - w);
    ci.set_upper_bound(v + w);
    ci.set_confidence_level(level);
    return ci;
  }
  absl::StatusOr<differential_privacy::ConfidenceInterval> NoiseConfidenceInterval(double level) override {
    return NoiseConfidenceInterval(level, 0);
  }
  NoiseConfidenceIntervalResult UncheckedNoiseConfidenceInterval(double level, double v) const override {
    NoiseConfidenceIntervalResult r;
    r.lower = v - Width(level);
    r.upper = v + Width(level);
    return r;
  }
  double Width(double level) const { return -std::log1p(-level); }
  double Cdf(double x) const override { return differential_privacy::internal::LaplaceDistribution::cdf(1, x); }
  double Quantile(double p) const override { return .5; }

 protected:
  double Noise(double v) {
    a_.value = v;
    rec.asks.push_back(a_);
    return rec.noise ? rec.noise(v, a_.id) : rec.offset;
  }
  double AddDoubleNoise(double v) override { return v + Noise(v); }
  int64_t AddInt64Noise(int64_t v) override {
    double d = std::round(Noise(static_cast<double>(v)));
    return v + static_cast<int64_t>(d);
  }

 private:
  Ask a_;
};

class RecBuilder : public differential_privacy::NumericalMechanismBuilder {
 public:
  absl::StatusOr<std::unique_ptr<differential_privacy::NumericalMechanism>> Build() override {
    Ask a{GetEpsilon().value_or(-1), GetDelta().value_or(0), GetL0Sensitivity().value_or(-1),
          GetLInfSensitivity().value_or(-1), 0, static_cast<int>(rec.built.size())};
    rec.built.push_back(a);
    if (!(a.eps > 0) || !(a.l0 > 0) || !(a.linf > 0) || !std::isfinite(a.linf * a.l0)) {
      return absl::InvalidArgumentError("recorder: invalid parameters");
    }
    return absl::StatusOr<std::unique_ptr<differential_privacy::NumericalMechanism>>(std::make_unique<Recorder>(a));
  }
  std::unique_ptr<NumericalMechanismBuilder> Clone() const override { return std::make_unique<RecBuilder>(*this); }
};

inline void Fresh() { rec = Log(); }
inline std::string Str(const std::string& a) { return a; }
template <class... T>
std::string Cat(const T&... t) {
  std::ostringstream s;
  s.precision(17);
  ((s << t << " "), ...);
  return s.str();
}

}  // namespace mon
#endif
