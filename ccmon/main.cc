#include "mon.h"

#include <algorithm>
#include <cstring>
#include <iostream>
#include <mutex>
#include <thread>

namespace mon {
namespace {
uint64_t src = 1;
std::vector<uint8_t> pattern;
int64_t handed = 0;
std::mutex mu;
std::map<std::string, int64_t> counts;
std::set<std::string> keys;
std::map<std::string, int> shown;
bool failing = false, tagged = false;
uint64_t words = 0;
std::set<uint64_t> given;
uint64_t Mix(uint64_t* x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
std::string Quote(const std::string& v) {
  std::string o = "\"";
  for (char c : v) {
    if (c == '"' || c == '\\') o += '\\';
    o += (c < 32) ? ' ' : c;
  }
  return o + "\"";
}
}  // namespace

std::map<std::string, Family>& Families() {
  static auto* f = new std::map<std::string, Family>;
  return *f;
}
Gen g;
Log rec;
uint64_t Gen::U64() { return Mix(&x); }
void Seed(uint64_t s) { src = s; }
void Source(std::vector<uint8_t> p) { pattern = p; }
int64_t Handed() { return handed; }
void FailSource() { failing = true; }
void TagSource(bool on) {
  tagged = on;
  given.clear();
}
bool Given(uint64_t w) { return given.count(w); }
void Count(const char* name, int64_t n) { counts[name] += n; }
void Key(const std::string& k) { keys.insert(k); }
D& D::operator()(const char* k, double v) {
  s << (s.tellp() > 0 ? ", " : "") << "\"" << k << "\": ";
  if (std::isfinite(v)) s << v; else s << "\"" << v << "\"";
  return *this;
}
D& D::operator()(const char* k, const std::string& v) {
  s << (s.tellp() > 0 ? ", " : "") << "\"" << k << "\": " << Quote(v);
  return *this;
}
void Violate(const std::string& m, const std::string& msg, const D& d) {
  if (++shown[m] > 20) return;
  std::printf("V\t{\"mechanism\": %s, \"message\": %s, \"detail\": {%s}}\n", Quote(m).c_str(), Quote(msg).c_str(),
              d.s.str().c_str());
}
bool Ks(std::vector<double> v, const std::function<double(double)>& cdf, double* stat) {
  std::sort(v.begin(), v.end());
  double n = v.size(), d = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    double c = cdf(v[i]);
    size_t lo = i, hi = i + 1;
    while (lo > 0 && v[lo - 1] == v[i]) --lo;
    while (hi < v.size() && v[hi] == v[i]) ++hi;
    d = std::max(d, std::max(c - hi / n, lo / n - c));
  }
  *stat = d * std::sqrt(n);
  return *stat < 3.8;  // 2 exp(-2 x^2) = 6e-13
}
bool Binomial(double n, double k, double p) {
  if (p <= 0) return k == 0;
  if (p >= 1) return k == n;
  // Chernoff bound with relative entropy
  double q = k / n;
  double kl = (q > 0 ? q * std::log(q / p) : 0) + (q < 1 ? (1 - q) * std::log((1 - q) / (1 - p)) : 0);
  return n * kl < 30;
}
}  // namespace mon

extern "C" int RAND_bytes(unsigned char* buf, int num) {
  std::unique_lock<std::mutex> l(mon::mu);
  if (mon::failing) return 0;
  if (mon::tagged) {
    // Words that never repeat, delivered slowly.
    for (int i = 0; i + 8 <= num; i += 8) {
      uint64_t c = ++mon::words, w = mon::Mix(&c);
      mon::given.insert(w);
      std::memcpy(buf + i, &w, 8);
      if (i % 4096 == 0) {
        l.unlock();
        std::this_thread::yield();
        l.lock();
      }
    }
    mon::handed += num;
    return num % 8 == 0;
  }
  for (int i = 0; i < num; ++i) {
    buf[i] = mon::pattern.empty() ? static_cast<uint8_t>(mon::Mix(&mon::src) >> 56)
                                  : mon::pattern[mon::handed % mon::pattern.size()];
    ++mon::handed;
  }
  return 1;
}

int main(int argc, char** argv) {
  std::string fam = argv[1];
  uint64_t seed = std::strtoull(argv[2], nullptr, 10);
  int n = std::atoi(argv[3]);
  mon::g.x = seed * 1000003 + 17;
  mon::Seed(seed * 7919 + 13);
  if (!mon::Families().count(fam)) {
    std::fprintf(stderr, "no family %s\n", fam.c_str());
    return 4;
  }
  mon::Families()[fam](n);
  for (auto& c : mon::counts) std::printf("C\t%s\t%lld\n", c.first.c_str(), (long long)c.second);
  for (auto& k : mon::keys) {
    uint64_t h = 1469598103934665603ull;
    for (char c : k) h = (h ^ (uint8_t)c) * 1099511628211ull;
    std::printf("K\t%016llx\n", (unsigned long long)h);
  }
  std::printf("END\n");
  return 0;
}
