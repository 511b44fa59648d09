#pragma once
// The specification's integer sampler, run on the bytes the library drew from
// its generator, so that a signing call can be repeated step by step.
#include "steer.hpp"

namespace replay {
using ref::ivec;
using u128 = unsigned __int128;

// Sound randomness, kept.
struct recorder : vhook::source_t
{
  vh::rng_t r;
  std::vector<uint8_t> log;
  bool small = false; // favour large deviations: few bits set in base samples
  explicit recorder(uint64_t s)
    : r(s)
  {
  }
  void fill(uint8_t* p, size_t n) override
  {
    r.fill(p, n);
    if (small && n >= 9 && n <= 16 && r.below(2)) {
      // the low end of the table, at either end of the nine bytes
      const size_t k = r.below(6);
      memset(r.below(2) ? p : p + 9 - k, 0, k);
    }
    log.insert(log.end(), p, p + n);
  }
};

struct tape
{
  const uint8_t* p;
  size_t n, at = 0;
  int order;          // 0: 72-bit values least significant byte first, 1: most
  double slack;       // relative uncertainty of probabilities
  bool amb = false;   // a decision within the uncertainty
  bool dry = false;   // out of bytes
  tape(const uint8_t* p, size_t n, int order, double slack)
    : p(p)
    , n(n)
    , order(order)
    , slack(slack)
  {
  }
  int byte()
  {
    if (at >= n) {
      dry = true;
      return 0;
    }
    return p[at++];
  }
  bool trial(long double pr)
  {
    auto q = [](long double v) {
      v = std::floor(v);
      return v < 0 ? 0 : v >= 0x1p64L ? ~uint64_t(0) : static_cast<uint64_t>(v);
    };
    const uint64_t lo = q(pr * (1 - slack) * 0x1p64L - 3), hi = q(pr * (1 + slack) * 0x1p64L + 3);
    for (int i = 56; i >= 0 && !dry; i -= 8) {
      const int a = static_cast<int>((lo >> i) & 255), b = static_cast<int>((hi >> i) & 255), t = byte();
      if (a > b) { // carry beyond what was compared
        amb = true;
        return false;
      }
      if (t < a)
        return true;
      if (t > b)
        return false;
      if (a != b) {
        amb = true;
        return false;
      }
    }
    return false;
  }
  int64_t sample(double mu, double sp, double smin)
  {
    const long double fl = std::floor(static_cast<long double>(mu)), r = static_cast<long double>(mu) - fl;
    if (mu != 0 && (r < slack || r > 1 - slack))
      amb = true;
    while (!amb && !dry) {
      uint8_t b9[9];
      for (auto& b : b9)
        b = static_cast<uint8_t>(byte());
      u128 u = 0;
      for (int k = 0; k < 9; k++)
        u = u << 8 | b9[order ? k : 8 - k];
      int z0 = 0;
      for (auto t : steer::rcdt())
        z0 += u < t;
      const int b = byte() & 1;
      const int zz = b ? 1 + z0 : -z0;
      const long double d = zz - r;
      const long double x = d * d / (2 * static_cast<long double>(sp) * sp) - static_cast<long double>(z0) * z0 / (2 * 1.8205L * 1.8205L);
      if (trial(static_cast<long double>(smin) / sp * std::exp(-x)))
        return static_cast<int64_t>(fl) + zz;
    }
    return 0;
  }
};

// Byte order (1 or 2) for which the library's generator-fed sampler agrees with
// the specification's on sound randomness; 0 if it draws differently.
inline int
sampler_order()
{
  static const int o = [] {
    int votes[2] = {}, n = 0;
    vh::rng_t r(4711);
    for (int i = 0; i < 400; i++) {
      const double smin = ref::sigma_min(i & 1 ? 512 : 1024), sp = smin + (1.8205 - smin) * r.unit(), mu = (r.unit() - 0.5) * 200;
      recorder rec(r.next());
      int64_t z = 0;
      {
        prng::prng_t rng;
        glue::with_source w(rec);
        z = samplerz::samplerz(mu, sp, smin, rng);
      }
      bool used = false;
      for (int k = 0; k < 2; k++) {
        tape t(rec.log.data(), rec.log.size(), k, 1e-9);
        const int64_t v = t.sample(mu, sp, smin);
        if (t.amb)
          used = true;
        else if (!t.dry && v == z && t.at == t.n)
          votes[k]++;
      }
      n += !used;
    }
    // a few deviations are for the checks to find, not a different procedure
    return votes[0] >= n - 4 ? 1 : votes[1] >= n - 4 ? 2 : 0;
  }();
  return o;
}
}
