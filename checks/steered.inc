// Signing attempts with a chosen outcome (lib/steer.hpp), shared by several checks.
#pragma once
#include "steer.hpp"
#include <optional>

namespace steered {
using namespace glue;

inline vh::counter_t n_run("steered_signing_calls"), n_plan("steered_attempts_planned"), n_off("steering_not_available"), n_long("steered_attempts_too_long"), n_unfit("steered_attempts_short_but_not_encodable"),
  n_tight("steered_attempts_within_30_millionths_of_the_bound"), n_full("steered_attempts_within_2_bits_of_the_body_size"), n_big("steered_coefficients_beyond_1000");

template<size_t N>
struct world
{
  using plan_t = steer::plan_t<N>;
  basis b;
  std::shared_ptr<prep<N>> p;
  ivec h, c;
  bytes msg;
  uint8_t salt[40];
  vh::rng_t& r;

  static constexpr size_t cap = 8 * ((N == 512 ? 666 : 1280) - 41);
  static size_t need(const ivec& s2)
  {
    size_t n = 0;
    for (auto x : s2)
      n += 9 + static_cast<size_t>(std::abs(x) >> 7);
    return n;
  }
  static bool shorts(const plan_t& q) { return q.norm <= ref::beta2(N); }
  static bool fits(const plan_t& q) { return need(q.s2) <= cap; }
  static bool good(const plan_t& q) { return shorts(q) && fits(q); }

  static bool available()
  {
    if (steer::leaf_order<N>())
      return true;
    n_off++;
    return false;
  }
  explicit world(vh::rng_t& r)
    : b(variant<N>(r))
    , p(prepare<N>(b.f, b.g, b.F, b.G))
    , h(ref::div_q(b.g, b.f))
    , msg(message(r, msg_len(r, 300)))
    , r(r)
  {
    r.fill(salt, 40);
    c = ref::hash_to_point(N, salt, msg.data(), msg.size());
  }
  plan_t make(ivec d1, ivec d2, double width)
  {
    for (int i = 0; i < 60; i++) {
      plan_t q = steer::plan<N>(*p, b, c, d1, d2, width, r);
      if (q.ok)
        return q;
      width *= 0.97;
      for (auto* d : { &d1, &d2 })
        for (auto& x : *d)
          x = x * 24 / 25;
    }
    vh::fail("harness", "no plan");
  }
  double gauss() { return std::sqrt(-2 * std::log(1 - r.unit())) * std::cos(2 * M_PI * r.unit()); }
  // a few large coefficients in s2 (or s1), the rest as usual but narrower
  plan_t spike(size_t pos, int64_t a, size_t n, bool in1 = false)
  {
    ivec d1(N), d2(N);
    for (size_t i = 0; i < n; i++)
      (in1 ? d1 : d2)[i ? r.below(N) : pos] = r.below(2) ? a : -a;
    return make(d1, d2, 0.85);
  }
  // squared norm in (lo, hi]: a vector of about that norm, moved by rotations of
  // (g, -f) until the norm is right; sampling is then led to exactly that one
  plan_t normed(int64_t lo, int64_t hi)
  {
    const double goal = 0.5 * static_cast<double>(lo + hi);
    const double share = r.below(3) ? 0.35 + 0.2 * r.unit() : 0.2; // of s2: a smaller share fits more easily
    for (int round = 0; round < 20; round++) {
      std::vector<double> x(2 * N);
      double e1 = 0, e2 = 0;
      for (size_t j = 0; j < 2 * N; j++) {
        x[j] = gauss();
        (j < N ? e1 : e2) += x[j] * x[j];
      }
      ivec d1(N), d2(N);
      const double want = goal - 0.03 * static_cast<double>(ref::beta2(N));
      for (size_t j = 0; j < N; j++) {
        d1[j] = llround(x[j] * std::sqrt(want * (1 - share) / e1));
        d2[j] = llround(x[N + j] * std::sqrt(want * share / e2));
      }
      plan_t q = make(d1, d2, 0.05);
      // b_k = x^k (g, -f): inner products with s, and with each other
      const int64_t n1 = ref::sqnorm(b.f) + ref::sqnorm(b.g);
      std::vector<int64_t> v(N), gram(N);
      auto inner = [&] {
        for (size_t k = 0; k < N; k++) {
          int64_t t = 0;
          for (size_t j = 0; j < N; j++) { // coefficient j of x^k a
            const size_t i = (j + N - k) % N;
            const int64_t sg = j >= k ? 1 : -1;
            t += sg * (q.s1[j] * b.g[i] - q.s2[j] * b.f[i]);
          }
          v[k] = t;
        }
      };
      auto add = [&](size_t k, int64_t e) {
        for (size_t j = 0; j < N; j++) {
          const size_t i = (j + N - k) % N;
          const int64_t sg = (j >= k ? 1 : -1) * e;
          q.s1[j] += sg * b.g[i];
          q.s2[j] -= sg * b.f[i];
        }
        q.norm = ref::sqnorm(q.s1) + ref::sqnorm(q.s2);
      };
      for (size_t k = 0; k < N; k++) {
        int64_t t = 0;
        for (size_t j = 0; j < N; j++) {
          const size_t i = (j + N - k) % N;
          t += (j >= k ? 1 : -1) * (b.g[j] * b.g[i] + b.f[j] * b.f[i]);
        }
        gram[k] = t;
      }
      for (int step = 0; step < 400; step++) {
        inner();
        const double gap = goal - static_cast<double>(q.norm);
        if (std::abs(gap) < 60000)
          break;
        size_t best = 0;
        int64_t be = 0;
        double bd = std::abs(gap);
        for (int t = 0; t < 50; t++) {
          const size_t k = r.below(N);
          const int64_t e = r.below(2) ? 1 : -1;
          const double d = std::abs(gap - static_cast<double>(2 * e * v[k] + n1));
          if (d < bd) {
            bd = d;
            best = k;
            be = e;
          }
        }
        if (be)
          add(best, be);
      }
      inner();
      for (int t = 0; t < 3000000; t++) {
        const size_t k = r.below(N), l = r.below(N);
        if (k == l)
          continue;
        const int64_t e = r.below(2) ? 1 : -1, f = r.below(2) ? 1 : -1;
        const int64_t g = k > l ? gram[k - l] : gram[l - k];
        const int64_t nn = q.norm + 2 * (e * v[k] + f * v[l] + e * f * g) + 2 * n1;
        if (nn > lo && nn <= hi) {
          add(k, e);
          add(l, f);
          plan_t z = make(q.s1, q.s2, 0);
          if (z.norm > lo && z.norm <= hi)
            return z;
          break;
        }
      }
    }
    vh::fail("harness", "no norm in range");
  }
  // short; the body needs between lo and hi bits
  plan_t bits(size_t lo, size_t hi)
  {
    double a = 150;
    for (int i = 0; i < 20000; i++) {
      ivec d1(N), d2(N);
      for (size_t j = 0; j < N; j++)
        d2[j] = llround((r.below(2) ? a : -a) * (1 + 0.3 * gauss()));
      plan_t q = make(d1, d2, 0.5);
      const size_t n = need(q.s2);
      if (n >= lo && n <= hi && shorts(q))
        return q;
      const double off = (static_cast<double>(lo + hi) / 2 - static_cast<double>(n)) / static_cast<double>(N);
      a = std::min(260., std::max(60., a + off * (i < 10 ? 100 : 5)));
    }
    vh::fail("harness", "no body of that size");
  }
  plan_t usual() { return make(ivec(N), ivec(N), 0.9); }

  struct src_t : vhook::source_t
  {
    steer::script_t s;
    const uint8_t* salt;
    size_t pos = 0;
    src_t(uint64_t seed, bool stop, const uint8_t* salt)
      : s(seed, stop)
      , salt(salt)
    {
    }
    void fill(uint8_t* o, size_t n) override
    {
      if (pos < 40) {
        const size_t k = std::min<size_t>(n, 40 - pos);
        memcpy(o, salt + pos, k);
        pos += k;
        o += k;
        n -= k;
        if (n == 0)
          return;
      }
      s.fill(o, n);
    }
  };
  // one call, on the given attempts; false if it asked for more of them
  bool sign(const std::vector<plan_t>& a, vh::gbuf& sig, bool stop, size_t* attempts = nullptr)
  {
    src_t src(r.next(), stop, salt);
    for (auto& q : a) {
      src.s.z.insert(src.s.z.end(), q.z.begin(), q.z.end());
      n_plan++;
      if (!shorts(q))
        n_long++;
      else if (!fits(q))
        n_unfit++;
      if (std::abs(static_cast<double>(q.norm) / static_cast<double>(ref::beta2(N)) - 1) < 3e-5)
        n_tight++;
      if (need(q.s2) + 2 >= cap && need(q.s2) <= cap + 2)
        n_full++;
      n_big.add(static_cast<uint64_t>(std::count_if(q.s2.begin(), q.s2.end(), [](int64_t x) { return std::abs(x) > 1000; })));
    }
    n_run++;
    vh::gbuf m(msg);
    prng::prng_t rng;
    bool done = false;
    {
      with_source w(src);
      try {
        sign_prepared<N>(*p, m, sig, rng);
        done = true;
      } catch (const vhook::budget_exceeded&) {
      }
    }
    if (attempts)
      *attempts = (src.s.at + 2 * N - 1) / (2 * N) + (src.s.over > 0);
    return done;
  }
  // A mixture of attempts: kind 0..5 first, then an acceptable one.
  std::vector<plan_t> mixture(unsigned kind)
  {
    const int64_t B = ref::beta2(N);
    std::vector<plan_t> v;
    switch (kind % 8) {
      case 0: // just too long
        v.push_back(normed(B, B + (r.below(2) ? 2 : 1000)));
        break;
      case 1: // just short enough
        v.push_back(normed(B - (r.below(2) ? 3 : 1000), B - 1));
        break;
      case 2: // exactly full or nearly
        v.push_back(bits(cap - 2, cap));
        break;
      case 3: // one or two bits too many
        v.push_back(bits(cap + 1, cap + 2));
        break;
      case 4: // large coefficients
        v.push_back(spike(r.below(N), r.range(900, N == 512 ? 2600 : 3800), 1));
        break;
      case 5:
        v.push_back(spike(r.below(N), r.range(900, N == 512 ? 2600 : 3800), 1, true));
        break;
      case 6: // much too long, then not encodable
        v.push_back(normed(B * 2, B * 4));
        v.push_back(bits(cap + 1, cap + 200));
        break;
      case 7:
        v.push_back(spike(r.below(N), r.range(600, 1200), 3));
    }
    if (r.below(3) == 0)
      v.push_back(v[0]);
    if (!good(v[0]) && r.below(4) == 0) // many in a row
      v.insert(v.begin(), 2 + r.below(10), v[0]);
    v.push_back(usual());
    while (!good(v.back()))
      v.back() = usual();
    return v;
  }
  static size_t first_good(const std::vector<plan_t>& v)
  {
    for (size_t i = 0; i < v.size(); i++)
      if (good(v[i]))
        return i;
    return v.size();
  }
};

// Pairs key generation has to discard: 0 f out of range, 1 f not invertible,
// 2 g out of range, 3 and 4 too long (second norm), 5 no solution (both sums
// even). Empty if none was found.
inline vh::counter_t n_dis[6] = { vh::counter_t("discardable_f_out_of_range"), vh::counter_t("discardable_f_singular"), vh::counter_t("discardable_g_out_of_range"), vh::counter_t("discardable_too_long"), vh::counter_t("discardable_too_long_beside_a_good_f"), vh::counter_t("discardable_unsolvable") };
template<size_t N>
inline std::optional<std::pair<ivec, ivec>>
discardable(vh::rng_t& r, const ivec& f0, const ivec& g0, unsigned kind)
{
  constexpr long double B = 1.17L * 1.17L * ref::Q;
  constexpr int64_t M = N == 512 ? 31 : 15;
  ivec f = f0, g = g0;
  switch (kind) {
    case 0:
      f[r.below(N)] = M + 1;
      break;
    case 1:
      if (!steer::kill(f, r.below(N), r))
        return {};
      break;
    case 2:
      g[r.below(N)] = -(M + 6);
      break;
    case 3:
    case 4: {
      const double sd = 1.17 * std::sqrt(ref::Q / (2. * N)) * 0.97;
      bool found = false;
      for (int t = 0; t < 40 && !found; t++) {
        for (size_t j = 0; j < N; j++) {
          auto one = [&] { return std::clamp<int64_t>(llround(sd * r.gauss()), -M, M); };
          if (kind == 3)
            f[j] = one();
          g[j] = one();
        }
        found = ref::gs_norm(f, g) > B * 1.001L && ref::invertible_q(f);
      }
      if (!found)
        return {};
      break;
    }
    default: {
      bool found = false;
      for (int t = 0; t < 40 && !found; t++) {
        f = f0;
        g = g0;
        for (auto* a : { &f, &g }) {
          int64_t sum = 0;
          for (auto x : *a)
            sum += x;
          while (sum & 1) {
            auto& x = (*a)[r.below(N)];
            if (x) {
              x -= x > 0 ? 1 : -1;
              sum++;
            }
          }
        }
        found = ref::gs_norm(f, g) < B * 0.9999L && ref::invertible_q(f);
      }
      if (!found)
        return {};
    }
  }
  n_dis[kind]++;
  return std::pair{ f, g };
}
// Would the key (f, g) come out if key generation drew no g after an f that
// cannot be used?
template<size_t N>
inline bool
skips_g(vh::rng_t& r, const std::vector<std::pair<ivec, ivec>>& cs, const std::vector<unsigned>& kinds, ivec out[4])
{
  steer::script_t s(r.next(), true);
  for (size_t i = 0; i < cs.size(); i++) {
    steer::add_poly(s, cs[i].first);
    if (i >= kinds.size() || kinds[i] > 1)
      steer::add_poly(s, cs[i].second);
  }
  return steer::run_keygen<N>(s, out);
}

}
