// Keys and signatures with a chosen (s1, s2): the public key is solved for,
// h = (c - s1)/s2.
#pragma once
#include "ref.hpp"
#include "vh.hpp"
#include <optional>

namespace craft {
using ref::ivec;
using bytes = std::vector<uint8_t>;

template<size_t N>
struct made_t
{
  bytes pk, m, sig;
};
template<size_t N>
struct C
{
  static bytes sig_of(const bytes& salt, const bytes& body)
  {
    bytes s{ static_cast<uint8_t>(0x30 | ref::logn(N)) };
    s.insert(s.end(), salt.begin(), salt.end());
    s.insert(s.end(), body.begin(), body.end());
    return s;
  }
  // Nothing: s2 not usable.
  static std::optional<made_t<N>> make(vh::rng_t& r, const ivec& s1, const ivec& s2, size_t mlen)
  {
    auto body = ref::compress(s2, ref::sig_len(N) - 41);
    if (!body || !ref::invertible_q(s2))
      return {};
    bytes salt(40), m(mlen);
    r.fill(salt.data(), 40);
    r.fill(m.data(), mlen);
    ivec t = ref::hash_to_point(N, salt.data(), m.data(), mlen);
    for (size_t i = 0; i < N; i++)
      t[i] -= s1[i];
    return made_t<N>{ ref::enc_pk(ref::div_q(t, s2)), m, sig_of(salt, *body) };
  }
  static ivec small(vh::rng_t& r, double sd)
  {
    ivec v(N);
    for (auto& x : v)
      x = llround(r.gauss() * sd);
    return v;
  }
  static ivec small_invertible(vh::rng_t& r, double sd)
  {
    while (true) {
      ivec v = small(r, sd);
      if (ref::invertible_q(v))
        return v;
    }
  }
  // s1 of exactly the squared norm `target`, entries within +-lim.
  static ivec with_norm(vh::rng_t& r, int64_t target, int64_t lim = 6144)
  {
    ivec v(N, 0);
    std::vector<size_t> perm(N);
    for (size_t i = 0; i < N; i++)
      perm[i] = i;
    for (size_t i = N - 1; i > 0; i--)
      std::swap(perm[i], perm[r.below(i + 1)]);
    size_t k = 0;
    int64_t left = target;
    for (; k < N - 8 && left > 0; k++) { // random shares
      const double rms = std::sqrt(static_cast<double>(left) / static_cast<double>(N - 8 - k));
      int64_t x = llround(r.gauss() * rms);
      x = std::max(-lim, std::min(lim, x));
      while (x * x > left)
        x /= 2;
      v[perm[k]] = x;
      left -= x * x;
    }
    // top up entries that have room
    for (size_t j = 0; j < k && left > 6000ll * 6000; j++) {
      int64_t& x = v[perm[j]];
      left += x * x;
      x = std::min<int64_t>(lim, static_cast<int64_t>(std::sqrt(static_cast<double>(left))));
      left -= x * x;
    }
    for (; k < N - 4 && left > 0; k++) { // greedy
      int64_t x = std::min<int64_t>(lim, static_cast<int64_t>(std::sqrt(static_cast<double>(left))));
      v[perm[k]] = r.below(2) ? x : -x;
      left -= x * x;
    }
    for (; k < N && left > 0; k++) {
      int64_t x = std::min<int64_t>(lim, static_cast<int64_t>(std::sqrt(static_cast<double>(left))));
      v[perm[k]] = x;
      left -= x * x;
    }
    return v;
  }
};
}
