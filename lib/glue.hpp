#pragma once
// Thin adaptors from harness data to the library's public functions. Buffers
// have exactly the documented sizes; inputs are checked to be unmodified.
#include "vh.hpp"
#include "ref.hpp"
#include "falcon.hpp"
#include <memory>
#include <string>

namespace glue {

using ref::bytes;
using ref::ivec;

// Counts / limits the random bytes of one call.
struct draw_t
{
  uint64_t b0 = vhook::prng_bytes, save = vhook::prng_budget;
  explicit draw_t(uint64_t limit = 0)
  {
    if (limit)
      vhook::prng_budget = vhook::prng_bytes + limit;
  }
  uint64_t bytes() const { return vhook::prng_bytes - b0; }
  ~draw_t() { vhook::prng_budget = save; }
};

template<size_t N>
struct prep
{
  static constexpr size_t LG = N == 512 ? 9 : 10;
  std::unique_ptr<fft::cmplx[]> B{ new fft::cmplx[4 * N] }, T{ new fft::cmplx[N * (LG + 1)] };
};

template<size_t N>
inline std::vector<int32_t>
i32(const ivec& a)
{
  return std::vector<int32_t>(a.begin(), a.end());
}

template<size_t N>
inline std::shared_ptr<prep<N>>
prepare(const ivec& f, const ivec& g, const ivec& F, const ivec& G)
{
  auto p = std::make_shared<prep<N>>();
  const auto f_ = i32<N>(f), g_ = i32<N>(g), F_ = i32<N>(F), G_ = i32<N>(G);
  falcon::compute_matrix_B<N>(f_.data(), g_.data(), F_.data(), G_.data(), p->B.get());
  falcon::compute_falcon_tree<N>(p->B.get(), p->T.get());
  return p;
}
// Prepared golden key, cached per process.
template<size_t N>
inline const prep<N>&
gold(size_t k)
{
  static thread_local std::vector<std::shared_ptr<prep<N>>> memo(64);
  const auto& ks = ref::golden(N);
  k %= ks.size();
  if (!memo[k])
    memo[k] = prepare<N>(ks[k].f, ks[k].g, ks[k].F, ks[k].G);
  return *memo[k];
}

template<size_t N>
inline void
sign_prepared(const prep<N>& p, const vh::gbuf& msg, vh::gbuf& sig, prng::prng_t& rng)
{
  falcon::sign<N>(p.B.get(), p.T.get(), msg.data(), msg.n, sig.data(), rng);
  VH_REQUIRE(msg.intact() && sig.intact(), "out-of-bounds-write", "N=%zu sign (prepared), message of %zu bytes", N, msg.n);
}
template<size_t N>
inline bool
sign_oneshot(const vh::gbuf& sk, const vh::gbuf& msg, vh::gbuf& sig)
{
  const bool ok = falcon::sign<N>(sk.data(), msg.data(), msg.n, sig.data());
  VH_REQUIRE(msg.intact() && sig.intact() && sk.intact(), "out-of-bounds-write", "N=%zu sign (one-shot), message of %zu bytes", N, msg.n);
  return ok;
}
template<size_t N>
inline bool
verify(const vh::gbuf& pk, const vh::gbuf& msg, vh::gbuf& sig)
{
  const bool ok = falcon::verify<N>(pk.data(), msg.data(), msg.n, sig.data());
  VH_REQUIRE(msg.intact() && sig.intact() && pk.intact(), "out-of-bounds-write", "N=%zu verify, message of %zu bytes", N, msg.n);
  return ok;
}

// Message lengths: sponge boundaries (rate 136, salt 40 => 96), small, large.
inline size_t
msg_len(vh::rng_t& r, size_t big = 5000)
{
  switch (r.below(6)) {
    case 0:
      return r.below(4);
    case 1: { // around sponge block boundaries
      const int64_t b = 136 * r.range(1, 12) - 40 + r.range(-2, 2);
      return static_cast<size_t>(b);
    }
    case 2: {
      const int64_t b = (int64_t(1) << r.range(3, 12)) + r.range(-1, 1);
      return static_cast<size_t>(b);
    }
    case 3:
      return r.below(big + 1);
    default:
      return r.below(200);
  }
}
inline bytes
message(vh::rng_t& r, size_t n)
{
  bytes m(n);
  switch (r.below(5)) {
    case 0: {
      const uint8_t v = static_cast<uint8_t>(r.below(3) ? (r.below(2) ? 0 : 0xff) : r.below(256));
      for (auto& b : m)
        b = v;
      break;
    }
    case 1: // text
      for (size_t i = 0; i < n; i++)
        m[i] = static_cast<uint8_t>(' ' + (i * 7 + r.below(3)) % 90);
      break;
    default:
      r.fill(m.data(), n);
  }
  return m;
}

// Random source that hands out forced values for a while. `p_force` of the
// reads (after the first `skip` bytes) return all-`byte`; from `until` bytes
// on, everything is random. All-zero reads push the integer sampler to its
// largest deviation, so whole attempts get rejected: this is how the restart
// paths, which sound randomness takes about once in a million calls, are run.
struct forced_t : vhook::source_t
{
  vh::rng_t r;
  uint64_t skip, until, seen = 0;
  double p;
  uint8_t val;
  uint64_t forced = 0;
  forced_t(uint64_t seed, uint64_t skip, uint64_t until, double p, uint8_t val = 0)
    : r(seed)
    , skip(skip)
    , until(until)
    , p(p)
    , val(val)
  {
  }
  bool mode = false;
  void fill(uint8_t* b, size_t n) override
  {
    r.fill(b, n);
    if (seen >= skip && seen < until) {
      if (n == 9)
        mode = r.chance(p);
      if (mode) {
        memset(b, val, n);
        forced++;
      }
    }
    seen += n;
  }
};
struct with_source
{
  explicit with_source(vhook::source_t& s) { vhook::prng_override = &s; }
  ~with_source() { vhook::prng_override = nullptr; }
};

}

namespace glue {

// A valid (key, message, signature) whose key has a zero coefficient at p: a
// short (s1, s2) with the key solved for. Returns h.
template<size_t N>
inline ref::ivec
valid_with_zero(vh::rng_t& r, size_t p, bytes& m, bytes& sig)
{
  using ref::ivec;
  for (;;) {
    ivec s2(N), s1(N);
    for (auto* a : { &s1, &s2 })
      for (auto& x : *a)
        x = llround(r.gauss() * 110);
    const auto body = ref::compress(s2, ref::sig_len(N) - 41);
    if (!body || !ref::invertible_q(s2))
      continue;
    ivec one(N);
    one[0] = 1;
    const ivec inv = ref::div_q(one, s2);
    m = message(r, r.below(60));
    sig.assign(41, 0);
    sig[0] = static_cast<uint8_t>(0x30 | ref::logn(N));
    r.fill(sig.data() + 1, 40);
    sig.insert(sig.end(), body->begin(), body->end());
    ivec t = ref::hash_to_point(N, sig.data() + 1, m.data(), m.size());
    for (size_t i = 0; i < N; i++)
      t[i] -= s1[i];
    const ivec h = ref::div_q(t, s2);
    for (size_t j = 0; j < N; j++)
      for (int64_t e = -90; e <= 90; e++) { // s1[j] += e: h -= e x^j / s2
        const int64_t w = j <= p ? inv[p - j] : -inv[N + p - j];
        if (ref::mod(h[p] - e * w))
          continue;
        t[j] -= e;
        return ref::div_q(t, s2);
      }
  }
}

// Further valid keys from a stored one: the automorphisms x -> x^k (k odd) and
// the units x^i keep every norm, so all of these are keys key generation could
// have produced; adding a small multiple of (f, g) to (F, G) is a further
// valid completion as long as F stays encodable.
struct basis
{
  ivec f, g, F, G;
};
inline ivec
autom(const ivec& a, size_t k)
{
  const size_t n = a.size();
  ivec r(n);
  for (size_t i = 0; i < n; i++) {
    const size_t e = (i * k) % (2 * n);
    if (e < n)
      r[e] += a[i];
    else
      r[e - n] -= a[i];
  }
  return r;
}
inline ivec
rot(const ivec& a, size_t k) // * x^k, k < 2n
{
  const size_t n = a.size();
  ivec r(n);
  for (size_t i = 0; i < n; i++) {
    const size_t e = (i + k) % (2 * n);
    if (e < n)
      r[e] = a[i];
    else
      r[e - n] = -a[i];
  }
  return r;
}
inline int64_t
max_abs(const ivec& a)
{
  int64_t m = 0;
  for (auto x : a)
    m = std::max(m, std::abs(x));
  return m;
}
template<size_t N>
inline basis
variant(vh::rng_t& r)
{
  const auto& ks = r.below(6) ? ref::golden(N) : ref::edge(N);
  const auto& k = ks[r.below(ks.size())];
  basis b{ k.f, k.g, k.F, k.G };
  if (r.below(4) == 0)
    return b;
  const size_t e = 2 * r.below(N) + 1, i = r.below(2 * N);
  b = { autom(b.f, e), autom(b.g, e), autom(b.F, e), autom(b.G, e) };
  b = { rot(b.f, i), rot(b.g, i), rot(b.F, 2 * N - i), rot(b.G, 2 * N - i) };
  if (r.below(4) == 0) {
    const size_t s = r.below(2 * N);
    const ivec ff = rot(b.f, s), gg = rot(b.g, s);
    ivec F = b.F, G = b.G;
    for (size_t j = 0; j < N; j++) {
      F[j] += ff[j];
      G[j] += gg[j];
    }
    if (max_abs(F) <= 127) {
      b.F = F;
      b.G = G;
    }
  } else if (r.below(6) == 0) { // G beyond what one byte holds (nothing encodes it)
    const size_t at = r.below(N);
    ivec F = b.F, G = b.G;
    std::vector<std::pair<int64_t, size_t>> by;
    for (size_t s = 0; s < N; s++)
      by.push_back({ -std::abs(b.g[(at + N - s) % N]), s });
    std::sort(by.begin(), by.end());
    const bool up = r.below(2);
    for (size_t k = 0; k < by.size() && std::abs(G[at]) <= 140; k++) {
      const size_t s = by[k].second;
      const ivec gg = rot(b.g, s);
      const size_t e = (gg[at] > 0) == up ? s : s + N;
      const ivec fe = rot(b.f, e), ge = rot(b.g, e);
      for (size_t j = 0; j < N; j++) {
        F[j] += fe[j];
        G[j] += ge[j];
      }
    }
    if (max_abs(F) <= 127 && max_abs(G) > 127) {
      b.F = F;
      b.G = G;
    }
  }
  return b;
}

// Correct keys that have a lot in common with a stored one: f and g of it with
// another F, one of f and g negated, everything rotated, roles exchanged.
template<size_t N>
inline std::vector<basis>
kin(vh::rng_t& r, size_t which)
{
  const auto& ks = ref::golden(N);
  const auto& k = ks[which % ks.size()];
  const basis b{ k.f, k.g, k.F, k.G };
  const auto neg = [](ivec a) {
    for (auto& x : a)
      x = -x;
    return a;
  };
  std::vector<basis> v{ b };
  for (int tries = 0, found = 0; tries < 40 && found < 3; tries++) {
    const size_t s = r.below(2 * N);
    const ivec ff = rot(b.f, s), gg = rot(b.g, s);
    basis o = b;
    for (size_t j = 0; j < N; j++) {
      o.F[j] += ff[j];
      o.G[j] += gg[j];
    }
    if (max_abs(o.F) <= 127) {
      v.push_back(o);
      found++;
    }
  }
  v.push_back({ b.f, neg(b.g), neg(b.F), b.G });
  v.push_back({ neg(b.f), b.g, b.F, neg(b.G) });
  v.push_back({ neg(b.f), neg(b.g), neg(b.F), neg(b.G) });
  const size_t i = 1 + r.below(2 * N - 1);
  v.push_back({ rot(b.f, i), rot(b.g, i), rot(b.F, 2 * N - i), rot(b.G, 2 * N - i) });
  v.push_back({ rot(b.f, i), b.g, b.F, rot(b.G, 2 * N - i) });
  v.push_back({ b.f, rot(b.g, i), rot(b.F, 2 * N - i), b.G });
  if (ref::invertible_q(b.g) && max_abs(b.G) <= 127)
    v.push_back({ b.g, b.f, neg(b.G), neg(b.F) });
  return v;
}

}
