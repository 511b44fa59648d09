// The verdict of verify against an exact independent verifier, on crafted
// (s1, s2): the public key is solved for, h = (c - s1)/s2, so any norm on or
// off the bound, any coefficient and any wrap-around is reachable.
#include "craft.hpp"
#include "glue.hpp"
using namespace glue;

static vh::counter_t n_acc("accepted"), n_rej("rejected"), n_eq("norm_equal_to_bound"), n_eq1("norm_one_over"), n_wrap("norm_beyond_2^31"),
  n_dec("undecodable"), n_big2("s2_coefficient_at_least_q"), n_half("s1_coefficient_at_plus_minus_6144"), n_one("norm_all_in_one_half"),
  n_part("norm_beyond_2^31_in_a_part");

template<size_t N>
struct V
{
  using A = craft::C<N>;
  // independent verdict and library verdict
  static void judge(const bytes& pk, const bytes& m, const bytes& sig, const char* what)
  {
    const auto v = ref::verify(N, pk.data(), m.data(), m.size(), sig.data());
    vh::gbuf p(pk), msg(m), s(sig);
    const bool got = verify<N>(p, msg, s);
    VH_REQUIRE(got == v.ok, got ? "accepted-invalid" : "rejected-valid", "N=%zu %s: verify returned %d; independent verdict %d (%s, squared norm %ld, bound %ld); pk=%s.. sig=%s..",
               N, what, got, v.ok, v.why, v.norm, ref::beta2(N), vh::hex(pk.data(), 12).c_str(), vh::hex(sig.data(), 56).c_str());
    // the call that takes the polynomial h
    if (auto h = ref::dec_pk(N, pk.data())) {
      std::vector<ff::ff_t> hh(N);
      for (size_t i = 0; i < N; i++)
        hh[i] = ff::ff_t{ static_cast<uint16_t>((*h)[i]) };
      constexpr int32_t b2 = N == 512 ? 34034726 : 70265242;
      const bool got2 = verification::verify<N, b2>(hh.data(), msg.data(), msg.n, s.data());
      VH_REQUIRE(got2 == v.ok, got2 ? "accepted-invalid" : "rejected-valid", "N=%zu %s (polynomial key): verify returned %d, independent verdict %d (%s, norm %ld)", N, what,
                 got2, v.ok, v.why, v.norm);
    }
    VH_REQUIRE(p.equals(pk) && msg.equals(m) && s.equals(sig), "input-modified", "N=%zu %s: verify changed an input", N, what);
    vh::eval(2);
    if (v.ok)
      n_acc++;
    else
      n_rej++;
    if (v.norm < 0)
      n_dec++;
    if (v.norm == ref::beta2(N))
      n_eq++;
    if (v.norm == ref::beta2(N) + 1)
      n_eq1++;
    if (v.norm >= (1ll << 31))
      n_wrap++;
    for (auto x : v.s2)
      if (std::abs(x) >= ref::Q) {
        n_big2++;
        break;
      }
    for (auto x : v.s1)
      if (std::abs(x) == 6144) {
        n_half++;
        break;
      }
    vh::distinct(vh::hash_bytes(sig.data(), sig.size()) ^ vh::hash_bytes(pk.data(), pk.size()) * 3);
  }

  // Key and signature with exactly these s1, s2. False: s2 not usable.
  static bool craft(vh::case_t& c, const ivec& s1, const ivec& s2, const char* what, size_t mlen = 20)
  {
    const auto k = A::make(c.rng, s1, s2, mlen);
    if (k)
      judge(k->pk, k->m, k->sig, what);
    return k.has_value();
  }
  static ivec small(vh::rng_t& r, double sd) { return A::small(r, sd); }
  static ivec small_invertible(vh::rng_t& r, double sd) { return A::small_invertible(r, sd); }
  static ivec with_norm(vh::rng_t& r, int64_t t, int64_t lim = 6144) { return A::with_norm(r, t, lim); }

  static void bound(vh::case_t& c)
  {
    const double sd = c.rng.unit() * 150 + 3;
    const ivec s2 = small_invertible(c.rng, sd);
    const int64_t d = c.idx % 3 == 0 ? 0 : (c.idx % 3 == 1 ? 1 : c.rng.range(-3, 4));
    const int64_t target = ref::beta2(N) + d - ref::sqnorm(s2);
    if (target < 0)
      return;
    const ivec s1 = with_norm(c.rng, target);
    craft(c, s1, s2, "norm at the bound", c.rng.below(200));
  }
  static void wrap(vh::case_t& c)
  {
    const ivec s2 = small_invertible(c.rng, c.rng.unit() * 100 + 2);
    const int64_t unit = c.rng.below(2) ? (1ll << 32) : (1ll << 31);
    const int64_t top = static_cast<int64_t>(N) * 6000 * 6000;
    const int64_t k = c.rng.range(1, top / unit);
    int64_t t = k * unit;
    switch (c.rng.below(4)) {
      case 0:
        t += c.rng.range(0, ref::beta2(N));
        break;
      case 1:
        t += c.rng.range(-5, 5);
        break;
      case 2:
        t -= c.rng.range(0, ref::beta2(N));
        break;
      default:
        t = c.rng.range(ref::beta2(N), top);
    }
    craft(c, with_norm(c.rng, t - ref::sqnorm(s2)), s2, "norm near a multiple of 2^31");
  }
  // nearly all of the norm sits in one coefficient, total just over / at the bound
  static void position(vh::case_t& c)
  {
    const size_t p = c.idx % N;
    const bool in_s2 = (c.idx / N) & 1;
    const int64_t sgn = (c.idx / (2 * N)) & 1 ? -1 : 1;
    for (int over = 0; over < 2; over++) {
      for (int tries = 0; tries < 5; tries++) {
        ivec s2 = small(c.rng, 4), s1(N, 0);
        int64_t lim = in_s2 ? 8000 : 6144;
        int64_t want = ref::beta2(N) + over;
        if (in_s2) {
          s2[p] = 0;
          const int64_t room = want - ref::sqnorm(s2) - 300000;
          const int64_t x = std::min(lim, static_cast<int64_t>(std::sqrt(static_cast<double>(room))));
          s2[p] = sgn * x;
          s1 = with_norm(c.rng, want - ref::sqnorm(s2));
        } else {
          const int64_t room = want - ref::sqnorm(s2) - 300000;
          const int64_t x = std::min(lim, static_cast<int64_t>(std::sqrt(static_cast<double>(room))));
          int64_t left = room + 300000 - x * x;
          s1 = with_norm(c.rng, left);
          // put x at p, move what was there to the cheapest other place
          const int64_t was = s1[p];
          size_t z = (p + 1) % N;
          while (s1[z] != 0 && z != p)
            z = (z + 1) % N;
          if (z == p && was != 0)
            continue;
          s1[z] = was;
          s1[p] = sgn * x;
        }
        if (craft(c, s1, s2, in_s2 ? "norm concentrated in one coefficient of s2" : "norm concentrated in one coefficient of s1"))
          break;
      }
    }
  }
  // +-6144 / 6145 boundary of the centred representation (parity: fits under the N=1024 bound)
  static void half(vh::case_t& c)
  {
    const ivec s2 = small_invertible(c.rng, 3);
    const size_t p = c.rng.below(N);
    ivec s1 = small(c.rng, c.rng.unit() * 30);
    s1[p] = (c.rng.below(2) ? 1 : -1) * (6144 - static_cast<int64_t>(c.rng.below(4)));
    // total exactly at the bound or one over, using the +-6144 coefficient
    if (N == 1024 && c.rng.below(2)) {
      const int64_t left = ref::beta2(N) + static_cast<int64_t>(c.rng.below(3)) - s1[p] * s1[p] - ref::sqnorm(s2);
      const int64_t keep = s1[p];
      s1 = with_norm(c.rng, left);
      size_t z = (p + 1) % N;
      while (s1[z] != 0 && z != p)
        z = (z + 1) % N;
      if (z == p)
        return;
      s1[z] = s1[p];
      s1[p] = keep;
    }
    craft(c, s1, s2, "s1 coefficient next to q/2");
  }
  // large s2: multiples of q, 16 / 32-bit wrap-around
  static void large(vh::case_t& c)
  {
    const int64_t max = static_cast<int64_t>((8 * (ref::sig_len(N) - 41) - 9 * N - 20) * 128);
    ivec s2 = small(c.rng, c.rng.unit() * 10);
    const size_t p = c.rng.below(N);
    const int64_t sgn = c.rng.below(2) ? 1 : -1;
    int64_t x = 0;
    switch (c.rng.below(6)) {
      case 0:
        x = ref::Q * c.rng.range(1, std::max<int64_t>(1, max / ref::Q)) + c.rng.range(-3, 3);
        break;
      case 1:
        x = 65536 + c.rng.range(-200, 200);
        break;
      case 2:
        x = 46341 + c.rng.range(-2, 2);
        break;
      case 3:
        x = c.rng.range(5000, 9000);
        break;
      case 4:
        x = static_cast<int64_t>(std::sqrt(static_cast<double>(ref::beta2(N)))) + c.rng.range(-2, 2);
        break;
      default:
        x = c.rng.range(1, max);
    }
    x = std::min(x, max);
    s2[p] = sgn * x;
    ivec s1(N, 0);
    if (c.rng.below(2))
      s1 = small(c.rng, 20);
    if (!craft(c, s1, s2, "one large s2 coefficient")) {
      s2[(p + 1) % N] ^= 1;
      craft(c, s1, s2, "one large s2 coefficient");
    }
  }
  // honest signatures, then structured damage; arbitrary keys
  static void honest(vh::case_t& c)
  {
    const auto& K = ref::golden(N)[c.rng.below(24)];
    const auto& p = gold<N>(static_cast<size_t>(&K - ref::golden(N).data()));
    const bytes m = message(c.rng, msg_len(c.rng, 600));
    vh::gbuf msg(m), sig(ref::sig_len(N));
    prng::prng_t rng;
    sign_prepared<N>(p, msg, sig, rng);
    const bytes s(sig.data(), sig.data() + sig.n);
    judge(K.pk, m, s, "honest signature");
    const ivec s2 = *ref::decompress(N, s.data() + 41, s.size() - 41);
    // neighbours of s2
    for (int i = 0; i < 3; i++) {
      ivec t = s2;
      for (int j = 0; j <= i; j++)
        t[c.rng.below(N)] += c.rng.range(-1, 1) * (1 + static_cast<int64_t>(c.rng.below(300)));
      if (auto b = ref::compress(t, s.size() - 41)) {
        bytes u = s;
        std::copy(b->begin(), b->end(), u.begin() + 41);
        judge(K.pk, m, u, "honest signature with s2 changed");
      }
    }
    // other headers, zero signature, zero key, key of another, random key
    bytes u = s;
    u[0] = static_cast<uint8_t>(c.rng.next());
    judge(K.pk, m, u, "signature header");
    bytes k = K.pk;
    k[0] = static_cast<uint8_t>(c.rng.next());
    judge(k, m, s, "key header");
    judge(ref::golden(N)[c.rng.below(24)].pk, m, s, "other key");
    ivec h(N);
    for (auto& x : h)
      x = c.rng.range(0, ref::Q - 1);
    judge(ref::enc_pk(h), m, s, "random key");
    judge(ref::enc_pk(ivec(N, c.rng.below(2) ? 0 : 1)), m, s, "constant key");
    // the same key but for one or two coefficients, the same message but for one
    // byte, straight after the honest call, and the honest call again
    for (int j = 0; j < 3; j++) {
      ivec hh = K.h;
      for (int i = 0; i <= j; i += 2) {
        const size_t at = c.rng.below(N);
        hh[at] = (hh[at] + c.rng.range(1, ref::Q - 1)) % ref::Q;
      }
      judge(ref::enc_pk(hh), m, s, "a coefficient of the key changed");
      if (j == 1)
        judge(K.pk, m, s, "honest signature again");
    }
    if (!m.empty()) {
      bytes mm = m;
      mm[c.rng.below(mm.size())] ^= static_cast<uint8_t>(1 + c.rng.below(255));
      judge(K.pk, mm, s, "a byte of the message changed");
      judge(K.pk, m, s, "honest signature again");
    }
    // non-canonical key: same residue in 14 bits, so only strict decoding rejects
    for (int j = 0; j < 2; j++) {
      ivec hh = K.h;
      std::vector<size_t> cand;
      for (size_t i = 0; i < N; i++)
        if (hh[i] + ref::Q < 16384)
          cand.push_back(i);
      if (!cand.empty()) {
        hh[j ? cand.back() : cand[c.rng.below(cand.size())]] += ref::Q;
        judge(ref::enc_pk(hh), m, s, "public key coefficient not reduced");
      }
    }
    // one body bit, and the padding bits
    u = s;
    u[41 + c.rng.below(s.size() - 41)] ^= static_cast<uint8_t>(1u << c.rng.below(8));
    judge(K.pk, m, u, "one bit of the body");
    u = s;
    u[s.size() - 1] ^= static_cast<uint8_t>(1u << c.rng.below(8));
    judge(K.pk, m, u, "padding bit");
    // negated, zero
    ivec t = s2;
    for (auto& x : t)
      x = -x;
    u = s;
    auto b = ref::compress(t, s.size() - 41);
    std::copy(b->begin(), b->end(), u.begin() + 41);
    judge(K.pk, m, u, "negated s2");
    b = ref::compress(ivec(N, 0), s.size() - 41);
    std::copy(b->begin(), b->end(), u.begin() + 41);
    judge(K.pk, m, u, "s2 = 0");
    std::fill(u.begin() + 41, u.end(), c.rng.below(2) ? 0 : 0xff);
    judge(K.pk, m, u, "constant body");
    c.rng.fill(u.data() + 41, u.size() - 41);
    judge(K.pk, m, u, "random body");
    if (c.idx < 2)
      vh::sample("N=%zu honest signature of %zu bytes and 16 variants: all verdicts agree", N, m.size());
  }
  // all of the norm in s2, or nearly none: s1 = 0 or a few units, s2 of a chosen norm
  static void onesided(vh::case_t& c)
  {
    for (int i = 0; i < 20; i++) {
      ivec s1(N, 0);
      int64_t own = 0;
      if (c.idx % 3)
        for (uint64_t k = c.rng.below(4); k--;)
          s1[c.rng.below(N)] = c.rng.below(4) ? 1 : -static_cast<int64_t>(c.rng.below(3));
      own = ref::sqnorm(s1);
      const int64_t d = c.rng.below(2) ? c.rng.range(-1, 1) : c.rng.range(-6, 6);
      // several large coefficients, so that it still compresses
      const int64_t t = ref::beta2(N) + d - (c.rng.below(2) ? own : 0);
      const int64_t x = c.rng.range(static_cast<int64_t>(0.8 * std::sqrt(static_cast<double>(t))), static_cast<int64_t>(std::sqrt(static_cast<double>(t)))) * (c.rng.below(2) ? 1 : -1);
      ivec s2 = with_norm(c.rng, t - x * x, 3000);
      size_t p = c.rng.below(N);
      while (s2[p] != 0 && ref::sqnorm(s2) < t)
        p = (p + 1) % N;
      s2[p] = x;
      if (craft(c, s1, s2, "norm nearly all in s2"))
        n_one++;
    }
    const int64_t d = c.rng.range(-2, 2);
    ivec s2(N, 0);
    s2[c.rng.below(N)] = c.rng.below(2) ? 1 : -1; // a unit
    if (craft(c, with_norm(c.rng, ref::beta2(N) + d - 1), s2, "norm nearly all in s1"))
      n_one++;
  }
  // a norm just over 2^31 or 2^32 in a part of the coefficients - a block, every
  // second, fourth, .. one, a random choice - and hardly anything elsewhere
  static void blocks(vh::case_t& c)
  {
    const int64_t unit = c.idx & 1 ? 1ll << 32 : 1ll << 31;
    const size_t least = static_cast<size_t>(unit / (6144 * 6144)) + 1;
    std::vector<size_t> at;
    size_t L = 64;
    while (L < least)
      L *= 2;
    L <<= c.rng.below(4);
    L = std::min(L, N);
    switch (c.rng.below(3)) {
      case 0: { // aligned block
        const size_t b = c.rng.below(N / L) * L;
        for (size_t i = 0; i < L; i++)
          at.push_back(b + i);
        break;
      }
      case 1: { // one residue class
        const size_t w = N / L, r = c.rng.below(w);
        for (size_t i = r; i < N; i += w)
          at.push_back(i);
        break;
      }
      default: { // anywhere
        std::vector<size_t> all(N);
        for (size_t i = 0; i < N; i++)
          all[i] = i;
        L = static_cast<size_t>(c.rng.range(static_cast<int64_t>(least), static_cast<int64_t>(N)));
        for (size_t i = 0; i < L; i++) {
          std::swap(all[i], all[i + c.rng.below(N - i)]);
          at.push_back(all[i]);
        }
      }
    }
    const int64_t v = static_cast<int64_t>(std::sqrt(static_cast<double>(unit) / static_cast<double>(at.size()))) + 1;
    if (v > 6144)
      return;
    ivec s1(N, 0);
    for (auto i : at)
      s1[i] = c.rng.below(2) ? v : -v;
    if (craft(c, s1, small_invertible(c.rng, c.rng.unit() * 30 + 2), "norm over 2^31 in a part of the coefficients"))
      n_part++;
  }
  // arbitrary split of a random accepted / rejected norm
  static void random(vh::case_t& c)
  {
    const ivec s2 = small_invertible(c.rng, std::exp(c.rng.unit() * 5));
    const double f = c.rng.below(2) ? c.rng.unit() * 1.2 : std::exp(c.rng.unit() * 5 - 2);
    int64_t t = static_cast<int64_t>(f * static_cast<double>(ref::beta2(N))) - ref::sqnorm(s2);
    craft(c, with_norm(c.rng, std::max<int64_t>(t, 0)), s2, "random norm", c.rng.below(300));
    if (c.idx < 2)
      vh::sample("N=%zu crafted norm %.0f (bound %ld), |s2|^2=%ld", N, f * static_cast<double>(ref::beta2(N)), ref::beta2(N), ref::sqnorm(s2));
  }
};

#define BOTH(name, q, t)                                                       \
  VH_SUITE(name##512, q, t) { V<512>::name(c); }                               \
  VH_SUITE(name##1024, q / 2, t / 2) { V<1024>::name(c); }

BOTH(bound, 2400, 60000)
BOTH(onesided, 200, 6000)
BOTH(blocks, 800, 20000)
BOTH(wrap, 1600, 60000)
BOTH(half, 1600, 40000)
BOTH(large, 2400, 60000)
BOTH(random, 2000, 60000)
BOTH(honest, 400, 20000)
VH_SUITE(position512, 2048, 8192)
{
  V<512>::position(c);
}
VH_SUITE(position1024, 4096, 16384)
{
  V<1024>::position(c);
}
VH_FINISH(reach)
{
  if (n_eq.total() == 0 || n_eq1.total() == 0 || n_acc.total() == 0 || n_wrap.total() == 0 || n_half.total() == 0 || n_big2.total() == 0)
    vh::note_fail("no-reach", "a class of crafted inputs was never produced (harness defect)");
}
