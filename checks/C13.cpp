// Rejection probabilities: approx_exp against long-double exp, and the exact
// acceptance threshold of the Bernoulli trial recovered by bisection over the
// random tape, for both versions (bytes given / bytes read from a generator).
#include "glue.hpp"
using namespace glue;

// The product routine, if the library (still) has one by that name.
namespace absent {
struct none
{};
none full_mul_u64(...);
}
namespace probe {
using namespace samplerz;
using namespace absent;
template<typename T>
inline auto
product(T a, T b)
{
  return full_mul_u64(a, b);
}
}
static vh::counter_t n_prod("products_compared"), n_exp("approximations_compared"), n_thr("thresholds_recovered"), n_call("tapes_played"), n_ln2("points_beside_multiples_of_ln2"), n_mc("trials_with_real_generator"), n_mono("monotonicity_probes");
static vh::acc_t mc(4);

constexpr long double L2 = 0.693147180559945309417232121458176568L;
using ld = long double;

static void
exp_one(double x, double ccs)
{
#ifndef VH_MINIMAL
  const uint64_t y = samplerz::approx_exp(x, ccs);
  const ld want = 0x1p63L * static_cast<ld>(ccs) * std::exp(-static_cast<ld>(x));
  const ld e = std::fabs(static_cast<ld>(y) - want);
  VH_REQUIRE(e <= want * 0x1p-40L, "approx-exp", "x=%.17g ccs=%.17g: %lu, must be %.6Lf (relative error %.3Lg)", x, ccs, y, want, e / want);
  n_exp++;
#endif
  vh::eval();
}
static double
rx(vh::rng_t& r)
{
  switch (r.below(6)) {
    case 0:
      return r.unit() * std::exp2(-1. - static_cast<double>(r.below(64)));
    case 1: {
      double x = static_cast<double>(L2);
      for (uint64_t i = r.below(6); i; i--)
        x = std::nextafter(x, 0.);
      return std::min(x, 0.6931471805599453);
    }
    case 2: // one set bit, or all low bits set
      return std::min(0.693147, std::exp2(-1. - static_cast<double>(r.below(62))) * (r.below(2) ? 1 : 1 - 0x1p-53));
    case 3:
      return 0;
    default:
      return r.unit() * 0.6931471805599453;
  }
}
static double
rc(vh::rng_t& r)
{
  switch (r.below(6)) {
    case 0:
      return 0.5;
    case 1:
      return 1;
    case 2:
      return 1 - 0x1p-53 * static_cast<double>(1 + r.below(4));
    case 3: // what samplerz uses
      return ref::sigma_min(r.below(2) ? 512 : 1024) / (1.2983 + r.unit() * (1.8205 - 1.2983));
    default:
      return 0.5 + r.unit() / 2;
  }
}
template<typename T>
static void
products(vh::case_t& c)
{
  for (int i = 0; i < 2000; i++) {
    T v[2];
    for (auto& x : v) {
      x = c.rng.next();
      switch (c.rng.below(8)) {
        case 0:
          x |= 0xffffffffull;
          break;
        case 1:
          x |= 0xffffffff00000000ull;
          break;
        case 2:
          x >>= c.rng.below(64);
          break;
        case 3:
          x = ~(x >> c.rng.below(64));
          break;
        case 4:
          x = (1ull << c.rng.below(64)) + c.rng.below(3) - 1;
          break;
        default:;
      }
    }
    if constexpr (requires { probe::product(v[0], v[1]).first; }) {
      const auto g = probe::product(v[0], v[1]);
      const auto w = static_cast<unsigned __int128>(v[0]) * v[1];
      VH_REQUIRE(g.first == static_cast<uint64_t>(w >> 64) && g.second == static_cast<uint64_t>(w), "product", "%lu * %lu = %lu*2^64 + %lu, got %lu*2^64 + %lu", v[0], v[1], static_cast<uint64_t>(w >> 64),
                 static_cast<uint64_t>(w), static_cast<uint64_t>(g.first), static_cast<uint64_t>(g.second));
      n_prod++;
      vh::eval();
    }
  }
  vh::distinct_bulk(2000);
}
VH_SUITE(products, 400, 20000)
{
  products<uint64_t>(c);
}
VH_SUITE(approx, 2000, 100000)
{
  for (int i = 0; i < 500; i++) {
    const double x = rx(c.rng), ccs = rc(c.rng);
    exp_one(x, ccs);
    if (i < 50)
      vh::distinct(vh::hash_bytes(&x, 8, vh::hash_bytes(&ccs, 8)));
  }
}
VH_SUITE(approx_grid, 64, 64) // even grid, fine enough to see a bad polynomial coefficient anywhere
{
  for (int i = 0; i < 4096; i++) {
    const double x = 0.6931471805599453 * ((static_cast<double>(c.idx) * 4096 + i) / (64. * 4096 - 1));
    exp_one(x, 1);
    exp_one(x, 0.5);
  }
  vh::distinct_bulk(4096);
}

struct tape_t : vhook::source_t
{
  uint8_t b[8];
  size_t i = 0;
  void fill(uint8_t* p, size_t n) override
  {
    for (size_t k = 0; k < n; k++)
      p[k] = i < 8 ? b[i++] : 0;
  }
};
static bool
accept(double x, double ccs, uint64_t t, bool gen)
{
  n_call++;
  tape_t s;
  for (int k = 0; k < 8; k++)
    s.b[k] = static_cast<uint8_t>(t >> (56 - 8 * k));
  if (gen) {
    static prng::prng_t rng;
    with_source w(s);
    return samplerz::ber_exp(x, ccs, rng) == 1;
  }
  const auto [r, n] = samplerz::ber_exp(x, ccs, static_cast<const uint8_t*>(s.b), 8);
  VH_REQUIRE(n >= 1 && n <= 8, "tape-over-read", "x=%.17g ccs=%.17g: consumed %zu bytes", x, ccs, n);
  return r == 1;
}
static void
threshold(vh::rng_t& r, double x, double ccs, bool gen)
{
  // smallest tape that is refused
  uint64_t lo = 0, hi = ~0ull; // all below lo accepted, hi refused (2^64-1 is always refused: ties are)
  bool never = !accept(x, ccs, 0, gen);
  uint64_t z = 0;
  if (!never) {
    if (accept(x, ccs, hi, gen)) {
      vh::fail("bernoulli", "x=%.17g ccs=%.17g (%s): accepts even the largest tape", x, ccs, gen ? "generator" : "bytes");
    }
    while (hi - lo > 1) {
      const uint64_t m = lo + (hi - lo) / 2;
      (accept(x, ccs, m, gen) ? lo : hi) = m;
    }
    z = hi;
  }
  const ld p = static_cast<ld>(ccs) * std::exp(-static_cast<ld>(x)), got = static_cast<ld>(z) * 0x1p-64L;
  VH_REQUIRE(std::fabs(got - p) <= p * 0x1p-40L + 0x1p-60L, "bernoulli", "x=%.17g ccs=%.17g (%s): accepts with probability %.15Lg, must be %.15Lg (relative error %.3Lg)", x, ccs, gen ? "generator" : "bytes", got, p,
             std::fabs(got - p) / p);
  n_thr++;
  vh::eval();
  vh::distinct(vh::hash_bytes(&x, 8, vh::hash_bytes(&ccs, 8)));
  // one threshold only
  for (int i = 0; i < 6; i++) {
    uint64_t t = r.next();
    if (i == 0)
      t = z ? z - 1 : 0;
    else if (i == 1)
      t = z;
    else if (i < 4)
      t = z ^ (1ull << r.below(64));
    VH_REQUIRE(accept(x, ccs, t, gen) == (t < z), "bernoulli-not-monotone", "x=%.17g ccs=%.17g (%s): tape %016lx, threshold %016lx", x, ccs, gen ? "generator" : "bytes", t, z);
    n_mono++;
  }
}
static double
bigx(vh::rng_t& r)
{
  switch (r.below(7)) {
    case 0: { // beside k ln 2
      n_ln2++;
      const uint64_t k = r.below(3) ? r.below(70) : r.below(6196328018ull);
      double x = static_cast<double>(static_cast<ld>(k) * L2);
      for (int64_t i = r.range(-4, 4); i; i += i < 0 ? 1 : -1)
        x = std::nextafter(x, i < 0 ? -1. : 1e300);
      return std::min(std::max(x, 0.), 4294967296.);
    }
    case 1:
      return r.unit() * 120;
    case 5: { // floor(x / ln 2) just past a power of two: a narrower integer wraps to a small shift
      const ld k = std::exp2(static_cast<ld>(r.range(6, 32))) * static_cast<ld>(1 + r.below(3)) + static_cast<ld>(r.below(12));
      return std::min(4294967296., static_cast<double>((k + static_cast<ld>(r.unit())) * L2));
    }
    case 2:
      return std::min(4294967296., std::exp2(r.unit() * 32));
    case 3:
      return r.below(2) ? 4294967296. : static_cast<double>(r.next() >> 32);
    default:
      return r.unit() * 12;
  }
}
VH_SUITE(bernoulli, 3000, 150000)
{
  for (int i = 0; i < 60; i++)
    threshold(c.rng, bigx(c.rng), rc(c.rng), i & 1);
}
VH_SUITE(multiples_of_ln2, 70, 70) // k ln 2, every k that matters, +-40 ulp
{
  double x = static_cast<double>(static_cast<ld>(c.idx) * L2);
  for (int i = 0; i < 40; i++)
    x = std::nextafter(x, -1.);
  for (int i = -40; i <= 40; i++, x = std::nextafter(x, 1e300)) {
    if (x < 0)
      continue;
    threshold(c.rng, x, 1, i & 1);
    threshold(c.rng, x, 0.7337, !(i & 1));
    n_ln2.add(2);
  }
}
// with the real generator: acceptance counts
VH_SUITE(real, 200, 8000)
{
  const double x = c.rng.unit() * 3, ccs = rc(c.rng);
  const double p = ccs * std::exp(-x);
  prng::prng_t rng;
  double k = 0;
  const double n = 20000;
  for (int i = 0; i < n; i++)
    k += samplerz::ber_exp(x, ccs, rng) == 1;
  const double z = (k - n * p) / std::sqrt(n * p * (1 - p) + 1);
  VH_REQUIRE(std::fabs(z) < 7.5, "acceptance-rate", "x=%.9g ccs=%.9g: accepted %.0f of %.0f, probability %.6f (z=%.1f)", x, ccs, k, n, p, z);
  mc[0] += z;
  mc[1] += z * z;
  mc[2]++;
  n_mc.add(static_cast<uint64_t>(n));
  vh::eval();
}
VH_FINISH(real_pooled)
{
  const double n = mc.total(2);
  if (n < 50)
    return;
  if (std::fabs(mc.total(0)) / std::sqrt(n) > 7.5)
    vh::note_fail("acceptance-rate", "pooled acceptance rate off (z=%.1f)", mc.total(0) / std::sqrt(n));
  vh::sample("%.0f acceptance-rate experiments: pooled z=%.2f, mean z^2=%.2f", n, mc.total(0) / std::sqrt(n), mc.total(1) / n);
}
