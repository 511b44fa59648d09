// Karatsuba over big integers against schoolbook multiplication.
#include "vh.hpp"
#include "karatsuba.hpp"
#include <utility>

template<size_t N>
using poly = std::array<mpz_class, N>;

static mpz_class
rnd_bits(vh::rng_t& r, size_t bits)
{
  mpz_class z = 0;
  for (size_t i = 0; i < bits; i += 64) {
    const uint64_t w = r.below(8) == 0 ? (r.below(2) ? ~0ull : 0ull) : r.next();
    z <<= 64;
    z += mpz_class(static_cast<unsigned long>(w));
  }
  mpz_class m = 1;
  m <<= bits;
  z %= m;
  return z;
}
static mpz_class
coeff(vh::rng_t& r, int kind, size_t bits)
{
  mpz_class z;
  switch (kind) {
    case 0: // small
      z = static_cast<long>(r.range(-20, 20));
      return z;
    case 1: { // around limb boundaries
      z = 1;
      z <<= 64 * r.below(bits / 64 + 1);
      z += static_cast<long>(r.range(-2, 2));
      break;
    }
    case 2: // mixed magnitudes
      z = rnd_bits(r, 1 + r.below(bits));
      break;
    case 3: // sparse
      z = r.below(8) ? mpz_class(0) : rnd_bits(r, bits);
      break;
    case 4: // all ones
      z = 1;
      z <<= bits;
      z -= 1;
      break;
    default:
      z = rnd_bits(r, bits);
  }
  if (r.below(2))
    z = -z;
  return z;
}

static vh::counter_t sizes[11] = {
  vh::counter_t("products of length 1"), vh::counter_t("length 2"), vh::counter_t("length 4"), vh::counter_t("length 8"),
  vh::counter_t("length 16"), vh::counter_t("length 32"), vh::counter_t("length 64"), vh::counter_t("length 128"),
  vh::counter_t("length 256"), vh::counter_t("length 512"), vh::counter_t("length 1024")
};

template<size_t N>
static void
one(vh::case_t& c, size_t bits, bool square)
{
  const int ka = static_cast<int>(c.rng.below(6)), kb = static_cast<int>(c.rng.below(6));
  auto a = std::make_unique<poly<N>>(), b = std::make_unique<poly<N>>();
  for (size_t i = 0; i < N; i++) {
    (*a)[i] = coeff(c.rng, ka, bits);
    (*b)[i] = square ? (*a)[i] : coeff(c.rng, kb, bits);
  }
  if (c.rng.below(10) == 0) { // single non-zero coefficient
    for (auto& x : *a)
      x = 0;
    (*a)[c.rng.below(N)] = coeff(c.rng, 5, bits);
    if (square)
      *b = *a;
  }
  const auto a0 = *a, b0 = *b;
  std::vector<mpz_class> want(2 * N);
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < N; j++)
      mpz_addmul(want[i + j].get_mpz_t(), (*a)[i].get_mpz_t(), (*b)[j].get_mpz_t());
#ifndef VH_MINIMAL
  const auto full = square ? karatsuba::karatsuba<N>(*a, *a) : karatsuba::karatsuba<N>(*a, *b);
  for (size_t i = 0; i < 2 * N; i++)
    VH_REQUIRE(full[i] == want[i], "product", "N=%zu bits=%zu kinds %d,%d: coefficient %zu is wrong", N, bits, ka, kb, i);
#endif
  const auto red = square ? karatsuba::karamul<N>(*a, *a) : karatsuba::karamul<N>(*a, *b);
  for (size_t i = 0; i < N; i++)
    VH_REQUIRE(red[i] == want[i] - want[N + i], "reduced-product", "N=%zu bits=%zu kinds %d,%d: coefficient %zu is wrong", N, bits, ka, kb, i);
  VH_REQUIRE(*a == a0 && *b == b0, "operand-changed", "N=%zu", N);
  vh::eval(3 * N);
  sizes[std::countr_zero(N)]++;
  uint64_t h = N * 31 + bits;
  for (auto& x : *a)
    h = vh::mix64(h ^ x.get_ui() ^ (mpz_size(x.get_mpz_t()) << 50));
  for (auto& x : *b)
    h = vh::mix64(h ^ x.get_ui());
  vh::distinct(h);
  if (c.idx % 97 == 0)
    vh::sample("N=%zu coefficients up to %zu bits, kinds %d/%d%s: product and reduced product equal schoolbook", N, bits, ka, kb, square ? " (squared)" : "");
}

template<typename F>
static void
dispatch(size_t lg, F&& f)
{
  [&]<size_t... I>(std::index_sequence<I...>) { ((lg == I ? (f.template operator()<(1ul << I)>(), 0) : 0), ...); }(std::make_index_sequence<11>{});
}

VH_SUITE(small, 6000, 200000)
{
  const size_t bits[]{ 1, 8, 31, 63, 64, 65, 127, 128, 200, 1000, 5000 };
  dispatch(c.idx % 6, [&]<size_t N>() { one<N>(c, bits[c.rng.below(11)], c.rng.below(5) == 0); });
}
VH_SUITE(medium, 300, 6000)
{
  const size_t bits[]{ 5, 30, 63, 64, 65, 300, 2000 };
  dispatch(6 + c.idx % 3, [&]<size_t N>() { one<N>(c, bits[c.rng.below(7)], c.rng.below(5) == 0); });
}
VH_SUITE(large, 32, 600)
{
  const size_t bits[]{ 5, 8, 30, 64, 130 };
  dispatch(9 + c.idx % 2, [&]<size_t N>() { one<N>(c, bits[c.rng.below(5)], c.rng.below(5) == 0); });
}
