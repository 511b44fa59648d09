// 72-bit unsigned integers against unsigned __int128.
#include "vh.hpp"
#include "u72.hpp"

using u128 = unsigned __int128;
static const u128 M = (u128(1) << 72) - 1;
static u72::u72_t
mk(u128 v)
{
  return u72::u72_t{ static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v) };
}
static u128
val(const u72::u72_t& x)
{
  return (u128(x.hi) << 64) | x.lo;
}
#define P(v) static_cast<unsigned>((v) >> 64), static_cast<uint64_t>(v)

static vh::counter_t carries("additions carrying into the high limb"), borrows("subtractions borrowing from the high limb"),
  wraps("results wrapping modulo 2^72");

static void
pair(u128 a, u128 b)
{
  const auto x = mk(a), y = mk(b);
  const u128 s = val(x + y), d = val(x - y);
  VH_REQUIRE(s == ((a + b) & M), "add", "%02x:%016lx + %02x:%016lx gives %x:%016lx", P(a), P(b), P(s));
  VH_REQUIRE(d == ((a - b) & M), "sub", "%02x:%016lx - %02x:%016lx gives %x:%016lx", P(a), P(b), P(d));
  VH_REQUIRE((x < y) == (a < b), "less", "%02x:%016lx < %02x:%016lx", P(a), P(b));
  VH_REQUIRE((x > y) == (a > b), "greater", "%02x:%016lx > %02x:%016lx", P(a), P(b));
  VH_REQUIRE(val(x) == a && val(y) == b, "operand-changed", "%02x:%016lx, %02x:%016lx", P(a), P(b));
  if (((u128(uint64_t(a)) + uint64_t(b)) >> 64))
    carries++;
  if (uint64_t(a) < uint64_t(b))
    borrows++;
  if (a + b > M)
    wraps++;
  vh::eval(4);
  vh::distinct(vh::hash_bytes(&a, 16) * 3 + vh::hash_bytes(&b, 16));
}

static void
unary(u128 a)
{
  const auto x = mk(a);
  VH_REQUIRE(val(-x) == ((~a + 1) & M), "neg", "-%02x:%016lx gives %x:%016lx", P(a), P(val(-x)));
  std::array<uint8_t, 9> le, be;
  for (int i = 0; i < 9; i++) {
    le[i] = static_cast<uint8_t>(a >> (8 * i));
    be[8 - i] = le[i];
  }
  VH_REQUIRE(x.to_le_bytes() == le, "to-le", "%02x:%016lx", P(a));
  VH_REQUIRE(x.to_be_bytes() == be, "to-be", "%02x:%016lx", P(a));
  auto l2 = le, b2 = be;
  const u128 fl = val(u72::u72_t::from_le_bytes(std::move(l2)));
  const u128 fb = val(u72::u72_t::from_be_bytes(std::move(b2)));
  VH_REQUIRE(fl == a, "from-le", "%02x:%016lx gives %x:%016lx", P(a), P(fl));
  VH_REQUIRE(fb == a, "from-be", "%02x:%016lx gives %x:%016lx", P(a), P(fb));
  vh::eval(5);
  vh::distinct(vh::hash_bytes(&a, 16));
}

static std::vector<u128>
edge()
{
  std::vector<uint64_t> lo{ 0, 1, 2, 3 }, hi{ 0, 1, 2, 3, 126, 127, 128, 129, 253, 254, 255 };
  for (int k = 2; k < 64; k++)
    for (int d = -1; d <= 1; d++)
      lo.push_back((1ull << k) + static_cast<uint64_t>(d));
  lo.push_back(~0ull);
  lo.push_back(~0ull - 1);
  std::vector<u128> r;
  for (auto h : hi)
    for (auto l : lo)
      r.push_back((u128(h) << 64) | l);
  return r;
}

// All pairs of edge values.
VH_SUITE(edges, 256, 256)
{
  static const auto e = edge();
  for (size_t i = c.idx; i < e.size(); i += 256) {
    unary(e[i]);
    for (auto b : e)
      pair(e[i], b);
  }
  if (c.idx == 0)
    vh::sample("all pairs of %zu edge values (limb boundaries, powers of two +-1 x high bytes)", e.size());
}

VH_SUITE(random, 400, 20000)
{
  for (int k = 0; k < 2000; k++) {
    const u128 a = ((u128(c.rng.next()) << 64) | c.rng.next()) & M;
    u128 b = ((u128(c.rng.next()) << 64) | c.rng.next()) & M;
    switch (c.rng.below(6)) {
      case 0:
        b = (a + c.rng.below(3) - 1) & M;
        break; // neighbours
      case 1:
        b = (~a + c.rng.below(3)) & M;
        break; // near negation
      case 2:
        b = (b & ~u128(~0ull)) | uint64_t(a);
        break; // equal low limbs
      case 3:
        b = (a & ~u128(~0ull)) | uint64_t(b);
        break; // equal high limbs
      default:
        break;
    }
    unary(a);
    pair(a, b);
    if (k == 0 && c.idx < 2)
      vh::sample("%02x:%016lx (+,-,<,>) %02x:%016lx", P(a), P(b));
  }
}
