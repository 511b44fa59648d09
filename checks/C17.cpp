// Z_q arithmetic against plain integers, exhaustively.
#include "vh.hpp"
#include "ref.hpp"
#include "ff.hpp"
#include <cmath>
#include <sstream>

using ref::Q;
static const std::vector<int64_t>&
inverses()
{
  static std::vector<int64_t> t;
  if (t.empty())
    for (int64_t i = 0; i < Q; i++)
      t.push_back(ref::powmod(i, Q - 2)); // 0 -> 0
  return t;
}

// One left operand against every right operand.
VH_SUITE(pairs, 12289, 12289)
{
  const auto& inv = inverses();
  const int64_t a = static_cast<int64_t>(c.idx);
  const ff::ff_t x{ static_cast<uint16_t>(a) };
  for (int64_t b = 0; b < Q; b++) {
    const ff::ff_t y{ static_cast<uint16_t>(b) };
    const ff::ff_t s = x + y, d = x - y, m = x * y;
    VH_REQUIRE(s.v == (a + b) % Q, "add", "%ld + %ld gives %u", a, b, s.v);
    VH_REQUIRE(d.v == (a - b + Q) % Q, "sub", "%ld - %ld gives %u", a, b, d.v);
    VH_REQUIRE(m.v == a * b % Q, "mul", "%ld * %ld gives %u", a, b, m.v);
    ff::ff_t t = x;
    t += y;
    VH_REQUIRE(t.v == (a + b) % Q, "add-assign", "%ld += %ld gives %u", a, b, t.v);
    t = x;
    t *= y;
    VH_REQUIRE(t.v == a * b % Q, "mul-assign", "%ld *= %ld gives %u", a, b, t.v);
    const ff::ff_t q = x / y;
    VH_REQUIRE(q.v == a * inv[b] % Q, "div", "%ld / %ld gives %u", a, b, q.v);
    VH_REQUIRE((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) &&
                 (x > y) == (a > b) && (x >= y) == (a >= b),
               "compare", "%ld ? %ld", a, b);
    VH_REQUIRE(x.v == a && y.v == b, "operand-changed", "%ld, %ld", a, b);
  }
  vh::eval(7 * Q);
  vh::distinct_bulk(Q);
  // operand aliasing itself
  ff::ff_t t = x;
  t += t;
  VH_REQUIRE(t.v == 2 * a % Q, "add-assign", "self %ld gives %u", a, t.v);
  t = x;
  t *= t;
  VH_REQUIRE(t.v == a * a % Q, "mul-assign", "self %ld gives %u", a, t.v);
  VH_REQUIRE((-x).v == (Q - a) % Q, "neg", "-%ld gives %u", a, (-x).v);
  VH_REQUIRE(x.inv().v == inv[a], "inv", "1/%ld gives %u", a, x.inv().v);
  if (a % 3000 == 7)
    vh::sample("a=%ld: every b in [0,%ld): a+b, a-b, a*b, a/b and comparisons agree with integers; inv=%u", a, Q, x.inv().v);
}

VH_SUITE(construct, 1, 1)
{
  for (uint32_t v = 0; v < 65536; v++) {
    const ff::ff_t x{ static_cast<uint16_t>(v) };
    VH_REQUIRE(x.v == v % Q, "construct", "%u gives %u", v, x.v);
  }
  VH_REQUIRE(ff::ff_t{}.v == 0 && ff::ff_t::zero().v == 0 && ff::ff_t::one().v == 1, "construct", "constants");
  VH_REQUIRE(ff::Q == Q, "construct", "modulus %u", ff::Q);
  vh::eval(65539);
  vh::distinct_bulk(65536);
}

// Shifts act on the canonical residue (results that fit 16 bits), printing shows it.
VH_SUITE(shifts, 1, 1)
{
  for (uint32_t v = 0; v < static_cast<uint32_t>(Q); v++) {
    const ff::ff_t x{ static_cast<uint16_t>(v) };
    for (size_t l = 0; l < 16; l++) {
      const auto r = x >> l;
      VH_REQUIRE(r.v == v >> l, "shift", "%u >> %zu gives %u", v, l, r.v);
      if ((v << l) < 65536) {
        const auto w = x << l;
        VH_REQUIRE(w.v == (v << l) % Q, "shift", "%u << %zu gives %u", v, l, w.v);
      }
    }
    if (v % 7 == 0) {
      std::ostringstream os;
      os << x;
      VH_REQUIRE(os.str() == "Z_q(" + std::to_string(v) + ", 12289)", "print", "%u is printed as %s", v, os.str().c_str());
    }
  }
  vh::eval(32 * Q);
  vh::distinct_bulk(16 * Q);
}

// Random elements: canonical, uniform, independent from call to call.
static vh::acc_t a_rand(12289), a_next(64 * 64), a_n(1);
VH_SUITE(random, 64, 640)
{
  uint16_t last = 0;
  for (int i = 0; i < 16384; i++) {
    const ff::ff_t x = ff::ff_t::random();
    VH_REQUIRE(x.v < Q, "random-range", "random element %u", x.v);
    a_rand[x.v] += 1;
    if (i)
      a_next[(last * 64u / Q) * 64 + x.v * 64u / Q] += 1;
    last = x.v;
  }
  a_n[0] += 16384;
  vh::eval(16384);
}
static double
chi_z(double chi, double df)
{
  return (std::cbrt(chi / df) - (1 - 2 / (9 * df))) / std::sqrt(2 / (9 * df));
}
VH_FINISH(random_elements)
{
  const double n = a_n.total(0);
  if (n < 16384)
    return;
  double chi = 0, chi2 = 0, m = n * 16383 / 16384;
  for (size_t i = 0; i < 12289; i++)
    chi += std::pow(a_rand.total(i) - n / Q, 2) / (n / Q);
  double w[64] = {};
  for (uint32_t v = 0; v < static_cast<uint32_t>(Q); v++)
    w[v * 64 / Q] += 1.0 / Q;
  for (size_t i = 0; i < 64 * 64; i++) {
    const double e = m * w[i / 64] * w[i % 64];
    chi2 += std::pow(a_next.total(i) - e, 2) / e;
  }
  vh::sample("%.0f random elements: chi2 %.0f (12288 df), successive pairs %.0f (4095 df)", n, chi, chi2);
  if (std::abs(chi_z(chi, 12288)) > 8)
    vh::note_fail("random-not-uniform", "frequencies of %.0f random elements: chi2 %.0f with 12288 degrees of freedom", n, chi);
  if (std::abs(chi_z(chi2, 4095)) > 8)
    vh::note_fail("random-dependent", "successive random elements: chi2 %.0f with 4095 degrees of freedom", chi2);
}

static std::vector<uint64_t>
exponents(vh::rng_t& r, size_t extra)
{
  std::vector<uint64_t> e;
  for (uint64_t i = 0; i < 70; i++)
    e.push_back(i);
  for (uint64_t v : { Q - 2, Q - 1, Q, Q + 1, 2 * Q - 2, (Q - 1) / 2 })
    e.push_back(v);
  for (int k = 3; k < 64; k++)
    for (int d = -1; d <= 1; d++)
      e.push_back((1ull << k) + static_cast<uint64_t>(d));
  e.push_back(~0ull);
  e.push_back(~0ull - 1);
  for (size_t i = 0; i < extra; i++)
    e.push_back(r.next() >> r.below(64));
  return e;
}

// Every base with structured and random exponents.
VH_SUITE(power, 256, 256)
{
  const auto es = exponents(c.rng, vh::thorough ? 2000 : 60);
  for (int64_t a = static_cast<int64_t>(c.idx); a < Q; a += 256) {
    const ff::ff_t x{ static_cast<uint16_t>(a) };
    for (uint64_t e : es) {
      if (a == 0 && e == 0)
        continue;
      const ff::ff_t p = x ^ e;
      VH_REQUIRE(p.v == ref::powmod(a, e), "pow", "%ld ^ %lu gives %u", a, e, p.v);
      vh::distinct(vh::mix64(e) ^ static_cast<uint64_t>(a));
    }
    vh::eval(es.size());
  }
}
