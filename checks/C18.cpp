// NTT over Z_q: evaluation at the roots of x^N+1, by definition.
#include "vh.hpp"
#include "ref.hpp"
#include "ntt.hpp"
#include "polynomial.hpp"

using ref::ivec;
using ref::Q;

template<size_t N>
struct T
{
  static constexpr size_t LG = N == 512 ? 9 : 10;
  static std::vector<ff::ff_t> lib(const ivec& a)
  {
    std::vector<ff::ff_t> r(N);
    for (size_t i = 0; i < N; i++)
      r[i] = ff::ff_t{ static_cast<uint16_t>(a[i]) };
    return r;
  }
  static ivec out(const std::vector<ff::ff_t>& a)
  {
    ivec r(N);
    for (size_t i = 0; i < N; i++) {
      VH_REQUIRE(a[i].v < Q, "non-canonical", "N=%zu position %zu holds %u", N, i, a[i].v);
      r[i] = a[i].v;
    }
    return r;
  }
  static ivec fwd(const ivec& a)
  {
    auto v = lib(a);
    ntt::ntt<LG>(v.data());
    return out(v);
  }
  static ivec inv(const ivec& a)
  {
    auto v = lib(a);
    ntt::intt<LG>(v.data());
    return out(v);
  }
  // which root each output position evaluates at (from the image of x)
  static const std::vector<size_t>& order()
  {
    static std::vector<size_t> o;
    if (o.empty()) {
      ivec x(N, 0);
      x[1] = 1;
      const ivec r = fwd(x);
      std::vector<int> at(Q, -1);
      int64_t p = ref::psi(N);
      const int64_t p2 = p * p % Q;
      for (size_t k = 0; k < N; k++, p = p * p2 % Q)
        at[p] = static_cast<int>(k);
      std::vector<size_t> t;
      std::vector<bool> seen(N);
      for (size_t i = 0; i < N; i++) {
        VH_REQUIRE(at[r[i]] >= 0 && !seen[at[r[i]]], "roots", "N=%zu: image of x at position %zu is %ld, not a new root of x^N+1", N, i, r[i]);
        seen[at[r[i]]] = true;
        t.push_back(static_cast<size_t>(at[r[i]]));
      }
      o = t;
    }
    return o;
  }
  static ivec want(const ivec& a)
  {
    const ivec e = ref::eval_q(a);
    ivec r(N);
    const auto& o = order();
    for (size_t i = 0; i < N; i++)
      r[i] = e[o[i]];
    return r;
  }
  static void same(const ivec& got, const ivec& exp, const char* key, const char* what)
  {
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(got[i] == exp[i], key, "N=%zu %s: position %zu is %ld, expected %ld", N, what, i, got[i], exp[i]);
    vh::eval(N);
  }
  static ivec gen(vh::rng_t& r)
  {
    ivec a(N, 0);
    switch (r.below(7)) {
      case 0: {
        const auto v = r.below(2) ? Q - 1 : r.range(0, Q - 1);
        for (auto& x : a)
          x = v;
        break;
      }
      case 1: // sparse
        for (int k = 0; k < 3; k++)
          a[r.below(N)] = r.range(1, Q - 1);
        break;
      case 2: // extremes
        for (auto& x : a)
          x = r.below(2) ? Q - 1 : (r.below(2) ? 0 : (Q - 1) / 2 + r.range(0, 1));
        break;
      case 3: // small centred
        for (auto& x : a)
          x = ref::mod(r.range(-200, 200));
        break;
      default:
        for (auto& x : a)
          x = r.range(0, Q - 1);
    }
    return a;
  }
  static void unit(size_t j, vh::rng_t& r)
  {
    for (int64_t s : { int64_t(1), Q - 1, r.range(2, Q - 2) }) {
      ivec a(N, 0);
      a[j] = s;
      same(fwd(a), want(a), "forward", "unit vector");
      same(inv(want(a)), a, "inverse", "image of unit vector");
      // unit vector in the transformed domain
      const ivec p = inv(a);
      same(want(p), a, "inverse", "unit vector of values");
      vh::distinct(vh::mix64(N * 100000000ull + j * Q + s));
    }
  }
  static void full(vh::case_t& c)
  {
    const ivec a = gen(c.rng), b = gen(c.rng);
    const ivec ea = fwd(a), eb = fwd(b);
    same(ea, want(a), "forward", "polynomial");
    same(inv(ea), a, "inverse", "round trip");
    // linearity
    const int64_t s = c.rng.range(0, Q - 1);
    ivec l(N), el(N);
    for (size_t i = 0; i < N; i++) {
      l[i] = (a[i] * s + b[i]) % Q;
      el[i] = (ea[i] * s + eb[i]) % Q;
    }
    same(fwd(l), el, "linearity", "s*a+b");
    // pointwise operations
    auto va = lib(ea), vb = lib(eb), vc = lib(ivec(N, c.rng.range(0, Q - 1)));
    polynomial::mul<LG>(va.data(), vb.data(), vc.data());
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(vc[i].v == ea[i] * eb[i] % Q, "pointwise-mul", "N=%zu position %zu", N, i);
    ntt::intt<LG>(vc.data());
    same(out(vc), ref::mul_q(a, b), "product", "a*b mod x^N+1");
    bool unitdiv = true;
    for (auto v : eb)
      unitdiv &= v != 0;
    auto vd = lib(ivec(N, c.rng.range(0, Q - 1)));
    polynomial::div<LG>(va.data(), vb.data(), vd.data());
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(vd[i].v == ea[i] * ref::powmod(eb[i], Q - 2) % Q, "pointwise-div", "N=%zu position %zu", N, i);
    if (unitdiv) {
      ntt::intt<LG>(vd.data());
      same(ref::mul_q(out(vd), b), a, "quotient", "(a/b)*b");
    }
    auto ve = va;
    polynomial::add_to<LG>(ve.data(), vb.data());
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(ve[i].v == (ea[i] + eb[i]) % Q, "pointwise-add", "N=%zu position %zu", N, i);
    ve = va;
    polynomial::neg<LG>(ve.data());
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(ve[i].v == (Q - ea[i]) % Q, "pointwise-neg", "N=%zu position %zu", N, i);
    vh::eval(4 * N);
    vh::distinct(vh::hash_bytes(a.data(), 8 * N) ^ vh::hash_bytes(b.data(), 8 * N));
    if (c.idx < 3)
      vh::sample("N=%zu a=[%ld,%ld,%ld..] b=[%ld,%ld,%ld..]: values at all roots, products, quotients agree", N, a[0], a[1], a[2], b[0], b[1], b[2]);
  }
};

// Pointwise operations at every pair of special values, at every position.
template<size_t LG>
static void
pairs(vh::case_t& c)
{
  constexpr size_t N = size_t(1) << LG;
  const int64_t sp[] = { 0, 1, 2, 3, 6143, 6144, 6145, 6146, 12286, 12287, 12288, c.rng.range(0, Q - 1) };
  ff::ff_t a[N], b[N], m[N], d[N], s[N], n[N];
  const size_t off = c.rng.below(144);
  for (size_t i = 0; i < N; i++) {
    const size_t k = (i * (1 + 2 * c.idx) + off + (i >> 7)) % 144; // covers every pair of (value, value)
    a[i] = ff::ff_t{ static_cast<uint16_t>(sp[k / 12]) };
    b[i] = ff::ff_t{ static_cast<uint16_t>(sp[k % 12]) };
    s[i] = a[i];
    n[i] = b[i];
    m[i] = d[i] = ff::ff_t{ static_cast<uint16_t>(c.rng.range(0, Q - 1)) }; // what was there before doesn't matter
  }
  polynomial::mul<LG>(a, b, m);
  polynomial::div<LG>(a, b, d);
  polynomial::add_to<LG>(s, b);
  polynomial::neg<LG>(n);
  for (size_t i = 0; i < N; i++) {
    const int64_t x = a[i].v, y = b[i].v;
    VH_REQUIRE(m[i].v == x * y % Q, "pointwise-mul", "N=%zu position %zu: %ld * %ld gives %d", N, i, x, y, m[i].v);
    VH_REQUIRE(d[i].v == x * ref::powmod(y, Q - 2) % Q, "pointwise-div", "N=%zu position %zu: %ld / %ld gives %d", N, i, x, y, d[i].v);
    VH_REQUIRE(s[i].v == (x + y) % Q, "pointwise-add", "N=%zu position %zu: %ld + %ld gives %d", N, i, x, y, s[i].v);
    VH_REQUIRE(n[i].v == (Q - y) % Q, "pointwise-neg", "N=%zu position %zu: -%ld gives %d", N, i, y, n[i].v);
  }
  vh::eval(4 * N);
  vh::distinct(vh::mix64(c.idx * 1000 + off * 2 + (LG & 1)));
}
VH_SUITE(special, 600, 20000)
{
  if (c.idx & 1)
    ::pairs<9>(c);
  else
    ::pairs<10>(c);
}

VH_SUITE(basis512, 512, 512)
{
  T<512>::unit(c.idx, c.rng);
}
VH_SUITE(basis1024, 1024, 1024)
{
  T<1024>::unit(c.idx, c.rng);
}
VH_SUITE(polys, 3000, 200000)
{
  if (c.idx & 1)
    T<512>::full(c);
  else
    T<1024>::full(c);
}
