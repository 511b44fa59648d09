#pragma once
// Steering: random tapes that make the library's own samplers return chosen
// integers, so that key generation meets chosen candidate pairs and signing
// chosen (possible, however improbable) lattice vectors. Nothing is replaced in
// the library: every value is one the tape makes its integer sampler accept.
#include "glue.hpp"
#include <functional>

namespace steer {

using ref::ivec;
using u128 = unsigned __int128;

// Reverse cumulative table of the base sampler (specification, table 3.1).
inline const std::vector<u128>&
rcdt()
{
  static const std::vector<u128> t = [] {
    const char* d[] = { "3024686241123004913666", "1564742784480091954050", "636254429462080897535", "199560484645026482916", "47667343854657281903", "8595902006365044063",
                        "1163297957344668388", "117656387352093658", "8867391802663976", "496969357462633", "20680885154299", "638331848991", "14602316184", "247426747", "3104126",
                        "28824", "198", "1" };
    std::vector<u128> v;
    for (auto s : d) {
      u128 x = 0;
      for (auto p = s; *p; p++)
        x = 10 * x + static_cast<u128>(*p - '0');
      v.push_back(x);
    }
    return v;
  }();
  return t;
}

// Makes the k-th call of the integer sampler return floor(mu) + z[k]. When the
// values are used up: sound randomness, or an exception if `stop`.
struct script_t : vhook::source_t
{
  vh::rng_t r;
  std::vector<int> z;
  size_t at = 0;
  bool stop, on = false;
  bool want_sign = false;
  uint8_t sign = 0;
  uint64_t over = 0; // bytes handed out after the end
  explicit script_t(uint64_t seed, bool stop = false)
    : r(seed)
    , stop(stop)
  {
  }
  void base(uint8_t* b)
  {
    const int v = z[at++];
    const int z0 = v > 0 ? v - 1 : -v;
    sign = v > 0;
    // uniform in the table cell of z0
    const auto& t = rcdt();
    const u128 lo = z0 >= 18 ? 0 : t[static_cast<size_t>(z0)], hi = z0 == 0 ? u128(1) << 72 : t[static_cast<size_t>(z0 - 1)];
    u128 x = 0;
    for (int i = 0; i < 2; i++)
      x = x << 64 | r.next();
    const u128 u = lo + x % (hi - lo);
    for (int i = 0; i < 9; i++)
      b[i] = static_cast<uint8_t>(u >> (8 * i));
  }
  void fill(uint8_t* b, size_t n) override
  {
    if (n >= 9 && n <= 16) { // a base sample begins
      on = at < z.size();
      if (!on && stop)
        throw vhook::budget_exceeded{ 0 };
      if (on) {
        base(b);
        want_sign = n == 9;
        if (n > 9)
          b[9] = static_cast<uint8_t>((r.next() & 0xfe) | sign);
        for (size_t i = 10; i < n; i++)
          b[i] = 0;
        return;
      }
    } else if (on && n < 9) {
      memset(b, 0, n); // accepts
      if (want_sign) {
        b[0] = static_cast<uint8_t>((r.next() & 0xfe) | sign);
        want_sign = false;
      }
      return;
    }
    if (at >= z.size() && n < 40)
      over += n;
    r.fill(b, n);
  }
};

// Does the library's integer sampler follow a script? (It does whatever it makes
// of the tape, as long as it draws 9-byte base samples, a sign and then bytes to
// compare; were it to draw differently, steering is not available.)
inline bool
sampler_obeys()
{
  static const bool ok = [] {
    bool good = true;
    for (int i = 0; i < 3; i++) {
      script_t s(99 + static_cast<uint64_t>(i));
      for (int v = -12; v <= 13; v++)
        s.z.push_back(v);
      prng::prng_t rng;
      glue::with_source w(s);
      for (int v = -12; v <= 13; v++) {
        const double mu = -7.7 + 0.3 * v + i;
        good &= samplerz::samplerz(mu, 1.3 + 0.15 * i, 1.2778, rng) == static_cast<int>(std::floor(mu)) + v;
      }
      good &= s.over == 0;
    }
    return good;
  }();
  return ok;
}
// Which of a leaf's two values is drawn first (1: that of t0; 2: of t1; 0: no idea).
template<size_t N>
inline int
leaf_order()
{
#ifndef VH_MINIMAL
  static const int o = [] {
    if (!sampler_obeys())
      return 0;
    constexpr size_t LG = N == 512 ? 9 : 10;
    script_t s(5, true);
    s.z = { 3, -4 };
    fft::cmplx t0[1]{ 0.25 }, t1[1]{ 10.5 }, T[1]{ 1.5 }, z0[1]{}, z1[1]{};
    prng::prng_t rng;
    glue::with_source w(s);
    try {
      ffsampling::ff_sampling<1, LG, LG>(t0, t1, T, ref::sigma_min(N), z0, z1, rng);
    } catch (const vhook::budget_exceeded&) {
      return 0;
    }
    if (z0[0].real() == 3 && z1[0].real() == 6)
      return 1;
    if (z0[0].real() == -4 && z1[0].real() == 13)
      return 2;
    return 0;
  }();
  return o;
#else
  return 0; // ff_sampling isn't there
#endif
}

// ------------------------------------------------------------ key generation
// Draws for the polynomial a: each coefficient is a sum of 4096/N samples.
inline void
add_poly(script_t& s, const ivec& a)
{
  const size_t k = 4096 / a.size();
  std::vector<int> d(k);
  for (auto v : a) {
    if (std::abs(v) > 12 * static_cast<int64_t>(k))
      throw std::logic_error("steer: coefficient out of the sampler's reach");
    for (size_t tries = 0;; tries++) {
      int64_t sum = 0;
      for (auto& x : d) {
        x = (tries < 64 ? static_cast<int>(s.r.below(5)) - 2 : 0) + static_cast<int>(v / static_cast<int64_t>(k));
        sum += x;
      }
      // spread what is missing
      for (size_t i = 0; sum != v; i = (i + 1) % k) {
        const int st = sum < v ? 1 : -1;
        d[i] += st;
        sum += st;
      }
      bool ok = true;
      for (auto x : d)
        ok &= std::abs(x) <= 12;
      if (ok)
        break;
    }
    s.z.insert(s.z.end(), d.begin(), d.end());
  }
}
inline void
add_pair(script_t& s, const ivec& f, const ivec& g)
{
  add_poly(s, f);
  add_poly(s, g);
}

// Does polynomial sampling follow a script of add_poly?
template<size_t N>
inline bool
poly_obeys()
{
#ifndef VH_MINIMAL
  static const bool ok = [] {
    if (!sampler_obeys())
      return false;
    const auto& k = ref::golden(N)[3];
    script_t s(8, true);
    add_poly(s, k.f);
    std::vector<int32_t> o(N, 99);
    prng::prng_t rng;
    glue::with_source w(s);
    try {
      ntru_gen::gen_poly<(N == 512 ? 9 : 10)>(o.data(), rng);
    } catch (const vhook::budget_exceeded&) {
      return false;
    }
    return ivec(o.begin(), o.end()) == k.f && s.at == s.z.size();
  }();
  return ok;
#else
  return false; // gen_poly isn't there
#endif
}

// Runs ntru_gen on the given candidates; true if it returned before asking for
// a further one, with the result in out[0..3] and the candidate's number in
// `which` (the number of the last candidate drawn).
template<size_t N>
inline bool
run_keygen(script_t& s, ivec out[4])
{
  std::vector<int32_t> o[4];
  for (auto& v : o)
    v.assign(N, 99);
  prng::prng_t rng;
  glue::with_source w(s);
  try {
    ntru_gen::ntru_gen<N>(o[0].data(), o[1].data(), o[2].data(), o[3].data(), rng);
  } catch (const vhook::budget_exceeded&) {
    return false;
  }
  for (int i = 0; i < 4; i++)
    out[i].assign(o[i].begin(), o[i].end());
  return true;
}
template<size_t N>
inline bool
candidates(uint64_t seed, const std::vector<std::pair<ivec, ivec>>& cs, ivec out[4], size_t& which)
{
  script_t s(seed, true);
  for (auto& [f, g] : cs)
    add_pair(s, f, g);
  if (!run_keygen<N>(s, out))
    return false;
  const size_t per = 2 * 4096;
  which = s.at ? (s.at - 1) / per : 0;
  return true;
}

// f with a zero exactly at the root with number `slot` (in the order of
// ref::eval_q), made from f by small changes of a few coefficients.
inline bool
kill(ivec& f, size_t slot, vh::rng_t& r)
{
  const size_t n = f.size();
  const int64_t psi = ref::psi(n), w = ref::powmod(psi, 2 * slot + 1);
  int64_t v = 0;
  for (size_t i = n; i-- > 0;)
    v = ref::mod(v * w + f[i]);
  if (v == 0)
    return true;
  size_t p[4];
  int64_t e[4];
  for (int i = 0; i < 4; i++) {
    for (bool again = true; again;) {
      p[i] = r.below(n);
      again = false;
      for (int k = 0; k < i; k++)
        again |= p[k] == p[i];
    }
    e[i] = ref::powmod(w, p[i]);
  }
  for (int a = -6; a <= 6; a++)
    for (int b = -6; b <= 6; b++)
      for (int c = -6; c <= 6; c++)
        for (int d = -6; d <= 6; d++)
          if (ref::mod(v + a * e[0] + b * e[1] + c * e[2] + d * e[3]) == 0) {
            f[p[0]] += a;
            f[p[1]] += b;
            f[p[2]] += c;
            f[p[3]] += d;
            return true;
          }
  return false;
}

// ------------------------------------------------------------------- signing
// The values floor(mu) + z of all 2N sampler calls of one attempt on target c,
// for which the resulting vector (s1, s2) is (d1, d2) plus Gaussian noise of
// `width` times the leaf's standard deviation.
template<size_t N>
struct plan_t
{
  std::vector<int> z; // relative to floor of the centre
  ivec s1, s2;        // the vector this attempt yields, exactly
  int64_t norm = 0;
  bool ok = true; // all values within the sampler's reach
};

namespace detail {
using fft::cmplx;
template<size_t n>
inline void
walk(const cmplx* t0, const cmplx* t1, const cmplx* u0, const cmplx* u1, const cmplx* T, size_t off, double width, vh::rng_t& r, cmplx* z0, cmplx* z1, std::vector<int>& out, bool& ok)
{
  if constexpr (n == 1) {
    const double sg = T[0].real();
    const cmplx* t[2] = { t0, t1 };
    const cmplx* u[2] = { u0, u1 };
    cmplx* z[2] = { z0, z1 };
    for (int i = 0; i < 2; i++) {
      const double g = std::sqrt(-2 * std::log(1 - r.unit())) * std::cos(2 * M_PI * r.unit());
      const double v = std::round(u[i][0].real() + width * sg * g), fl = std::floor(t[i][0].real());
      *z[i] = v;
      const double d = v - fl;
      ok &= d > -12 && d < 13;
      out.push_back(static_cast<int>(d));
    }
  } else {
    constexpr size_t h = n / 2, lg = std::bit_width(n) - 1;
    // the children of the node at T lie one level (= `off` further entries) on
    const cmplx *Tl = T + off, *Tr = Tl + h;
    std::vector<cmplx> a(h), b(h), c(h), d(h), za(h), zb(h), x(n), y(n), m(n);
    fft::split_fft<lg>(t1, a.data(), b.data());
    fft::split_fft<lg>(u1, c.data(), d.data());
    walk<h>(a.data(), b.data(), c.data(), d.data(), Tr, off, width, r, za.data(), zb.data(), out, ok);
    fft::merge_fft<lg>(za.data(), zb.data(), m.data());
    for (size_t i = 0; i < n; i++) {
      x[i] = t0[i] + (t1[i] - m[i]) * T[i];
      y[i] = u0[i] + (u1[i] - m[i]) * T[i];
      z1[i] = m[i];
    }
    fft::split_fft<lg>(x.data(), a.data(), b.data());
    fft::split_fft<lg>(y.data(), c.data(), d.data());
    walk<h>(a.data(), b.data(), c.data(), d.data(), Tl, off, width, r, za.data(), zb.data(), out, ok);
    fft::merge_fft<lg>(za.data(), zb.data(), m.data());
    for (size_t i = 0; i < n; i++)
      z0[i] = m[i];
  }
}
}

template<size_t N>
inline plan_t<N>
plan(const glue::prep<N>& p, const glue::basis& k, const ivec& c, const ivec& d1, const ivec& d2, double width, vh::rng_t& r)
{
  using fft::cmplx;
  constexpr size_t LG = glue::prep<N>::LG;
  auto tr = [](const ivec& a) {
    std::vector<cmplx> v(a.begin(), a.end());
    fft::fft<LG>(v.data());
    return v;
  };
  ivec e1(N);
  for (size_t i = 0; i < N; i++)
    e1[i] = c[i] - d1[i];
  const auto C = tr(c), E = tr(e1), D = tr(d2), f = tr(k.f), g = tr(k.g), F = tr(k.F), G = tr(k.G);
  // (a, b) * B^-1 = (a, b) * [[-F, f], [-G, g]] / q
  std::vector<cmplx> t0(N), t1(N), u0(N), u1(N), z0(N), z1(N);
  const double q = ref::Q;
  for (size_t i = 0; i < N; i++) {
    t0[i] = -C[i] * F[i] / q;
    t1[i] = C[i] * f[i] / q;
    u0[i] = (-E[i] * F[i] + D[i] * G[i]) / q;
    u1[i] = (E[i] * f[i] - D[i] * g[i]) / q;
  }
  plan_t<N> o;
  detail::walk<N>(t0.data(), t1.data(), u0.data(), u1.data(), p.T.get(), N, width, r, z0.data(), z1.data(), o.z, o.ok);
  if (leaf_order<N>() == 2)
    for (size_t i = 0; i < o.z.size(); i += 2)
      std::swap(o.z[i], o.z[i + 1]);
  fft::ifft<LG>(z0.data());
  fft::ifft<LG>(z1.data());
  ivec Z0(N), Z1(N);
  for (size_t i = 0; i < N; i++) {
    Z0[i] = llround(z0[i].real());
    Z1[i] = llround(z1[i].real());
  }
  // (s1, s2) = (c, 0) - (z0, z1) * [[g, -f], [G, -F]]
  const ivec a = ref::mul_z(Z0, k.g), b = ref::mul_z(Z1, k.G), x = ref::mul_z(Z0, k.f), y = ref::mul_z(Z1, k.F);
  o.s1.resize(N);
  o.s2.resize(N);
  for (size_t i = 0; i < N; i++) {
    o.s1[i] = c[i] - a[i] - b[i];
    o.s2[i] = x[i] + y[i];
  }
  o.norm = ref::sqnorm(o.s1) + ref::sqnorm(o.s2);
  return o;
}

}
