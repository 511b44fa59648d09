// Complex FFT at every supported length against long double evaluation.
#include "vh.hpp"
#include "ref.hpp"
#include "fft.hpp"
#include "polynomial.hpp"
#include <utility>

using ref::cld;
using ref::ld;
using ref::rvec;
using cvec = std::vector<fft::cmplx>;
constexpr ld EPS = 0x1p-52L;

static vh::acc_t worst(1);

template<size_t LG>
struct T
{
  static constexpr size_t N = 1ul << LG;
  static cvec lib(const rvec& a)
  {
    cvec r(N);
    for (size_t i = 0; i < N; i++)
      r[i] = fft::cmplx{ static_cast<double>(a[i]) };
    return r;
  }
  static cvec fwd(const rvec& a)
  {
    cvec v = lib(a);
    fft::fft<LG>(v.data());
    return v;
  }
  // position -> k: the root exp(i*pi*(2k+1)/N) it is the value at
  static const std::vector<size_t>& order()
  {
    static std::vector<size_t> o;
    if (o.empty()) {
      rvec x(N, 0);
      x[1] = 1;
      const cvec r = fwd(x);
      std::vector<bool> seen(N);
      std::vector<size_t> t;
      for (size_t i = 0; i < N; i++) {
        ld a = std::arg(cld(r[i])) / acosl(-1.0L) * static_cast<ld>(N); // 2k+1
        if (a < 0)
          a += 2 * static_cast<ld>(N);
        const ld kk = (a - 1) / 2;
        const auto k = static_cast<int64_t>(std::llround(kk));
        VH_REQUIRE(k >= 0 && k < static_cast<int64_t>(N) && std::abs(kk - static_cast<ld>(k)) < 1e-9L && !seen[k] &&
                     std::abs(std::abs(cld(r[i])) - 1) < 1e-12L,
                   "roots", "N=%zu: image of x at position %zu is (%.17g, %.17g)", N, i, r[i].real(), r[i].imag());
        seen[k] = true;
        t.push_back(static_cast<size_t>(k));
      }
      o = t;
    }
    return o;
  }
  static std::vector<cld> want(const rvec& a)
  {
    auto e = ref::eval_c(a);
    std::vector<cld> r(N);
    for (size_t i = 0; i < N; i++)
      r[i] = e[order()[i]];
    return r;
  }
  static ld l2(const rvec& a)
  {
    ld t = 0;
    for (auto x : a)
      t += x * x;
    return sqrtl(t);
  }
  template<typename A, typename B>
  static void near(const A& got, const B& exp, ld tol, const char* key, const char* what)
  {
    for (size_t i = 0; i < got.size(); i++) {
      const ld e = std::abs(cld(got[i]) - cld(exp[i]));
      if (!(e <= tol))
        vh::fail(key, "N=%zu %s: position %zu is (%.17g,%.17g), expected (%.17Lg,%.17Lg), error %.3Lg > %.3Lg", N, what, i,
                 static_cast<double>(cld(got[i]).real()), static_cast<double>(cld(got[i]).imag()), cld(exp[i]).real(),
                 cld(exp[i]).imag(), e, tol);
      if (tol > 0 && e / tol > worst[0])
        worst[0] = static_cast<double>(e / tol);
    }
    vh::eval(got.size());
  }
  static rvec gen(vh::rng_t& r)
  {
    rvec a(N, 0);
    const double scale = std::exp((r.unit() * 80 - 40));
    switch (r.below(6)) {
      case 0:
        for (auto& x : a)
          x = static_cast<double>(r.range(-127, 127));
        break;
      case 1:
        for (int k = 0; k < 2; k++)
          a[r.below(N)] = static_cast<double>(r.range(-1000000, 1000000));
        break;
      case 2:
        for (auto& x : a)
          x = static_cast<double>(scale * r.gauss());
        break;
      case 3: // wide spread
        for (auto& x : a)
          x = static_cast<double>(r.gauss() * std::exp(r.unit() * 60 - 30));
        break;
      case 4:
        for (auto& x : a)
          x = static_cast<double>(r.range(-(1ll << 53), 1ll << 53));
        break;
      default: {
        const double v = scale;
        for (size_t i = 0; i < N; i++)
          a[i] = (r.below(2) ? v : -v);
      }
    }
    return a;
  }
  static void unit(size_t j)
  {
    rvec a(N, 0);
    a[j] = 1;
    const auto w = want(a);
    const ld tol = 4 * EPS * (LG + 1);
    const cvec e = fwd(a);
    near(e, w, tol, "forward", "unit vector");
    cvec v(N);
    for (size_t i = 0; i < N; i++)
      v[i] = fft::cmplx{ static_cast<double>(w[i].real()), static_cast<double>(w[i].imag()) };
    fft::ifft<LG>(v.data());
    near(v, a, tol, "inverse", "image of unit vector");
    // unit vector of values: coefficients conj(root^i)/N
    cvec u(N);
    u[j] = 1;
    fft::ifft<LG>(u.data());
    std::vector<cld> ex(N);
    const auto& rt = ref::roots2n(N);
    const size_t k = order()[j];
    for (size_t i = 0; i < N; i++)
      ex[i] = std::conj(rt[(2 * k + 1) * i % (2 * N)]) / static_cast<ld>(N);
    near(u, ex, tol / static_cast<ld>(N), "inverse", "unit vector of values");
    vh::distinct(N * 2048 + j);
  }
  static void full(vh::case_t& c)
  {
    const rvec a = gen(c.rng), b = gen(c.rng);
    const ld na = l2(a), nb = l2(b), sN = sqrtl(static_cast<ld>(N));
    const ld k = 6 * EPS * (LG + 1);
    const auto wa = want(a), wb = want(b);
    const cvec ea = fwd(a), eb = fwd(b);
    near(ea, wa, k * sN * na, "forward", "polynomial");
    cvec t = ea;
    fft::ifft<LG>(t.data());
    near(t, a, 2 * k * na, "inverse", "round trip");
    // pointwise operations on arbitrary complex values
    auto pointwise = [&](const char* key, auto&& libop, auto&& op) {
      cvec r(N, fft::cmplx{ 1e9 + 1, -3e8 });
      libop(ea.data(), eb.data(), r.data());
      for (size_t i = 0; i < N; i++) {
        const cld x(ea[i]), y(eb[i]);
        const auto [w, sc] = op(x, y);
        const ld e = std::abs(cld(r[i]) - w);
        VH_REQUIRE(e <= 8 * EPS * sc, key, "N=%zu position %zu: got (%.17g,%.17g) want (%.17Lg,%.17Lg)", N, i, r[i].real(), r[i].imag(), w.real(), w.imag());
      }
      vh::eval(N);
      return r;
    };
    pointwise("add", [](auto* x, auto* y, auto* r) { polynomial::add<LG>(x, y, r); },
              [](cld x, cld y) { return std::pair<cld, ld>{ x + y, std::abs(x) + std::abs(y) }; });
    pointwise("sub", [](auto* x, auto* y, auto* r) { polynomial::sub<LG>(x, y, r); },
              [](cld x, cld y) { return std::pair<cld, ld>{ x - y, std::abs(x) + std::abs(y) }; });
    cvec m = pointwise("mul", [](auto* x, auto* y, auto* r) { polynomial::mul<LG>(x, y, r); },
                       [](cld x, cld y) { return std::pair<cld, ld>{ x * y, std::abs(x) * std::abs(y) }; });
    bool nz = true;
    for (auto& y : eb)
      nz &= std::abs(y) > 1e-200;
    if (nz)
      pointwise("div", [](auto* x, auto* y, auto* r) { polynomial::div<LG>(x, y, r); },
                [](cld x, cld y) { return std::pair<cld, ld>{ x / y, std::abs(x) / std::abs(y) }; });
    cvec acc = ea;
    polynomial::add_to<LG>(acc.data(), eb.data());
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(std::abs(cld(acc[i]) - (cld(ea[i]) + cld(eb[i]))) <= 4 * EPS * (std::abs(cld(ea[i])) + std::abs(cld(eb[i]))), "add-to", "N=%zu position %zu", N, i);
    // ring product
    fft::ifft<LG>(m.data());
    near(m, ref::mul_r(a, b), 4 * k * sN * na * nb, "product", "a*b mod x^N+1");
    // adjoint
#ifndef VH_MINIMAL
    cvec ad = ea;
    fft::adj_poly<LG>(ad.data());
    near(ad, want(ref::adj(a)), k * sN * na, "adjoint", "a(1/x)");
#endif
    // split into even/odd, both at half length
    rvec e(N / 2), o(N / 2);
    for (size_t i = 0; i < N / 2; i++) {
      e[i] = a[2 * i];
      o[i] = a[2 * i + 1];
    }
    std::vector<cld> we, wo;
    if constexpr (LG == 1) {
      we = { cld(e[0]) };
      wo = { cld(o[0]) };
    } else {
      we = T<LG - 1>::want(e);
      wo = T<LG - 1>::want(o);
    }
    const fft::cmplx old{ -7e7, 9e9 }; // outputs hold something before
    cvec f0(N / 2, old), f1(N / 2, old), mg(N, old);
    fft::split_fft<LG>(ea.data(), f0.data(), f1.data());
    near(f0, we, 2 * k * sN * na, "split", "even part");
    near(f1, wo, 2 * k * sN * na, "split", "odd part");
    cvec h0(N / 2), h1(N / 2);
    for (size_t i = 0; i < N / 2; i++) {
      h0[i] = { static_cast<double>(we[i].real()), static_cast<double>(we[i].imag()) };
      h1[i] = { static_cast<double>(wo[i].real()), static_cast<double>(wo[i].imag()) };
    }
    fft::merge_fft<LG>(h0.data(), h1.data(), mg.data());
    near(mg, wa, 2 * k * sN * na, "merge", "merged");
    // complex coefficients, x = a + i b
    cvec z(N);
    std::vector<cld> wz(N), wad(N), ze, zo;
    for (size_t i = 0; i < N; i++) {
      z[i] = { static_cast<double>(a[i]), static_cast<double>(b[i]) };
      wz[i] = wa[i] + cld(0, 1) * wb[i];
      wad[i] = std::conj(wz[i]);
    }
    const ld nz2 = 2 * k * sN * (na + nb);
    const cvec z0 = z;
    fft::fft<LG>(z.data());
    near(z, wz, nz2, "forward", "complex polynomial");
    cvec zi = z;
    fft::ifft<LG>(zi.data());
    near(zi, z0, nz2, "inverse", "complex round trip");
#ifndef VH_MINIMAL
    cvec za = z;
    fft::adj_poly<LG>(za.data());
    near(za, wad, nz2, "adjoint", "complex polynomial");
#endif
    rvec be(N / 2), bo(N / 2);
    for (size_t i = 0; i < N / 2; i++) {
      be[i] = b[2 * i];
      bo[i] = b[2 * i + 1];
    }
    std::vector<cld> ve, vo;
    if constexpr (LG == 1) {
      ve = { cld(be[0]) };
      vo = { cld(bo[0]) };
    } else {
      ve = T<LG - 1>::want(be);
      vo = T<LG - 1>::want(bo);
    }
    for (size_t i = 0; i < N / 2; i++) {
      ze.push_back(we[i] + cld(0, 1) * ve[i]);
      zo.push_back(wo[i] + cld(0, 1) * vo[i]);
    }
    fft::split_fft<LG>(z.data(), f0.data(), f1.data());
    near(f0, ze, 2 * nz2, "split", "even part, complex");
    near(f1, zo, 2 * nz2, "split", "odd part, complex");
    for (size_t i = 0; i < N / 2; i++) {
      h0[i] = { static_cast<double>(ze[i].real()), static_cast<double>(ze[i].imag()) };
      h1[i] = { static_cast<double>(zo[i].real()), static_cast<double>(zo[i].imag()) };
    }
    fft::merge_fft<LG>(h0.data(), h1.data(), mg.data());
    near(mg, wz, 2 * nz2, "merge", "merged, complex");
    uint64_t h = LG;
    for (auto x : a) {
      const double d = static_cast<double>(x);
      h = vh::mix64(h ^ vh::hash_bytes(&d, 8));
    }
    vh::distinct(h);
    if (c.idx < 4)
      vh::sample("N=%zu |a|=%.3Lg |b|=%.3Lg: fft, ifft, split, merge, adjoint, add/sub/mul/div within bounds", N, na, nb);
  }
};

template<typename F>
static void
dispatch(size_t lg, F&& f)
{
  [&]<size_t... I>(std::index_sequence<I...>) { ((lg == I + 1 ? (f.template operator()<I + 1>(), 0) : 0), ...); }(std::make_index_sequence<10>{});
}

VH_SUITE(units, 2046, 2046) // all unit vectors of all lengths
{
  size_t j = c.idx, lg = 1;
  while (j >= (1ul << lg)) {
    j -= 1ul << lg;
    lg++;
  }
  dispatch(lg, [&]<size_t LG>() { T<LG>::unit(j); });
}
VH_SUITE(polys, 6000, 400000)
{
  dispatch(1 + c.idx % 10, [&]<size_t LG>() { T<LG>::full(c); });
}
