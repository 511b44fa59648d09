// NTRU solver: exactness, failure exactly on common resultant factors,
// reduction invariance and shortness. All judgements in plain GMP integers.
#include "glue.hpp"
using namespace glue;

using zvec = std::vector<mpz_class>;
template<size_t N>
using zarr = std::array<mpz_class, N>;

static vh::counter_t n_sol("solved"), n_nosol("no_solution"), n_red("reductions"), n_gauss("gaussian_key_inputs_solved"), n_big("inputs_over_53_bits"),
  n_parts("field_norm/lift/conjugate/xgcd_comparisons"), n_neg("constant_polynomials");

static zvec
mulz(const zvec& a, const zvec& b) // mod x^n+1
{
  const size_t n = a.size();
  zvec c(n);
  for (size_t i = 0; i < n; i++) {
    if (a[i] == 0)
      continue;
    for (size_t j = 0; j < n; j++) {
      if (i + j < n)
        mpz_addmul(c[i + j].get_mpz_t(), a[i].get_mpz_t(), b[j].get_mpz_t());
      else
        mpz_submul(c[i + j - n].get_mpz_t(), a[i].get_mpz_t(), b[j].get_mpz_t());
    }
  }
  return c;
}
static zvec
norm1(const zvec& a) // N(a)(x^2) = a(x) a(-x)
{
  const size_t n = a.size();
  zvec b(a);
  for (size_t i = 1; i < n; i += 2)
    b[i] = -b[i];
  // only even coefficients are non-zero
  zvec e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++) {
    e[i] = a[2 * i];
    o[i] = a[2 * i + 1];
  }
  zvec r = mulz(e, e), s = mulz(o, o);
  zvec sx(n / 2); // y * s(y) mod y^(n/2)+1
  for (size_t i = 0; i + 1 < n / 2; i++)
    sx[i + 1] = s[i];
  sx[0] = -s[n / 2 - 1];
  for (size_t i = 0; i < n / 2; i++)
    r[i] -= sx[i];
  return r;
}
static mpz_class
resultant(zvec a)
{
  while (a.size() > 1)
    a = norm1(a);
  return a[0];
}
static zvec
det(const zvec& f, const zvec& g, const zvec& F, const zvec& G)
{
  zvec a = mulz(f, G), b = mulz(g, F);
  for (size_t i = 0; i < a.size(); i++)
    a[i] -= b[i];
  return a;
}
template<size_t N>
static zarr<N>
arr(const zvec& v)
{
  zarr<N> r;
  for (size_t i = 0; i < N; i++)
    r[i] = v[i];
  return r;
}
template<size_t N>
static zvec
vec(const zarr<N>& a)
{
  return zvec(a.begin(), a.end());
}
static mpz_class
rbits(vh::rng_t& r, size_t bits)
{
  mpz_class z = 0;
  for (size_t i = 0; i < bits; i += 32) {
    z <<= 32;
    z += static_cast<unsigned long>(r.next() >> 32);
  }
  mpz_class m = 1;
  m <<= bits;
  z %= m;
  return r.below(2) ? mpz_class(-z) : z;
}
static std::string
show(const zvec& v)
{
  std::string s = "[";
  for (size_t i = 0; i < std::min<size_t>(v.size(), 8); i++)
    s += v[i].get_str() + (i + 1 < v.size() ? "," : "");
  return s.substr(0, 300) + (v.size() > 8 ? "..]" : "]");
}
static size_t
bits(const zvec& v)
{
  size_t b = 0;
  for (auto& x : v)
    b = std::max(b, x == 0 ? size_t(0) : mpz_sizeinbase(x.get_mpz_t(), 2));
  return b;
}

// kappa = (F f* + G g*) / (f f* + g g*), in long double; false if unusable
template<size_t N>
static bool
kappa(const zvec& f, const zvec& g, const zvec& F, const zvec& G, ref::rvec& out, long double& cond)
{
  auto ev = [](const zvec& v) {
    std::vector<ref::ld> d(N);
    for (size_t i = 0; i < N; i++) {
      mpf_class x(v[i], 128);
      const double hi = x.get_d();
      d[i] = static_cast<ref::ld>(hi) + static_cast<ref::ld>(mpf_class(x - hi).get_d());
    }
    return ref::eval_c(d);
  };
  auto a = ev(f), b = ev(g), c = ev(F), d = ev(G);
  std::vector<ref::cld> k(N);
  long double mx = 0, mn = HUGE_VALL;
  for (size_t i = 0; i < N; i++) {
    const long double n = std::norm(a[i]) + std::norm(b[i]);
    mx = std::max(mx, n);
    mn = std::min(mn, n);
    k[i] = (c[i] * std::conj(a[i]) + d[i] * std::conj(b[i])) / n;
  }
  out = ref::interp_c(k);
  cond = mx / mn;
  return mn > 0;
}

template<size_t N>
struct S
{
  static zvec gen(vh::rng_t& r, int kind)
  {
    zvec v(N);
    switch (kind) {
      case 0: // key-generation Gaussian
        for (auto& x : v)
          x = static_cast<long>(llround(r.gauss() * 1.17 * std::sqrt(12289. / (2. * std::max<double>(N, 8)))));
        break;
      case 1: // small sparse
        for (size_t k = 0; k < 1 + r.below(4); k++)
          v[r.below(N)] = static_cast<long>(r.range(-3, 3));
        break;
      case 2: { // bigger
        const size_t b = 1 + r.below(60);
        for (auto& x : v)
          x = rbits(r, b);
        break;
      }
      case 3: { // beyond double precision
        const size_t b = 50 + r.below(100);
        for (auto& x : v)
          x = rbits(r, b);
        break;
      }
      case 4: // constant
        v[0] = static_cast<long>(r.range(-40, 40));
        break;
      case 5: // a monomial
        v[r.below(N)] = r.below(2) ? 1 : -1;
        break;
      default: // even values
        for (auto& x : v)
          x = 2 * static_cast<long>(r.range(-5, 5));
    }
    return v;
  }
  static void judge(const zvec& f, const zvec& g, bool gaussian, bool plain = true)
  {
    // Sparse or otherwise special polynomials become ill-conditioned further
    // down the tower, where the library's double-precision reduction may no
    // longer settle: at larger degrees, they are used for the failure branch.
    if (!plain && N > 16 && gcd(resultant(f), resultant(g)) == 1)
      return;
    const auto fa = arr<N>(f), ga = arr<N>(g);
    const auto ret = ntru_gen::ntru_solve(fa, ga);
    VH_REQUIRE(vec<N>(fa) == f && vec<N>(ga) == g, "input-modified", "N=%zu", N);
    const mpz_class rf = resultant(f), rg = resultant(g), d = gcd(rf, rg);
    const bool solvable = d == 1, ok = ret.second.is_solution();
    VH_REQUIRE(ok == solvable, ok ? "solved-unsolvable" : "failed-solvable", "N=%zu solver reports %s, gcd of resultants is %s; f=%s g=%s", N, ok ? "a solution" : "failure",
               d.get_str().substr(0, 40).c_str(), show(f).c_str(), show(g).c_str());
    vh::eval();
    uint64_t h = N;
    for (auto* p : { &f, &g })
      for (auto& x : *p)
        h = vh::mix64(h ^ static_cast<uint64_t>(x.get_si()));
    vh::distinct(h);
    if (!ok) {
      n_nosol++;
      return;
    }
    const zvec F = vec<N>(ret.first.first), G = vec<N>(ret.first.second);
    const zvec e = det(f, g, F, G);
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(e[i] == (i == 0 ? 12289 : 0), "ntru-equation", "N=%zu fG-gF has coefficient %s at %zu; f=%s g=%s F=%s G=%s", N, e[i].get_str().substr(0, 60).c_str(), i,
                 show(f).c_str(), show(g).c_str(), show(F).c_str(), show(G).c_str());
    n_sol++;
    if (bits(f) > 53 || bits(g) > 53)
      n_big++;
    if (N == 1)
      n_neg++;
    if (gaussian && N >= 2) {
      ref::rvec k;
      long double cond = 0;
      if (kappa<N>(f, g, F, G, k, cond) && cond < 1e6L) {
        for (size_t i = 0; i < N; i++)
          VH_REQUIRE(std::fabs(k[i]) <= 0.5L + 1e-3L, "not-reduced", "N=%zu (F,G) exceeds (f,g) by a multiple %.6Lf at x^%zu; f=%s g=%s F=%s", N, k[i], i, show(f).c_str(),
                     show(g).c_str(), show(F).c_str());
        n_gauss++;
      }
    }
  }
  static void solve(vh::case_t& c)
  {
    if (N >= 512 || c.idx % 3 == 0) {
      judge(gen(c.rng, 0), gen(c.rng, 0), true);
      return;
    }
    const int kf = static_cast<int>(c.rng.below(7)), kg = static_cast<int>(c.rng.below(7));
    zvec f = gen(c.rng, kf), g = gen(c.rng, kg);
    const auto special = c.rng.below(14);
    auto dense = [](int k) { return k == 0 || k == 2 || k == 3 || k == 6; };
    switch (special) {
      case 0:
        g = f;
        break;
      case 1:
        g = mulz(f, gen(c.rng, 1));
        break;
      case 2: { // common factor
        const zvec u = gen(c.rng, 1);
        f = mulz(f, u);
        g = mulz(g, u);
        break;
      }
      case 3:
        f = zvec(N);
        break;
      case 4:
        g = zvec(N);
        break;
      case 5: // unit
        f = zvec(N);
        f[0] = 1;
        break;
      default:;
    }
    judge(f, g, false, special > 5 && dense(kf) && dense(kg));
    if (c.idx < 2)
      vh::sample("N=%zu f=%s g=%s", N, show(f).substr(0, 80).c_str(), show(g).substr(0, 80).c_str());
  }
  // reduction of a made-up (F, G)
  static void red(vh::case_t& c)
  {
    if constexpr (N >= 2) {
      zvec f = gen(c.rng, 0), g = gen(c.rng, 0);
      if (N <= 256 && c.rng.below(2)) {
        const size_t b = 4 + c.rng.below(200);
        for (auto* p : { &f, &g })
          for (auto& x : *p)
            x = rbits(c.rng, b);
      }
      if (c.rng.below(6) == 0)
        for (auto& x : f)
          x = 0;
      if (bits(f) == 0 && bits(g) == 0)
        return;
      const size_t B = bits(f) + (N >= 512 ? c.rng.below(60) : c.rng.below(600));
      zvec F(N), G(N);
      // what the tower hands to the reduction: a multiple of (f, g) plus a part
      // no longer than (f, g)
      const auto shape = c.rng.below(3);
      zvec k0(N);
      if (shape == 2)
        k0[c.rng.below(N)] = rbits(c.rng, B - bits(f) + 1);
      else
        for (auto& x : k0)
          x = rbits(c.rng, B - bits(f) + 1);
      F = mulz(k0, f);
      G = mulz(k0, g);
      for (size_t i = 0; i < N; i++) {
        F[i] += shape ? mpz_class(static_cast<long>(c.rng.range(-3, 3))) : rbits(c.rng, std::max<size_t>(bits(f), 2) - 1);
        G[i] += shape ? mpz_class(static_cast<long>(c.rng.range(-3, 3))) : rbits(c.rng, std::max<size_t>(bits(f), 2) - 1);
      }
      // well conditioned inputs only: the library works in double precision
      ref::rvec k;
      long double cond = 0;
      if (!kappa<N>(f, g, F, G, k, cond) || cond > 1e4L)
        return;
      const zvec before = det(f, g, F, G);
      const auto fa = arr<N>(f), ga = arr<N>(g);
      auto Fa = arr<N>(F), Ga = arr<N>(G);
#ifndef VH_MINIMAL
      ntru_gen::reduce(fa, ga, Fa, Ga);
#else
      return;
#endif
      const zvec F2 = vec<N>(Fa), G2 = vec<N>(Ga);
      const zvec after = det(f, g, F2, G2);
      for (size_t i = 0; i < N; i++)
        VH_REQUIRE(before[i] == after[i], "reduce-changed-determinant", "N=%zu coefficient %zu; f=%s g=%s F=%s G=%s", N, i, show(f).c_str(), show(g).c_str(), show(F).c_str(),
                   show(G).c_str());
      mpz_class n0 = 0, n1 = 0, s = 0;
      for (size_t i = 0; i < N; i++) {
        n0 += F[i] * F[i] + G[i] * G[i];
        n1 += F2[i] * F2[i] + G2[i] * G2[i];
        s += abs(f[i]) + abs(g[i]);
      }
      // rounding slack: a residual quotient of at most 1/2 per coefficient
      // (growth beyond the conditioning of (f, g) is impossible)
      const mpz_class slack = mpz_class(static_cast<unsigned long>(N)) * s * s + mpz_class(n0 * mpz_class(static_cast<double>(cond) * 4));
      VH_REQUIRE(n1 <= n0 + slack, "reduce-grew", "N=%zu squared norm %s -> %s", N, n0.get_str().c_str(), n1.get_str().c_str());
      n_red++;
      vh::eval();
      if (bits(f) <= 20 && bits(g) <= 20) {
        kappa<N>(f, g, F2, G2, k, cond);
        for (size_t i = 0; i < N; i++)
          VH_REQUIRE(std::fabs(k[i]) <= 0.5L + 1e-3L, "not-reduced", "N=%zu after reduction a multiple %.6Lf of (f,g) remains; f=%s g=%s F=%s G=%s", N, k[i], show(f).c_str(),
                     show(g).c_str(), show(F).c_str(), show(G).c_str());
      }
      vh::distinct(vh::mix64(c.rng.next()));
    }
  }
#ifndef VH_MINIMAL
  static void parts(vh::case_t& c)
  {
    if constexpr (N >= 2) {
      const zvec f = gen(c.rng, static_cast<int>(c.rng.below(7)));
      const auto n = ntru_gen::field_norm(arr<N>(f));
      VH_REQUIRE(zvec(n.begin(), n.end()) == norm1(f), "field-norm", "N=%zu f=%s", N, show(f).c_str());
      const auto l = ntru_gen::lift(arr<N>(f));
      for (size_t i = 0; i < 2 * N; i++)
        VH_REQUIRE(l[i] == (i & 1 ? mpz_class(0) : f[i / 2]), "lift", "N=%zu", N);
      const auto g = ntru_gen::galois_conjugate(arr<N>(f));
      for (size_t i = 0; i < N; i++)
        VH_REQUIRE(g[i] == (i & 1 ? mpz_class(-f[i]) : f[i]), "galois-conjugate", "N=%zu", N);
      const size_t b = 1 + c.rng.below(300);
      const mpz_class x = rbits(c.rng, b), y = c.rng.below(8) ? rbits(c.rng, 1 + c.rng.below(300)) : mpz_class(0);
      const auto e = ntru_gen::xgcd(x, y);
      VH_REQUIRE(e[0] * x + e[1] * y == e[2] && abs(e[2]) == gcd(x, y), "xgcd", "x=%s y=%s", x.get_str().c_str(), y.get_str().c_str());
      n_parts.add(4);
      vh::eval(4);
    }
  }
#endif
};
#define DEG(n, qs, ts, qr, tr)                                                 \
  VH_SUITE(solve##n, qs, ts) { S<n>::solve(c); }                               \
  VH_SUITE(reduce##n, qr, tr) { S<n>::red(c); }
DEG(1024, 3, 200, 6, 400)
DEG(512, 12, 1000, 12, 1500)
DEG(256, 30, 2500, 40, 4000)
DEG(128, 80, 6000, 100, 10000)
DEG(64, 200, 12000, 300, 30000)
DEG(32, 500, 30000, 800, 60000)
DEG(16, 1500, 80000, 1500, 100000)
DEG(8, 3000, 200000, 3000, 200000)
DEG(4, 6000, 400000, 6000, 300000)
DEG(2, 12000, 800000, 12000, 500000)
VH_SUITE(solve1, 20000, 400000)
{
  S<1>::solve(c);
}
#ifndef VH_MINIMAL
VH_SUITE(parts, 2000, 40000)
{
  S<2>::parts(c);
  S<8>::parts(c);
  S<64>::parts(c);
  if (c.idx % 20 == 0)
    S<512>::parts(c);
}
#endif
