// Key material: distribution of the polynomials keys are made of, and no two
// generated keys alike.
#include "steered.inc"
using namespace glue;

static vh::counter_t n_poly("polynomials_sampled"), n_coef("coefficients_sampled"), n_keys("keys_generated"), n_ctl("polynomials_from_equal_entropy_compared"), n_ins("uniqueness_set_inserts"), n_scr("scripted_coefficients_compared"), n_off("scripting_not_available"), n_chosen("keys_that_came_out_as_drawn_after_discarded_candidates");

// Shared set of everything that must not repeat.
struct slot_t
{
  std::atomic<uint64_t> a;
};
static constexpr uint64_t SLOTS = 1ull << 22;
static slot_t* const g_set = static_cast<slot_t*>(mmap(nullptr, SLOTS * sizeof(slot_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
static bool
fresh(const ivec& a)
{
  uint64_t h = vh::hash_bytes(a.data(), a.size() * 8, 99);
  if (!h)
    h = 1;
  n_ins++;
  for (uint64_t i = h & (SLOTS - 1), k = 0; k < SLOTS; i = (i + 1) & (SLOTS - 1), k++) {
    uint64_t cur = 0;
    if (g_set[i].a.compare_exchange_strong(cur, h))
      return true;
    if (cur == h)
      return false;
  }
  return true;
}

// exact distribution: sum of 4096/N Gaussian integers of width 1.43300980528773
constexpr double SD = 1.43300980528773;
constexpr int R = 60;
static const std::vector<double>&
law(size_t N)
{
  static std::vector<double> memo[2];
  auto& d = memo[N == 1024];
  if (d.empty()) {
    std::vector<double> one(2 * R + 1);
    double t = 0;
    for (int z = -R; z <= R; z++)
      t += one[z + R] = std::exp(-z * z / (2 * SD * SD));
    for (auto& x : one)
      x /= t;
    d.assign(2 * R + 1, 0.);
    d[R] = 1;
    for (size_t k = 0; k < 4096 / N; k++) {
      std::vector<double> e(2 * R + 1);
      for (int a = -R; a <= R; a++)
        for (int b = -R; b <= R; b++)
          if (a + b >= -R && a + b <= R)
            e[a + b + R] += d[a + R] * one[b + R];
      d = e;
    }
  }
  return d;
}

struct acc_set
{
  vh::acc_t hist, pos, lag, tot;
  explicit acc_set(size_t N)
    : hist(2 * R + 1)
    , pos(2 * N)
    , lag(2 * N)
    , tot(4)
  {
  }
};
static acc_set s512(512), s1024(1024);
static vh::acc_t a_key(16);

template<size_t N>
struct D
{
  static constexpr size_t LG = N == 512 ? 9 : 10, J = N == 1024;
  static acc_set& s() { return N == 512 ? s512 : s1024; }
  static ivec poly(prng::prng_t& rng)
  {
    vh::gbuf b(4 * N, 0x71);
    ntru_gen::gen_poly<LG>(reinterpret_cast<int32_t*>(b.data()), rng);
    VH_REQUIRE(b.intact(), "out-of-bounds-write", "gen_poly<%zu>", LG);
    const auto* p = reinterpret_cast<const int32_t*>(b.data());
    return ivec(p, p + N);
  }
  static void polys(vh::case_t& c)
  {
    const double var = law_var();
    prng::prng_t rng;
    ivec prev;
    for (int i = 0; i < 40; i++) {
      const ivec f = poly(rng);
      auto& S = s();
      for (size_t j = 0; j < N; j++) {
        VH_REQUIRE(std::abs(f[j]) <= R, "coefficient-too-large", "N=%zu coefficient %zu of a freshly sampled polynomial is %ld (width %.3f)", N, j, f[j], std::sqrt(var));
        S.hist[static_cast<size_t>(f[j] + R)] += 1;
        S.pos[j] += static_cast<double>(f[j]);
        S.pos[N + j] += static_cast<double>(f[j] * f[j]);
      }
      S.tot[0] += 1;
      if (i % 2) { // f and g of one candidate, and f with itself, at every distance
        S.tot[1] += 1;
        double* lag = &S.lag[0];
        for (size_t l = 0; l < N; l++) {
          int64_t x = 0, y = 0;
          for (size_t j = 0; j + l < N; j++) {
            x += f[j] * f[j + l];
            y += prev[j] * f[j + l];
          }
          lag[l] += static_cast<double>(x);
          lag[N + l] += static_cast<double>(y);
        }
      }
      VH_REQUIRE(fresh(f), "repeated", "N=%zu: the same polynomial was sampled twice in this run (coefficients %ld %ld %ld %ld ..)", N, f[0], f[1], f[2], f[3]);
      vh::distinct(vh::hash_bytes(f.data(), 8 * N));
      prev = f;
    }
    n_poly.add(40);
    n_coef.add(40 * N);
    vh::eval(40);
  }
  static double law_var()
  {
    double v = 0;
    for (int z = -R; z <= R; z++)
      v += z * z * law(N)[z + R];
    return v;
  }
  static void finish()
  {
    auto& S = s();
    const double np = S.tot.total(0), var = law_var();
    if (np < 100)
      return;
    const double n = np * N;
    // histogram
    double chi = 0;
    int cells = 0;
    double lo = 0, loe = 0;
    auto cell = [&](double o, double e, int z) {
      chi += (o - e) * (o - e) / e;
      cells++;
      if (std::abs(o - e) > 7 * std::sqrt(e) + 7)
        vh::note_fail("distribution", "N=%zu: value %d (or beyond) was sampled %.0f times among %.0f coefficients; %.0f expected", N, z, o, n, e);
    };
    for (int z = -R; z <= R; z++) {
      const double o = S.hist.total(static_cast<size_t>(z + R)), e = n * law(N)[z + R];
      if (e < 20) { // tails together
        lo += o;
        loe += e;
      } else
        cell(o, e, z);
    }
    if (loe > 5)
      cell(lo, loe, R);
    else if (lo > 45)
      vh::note_fail("distribution", "N=%zu: %.0f coefficients in the far tails, %.1f expected", N, lo, loe);
    const double zc = (chi - cells) / std::sqrt(2. * cells);
    if (zc > 9)
      vh::note_fail("distribution", "N=%zu: histogram of %.0f coefficients is off: chi-square %.1f over %d cells", N, n, chi, cells);
    double worst = 0, fourth = 0;
    for (int z = -R; z <= R; z++)
      fourth += double(z) * z * z * z * law(N)[z + R];
    for (size_t j = 0; j < N; j++) {
      const double m = S.pos.total(j) / std::sqrt(np * var), v = (S.pos.total(N + j) - np * var) / std::sqrt(np * (fourth - var * var));
      worst = std::max({ worst, std::abs(m), std::abs(v) });
      if (std::abs(m) > 7.5 || std::abs(v) > 8)
        vh::note_fail("distribution", "N=%zu: coefficient %zu over %.0f polynomials: mean %.4f (%.1f standard errors), variance %.4f (%.1f standard errors; must be %.4f)", N, j, np, S.pos.total(j) / np, m,
                      S.pos.total(N + j) / np, v, var);
    }
    const double nl = S.tot.total(1);
    for (size_t w = 0; w < 2 && nl > 40; w++)
      for (size_t l = w ? 0 : 1; l < N; l++) {
        const double z = S.lag.total(w * N + l) / std::sqrt(nl * static_cast<double>(N - l)) / var, lim = nl * static_cast<double>(N - l) > 20000 ? 7.5 : 12;
        worst = std::max(worst, std::abs(z));
        if (std::abs(z) > lim)
          vh::note_fail("distribution", "N=%zu: %s at distance %zu are correlated over %.0f candidates (%.1f standard errors)", N, w ? "coefficients of f and g" : "coefficients of one polynomial", l, nl, z);
      }
    vh::sample("N=%zu: %.0f polynomials: chi-square %.1f over %d cells, worst of %zu position and distance scores %.2f", N, np, chi, cells, 4 * N, worst);
    // keys
    const double k = a_key.total(J * 8);
    if (k >= 4) {
      const double cf = a_key.total(J * 8 + 1), cg = a_key.total(J * 8 + 2), ef = a_key.total(J * 8 + 3), eg = a_key.total(J * 8 + 4);
      // Acceptance favours short pairs a little, nothing else.
      const double sd = std::sqrt(k * N * var);
      if (std::abs(cf) > 8 * sd || std::abs(cg) > 8 * sd)
        vh::note_fail("distribution", "N=%zu: coefficients of f, g of %.0f keys sum to %.0f, %.0f (standard deviation %.0f)", N, k, cf, cg, sd);
      const double rf = ef / (k * N * var), rg = eg / (k * N * var), e1 = std::sqrt(2. / (k * N));
      for (double r : { rf, rg })
        if (r < 0.9 - 7 * e1 || r > 1.02 + 7 * e1)
          vh::note_fail("distribution", "N=%zu: mean square of f, g of %.0f keys is %.4f, %.4f of the specified variance", N, k, rf, rg);
      vh::sample("N=%zu: %.0f keys: mean square of f, g coefficients %.4f, %.4f of the specified variance", N, k, rf, rg);
    }
  }
  static void note(const ivec& f, const ivec& g, const ivec& h, const char* how)
  {
    VH_REQUIRE(fresh(f) && fresh(g) && fresh(h), "repeated", "N=%zu %s: f, g or h of a generated key was seen before in this run", N, how);
    VH_REQUIRE(f != g, "repeated", "N=%zu %s: f = g", N, how);
    double* p = &a_key[J * 8];
    p[0] += 1;
    for (size_t i = 0; i < N; i++) {
      p[1] += static_cast<double>(f[i]);
      p[2] += static_cast<double>(g[i]);
      p[3] += static_cast<double>(f[i] * f[i]);
      p[4] += static_cast<double>(g[i] * g[i]);
    }
    n_keys++;
    vh::eval();
    vh::distinct(vh::hash_bytes(h.data(), 8 * N));
  }
  static void keygens()
  {
      for (int i = 0; i < 2; i++) {
        vh::gbuf pk(ref::pk_len(N)), sk(ref::sk_len(N));
        falcon::keygen<N>(pk.data(), sk.data());
        const auto k = ref::dec_sk(N, sk.data());
        const auto h = ref::dec_pk(N, pk.data());
        VH_REQUIRE(k && h, "malformed-key", "N=%zu", N);
        note(k->f, k->g, *h, "keygen");
      }
  }
  static void keys(vh::case_t& c)
  {
    if (c.idx % 2)
      keygens();
    else { // one generator object, several keys
      prng::prng_t rng;
      std::vector<int32_t> f(N), g(N), F(N), G(N);
      for (int i = 0; i < 2; i++) {
        ntru_gen::ntru_gen<N>(f.data(), g.data(), F.data(), G.data(), rng);
        const ivec a(f.begin(), f.end()), b(g.begin(), g.end());
        VH_REQUIRE(ref::invertible_q(a), "malformed-key", "N=%zu f singular", N);
        note(a, b, ref::div_q(b, a), "ntru_gen with one generator");
      }
    }
  }
  // Entropy differing in one word: nothing in common.
  static void nearby(vh::case_t& c)
  {
    std::vector<uint32_t> tape(16);
    for (auto& w : tape)
      w = static_cast<uint32_t>(c.rng.next());
    if (c.idx % 3 == 0)
      std::fill(tape.begin(), tape.end(), c.idx % 2 ? 0u : ~0u);
    ivec base;
    for (int v = -1; v < 8 * 3; v++) {
      auto t = tape;
      if (v >= 0)
        t[static_cast<size_t>(v / 3)] ^= 1u << (v % 3 == 0 ? 0 : v % 3 == 1 ? 31 : c.rng.below(32));
      if (v == 1)
        t = tape;
      vh::seed_entropy(1);
      vh::entropy().tape = &t;
      prng::prng_t rng;
      const ivec f = poly(rng);
      vh::entropy().tape = nullptr;
      if (v == -1)
        base = f;
      else if (v == 1) {
        VH_REQUIRE(f == base, "harness", "equal entropy, different polynomial");
        n_ctl++;
      } else {
        size_t same = 0;
        for (size_t j = 0; j < N; j++)
          same += f[j] == base[j];
        // about 7% (N=512) or 10% (N=1024) agree by chance
        VH_REQUIRE(same < N / 4, "repeated", "N=%zu: entropy with word %d changed gives a polynomial with %zu of %zu equal coefficients", N, v / 3, same, N);
      }
      vh::eval();
    }
  }
};

// The integer sampler made to return chosen values: each coefficient is the sum
// of its own 4096/N of them, at every position and for every value.
template<size_t N>
static bool
follows()
{
  static const bool ok = [] {
    if (!steer::sampler_obeys())
      return false;
    steer::script_t s(7, true);
    std::vector<int> want(N);
    for (auto& w : want)
      for (size_t j = 0; j < 4096 / N; j++) {
        s.z.push_back(static_cast<int>(s.r.range(-12, 13)));
        w += s.z.back();
      }
    std::vector<int32_t> got(N, 99);
    prng::prng_t rng;
    with_source w(s);
    try {
      ntru_gen::gen_poly<(N == 512 ? 9 : 10)>(got.data(), rng);
    } catch (const vhook::budget_exceeded&) {
    }
    size_t same = 0;
    for (size_t i = 0; i < N; i++)
      same += got[i] == want[i];
    return same > N / 2;
  }();
  return ok;
}
template<size_t N>
static void
scripted(vh::case_t& c)
{
  constexpr size_t k = 4096 / N;
  if (!follows<N>()) {
    n_off++;
    return;
  }
  steer::script_t s(c.rng.next(), true);
  std::vector<int> want(N);
  // usual values, extreme ones of one sign, or a few large ones
  const auto mode = c.idx % 4;
  for (auto& w : want)
    for (size_t j = 0; j < k; j++) {
      const int v = mode == 0   ? static_cast<int>(c.rng.range(-3, 3))
                    : mode == 1 ? static_cast<int>(c.rng.range(-12, 13))
                    : mode == 2 ? static_cast<int>(c.rng.below(2) ? c.rng.range(8, 13) : c.rng.range(-12, -8))
                                : (c.rng.below(200) ? 0 : static_cast<int>(c.rng.range(-12, 13)));
      s.z.push_back(v);
      w += v;
    }
  std::vector<int32_t> got(N, 99);
  prng::prng_t rng;
  bool done = true;
  {
    with_source w(s);
    try {
      ntru_gen::gen_poly<(N == 512 ? 9 : 10)>(got.data(), rng);
    } catch (const vhook::budget_exceeded&) {
      done = false;
    }
  }
  size_t same = 0, at = N;
  for (size_t i = N; i-- > 0;) {
    same += got[i] == want[i];
    if (got[i] != want[i])
      at = i;
  }
  VH_REQUIRE(done, "sample-count", "N=%zu: a polynomial took more than %zu samples", N, s.z.size());
  VH_REQUIRE(s.at == s.z.size(), "sample-count", "N=%zu: a polynomial took %zu samples, not %zu", N, s.at, s.z.size());
  VH_REQUIRE(same == N, "not-the-sum", "N=%zu: coefficient %zu is %d where its %zu samples sum to %d (%zu others differ)", N, at, got[at], k, want[at], N - same - 1);
  n_scr.add(N);
  vh::eval();
  vh::distinct(vh::hash_bytes(got.data(), 4 * N));
}
// Candidates that have to be discarded, then usable ones: the key is a candidate
// exactly as it was drawn, f with its g, and the first usable one.
template<size_t N>
static void
chosen(vh::case_t& c)
{
  if (!steer::poly_obeys<N>()) {
    n_off++;
    return;
  }
  const auto& ks = ref::golden(N);
  std::vector<std::pair<ivec, ivec>> cs;
  std::vector<unsigned> kinds;
  for (uint64_t n = 1 + c.rng.below(3); n--;) {
    const auto& b = ks[c.rng.below(ks.size())];
    const unsigned kind = (c.idx + n) % 6;
    if (auto p = steered::discardable<N>(c.rng, b.f, b.g, kind)) {
      cs.push_back(*p);
      kinds.push_back(kind);
    }
  }
  const size_t at = cs.size();
  const basis b = variant<N>(c.rng);
  if (max_abs(b.f) > (N == 512 ? 31 : 15) || max_abs(b.g) > (N == 512 ? 31 : 15))
    return;
  cs.push_back({ b.f, b.g });
  for (int i = 0; i < 2; i++) {
    const basis o = variant<N>(c.rng);
    cs.push_back({ o.f, o.g });
  }
  ivec out[4];
  size_t which = 0;
  const bool ok = steer::candidates<N>(c.rng.next(), cs, out, which);
  if (ok && out[0] == b.f && out[1] == b.g) {
    n_chosen++;
    vh::eval();
    vh::distinct(vh::hash_bytes(b.f.data(), 8 * N) + at);
    return;
  }
  ivec o2[4];
  if (steered::skips_g<N>(c.rng, cs, kinds, o2) && o2[0] == b.f && o2[1] == b.g) {
    n_off++;
    return;
  }
  auto sw = cs;
  for (auto& [f, g] : sw)
    std::swap(f, g);
  size_t w2 = 0;
  if (steer::candidates<N>(c.rng.next(), sw, o2, w2) && o2[0] == b.f && o2[1] == b.g) {
    n_off++;
    return;
  }
  if (ok)
    for (auto& [f, g] : cs)
      if (out[0] == f && out[1] == g) {
        vh::fail("other-candidate", "N=%zu: of %zu candidates, the key is number %ld, not the first usable one (number %zu): usable candidates are passed over, which changes the distribution", N, cs.size(),
                 static_cast<long>(&f - &cs[0].first) / static_cast<long>(sizeof(cs[0]) / sizeof(ivec)) + 1, at + 1);
      }
  vh::fail("not-as-drawn", "N=%zu: after %zu candidates to be discarded and three usable ones, the key is %s", N, at, ok ? "none of them (f and g of different candidates, or altered)" : "still none of them");
}
VH_SUITE(chosen512, 64, 2000)
{
  chosen<512>(c);
}
VH_SUITE(chosen1024, 32, 1000)
{
  chosen<1024>(c);
}
VH_SUITE(scripted512, 400, 10000)
{
  scripted<512>(c);
}
VH_SUITE(scripted1024, 400, 10000)
{
  scripted<1024>(c);
}

VH_FINISH(distribution)
{
  D<512>::finish();
  D<1024>::finish();
}
// many keys, one after the other, in one thread
VH_SUITE(streak1024, 1, 6)
{
  for (int i = 0; i < 3; i++)
    D<1024>::keygens();
}
VH_SUITE(streak512, 2, 12)
{
  for (int i = 0; i < (vh::thorough ? 40 : 9); i++)
    D<512>::keygens();
}
VH_SUITE(keys1024, 4, 100)
{
  D<1024>::keys(c);
}
VH_SUITE(keys512, 24, 800)
{
  D<512>::keys(c);
}
VH_SUITE(polys512, 500, 30000)
{
  D<512>::polys(c);
}
VH_SUITE(polys1024, 300, 15000)
{
  D<1024>::polys(c);
}
VH_SUITE(nearby512, 60, 2000)
{
  D<512>::nearby(c);
}
VH_SUITE(nearby1024, 60, 2000)
{
  D<1024>::nearby(c);
}
