// Integer sampler: distribution against the exact discrete Gaussian, base
// sampler against the specification's table, byte-tape version value- and
// consumption-exact (specification KATs and an independent re-implementation).
#include "glue.hpp"
using namespace glue;

static vh::counter_t n_draw("samples_drawn"), n_cell("(centre,width)_cells"), n_base("base_sampler_inputs"), n_tape("tape_runs_judged_exactly"), n_amb("tape_runs_skipped_as_numerically_ambiguous"),
  n_kat("specification_vectors"), n_rej("rejected_candidates_on_tapes"), n_short("tapes_ending_early"),
  n_gtape("generator_outputs_judged_exactly"), n_noway("cases_skipped_as_the_generator_version_draws_otherwise");

using u128 = unsigned __int128;

// The specification's reverse cumulative table (decimal, 72 bits).
static u128
dec(const char* s)
{
  u128 v = 0;
  for (; *s; s++)
    v = v * 10 + static_cast<unsigned>(*s - '0');
  return v;
}
static const u128*
rcdt()
{
  static u128 t[18];
  static const bool once = [] {
    const char* d[18] = { "3024686241123004913666", "1564742784480091954050", "636254429462080897535", "199560484645026482916", "47667343854657281903", "8595902006365044063",
                          "1163297957344668388",    "117656387352093658",     "8867391802663976",      "496969357462633",       "20680885154299",       "638331848991",
                          "14602316184",            "247426747",              "3104126",               "28824",                 "198",                  "1" };
    for (int i = 0; i < 18; i++)
      t[i] = dec(d[i]);
    return true;
  }();
  (void)once;
  return t;
}
static int
base(u128 u)
{
  int z = 0;
  for (int i = 0; i < 18; i++)
    z += u < rcdt()[i];
  return z;
}

// ------------------------------------------------------------- distribution
constexpr int K0 = -20, KN = 42;
// pooled over all cells: observed and expected count of z - floor(mu) == k, and
// variance of that count
static vh::acc_t po(KN), pe(KN), pv(KN);
static vh::acc_t pooled(8); // n, sum x, sum x2, sum x4-kurt exp, lag n, lag sum

static double
wh(double chi, double df)
{
  return (std::cbrt(chi / df) - (1 - 2 / (9 * df))) / std::sqrt(2 / (9 * df));
}

static void
cell(vh::case_t& c, double mu, double sp, double smin, size_t n)
{
  const double fl = std::floor(mu);
  const long double r = static_cast<long double>(mu) - fl;
  long double p[KN], tot = 0;
  for (int k = 0; k < KN; k++) {
    const long double d = (k + K0 - r) / sp;
    tot += p[k] = std::exp(-d * d / 2);
  }
  double cnt[KN] = {}, lag = 0, prev = 0, m1 = 0, m2 = 0;
  prng::prng_t rng;
  for (size_t i = 0; i < n; i++) {
    const int32_t z = samplerz::samplerz(mu, sp, smin, rng);
    const double k = static_cast<double>(z) - fl - K0;
    VH_REQUIRE(k >= 0 && k < KN, "impossible-sample", "centre %.17g width %.17g: sampled %d", mu, sp, z);
    cnt[static_cast<int>(k)]++;
    const double x = (static_cast<double>(static_cast<long double>(z) - fl - r)) / sp;
    m1 += x;
    m2 += x * x;
    if (i)
      lag += x * prev;
    prev = x;
  }
  double chi = 0, df = -1, po_ = 0, pe_ = 0;
  const double dn = static_cast<double>(n);
  auto flush = [&] {
    if (pe_ > 0) {
      chi += (po_ - pe_) * (po_ - pe_) / pe_;
      df++;
    }
    po_ = pe_ = 0;
  };
  for (int k = 0; k < KN; k++) {
    const double e = dn * static_cast<double>(p[k] / tot);
    po[k] += cnt[k];
    pe[k] += e;
    pv[k] += e * (1 - e / dn);
    po_ += cnt[k];
    pe_ += e;
    if (pe_ >= 40)
      flush();
  }
  // remainder joins as its own (small) cell only if it is big enough
  if (pe_ >= 10)
    flush();
  const double z = wh(chi, df);
  VH_REQUIRE(z < 7.8, "distribution", "centre %.17g width %.17g (sigma_min %.9f): chi-square %.1f with %.0f degrees of freedom over %zu samples (z=%.1f)", mu, sp, smin, chi, df, n, z);
  VH_REQUIRE(std::fabs(m1) / std::sqrt(dn) < 7.5, "mean", "centre %.17g width %.17g: mean off by %.5f widths (z=%.1f)", mu, sp, m1 / dn, m1 / std::sqrt(dn));
  VH_REQUIRE(std::fabs(m2 - dn) / std::sqrt(2 * dn) < 7.5, "width", "centre %.17g width %.17g: variance %.5f times specified", mu, sp, m2 / dn);
  VH_REQUIRE(std::fabs(lag) / std::sqrt(dn) < 7.5, "serial-dependence", "centre %.17g width %.17g: successive samples correlate %.5f", mu, sp, lag / dn);
  pooled[0] += dn;
  pooled[1] += m1;
  pooled[2] += m2;
  pooled[3] += lag;
  pooled[4] += chi;
  pooled[5] += df;
  n_draw.add(n);
  n_cell++;
  vh::eval();
  vh::distinct(vh::hash_bytes(&mu, 8, vh::hash_bytes(&sp, 8)));
  if (c.idx < 3)
    vh::sample("centre %.17g width %.9f: chi-square %.1f / %.0f over %zu samples", mu, sp, chi, df, n);
}
static double
width(vh::rng_t& r, double smin)
{
  switch (r.below(5)) {
    case 0:
      return smin;
    case 1:
      return ref::sigma_max;
    case 2:
      return smin + 1e-6 * r.unit();
    default:
      return smin + (ref::sigma_max - smin) * r.unit();
  }
}
static double
centre(vh::rng_t& r)
{
  static const double fr[] = { 0, 0x1p-60, 0x1p-53, 1e-9, 0.001, 0.25, 0.4999999999, 0.5, 0.50000000001, 0.75, 0.999, 1 - 0x1p-40, 1 - 0x1p-53 };
  const double f = r.below(2) ? fr[r.below(sizeof fr / sizeof *fr)] : r.unit();
  double fl = 0;
  switch (r.below(6)) {
    case 0:
      fl = static_cast<double>(r.range(-3, 3));
      break;
    case 1:
      fl = static_cast<double>(r.range(-20000, 20000));
      break;
    case 2:
      fl = static_cast<double>(r.range(-(1 << 29), 1 << 29));
      break;
    case 3:
      fl = r.below(2) ? 1073741820. : -1073741820.;
      break;
    default:
      fl = static_cast<double>(r.range(-300, 300));
  }
  const double m = fl + f;
  return r.below(4) ? m : -m;
}
VH_SUITE(distribution, 700, 30000)
{
  const double smin = ref::sigma_min(c.rng.below(2) ? 512 : 1024);
  const double mu = centre(c.rng), sp = width(c.rng, smin);
  cell(c, mu, sp, smin, 200000);
}
VH_FINISH(pooled)
{
  const double n = pooled.total(0);
  if (n < 1e6)
    return;
  const double zm = pooled.total(1) / std::sqrt(n), zv = (pooled.total(2) - n) / std::sqrt(2 * n), zl = pooled.total(3) / std::sqrt(n), zc = wh(pooled.total(4), pooled.total(5));
  double worst = 0;
  for (int k = 0; k < KN; k++) {
    const double o = po.total(k), e = pe.total(k), v = pv.total(k);
    if (e > 30) {
      const double z = (o - e) / std::sqrt(v);
      worst = std::max(worst, std::fabs(z));
      if (std::fabs(z) > 7.5)
        vh::note_fail("pooled-probability", "P(z = floor(centre)%+d): %.0f observed, %.1f expected over %.0f samples (z=%.1f)", k + K0, o, e, n, z);
    } else if (o > e + 8 * std::sqrt(e) + 12) {
      vh::note_fail("pooled-probability", "P(z = floor(centre)%+d): %.0f observed, %.3f expected", k + K0, o, e);
    }
  }
  if (std::fabs(zm) > 7.5 || std::fabs(zv) > 7.5 || std::fabs(zl) > 7.5 || zc > 7.5)
    vh::note_fail("pooled-moments", "over %.0f samples: mean z=%.1f, variance z=%.1f, serial correlation z=%.1f, chi-square z=%.1f", n, zm, zv, zl, zc);
  vh::sample("pooled over %.0f samples: mean z=%.1f variance z=%.1f serial z=%.1f chi-square z=%.1f, worst offset z=%.1f", n, zm, zv, zl, zc, worst);
}

// ------------------------------------------------------------- base sampler
struct tape_t : vhook::source_t
{
  const uint8_t* p;
  size_t n, i = 0;
  tape_t(const uint8_t* p, size_t n)
    : p(p)
    , n(n)
  {
  }
  void fill(uint8_t* b, size_t k) override
  {
    for (size_t j = 0; j < k; j++)
      b[j] = i < n ? p[i++] : 0;
  }
};
static vh::acc_t order(2); // inputs where the generator version disagrees with LE / BE reading
static void
base_one(u128 u)
{
  std::array<uint8_t, 9> b;
  uint8_t be[9];
  for (int i = 0; i < 9; i++)
    be[8 - i] = b[i] = static_cast<uint8_t>(u >> (8 * i));
  const int want = base(u);
#ifndef VH_MINIMAL
  auto in = b;
  const int got = static_cast<int>(samplerz::base_sampler(std::move(in)));
  VH_REQUIRE(got == want, "base-sampler", "input %s (little endian): got %d, table says %d", vh::hex(b.data(), 9).c_str(), got, want);
#endif
  prng::prng_t rng;
  tape_t t(b.data(), 9);
  with_source w(t);
#ifndef VH_MINIMAL
  const int g2 = static_cast<int>(samplerz::base_sampler(rng));
  u128 v = 0;
  for (int i = 0; i < 9; i++)
    v = (v << 8) | b[i];
  if (g2 != want)
    order[0]++;
  if (g2 != base(v))
    order[1]++;
#endif
  n_base++;
  vh::eval();
}
VH_SUITE(base_table, 18, 18)
{
  const u128 e = rcdt()[c.idx], M = (u128(1) << 72) - 1;
  for (int d = -300; d <= 300; d++)
    base_one((e + static_cast<u128>(static_cast<__int128>(d))) & M);
  for (int b = 0; b < 72; b++) { // flips of each bit of each entry, and neighbours
    base_one(e ^ (u128(1) << b));
    base_one(((e - 1) ^ (u128(1) << b)) & M);
    base_one((u128(1) << b) + c.idx);
    base_one(((u128(1) << b) - 1 - c.idx) & M);
    base_one((e & ~((u128(1) << b) - 1)) & M);
    base_one((e | ((u128(1) << b) - 1)) & M);
  }
  vh::distinct_bulk(601 + 72 * 6);
}
VH_SUITE(base_random, 200, 4000)
{
  for (int i = 0; i < 1000; i++) {
    u128 u = (u128(c.rng.next() & 0xff) << 64) | c.rng.next();
    u >>= c.rng.below(3) ? 0 : c.rng.below(72);
    base_one(u);
  }
  vh::distinct_bulk(1000);
}
VH_FINISH(byte_order)
{
  if (order.total(0) > 0 && order.total(1) > 0)
    vh::note_fail("base-sampler", "the version reading from the generator follows the table in neither byte order (%.0f / %.0f inputs differ)", order.total(0), order.total(1));
}

// --------------------------------------------------------------- byte tapes
struct outcome
{
  bool accept, amb;
  size_t used;
};
// The bytes a trial of probability p compares with, and how far they are sure.
static void
thresholds(long double p, uint8_t* l, uint8_t* h)
{
  const long double rel = 0x1p-34L, S = 0x1p64L;
  auto q = [&](long double v) {
    v = std::floor(v);
    if (v < 0)
      v = 0;
    return v >= S ? ~uint64_t(0) : static_cast<uint64_t>(v);
  };
  const uint64_t lo = q(p * (1 - rel) * S - 3), hi = q(p * (1 + rel) * S + 3);
  for (size_t i = 0; i < 8; i++) {
    l[i] = static_cast<uint8_t>(lo >> (56 - 8 * i));
    h[i] = static_cast<uint8_t>(hi >> (56 - 8 * i));
  }
}
// One Bernoulli trial of probability p (given as mantissa*2^e relative slack)
static outcome
bern(long double p, const uint8_t* t, size_t n)
{
  uint8_t l[8], h[8];
  thresholds(p, l, h);
  for (size_t i = 0; i < 8; i++) {
    const int a = l[i], b = h[i];
    if (a != b)
      return { false, true, 0 };
    if (i >= n)
      return { false, false, i }; // out of bytes
    if (t[i] != a)
      return { t[i] < a, false, i + 1 };
  }
  return { false, false, 8 };
}
// returns false if numerically ambiguous
static bool
simulate(double mu, double sp, double smin, const bytes& t, int64_t& z, size_t& used, bool& done, int& rej, bool be = true)
{
  const long double fl = std::floor(static_cast<long double>(mu)), r = static_cast<long double>(mu) - fl;
  size_t i = 0;
  rej = 0;
  done = false;
  while (i + 11 <= t.size()) {
    u128 u = 0;
    for (size_t k = 0; k < 9; k++)
      u = (u << 8) | t[i + (be ? k : 8 - k)];
    i += 9;
    const int z0 = base(u);
    const int b = t[i++] & 1;
    const int zz = b ? 1 + z0 : -z0;
    const long double d = zz - r;
    const long double x = d * d / (2 * static_cast<long double>(sp) * sp) - static_cast<long double>(z0) * z0 / (2 * 1.8205L * 1.8205L);
    const long double p = static_cast<long double>(smin) / sp * std::exp(-x);
    const auto o = bern(p, t.data() + i, t.size() - i);
    if (o.amb)
      return false;
    i += o.used;
    if (o.accept) {
      z = static_cast<int64_t>(fl) + zz;
      used = i;
      done = true;
      return true;
    }
    rej++;
  }
  used = i;
  return true;
}
static void
tape_one(double mu, double sp, double smin, const bytes& t)
{
  int64_t z = 0;
  size_t used = 0;
  bool done = false;
  int rej = 0;
  if (!simulate(mu, sp, smin, t, z, used, done, rej)) {
    n_amb++;
    return;
  }
  vh::gbuf g(t);
  const auto [zz, n] = samplerz::samplerz(mu, sp, smin, static_cast<const uint8_t*>(g.data()), g.n);
  VH_REQUIRE(n <= g.n, "tape-over-read", "centre %.17g width %.17g: claims %zu of %zu bytes", mu, sp, n, g.n);
  n_rej.add(static_cast<uint64_t>(rej));
  if (!done) { // tape too short: nothing is promised but staying inside it
    n_short++;
    return;
  }
  VH_REQUIRE(zz == z && n == used, "tape", "centre %.17g width %.17g sigma_min %.17g tape %s: got %d after %zu bytes, must be %ld after %zu", mu, sp, smin, vh::hex(t.data(), std::min<size_t>(t.size(), 60)).c_str(), zz, n,
             static_cast<long>(z), used);
  n_tape++;
  vh::eval();
}
VH_SUITE(tapes, 2000, 60000)
{
  for (int it = 0; it < 100; it++) {
    const double smin = ref::sigma_min(c.rng.below(2) ? 512 : 1024), sp = width(c.rng, smin), mu = centre(c.rng);
    bytes t(c.rng.below(8) ? 200 + c.rng.below(2000) : c.rng.below(60));
    c.rng.fill(t.data(), t.size());
    const auto mode = c.rng.below(6);
    if (mode == 0) // small first bytes: large deviations
      for (size_t i = 0; i < t.size(); i += 11)
        for (size_t k = 0; k < 1 + c.rng.below(9) && i + k < t.size(); k++)
          t[i + k] = 0;
    else if (mode == 1) // table entries exactly
      for (size_t i = 0; i + 9 <= t.size(); i += 11) {
        const u128 u = rcdt()[c.rng.below(18)] - c.rng.below(2);
        for (int k = 0; k < 9; k++)
          t[i + k] = static_cast<uint8_t>(u >> (8 * (8 - k)));
      }
    else if (mode == 2)
      for (auto& b : t)
        if (c.rng.below(3) == 0)
          b = c.rng.below(2) ? 255 : 0;
    vh::distinct(vh::hash_bytes(t.data(), t.size(), vh::hash_bytes(&mu, 8)));
    tape_one(mu, sp, smin, t);
  }
}
// Tapes whose Bernoulli trials are decided next to their thresholds: as many
// bytes as the reference can be sure of equal the threshold's, the next one is
// one beside it. Base samples of every size, up to the largest.
static bytes
edge_tape(vh::rng_t& r, double mu, double sp, double smin, bool be)
{
  bytes t;
  const long double fr = static_cast<long double>(mu) - std::floor(static_cast<long double>(mu));
  for (size_t a = 1 + r.below(5); a--;) {
    const int z0 = static_cast<int>(r.below(3) ? r.below(19) : r.below(6)), sg = static_cast<int>(r.below(2));
    const u128 lo = z0 >= 18 ? 0 : rcdt()[z0], hi = z0 == 0 ? u128(1) << 72 : rcdt()[z0 - 1];
    const u128 x = u128(r.next()) << 64 | r.next();
    const u128 u = r.below(4) ? lo + x % (hi - lo) : r.below(2) ? lo : hi - 1;
    for (int k = 0; k < 9; k++)
      t.push_back(static_cast<uint8_t>(u >> (8 * (be ? 8 - k : k))));
    t.push_back(static_cast<uint8_t>((r.next() & 0xfe) | static_cast<uint64_t>(sg)));
    const long double d = (sg ? 1 + z0 : -z0) - fr;
    const long double xx = d * d / (2 * static_cast<long double>(sp) * sp) - static_cast<long double>(z0) * z0 / (2 * 1.8205L * 1.8205L);
    uint8_t l[8], h[8];
    thresholds(static_cast<long double>(smin) / sp * std::exp(-xx), l, h);
    size_t same = 0;
    while (same < 8 && l[same] == h[same])
      same++;
    const size_t k = same - (same && r.below(3) == 0 ? r.below(same) : 0);
    for (size_t i = 0; i + 1 < k; i++)
      t.push_back(l[i]);
    if (k) {
      const int w = l[k - 1] + (r.below(2) ? 1 : -1);
      t.push_back(static_cast<uint8_t>(w < 0 ? 0 : w > 255 ? 255 : w));
      if (w < 0 || w > 255)
        for (size_t i = k; i < 8; i++)
          t.push_back(static_cast<uint8_t>(r.next()));
    }
  }
  for (int i = 0; i < 120; i++)
    t.push_back(static_cast<uint8_t>(r.next()));
  return t;
}
VH_SUITE(edge_tapes, 1500, 60000)
{
  for (int it = 0; it < 60; it++) {
    const double smin = ref::sigma_min(c.rng.below(2) ? 512 : 1024), sp = width(c.rng, smin), mu = centre(c.rng);
    const auto t = edge_tape(c.rng, mu, sp, smin, true);
    vh::distinct(vh::hash_bytes(t.data(), t.size(), vh::hash_bytes(&mu, 8)));
    tape_one(mu, sp, smin, t);
  }
}

// The version that draws from the generator, on chosen generator output. Its
// way of drawing is observed first (byte order of the base sample, bytes used);
// what is exact on ordinary output must be exact on any.
struct endless : vhook::source_t
{
  const bytes& t;
  size_t i = 0;
  endless(const bytes& t)
    : t(t)
  {
  }
  void fill(uint8_t* b, size_t k) override
  {
    for (size_t j = 0; j < k; j++, i++)
      b[j] = i < t.size() ? t[i] : 0;
  }
};
static int
gen_sampler(double mu, double sp, double smin, const bytes& t, size_t& used)
{
  prng::prng_t rng;
  endless e(t);
  with_source w(e);
  const int z = samplerz::samplerz(mu, sp, smin, rng);
  used = e.i;
  return z;
}
struct way_t
{
  bool value, use, be;
};
static way_t
way()
{
  static const way_t w = [] {
    for (bool be : { false, true }) {
      way_t w{ true, true, be };
      vh::rng_t r(4711);
      for (int i = 0; i < 200; i++) {
        const double mu = 40 * r.unit() - 20, sp = 1.3 + 0.5 * r.unit();
        bytes t(800);
        r.fill(t.data(), t.size());
        int64_t z = 0;
        size_t used = 0, u2 = 0;
        bool done = false;
        int rej = 0;
        if (!simulate(mu, sp, ref::sigma_min(512), t, z, used, done, rej, be) || !done)
          continue;
        w.value &= gen_sampler(mu, sp, ref::sigma_min(512), t, u2) == z;
        w.use &= u2 == used;
      }
      if (w.value)
        return w;
    }
    return way_t{ false, false, false };
  }();
  return w;
}
VH_SUITE(generator_tapes, 1500, 60000)
{
  const auto y = way();
  if (!y.value) {
    n_noway++;
    return;
  }
  for (int it = 0; it < 60; it++) {
    const double smin = ref::sigma_min(c.rng.below(2) ? 512 : 1024), sp = width(c.rng, smin), mu = centre(c.rng);
    const auto t = edge_tape(c.rng, mu, sp, smin, y.be);
    int64_t z = 0;
    size_t used = 0, u2 = 0;
    bool done = false;
    int rej = 0;
    if (!simulate(mu, sp, smin, t, z, used, done, rej, y.be)) {
      n_amb++;
      continue;
    }
    if (!done)
      continue;
    const int got = gen_sampler(mu, sp, smin, t, u2);
    VH_REQUIRE(got == z && (u2 == used || !y.use), "generator-tape", "centre %.17g width %.17g sigma_min %.17g generator output %s: got %d after %zu bytes, must be %ld after %zu", mu, sp, smin,
               vh::hex(t.data(), std::min<size_t>(t.size(), 60)).c_str(), got, u2, static_cast<long>(z), used);
    vh::distinct(vh::hash_bytes(t.data(), t.size(), vh::hash_bytes(&mu, 8)));
    n_gtape++;
    vh::eval();
  }
}
VH_SUITE(kats, 1, 1)
{
  FILE* f = fopen((ref::data_dir + "/samplerz_kats.txt").c_str(), "r");
  if (!f)
    exit(3);
  double mu, sp, smin;
  char hx[1024];
  int z;
  while (fscanf(f, "%lf %lf %lf %1023s %d", &mu, &sp, &smin, hx, &z) == 5) {
    bytes t;
    for (size_t i = 0; hx[i]; i += 2) {
      unsigned v;
      sscanf(hx + i, "%2x", &v);
      t.push_back(static_cast<uint8_t>(v));
    }
    for (int extra = 0; extra < 2; extra++) { // with and without bytes to spare
      vh::gbuf g(t);
      const auto [zz, n] = samplerz::samplerz(mu, sp, smin, static_cast<const uint8_t*>(g.data()), g.n);
      VH_REQUIRE(zz == z, "kat", "centre %.17g width %.17g bytes %s: got %d, must be %d", mu, sp, hx, zz, z);
      VH_REQUIRE(n == strlen(hx) / 2, "kat", "centre %.17g: consumed %zu bytes, must be %zu", mu, n, strlen(hx) / 2);
      int64_t z2;
      size_t used;
      bool done;
      int rej;
      if (simulate(mu, sp, smin, t, z2, used, done, rej) && !(done && z2 == z && used == n)) {
        fprintf(stderr, "reference disagrees with a specification vector\n");
        exit(3);
      }
      t.insert(t.end(), 40, 0xff);
    }
    n_kat++;
    vh::eval();
  }
  fclose(f);
}
