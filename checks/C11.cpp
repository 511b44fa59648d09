// Lattice sampling. Every emitted signature is mapped back, with the secret
// basis, to the 2N normalised residuals (z - t')/sigma' its sampling steps must
// have had; those are independent and normal when each step follows its
// discrete Gaussian, whatever the key and target. Only public outputs and the
// key enter; nothing depends on how the sampler is written or which random
// bytes it uses.
#include "replay.hpp"
#include "steered.inc"
using namespace glue;

static vh::counter_t n_led("led_attempts_reproduced_exactly"), n_sig("signatures"), n_step("sampling_steps_judged"), n_keys("key_images_used"), n_fix("signatures_of_one_fixed_target"), n_one("one-shot_signatures"), n_cell("width_x_fraction_cells_populated"), n_rep("attempts_replayed_step_by_step"), n_rep_off("replay_not_available"), n_rep_amb("replays_given_up_as_numerically_ambiguous"), n_rep_next("replays_whose_first_attempt_was_not_to_be_used");

using cd = std::complex<double>;

static const std::vector<cd>&
zetas(size_t n)
{
  static thread_local std::map<size_t, std::vector<cd>> m;
  auto& v = m[n];
  if (v.empty())
    for (size_t j = 0; j < n; j++) {
      const long double a = 3.14159265358979323846264338327950288L * (2 * static_cast<long double>(j) + 1) / static_cast<long double>(n);
      v.push_back(cd(static_cast<double>(std::cos(a)), static_cast<double>(std::sin(a))));
    }
  return v;
}
// values at exp(i pi (2j+1)/n), by even/odd halves
static void
ev(const double* a, size_t n, size_t st, cd* out)
{
  if (n == 1) {
    out[0] = a[0];
    return;
  }
  std::vector<cd> e(n / 2), o(n / 2);
  ev(a, n / 2, 2 * st, e.data());
  ev(a + st, n / 2, 2 * st, o.data());
  const auto& z = zetas(n);
  for (size_t j = 0; j < n / 2; j++) {
    const cd t = z[j] * o[j];
    out[j] = e[j] + t;
    out[j + n / 2] = e[j] - t;
  }
}
static std::vector<cd>
eval(const ivec& a)
{
  std::vector<double> d(a.begin(), a.end());
  std::vector<cd> r(a.size());
  ev(d.data(), a.size(), 1, r.data());
  return r;
}
static void
split(const std::vector<cd>& f, std::vector<cd>& e, std::vector<cd>& o)
{
  const size_t n = f.size();
  const auto& z = zetas(n);
  e.resize(n / 2);
  o.resize(n / 2);
  for (size_t j = 0; j < n / 2; j++) {
    e[j] = (f[j] + f[j + n / 2]) * 0.5;
    o[j] = (f[j] - f[j + n / 2]) * 0.5 * std::conj(z[j]);
  }
}

struct ctree
{
  std::vector<cd> l;
  double sig = 0;
  std::unique_ptr<ctree> left, right;
};
static std::unique_ptr<ctree>
conv(const ref::tree* t, double sigma)
{
  auto r = std::make_unique<ctree>();
  if (!t->left) {
    r->sig = sigma / static_cast<double>(std::sqrt(t->d));
    return r;
  }
  for (auto v : ref::eval_c(t->l))
    r->l.push_back(cd(static_cast<double>(v.real()), static_cast<double>(v.imag())));
  r->left = conv(t->left, sigma);
  r->right = conv(t->right, sigma);
  return r;
}
// natural-order evaluations: ref::eval_c uses the same points in the same order
template<size_t N>
struct K
{
  basis b;
  std::vector<cd> f, g, F, G;
  ivec h;
  std::unique_ptr<ctree> T;
  std::shared_ptr<prep<N>> P;
  double n0, n1; // norms of (g,-f), (G,-F)
  vh::gbuf sk;
  explicit K(const basis& b_)
    : b(b_)
    , sk(ref::enc_sk(b.f, b.g, b.F))
  {
    f = eval(b.f);
    g = eval(b.g);
    F = eval(b.F);
    G = eval(b.G);
    h = ref::div_q(b.g, b.f);
    std::unique_ptr<ref::tree> t(ref::key_tree(b.f, b.g, b.F, b.G));
    T = conv(t.get(), ref::sigma(N));
    P = prepare<N>(b.f, b.g, b.F, b.G);
    n0 = std::sqrt(static_cast<double>(ref::sqnorm(b.f) + ref::sqnorm(b.g)));
    n1 = std::sqrt(static_cast<double>(ref::sqnorm(b.F) + ref::sqnorm(b.G)));
    n_keys++;
  }
};

static void
walk(const std::vector<cd>& u0, const std::vector<cd>& u1, const ctree* t, double*& out, double*& sg)
{
  std::vector<cd> a, b;
  if (!t->left) {
    *out++ = u0[0].real() / t->sig;
    *out++ = u1[0].real() / t->sig;
    *sg++ = t->sig;
    *sg++ = t->sig;
    return;
  }
  const size_t n = u0.size();
  split(u1, a, b);
  walk(a, b, t->right.get(), out, sg);
  std::vector<cd> m(n);
  for (size_t i = 0; i < n; i++)
    m[i] = u0[i] + u1[i] * t->l[i];
  split(m, a, b);
  walk(a, b, t->left.get(), out, sg);
}

constexpr size_t HB = 64; // pooled histogram bins on the normal scale
constexpr size_t WB = 20, FB = 20;
template<size_t N>
struct A
{
  // per class (0 fixed key, 1 many keys, 2 fixed target): n, and per coordinate
  // sum x, sum x^2, sum x_i x_{i+1}, sum x_i(sig) x_i(next sig)
  inline static vh::acc_t cnt{ 3 }, lag_n{ 3 }, sx{ 3 * 2 * N }, sxx{ 3 * 2 * N }, sxy{ 3 * 2 * N }, slag{ 3 * 2 * N }, q4{ 3 * 2 * N };
  inline static vh::acc_t hist{ 3 * HB };
  // by (width of the leaf, fractional part of the centre): n, sum x, sum x^2
  inline static vh::acc_t gn{ WB * FB }, gx{ WB * FB }, gxx{ WB * FB };
  inline static vh::acc_t s{ 3 * 2 * N }, ss{ 3 * 2 * N }; // s1, s2 coefficients
  inline static vh::acc_t p0{ 3 }, p1{ 3 }, p0q{ 3 }, p1q{ 3 };
  inline static vh::acc_t nrm{ 3 * 2 };

  static void judge(int cls, const K<N>& k, const vh::gbuf& msg, const vh::gbuf& sig, std::vector<double>& prev)
  {
    const auto s2 = ref::decompress(N, sig.data() + 41, ref::sig_len(N) - 41);
    VH_REQUIRE(s2.has_value(), "malformed-signature", "N=%zu", N);
    ivec s1 = ref::hash_to_point(N, sig.data() + 1, msg.data(), msg.n);
    const ivec m = ref::mul_q(*s2, k.h);
    for (size_t i = 0; i < N; i++)
      s1[i] = ref::centre(ref::mod(s1[i] - m[i]));
    const auto a = eval(s1), b = eval(*s2);
    std::vector<cd> u0(N), u1(N);
    const double iq = 1. / 12289;
    double pr0 = 0, pr1 = 0;
    for (size_t i = 0; i < N; i++) {
      u0[i] = -(a[i] * k.F[i] + b[i] * k.G[i]) * iq;
      u1[i] = (a[i] * k.f[i] + b[i] * k.g[i]) * iq;
      // energy of the projections on all rotations of (g,-f) and (G,-F)
      pr0 += std::norm(a[i] * std::conj(k.g[i]) - b[i] * std::conj(k.f[i]));
      pr1 += std::norm(a[i] * std::conj(k.G[i]) - b[i] * std::conj(k.F[i]));
    }
    std::vector<double> x(2 * N), lsig(2 * N);
    double *o = x.data(), *o2 = lsig.data();
    walk(u0, u1, k.T.get(), o, o2);
    double far = 0;
    for (auto v : x)
      far = std::max(far, std::fabs(v));
    // 2N steps of probability 2 exp(-98) each
    VH_REQUIRE(far < 14, "impossible-residual", "N=%zu a sampling step is %.1f standard deviations from its target", N, far);
    const double sg = ref::sigma(N);
    for (size_t i = 0; i < 2 * N; i++) {
      const size_t j = static_cast<size_t>(cls) * 2 * N + i;
      const double v = x[i], w = x[(i + 1) % (2 * N)];
      sx[j] += v;
      sxx[j] += v * v;
      q4[j] += v * v * v * v;
      sxy[j] += v * w;
      if (!prev.empty())
        slag[j] += v * prev[i];
      const double sc = static_cast<double>(i < N ? s1[i] : (*s2)[i - N]) / sg;
      s[j] += sc;
      ss[j] += sc * sc;
      // centre mod 1: residual = centre - integer
      const double fr = v * lsig[i] - std::floor(v * lsig[i]);
      const double wd = (lsig[i] - ref::sigma_min(N)) / (ref::sigma_max - ref::sigma_min(N));
      const size_t cell = std::min(WB - 1, static_cast<size_t>(std::max(0., wd) * WB)) * FB + std::min(FB - 1, static_cast<size_t>(fr * FB));
      gn[cell]++;
      gx[cell] += v;
      gxx[cell] += v * v;
      const double u = 0.5 * std::erfc(-v / std::sqrt(2.));
      hist[static_cast<size_t>(cls) * HB + std::min(HB - 1, static_cast<size_t>(u * HB))]++;
    }
    if (!prev.empty())
      lag_n[cls]++;
    prev = x;
    cnt[cls]++;
    const double dn = static_cast<double>(N);
    pr0 /= dn * dn * k.n0 * k.n0 * sg * sg; // mean 1
    pr1 /= dn * dn * k.n1 * k.n1 * sg * sg;
    p0[cls] += pr0;
    p0q[cls] += pr0 * pr0;
    p1[cls] += pr1;
    p1q[cls] += pr1 * pr1;
    nrm[cls * 2] += static_cast<double>(ref::sqnorm(s1)) / (dn * sg * sg);
    nrm[cls * 2 + 1] += static_cast<double>(ref::sqnorm(*s2)) / (dn * sg * sg);
    n_sig++;
    n_step.add(2 * N);
    vh::eval();
    vh::distinct(vh::hash_bytes(sig.data() + 1, 60));
  }

  struct fixed_salt : vhook::source_t
  {
    vh::rng_t r;
    size_t seen = 0;
    explicit fixed_salt(uint64_t s)
      : r(s)
    {
    }
    void fill(uint8_t* p, size_t n) override
    {
      if (seen < 40 && n <= 40 - seen)
        memset(p, 0x5c, n);
      else
        r.fill(p, n);
      seen += n;
    }
  };

  static void batch(vh::case_t& c, int cls)
  {
    const auto& ks = ref::golden(N);
    static std::unique_ptr<K<N>> g0;
    std::unique_ptr<K<N>> own;
    const K<N>* k;
    if (cls == 1) {
      own = std::make_unique<K<N>>(variant<N>(c.rng));
      k = own.get();
    } else {
      if (!g0)
        g0 = std::make_unique<K<N>>(basis{ ks[0].f, ks[0].g, ks[0].F, ks[0].G });
      k = g0.get();
    }
    std::vector<double> prev;
    prng::prng_t rng;
    for (int i = 0; i < 25; i++) {
      const bytes m = cls == 2 ? bytes{ 'f', 'i', 'x', 'e', 'd' } : message(c.rng, msg_len(c.rng, 300));
      vh::gbuf msg(m), sig(ref::sig_len(N));
      if (cls == 2) {
        fixed_salt src(c.rng.next());
        with_source w(src);
        sign_prepared<N>(*k->P, msg, sig, rng);
        n_fix++;
      } else if (cls == 1 && i % 8 == 7) {
        VH_REQUIRE(sign_oneshot<N>(k->sk, msg, sig), "valid-key-refused", "N=%zu", N);
        n_one++;
      } else {
        sign_prepared<N>(*k->P, msg, sig, rng);
      }
      judge(cls, *k, msg, sig, prev);
    }
    if (c.idx == 0)
      vh::sample("N=%zu class %d: residuals of the last signature start %.4f %.4f %.4f %.4f", N, cls, prev[0], prev[1], prev[2], prev[3]);
  }

  static void finish()
  {
    double cells = 0, wz = 0;
    for (size_t i = 0; i < WB * FB; i++) {
      const double n = gn.total(i);
      if (n < 5000)
        continue;
      cells++;
      // The variance of x^2 stays near 2 for every fractional part (the widths
      // are above the smoothing parameter).
      const double m = gx.total(i) / std::sqrt(n), v = (gxx.total(i) - n) / std::sqrt(2 * n);
      wz = std::max({ wz, std::fabs(m), std::fabs(v) });
      if (std::fabs(m) > 7.5 || std::fabs(v) > 8)
        return vh::note_fail("conditional-step", "N=%zu sampling steps with leaf width in cell %zu/%zu and centre fraction in cell %zu/%zu: mean %.5f (z=%.1f), variance %.5f (z=%.1f) over %.0f steps", N, i / FB, WB,
                             i % FB, FB, gx.total(i) / n, m, gxx.total(i) / n, v, n);
    }
    n_cell.add(static_cast<uint64_t>(cells));
    for (size_t i = 0; i < WB + FB; i++) { // by width, by fraction
      double n = 0, x = 0, xx = 0;
      for (size_t j = 0; j < WB * FB; j++)
        if (i < WB ? j / FB == i : j % FB == i - WB) {
          n += gn.total(j);
          x += gx.total(j);
          xx += gxx.total(j);
        }
      if (n < 5000)
        continue;
      const double m = x / std::sqrt(n), v = (xx - n) / std::sqrt(2 * n);
      if (std::fabs(m) > 7.5 || std::fabs(v) > 8)
        return vh::note_fail("conditional-step", "N=%zu sampling steps with %s in cell %zu/20: mean %.5f (z=%.1f), variance %.5f (z=%.1f) over %.0f steps", N, i < WB ? "leaf width" : "centre fraction", i % WB, x / n, m, xx / n, v, n);
    }
    vh::sample("N=%zu: %.0f (width, centre fraction) cells populated, worst z %.1f", N, cells, wz);
    static const char* names[] = { "fixed key", "many keys", "fixed target" };
    const size_t D = 2 * N;
    for (size_t cls = 0; cls < 3; cls++) {
      const double n = cnt.total(cls), ln = lag_n.total(cls);
      if (n < 200)
        continue;
      const double rn = std::sqrt(n);
      // about 6 * 1024..2048 * 3 statistics; 7.5 sigma: 6e-14 each, with some
      // allowance for the skewness of the chi-square
      const double Z = 7.5, Zv = 7.5 + 60 / rn;
      double wm = 0, wv = 0, wc = 0, wl = 0, pm = 0, pv = 0, p4 = 0, pc = 0, pl = 0;
      for (size_t i = 0; i < D; i++) {
        const size_t j = cls * D + i;
        const double m = sx.total(j) / rn, v = (sxx.total(j) - n) / (rn * std::sqrt(2.)), cr = sxy.total(j) / rn, lg = slag.total(j) / std::sqrt(std::max(1., ln));
        wm = std::max(wm, std::fabs(m));
        wv = std::max(wv, std::fabs(v));
        wc = std::max(wc, std::fabs(cr));
        wl = std::max(wl, std::fabs(lg));
        pm += m;
        pv += v;
        pc += cr;
        pl += lg;
        p4 += (q4.total(j) - 3 * n) / (rn * std::sqrt(96.));
        if (std::fabs(m) > Z)
          return vh::note_fail("step-mean", "N=%zu %s: sampling step %zu is biased: mean %.4f sigma over %.0f signatures (z=%.1f)", N, names[cls], i, m / rn, n, m);
        if (std::fabs(v) > Zv)
          return vh::note_fail("step-width", "N=%zu %s: sampling step %zu has %.4f times its tree leaf's variance over %.0f signatures (z=%.1f)", N, names[cls], i, sxx.total(j) / n, n, v);
        if (std::fabs(cr) > Zv)
          return vh::note_fail("step-correlation", "N=%zu %s: sampling steps %zu and %zu correlate: %.4f (z=%.1f)", N, names[cls], i, (i + 1) % D, cr / rn, cr);
        if (ln > 100 && std::fabs(lg) > Zv)
          return vh::note_fail("signature-correlation", "N=%zu %s: step %zu correlates between successive signatures (z=%.1f)", N, names[cls], i, lg);
        if (cls != 2) {
          const double sm = s.total(j) / rn, sv = (ss.total(j) - n) / (rn * std::sqrt(2.));
          if (std::fabs(sm) > Z)
            return vh::note_fail("coefficient-mean", "N=%zu %s: coefficient %zu of s%d is biased (z=%.1f)", N, names[cls], i % N, i < N ? 1 : 2, sm);
          if (std::fabs(sv) > Zv)
            return vh::note_fail("coefficient-variance", "N=%zu %s: coefficient %zu of s%d has %.4f times the specified variance (z=%.1f)", N, names[cls], i % N, i < N ? 1 : 2, ss.total(j) / n, sv);
        }
      }
      const double rd = std::sqrt(static_cast<double>(D));
      vh::sample("N=%zu %s: %.0f signatures, %zu steps each; pooled mean %.2e, variance-1 %.2e; worst per-step z: mean %.1f, variance %.1f, neighbours %.1f, successive %.1f", N, names[cls], n, D,
                 pm / (rd * rd * rn), pv * std::sqrt(2.) / (rd * rd * rn), wm, wv, wc, wl);
      const struct
      {
        const char* what;
        double z;
      } pooled[] = { { "mean", pm / rd }, { "variance", pv / rd }, { "fourth moment", p4 / rd }, { "neighbour correlation", pc / rd }, { "successive correlation", ln > 100 ? pl / rd : 0 } };
      for (auto& p : pooled)
        if (std::fabs(p.z) > 7.5)
          return vh::note_fail("pooled-steps", "N=%zu %s: pooled %s of all sampling steps is off (z=%.1f)", N, names[cls], p.what, p.z);
      // The histogram needs uniform fractional parts of the centres, which one
      // fixed target does not give.
      if (cls != 2) {
        double chi = 0;
        const double e = n * static_cast<double>(D) / HB;
        for (size_t i = 0; i < HB; i++)
          chi += (hist.total(cls * HB + i) - e) * (hist.total(cls * HB + i) - e) / e;
        const double df = HB - 1, z = (std::cbrt(chi / df) - (1 - 2 / (9 * df))) / std::sqrt(2 / (9 * df));
        if (z > 7.5)
          return vh::note_fail("pooled-shape", "N=%zu %s: residuals are not normal, chi-square %.1f over %zu bins (z=%.1f)", N, names[cls], chi, HB, z);
        // spherical: energy along every basis direction; and per half
        const struct
        {
          const char* what;
          double m, sd;
        } dirs[] = { { "rotations of (g,-f)", p0.total(cls) / n, std::sqrt(std::max(0., p0q.total(cls) / n - std::pow(p0.total(cls) / n, 2))) },
                     { "rotations of (G,-F)", p1.total(cls) / n, std::sqrt(std::max(0., p1q.total(cls) / n - std::pow(p1.total(cls) / n, 2))) },
                     { "s1", nrm.total(cls * 2) / n, std::sqrt(2. / static_cast<double>(N)) },
                     { "s2", nrm.total(cls * 2 + 1) / n, std::sqrt(2. / static_cast<double>(N)) } };
        for (auto& d : dirs)
          if (std::fabs(d.m - 1) * rn / d.sd > 8)
            return vh::note_fail("not-spherical", "N=%zu %s: variance along %s is %.5f times sigma^2 over %.0f signatures (z=%.1f)", N, names[cls], d.what, d.m, n, (d.m - 1) * rn / d.sd);
      }
    }
  }
};
template struct A<512>;
template struct A<1024>;
VH_SUITE(fixed512, 3500, 100000) { A<512>::batch(c, 0); }
VH_SUITE(many512, 1200, 34000) { A<512>::batch(c, 1); }
VH_SUITE(target512, 800, 25000) { A<512>::batch(c, 2); }
VH_SUITE(fixed1024, 1200, 40000) { A<1024>::batch(c, 0); }
VH_SUITE(many1024, 500, 15000) { A<1024>::batch(c, 1); }
VH_SUITE(target1024, 320, 10000) { A<1024>::batch(c, 2); }
VH_FINISH(stats512) { A<512>::finish(); }
VH_FINISH(stats1024) { A<1024>::finish(); }

// The integer sampler led to chosen values: with every centre as it must be, the
// vector that comes out is known beforehand, to the last coefficient.
template<size_t N>
static void
led(vh::case_t& c)
{
  using W = steered::world<N>;
  if (!W::available())
    return;
  W w(c.rng);
  for (size_t j = 0; j < 6; j++) {
    // widths from rounding (0) to past the usual; restarts included
    std::vector<typename W::plan_t> v;
    if (j == 0)
      v = w.mixture(static_cast<unsigned>(c.idx % 8));
    else
      v = { w.make(ivec(N), ivec(N), j == 1 ? 0 : 0.95 * c.rng.unit()), w.usual() };
    const size_t k = W::first_good(v);
    if (k == v.size())
      continue;
    vh::gbuf sig(ref::sig_len(N));
    size_t att = 0;
    const bool done = w.sign(v, sig, true, &att);
    VH_REQUIRE(done && att <= v.size(), "led-attempt-missed", "N=%zu: sampling steps led to a vector of squared norm %ld with a body of %zu bits; signing %s", N, static_cast<long>(v[k].norm), W::need(v[k].s2), done ? "used further attempts" : "did not accept it");
    const auto s2 = ref::decompress(N, sig.data() + 41, ref::sig_len(N) - 41);
    VH_REQUIRE(s2.has_value(), "led-vector-differs", "N=%zu body malformed", N);
    size_t bad = 0, at = 0;
    for (size_t i = N; i-- > 0;)
      if ((*s2)[i] != v[k].s2[i]) {
        bad++;
        at = i;
      }
    VH_REQUIRE(bad == 0, "led-vector-differs", "N=%zu: with the sampler's offsets given, attempt %zu of %zu must yield an s2 that the emitted one differs from in %zu coefficients (first: %zu, %ld instead of %ld): a sampling step was not centred on the projected target, or an attempt was wrongly dropped or kept", N,
               k + 1, v.size(), bad, at, static_cast<long>((*s2)[at]), static_cast<long>(v[k].s2[at]));
    const ivec sh = ref::mul_q(*s2, w.h);
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(ref::mod(w.c[i] - sh[i]) == ref::mod(v[k].s1[i]), "led-vector-differs", "N=%zu: s1 + s2 h != c at %zu", N, i);
    n_led++;
    vh::eval();
    vh::distinct(vh::hash_bytes(sig.data(), 90));
  }
}
VH_SUITE(led512, 120, 5000)
{
  led<512>(c);
}
VH_SUITE(led1024, 80, 3000)
{
  led<1024>(c);
}

// The bytes a signing call drew, run through the specification's sampler at the
// centres and widths of the reference tree: every one of the 2N steps must give
// the same integer, so the vector that comes out is known to the last
// coefficient. A centre or width off by one part in a thousand, at any step,
// changes the outcome of a step in one of a few signatures.
static void
merge(const std::vector<cd>& e, const std::vector<cd>& o, std::vector<cd>& f)
{
  const size_t n = 2 * e.size();
  const auto& z = zetas(n);
  f.resize(n);
  for (size_t j = 0; j < n / 2; j++) {
    const cd t = z[j] * o[j];
    f[j] = e[j] + t;
    f[j + n / 2] = e[j] - t;
  }
}
struct player
{
  replay::tape t;
  double smin;
  int leaf; // which of the two comes first
  double tail = 0;
  void run(const std::vector<cd>& t0, const std::vector<cd>& t1, const ctree* T, std::vector<cd>& z0, std::vector<cd>& z1)
  {
    const size_t n = t0.size();
    z0.assign(n, 0);
    z1.assign(n, 0);
    if (t.amb || t.dry)
      return;
    if (!T->left) {
      auto one = [&](const cd& c) { return cd(static_cast<double>(t.sample(c.real(), T->sig, smin))); };
      if (leaf == 1)
        z0[0] = one(t0[0]);
      z1[0] = one(t1[0]);
      if (leaf == 2)
        z0[0] = one(t0[0]);
      return;
    }
    std::vector<cd> a, b, x, y, u(n);
    split(t1, a, b);
    run(a, b, T->right.get(), x, y);
    merge(x, y, z1);
    for (size_t i = 0; i < n; i++)
      u[i] = t0[i] + (t1[i] - z1[i]) * T->l[i];
    split(u, a, b);
    run(a, b, T->left.get(), x, y);
    merge(x, y, z0);
  }
};
static void
coefs(const std::vector<cd>& v, std::vector<cd>& out)
{
  if (v.size() == 1) {
    out = v;
    return;
  }
  std::vector<cd> a, b, x, y;
  split(v, a, b);
  coefs(a, x);
  coefs(b, y);
  out.resize(v.size());
  for (size_t i = 0; i < a.size(); i++) {
    out[2 * i] = x[i];
    out[2 * i + 1] = y[i];
  }
}
template<size_t N>
static ivec
ints(const std::vector<cd>& v)
{
  std::vector<cd> c;
  coefs(v, c);
  ivec r;
  for (auto x : c)
    r.push_back(std::llround(x.real()));
  return r;
}
template<size_t N>
static void
replayed(vh::case_t& c)
{
  const int ord = replay::sampler_order(), leaf = steer::leaf_order<N>();
  if (!ord || !leaf) {
    n_rep_off++;
    return;
  }
  const K<N> k(variant<N>(c.rng));
  for (int rep = 0; rep < 12; rep++) {
    const bytes m = message(c.rng, msg_len(c.rng, 300));
    vh::gbuf msg(m), sig(ref::sig_len(N));
    replay::recorder rec(c.rng.next());
    {
      with_source w(rec);
      if (rep % 4 == 3) {
        VH_REQUIRE(sign_oneshot<N>(k.sk, msg, sig), "valid-key-refused", "N=%zu", N);
      } else {
        prng::prng_t rng;
        sign_prepared<N>(*k.P, msg, sig, rng);
      }
    }
    if (rec.log.size() < 40 || memcmp(rec.log.data(), sig.data() + 1, 40) != 0) {
      n_rep_off++;
      continue;
    }
    const ivec h = ref::hash_to_point(N, sig.data() + 1, msg.data(), msg.n);
    const auto C = eval(h);
    std::vector<cd> t0(N), t1(N), z0, z1;
    for (size_t i = 0; i < N; i++) {
      t0[i] = -C[i] * k.F[i] / 12289.;
      t1[i] = C[i] * k.f[i] / 12289.;
    }
    player p{ replay::tape(rec.log.data() + 40, rec.log.size() - 40, ord - 1, 1e-7), ref::sigma_min(N), leaf };
    p.run(t0, t1, k.T.get(), z0, z1);
    if (p.t.amb) {
      n_rep_amb++;
      continue;
    }
    const ivec Z0 = ints<N>(z0), Z1 = ints<N>(z1), a = ref::mul_z(Z0, k.b.g), b = ref::mul_z(Z1, k.b.G), x = ref::mul_z(Z0, k.b.f), y = ref::mul_z(Z1, k.b.F);
    ivec s1(N), s2(N);
    size_t bits = 0;
    for (size_t i = 0; i < N; i++) {
      s1[i] = h[i] - a[i] - b[i];
      s2[i] = x[i] + y[i];
      bits += 9 + static_cast<size_t>(std::abs(s2[i]) >> 7);
    }
    const int64_t norm = ref::sqnorm(s1) + ref::sqnorm(s2);
    if (!p.t.dry && (norm > ref::beta2(N) || bits > 8 * (ref::sig_len(N) - 41))) {
      n_rep_next++;
      continue;
    }
    const auto got = ref::decompress(N, sig.data() + 41, ref::sig_len(N) - 41);
    VH_REQUIRE(got.has_value(), "malformed-signature", "N=%zu", N);
    size_t bad = 0;
    for (size_t i = 0; i < N; i++)
      bad += (*got)[i] != s2[i];
    VH_REQUIRE(!p.t.dry && !bad && p.t.at == p.t.n, "step-differs",
               "N=%zu: with the %zu random bytes drawn, sampling around the projected targets with the widths of the tree leaves gives %s (%zu bytes used); the signature differs in %zu coefficients: a step had another centre or width, or was not taken",
               N, p.t.n, p.t.dry ? "no vector yet" : "another vector", p.t.at, bad);
    n_rep++;
    n_step.add(2 * N);
    vh::eval();
    vh::distinct(vh::hash_bytes(sig.data(), 90));
  }
}
VH_SUITE(replayed512, 250, 10000)
{
  replayed<512>(c);
}
VH_SUITE(replayed1024, 120, 5000)
{
  replayed<1024>(c);
}
