// Every emitted signature, judged bit by bit by the reference: layout,
// canonical body, exact norm; and the distribution of what is emitted.
#include "steered.inc"
#include <algorithm>
using namespace glue;

static vh::counter_t n_sig("signatures_judged"), n_near("norm_within_2_percent_below_the_bound"), n_one("one_shot"), n_fresh("with_fresh_keys"), n_forced("calls_with_forced_deviations"), n_att("attempts_rejected_in_those"),
  n_same("signatures_of_one_message"), n_long("bodies_with_8_or_fewer_padding_bits");
static vh::counter_t m_max512("largest_norm_512", vh::counter_t::MAX), m_max1024("largest_norm_1024", vh::counter_t::MAX);

// per parameter set: n, sum norm, sum norm^2, s1, s2 energies, even/odd, signs
struct stats_t
{
  vh::acc_t tot, key, pos, lag, var;
  size_t N;
  explicit stats_t(size_t N)
    : tot(16)
    , key(64 * 4)
    , pos(2 * 1024 * 2)
    , lag(3 * 1024)
    , var(2)
    , N(N)
  {
  }
  void add(const ref::verdict& v, size_t k)
  {
    const double S2 = ref::sigma(N) * ref::sigma(N), E = 2 * static_cast<double>(N) * S2;
    const double x = static_cast<double>(v.norm) / E, y1 = static_cast<double>(ref::sqnorm(v.s1)) / E * 2, y2 = static_cast<double>(ref::sqnorm(v.s2)) / E * 2;
    tot[0] += 1;
    tot[1] += x;
    tot[2] += (x - 1) * (x - 1);
    tot[3] += y1;
    tot[4] += y2;
    tot[5] += (y1 - 1) * (y2 - 1);
    if (k < 64) {
      key[k * 4] += 1;
      key[k * 4 + 1] += x;
      key[k * 4 + 2] += y1;
      key[k * 4 + 3] += y2;
    }
    double k4 = 0;
    double* const p = &pos[0];
    for (size_t i = 0; i < N; i++) {
      const double a = static_cast<double>(v.s1[i]), b = static_cast<double>(v.s2[i]);
      p[i * 2] += a;
      p[i * 2 + 1] += a * a / S2;
      p[(1024 + i) * 2] += b;
      p[(1024 + i) * 2 + 1] += b * b / S2;
      k4 += (a * a / S2) * (a * a / S2) + (b * b / S2) * (b * b / S2);
    }
    tot[6] += k4 / static_cast<double>(2 * N);
  }
  // correlation of neighbouring coefficients, all lags; costlier
  void correlate(const ref::verdict& v)
  {
    static thread_local std::vector<double> a, b;
    a.assign(v.s1.begin(), v.s1.end());
    b.assign(v.s2.begin(), v.s2.end());
    const double u = 1 / (ref::sigma(N) * ref::sigma(N));
    double* const p = &lag[0];
    for (size_t l = 0; l < N; l++) {
      double x = 0, y = 0, z = 0;
      for (size_t i = 0; i + l < N; i++) {
        x += a[i] * a[i + l];
        y += b[i] * b[i + l];
        z += a[i] * b[i + l];
      }
      p[l] += x * u;
      p[1024 + l] += y * u;
      p[2048 + l] += z * u;
    }
    var[0] += 1;
  }
  void finish()
  {
    const double n = tot.total(0), d = static_cast<double>(N);
    if (n < 300)
      return;
    const double mean = tot.total(1) / n, var_ = tot.total(2) / n, e1 = tot.total(3) / n, e2 = tot.total(4) / n, k4 = tot.total(6) / n, co = tot.total(5) / n;
    const double Z = 7;
    auto want = [&](const char* what, double got, double exp, double sd) {
      if (std::abs(got - exp) > Z * sd)
        vh::note_fail("distribution", "N=%zu, %.0f signatures: %s is %.6f, must be %.6f +- %.6f", N, n, what, got, exp, sd);
    };
    want("mean squared norm / (2 N sigma^2)", mean, 1, std::sqrt(1 / (d * n)));
    want("mean squared norm of s1 / (N sigma^2)", e1, 1, std::sqrt(2 / (d * n)));
    want("mean squared norm of s2 / (N sigma^2)", e2, 1, std::sqrt(2 / (d * n)));
    // (chi^2_{2N}/2N): variance 1/N, fourth moment 3/N^2 (1 + 4/N..)
    want("variance of the squared norm / (2 N sigma^2), times N", var_ * d, 1, std::sqrt(2.2 / n));
    want("covariance of the squared norms of s1 and s2, times N/2", co * d / 2, 0, std::sqrt(1.1 / n));
    want("mean fourth power of a coefficient / sigma^4", k4, 3, std::sqrt(96 / (2 * d * n)));
    for (size_t k = 0; k < 64; k++) {
      const double m = key.total(k * 4);
      if (m < 20)
        continue;
      if (std::abs(key.total(k * 4 + 1) / m - 1) > Z * std::sqrt(1 / (d * m)))
        vh::note_fail("distribution", "N=%zu key %zu, %.0f signatures: mean squared norm / (2 N sigma^2) is %.5f", N, k, m, key.total(k * 4 + 1) / m);
      for (int h = 2; h < 4; h++)
        if (std::abs(key.total(k * 4 + h) / m - 1) > Z * std::sqrt(2 / (d * m)))
          vh::note_fail("distribution", "N=%zu key %zu, %.0f signatures: mean squared norm of s%d / (N sigma^2) is %.5f", N, k, m, h - 1, key.total(k * 4 + h) / m);
    }
    double worst = 0;
    for (size_t j = 0; j < 2 * N; j++) {
      const size_t i = (j < N ? j : 1024 + j - N) * 2;
      const double mu = pos.total(i) / n / ref::sigma(N) * std::sqrt(n), va = (pos.total(i + 1) / n - 1) * std::sqrt(n / 2);
      worst = std::max({ worst, std::abs(mu), std::abs(va) });
      if (std::abs(mu) > 7.5)
        vh::note_fail("distribution", "N=%zu, %.0f signatures: coefficient %zu of s%d has mean %.3f (%.1f standard errors)", N, n, j % N, j < N ? 1 : 2, pos.total(i) / n, mu);
      if (std::abs(va) > 8)
        vh::note_fail("distribution", "N=%zu, %.0f signatures: coefficient %zu of s%d has variance %.4f sigma^2 (%.1f standard errors)", N, n, j % N, j < N ? 1 : 2, pos.total(i + 1) / n, va);
    }
    const double nl = var.total(0);
    if (nl > 100)
      for (size_t w = 0; w < 3; w++)
        for (size_t l = w == 2 ? 0 : 1; l < N; l++) {
          const double z = lag.total(w * 1024 + l) / std::sqrt(static_cast<double>(N - l) * nl);
          // near the ends few products: heavier tails
          const double lim = static_cast<double>(N - l) * nl > 20000 ? 7.5 : 12;
          worst = std::max(worst, std::abs(z));
          if (std::abs(z) > lim)
            vh::note_fail("distribution", "N=%zu, %.0f signatures: coefficients of %s at distance %zu are correlated (%.1f standard errors)", N, nl, w == 0 ? "s1" : w == 1 ? "s2" : "s1 and s2", l, z);
        }
    vh::sample("N=%zu: %.0f honest signatures: mean squared norm %.5f of 2N sigma^2, variance %.4f/N, fourth moment %.4f, worst of %zu per-coefficient and correlation scores %.2f", N, n, mean, var_ * d, k4, 4 * N + 3 * N, worst);
  }
};
static stats_t st512(512), st1024(1024);

template<size_t N>
struct E
{
  static stats_t& st() { return N == 512 ? st512 : st1024; }

  static ref::verdict judge(const bytes& pk, const vh::gbuf& m, const vh::gbuf& sig, const char* how)
  {
    VH_REQUIRE(falcon_utils::compute_sig_len<N>() == (N == 512 ? 666 : 1280), "wrong-size", "N=%zu: the length function says %zu", N, static_cast<size_t>(falcon_utils::compute_sig_len<N>()));
    VH_REQUIRE(sig.intact(), "wrong-size", "N=%zu %s: bytes beyond the %zu of the signature were written", N, how, sig.n);
    VH_REQUIRE(sig[0] == (N == 512 ? 0x39 : 0x3a), "wrong-header", "N=%zu %s: header %02x", N, how, sig[0]);
    const auto v = ref::verify(N, pk.data(), m.data(), m.n, sig.data());
    VH_REQUIRE(v.ok, "not-short", "N=%zu %s, message of %zu bytes: the emitted signature is refused by the reference: %s, norm %ld (bound %ld), header+salt %s", N, how, m.n, v.why, static_cast<long>(v.norm),
               static_cast<long>(ref::beta2(N)), vh::hex(sig.data(), 41).c_str());
    const auto again = ref::compress(v.s2, sig.n - 41);
    VH_REQUIRE(again && memcmp(again->data(), sig.data() + 41, sig.n - 41) == 0, "not-canonical", "N=%zu %s: the body is not the canonical encoding of its coefficients", N, how);
    size_t pad = 0;
    for (size_t b = 0; b < 2 && sig[sig.n - 1 - b] == 0; b++)
      pad++;
    if (pad == 0)
      n_long++;
    (N == 512 ? m_max512 : m_max1024).max(static_cast<uint64_t>(v.norm));
    if (v.norm > ref::beta2(N) / 50 * 49)
      n_near++;
    n_sig++;
    vh::eval();
    vh::distinct(vh::hash_bytes(sig.data(), sig.n));
    return v;
  }

  static void honest(vh::case_t& c)
  {
    const size_t nk = ref::golden(N).size();
    const bool stored = c.idx % 3 != 2;
    const size_t k = stored ? c.idx % nk : 999;
    std::shared_ptr<prep<N>> own;
    bytes pk;
    if (stored)
      pk = ref::golden(N)[k].pk;
    else {
      const basis b = variant<N>(c.rng);
      own = prepare<N>(b.f, b.g, b.F, b.G);
      pk = ref::enc_pk(ref::div_q(b.g, b.f));
    }
    const prep<N>& p = stored ? gold<N>(k) : *own;
    prng::prng_t rng;
    std::unique_ptr<vh::gbuf> m;
    vh::gbuf sig(ref::sig_len(N), static_cast<int>(c.rng.below(256)));
    const bool same = c.idx % 4 == 0;
    for (int i = 0; i < 24; i++) {
      if (!same || !m)
        m = std::make_unique<vh::gbuf>(message(c.rng, msg_len(c.rng, 2000)));
      else
        n_same++;
      sign_prepared<N>(p, *m, sig, rng);
      const auto v = judge(pk, *m, sig, stored ? "stored key" : "derived key");
      st().add(v, k);
      if (i % 4 == 0)
        st().correlate(v);
    }
    if (c.idx < 4)
      vh::sample("N=%zu %s, 24 signatures of %s: header, canonical body and exact norm right", N, stored ? "stored key" : "derived key", same ? "one message" : "different messages");
  }
  static void oneshot(vh::case_t& c)
  {
    const basis b = variant<N>(c.rng);
    const bytes pk = ref::enc_pk(ref::div_q(b.g, b.f));
    vh::gbuf sk(ref::enc_sk(b.f, b.g, b.F)), sig(ref::sig_len(N), static_cast<int>(c.rng.below(256)));
    for (int i = 0; i < 3; i++) {
      vh::gbuf m(message(c.rng, msg_len(c.rng, 2000)));
      VH_REQUIRE(sign_oneshot<N>(sk, m, sig), "sign-failed", "N=%zu one-shot signing with a correct key returned false", N);
      st().add(judge(pk, m, sig, "one-shot"), 999);
      n_one++;
    }
  }
  static void fresh(vh::case_t& c)
  {
    vh::gbuf pk(ref::pk_len(N)), sk(ref::sk_len(N)), sig(ref::sig_len(N));
    falcon::keygen<N>(pk.data(), sk.data());
    const bytes p(pk.data(), pk.data() + pk.n);
    for (int i = 0; i < 12; i++) {
      vh::gbuf m(message(c.rng, msg_len(c.rng, 2000)));
      VH_REQUIRE(sign_oneshot<N>(sk, m, sig), "sign-failed", "N=%zu one-shot signing with a fresh key returned false", N);
      st().add(judge(p, m, sig, "fresh key"), 999);
      n_fresh++;
    }
  }
  // A few sampler outputs pushed to their largest deviation in every attempt:
  // squared norms of the attempts spread around the bound, so many attempts are
  // rejected and many signatures lie just below.
  static void forced(vh::case_t& c)
  {
    const size_t k = c.rng.below(ref::golden(N).size());
    const auto& p = gold<N>(k);
    const double per = (N == 512 ? 1.5 : 3.0) * (0.4 + 1.1 * c.rng.unit());
    for (int i = 0; i < 4; i++) {
      forced_t src(c.rng.next(), 40, ~0ull, per / (2.0 * static_cast<double>(N)) * 0.58, 0);
      prng::prng_t rng;
      vh::gbuf m(message(c.rng, c.rng.below(80))), sig(ref::sig_len(N));
      draw_t d(400ull * 40 * N);
      {
        with_source w(src);
        try {
          sign_prepared<N>(p, m, sig, rng);
        } catch (const vhook::budget_exceeded&) {
          vh::fail("unbounded", "N=%zu: no signature after 400 attempts although about half of them are acceptable", N);
        }
      }
      n_forced++;
      n_att.add(d.bytes() / (38 * N));
      judge(ref::golden(N)[k].pk, m, sig, "deviations forced");
    }
  }
};

VH_FINISH(distribution)
{
  st512.finish();
  st1024.finish();
}
VH_SUITE(fresh1024, 3, 120)
{
  E<1024>::fresh(c);
}
VH_SUITE(fresh512, 16, 800)
{
  E<512>::fresh(c);
}
VH_SUITE(honest512, 500, 30000)
{
  E<512>::honest(c);
}
VH_SUITE(honest1024, 220, 14000)
{
  E<1024>::honest(c);
}
VH_SUITE(oneshot512, 300, 12000)
{
  E<512>::oneshot(c);
}
VH_SUITE(oneshot1024, 150, 6000)
{
  E<1024>::oneshot(c);
}
VH_SUITE(forced512, 1500, 40000)
{
  E<512>::forced(c);
}
VH_SUITE(forced1024, 700, 20000)
{
  E<1024>::forced(c);
}

// Attempts led to chosen outcomes: just within and just over the norm bound,
// bodies exactly full or one bit too long, single huge coefficients.
template<size_t N>
static void
steered_case(vh::case_t& c)
{
  using W = steered::world<N>;
  if (!W::available())
    return;
  W w(c.rng);
  const bytes pk = ref::enc_pk(w.h);
  for (size_t j = 0; j < 4; j++) {
    const unsigned kind = j == 0 ? static_cast<unsigned>(c.idx) : 2 + static_cast<unsigned>(c.rng.below(6));
    const auto v = w.mixture(kind);
    vh::gbuf sig(ref::sig_len(N), static_cast<int>(c.rng.below(256)));
    w.sign(v, sig, false);
    const auto x = ref::verify(N, pk.data(), w.msg.data(), w.msg.size(), sig.data());
    VH_REQUIRE(x.ok, "not-short-and-well-formed", "N=%zu signing led to an attempt of squared norm %ld (bound %ld) and %zu body bits (of %zu), then an acceptable one: emitted signature is not valid: %s, norm %ld", N, static_cast<long>(v[0].norm), static_cast<long>(ref::beta2(N)),
               W::need(v[0].s2), W::cap, x.why, static_cast<long>(x.norm));
    vh::eval();
    vh::distinct(vh::hash_bytes(sig.data(), sig.n));
    n_sig++;
    if (c.idx < 2 && j < 2)
      vh::sample("N=%zu led to an attempt with squared norm %ld (bound %ld), %zu body bits (of %zu): emitted norm %ld", N, static_cast<long>(v[0].norm), static_cast<long>(ref::beta2(N)), W::need(v[0].s2), W::cap, static_cast<long>(x.norm));
  }
}
VH_SUITE(steered512, 160, 6000)
{
  steered_case<512>(c);
}
VH_SUITE(steered1024, 120, 4000)
{
  steered_case<1024>(c);
}
