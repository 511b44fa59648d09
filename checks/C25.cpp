// Bounded work: random bytes drawn by every signing, key generation and
// sampler call, against per-call limits and the rates the algorithms imply.
#include "replay.hpp"
#include "steered.inc"
#include <algorithm>
using namespace glue;

static vh::counter_t n_sig("signing_calls"), n_restart("signing_calls_with_more_than_one_attempt"), n_kg("key_generations"), n_cand("candidate_pairs_estimated"), n_kgmax("key_generations_with_more_than_40_candidates"),
  n_burst("calls_finishing_after_a_burst_of_bad_randomness"), n_burstatt("attempts_rejected_in_bursts"), n_samp("sampler_calls"), n_cells("sampler_cells"), n_refc("reference_candidates"), n_refok("reference_candidates_acceptable");

static vh::counter_t n_exact("steered_calls_with_exact_attempt_count"), n_acc("candidates_accepted_at_once"), n_rej("candidates_rejected"), n_acceptable("acceptable_candidates_offered");
static vh::counter_t n_coff("consumption_not_comparable"), n_cons("sampler_calls_with_exact_consumption"), n_deep("samples_beyond_six");

static vh::acc_t a_kg(8), a_ref(8), a_key(2 * 64 * 3), a_cell(3);

template<size_t N>
struct W
{
  static constexpr size_t J = N == 1024;
  static constexpr size_t LG = N == 512 ? 9 : 10;
  // bytes of one ordinary signing call: median of 15
  static uint64_t typical()
  {
    static thread_local uint64_t t = 0;
    if (!t) {
      std::vector<uint64_t> v;
      for (int i = 0; i < 15; i++) {
        prng::prng_t rng;
        vh::gbuf m(size_t(3)), s(ref::sig_len(N));
        draw_t d;
        sign_prepared<N>(gold<N>(0), m, s, rng);
        v.push_back(d.bytes());
      }
      std::nth_element(v.begin(), v.begin() + 7, v.end());
      t = v[7];
      // 2N sampler calls of 9 + 1 + 1 bytes per trial, accepted with
      // probability sigma_min sqrt(2 pi) / (1 + sigma_max sqrt(2 pi))
      const double s2p = std::sqrt(2 * M_PI), p = ref::sigma_min(N) * s2p / (1 + ref::sigma_max * s2p), want = 40 + 2 * N * (10 + 256. / 255) / p;
      VH_REQUIRE(static_cast<double>(t) > 0.5 * want && static_cast<double>(t) < 1.6 * want, "attempt-size", "N=%zu: the median signing call draws %lu random bytes; the algorithm implies %.0f", N,
                 static_cast<unsigned long>(t), want);
    }
    return t;
  }
  // bytes of one candidate pair (f, g)
  static uint64_t pair()
  {
    static thread_local uint64_t t = 0;
    if (!t) {
      static thread_local int32_t f[N];
      prng::prng_t rng;
      draw_t d;
      for (int i = 0; i < 8; i++)
        ntru_gen::gen_poly<LG>(f, rng);
      t = d.bytes() / 4;
    }
    return t;
  }

  static void note(uint64_t used, const char* how, size_t k)
  {
    const uint64_t typ = typical();
    VH_REQUIRE(used < 20 * typ, "too-many-attempts", "N=%zu %s: drew %lu bytes, that is about %lu attempts", N, how, static_cast<unsigned long>(used), static_cast<unsigned long>(used / typ));
    n_sig++;
    if (used * 10 > typ * 14)
      n_restart++;
    else if (k < 64) {
      const double x = static_cast<double>(used);
      a_key[(J * 64 + k) * 3] += 1;
      a_key[(J * 64 + k) * 3 + 1] += x;
      a_key[(J * 64 + k) * 3 + 2] += x * x;
    }
    vh::eval();
  }
  static void signing(vh::case_t& c)
  {
    const uint64_t typ = typical();
    const size_t nk = ref::golden(N).size();
    std::shared_ptr<prep<N>> own;
    const bool stored = c.idx % 3 != 0;
    const size_t k = stored ? c.idx / 3 % nk : 999;
    if (!stored) {
      const basis b = variant<N>(c.rng);
      own = prepare<N>(b.f, b.g, b.F, b.G);
    }
    const prep<N>& p = stored ? gold<N>(k) : *own;
    prng::prng_t rng;
    vh::gbuf sig(ref::sig_len(N));
    uint64_t most = 0, total = 0;
    const int n = N == 512 ? 60 : 30;
    for (int i = 0; i < n; i++) {
      vh::gbuf m(message(c.rng, msg_len(c.rng, 1000)));
      draw_t d(21 * typ);
      try {
        sign_prepared<N>(p, m, sig, rng);
      } catch (const vhook::budget_exceeded&) {
        vh::fail("unbounded", "N=%zu key %zu: signing a message of %zu bytes did not return within 21 attempts' worth of random bytes", N, k, m.n);
      }
      note(d.bytes(), "prepared signing", k);
      most = std::max(most, d.bytes());
      total += d.bytes();
      vh::distinct(vh::hash_bytes(sig.data(), 60));
    }
    if (c.idx < 3)
      vh::sample("N=%zu %s key: %d signatures drew %lu bytes on average, at most %lu (ordinary call: %lu)", N, stored ? "stored" : "derived", n, static_cast<unsigned long>(total / n), static_cast<unsigned long>(most),
                 static_cast<unsigned long>(typ));
  }
  static void oneshot(vh::case_t& c)
  {
    const basis b = variant<N>(c.rng);
    vh::gbuf sk(ref::enc_sk(b.f, b.g, b.F)), sig(ref::sig_len(N));
    const uint64_t typ = typical();
    for (int i = 0; i < 4; i++) {
      vh::gbuf m(message(c.rng, msg_len(c.rng, 1000)));
      draw_t d(21 * typ);
      try {
        VH_REQUIRE(sign_oneshot<N>(sk, m, sig), "sign-failed", "N=%zu", N);
      } catch (const vhook::budget_exceeded&) {
        vh::fail("unbounded", "N=%zu: one-shot signing of a message of %zu bytes did not return within 21 attempts' worth of random bytes", N, m.n);
      }
      note(d.bytes(), "one-shot signing", 999);
      vh::distinct(vh::hash_bytes(sig.data(), 60));
    }
  }
  static void keygen(vh::case_t& c)
  {
    const uint64_t pr = pair(), typ = typical();
    vh::gbuf pk(ref::pk_len(N)), sk(ref::sk_len(N)), sig(ref::sig_len(N)), m(message(c.rng, 20));
    uint64_t used;
    {
      draw_t d(1020 * pr);
      try {
        falcon::keygen<N>(pk.data(), sk.data());
      } catch (const vhook::budget_exceeded&) {
        vh::fail("unbounded", "N=%zu: key generation did not return within 1020 candidates' worth of random bytes", N);
      }
      used = d.bytes();
    }
    const double cand = std::max(1., std::round(static_cast<double>(used) / static_cast<double>(pr)));
    VH_REQUIRE(cand < 1000, "too-many-candidates", "N=%zu: key generation drew %lu bytes, about %.0f candidates", N, static_cast<unsigned long>(used), cand);
    n_kg++;
    n_cand.add(static_cast<uint64_t>(cand));
    if (cand > 40)
      n_kgmax++;
    a_kg[J * 2] += 1;
    a_kg[J * 2 + 1] += cand;
    for (int i = 0; i < 5; i++) {
      draw_t d(21 * typ);
      VH_REQUIRE(sign_oneshot<N>(sk, m, sig), "sign-failed", "N=%zu fresh key", N);
      note(d.bytes(), "fresh key", 999);
    }
    vh::eval();
    vh::distinct(vh::hash_bytes(sk.data(), sk.n));
    if (c.idx < 2)
      vh::sample("N=%zu key generation drew %lu bytes: about %.0f candidate pairs", N, static_cast<unsigned long>(used), cand);
  }
  // How often a candidate pair is acceptable, from an independent sampler and
  // exact / long double arithmetic: sums of 4096/N Gaussian integers.
  static void reference(vh::case_t& c)
  {
    static thread_local std::vector<double> cdf;
    if (cdf.empty()) {
      double t = 0;
      for (int z = -20; z <= 20; z++)
        cdf.push_back(t += std::exp(-z * z / (2 * 1.43300980528773 * 1.43300980528773)));
      for (auto& x : cdf)
        x /= t;
    }
    for (int i = 0; i < 25; i++) {
      ivec f(N), g(N);
      for (auto* a : { &f, &g })
        for (auto& x : *a)
          for (size_t k = 0; k < 4096 / N; k++)
            x += std::lower_bound(cdf.begin(), cdf.end(), c.rng.unit()) - cdf.begin() - 20;
      bool ok = max_abs(f) <= (N == 512 ? 31 : 15) && max_abs(g) <= (N == 512 ? 31 : 15);
      int64_t pf = 0, pg = 0;
      for (size_t j = 0; j < N; j++) {
        pf += f[j];
        pg += g[j];
      }
      ok = ok && ((pf & 1) || (pg & 1)); // both resultants even: no solution
      if (ok) {
        const double bound = 1.17 * 1.17 * ref::Q;
        const double n1 = static_cast<double>(ref::sqnorm(f) + ref::sqnorm(g));
        ok = n1 <= bound;
        if (ok) { // the second Gram-Schmidt vector
          const auto ef = ref::eval_c(f), eg = ref::eval_c(g);
          long double s = 0;
          for (size_t j = 0; j < N; j++)
            s += static_cast<long double>(ref::Q) * ref::Q / (std::norm(ef[j]) + std::norm(eg[j]));
          ok = s / N <= bound;
        }
        ok = ok && ref::invertible_q(f);
      }
      a_ref[J * 2] += 1;
      a_ref[J * 2 + 1] += ok;
      n_refc++;
      if (ok)
        n_refok++;
    }
    vh::eval(25);
  }
  // A burst of bad randomness, then sound randomness again: both kinds of call
  // return soon after the burst ends.
  static void burst(vh::case_t& c)
  {
    static const double ps[] = { 1.0, 0.5, 0.2, 0.05 };
    const size_t k = c.rng.below(ref::golden(N).size());
    const uint64_t typ = typical();
    const uint64_t until = typ / 4 + c.rng.below(8 * typ);
    forced_t src(c.rng.next(), 40, until, ps[c.rng.below(4)], c.rng.below(8) ? 0 : 255);
    prng::prng_t rng;
    vh::gbuf m(message(c.rng, c.rng.below(100))), sig(ref::sig_len(N));
    draw_t d(until + 21 * typ);
    const auto& p = gold<N>(k);
    {
      with_source w(src);
      try {
        sign_prepared<N>(p, m, sig, rng);
      } catch (const vhook::budget_exceeded&) {
        vh::fail("unbounded", "N=%zu key %zu: signing did not return within 21 attempts after its generator had recovered (after %lu bytes)", N, k, static_cast<unsigned long>(until));
      }
    }
    n_burst++;
    n_burstatt.add(d.bytes() / typ);
    const auto& K = ref::golden(N)[k];
    const auto v = ref::verify(N, K.pk.data(), m.data(), m.n, sig.data());
    VH_REQUIRE(v.ok, "bad-signature", "N=%zu key %zu: signature made through a burst of bad randomness: %s, norm %ld", N, k, v.why, static_cast<long>(v.norm));
    vh::eval();
    vh::distinct(vh::hash_bytes(sig.data(), 60));
  }
  static void kgburst(vh::case_t& c)
  {
    const uint64_t pr = pair(), until = pr / 2 + c.rng.below(8 * pr);
    forced_t src(c.rng.next(), 0, until, c.idx % 2 ? 0.3 : 1.0, 0);
    vh::gbuf pk(ref::pk_len(N)), sk(ref::sk_len(N));
    draw_t d(until + 1020 * pr);
    with_source w(src);
    try {
      falcon::keygen<N>(pk.data(), sk.data());
    } catch (const vhook::budget_exceeded&) {
      vh::fail("unbounded", "N=%zu: key generation did not return within 1020 candidates after its generator had recovered", N);
    }
    VH_REQUIRE(d.bytes() < until + 1000 * pr, "too-many-candidates", "N=%zu: key generation drew %lu bytes after its generator had recovered", N, static_cast<unsigned long>(d.bytes() - until));
    n_burst++;
    vh::eval();
    vh::distinct(vh::hash_bytes(sk.data(), sk.n));
  }
  // The integer sampler alone: its expected cost does not depend on centre and
  // width, and no call needs many trials.
  static void sampler(vh::case_t& c)
  {
    const double lo = ref::sigma_min(N), hi = ref::sigma_max;
    const double sg = c.idx % 5 == 0 ? lo : c.idx % 5 == 1 ? hi : lo + (hi - lo) * c.rng.unit();
    static const double cs[] = { 0, 0.5, -0.5, 1e-9, -1e-9, 0.999999999, 12345.25, -98765.75, 1e6 + 0.1 };
    const double mu = c.idx % 3 ? (c.rng.unit() - 0.5) * 2000 : cs[c.rng.below(9)];
    prng::prng_t rng;
    const int n = 20000;
    const double s2p = std::sqrt(2 * M_PI), p = lo * s2p / (1 + hi * s2p), want = (10 + 256. / 255) / p;
    double s = 0, ss = 0;
    for (int i = 0; i < n; i++) {
      draw_t d(20000);
      try {
        samplerz::samplerz(mu, sg, lo, rng);
      } catch (const vhook::budget_exceeded&) {
        vh::fail("unbounded", "samplerz(mu=%.17g, sigma=%.17g, sigma_min=%.17g) did not return within 20000 random bytes", mu, sg, lo);
      }
      const double x = static_cast<double>(d.bytes());
      VH_REQUIRE(x < 4000, "too-many-trials", "one call samplerz(mu=%.17g, sigma=%.17g, sigma_min=%.17g) drew %.0f random bytes (expected %.1f)", mu, sg, lo, x, want);
      s += x;
      ss += x * x;
    }
    const double mean = s / n, sd = std::sqrt((ss / n - mean * mean) / n);
    // the number of trials is geometric; 7 sigma
    VH_REQUIRE(mean > 0.5 * want && mean < 1.6 * want, "trial-rate", "samplerz(mu=%.17g, sigma=%.17g, sigma_min=%.17g): %.3f random bytes per call, the algorithm implies %.3f", mu, sg, lo, mean, want);
    // relative to a fixed cell of the same process, whatever way bytes are drawn
    static thread_local double base = 0, bsd = 0;
    if (base == 0) {
      double t = 0, tt = 0;
      const int k = 200000;
      for (int i = 0; i < k; i++) {
        draw_t d;
        samplerz::samplerz(0.3, 0.5 * (lo + hi), lo, rng);
        const double x = static_cast<double>(d.bytes());
        t += x;
        tt += x * x;
      }
      base = t / k;
      bsd = std::sqrt((tt / k - base * base) / k);
    }
    VH_REQUIRE(std::abs(mean - base) < 7.5 * std::sqrt(sd * sd + bsd * bsd) + 0.002 * base, "trial-rate", "samplerz(mu=%.17g, sigma=%.17g, sigma_min=%.17g): %.3f random bytes per call, but %.3f at mu=0.3, sigma=%.4f: acceptance depends on the arguments", mu, sg, lo, mean,
               base, 0.5 * (lo + hi));
    n_samp.add(n);
    n_cells++;
    vh::eval(n);
    vh::distinct(vh::mix64(static_cast<uint64_t>(sg * 1e15) ^ vh::mix64(static_cast<uint64_t>(static_cast<int64_t>(mu * 1e9)))));
  }
  static void finish()
  {
    double n = 0, s = 0, ss = 0;
    for (size_t k = 0; k < 64; k++) {
      n += a_key.total((J * 64 + k) * 3);
      s += a_key.total((J * 64 + k) * 3 + 1);
      ss += a_key.total((J * 64 + k) * 3 + 2);
    }
    if (n > 200) {
      const double mean = s / n, sd = std::sqrt(std::max(1., ss / n - mean * mean));
      for (size_t k = 0; k < 64; k++) {
        const double m = a_key.total((J * 64 + k) * 3);
        if (m < 20)
          continue;
        const double mk = a_key.total((J * 64 + k) * 3 + 1) / m;
        if (std::abs(mk - mean) > 7.5 * sd / std::sqrt(m) + 0.001 * mean)
          vh::note_fail("attempt-size", "N=%zu key %zu: %.0f signatures draw %.1f bytes on average, all keys together %.1f (spread %.1f): the sampler's acceptance rate depends on the key", N, k, m, mk, mean, sd);
      }
    }
    // candidates per key: geometric with the reference's success rate; the
    // solver fails for a few more pairs (allowed for: 0.7 .. 1.1 of the rate)
    const double kg = a_kg.total(J * 2), cand = a_kg.total(J * 2 + 1), rn = a_ref.total(J * 2), rk = a_ref.total(J * 2 + 1);
    if (kg >= 3 && rn >= 500) {
      const double p = rk / rn, perr = 7 * std::sqrt(p * (1 - p) / rn);
      const double plo = std::max(0.005, 0.7 * (p - perr)), phi = std::min(0.95, 1.1 * (p + perr));
      // Chernoff bounds on the sum of kg geometric variables
      auto lt = [&](double q) { // log P bound that the sum is as far out as cand
        const double a = cand / kg;
        if (a <= 1)
          return kg * std::log(q);
        return -kg * (a * ((1 / a) * std::log((1 / a) / q) + (1 - 1 / a) * std::log((1 - 1 / a) / (1 - q))));
      };
      if (cand / kg > 1 / plo && lt(plo) < std::log(1e-11))
        vh::note_fail("candidate-rate", "N=%zu: %.0f key generations used %.0f candidates (%.1f each); %.4f of candidates are acceptable, so %.1f each are expected", N, kg, cand, cand / kg, p, 1 / p);
      if (cand / kg < 1 / phi && lt(phi) < std::log(1e-11))
        vh::note_fail("candidate-rate", "N=%zu: %.0f key generations used only %.0f candidates (%.1f each); %.4f of candidates are acceptable, so %.1f each are expected", N, kg, cand, cand / kg, p, 1 / p);
      if (vh::verbose || true)
        vh::sample("N=%zu: %.0f key generations used %.0f candidates (%.1f each); reference: %.4f of %.0f candidates acceptable (%.1f each)", N, kg, cand, cand / kg, p, rn, 1 / p);
    }
  }
};

VH_FINISH(rates)
{
  W<512>::finish();
  W<1024>::finish();
  // Restarts are about one in 5000 (bodies that do not fit).
  const uint64_t lim = 20 + n_sig.total() / 1000;
  if (n_restart.total() > lim)
    vh::note_fail("restart-rate", "%lu of %lu signing calls needed more than one attempt; almost none should", static_cast<unsigned long>(n_restart.total()), static_cast<unsigned long>(n_sig.total()));
}
VH_SUITE(keygen1024, 6, 200)
{
  W<1024>::keygen(c);
}
VH_SUITE(keygen512, 32, 1500)
{
  W<512>::keygen(c);
}
VH_SUITE(kgburst1024, 2, 30)
{
  W<1024>::kgburst(c);
}
VH_SUITE(kgburst512, 8, 200)
{
  W<512>::kgburst(c);
}
VH_SUITE(reference512, 80, 800)
{
  W<512>::reference(c);
}
VH_SUITE(reference1024, 40, 400)
{
  W<1024>::reference(c);
}
VH_SUITE(sign512, 300, 20000)
{
  W<512>::signing(c);
}
VH_SUITE(sign1024, 240, 16000)
{
  W<1024>::signing(c);
}
VH_SUITE(oneshot512, 150, 10000)
{
  W<512>::oneshot(c);
}
VH_SUITE(oneshot1024, 80, 6000)
{
  W<1024>::oneshot(c);
}
VH_SUITE(burst512, 300, 20000)
{
  W<512>::burst(c);
}
VH_SUITE(burst1024, 160, 10000)
{
  W<1024>::burst(c);
}
VH_SUITE(sampler512, 150, 4000)
{
  W<512>::sampler(c);
}
VH_SUITE(sampler1024, 150, 4000)
{
  W<1024>::sampler(c);
}

// The bytes each sampler call draws are those its specification takes, no
// further trial is made.
template<size_t N>
static void
consumption(vh::case_t& c)
{
  const int ord = replay::sampler_order();
  if (!ord) {
    n_coff.add();
    return;
  }
  const double smin = ref::sigma_min(N);
  for (int i = 0; i < 4000; i++) {
    const double sp = i & 1 ? 1.43300980528773 : smin + (1.8205 - smin) * c.rng.unit(), mu = i & 1 ? 0 : (c.rng.unit() - 0.5) * 100;
    replay::recorder rec(c.rng.next());
    rec.small = c.rng.below(4) == 0;
    {
      prng::prng_t rng;
      with_source w(rec);
      samplerz::samplerz(mu, sp, smin, rng);
    }
    replay::tape t(rec.log.data(), rec.log.size(), ord - 1, 1e-9);
    const int64_t z = t.sample(mu, sp, smin);
    if (t.amb)
      continue;
    VH_REQUIRE(!t.dry && t.at == t.n, "too-many-trials", "N=%zu centre %.17g width %.17g: sampling took %zu random bytes (%s...), %s", N, mu, sp, t.n, vh::hex(rec.log.data(), std::min<size_t>(40, t.n)).c_str(),
               t.dry ? "too few for a decision" : "more than the accepted trial needs");
    n_cons.add();
    n_deep.add(z > 6 + mu || z < mu - 6);
    vh::eval();
  }
  vh::distinct(vh::mix64(c.idx * 2 + (N == 512)));
}
VH_SUITE(consumption512, 150, 5000)
{
  consumption<512>(c);
}
VH_SUITE(consumption1024, 150, 5000)
{
  consumption<1024>(c);
}

// Attempts led to chosen outcomes: the first one that is short and fits is used.
template<size_t N>
static void
steered_case(vh::case_t& c)
{
  using W = steered::world<N>;
  if (!W::available())
    return;
  W w(c.rng);
  for (size_t j = 0; j < 4; j++) {
    const auto v = w.mixture(j == 0 ? static_cast<unsigned>(c.idx) : 2 + static_cast<unsigned>(c.rng.below(6)));
    const size_t k = W::first_good(v);
    vh::gbuf sig(ref::sig_len(N));
    size_t att = 0;
    const bool done = w.sign(v, sig, true, &att);
    const auto& q = v[k];
    if (q.norm == ref::beta2(N))
      continue; // decided by rounding
    VH_REQUIRE(done && att <= k + 1, "acceptable-attempt-discarded", "N=%zu: attempt %zu has squared norm %ld (bound %ld) and a body of %zu bits (of %zu), yet signing %s", N, k + 1, static_cast<long>(q.norm), static_cast<long>(ref::beta2(N)), W::need(q.s2), W::cap,
               done ? "went on to another attempt" : "asked for more randomness");
    n_exact++;
    vh::eval();
    vh::distinct(vh::hash_bytes(sig.data(), 80));
  }
}
VH_SUITE(steered512, 160, 6000)
{
  steered_case<512>(c);
}
VH_SUITE(steered1024, 120, 4000)
{
  steered_case<1024>(c);
}

// Candidate pairs that pass every test of the specification are used.
template<size_t N>
static void
candidate_case(vh::case_t& c)
{
  if (!steer::poly_obeys<N>()) {
    steered::n_off++;
    return;
  }
  const auto &e = ref::edge(N), &g = ref::golden(N);
  const size_t i = c.idx % (e.size() + g.size());
  const auto& k = i < e.size() ? e[i] : g[i - e.size()];
  std::vector<std::pair<ivec, ivec>> cs;
  // a few unacceptable ones first
  std::vector<unsigned> kinds;
  for (uint64_t n = c.rng.below(4); n--;) {
    const unsigned kind = static_cast<unsigned>(c.rng.below(6));
    if (auto p = steered::discardable<N>(c.rng, g[i % g.size()].f, g[i % g.size()].g, kind)) {
      cs.push_back(*p);
      kinds.push_back(kind);
    }
  }
  const size_t at = cs.size();
  cs.push_back({ k.f, k.g });
  ivec out[4];
  size_t which = 99;
  const bool ok = steer::candidates<N>(c.rng.next(), cs, out, which);
  n_rej.add(at);
  n_acceptable++;
  const bool swapped = ok && out[0] == k.g && out[1] == k.f;
  if (!(ok && out[0] == k.f && out[1] == k.g)) {
    if (steered::skips_g<N>(c.rng, cs, kinds, out) && out[0] == k.f && out[1] == k.g) {
      steered::n_off++;
      return;
    }
    if (!ok || swapped || which > at) {
      // g drawn before f?
      for (auto& [f, h] : cs)
        std::swap(f, h);
      if (swapped || (steer::candidates<N>(c.rng.next(), cs, out, which) && out[0] == k.f)) {
        steered::n_off++;
        return;
      }
    }
    vh::fail("acceptable-candidate-discarded", "N=%zu: candidate %zu (%s key %zu) is within range, invertible, short enough and solvable (squared norms %ld and %.6Lf of the bound), yet key generation %s", N, at + 1, i < e.size() ? "edge" : "stored",
             i < e.size() ? i : i - e.size(), static_cast<long>(ref::sqnorm(k.f) + ref::sqnorm(k.g)), ref::gs_norm(k.f, k.g) / (1.17L * 1.17L * ref::Q), ok ? "returned another" : "went on to another");
  }
  n_acc++;
  vh::eval();
  vh::distinct(vh::hash_bytes(k.f.data(), 8 * N) + at);
  if (c.idx < 2)
    vh::sample("N=%zu %s key accepted as candidate %zu", N, i < e.size() ? "edge" : "stored", at + 1);
}
VH_SUITE(candidate1024, 32, 400)
{
  candidate_case<1024>(c);
}
VH_SUITE(candidate512, 64, 1200)
{
  candidate_case<512>(c);
}
