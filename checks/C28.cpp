// The convenience functions against their building blocks, called one by one
// under the same entropy: same bytes, same verdicts.
#include "craft.hpp"
#include "steer.hpp"
#include <optional>
using namespace glue;

static vh::counter_t n_bound("verdicts_beside_the_norm_bound"), n_kg("key_pairs_equal_to_their_parts"), n_prep("expanded_keys_equal_to_their_parts"), n_sign("one_shot_signatures_equal_to_prepared_ones"), n_rest("of_which_with_rejected_attempts"),
  n_ver("verdicts_equal"), n_acc("of_which_accepted"), n_tape("sampler_calls_equal_on_both_byte_sources"), n_ber("bernoulli_calls_equal_on_both_byte_sources"), n_G("G_recomputed_equal"), n_rejs("sampler_calls_with_rejected_trials"),
  n_lead("key_pairs_led_to_a_chosen_f_g"), n_edge("of_which_with_F_at_127");

template<size_t N>
struct L
{
  static constexpr size_t LG = N == 512 ? 9 : 10;
  static constexpr int32_t B2 = N == 512 ? 34034726 : 70265242;

  static void close(const fft::cmplx* a, const fft::cmplx* b, size_t n, const char* what)
  {
    for (size_t i = 0; i < n; i++) {
      const double d = std::abs(a[i] - b[i]), s = 1 + std::abs(a[i]);
      VH_REQUIRE(d <= 1e-9 * s, "expanded-key", "N=%zu %s: entry %zu is (%.17g, %.17g) one way and (%.17g, %.17g) the other", N, what, i, a[i].real(), a[i].imag(), b[i].real(), b[i].imag());
    }
  }

  // keygen(pkey, skey) = ntru_gen, compute_public_key, encode
  static void keypair(vh::case_t& c, const ref::key* lead = nullptr)
  {
    const uint64_t es = c.rng.next();
    // the entropy of each way: a seed, or a tape on which the first candidate
    // drawn is the given pair
    struct entropy_t
    {
      steer::script_t s;
      std::optional<with_source> w;
      entropy_t(uint64_t seed, const ref::key* k)
        : s(seed)
      {
        vh::seed_entropy(seed);
        if (k) {
          steer::add_pair(s, k->f, k->g);
          w.emplace(s);
        }
      }
    };
    vh::gbuf pk(ref::pk_len(N), static_cast<int>(c.rng.below(256))), sk(ref::sk_len(N), static_cast<int>(c.rng.below(256)));
    {
      entropy_t e(es, lead);
      falcon::keygen<N>(pk.data(), sk.data());
    }
    std::vector<int32_t> f(N), g(N), F(N), G(N), f2(N), g2(N), F2(N), G2(N);
    std::vector<ff::ff_t> h(N), h2(N), h3(N);
    {
      entropy_t e(es, lead);
      prng::prng_t rng;
      ntru_gen::ntru_gen<N>(f.data(), g.data(), F.data(), G.data(), rng);
    }
#ifndef VH_MINIMAL
    keygen::compute_public_key<N>(f.data(), g.data(), h.data());
#else
    {
      const auto w = ref::div_q(ivec(g.begin(), g.end()), ivec(f.begin(), f.end()));
      for (size_t i = 0; i < N; i++)
        h[i] = ff::ff_t{ static_cast<uint16_t>(w[i]) };
    }
#endif
    vh::gbuf pk2(ref::pk_len(N)), sk2(ref::sk_len(N));
    encoding::encode_pkey<N>(h.data(), pk2.data());
    encoding::encode_skey<N>(f.data(), g.data(), F.data(), sk2.data());
    VH_REQUIRE(memcmp(pk.data(), pk2.data(), pk.n) == 0, "key-pair", "N=%zu: keygen's public key differs from the encoding of g/f of the same candidates", N);
    VH_REQUIRE(memcmp(sk.data(), sk2.data(), sk.n) == 0, "key-pair", "N=%zu: keygen's secret key differs from the encoding of the same f, g, F", N);
    VH_REQUIRE(decoding::decode_skey<N>(sk.data(), f2.data(), g2.data(), F2.data()) && f2 == f && g2 == g && F2 == F, "key-pair", "N=%zu: the secret key does not decode to f, g, F", N);
    VH_REQUIRE(decoding::decode_pkey<N>(pk.data(), h2.data()), "key-pair", "N=%zu: the public key is refused", N);
    n_kg++;
    if (lead && ivec(f.begin(), f.end()) == lead->f && ivec(g.begin(), g.end()) == lead->g) {
      n_lead++;
      int64_t mx = 0;
      for (auto x : F)
        mx = std::max<int64_t>(mx, std::abs(x));
      if (mx == 127)
        n_edge++;
    }
    falcon::recompute_G<N>(f2.data(), g2.data(), F2.data(), G2.data());
    VH_REQUIRE(G2 == G, "G-differs", "N=%zu: G computed from f, g, F is not the G of key generation", N);
    n_G++;
    // keygen(B, T, h) = the same key, expanded
    prep<N> p, q;
    {
      entropy_t e(es, lead);
      prng::prng_t rng;
      keygen::keygen<N>(p.B.get(), p.T.get(), h3.data(), ref::sigma(N), rng);
    }
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(h3[i].v == h[i].v && h2[i].v == h[i].v, "key-pair", "N=%zu: h differs at %zu", N, i);
    falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), q.B.get());
    falcon::compute_falcon_tree<N>(q.B.get(), q.T.get());
    close(p.B.get(), q.B.get(), 4 * N, "basis from key generation and from compute_matrix_B");
    close(p.T.get(), q.T.get(), N * (LG + 1), "tree from key generation and from compute_falcon_tree");
    n_prep++;
    vh::eval(6);
    vh::distinct(vh::hash_bytes(sk.data(), sk.n));
    // and both sign alike
    for (int i = 0; i < 3; i++) {
      vh::gbuf m(message(c.rng, msg_len(c.rng, 500))), s1(ref::sig_len(N)), s2(ref::sig_len(N)), s3(ref::sig_len(N));
      const uint64_t e2 = c.rng.next();
      vh::seed_entropy(e2);
      VH_REQUIRE(sign_oneshot<N>(sk, m, s1), "sign-failed", "N=%zu", N);
      vh::seed_entropy(e2);
      {
        prng::prng_t rng;
        sign_prepared<N>(q, m, s2, rng);
      }
      vh::seed_entropy(e2);
      {
        prng::prng_t rng;
        signing::sign<N, B2, N == 512 ? 666 : 1280>(p.B.get(), p.T.get(), m.data(), m.n, s3.data(), ref::sigma_min(N), rng);
      }
      VH_REQUIRE(memcmp(s1.data(), s2.data(), s1.n) == 0, "signature-differs", "N=%zu: one-shot and prepared signing differ under the same entropy", N);
      VH_REQUIRE(memcmp(s2.data(), s3.data(), s1.n) == 0, "signature-differs", "N=%zu: falcon::sign and signing::sign differ under the same entropy", N);
      n_sign++;
    }
    if (c.idx < 2)
      vh::sample("N=%zu: key pair, expanded key and 3 signatures equal to those of the parts", N);
  }

  // one-shot signing = decode, recompute G, expand, sign
  static void signing_(vh::case_t& c)
  {
    const basis b = variant<N>(c.rng);
    vh::gbuf sk(ref::enc_sk(b.f, b.g, b.F));
    std::vector<int32_t> f(N), g(N), F(N), G(N);
    VH_REQUIRE(decoding::decode_skey<N>(sk.data(), f.data(), g.data(), F.data()), "refused-valid", "N=%zu", N);
    falcon::recompute_G<N>(f.data(), g.data(), F.data(), G.data());
    VH_REQUIRE(ivec(G.begin(), G.end()) == b.G, "G-differs", "N=%zu: G computed from f, g, F is wrong", N);
    n_G++;
    prep<N> p;
    falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), p.B.get());
    falcon::compute_falcon_tree<N>(p.B.get(), p.T.get());
    for (int i = 0; i < 4; i++) {
      vh::gbuf m(message(c.rng, msg_len(c.rng, 1500))), s1(ref::sig_len(N), 1), s2(ref::sig_len(N), 2);
      const uint64_t es = c.rng.next(), fs = c.rng.next();
      const bool force = i == 3;
      const uint64_t until = 4000 + c.rng.below(90000);
      const double fp = 0.002 + 0.05 * c.rng.unit();
      uint64_t used = 0;
      for (int way = 0; way < 2; way++) {
        vh::seed_entropy(es);
        forced_t src(fs, 40, until, fp);
        if (force)
          vhook::prng_override = &src;
        draw_t d;
        if (way == 0) {
          const bool ok = sign_oneshot<N>(sk, m, s1);
          vhook::prng_override = nullptr;
          VH_REQUIRE(ok, "sign-failed", "N=%zu", N);
        } else {
          prng::prng_t rng;
          sign_prepared<N>(p, m, s2, rng);
          vhook::prng_override = nullptr;
        }
        VH_REQUIRE(way == 0 || used == d.bytes(), "signature-differs", "N=%zu: one-shot signing draws %lu random bytes, prepared signing %lu", N, static_cast<unsigned long>(used), static_cast<unsigned long>(d.bytes()));
        used = d.bytes();
      }
      VH_REQUIRE(memcmp(s1.data(), s2.data(), s1.n) == 0, "signature-differs", "N=%zu, message of %zu bytes: one-shot and prepared signing differ under the same entropy", N, m.n);
      n_sign++;
      if (used > 30 * 2 * N)
        n_rest++;
      vh::eval();
      vh::distinct(vh::hash_bytes(s1.data(), s1.n));
    }
  }

  // verify(bytes) = decode_pkey, verification::verify
  static void verdicts(vh::case_t& c)
  {
    vh::rng_t& r = c.rng;
    const auto& ks = ref::golden(N);
    const size_t k = r.below(ks.size());
    const bytes m0 = message(r, msg_len(r, 800));
    vh::gbuf sig(ref::sig_len(N));
    {
      prng::prng_t rng;
      sign_prepared<N>(gold<N>(k), vh::gbuf(m0), sig, rng);
    }
    for (int i = 0; i < 48; i++) {
      bytes pk = ks[k].pk, m = m0, s(sig.data(), sig.data() + sig.n);
      if (i >= 40) { // chosen keys and signatures: norm on, just below and just above the bound
        using A = craft::C<N>;
        const ivec s2 = A::small_invertible(r, 5 + 140 * r.unit());
        const int64_t t = ref::beta2(N) - ref::sqnorm(s2) + (i == 40 ? 0 : i == 41 ? 1 : r.range(-4, 5));
        const auto x = t < 0 ? std::nullopt : A::make(r, A::with_norm(r, t), s2, r.below(100));
        if (!x)
          continue;
        pk = x->pk;
        m = x->m;
        s = x->sig;
        n_bound++;
      } else
      switch (i % 8) {
        case 0: break;
        case 1: s[41 + r.below(s.size() - 41)] ^= static_cast<uint8_t>(1u << r.below(8)); break;
        case 2: pk[r.below(pk.size())] ^= static_cast<uint8_t>(1u << r.below(8)); break;
        case 3: s[r.below(41)] ^= static_cast<uint8_t>(1u << r.below(8)); break;
        case 4: if (!m.empty()) m[r.below(m.size())] ^= 1; else m.push_back(0); break;
        case 5: pk = ks[r.below(ks.size())].pk; break;
        case 6: r.fill(s.data() + 41, s.size() - 41); break;
        default: r.fill(pk.data() + 1, pk.size() - 1);
      }
      vh::gbuf P(pk), M(m), S(s), S2(s);
      const bool whole = glue::verify<N>(P, M, S);
      std::vector<ff::ff_t> h(N);
      bool parts = decoding::decode_pkey<N>(P.data(), h.data());
      if (parts)
        parts = verification::verify<N, B2>(h.data(), M.data(), M.n, S2.data());
      VH_REQUIRE(whole == parts, "verdict-differs", "N=%zu, change %d: verify says %d, decode_pkey and verification::verify say %d", N, i % 8, whole, parts);
      const bool want = ref::verify(N, pk.data(), m.data(), m.size(), s.data()).ok;
      VH_REQUIRE(whole == want, "verdict-differs", "N=%zu, change %d: verify says %d, the reference %d", N, i % 8, whole, want);
      n_ver++;
      if (whole)
        n_acc++;
      vh::eval();
      vh::distinct(vh::hash_bytes(s.data(), s.size(), vh::hash_bytes(pk.data(), pk.size(), vh::hash_bytes(m.data(), m.size()))));
    }
  }
};

struct tape_t : vhook::source_t
{
  const bytes& t;
  size_t i = 0;
  bool over = false;
  explicit tape_t(const bytes& t)
    : t(t)
  {
  }
  void fill(uint8_t* b, size_t n) override
  {
    for (size_t k = 0; k < n; k++) {
      if (i >= t.size())
        over = true;
      b[k] = over ? static_cast<uint8_t>(k * 37 + 11) : t[i++];
    }
  }
};

// The sampler taking explicit bytes reads its 72-bit numbers big endian, the
// one taking a generator reads them in one of the two orders; whichever it
// is, it is the same throughout (checked at the end).
static vh::acc_t a_order(2);
static void
sampler(vh::case_t& c)
{
  vh::rng_t& r = c.rng;
  for (int it = 0; it < 60; it++) {
    const double smin = ref::sigma_min(r.below(2) ? 512 : 1024);
    const double sp = r.below(6) == 0 ? smin : r.below(6) == 0 ? ref::sigma_max : smin + (ref::sigma_max - smin) * r.unit();
    double mu = (r.unit() - 0.5) * (r.below(3) ? 600 : 40000);
    if (r.below(5) == 0)
      mu = std::floor(mu) + 0.5 * static_cast<double>(r.below(2));
    bytes t(3000);
    r.fill(t.data(), t.size());
    const auto mode = r.below(5);
    if (mode == 0)
      for (size_t i = 0; i + 11 < t.size(); i += 11)
        for (size_t k = 0, e = r.below(9); k < e; k++)
          t[i + k] = 0;
    else if (mode == 1)
      for (auto& b : t)
        if (r.below(4) == 0)
          b = r.below(2) ? 255 : 0;
    const auto [z, n] = samplerz::samplerz(mu, sp, smin, static_cast<const uint8_t*>(t.data()), t.size());
    if (n + 11 > t.size())
      continue;
    // the same bytes with every 9-byte group reversed: walk the trials
    bool eq[2];
    for (int order = 0; order < 2; order++) {
      bytes u = t;
      if (order == 0) {
        // trial boundaries: 9 + 1 + (bytes of the Bernoulli trial); recover them
        // by running the explicit version on prefixes
        size_t at = 0;
        while (at < n) {
          std::reverse(u.begin() + static_cast<long>(at), u.begin() + static_cast<long>(at) + 9);
          // length of this trial: the explicit version consumes whole trials;
          // a prefix one byte short of the next trial's minimum stops after it
          const auto [z1, n1] = samplerz::samplerz(mu, sp, smin, static_cast<const uint8_t*>(t.data()) + at, 18);
          (void)z1;
          if (n1 < 11)
            break;
          at += n1;
        }
      }
      tape_t src(u);
      prng::prng_t rng;
      int32_t z2;
      {
        draw_t d(100000);
        with_source w(src);
        z2 = samplerz::samplerz(mu, sp, smin, rng);
      }
      eq[order] = z2 == z && src.i == n;
      if (!eq[order])
        a_order[static_cast<size_t>(order)] += 1;
    }
    VH_REQUIRE(eq[0] || eq[1], "sampler-differs", "samplerz(mu=%.17g, sigma=%.17g, sigma_min=%.17g) on bytes %s..: the two versions give different results", mu, sp, smin, vh::hex(t.data(), std::min<size_t>(n, 48)).c_str());
    n_tape++;
    if (n > 13)
      n_rejs++;
    vh::eval();
    vh::distinct(vh::hash_bytes(t.data(), n + 8));
  }
}
static void
bernoulli(vh::case_t& c)
{
  vh::rng_t& r = c.rng;
  for (int it = 0; it < 200; it++) {
    const double x = r.below(4) ? r.unit() * 20 : 0.69314718056 * static_cast<double>(r.below(70)), ccs = r.below(6) ? 0.5 + 0.5 * r.unit() : 1.0;
    bytes t(16);
    r.fill(t.data(), t.size());
    if (r.below(3) == 0)
      t[0] = 0;
    const auto [b, n] = samplerz::ber_exp(x, ccs, static_cast<const uint8_t*>(t.data()), t.size());
    tape_t src(t);
    prng::prng_t rng;
    uint8_t b2;
    {
      with_source w(src);
      b2 = samplerz::ber_exp(x, ccs, rng);
    }
    VH_REQUIRE(b == b2 && n == src.i, "sampler-differs", "ber_exp(x=%.17g, ccs=%.17g) on bytes %s: %d after %zu bytes, or %d after %zu from a generator", x, ccs, vh::hex(t.data(), 8).c_str(), b, n, b2, src.i);
    n_ber++;
    vh::eval();
    vh::distinct(vh::hash_bytes(t.data(), 8, static_cast<uint64_t>(x * 1e12)));
  }
}
VH_FINISH(order)
{
  if (a_order.total(0) > 0 && a_order.total(1) > 0)
    vh::note_fail("sampler-differs", "samplerz with a generator follows the explicit-bytes version in neither byte order (%.0f / %.0f of %lu calls differ)", a_order.total(0), a_order.total(1), n_tape.total());
}

VH_SUITE(keypair1024, 4, 120)
{
  L<1024>::keypair(c);
}
VH_SUITE(keypair512, 16, 800)
{
  L<512>::keypair(c);
}
// Key generation led to chosen pairs, among them those at the edges.
template<size_t N>
static void
led(vh::case_t& c)
{
  if (!steer::poly_obeys<N>())
    return L<N>::keypair(c);
  const auto &e = ref::edge(N), &g = ref::golden(N);
  const ref::key& k = c.idx < e.size() ? e[c.idx] : g[c.idx % g.size()];
  L<N>::keypair(c, &k);
}
VH_SUITE(led1024, 14, 100)
{
  led<1024>(c);
}
VH_SUITE(led512, 20, 200)
{
  led<512>(c);
}
VH_SUITE(sign512, 300, 20000)
{
  L<512>::signing_(c);
}
VH_SUITE(sign1024, 150, 10000)
{
  L<1024>::signing_(c);
}
VH_SUITE(verify512, 200, 12000)
{
  L<512>::verdicts(c);
}
VH_SUITE(verify1024, 120, 8000)
{
  L<1024>::verdicts(c);
}
VH_SUITE(sampler, 2000, 100000)
{
  sampler(c);
}
VH_SUITE(bernoulli, 500, 30000)
{
  bernoulli(c);
}
