// Everything that is signed verifies: both signing interfaces, both parameter
// sets, fresh and stored keys, every message length class, long interleaved
// histories over shared and reused buffers, forced restarts.
#include "steered.inc"
using namespace glue;

static vh::counter_t n_sign("signatures"), n_prep("prepared_signatures"), n_keys("fresh_keys"), n_big("messages_over_64k"), n_multi("signatures_after_forced_restart");

template<size_t N>
static void
judge(const vh::gbuf& pk, const vh::gbuf& msg, vh::gbuf& sig, const char* how)
{
  const bytes before(sig.data(), sig.data() + sig.n);
  VH_REQUIRE(verify<N>(pk, msg, sig), "not-verified", "N=%zu %s: message of %zu bytes %s.. signature %s..", N, how, msg.n,
             vh::hex(msg.data(), std::min<size_t>(msg.n, 16)).c_str(), vh::hex(sig.data(), 64).c_str());
  VH_REQUIRE(verify<N>(pk, msg, sig), "not-verified-again", "N=%zu %s: second verification of the same signature failed", N, how);
  VH_REQUIRE(sig.equals(before), "input-modified", "N=%zu verify changed the signature", N);
  n_sign++;
  vh::eval();
  vh::distinct(vh::hash_bytes(sig.data(), 64));
}

template<size_t N>
static void
both(const vh::gbuf& pk, const vh::gbuf& sk, const prep<N>& p, const bytes& m, vh::rng_t&)
{
  vh::gbuf msg(m), sig(ref::sig_len(N));
  VH_REQUIRE(sign_oneshot<N>(sk, msg, sig), "sign-failed", "N=%zu one-shot sign refused a valid key, message of %zu bytes", N, m.size());
  judge<N>(pk, msg, sig, "one-shot");
  prng::prng_t rng;
  sign_prepared<N>(p, msg, sig, rng);
  judge<N>(pk, msg, sig, "prepared");
  n_prep++;
  VH_REQUIRE(msg.equals(m), "input-modified", "N=%zu message changed", N);
}

template<size_t N>
static void
gold_both(vh::case_t& c, size_t k, const bytes& m)
{
  const auto& K = ref::golden(N)[k % ref::golden(N).size()];
  vh::gbuf pk(K.pk), sk(K.sk);
  both<N>(pk, sk, gold<N>(k), m, c.rng);
  VH_REQUIRE(pk.equals(K.pk) && sk.equals(K.sk), "input-modified", "N=%zu key bytes changed", N);
}

// keys with much in common, one after the other, in both interfaces
template<size_t N>
static void
related(vh::case_t& c)
{
  const auto ks = kin<N>(c.rng, c.idx);
  std::vector<std::unique_ptr<vh::gbuf>> pk, sk;
  std::vector<std::shared_ptr<prep<N>>> ps;
  for (size_t i = 0; i < ks.size(); i++) {
    const auto& b = ks[i];
    pk.push_back(std::make_unique<vh::gbuf>(ref::enc_pk(ref::div_q(b.g, b.f))));
    sk.push_back(std::make_unique<vh::gbuf>(ref::enc_sk(b.f, b.g, b.F)));
    ps.push_back(prepare<N>(b.f, b.g, b.F, b.G));
    const bytes m = message(c.rng, c.rng.below(100));
    both<N>(*pk[i], *sk[i], *ps[i], m, c.rng);
    const size_t j = c.rng.below(i + 1);
    both<N>(*pk[j], *sk[j], *ps[j], m, c.rng);
  }
}
VH_SUITE(related512, 48, 2000)
{
  related<512>(c);
}
VH_SUITE(related1024, 24, 1000)
{
  related<1024>(c);
}

// every message length from 0 on
VH_SUITE(lengths, 1200, 6000)
{
  const bytes m = message(c.rng, c.idx);
  gold_both<512>(c, c.idx, m);
  gold_both<1024>(c, c.idx / 2, m);
}

VH_SUITE(random512, 1500, 60000)
{
  gold_both<512>(c, c.rng.next(), message(c.rng, msg_len(c.rng)));
}
VH_SUITE(random1024, 700, 30000)
{
  gold_both<1024>(c, c.rng.next(), message(c.rng, msg_len(c.rng)));
}
#if !defined(VH_ASAN) && !defined(VH_MSAN) && !defined(VH_TSAN) && defined(__clang__)
// a message whose length does not fit 32 bits (pages of zeros, which cost no memory)
VH_SUITE(beyond32, 2, 2)
{
  auto go = [&]<size_t N>(std::integral_constant<size_t, N>) {
    const size_t n = (size_t(1) << 32) + 16;
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      fprintf(stderr, "cannot map 4 GiB\n");
      exit(3);
    }
    const auto* m = static_cast<uint8_t*>(p);
    c.rng.fill(static_cast<uint8_t*>(p), 64);
    const auto& K = ref::golden(N)[c.rng.below(24)];
    vh::gbuf pk(K.pk), sk(K.sk), sig(ref::sig_len(N));
    const bool made = falcon::sign<N>(sk.data(), m, n, sig.data());
    const bool ok = made && falcon::verify<N>(pk.data(), m, n, sig.data());
    munmap(p, n);
    VH_REQUIRE(made, "sign-failed", "N=%zu: signing a message of 2^32+16 bytes failed", N);
    VH_REQUIRE(ok, "not-verified", "N=%zu: the signature of a message of 2^32+16 bytes does not verify", N);
    n_sign++;
    n_big++;
    vh::eval();
    vh::distinct(vh::hash_bytes(sig.data(), 64));
  };
  if (c.idx & 1)
    go(std::integral_constant<size_t, 512>{});
  else
    go(std::integral_constant<size_t, 1024>{});
}
#endif
VH_SUITE(big, 12, 40)
{
  const size_t base[] = { 65535, 65536, 65537, 131072 - 40, 200000, 1u << 20 };
  const bytes m = message(c.rng, c.idx < 12 ? base[c.idx / 2] : c.rng.range(65536, 16 << 20));
  n_big++;
  if (c.idx & 1)
    gold_both<512>(c, c.idx, m);
  else
    gold_both<1024>(c, c.idx, m);
}

template<size_t N>
static void
fresh(vh::case_t& c)
{
  vh::gbuf pk(ref::pk_len(N)), sk(ref::sk_len(N));
  falcon::keygen<N>(pk.data(), sk.data());
  n_keys++;
  VH_REQUIRE(pk.intact() && sk.intact(), "out-of-bounds-write", "N=%zu keygen", N);
  for (int i = 0; i < 6; i++) {
    vh::gbuf msg(message(c.rng, msg_len(c.rng))), sig(ref::sig_len(N));
    VH_REQUIRE(sign_oneshot<N>(sk, msg, sig), "sign-failed", "N=%zu one-shot sign refused a key of keygen: %s", N, vh::hex(sk.data(), 64).c_str());
    judge<N>(pk, msg, sig, "one-shot, fresh key");
  }
  if (c.idx < 3)
    vh::sample("N=%zu fresh pkey %s..: 6 messages signed and verified", N, vh::hex(pk.data(), 12).c_str());
}
template<size_t N>
static void
fresh_prepared(vh::case_t& c)
{
  prep<N> p;
  std::vector<ff::ff_t> h(N);
  prng::prng_t rng;
  keygen::keygen<N>(p.B.get(), p.T.get(), h.data(), ref::sigma(N), rng);
  n_keys++;
  vh::gbuf pk(ref::pk_len(N));
  encoding::encode_pkey<N>(h.data(), pk.data());
  for (int i = 0; i < 12; i++) {
    vh::gbuf msg(message(c.rng, msg_len(c.rng))), sig(ref::sig_len(N));
    sign_prepared<N>(p, msg, sig, rng);
    n_prep++;
    judge<N>(pk, msg, sig, "prepared, key from keygen()");
    constexpr int32_t b2 = N == 512 ? 34034726 : 70265242;
    const bool ok = verification::verify<N, b2>(h.data(), msg.data(), msg.n, sig.data());
    VH_REQUIRE(ok, "not-verified", "N=%zu verify with unencoded public key", N);
  }
}
VH_SUITE(fresh512, 20, 600)
{
  fresh<512>(c);
}
VH_SUITE(fresh1024, 8, 200)
{
  fresh<1024>(c);
}
VH_SUITE(prepared512, 8, 200)
{
  fresh_prepared<512>(c);
}
VH_SUITE(prepared1024, 8, 80)
{
  fresh_prepared<1024>(c);
}

// Long histories in one process: few physical buffers whose contents keep
// changing, keys and parameter sets interleaved, old signatures re-verified.
template<size_t N>
struct world
{
  vh::gbuf pk{ ref::pk_len(N) }, sk{ ref::sk_len(N) }, sig{ ref::sig_len(N) }, msg{ 4096 };
  prng::prng_t rng;
  struct old
  {
    size_t k;
    bytes m, s;
  };
  std::vector<old> hist;
  void step(vh::case_t& c)
  {
    const auto& ks = ref::golden(N);
    const size_t k = c.rng.below(ks.size());
    memcpy(pk.data(), ks[k].pk.data(), pk.n);
    memcpy(sk.data(), ks[k].sk.data(), sk.n);
    const size_t len = c.rng.below(3) ? c.rng.below(300) : c.rng.below(4097);
    const bytes m = message(c.rng, len);
    if (len)
      memcpy(msg.data(), m.data(), len);
    const bool one = c.rng.below(3) == 0;
    if (one) {
      VH_REQUIRE(falcon::sign<N>(sk.data(), msg.data(), len, sig.data()), "sign-failed", "N=%zu history: one-shot sign refused golden key %zu", N, k);
    } else {
      const auto& p = gold<N>(k);
      falcon::sign<N>(p.B.get(), p.T.get(), msg.data(), len, sig.data(), rng);
      n_prep++;
    }
    n_sign++;
    vh::eval();
    vh::distinct(vh::hash_bytes(sig.data(), 64));
    VH_REQUIRE(sig.intact() && msg.intact(), "out-of-bounds-write", "N=%zu history", N);
    VH_REQUIRE(falcon::verify<N>(pk.data(), msg.data(), len, sig.data()), "not-verified", "N=%zu history: %s, key %zu, message of %zu bytes", N,
               one ? "one-shot" : "prepared", k, len);
    if (hist.size() < 20 || c.rng.below(4) == 0) {
      old o{ k, m, bytes(sig.data(), sig.data() + sig.n) };
      if (hist.size() < 20)
        hist.push_back(o);
      else
        hist[c.rng.below(20)] = o;
    }
    auto& o = hist[c.rng.below(hist.size())];
    memcpy(pk.data(), ks[o.k].pk.data(), pk.n);
    memcpy(sig.data(), o.s.data(), sig.n);
    if (!o.m.empty())
      memcpy(msg.data(), o.m.data(), o.m.size());
    VH_REQUIRE(falcon::verify<N>(pk.data(), msg.data(), o.m.size(), sig.data()), "not-verified-later",
               "N=%zu history: an earlier signature no longer verifies", N);
    vh::eval();
  }
};
VH_SUITE(history, 24, 400)
{
  world<512> a;
  world<1024> b;
  for (int i = 0; i < 150; i++)
    if (c.rng.below(3))
      a.step(c);
    else
      b.step(c);
}

// One generator, one prepared key, very many signatures.
template<size_t N>
static void
streak(vh::case_t& c, int n)
{
  const auto& K = ref::golden(N)[c.idx % ref::golden(N).size()];
  const auto& p = gold<N>(c.idx);
  prng::prng_t rng;
  vh::gbuf pk(K.pk), sig(ref::sig_len(N)), msg(message(c.rng, c.rng.below(100)));
  for (int i = 0; i < n; i++) {
    sign_prepared<N>(p, msg, sig, rng);
    n_prep++;
    n_sign++;
    vh::eval();
    vh::distinct(vh::hash_bytes(sig.data(), 64));
    VH_REQUIRE(verify<N>(pk, msg, sig), "not-verified", "N=%zu signature %d in a row with one generator", N, i);
  }
}
VH_SUITE(streak512, 12, 300)
{
  streak<512>(c, 1500);
}
VH_SUITE(streak1024, 8, 150)
{
  streak<1024>(c, 700);
}

// Attempts that have to be thrown away.
template<size_t N>
static void
restart(vh::case_t& c)
{
  const auto& K = ref::golden(N)[c.rng.below(24)];
  const auto& p = gold<N>(static_cast<size_t>(&K - ref::golden(N).data()));
  const double ps[] = { 1.0, 0.9, 0.5, 0.3, 0.2, 0.15, 0.1, 0.07, 0.05 };
  for (int i = 0; i < 3; i++) {
    forced_t src(c.rng.next(), 40, c.rng.range(5000, 60000), ps[c.rng.below(9)]);
    prng::prng_t rng;
    vh::gbuf pk(K.pk), sig(ref::sig_len(N), static_cast<int>(c.rng.below(256))), msg(message(c.rng, msg_len(c.rng, 300)));
    {
      with_source w(src);
      sign_prepared<N>(p, msg, sig, rng);
    }
    if (src.seen >= src.until)
      n_multi++;
    judge<N>(pk, msg, sig, "prepared, forced restarts");
  }
}
VH_SUITE(restart512, 300, 20000)
{
  restart<512>(c);
}
VH_SUITE(restart1024, 150, 10000)
{
  restart<1024>(c);
}

// Signatures that are possible but practically never drawn: single coefficients
// of thousands in every position, norms next to the bound, full bodies. The
// tape leads the library's own sampler to them.
template<size_t N>
static void
steered_case(vh::case_t& c)
{
  using W = steered::world<N>;
  if (!W::available())
    return;
  W w(c.rng);
  vh::gbuf pk(ref::enc_pk(w.h)), sig(ref::sig_len(N)), msg(w.msg);
  for (size_t j = 0; j < 8; j++) {
    if (j < 2)
      w.sign(w.mixture(static_cast<unsigned>(2 * c.idx + j)), sig, false);
    else
      w.sign({ w.spike((c.idx * 6 + j - 2) % N, c.rng.range(400, N == 512 ? 2700 : 4000), c.rng.below(4) ? 1 : 2, c.rng.below(8) == 0) }, sig, false);
    n_prep++;
    judge<N>(pk, msg, sig, "prepared, steered");
  }
}
VH_SUITE(steered512, 200, 8000)
{
  steered_case<512>(c);
}
VH_SUITE(steered1024, 200, 8000)
{
  steered_case<1024>(c);
}
