// Salts: offline checks over the log of everything each signing call drew from
// its generator and the signatures it produced.
#include "glue.hpp"
#include <algorithm>
#include <thread>
using namespace glue;

static vh::counter_t n_sig("signatures"), n_src("salts_found_in_generator_output"), n_ref("salts_hashed_confirmed"), n_rest("signatures_after_restart"), n_pairs("same_message_signed_again"),
  n_thr("signatures_on_threads"), n_read("generator_reads_logged"), n_aes("uniqueness_set_inserts");

// Uniqueness across all workers: open-addressed set in shared memory, made
// before the workers are forked.
struct slot_t
{
  std::atomic<uint64_t> a, b;
};
static constexpr uint64_t SLOTS = 1ull << 24;
static slot_t* const g_set = static_cast<slot_t*>(mmap(nullptr, SLOTS * sizeof(slot_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
static bool
fresh(const uint8_t* salt, uint64_t tag)
{
  uint64_t h1 = vh::hash_bytes(salt, 40, tag), h2 = vh::hash_bytes(salt, 40, tag + 77) | 1;
  if (!h1)
    h1 = 1;
  n_aes++;
  if (n_aes.total() > SLOTS * 3 / 4)
    return true;
  for (uint64_t i = h1 & (SLOTS - 1);; i = (i + 1) & (SLOTS - 1)) {
    uint64_t cur = g_set[i].a.load();
    if (cur == 0) {
      if (g_set[i].a.compare_exchange_strong(cur, h1)) {
        g_set[i].b.store(h2);
        return true;
      }
    }
    if (cur == h1) {
      uint64_t v;
      while (!(v = g_set[i].b.load())) {
      }
      if (v == h2)
        return false;
    }
  }
}

static thread_local bytes g_log;
static void
log_read(const uint8_t* p, size_t n)
{
  g_log.insert(g_log.end(), p, p + n);
  n_read++;
}
struct with_log
{
  with_log()
  {
    g_log.clear();
    vhook::on_read = log_read;
  }
  ~with_log() { vhook::on_read = nullptr; }
};

static vh::acc_t a_byte(40 * 256), a_bit(320), a_bitpair(320 * 320), a_n(1), a_prev(2);
static thread_local bool g_stats = true;

static void
statistics(const uint8_t* salt)
{
  for (size_t i = 0; i < 40; i++)
    a_byte[i * 256 + salt[i]] += 1;
  a_n[0] += 1;
  static thread_local double x[320];
  for (size_t i = 0; i < 320; i++)
    x[i] = ((salt[i / 8] >> (i & 7)) & 1) ? 1 : -1;
  double* row = &a_bitpair[0];
  for (size_t i = 0; i < 320; i++) {
    for (size_t j = 0; j < i; j++)
      row[i * 320 + j] += x[i] * x[j];
    a_bit[i] += x[i];
  }
}

// Everything there is to say about one signature made while `g_log` recorded.
template<size_t N>
static void
judge(const bytes& pk, const vh::gbuf& msg, const vh::gbuf& sig, const char* how, bool full = true)
{
  const uint8_t* salt = sig.data() + 1;
  VH_REQUIRE(g_log.size() >= 40, "salt-not-drawn", "N=%zu %s: call drew only %zu random bytes", N, how, g_log.size());
  VH_REQUIRE(std::search(g_log.begin(), g_log.end(), salt, salt + 40) != g_log.end(), "salt-not-drawn", "N=%zu %s: bytes 1..40 %s of the signature are not 40 bytes the generator gave during this call (first %s)", N, how,
             vh::hex(salt, 40).c_str(), vh::hex(g_log.data(), 40).c_str());
  n_src++;
  VH_REQUIRE(fresh(salt, 1), "salt-repeated", "N=%zu %s: salt %s was used before in this run", N, how, vh::hex(salt, 40).c_str());
  // no half of it repeats either
  uint8_t half[40] = {};
  memcpy(half, salt, 20);
  VH_REQUIRE(fresh(half, 2), "salt-repeated", "N=%zu %s: first half of salt %s was used before", N, how, vh::hex(salt, 40).c_str());
  memcpy(half, salt + 20, 20);
  VH_REQUIRE(fresh(half, 3), "salt-repeated", "N=%zu %s: second half of salt %s was used before", N, how, vh::hex(salt, 40).c_str());
  if (full) {
    const auto v = ref::verify(N, pk.data(), msg.data(), msg.n, sig.data());
    VH_REQUIRE(v.ok, "salt-not-hashed", "N=%zu %s: with the hash of the stored salt and the message the signature is %s (norm %ld): another salt was hashed", N, how, v.why, static_cast<long>(v.norm));
    n_ref++;
  }
  n_sig++;
  vh::eval();
  vh::distinct(vh::hash_bytes(salt, 40));
  if (g_stats)
    statistics(salt);
}

template<size_t N>
static void
run(vh::case_t& c, int n)
{
  const auto& ks = ref::golden(N);
  const size_t k = c.rng.below(ks.size());
  const auto& p = gold<N>(k);
  prng::prng_t rng;
  vh::gbuf sig(ref::sig_len(N)), sk(ks[k].sk);
  bytes last;
  std::unique_ptr<vh::gbuf> msg;
  for (int i = 0; i < n; i++) {
    if (!msg || c.rng.below(3) == 0)
      msg = std::make_unique<vh::gbuf>(message(c.rng, c.rng.below(40) ? c.rng.below(150) : c.rng.below(30000) + c.rng.below(30000)));
    else
      n_pairs++;
    const bytes before(sig.data(), sig.data() + sig.n);
    {
      with_log w;
      if (c.rng.below(12) == 0)
        VH_REQUIRE(sign_oneshot<N>(sk, *msg, sig), "sign-failed", "N=%zu golden key %zu", N, k);
      else
        sign_prepared<N>(p, *msg, sig, rng);
    }
    judge<N>(ks[k].pk, *msg, sig, "streak", i % 3 == 0);
    VH_REQUIRE(memcmp(before.data() + 41, sig.data() + 41, sig.n - 41) != 0, "signature-repeated", "N=%zu same key, two calls: same signature body", N);
  }
  if (c.idx == 0)
    vh::sample("N=%zu signature %d of a streak: salt %s.. found in the %zu bytes drawn by that call", N, n, vh::hex(sig.data() + 1, 12).c_str(), g_log.size());
}
VH_SUITE(streak512, 400, 20000)
{
  run<512>(c, 90);
}
VH_SUITE(streak1024, 200, 10000)
{
  run<1024>(c, 60);
}

// Attempts thrown away: the salt that ends up in the signature must be the one
// of the hash all the same.
template<size_t N>
static void
restarts(vh::case_t& c)
{
  const auto& ks = ref::golden(N);
  const size_t k = c.rng.below(ks.size());
  const auto& p = gold<N>(k);
  static const double ps[] = { 1.0, 0.9, 0.5, 0.3, 0.2 };
  for (int i = 0; i < 4; i++) {
    forced_t src(c.rng.next(), 40, static_cast<uint64_t>(c.rng.range(5000, 90000)), ps[c.rng.below(5)]);
    prng::prng_t rng;
    vh::gbuf sig(ref::sig_len(N), static_cast<int>(c.rng.below(256))), msg(message(c.rng, c.rng.below(300)));
    {
      with_source w(src);
      with_log l;
      sign_prepared<N>(p, msg, sig, rng);
    }
    if (src.seen >= src.until)
      n_rest++;
    g_stats = false;
    judge<N>(ks[k].pk, msg, sig, "forced restarts");
    g_stats = true;
  }
}
VH_SUITE(restart512, 120, 8000)
{
  restarts<512>(c);
}
VH_SUITE(restart1024, 60, 4000)
{
  restarts<1024>(c);
}

// Fresh keys and both parameter sets share the pool of salts.
template<size_t N>
static void
newkey(vh::case_t& c)
{
  prep<N> p;
  std::vector<ff::ff_t> h(N);
  prng::prng_t rng;
  keygen::keygen<N>(p.B.get(), p.T.get(), h.data(), ref::sigma(N), rng);
  bytes pk(ref::pk_len(N));
  encoding::encode_pkey<N>(h.data(), pk.data());
  for (int i = 0; i < 20; i++) {
    vh::gbuf sig(ref::sig_len(N)), msg(message(c.rng, c.rng.below(100)));
    {
      with_log l;
      sign_prepared<N>(p, msg, sig, rng);
    }
    judge<N>(pk, msg, sig, "generator also used for the key");
  }
}
VH_SUITE(newkey512, 8, 100)
{
  newkey<512>(c);
}
VH_SUITE(newkey1024, 2, 30)
{
  newkey<1024>(c);
}

// Threads signing the same message with the same key at once.
template<size_t N>
static void
threads(vh::case_t& c)
{
  constexpr size_t T = 8, M = 12;
  const auto& ks = ref::golden(N);
  const size_t k = c.rng.below(ks.size());
  const auto& p = gold<N>(k);
  const vh::gbuf msg(message(c.rng, c.rng.below(100))), sk(ks[k].sk);
  std::vector<bytes> sigs(T * M, bytes(ref::sig_len(N))), logs(T * M);
  std::vector<std::thread> th;
  const uint64_t s0 = c.rng.next();
  std::atomic<int> go{ 0 };
  for (size_t t = 0; t < T; t++)
    th.emplace_back([&, t] {
      vh::seed_entropy(s0 + t);
      prng::prng_t rng;
      go++;
      while (go.load() < static_cast<int>(T)) {
      }
      for (size_t i = 0; i < M; i++) {
        with_log l;
        auto& s = sigs[t * M + i];
        if (i % 4 == 3)
          falcon::sign<N>(sk.data(), msg.data(), msg.n, s.data());
        else
          falcon::sign<N>(p.B.get(), p.T.get(), msg.data(), msg.n, s.data(), rng);
        logs[t * M + i] = g_log;
      }
    });
  for (auto& x : th)
    x.join();
  for (size_t i = 0; i < T * M; i++) {
    vh::gbuf sig(sigs[i]);
    g_log = logs[i];
    judge<N>(ks[k].pk, msg, sig, "concurrent signers", i % 4 == 0);
    n_thr++;
  }
}
VH_SUITE(threads512, 12, 200)
{
  threads<512>(c);
}
VH_SUITE(threads1024, 4, 80)
{
  threads<1024>(c);
}

VH_FINISH(uniformity)
{
  const double n = a_n.total(0);
  if (n < 1000)
    return;
  double worst = 0, wb = 0, wp = 0;
  for (int i = 0; i < 40; i++) {
    double chi = 0;
    for (int b = 0; b < 256; b++) {
      const double d = a_byte.total(i * 256 + b) - n / 256;
      chi += d * d / (n / 256);
    }
    const double z = (std::cbrt(chi / 255) - (1 - 2 / (9 * 255.))) / std::sqrt(2 / (9 * 255.));
    worst = std::max(worst, std::abs(z));
    if (std::abs(z) > 8)
      vh::note_fail("salt-not-uniform", "salt byte %d: chi2 %.1f with 255 degrees of freedom over %.0f salts", i, chi, n);
  }
  for (int i = 0; i < 320; i++) {
    const double z = a_bit.total(i) / std::sqrt(n);
    wb = std::max(wb, std::abs(z));
    if (std::abs(z) > 8)
      vh::note_fail("salt-not-uniform", "salt bit %d: z = %.1f over %.0f salts", i, z, n);
    for (int j = 0; j < i; j++) {
      const double zz = a_bitpair.total(i * 320 + j) / std::sqrt(n);
      wp = std::max(wp, std::abs(zz));
      if (std::abs(zz) > 9)
        vh::note_fail("salt-bits-dependent", "salt bits %d and %d: correlation z = %.1f over %.0f salts", i, j, zz, n);
    }
  }
  vh::sample("%.0f salts: worst byte position z = %.2f, worst bit z = %.2f, worst bit pair z = %.2f", n, worst, wb, wp);
}
