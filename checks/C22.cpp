// Concurrency: threads that generate keys, sign, verify, expand and decode at
// the same time over shared read-only inputs. ThreadSanitizer watches for
// races; every result is compared with a sequential replay under the same
// entropy. Yields injected at the generator vary the interleaving.
#include "glue.hpp"
#include <sched.h>
#include <thread>
using namespace glue;

static vh::counter_t n_op("operations_run_concurrently"), n_cmp("results_equal_to_sequential_replay"), n_kg("keys_generated_concurrently"), n_sign("signatures_made_concurrently"),
  n_ver("verifications_run_concurrently"), n_cold("processes_with_concurrent_first_use"), n_yield("delays_injected"), n_over("operations_overlapping_another"), n_again("signatures_with_forced_restarts");
constexpr uint64_t KINDS = 13;

struct job
{
  int kind;
  size_t N, key;
  uint64_t seed;
  size_t msg;
  bool bad;
};

// Shared, read-only while threads run.
struct world
{
  struct per_n
  {
    std::vector<bytes> pk, sk;
    std::vector<bytes> sig; // of message 0..2 under key k: [3k + m]
  } n[2];
  std::vector<bytes> msg;
};

static thread_local vh::rng_t* t_delay = nullptr;
static void
delay(const uint8_t*, size_t)
{
  if (t_delay && t_delay->below(64) == 0) {
    n_yield++;
    if (t_delay->below(8) == 0)
      usleep(static_cast<useconds_t>(t_delay->below(200)));
    else
      sched_yield();
  }
}

template<size_t N>
static uint64_t
run(const world& w, const job& j, const prep<N>* p)
{
  const auto& K = w.n[N == 1024];
  const bytes &m = w.msg[j.msg], &pk = K.pk[j.key], &sk = K.sk[j.key];
  vh::seed_entropy(j.seed);
  uint64_t h = 1;
  switch (j.kind) {
    case 0: { // key generation
      bytes a(ref::pk_len(N)), b(ref::sk_len(N));
      falcon::keygen<N>(a.data(), b.data());
      n_kg++;
      h = vh::hash_bytes(a.data(), a.size(), vh::hash_bytes(b.data(), b.size()));
      break;
    }
    case 1: { // one-shot signature
      bytes s(ref::sig_len(N));
      h = falcon::sign<N>(sk.data(), m.data(), m.size(), s.data());
      n_sign++;
      h = vh::hash_bytes(s.data(), s.size(), h);
      break;
    }
    case 2: { // prepared, several with one generator
      prng::prng_t rng;
      bytes s(ref::sig_len(N));
      for (int i = 0; i < 4; i++) {
        falcon::sign<N>(p->B.get(), p->T.get(), m.data(), m.size(), s.data(), rng);
        h = vh::hash_bytes(s.data(), s.size(), h);
        n_sign++;
      }
      break;
    }
    case 3: { // verify a shared signature (right or wrong message)
      const bytes& s = K.sig[3 * j.key + j.msg % 3];
      const bytes& mm = w.msg[j.bad ? 3 : j.msg % 3];
      for (int i = 0; i < 3; i++) {
        h = h * 2 + falcon::verify<N>(pk.data(), mm.data(), mm.size(), const_cast<uint8_t*>(s.data()));
        n_ver++;
      }
      break;
    }
    case 4: { // key expansion
      std::vector<int32_t> f(N), g(N), F(N), G(N);
      h = decoding::decode_skey<N>(sk.data(), f.data(), g.data(), F.data());
      falcon::recompute_G<N>(f.data(), g.data(), F.data(), G.data());
      prep<N> q;
      falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), q.B.get());
      falcon::compute_falcon_tree<N>(q.B.get(), q.T.get());
      h = vh::hash_bytes(q.B.get(), 64 * N, vh::hash_bytes(q.T.get(), 16 * N * (prep<N>::LG + 1), h));
      break;
    }
    case 5: { // sign, then verify what was signed
      prng::prng_t rng;
      bytes s(ref::sig_len(N));
      falcon::sign<N>(p->B.get(), p->T.get(), m.data(), m.size(), s.data(), rng);
      h = falcon::verify<N>(pk.data(), m.data(), m.size(), s.data());
      n_sign++;
      n_ver++;
      h = vh::hash_bytes(s.data(), s.size(), h);
      break;
    }
    case 6: { // codecs and hashing
      std::vector<ff::ff_t> q(N);
      std::vector<int32_t> s2(N);
      h = decoding::decode_pkey<N>(pk.data(), q.data());
      h = vh::hash_bytes(q.data(), 2 * N, h);
      bytes e(ref::pk_len(N));
      encoding::encode_pkey<N>(q.data(), e.data());
      h = vh::hash_bytes(e.data(), e.size(), h);
      h ^= decoding::decompress_sig<N, N == 512 ? 666 : 1280>(K.sig[3 * j.key].data(), s2.data());
      h = vh::hash_bytes(s2.data(), 4 * N, h);
      hashing::hash_to_point<N>(m.data(), 40, m.data(), m.size(), q.data());
      h = vh::hash_bytes(q.data(), 2 * N, h);
      break;
    }
    case 8: { // what has to be refused, and what looks like a key
      bytes s(ref::sig_len(N), 3), k = sk, p2 = pk, g = K.sig[3 * j.key];
      vh::rng_t r(j.seed);
      k[0] ^= static_cast<uint8_t>(1 + r.below(255));
      h = falcon::sign<N>(k.data(), m.data(), m.size(), s.data());
      h = vh::hash_bytes(s.data(), s.size(), h);
      k = sk;
      for (int i = 0; i < 3; i++)
        k[1 + r.below(k.size() - 1)] ^= static_cast<uint8_t>(1 + r.below(255));
      vhook::prng_budget = vhook::prng_bytes + 2000000;
      try {
        h = h * 2 + falcon::sign<N>(k.data(), m.data(), m.size(), s.data());
      } catch (const vhook::budget_exceeded&) {
      }
      vhook::prng_budget = vh::default_budget + vhook::prng_bytes;
      h = vh::hash_bytes(s.data(), s.size(), h);
      p2[1 + r.below(p2.size() - 1)] = 255;
      p2[1 + r.below(p2.size() - 1)] = 255;
      h = h * 2 + falcon::verify<N>(p2.data(), m.data(), m.size(), g.data());
      p2[0] ^= 1;
      h = h * 2 + falcon::verify<N>(p2.data(), m.data(), m.size(), g.data());
      g[r.below(g.size())] ^= static_cast<uint8_t>(1 + r.below(255));
      h = h * 2 + falcon::verify<N>(pk.data(), m.data(), m.size(), g.data());
      std::vector<int32_t> a(N, 1), b(N, 1), d(N, 1);
      k[0] = 0;
      h = h * 2 + decoding::decode_skey<N>(k.data(), a.data(), b.data(), d.data());
      std::vector<ff::ff_t> q(N);
      h = h * 2 + decoding::decode_pkey<N>(p2.data(), q.data());
      break;
    }
    case 9: { // attempts that have to be repeated
      forced_t src(j.seed, 40, 4000 + j.seed % 30000, 0.5);
      prng::prng_t rng;
      bytes s(ref::sig_len(N));
      {
        with_source w2(src);
        falcon::sign<N>(p->B.get(), p->T.get(), m.data(), m.size(), s.data(), rng);
      }
      n_sign++;
      n_again.add(src.forced > 0);
      h = vh::hash_bytes(s.data(), s.size());
      break;
    }
    case 10: { // polynomials that do not fit, or only just; bodies out of order
      vh::rng_t r(j.seed);
      std::vector<int32_t> a(N), b(N);
      bytes s(ref::sig_len(N));
      for (int i = 0; i < 6; i++) {
        for (auto& x : a)
          x = static_cast<int32_t>(r.gauss() * (i < 3 ? 165 : 400));
        h = h * 2 + encoding::compress_sig<N, N == 512 ? 666 : 1280>(a.data(), s.data());
        for (size_t k = 0; i & 1 && k < 3; k++)
          s[41 + r.below(s.size() - 41)] = static_cast<uint8_t>(r.next());
        h = h * 2 + decoding::decompress_sig<N, N == 512 ? 666 : 1280>(s.data(), b.data());
        h = vh::hash_bytes(b.data(), 4 * N, h);
      }
      r.fill(s.data(), s.size());
      for (double mu = -3; mu < 3; mu += 0.25) {
        const auto z = samplerz::samplerz(mu, 1.5, ref::sigma_min(N), static_cast<const uint8_t*>(s.data()), s.size());
        h = vh::mix64(h + static_cast<uint64_t>(z.first) * 1000 + z.second);
      }
      const std::string x = to_hex(s.data(), s.size());
      to_byte_array(x, s.data());
      h = vh::hash_bytes(s.data(), s.size(), h);
      break;
    }
    case 11: { // the steps of key generation
      prng::prng_t rng;
      const auto& k = ref::golden(N)[j.key];
      auto f = i32<N>(k.f), g = i32<N>(k.g);
#ifndef VH_MINIMAL
      std::vector<ff::ff_t> q(N);
      keygen::compute_public_key<N>(f.data(), g.data(), q.data());
      h = vh::hash_bytes(q.data(), 2 * N, h);
      std::vector<fft::cmplx> gram(4 * N);
      keygen::compute_gram_matrix<N>(p->B.get(), gram.data());
      h = vh::hash_bytes(gram.data(), 64 * N, h);
#endif
      constexpr size_t LG = prep<N>::LG;
      ntru_gen::gen_poly<LG>(f.data(), rng);
      ntru_gen::gen_poly<LG>(g.data(), rng);
      h = vh::hash_bytes(f.data(), 4 * N, h);
#ifndef VH_MINIMAL
      const double n = ntru_gen::gram_schmidt_norm<LG>(f.data(), g.data());
      h = vh::hash_bytes(&n, 8, h);
#endif
      break;
    }
    case 12: { // long messages
      vh::rng_t r(j.seed);
      bytes big(30000 + r.below(100000)), s(ref::sig_len(N));
      r.fill(big.data(), big.size());
      prng::prng_t rng;
      falcon::sign<N>(p->B.get(), p->T.get(), big.data(), big.size(), s.data(), rng);
      h = vh::hash_bytes(s.data(), s.size(), h) * 2 + falcon::verify<N>(pk.data(), big.data(), big.size(), s.data());
      n_sign++;
      n_ver++;
      break;
    }
    default: { // NTRU solving of a small degree, big integer products
      vh::rng_t r(j.seed);
      std::array<mpz_class, 16> a, b;
      for (size_t i = 0; i < 16; i++) {
        a[i] = static_cast<long>(r.range(-20, 20));
        b[i] = static_cast<long>(r.range(-20, 20));
      }
      const auto z = ntru_gen::ntru_solve(a, b);
      h = z.second.is_solution();
      for (size_t i = 0; i < 16; i++)
        h = vh::mix64(h + static_cast<uint64_t>(z.first.first[i].get_si()));
    }
  }
  return h;
}

static void
fill(world& w, vh::rng_t& r, size_t keys, bool sigs)
{
  for (size_t n = 0; n < 2; n++) {
    const auto& ks = ref::golden(n ? 1024 : 512);
    for (size_t k = 0; k < keys; k++) {
      w.n[n].pk.push_back(ks[k].pk);
      w.n[n].sk.push_back(ks[k].sk);
    }
  }
  for (int i = 0; i < 4; i++) {
    w.msg.push_back(message(r, 40 + r.below(400)));
    w.msg.back()[0] = static_cast<uint8_t>(i);
  }
  for (size_t n = 0; n < 2; n++)
    for (size_t k = 0; k < keys; k++)
      for (size_t m = 0; m < 3; m++) {
        bytes s(n ? 1280 : 666);
        if (sigs) {
          prng::prng_t rng;
          if (n)
            falcon::sign<1024>(gold<1024>(k).B.get(), gold<1024>(k).T.get(), w.msg[m].data(), w.msg[m].size(), s.data(), rng);
          else
            falcon::sign<512>(gold<512>(k).B.get(), gold<512>(k).T.get(), w.msg[m].data(), w.msg[m].size(), s.data(), rng);
        } else {
          s[0] = n ? 0x3a : 0x39;
          for (size_t i = 41; i < s.size(); i++)
            s[i] = 0x01;
        }
        w.n[n].sig.push_back(s);
      }
}

static std::atomic<int> g_active{ 0 };

// Run the per-thread job lists concurrently, then one after another; `cold`:
// nothing of the library may have run before (threads prepare keys themselves).
static void
contest(vh::case_t& c, const world& w, const std::vector<std::vector<job>>& jobs, const std::vector<const prep<512>*>* p5, const std::vector<const prep<1024>*>* p10)
{
  const size_t T = jobs.size();
  std::vector<std::vector<uint64_t>> got(T), want(T);
  std::atomic<uint64_t> ready{ 0 }, stamp{ 0 };
  std::vector<std::pair<uint64_t, uint64_t>> order(0);
  std::vector<std::vector<uint64_t>> when(T);
  const uint64_t s0 = c.rng.next();
  auto all = [&](size_t t, std::vector<uint64_t>& out, bool conc) {
    for (const job& j : jobs[t]) {
      if (conc && g_active.fetch_add(1, std::memory_order_relaxed) > 0)
        n_over++;
      std::shared_ptr<prep<512>> l5;
      std::shared_ptr<prep<1024>> l10;
      const prep<512>* a = nullptr;
      const prep<1024>* b = nullptr;
      const bool needs = j.kind == 2 || j.kind == 5 || j.kind == 9 || j.kind == 11 || j.kind == 12;
      if (j.N == 512 && needs) {
        const auto& k = ref::golden(512)[j.key];
        a = p5 ? (*p5)[j.key] : (l5 = prepare<512>(k.f, k.g, k.F, k.G)).get();
      }
      if (j.N == 1024 && needs) {
        const auto& k = ref::golden(1024)[j.key];
        b = p10 ? (*p10)[j.key] : (l10 = prepare<1024>(k.f, k.g, k.F, k.G)).get();
      }
      out.push_back(j.N == 512 ? run<512>(w, j, a) : run<1024>(w, j, b));
      if (conc) {
        g_active.fetch_sub(1, std::memory_order_relaxed);
        when[t].push_back(stamp.fetch_add(1, std::memory_order_relaxed));
        n_op++;
      }
    }
  };
  std::vector<std::thread> th;
  for (size_t t = 0; t < T; t++)
    th.emplace_back([&, t] {
      vh::rng_t d(s0 + t);
      t_delay = &d;
      vhook::on_read = delay;
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < T)
        sched_yield();
      all(t, got[t], true);
      t_delay = nullptr;
    });
  for (auto& x : th)
    x.join();
  for (size_t t = 0; t < T; t++)
    all(t, want[t], false);
  static const char* K[] = { "keygen", "one-shot sign", "prepared sign", "verify", "key expansion", "sign and verify", "codec and hash", "ntru_solve", "malformed inputs", "sign with restarts", "compression", "key generation steps", "long messages" };
  uint64_t inter = 0;
  for (size_t t = 0; t < T; t++) {
    for (size_t i = 0; i < jobs[t].size(); i++) {
      VH_REQUIRE(got[t][i] == want[t][i], "result-differs", "%zu threads: %s (N=%zu, key %zu) as operation %zu of thread %zu gave another result than alone with the same entropy", T, K[jobs[t][i].kind],
                 jobs[t][i].N, jobs[t][i].key, i, t);
      n_cmp++;
      vh::eval();
    }
    inter = vh::hash_bytes(when[t].data(), 8 * when[t].size(), inter);
  }
  vh::distinct(vh::mix64(inter ^ s0));
  if (c.idx == 0)
    vh::sample("%zu threads x %zu operations, completion order hash %016lx", T, jobs[0].size(), inter);
}

// First use of the library in a process happens on several threads at once.
VH_SUITE(cold, 24, 400)
{
  fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    const uint32_t nv = vh::me->nviol_total;
    try {
      world w;
      fill(w, c.rng, 4, false);
      std::vector<std::vector<job>> jobs(4 + c.idx % 3 * 2);
      for (auto& l : jobs)
        for (int i = 0; i < 3; i++) { // the same kind of operation first, then others
          const int kind = i == 0 ? 1 + static_cast<int>(c.idx / 2 % (KINDS - 1)) : 1 + static_cast<int>(c.rng.below(KINDS - 1));
          l.push_back({ kind, (c.idx + static_cast<uint64_t>(i)) % 2 ? 512ul : 1024ul, c.rng.below(4), c.rng.next(), c.rng.below(4), false });
        }
      contest(c, w, jobs, nullptr, nullptr);
    } catch (const vh::case_abort&) {
    }
    _exit(vh::me->nviol_total == nv ? 0 : 7);
  }
  int st = 0;
  waitpid(p, &st, 0);
  n_cold++;
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7))
    return;
  if (WIFEXITED(st))
    _exit(WEXITSTATUS(st)); // sanitizer report is in the log
  vh::fail("crash", "first concurrent use: signal %d", WTERMSIG(st));
}

VH_SUITE(mixed, 40, 1500)
{
  world w;
  fill(w, c.rng, 3, true);
  std::vector<const prep<512>*> p5;
  std::vector<const prep<1024>*> p10;
  for (size_t k = 0; k < 3; k++) {
    p5.push_back(&gold<512>(k));
    p10.push_back(&gold<1024>(k));
  }
  std::vector<std::vector<job>> jobs(2 + c.rng.below(7));
  const bool same = c.rng.below(3) == 0; // all on one key and one message
  const size_t N0 = c.rng.below(3);
  for (auto& l : jobs)
    for (int i = 0; i < 10; i++)
      l.push_back({ 1 + static_cast<int>(c.rng.below(KINDS - 1)), N0 == 0 ? 512ul : N0 == 1 ? 1024ul : c.rng.below(2) ? 512ul : 1024ul, same ? 0 : c.rng.below(3), c.rng.next(),
                    same ? 0 : c.rng.below(4), c.rng.below(4) == 0 });
  contest(c, w, jobs, &p5, &p10);
}
// Everyone signs / verifies with the same prepared key.
VH_SUITE(hammer, 24, 800)
{
  world w;
  fill(w, c.rng, 1, true);
  const std::vector<const prep<512>*> p5{ &gold<512>(0) };
  const std::vector<const prep<1024>*> p10{ &gold<1024>(0) };
  const size_t N = c.idx & 1 ? 512 : 1024;
  static const int kinds[] = { 2, 5, 1, 3, 9, 8 };
  std::vector<std::vector<job>> jobs(8);
  for (auto& l : jobs)
    for (int i = 0; i < 8; i++)
      l.push_back({ kinds[c.idx / 2 % 6], N, 0, c.rng.next(), c.rng.below(4), c.rng.below(2) == 0 });
  contest(c, w, jobs, &p5, &p10);
}
template<size_t N>
static void
keygens(vh::case_t& c, size_t T)
{
  world w;
  fill(w, c.rng, 1, true);
  const std::vector<const prep<512>*> p5{ &gold<512>(0) };
  const std::vector<const prep<1024>*> p10{ &gold<1024>(0) };
  std::vector<std::vector<job>> jobs(T);
  for (size_t t = 0; t < T; t++)
    if (t % 3 != 2)
      jobs[t].push_back({ 0, N, 0, c.rng.next(), 0, false });
    else
      for (int i = 0; i < 12; i++)
        jobs[t].push_back({ 1 + static_cast<int>(c.rng.below(KINDS - 1)), N, 0, c.rng.next(), c.rng.below(4), false });
  contest(c, w, jobs, &p5, &p10);
}
VH_SUITE(keygens512, 3, 60)
{
  keygens<512>(c, 3 + c.rng.below(3));
}
VH_SUITE(keygens1024, 1, 12)
{
  keygens<1024>(c, 2 + c.rng.below(2));
}
VH_FINISH(reach)
{
  vh::sample("%lu operations, %lu of them started while another was running, %lu delays injected", n_op.total(), n_over.total(), n_yield.total());
  if (n_over.total() < 50)
    vh::note_fail("no-reach", "hardly any operations overlapped (harness defect)");
}
