// Determinism and initialisation: the same call under the same entropy, in a
// fresh process, after histories, over dirtied stack, heap and outputs, must
// leave the same bytes; inputs stay as they were. MSan and memcheck builds
// also check that every output byte is initialised.
#include "steered.inc"
#include <malloc.h>
#include <spawn.h>
using namespace glue;
#ifdef VH_MSAN
#include <sanitizer/msan_interface.h>
#endif
#ifdef VH_VALGRIND
#include <valgrind/memcheck.h>
#endif
#if defined(VH_MSAN)
#define NO_GMP 1
#endif
extern char** environ;

static vh::counter_t n_run("calls_made"), n_pair("result_pairs_compared"), n_exec("fresh_processes"), n_in("inputs_checked_unmodified"), n_init("output_buffers_checked_initialised"), n_kg("key_generations"), n_unfit("signing_calls_with_planned_attempts"),
  n_hist("calls_in_histories"), n_vg("memcheck_error_counts_read");

static void
undef(void* p, size_t n)
{
#ifdef VH_MSAN
  __msan_poison(p, n);
#endif
#ifdef VH_VALGRIND
  (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#endif
  (void)p;
  (void)n;
}
static void
defined(const char* what, const void* p, size_t n)
{
#ifdef VH_MSAN
  const auto off = __msan_test_shadow(p, n);
  VH_REQUIRE(off < 0, "uninitialised-output", "%s: output byte %ld of %zu is uninitialised or computed from uninitialised memory", what, static_cast<long>(off), n);
  n_init++;
#endif
#ifdef VH_VALGRIND
  const auto bad = VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
  VH_REQUIRE(bad == 0, "uninitialised-output", "%s: output byte %ld of %zu is uninitialised or computed from uninitialised memory", what, static_cast<long>(static_cast<const char*>(reinterpret_cast<void*>(bad)) - static_cast<const char*>(p)), n);
  n_init++;
#endif
  (void)what;
  (void)p;
  (void)n;
}

// ------------------------------------------------------------------ dirtying
static volatile uint8_t g_sink;
__attribute__((noinline)) static void
dirty_stack(int pattern, size_t kib)
{
  uint8_t page[16384];
  static const uint8_t nan[8] = { 0, 0, 0, 0, 0, 0, 0xf8, 0x7f };
  for (size_t i = 0; i < sizeof page; i++)
    page[i] = pattern < 256 ? static_cast<uint8_t>(pattern) : pattern == 256 ? nan[i & 7] : static_cast<uint8_t>(i * 131 + 7);
  g_sink = page[g_sink & 1023];
  if (kib > 16)
    dirty_stack(pattern, kib - 16);
  g_sink = page[g_sink & 1023];
}
static void
dirty_heap(int pattern)
{
#if !defined(VH_ASAN) && !defined(VH_MSAN) && !defined(VH_TSAN) && !defined(VH_VALGRIND)
  mallopt(M_PERTURB, pattern & 255);
#endif
  std::vector<std::unique_ptr<bytes>> v;
  for (size_t n = 16; n < (1u << 18); n = n * 3 / 2)
    v.push_back(std::make_unique<bytes>(n, static_cast<uint8_t>(pattern)));
}
static void
dirty(int pattern)
{
#if defined(VH_MSAN) || defined(VH_VALGRIND)
  (void)pattern;
#else
  dirty_heap(pattern);
  dirty_stack(pattern, 6144);
#endif
}

// ---------------------------------------------------------------------- jobs
// Every byte buffer lies somewhere else each time: alignments are part of what
// results must not depend on.
static thread_local uint64_t places = 0;
static size_t
place()
{
  return vh::mix64(places++) % 16;
}
// An input: bytes at some address.
struct placed
{
  bytes st;
  size_t at, n;
  placed(const bytes& b)
    : st(b.size() + 32)
    , at(place())
    , n(b.size())
  {
    std::copy(b.begin(), b.end(), st.begin() + static_cast<ptrdiff_t>(at));
  }
  placed(const placed& o)
    : placed(bytes(o.begin(), o.end()))
  {
  }
  placed& operator=(const placed&) = delete;
  uint8_t* data() { return st.data() + at; }
  const uint8_t* data() const { return st.data() + at; }
  size_t size() const { return n; }
  uint8_t& operator[](size_t i) { return st[at + i]; }
  uint8_t* begin() { return data(); }
  uint8_t* end() { return data() + n; }
  const uint8_t* begin() const { return data(); }
  const uint8_t* end() const { return data() + n; }
};
struct out_t
{
  std::unique_ptr<uint8_t[]> st; // prefilled, or undefined for the sanitizers
  uint8_t* p;
  size_t n;
  out_t(size_t n, int fill, bool bytes = false)
    : st(new uint8_t[n + 16])
    , p(st.get() + (bytes ? place() : 0))
    , n(n)
  {
    memset(p, fill & 255, n);
    undef(p, n);
  }
  template<typename T>
  T* as()
  {
    return reinterpret_cast<T*>(p);
  }
};
static void
take(const char* what, bytes& r, const out_t& o)
{
  defined(what, o.p, o.n);
  r.insert(r.end(), o.p, o.p + o.n);
}
static void
same(const char* what, const placed& a, const placed& b)
{
  VH_REQUIRE(a.n == b.n && std::equal(a.begin(), a.end(), b.begin()), "input-modified", "%s changed one of its inputs", what);
  n_in++;
}
static const char* const NAMES[] = { "keygen",      "one-shot sign",         "prepared sign x3", "verify",       "key expansion",      "codec",
                                     "hash",        "sign, forced restarts", "malformed key",    "base sampler", "ntru_solve (small)", "verify with damaged inputs",
                                     "keygen()",    "transforms",            "sign, attempts that do not fit" };
constexpr int KINDS = 15;

// One call (or a few), fully determined by (kind, N, seed). Returns all output.
template<size_t N>
static bytes
perform(int kind, uint64_t seed, int fill)
{
  vh::rng_t r(seed);
  const auto& ks = ref::golden(N);
  const size_t k = r.below(ks.size());
  const auto& K = ks[k];
  // often a message, and for one-shot signing and key expansion a key, that
  // differs little from those of other calls
  bytes raw = message(r, r.below(400));
  if (r.below(2)) {
    raw = bytes(64 * (1 + r.below(3)), 0x41);
    raw[r.below(raw.size())] = static_cast<uint8_t>(r.next());
  }
  bytes rsk = K.sk;
  if (r.below(2)) {
    static const auto* const v = [] {
      auto* a = new std::vector<basis>;
      vh::rng_t fix(5);
      for (size_t i = 0; i < 2; i++)
        for (auto& b : kin<N>(fix, i))
          a->push_back(b);
      return a;
    }();
    const auto& b = (*v)[r.below(v->size())];
    rsk = ref::enc_sk(b.f, b.g, b.F);
  }
  placed m = raw, sk = rsk, pk = K.pk;
  const placed m0 = m;
  bytes res;
  const uint64_t es = r.next();
  constexpr size_t SIG = N == 512 ? 666 : 1280, LG = N == 512 ? 9 : 10;
  const char* nm = NAMES[kind];
  // everything prepared; now the entropy, and the call
  switch (kind) {
    case 0: {
      out_t a(ref::pk_len(N), fill, true), b(ref::sk_len(N), fill, true);
      vh::seed_entropy(es);
      falcon::keygen<N>(a.p, b.p);
      take(nm, res, a);
      take(nm, res, b);
      n_kg++;
      break;
    }
    case 1: {
      out_t s(SIG, fill, true);
      vh::seed_entropy(es);
      const bool ok = falcon::sign<N>(sk.data(), m.data(), m.size(), s.p);
      VH_REQUIRE(ok, "sign-failed", "N=%zu golden key %zu refused", N, k);
      take(nm, res, s);
      same(nm, sk, rsk);
      break;
    }
    case 2:
    case 7: {
      const auto& P = gold<N>(k);
      const uint64_t hb = vh::hash_bytes(P.B.get(), 64 * N), ht = vh::hash_bytes(P.T.get(), 16 * N * (LG + 1));
      const uint64_t fs = r.next(), until = 4000 + r.below(50000);
      const double fp = r.unit();
      vh::seed_entropy(es);
      prng::prng_t rng;
      forced_t src(fs, 40, until, fp);
      if (kind == 7)
        vhook::prng_override = &src;
      for (int i = 0; i < (kind == 7 ? 1 : 3); i++) {
        out_t s(SIG, fill + i, true);
        falcon::sign<N>(P.B.get(), P.T.get(), m.data(), m.size(), s.p, rng);
        take(nm, res, s);
      }
      vhook::prng_override = nullptr;
      VH_REQUIRE(hb == vh::hash_bytes(P.B.get(), 64 * N) && ht == vh::hash_bytes(P.T.get(), 16 * N * (LG + 1)), "input-modified", "N=%zu sign changed the prepared key", N);
      n_in++;
      break;
    }
    case 3:
    case 11: {
      const auto& P = gold<N>(k);
      vh::seed_entropy(es);
      prng::prng_t rng;
      placed s = bytes(SIG);
      falcon::sign<N>(P.B.get(), P.T.get(), m.data(), m.size(), s.data(), rng);
      if (kind == 11) {
        for (uint64_t i = r.below(4); i--;)
          s[r.below(SIG)] ^= static_cast<uint8_t>(1u << r.below(8));
        if (r.below(3) == 0)
          pk[r.below(pk.size())] ^= static_cast<uint8_t>(1u << r.below(8));
        if (r.below(3) == 0)
          r.fill(&s[41], SIG - 41);
      }
      const placed s0 = s, pk0 = pk;
      for (int i = 0; i < 2; i++)
        res.push_back(falcon::verify<N>(pk.data(), m.data(), m.size(), s.data()));
      defined(nm, res.data(), res.size());
      same(nm, s, s0);
      same(nm, pk, pk0);
      break;
    }
    case 4: {
      out_t f(4 * N, fill), g(4 * N, fill), F(4 * N, fill), G(4 * N, fill), B(64 * N, fill), T(16 * N * (LG + 1), fill), M(64 * N, fill), h(2 * N, fill);
      decoding::decode_skey<N>(sk.data(), f.as<int32_t>(), g.as<int32_t>(), F.as<int32_t>());
      take(nm, res, f);
      take(nm, res, g);
      take(nm, res, F);
      falcon::recompute_G<N>(f.as<int32_t>(), g.as<int32_t>(), F.as<int32_t>(), G.as<int32_t>());
      take(nm, res, G);
      falcon::compute_matrix_B<N>(f.as<int32_t>(), g.as<int32_t>(), F.as<int32_t>(), G.as<int32_t>(), B.as<fft::cmplx>());
      take(nm, res, B);
#ifndef VH_MINIMAL
      keygen::compute_gram_matrix<N>(B.as<fft::cmplx>(), M.as<fft::cmplx>());
      take(nm, res, M);
#endif
      falcon::compute_falcon_tree<N>(B.as<fft::cmplx>(), T.as<fft::cmplx>());
      take(nm, res, T);
#ifndef VH_MINIMAL
      keygen::compute_public_key<N>(f.as<int32_t>(), g.as<int32_t>(), h.as<ff::ff_t>());
      take(nm, res, h);
#endif
      same(nm, sk, rsk);
      break;
    }
    case 14: {
      using W = steered::world<N>;
      if (!W::available())
        break;
      struct fixed_t
      {
        vh::rng_t r{ 11 };
        W w{ r };
        std::vector<std::vector<typename W::plan_t>> v;
      };
      static auto* const S = [] {
        auto* x = new fixed_t;
        const auto unfit = x->w.bits(W::cap + 1, W::cap + 40);
        auto last = x->w.usual();
        while (!W::good(last))
          last = x->w.usual();
        x->v = { { last }, { unfit, last }, { unfit, unfit, last }, { unfit, unfit, unfit, last } };
        return x;
      }();
      typename W::src_t src(7, false, S->w.salt);
      for (auto& q : S->v[r.below(S->v.size())])
        src.s.z.insert(src.s.z.end(), q.z.begin(), q.z.end());
      placed mm = S->w.msg;
      vh::seed_entropy(es);
      prng::prng_t rng;
      out_t s(SIG, fill, true);
      vhook::prng_override = &src;
      falcon::sign<N>(S->w.p->B.get(), S->w.p->T.get(), mm.data(), mm.size(), s.p, rng);
      vhook::prng_override = nullptr;
      take(nm, res, s);
      n_unfit++;
      break;
    }
    case 5: {
      if (r.below(2))
        r.fill(&pk[r.below(2)], 200);
      if (r.below(3) == 0)
        r.fill(&sk[r.below(2)], 200);
      const placed pk0 = pk, sk0 = sk;
      out_t h(2 * N, fill), f(4 * N, fill), g(4 * N, fill), F(4 * N, fill), s2(4 * N, fill), e(ref::pk_len(N), fill, true), e2(ref::sk_len(N), fill, true);
      res.push_back(decoding::decode_pkey<N>(pk.data(), h.as<ff::ff_t>()));
      take("decode_pkey", res, h);
      encoding::encode_pkey<N>(h.as<ff::ff_t>(), e.p);
      take("encode_pkey", res, e);
      res.push_back(decoding::decode_skey<N>(sk.data(), f.as<int32_t>(), g.as<int32_t>(), F.as<int32_t>()));
      take("decode_skey", res, f);
      take("decode_skey", res, g);
      take("decode_skey", res, F);
      encoding::encode_skey<N>(f.as<int32_t>(), g.as<int32_t>(), F.as<int32_t>(), e2.p);
      take("encode_skey", res, e2);
      placed body = bytes(SIG);
      for (size_t i = 41; i < SIG; i++)
        body[i] = r.below(3) ? static_cast<uint8_t>(r.next()) : 0x01;
      const placed body0 = body;
      res.push_back(decoding::decompress_sig<N, SIG>(body.data(), s2.as<int32_t>()));
      take("decompress_sig", res, s2);
      same("decompress_sig", body, body0);
      std::vector<int32_t> p(N);
      for (auto& x : p)
        x = static_cast<int32_t>(std::lround(165 * r.gauss()));
      out_t cs(SIG, fill, true);
      const bool ok = encoding::compress_sig<N, SIG>(p.data(), cs.p);
      res.push_back(ok);
      if (ok) {
        defined("compress_sig", cs.p + 41, SIG - 41);
        res.insert(res.end(), cs.p + 41, cs.p + SIG);
      }
      same("decode_pkey", pk, pk0);
      same("decode_skey", sk, sk0);
      break;
    }
    case 6: {
      out_t c(2 * N, fill);
      placed salt = bytes(40);
      r.fill(salt.data(), 40);
      const placed salt0 = salt;
      hashing::hash_to_point<N>(salt.data(), 40, m.data(), m.size(), c.as<ff::ff_t>());
      take(nm, res, c);
      same(nm, salt, salt0);
      break;
    }
    case 8: {
      for (uint64_t i = 1 + r.below(6); i--;)
        sk[1 + r.below(sk.size() - 1)] ^= static_cast<uint8_t>(1u << r.below(8));
      if (r.below(5) == 0)
        r.fill(&sk[1], sk.size() - 1);
      if (r.below(5) == 0)
        std::fill(sk.begin() + 1, sk.end(), uint8_t{ 0 });
      const placed sk0 = sk;
      out_t s(SIG, fill, true);
      vh::seed_entropy(es);
      vhook::prng_budget = vhook::prng_bytes + 3'000'000;
      bool ok = false;
      try {
        ok = falcon::sign<N>(sk.data(), m.data(), m.size(), s.p);
      } catch (const vhook::budget_exceeded&) {
      }
      vhook::prng_budget = vhook::prng_bytes + vh::default_budget;
      res.push_back(ok);
      defined(nm, res.data(), 1);
      if (ok)
        take(nm, res, s);
      same(nm, sk, sk0);
      break;
    }
    case 9: {
      vh::seed_entropy(es);
      prng::prng_t rng;
      for (int i = 0; i < 400; i++) {
        const double mu = 100 * r.gauss(), sp = 1.3 + 0.5 * r.unit();
        const int32_t z = samplerz::samplerz(mu, sp, samplerz::FALCON512_σ_min, rng);
        defined("samplerz", &z, 4);
        placed t = bytes(40);
        r.fill(t.data(), 40);
        const auto q = samplerz::samplerz(mu, sp, samplerz::FALCON512_σ_min, t.data(), r.below(41));
        for (int b = 0; b < 4; b++)
          res.push_back(static_cast<uint8_t>(static_cast<uint32_t>(z) >> (8 * b)));
        res.push_back(static_cast<uint8_t>(q.first));
        res.push_back(static_cast<uint8_t>(q.second));
      }
      defined("samplerz", res.data(), res.size());
      break;
    }
    case 10: {
#ifndef NO_GMP
      std::array<mpz_class, 32> a, b;
      for (size_t i = 0; i < 32; i++) {
        a[i] = static_cast<long>(std::lround(5 * r.gauss()));
        b[i] = static_cast<long>(std::lround(5 * r.gauss()));
      }
      const auto a0 = a, b0 = b;
      const auto z = ntru_gen::ntru_solve(a, b);
      VH_REQUIRE(a == a0 && b == b0, "input-modified", "ntru_solve");
      res.push_back(z.second.is_solution());
      if (z.second.is_solution())
        for (size_t i = 0; i < 32; i++) {
          const std::string t = z.first.first[i].get_str() + "," + z.first.second[i].get_str();
          res.insert(res.end(), t.begin(), t.end());
        }
#endif
      break;
    }
    case 12: {
      out_t B(64 * N, fill), T(16 * N * (LG + 1), fill), h(2 * N, fill);
      vh::seed_entropy(es);
      prng::prng_t rng;
      keygen::keygen<N>(B.as<fft::cmplx>(), T.as<fft::cmplx>(), h.as<ff::ff_t>(), ref::sigma(N), rng);
      take(nm, res, B);
      take(nm, res, T);
      take(nm, res, h);
      n_kg++;
      break;
    }
    default: {
      out_t a(16 * N, fill), b(16 * N, fill), o(16 * N, fill), h0(8 * N, fill), h1(8 * N, fill), p(2 * N, fill), q(2 * N, fill);
      for (size_t i = 0; i < N; i++) {
        a.as<fft::cmplx>()[i] = fft::cmplx{ r.gauss(), 0 };
        b.as<fft::cmplx>()[i] = fft::cmplx{ r.gauss(), 0 };
        p.as<ff::ff_t>()[i] = ff::ff_t{ static_cast<uint16_t>(r.below(12289)) };
      }
      fft::fft<LG>(a.as<fft::cmplx>());
      fft::fft<LG>(b.as<fft::cmplx>());
      polynomial::mul<LG>(a.as<fft::cmplx>(), b.as<fft::cmplx>(), o.as<fft::cmplx>());
      take("mul", res, o);
      polynomial::add<LG>(a.as<fft::cmplx>(), b.as<fft::cmplx>(), o.as<fft::cmplx>());
      polynomial::add_to<LG>(o.as<fft::cmplx>(), a.as<fft::cmplx>());
      take("add", res, o);
      polynomial::sub<LG>(a.as<fft::cmplx>(), b.as<fft::cmplx>(), o.as<fft::cmplx>());
      take("sub", res, o);
      fft::split_fft<LG>(a.as<fft::cmplx>(), h0.as<fft::cmplx>(), h1.as<fft::cmplx>());
      take("split", res, h0);
      take("split", res, h1);
      fft::merge_fft<LG>(h0.as<fft::cmplx>(), h1.as<fft::cmplx>(), o.as<fft::cmplx>());
      take("merge", res, o);
      fft::ifft<LG>(a.as<fft::cmplx>());
      take("ifft", res, a);
      ntt::ntt<LG>(p.as<ff::ff_t>());
      polynomial::mul<LG>(p.as<ff::ff_t>(), p.as<ff::ff_t>(), q.as<ff::ff_t>());
      ntt::intt<LG>(q.as<ff::ff_t>());
      take("ntt product", res, q);
      out_t B(64 * N, fill), gm(64 * N, fill), T(16 * N * (LG + 1), fill), z0(16 * N, fill), z1(16 * N, fill);
      const auto f = i32<N>(ks[k].f), g = i32<N>(ks[k].g), F = i32<N>(ks[k].F), G = i32<N>(ks[k].G);
      falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), B.as<fft::cmplx>());
      take("compute_matrix_B", res, B);
#ifndef VH_MINIMAL
      keygen::compute_gram_matrix<N>(B.as<fft::cmplx>(), gm.as<fft::cmplx>());
      take("compute_gram_matrix", res, gm);
      falcon_tree::ffldl<N, 0, LG>(gm.as<fft::cmplx>(), T.as<fft::cmplx>());
      take("ffldl", res, T);
      falcon_tree::normalize_tree<N, 0, LG>(T.as<fft::cmplx>(), ref::sigma(N));
      take("normalize_tree", res, T);
      vh::seed_entropy(es);
      prng::prng_t rng;
      for (size_t i = 0; i < N; i++)
        a.as<fft::cmplx>()[i] = fft::cmplx{ 30 * r.gauss(), 0 };
      fft::fft<LG>(a.as<fft::cmplx>());
      ffsampling::ff_sampling<N, 0, LG>(a.as<fft::cmplx>(), b.as<fft::cmplx>(), T.as<fft::cmplx>(), ref::sigma_min(N), z0.as<fft::cmplx>(), z1.as<fft::cmplx>(), rng);
      take("ff_sampling", res, z0);
      take("ff_sampling", res, z1);
#endif
    }
  }
  same(nm, m, m0);
  n_run++;
  return res;
}
static bytes
perform(int kind, size_t N, uint64_t seed, int fill)
{
  return N == 512 ? perform<512>(kind, seed, fill) : perform<1024>(kind, seed, fill);
}
static bool
skip(int kind)
{
#ifdef NO_GMP
  return kind == 0 || kind == 10 || kind == 12;
#else
  (void)kind;
  return false;
#endif
}

// ------------------------------------------------- the same in a fresh process
// Never run as a workload: `--replay single:IDX --seed S` with the job in the
// environment prints the hash of its output.
VH_SUITE(single, 0, 0)
{
  const char* e = getenv("VH_JOB");
  if (!e)
    return;
  int kind;
  size_t N;
  uint64_t seed;
  if (sscanf(e, "%d %zu %lx", &kind, &N, &seed) != 3)
    return;
  const bytes r = perform(kind, N, seed, 0x5a);
  printf("HASH %016lx %zu\n", vh::hash_bytes(r.data(), r.size()), r.size());
}
static uint64_t
elsewhere(int kind, size_t N, uint64_t seed, vh::rng_t& r)
{
  char job[96], exe[512];
  snprintf(job, sizeof job, "VH_JOB=%d %zu %lx", kind, N, seed);
  const ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (k <= 0)
    _exit(3);
  exe[k] = 0;
  // another environment (and with it another stack layout), another pid,
  // another address space layout
  const std::string pad = "VH_PAD=" + std::string(r.below(9000), 'x');
  std::vector<char*> env{ job, const_cast<char*>(pad.c_str()) };
  for (char** p = environ; *p; p++)
    if (strstr(*p, "_OPTIONS="))
      env.push_back(*p);
  env.push_back(nullptr);
  const char* argv[] = { exe, "--replay", "single:0", nullptr };
  int fd[2];
  if (pipe(fd))
    _exit(3);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, fd[1], 1);
  posix_spawn_file_actions_addclose(&fa, fd[0]);
  pid_t pid;
  if (posix_spawn(&pid, exe, &fa, nullptr, const_cast<char* const*>(argv), env.data()))
    _exit(3);
  close(fd[1]);
  posix_spawn_file_actions_destroy(&fa);
  std::string out;
  char b[512];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0)
    out.append(b, static_cast<size_t>(n));
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  uint64_t h = 0;
  size_t len = 0;
  if (sscanf(out.c_str(), "HASH %lx %zu", &h, &len) != 2)
    vh::fail("crash", "%s (N=%zu) in a fresh process ended with status %x: %s", NAMES[kind], N, st, out.substr(0, 300).c_str());
  n_exec++;
  return h;
}

static void
compare(vh::case_t& c, int kind, size_t N, bool fresh, int history)
{
  const uint64_t seed = c.rng.next();
  static const int pat[] = { 0x00, 0xff, 256, 257, 0x7f, 0x80, 0x3f };
  bytes first;
  int p0 = 0;
#ifdef VH_VALGRIND
  const int runs = kind == 0 || kind == 12 ? 1 : 2; // memcheck is the oracle here
#else
  const int runs = kind == 0 || kind == 12 ? 2 : 3;
#endif
  for (int i = 0; i < runs; i++) {
    for (int h = 0; h < history; h++) {
      int k2 = 1 + static_cast<int>(c.rng.below(KINDS - 1));
      if (k2 == 12 || skip(k2))
        k2 = 3;
      perform(k2, c.rng.below(2) ? 512 : 1024, c.rng.next(), static_cast<int>(c.rng.below(256)));
      n_hist++;
    }
    // sometimes the very same call just before
    if (i == 2 && kind != 0 && kind != 12)
      perform(kind, N, seed, 1);
    const int p = pat[i == 0 ? 0 : i == 1 ? 1 : c.rng.below(7)];
    dirty(p);
    const bytes r = perform(kind, N, seed, p);
    if (i == 0) {
      first = r;
      p0 = p;
      continue;
    }
    size_t at = 0;
    while (at < r.size() && at < first.size() && r[at] == first[at])
      at++;
    VH_REQUIRE(r == first, "result-differs", "%s (N=%zu, job %016lx): same inputs and entropy, but output byte %zu of %zu differs between memory pattern %d and %d (history of %d calls before each)", NAMES[kind], N, seed,
               at, r.size(), p0, p, history);
    n_pair++;
    vh::eval();
  }
  if (fresh) {
    const uint64_t h = elsewhere(kind, N, seed, c.rng);
    VH_REQUIRE(h == vh::hash_bytes(first.data(), first.size()), "result-differs", "%s (N=%zu, job %016lx): a fresh process gives another result than this one after %lu calls", NAMES[kind], N, seed, n_run.total());
    n_pair++;
    vh::eval();
  }
  vh::distinct(vh::hash_bytes(first.data(), first.size(), static_cast<uint64_t>(kind)));
  if (c.idx < 2)
    vh::sample("%s N=%zu: %zu output bytes the same over memory patterns 00, ff%s", NAMES[kind], N, first.size(), fresh ? " and in a fresh process" : "");
#ifdef VH_VALGRIND
  const auto errs = VALGRIND_COUNT_ERRORS;
  n_vg++;
  static thread_local unsigned long seen = 0;
  if (errs > seen) {
    seen = errs;
    vh::fail("sanitizer", "memcheck reports %lu error(s) by the end of %s (N=%zu, job %016lx); run it again with valgrind for the stack", static_cast<unsigned long>(errs), NAMES[kind], N, seed);
  }
#endif
}

#ifdef VH_VALGRIND
VH_SUITE(keygen512, 2, 40)
{
  compare(c, c.idx % 2 ? 12 : 0, 512, false, 0);
}
VH_SUITE(keygen1024, 0, 4)
{
  compare(c, c.idx % 2 ? 12 : 0, 1024, false, 0);
}
VH_SUITE(calls, 40, 600)
{
  int k = 1 + static_cast<int>(c.idx % (KINDS - 1));
  compare(c, k == 12 ? 3 : k, c.idx / 13 % 2 ? 1024 : 512, false, 0);
}
#else
#ifndef NO_GMP
VH_SUITE(keygen512, 8, 120)
{
  compare(c, c.idx % 2 ? 12 : 0, 512, c.idx % 2 == 0, 2);
}
VH_SUITE(keygen1024, 3, 30)
{
  compare(c, c.idx % 2 ? 12 : 0, 1024, c.idx % 3 == 0, 2);
}
#endif
VH_SUITE(calls, 1600, 60000)
{
  int k = 1 + static_cast<int>(c.idx % (KINDS - 1));
  if (k == 12 || skip(k))
    k = 1 + static_cast<int>(c.rng.below(3));
#ifdef VH_MSAN
  const bool fresh = false;
#else
  const bool fresh = c.idx % 5 == 0;
#endif
  compare(c, k, c.rng.below(2) ? 1024 : 512, fresh, static_cast<int>(c.rng.below(4)));
}
VH_SUITE(histories, 40, 1500)
{
  int k = 1 + static_cast<int>(c.rng.below(KINDS - 1));
  if (k == 12 || skip(k))
    k = 2;
#ifdef VH_MSAN
  compare(c, k, c.rng.below(2) ? 1024 : 512, false, 20);
#else
  compare(c, k, c.rng.below(2) ? 1024 : 512, true, 40);
#endif
}
#endif
