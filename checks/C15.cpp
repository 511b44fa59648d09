// The random generator: what it takes from the system, what it does with it,
// what happens when the system has none, and the stream it hands out.
#include "glue.hpp"
#include <algorithm>
#include <thread>
#include <unordered_set>
using namespace glue;

// The whole of std::random_device is the monitor's: construction can be made
// to fail as well.
static thread_local bool g_open_fails = false;
static thread_local uint64_t g_opens = 0;
void
std::random_device::_M_init(const std::string&)
{
  g_opens++;
  if (g_open_fails)
    throw std::runtime_error("injected: random_device could not be opened");
}
void
std::random_device::_M_fini()
{
}
double
std::random_device::_M_getentropy() const noexcept
{
  return 32.0;
}

static vh::counter_t n_gen("generators"), n_words("entropy_words_drawn"), n_flip("entropy_bits_flipped"), n_pair("entropy_bit_pairs_flipped"), n_fault("faults_injected"),
  n_chunk("partitions_compared"), n_bytes("stream_bytes_examined"), n_callflip("call_entropy_bits_flipped"), n_thread("generators_on_other_threads");

// Stream of a fresh generator whose entropy starts with `tape`.
static bytes
stream(const std::vector<uint32_t>& tape, size_t n, uint64_t* used = nullptr)
{
  vh::entropy().tape = &tape;
  vh::entropy().words = 0;
  bytes r(n);
  {
    prng::prng_t g;
    n_gen++;
    n_words.add(vh::entropy().words);
    if (used)
      *used = vh::entropy().words;
    g.read(r.data(), n);
  }
  vh::entropy().tape = nullptr;
  return r;
}
static std::vector<uint32_t>
fresh_tape(vh::rng_t& r, size_t n = 64)
{
  std::vector<uint32_t> t(n);
  for (auto& w : t)
    w = static_cast<uint32_t>(r.next() >> 9);
  return t;
}
static int
hamming(const bytes& a, const bytes& b)
{
  int d = 0;
  for (size_t i = 0; i < a.size(); i++)
    d += std::popcount(static_cast<unsigned>(a[i] ^ b[i]));
  return d;
}

static thread_local bytes g_seed;
static void
log_seed(const uint8_t* p, size_t n)
{
  g_seed.insert(g_seed.end(), p, p + n);
}
static bytes
seed_material(const std::vector<uint32_t>& tape)
{
  g_seed.clear();
  vhook::on_seed = log_seed;
  stream(tape, 8);
  vhook::on_seed = nullptr;
  return g_seed;
}
static size_t
rank2(std::vector<bytes> m)
{
  size_t rank = 0;
  const size_t w = m.empty() ? 0 : m[0].size() * 8;
  for (size_t col = 0; col < w && rank < m.size(); col++) {
    size_t p = rank;
    auto bit = [&](const bytes& b) { return (b[col / 8] >> (col & 7)) & 1; };
    while (p < m.size() && !bit(m[p]))
      p++;
    if (p == m.size())
      continue;
    std::swap(m[p], m[rank]);
    for (size_t i = 0; i < m.size(); i++)
      if (i != rank && bit(m[i]))
        for (size_t k = 0; k < m[i].size(); k++)
          m[i][k] ^= m[rank][k];
    rank++;
  }
  return rank;
}

static vh::acc_t a_flip(2); // sum of Hamming distances, count
VH_SUITE(entropy, 24, 400)
{
  std::vector<uint32_t> t = fresh_tape(c.rng);
  if (c.idx == 1)
    std::fill(t.begin(), t.end(), 0u);
  if (c.idx == 2)
    std::fill(t.begin(), t.end(), ~0u);
  uint64_t used = 0;
  const bytes base = stream(t, 64, &used);
  VH_REQUIRE(used * 32 >= 256, "too-little-entropy", "generator drew %lu words of system entropy (%lu bits), must draw at least 256 bits", used, used * 32);
  VH_REQUIRE(stream(t, 64) == base, "not-a-function", "same entropy, different stream");
  const size_t bits = std::min<size_t>(used, t.size()) * 32;
  for (size_t b = 0; b < bits; b++) {
    t[b / 32] ^= 1u << (b & 31);
    const bytes s = stream(t, 64);
    t[b / 32] ^= 1u << (b & 31);
    VH_REQUIRE(s != base, "entropy-bit-ignored", "bit %zu of entropy word %zu of %lu does not influence the stream", b & 31, b / 32, used);
    for (size_t k = 0; k + 16 <= 64; k += 16)
      VH_REQUIRE(memcmp(&s[k], &base[k], 16) != 0, "entropy-bit-ignored", "bit %zu of entropy word %zu does not influence stream bytes %zu..%zu", b & 31, b / 32, k, k + 15);
    a_flip[0] += hamming(s, base);
    a_flip[1] += 1;
    n_flip++;
    vh::eval();
  }
  vh::distinct(vh::hash_bytes(base.data(), 64));
  if (c.idx == 0)
    vh::sample("entropy %08x %08x ... (%lu words) -> stream %s..; every one of %zu single-bit flips changes each 16-byte block", t[0], t[1], used, vh::hex(base.data(), 16).c_str(), bits);
}
// Folding (two bits cancelling) would halve the entropy without any single bit
// being ignored: all pairs of bits, and compensating sums.
VH_SUITE(folding, 8, 40)
{
  std::vector<uint32_t> t = fresh_tape(c.rng);
  uint64_t used = 0;
  const bytes base = stream(t, 16, &used);
  const size_t bits = std::min<size_t>(used, 32) * 32;
  std::unordered_set<uint64_t> seen;
  seen.insert(vh::hash_bytes(base.data(), 16));
  for (size_t b = c.idx % 8; b < bits; b += 8)
    for (size_t d = b + 1; d < bits; d++) {
      t[b / 32] ^= 1u << (b & 31);
      t[d / 32] ^= 1u << (d & 31);
      const bytes s = stream(t, 16);
      t[b / 32] ^= 1u << (b & 31);
      t[d / 32] ^= 1u << (d & 31);
      VH_REQUIRE(seen.insert(vh::hash_bytes(s.data(), 16)).second, "entropy-folded", "entropy bits %zu and %zu flipped together give a stream already seen", b, d);
      n_pair++;
    }
  for (size_t i = 0; i < used && i < 32; i++)
    for (size_t j = 0; j < used && j < 32; j++)
      if (i != j)
        for (uint32_t d : { 1u, 255u, 256u, 0x10001u, 0x80000001u }) {
          auto u = t;
          u[i] += d;
          u[j] -= d;
          VH_REQUIRE(stream(u, 16) != base, "entropy-folded", "entropy words %zu + %x, %zu - %x give the same stream", i, d, j, d);
          auto v = t;
          std::swap(v[i], v[j]);
          if (i < j)
            VH_REQUIRE(stream(v, 16) != base, "entropy-folded", "entropy words %zu and %zu exchanged give the same stream", i, j);
        }
  vh::eval();
  // the seed material as handed to the hash: the 32*used differences must span
  // (nearly) 256 dimensions
  const bytes m0 = seed_material(t);
  if (!m0.empty()) {
    std::vector<bytes> rows;
    bool same_len = true;
    for (size_t b = 0; b < bits; b++) {
      t[b / 32] ^= 1u << (b & 31);
      bytes m = seed_material(t);
      t[b / 32] ^= 1u << (b & 31);
      if (m.size() != m0.size()) {
        same_len = false;
        break;
      }
      for (size_t k = 0; k < m.size(); k++)
        m[k] ^= m0[k];
      rows.push_back(m);
    }
    if (same_len) {
      const size_t r = rank2(rows);
      VH_REQUIRE(r >= 248, "seed-space-too-small", "seed material spans only %zu dimensions of %zu entropy bits", r, bits);
      vh::eval();
    }
  }
}

// Many generators one after another: each draws its own entropy, none repeats.
VH_SUITE(many, 16, 200)
{
  std::unordered_set<uint64_t> seen;
  bytes prev(32);
  for (int i = 0; i < 4000; i++) {
    const uint64_t w0 = vh::entropy().words;
    bytes s(32);
    prng::prng_t g;
    const uint64_t w1 = vh::entropy().words;
    g.read(s.data(), 32);
    n_gen++;
    n_words.add(w1 - w0);
    VH_REQUIRE((w1 - w0) * 32 >= 256, "too-little-entropy", "generator %d of this process drew %lu words of system entropy", i, w1 - w0);
    VH_REQUIRE(seen.insert(vh::hash_bytes(s.data(), 32)).second, "stream-repeated", "generator %d repeats an earlier stream", i);
    VH_REQUIRE(s != prev, "stream-repeated", "generator %d repeats the stream before", i);
    prev = s;
    vh::eval();
    vh::distinct(vh::hash_bytes(s.data(), 32));
  }
}
static vh::acc_t a_cross(4);
// Several alive at once, reads interleaved; each stream is what it is alone.
VH_SUITE(interleaved, 40, 1000)
{
  const size_t K = 2 + c.rng.below(6);
  std::vector<std::vector<uint32_t>> tapes;
  std::vector<bytes> alone, got(K);
  for (size_t k = 0; k < K; k++) {
    tapes.push_back(fresh_tape(c.rng));
    if (k && c.rng.below(3) == 0) { // nearly the same entropy
      tapes[k] = tapes[k - 1];
      tapes[k][c.rng.below(8)] ^= 1u << c.rng.below(32);
    }
    alone.push_back(stream(tapes[k], 3000));
  }
  std::vector<std::unique_ptr<prng::prng_t>> g;
  for (size_t k = 0; k < K; k++) {
    vh::entropy().tape = &tapes[k];
    vh::entropy().words = 0;
    g.push_back(std::make_unique<prng::prng_t>());
  }
  vh::entropy().tape = nullptr;
  for (;;) {
    bool all = true;
    const size_t k = c.rng.below(K);
    if (got[k].size() < 3000) {
      const size_t n = std::min<size_t>(3000 - got[k].size(), c.rng.below(300));
      bytes b(n + 1, static_cast<uint8_t>(c.rng.next()));
      g[k]->read(b.data(), n);
      got[k].insert(got[k].end(), b.begin(), b.begin() + n);
    }
    for (auto& s : got)
      all &= s.size() >= 3000;
    if (all)
      break;
  }
  for (size_t k = 0; k < K; k++) {
    VH_REQUIRE(got[k] == alone[k], "streams-interfere", "generator %zu of %zu gives another stream when others are read in between", k, K);
    for (size_t j = 0; j < k; j++) {
      a_cross[0] += hamming(got[k], got[j]);
      a_cross[1] += 24000;
    }
    vh::eval();
  }
}
VH_SUITE(threads, 6, 60)
{
  const size_t T = 8;
  std::vector<std::vector<uint64_t>> h(T);
  std::vector<uint64_t> low(T, ~0ull);
  std::vector<std::thread> th;
  const uint64_t s0 = c.rng.next();
  for (size_t t = 0; t < T; t++)
    th.emplace_back([&, t] {
      vh::seed_entropy(s0 + t);
      for (int i = 0; i < 500; i++) {
        const uint64_t w0 = vh::entropy().words;
        prng::prng_t g;
        low[t] = std::min(low[t], vh::entropy().words - w0);
        uint8_t b[32];
        g.read(b, 32);
        h[t].push_back(vh::hash_bytes(b, 32));
      }
    });
  for (auto& x : th)
    x.join();
  std::unordered_set<uint64_t> seen;
  for (size_t t = 0; t < T; t++) {
    VH_REQUIRE(low[t] * 32 >= 256, "too-little-entropy", "a generator on thread %zu drew %lu words", t, low[t]);
    for (auto x : h[t])
      VH_REQUIRE(seen.insert(x).second, "stream-repeated", "a generator on thread %zu repeats a stream", t);
    n_thread.add(h[t].size());
    vh::eval(h[t].size());
  }
  VH_REQUIRE(seen.size() == T * 500, "stream-repeated", "streams repeated across threads");
}

// ------------------------------------------------------------ failing entropy
template<typename F>
static bool
throws(F&& f, std::string& what)
{
  try {
    f();
  } catch (const vhook::budget_exceeded&) {
    return false;
  } catch (const std::exception& e) {
    what = e.what();
    return true;
  } catch (...) {
    what = "unknown";
    return true;
  }
  return false;
}
static bool g_transient = false; // only that one draw fails
static void
arm_fault(int64_t k) // -1: opening fails; otherwise draw k (and all later)
{
  vh::entropy().fail_until = g_transient ? static_cast<uint64_t>(k) + 1 : ~0ull;
  g_open_fails = k < 0;
  vh::entropy().words = 0;
  vh::entropy().fail_at = k < 0 ? ~0ull : static_cast<uint64_t>(k);
  vh::entropy().inject_failed = false;
}
static void
disarm()
{
  g_open_fails = false;
  vh::entropy().fail_at = ~0ull;
}
template<size_t N>
static void
judge_fault(vh::case_t& c, int64_t k)
{
  const auto& ks = ref::golden(N);
  const auto& K = ks[c.rng.below(ks.size())];
  std::string what;
  { // generator
    uint8_t out[32];
    memset(out, 0x5e, 32);
    arm_fault(k);
    const uint64_t b0 = vhook::prng_bytes;
    const bool t = throws([&] { prng::prng_t g; g.read(out, 32); }, what);
    disarm();
    VH_REQUIRE(t, "failure-swallowed", "entropy fails at draw %ld: the generator was built all the same", k);
    VH_REQUIRE(vhook::prng_bytes == b0, "bytes-without-entropy", "entropy fails at draw %ld: random bytes were produced", k);
    for (auto b : out)
      VH_REQUIRE(b == 0x5e, "bytes-without-entropy", "entropy fails at draw %ld: output written", k);
    n_fault++;
  }
  { // one-shot signing
    vh::gbuf sk(K.sk), pk(K.pk), sig(ref::sig_len(N)), msg(message(c.rng, c.rng.below(200)));
    const bytes before(sig.data(), sig.data() + sig.n);
    arm_fault(k);
    vh::entropy().gen = vh::rng_t{ c.rng.next() };
    const uint64_t b0 = vhook::prng_bytes;
    const bool t = throws([&] { falcon::sign<N>(sk.data(), msg.data(), msg.n, sig.data()); }, what);
    disarm();
    VH_REQUIRE(t, "failure-swallowed", "N=%zu entropy fails at draw %ld: sign returned", N, k);
    VH_REQUIRE(vhook::prng_bytes == b0, "bytes-without-entropy", "N=%zu entropy fails at draw %ld: sign consumed random bytes", N, k);
    if (!sig.equals(before))
      VH_REQUIRE(!ref::verify(N, pk.data(), msg.data(), msg.n, sig.data()).ok, "signature-without-entropy", "N=%zu entropy fails at draw %ld: a valid signature was written", N, k);
    n_fault++;
  }
  { // key generation
    vh::gbuf sk(ref::sk_len(N)), pk(ref::pk_len(N));
    const bytes bs(sk.data(), sk.data() + sk.n), bp(pk.data(), pk.data() + pk.n);
    arm_fault(k);
    const uint64_t b0 = vhook::prng_bytes;
    const bool t = throws([&] { falcon::keygen<N>(pk.data(), sk.data()); }, what);
    disarm();
    VH_REQUIRE(t, "failure-swallowed", "N=%zu entropy fails at draw %ld: keygen returned", N, k);
    VH_REQUIRE(vhook::prng_bytes == b0, "bytes-without-entropy", "N=%zu entropy fails at draw %ld: keygen consumed random bytes", N, k);
    auto changed = [](const vh::gbuf& b, const bytes& was) {
      size_t d = 0;
      for (size_t i = 0; i < b.n; i++)
        d += b[i] != was[i] && b[i] != 0;
      return d;
    };
    VH_REQUIRE(changed(sk, bs) < 32 && changed(pk, bp) < 32, "key-without-entropy", "N=%zu entropy fails at draw %ld: key material was written", N, k);
    n_fault++;
  }
  vh::eval(3);
}
VH_SUITE(faults, 96, 1000)
{
  // how many draws does a generator make?
  vh::entropy().words = 0;
  {
    prng::prng_t g;
  }
  const int64_t used = static_cast<int64_t>(vh::entropy().words);
  const int64_t k = static_cast<int64_t>(c.idx / 2) % (used + 1) - 1;
  g_transient = k >= 0 && c.idx / 2 / static_cast<uint64_t>(used + 1) % 2;
  if (c.idx & 1)
    judge_fault<512>(c, k);
  else
    judge_fault<1024>(c, k);
  vh::distinct_bulk(1);
  if (c.idx < 2)
    vh::sample("N=%d: entropy device cannot be opened: generator, sign and keygen all propagate the failure, nothing written", c.idx & 1 ? 512 : 1024);
}
// After a failure the next calls must draw again and work.
VH_SUITE(recovery, 40, 400)
{
  std::string what;
  const size_t k = c.rng.below(9);
  arm_fault(static_cast<int64_t>(k) - 1);
  throws([] { prng::prng_t g; }, what);
  disarm();
  const uint64_t w0 = vh::entropy().words;
  prng::prng_t g;
  VH_REQUIRE((vh::entropy().words - w0) * 32 >= 256, "too-little-entropy", "generator built after a failed one drew %lu words", vh::entropy().words - w0);
  const auto t = fresh_tape(c.rng);
  const bytes a = stream(t, 200);
  arm_fault(static_cast<int64_t>(k) - 1);
  throws([] { prng::prng_t g; }, what);
  disarm();
  VH_REQUIRE(stream(t, 200) == a, "failure-leaves-traces", "stream differs after a failed construction");
  vh::eval();
}

// ------------------------------------------------------------------- the calls
static thread_local bytes g_read;
static void
log_read(const uint8_t* p, size_t n)
{
  if (g_read.size() < 64)
    g_read.insert(g_read.end(), p, p + n);
}
// First random bytes a call consumes, and the entropy it drew. The call is cut
// short by the byte budget: only its generator matters here.
template<typename F>
static bytes
first_bytes(const std::vector<uint32_t>& t, uint64_t& used, F&& f)
{
  g_read.clear();
  vh::entropy().tape = &t;
  vh::entropy().words = 0;
  vhook::on_read = log_read;
  vhook::prng_budget = vhook::prng_bytes + 200;
  try {
    f();
  } catch (const vhook::budget_exceeded&) {
  }
  vhook::prng_budget = vh::default_budget + vhook::prng_bytes;
  vhook::on_read = nullptr;
  vh::entropy().tape = nullptr;
  used = vh::entropy().words;
  return g_read;
}
template<size_t N>
static void
call_entropy(vh::case_t& c)
{
  const auto& ks = ref::golden(N);
  const auto& K = ks[c.rng.below(ks.size())];
  vh::gbuf sk(K.sk), sig(ref::sig_len(N)), msg(message(c.rng, c.rng.below(100))), pk2(ref::pk_len(N)), sk2(ref::sk_len(N));
  const bool kg = c.idx & 1;
  auto call = [&] {
    if (kg)
      falcon::keygen<N>(pk2.data(), sk2.data());
    else
      falcon::sign<N>(sk.data(), msg.data(), msg.n, sig.data());
  };
  auto t = fresh_tape(c.rng);
  uint64_t used = 0;
  const bytes base = first_bytes(t, used, call);
  VH_REQUIRE(used * 32 >= 256, "too-little-entropy", "N=%zu %s drew %lu words of system entropy", N, kg ? "keygen" : "sign", used);
  VH_REQUIRE(base.size() >= 32, "no-randomness", "N=%zu %s took %zu random bytes", N, kg ? "keygen" : "sign", base.size());
  const size_t step = N == 1024 && !kg ? 5 : 1;
  for (size_t b = c.rng.below(step); b < std::min<size_t>(used, 64) * 32; b += step) {
    t[b / 32] ^= 1u << (b & 31);
    uint64_t u2;
    const bytes s = first_bytes(t, u2, call);
    t[b / 32] ^= 1u << (b & 31);
    VH_REQUIRE(s != base, "entropy-bit-ignored", "N=%zu %s: bit %zu of entropy word %zu does not influence the randomness used", N, kg ? "keygen" : "sign", b & 31, b / 32);
    n_callflip++;
    vh::eval();
  }
}
VH_SUITE(calls512, 16, 60)
{
  call_entropy<512>(c);
}
VH_SUITE(calls1024, 16, 60)
{
  call_entropy<1024>(c);
}

// ------------------------------------------------------------------ the stream
VH_SUITE(chunking, 300, 8000)
{
  const auto t = fresh_tape(c.rng);
  const size_t L = c.idx % 5 == 0 ? 100000 + c.rng.below(150000) : 1 + c.rng.below(4000);
  const bytes whole = stream(t, L);
  for (int rep = 0; rep < 4; rep++) {
    vh::entropy().tape = &t;
    vh::entropy().words = 0;
    prng::prng_t g;
    vh::entropy().tape = nullptr;
    bytes got;
    const int mode = static_cast<int>(c.rng.below(8));
    while (got.size() < L) {
      size_t n = 0;
      switch (mode) {
        case 0:
          n = 1;
          break;
        case 1:
          n = 9;
          break;
        case 2:
          n = 136 * c.rng.below(3) + c.rng.below(3) - (c.rng.below(2) ? 1 : 0);
          break;
        case 3:
          n = c.rng.below(20);
          break;
        case 4:
          n = c.rng.below(3000);
          break;
        case 5: // around powers of two
          n = (size_t(1) << c.rng.below(17)) + c.rng.below(17) - 8;
          break;
        case 6:
          n = c.rng.below(4) ? c.rng.below(70000) : c.rng.below(50);
          break;
        default:
          n = c.rng.below(4) ? 1 : 40;
      }
      n = std::min(n > (size_t(1) << 40) ? 0 : n, L - got.size());
      vh::gbuf b(n, static_cast<int>(c.rng.below(256)));
      g.read(b.data(), n);
      VH_REQUIRE(b.intact(), "out-of-bounds-write", "read of %zu bytes wrote outside", n);
      got.insert(got.end(), b.data(), b.data() + n);
    }
    if (got != whole) {
      size_t i = 0;
      while (got[i] == whole[i])
        i++;
      vh::fail("chunking", "the same entropy, cut into reads differently (mode %d), differs from byte %zu of %zu on", mode, i, L);
    }
    n_chunk++;
    vh::eval();
  }
  vh::distinct(vh::hash_bytes(whole.data(), std::min<size_t>(L, 64)));
}

// Long streams: byte and byte-pair frequencies, correlation at short and block
// distances, repeated blocks.
static vh::acc_t a_byte(256), a_pair(65536), a_lag(300), a_tot(1), a_first(64 * 256), a_fn(1);
VH_SUITE(longrun, 16, 64)
{
  const size_t L = 2 << 20, S = 65536;
  prng::prng_t g;
  bytes s(L);
  for (size_t i = 0; i < L; i += S)
    g.read(&s[i], S);
  for (size_t i = 0; i < L; i++)
    a_byte[s[i]] += 1;
  for (size_t i = 0; i + 1 < L; i += 2)
    a_pair[s[i] * 256u + s[i + 1]] += 1;
  for (size_t lag = 1; lag < 300; lag++) {
    int64_t eq = 0;
    for (size_t i = 0; i + lag < 200000; i++)
      eq += s[i] == s[i + lag];
    a_lag[lag] += static_cast<double>(eq) - (200000.0 - static_cast<double>(lag)) / 256;
  }
  std::unordered_set<uint64_t> seen;
  seen.reserve(L / 8);
  for (size_t i = 0; i + 16 <= L; i += 8)
    VH_REQUIRE(seen.insert(vh::hash_bytes(&s[i], 16)).second, "stream-repeats", "16-byte block at offset %zu occurred before", i);
  a_tot[0] += static_cast<double>(L);
  n_bytes.add(L);
  vh::eval(L / 16);
}
// Very long streams: no stretch of it returns, at whatever distance and
// alignment, and it doesn't depend on the cuts. Windows are compared where
// their contents say so (one in 16384), so a repetition is seen at any shift.
VH_SUITE(verylong, 4, 12)
{
  const size_t L = c.idx == 4 && vh::thorough ? (size_t(9) << 29) : (size_t(48) << 20) << (c.idx % 4), S = 1 << 16;
  const auto t = fresh_tape(c.rng);
  uint64_t sum[2] = {};
  for (int k = 0; k < 2; k++) {
    vh::entropy().tape = &t;
    vh::entropy().words = 0;
    prng::prng_t g;
    vh::entropy().tape = nullptr;
    std::unordered_set<uint64_t> seen;
    bytes b(S + 16);
    size_t at = 0;
    while (at < L) {
      vhook::prng_budget = vhook::prng_bytes + vh::default_budget;
      if (k)
        for (size_t i = 0, n; i < S; i += n) {
          n = std::min<size_t>(S - i, 1 + c.rng.below(9000));
          g.read(&b[16 + i], n);
        }
      else
        g.read(&b[16], S);
      at += S;
      sum[k] = vh::hash_bytes(&b[16], S, sum[k]);
      if (!k)
        for (size_t i = at == S ? 16 : 0; i < S; i++) {
          uint64_t w;
          memcpy(&w, &b[i], 8);
          if ((w * 0x9e3779b97f4a7c15ull) >> 50)
            continue;
          VH_REQUIRE(seen.insert(vh::hash_bytes(&b[i], 16)).second, "stream-repeats", "16 bytes at offset %zu occurred before", at - S + i - 16);
        }
      memcpy(&b[0], &b[S], 16);
    }
    n_bytes.add(L);
  }
  VH_REQUIRE(sum[0] == sum[1], "chunking", "the same entropy, cut into reads differently: the streams of %zu bytes differ", L);
  vh::eval(L / 16384);
}
// First bytes of very many generators, with counter-like entropy (the worst
// case for a weak expansion).
VH_SUITE(firstbytes, 64, 1000)
{
  std::vector<uint32_t> t(64, 0);
  for (int i = 0; i < 1000; i++) {
    const uint64_t k = c.idx * 1000 + i;
    t[k % 8] = static_cast<uint32_t>(k);
    const bytes s = stream(t, 64);
    for (size_t j = 0; j < 64; j++)
      a_first[j * 256 + s[j]] += 1;
    a_fn[0] += 1;
  }
  n_bytes.add(64000);
  vh::eval(1000);
}

static double
chi_z(double chi, double df) // Wilson-Hilferty
{
  return (std::cbrt(chi / df) - (1 - 2 / (9 * df))) / std::sqrt(2 / (9 * df));
}
VH_FINISH(stats)
{
  const double LIM = 8.0; // 1e-15 each
  double n = a_tot.total(0), chi = 0;
  if (n > 0) {
    for (int b = 0; b < 256; b++) {
      const double d = a_byte.total(b) - n / 256;
      chi += d * d / (n / 256);
    }
    double z = chi_z(chi, 255);
    vh::sample("long streams: %.0f bytes, byte frequencies chi2 %.1f (255 df)", n, chi);
    if (std::abs(z) > LIM)
      vh::note_fail("not-uniform", "byte frequencies of the stream: chi2 %.1f with 255 degrees of freedom over %.0f bytes", chi, n);
    chi = 0;
    for (int b = 0; b < 65536; b++) {
      const double e = n / 2 / 65536, d = a_pair.total(b) - e;
      chi += d * d / e;
    }
    z = chi_z(chi, 65535);
    if (std::abs(z) > LIM)
      vh::note_fail("not-uniform", "byte pair frequencies: chi2 %.1f with 65535 degrees of freedom", chi);
    const double runs = n / (2 << 20);
    for (int lag = 1; lag < 300; lag++) {
      const double zz = a_lag.total(lag) / std::sqrt(runs * 200000 / 256.0);
      if (std::abs(zz) > LIM)
        vh::note_fail("correlated", "stream bytes at distance %d agree too often or too rarely (z = %.1f)", lag, zz);
    }
  }
  const double m = a_fn.total(0);
  double worst = 0;
  if (m > 0)
    for (int j = 0; j < 64; j++) {
      chi = 0;
      for (int b = 0; b < 256; b++) {
        const double d = a_first.total(j * 256 + b) - m / 256;
        chi += d * d / (m / 256);
      }
      const double z = chi_z(chi, 255);
      worst = std::max(worst, std::abs(z));
      if (std::abs(z) > LIM)
        vh::note_fail("not-uniform", "byte %d of fresh generators: chi2 %.1f with 255 degrees of freedom over %.0f generators", j, chi, m);
    }
  vh::sample("first 64 bytes of %.0f generators: worst position has z = %.2f", m, worst);
  if (a_flip.total(1) > 0) {
    const double k = a_flip.total(1), z = (a_flip.total(0) - 256 * k) / std::sqrt(128 * k);
    vh::sample("%.0f entropy bits flipped: mean Hamming distance of 512 stream bits %.2f", k, a_flip.total(0) / k);
    if (std::abs(z) > 9)
      vh::note_fail("poor-diffusion", "flipping an entropy bit changes %.2f of 512 stream bits on average (z = %.1f)", a_flip.total(0) / k, z);
  }
  if (a_cross.total(1) > 0) {
    const double k = a_cross.total(1), z = (a_cross.total(0) - k / 2) / std::sqrt(k / 4);
    if (std::abs(z) > LIM)
      vh::note_fail("correlated", "streams of different generators agree too often (z = %.1f)", z);
  }
}
