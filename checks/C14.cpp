// Hash-to-point against an independent SHAKE256 and rejection loop.
#include "glue.hpp"
using namespace glue;
#include <sys/mman.h>

static vh::counter_t n_hash("hashes_compared"), n_len("message_lengths_swept"), n_bytes("message_bytes_hashed"), n_salt("salt_bits_flipped"), n_mem("surroundings_and_alignments"), n_huge("messages_beyond_4GiB");

template<size_t N>
static ivec
lib(const uint8_t* salt, const uint8_t* msg, size_t n)
{
  std::vector<ff::ff_t> p(N + 16);
  memset(static_cast<void*>(p.data()), 0xee, p.size() * sizeof(ff::ff_t));
  hashing::hash_to_point<N>(salt, 40, msg, n, p.data() + 8);
  for (size_t i = 0; i < 8; i++)
    VH_REQUIRE(p[i].v == 0xeeee && p[N + 8 + i].v == 0xeeee, "out-of-bounds-write", "N=%zu message of %zu bytes", N, n);
  ivec r;
  for (size_t i = 0; i < N; i++)
    r.push_back(p[i + 8].v);
  return r;
}
template<size_t N>
static void
judge(const uint8_t* salt, const uint8_t* msg, size_t n)
{
  const ivec got = lib<N>(salt, msg, n), want = ref::hash_to_point(N, salt, msg, n);
  for (size_t i = 0; i < N; i++)
    VH_REQUIRE(got[i] == want[i], "hash-to-point", "N=%zu salt %s message of %zu bytes (%s...): coefficient %zu is %ld, must be %ld", N, vh::hex(salt, 40).c_str(), n, vh::hex(msg, std::min<size_t>(n, 24)).c_str(), i,
               static_cast<long>(got[i]), static_cast<long>(want[i]));
  n_hash++;
  n_bytes.add(n);
  vh::eval();
  vh::distinct(vh::hash_bytes(msg, n, vh::hash_bytes(salt, 40, N)));
}
static void
both(const uint8_t* salt, const vh::gbuf& m)
{
  judge<512>(salt, m.data(), m.n);
  judge<1024>(salt, m.data(), m.n);
  VH_REQUIRE(m.intact(), "out-of-bounds-write", "message of %zu bytes", m.n);
}
VH_SUITE(lengths, 1400, 6000) // every message length
{
  uint8_t salt[40];
  c.rng.fill(salt, 40);
  bytes m = message(c.rng, c.idx);
  vh::gbuf g(m);
  both(salt, g);
  n_len++;
  if (c.idx == 97)
    vh::sample("length 97 (salt + message end one byte into the second block): first coefficient %ld", static_cast<long>(lib<512>(salt, g.data(), g.n)[0]));
}
VH_SUITE(random, 600, 40000)
{
  for (int i = 0; i < 4; i++) {
    uint8_t salt[40];
    c.rng.fill(salt, 40);
    if (c.rng.below(4) == 0)
      memset(salt, c.rng.below(2) ? 0 : 255, 40);
    vh::gbuf g(message(c.rng, msg_len(c.rng, 6000)));
    both(salt, g);
  }
}
// all messages of one byte, all of two, and short ones ending or beginning with
// what text processing treats specially
VH_SUITE(shortest, 256, 256)
{
  uint8_t salt[40];
  c.rng.fill(salt, 40);
  const auto a = static_cast<uint8_t>(c.idx);
  vh::gbuf one(bytes{ a });
  both(salt, one);
  for (int b = 0; b < 256; b++) {
    vh::gbuf two(bytes{ a, static_cast<uint8_t>(b) });
    if ((a + b) & 1)
      judge<512>(salt, two.data(), 2);
    else
      judge<1024>(salt, two.data(), 2);
    bytes m = message(c.rng, 2 + c.rng.below(60)); // first and last byte
    m.front() = a;
    m.back() = static_cast<uint8_t>(b);
    vh::gbuf g(m);
    judge<512>(salt, g.data(), g.n);
  }
  for (size_t n : { 2, 3, 8, 16, 31, 32, 33, 64, 96, 97, 136, 400, 1000 }) {
    vh::gbuf g(bytes(n, a));
    both(salt, g);
  }
  // each salt byte with this value, and a salt of this byte only
  vh::gbuf g(message(c.rng, 20));
  for (int i = 0; i < 40; i++) {
    const uint8_t was = salt[i];
    salt[i] = a;
    judge<512>(salt, g.data(), g.n);
    salt[i] = was;
  }
  memset(salt, a, 40);
  both(salt, g);
}
VH_SUITE(large, 24, 200)
{
  uint8_t salt[40];
  c.rng.fill(salt, 40);
  static const size_t L[] = { 65535, 65536, 65537, 1 << 17, (1 << 16) - 40, 136 * 482 - 40, 1000003, (1 << 20) + 1 };
  vh::gbuf g(message(c.rng, L[c.idx % 8]));
  if (c.idx & 8)
    judge<512>(salt, g.data(), g.n);
  else
    judge<1024>(salt, g.data(), g.n);
}
// every bit of the salt and of a message matters, and only those bytes
VH_SUITE(bits, 40, 400)
{
  uint8_t salt[40];
  c.rng.fill(salt, 40);
  const size_t n = 1 + c.rng.below(300);
  vh::gbuf g(message(c.rng, n));
  const ivec base = lib<512>(salt, g.data(), n);
  for (size_t b = 0; b < 320; b += 1 + c.rng.below(8)) {
    salt[b / 8] ^= static_cast<uint8_t>(1 << (b & 7));
    judge<512>(salt, g.data(), n);
    VH_REQUIRE(lib<512>(salt, g.data(), n) != base, "salt-bit-ignored", "bit %zu", b);
    salt[b / 8] ^= static_cast<uint8_t>(1 << (b & 7));
    n_salt++;
  }
  for (size_t i = 0; i < 24; i++) {
    const size_t b = i < 8 ? n * 8 - 1 - i : c.rng.below(n * 8);
    g[b / 8] ^= static_cast<uint8_t>(1 << (b & 7));
    VH_REQUIRE(lib<512>(salt, g.data(), n) != base, "message-bit-ignored", "message of %zu bytes, bit %zu", n, b);
    g[b / 8] ^= static_cast<uint8_t>(1 << (b & 7));
  }
  VH_REQUIRE(lib<512>(salt, g.data(), n) == base, "not-a-function", "same salt and message, different polynomial");
  // different surroundings and alignments, null pointer for an empty message
  for (size_t off = 0; off < 9; off++) {
    std::vector<uint8_t> buf(n + 40 + 64), s2(40 + 64);
    c.rng.fill(buf.data(), buf.size());
    c.rng.fill(s2.data(), s2.size());
    memcpy(buf.data() + off, g.data(), n);
    memcpy(s2.data() + 17 - off, salt, 40);
    VH_REQUIRE(lib<512>(s2.data() + 17 - off, buf.data() + off, n) == base, "not-a-function", "same bytes at another place, different polynomial");
    n_mem++;
  }
  const uint8_t one = 0;
  VH_REQUIRE(lib<512>(salt, &one, 0) == lib<512>(salt, g.data(), 0), "not-a-function", "empty message");
  judge<1024>(salt, &one, 0);
}
// salt | message boundary: moving bytes across it must not matter to SHAKE but
// the 40/len split is fixed by the interface; a prefix is a different message
VH_SUITE(prefixes, 30, 500)
{
  uint8_t salt[40];
  c.rng.fill(salt, 40);
  vh::gbuf g(message(c.rng, 400));
  std::vector<ivec> seen;
  for (size_t n = 0; n < 400; n += 1 + c.rng.below(20)) {
    seen.push_back(lib<512>(salt, g.data(), n));
    for (size_t k = 0; k + 1 < seen.size(); k++)
      VH_REQUIRE(seen[k] != seen.back(), "prefix-collision", "two prefixes of one message hash alike (length %zu)", n);
  }
  vh::eval(seen.size());
}
// lengths that do not fit 32 bits: zero pages cost no memory. Expected value
// from an independent implementation (Python hashlib).
#if !defined(VH_ASAN) && !defined(VH_MSAN) && !defined(VH_TSAN)
VH_SUITE(huge, 1, 1)
{
#if defined(__clang__) && !defined(VH_ASAN)
  const size_t n = (size_t(1) << 32) + 5;
  void* p = mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    fprintf(stderr, "cannot map 4 GiB\n");
    exit(3);
  }
  uint8_t salt[40];
  for (int i = 0; i < 40; i++)
    salt[i] = static_cast<uint8_t>(i);
  const ivec got = lib<512>(salt, static_cast<const uint8_t*>(p), n);
  munmap(p, n);
  static const int64_t want[16] = { 7841, 7291, 2135, 8984, 701, 7171, 5381, 31, 3512, 2678, 11783, 4221, 7957, 8421, 8385, 8007 };
  for (int i = 0; i < 16; i++)
    VH_REQUIRE(got[i] == want[i], "huge-message", "message of 2^32+5 zero bytes: coefficient %d is %ld, must be %ld", i, static_cast<long>(got[i]), static_cast<long>(want[i]));
  n_huge++;
  vh::eval();
#endif
}
#endif
