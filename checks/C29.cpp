// Hexadecimal conversion and its companions (common.hpp).
#include "vh.hpp"
#include "ref.hpp"
#include "common.hpp"
#include <thread>

using bytes = std::vector<uint8_t>;
static vh::counter_t n_bytes("bytes_converted"), n_text("texts_parsed");

static bytes
noise(vh::rng_t& r, size_t n)
{
  bytes b(n);
  r.fill(b.data(), n);
  return b;
}
static std::string
hex_of(const bytes& b)
{
  std::string s;
  for (uint8_t x : b)
    for (int h : { x / 16, x % 16 })
      s += static_cast<char>(h < 10 ? '0' + h : 'a' + h - 10);
  return s;
}

// Both directions for one byte string; digits of the text in mixed case.
static void
both(vh::rng_t& r, const bytes& b, const char* what)
{
  const vh::gbuf in(b);
  const std::string want = hex_of(b), got = to_hex(in.data(), b.size());
  VH_REQUIRE(got.size() == want.size(), "length", "%s: %zu bytes give %zu characters", what, b.size(), got.size());
  if (got != want) {
    size_t i = 0;
    while (got[i] == want[i])
      i++;
    vh::fail("to-hex", "%s: %zu bytes, byte %zu (%02x) is written as '%.2s'", what, b.size(), i / 2, b[i / 2], &got[i & ~size_t(1)]);
  }
  VH_REQUIRE(std::equal(b.begin(), b.end(), in.data()) && in.intact(), "input-changed", "%s: to_hex changed its input", what);
  for (int mode = 0; mode < 4; mode++) {
    std::string t = want;
    for (char& ch : t)
      if (mode == 1 || (mode >= 2 && r.below(2)))
        ch = static_cast<char>(toupper(ch));
    if (mode == 3) // a digit without a partner is no byte
      t += "0123456789abcdefABCDEF"[r.below(22)];
    const std::string t0 = t;
    vh::gbuf out(b.size(), static_cast<int>(r.below(256)), true);
    to_byte_array(t, out.data());
    VH_REQUIRE(out.intact(), "out-of-bounds-write", "%s: parsing %zu digits wrote beyond %zu bytes", what, t.size(), b.size());
    VH_REQUIRE(t == t0, "input-changed", "%s", what);
    for (size_t i = 0; i < b.size(); i++)
      VH_REQUIRE(out.data()[i] == b[i], "from-hex", "%s: '%.2s' at byte %zu of %zu is read as %02x", what, &t[2 * i], i, b.size(), out.data()[i]);
    n_text.add();
  }
  n_bytes.add(b.size());
  vh::eval(5);
  vh::distinct(vh::hash_bytes(b.data(), b.size()) ^ b.size());
}

// every value at every position of every short length, and every pair of neighbours
VH_SUITE(values, 256, 256)
{
  const auto v = static_cast<uint8_t>(c.idx);
  for (size_t L = 0; L <= 20; L++)
    for (size_t p = 0; p < L; p++) {
      bytes b = c.rng.below(2) ? noise(c.rng, L) : bytes(L, static_cast<uint8_t>(c.rng.below(3) * 127));
      b[p] = v;
      both(c.rng, b, "value");
    }
  bytes b;
  for (int w = 0; w < 256; w++) {
    b.push_back(v);
    b.push_back(static_cast<uint8_t>(w));
  }
  both(c.rng, b, "pairs");
  both(c.rng, bytes(), "empty");
  if (v % 64 == 31)
    vh::sample("byte %02x at every position of lengths 1..20 and beside every byte: written, read back in four spellings", v);
}
VH_SUITE(lengths, 400, 4000)
{
  const size_t L = c.idx < 300 ? c.idx : c.rng.below(3) ? c.rng.below(5000) : (size_t(1) << c.rng.below(18)) + c.rng.below(5) - 1;
  bytes b = noise(c.rng, L);
  if (c.rng.below(3) == 0)
    for (auto& x : b)
      x = static_cast<uint8_t>("\x00\x0f\xf0\xff\x09\x0a\x90\xa0"[c.rng.below(8)]);
  both(c.rng, b, "length");
  if (c.idx % 100 == 50)
    vh::sample("%zu bytes -> %.24s... -> the same bytes", L, hex_of(b).c_str());
}
VH_SUITE(huge, 2, 16)
{
  both(c.rng, noise(c.rng, (size_t(1) << (19 + c.idx % 5)) + c.rng.below(1000)), "huge");
}
// the conversions hold no state: other threads and the caller's streams don't matter
VH_SUITE(threads, 16, 200)
{
  std::vector<bytes> in;
  for (int i = 0; i < 8; i++)
    in.push_back(noise(c.rng, c.rng.below(3000)));
  std::vector<int> bad(8, 0);
  std::vector<std::thread> th;
  for (size_t i = 0; i < 8; i++)
    th.emplace_back([&, i] {
      for (int k = 0; k < 20; k++) {
        bytes o(in[i].size());
        const std::string s = to_hex(in[i].data(), in[i].size());
        to_byte_array(s, o.data());
        bad[i] += s != hex_of(in[i]) || o != in[i];
      }
    });
  for (auto& t : th)
    t.join();
  for (size_t i = 0; i < 8; i++)
    VH_REQUIRE(!bad[i], "threads", "%d of 20 conversions beside others are wrong", bad[i]);
  vh::eval(160);
}
template<size_t K>
static void
logs()
{
  if constexpr (K < 64) {
    size_t (*volatile f)() = &log2<(size_t(1) << K)>;
    VH_REQUIRE(f() == K, "log2", "log2(2^%zu) gives %zu", K, f());
    logs<K + 1>();
  }
}
VH_SUITE(log2s, 1, 1)
{
  logs<0>();
  vh::eval(64);
}
