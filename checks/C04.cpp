// compress_sig / decompress_sig against a bit-by-bit reference.
#include "glue.hpp"
using namespace glue;

static vh::counter_t n_fit("compressed"), n_exact("exact_fits"), n_over1("one_bit_too_long"), n_long("refused_too_long"), n_ok("decoded"), n_bad("refused_bodies");

template<size_t N>
struct X
{
  static constexpr size_t L = N == 512 ? 666 : 1280, BODY = L - 41;

  static void comp(const std::vector<int32_t>& s, const char* what, vh::rng_t& r)
  {
    const ivec s64(s.begin(), s.end());
    const auto want = ref::compress(s64, BODY);
    vh::gbuf sig(L, static_cast<int>(r.below(256)));
    bytes head(41);
    r.fill(head.data(), 41);
    memcpy(sig.data(), head.data(), 41);
    vh::gbuf in(s.data(), 4 * N);
    const bool ok = encoding::compress_sig<N, L>(reinterpret_cast<int32_t*>(in.data()), sig.data());
    VH_REQUIRE(sig.intact() && in.intact(), "out-of-bounds-write", "N=%zu %s", N, what);
    VH_REQUIRE(memcmp(in.data(), s.data(), 4 * N) == 0, "input-modified", "N=%zu %s", N, what);
    VH_REQUIRE(memcmp(sig.data(), head.data(), 41) == 0, "header-touched", "N=%zu %s: compress wrote the first 41 bytes", N, what);
    const size_t bits = ref::comp_bits(s64);
    VH_REQUIRE(ok == want.has_value(), ok ? "compressed-too-long" : "refused-fitting", "N=%zu %s: encoding of %zu bits, body of %zu bits, compress returned %d", N, what, bits,
               8 * BODY, ok);
    vh::eval();
    vh::distinct(vh::hash_bytes(s.data(), 4 * N));
    if (bits == 8 * BODY)
      n_exact++;
    if (bits == 8 * BODY + 1)
      n_over1++;
    if (!ok) {
      n_long++;
      return;
    }
    n_fit++;
    for (size_t i = 0; i < BODY; i++)
      VH_REQUIRE(sig[41 + i] == (*want)[i], "wrong-encoding", "N=%zu %s: body byte %zu is %02x, expected %02x", N, what, i, sig[41 + i], (*want)[i]);
    decomp(bytes(sig.data(), sig.data() + L), what, &s64, r);
  }

  static void decomp(const bytes& sig, const char* what, const ivec* must, vh::rng_t& r)
  {
    const auto want = ref::decompress(N, sig.data() + 41, BODY);
    vh::gbuf in(sig), out(4 * N, static_cast<int>(r.below(256)));
    const bool ok = decoding::decompress_sig<N, L>(in.data(), reinterpret_cast<int32_t*>(out.data()));
    VH_REQUIRE(in.intact() && out.intact(), "out-of-bounds-write", "N=%zu %s", N, what);
    VH_REQUIRE(in.equals(sig), "input-modified", "N=%zu %s", N, what);
    VH_REQUIRE(ok == want.has_value(), ok ? "accepted-bad-body" : "refused-good-body", "N=%zu %s: decompress returned %d; body %s..%s", N, what, ok,
               vh::hex(sig.data() + 41, 24).c_str(), vh::hex(sig.data() + L - 12, 12).c_str());
    auto* p = reinterpret_cast<int32_t*>(out.data());
    for (size_t i = 0; i < N; i++) {
      const int64_t e = want ? (*want)[i] : 0;
      VH_REQUIRE(p[i] == e, ok ? "wrong-coefficient" : "refused-not-zeroed", "N=%zu %s: coefficient %zu is %d, expected %ld", N, what, i, p[i], e);
    }
    if (must)
      VH_REQUIRE(want && *want == *must, "not-lossless", "N=%zu %s: reference disagrees with itself", N, what);
    // through the full signature decoder
    vh::gbuf salt(40, 0x5a), out2(4 * N, 0x77);
    bytes full = sig;
    full[0] = static_cast<uint8_t>(0x30 | ref::logn(N));
    vh::gbuf in2(full);
    const bool ok2 = decoding::decode_sig<N>(in2.data(), salt.data(), reinterpret_cast<int32_t*>(out2.data()));
    VH_REQUIRE(ok2 == ok && salt.intact() && out2.intact(), "decode-sig", "N=%zu %s: decode_sig returned %d, decompress %d", N, what, ok2, ok);
    if (ok2) {
      VH_REQUIRE(memcmp(salt.data(), full.data() + 1, 40) == 0, "decode-sig-salt", "N=%zu %s", N, what);
      VH_REQUIRE(memcmp(out2.data(), out.data(), 4 * N) == 0, "decode-sig-poly", "N=%zu %s", N, what);
    }
    vh::eval(2);
    (ok ? n_ok : n_bad)++;
    vh::distinct(vh::hash_bytes(sig.data() + 41, BODY));
  }

  static std::vector<int32_t> gauss(vh::rng_t& r, double sd)
  {
    std::vector<int32_t> s(N);
    for (auto& x : s)
      x = static_cast<int32_t>(llround(r.gauss() * sd));
    return s;
  }
  static bytes wrap(const bytes& body, vh::rng_t& r)
  {
    bytes s(41);
    r.fill(s.data(), 41);
    s.insert(s.end(), body.begin(), body.end());
    return s;
  }

  static void natural(vh::case_t& c)
  {
    comp(gauss(c.rng, c.rng.below(3) ? ref::sigma(N) : std::exp(c.rng.unit() * 6)), "gaussian", c.rng);
  }
  // encodings of exactly, one under, one over, ... the available bits
  static void fit(vh::case_t& c)
  {
    std::vector<int32_t> s = gauss(c.rng, c.rng.unit() * 160 + 1);
    int64_t units = static_cast<int64_t>(8 * BODY - 9 * N) + c.rng.range(-2, 2);
    for (auto& x : s)
      units -= std::abs(static_cast<int64_t>(x)) >> 7;
    const bool one = c.rng.below(2);
    const size_t at = c.rng.below(N);
    int guard = 0;
    while (units != 0 && guard++ < 100000) {
      const size_t i = one ? at : (c.rng.below(4) ? c.rng.below(N) : N - 1 - c.rng.below(3));
      const int64_t k = units > 0 ? 1 + static_cast<int64_t>(c.rng.below(static_cast<uint64_t>(one ? units : std::min<int64_t>(units, 9)))) : -1;
      const int64_t v = s[i], m = std::abs(v) + 128 * k;
      if (m < 0)
        continue;
      if (one && k < 0 && (std::abs(v) >> 7) == 0) { // take it from another place
        auto& y = s[c.rng.below(N)];
        if (std::abs(y) >= 128) {
          y = y < 0 ? y + 128 : y - 128;
          units++;
        }
        continue;
      }
      s[i] = static_cast<int32_t>(v < 0 || (v == 0 && c.rng.below(2)) ? -m : m);
      units -= k;
    }
    comp(s, "length next to the limit", c.rng);
  }
  // one coefficient at one place, all kinds of magnitude, up to INT32_MIN
  static void spike(vh::case_t& c)
  {
    std::vector<int32_t> s = c.rng.below(2) ? std::vector<int32_t>(N, 0) : gauss(c.rng, 20);
    for (int k = 0; k <= static_cast<int>(c.rng.below(3)); k++) {
      const size_t at = c.rng.below(4) ? c.rng.below(N) : (c.rng.below(2) ? 0 : N - 1);
      int64_t v = 0;
      switch (c.rng.below(6)) {
        case 0:
          v = (int64_t(1) << c.rng.range(0, 31)) + c.rng.range(-2, 2);
          break;
        case 1:
          v = 128 * c.rng.range(0, 12) + c.rng.range(-1, 1);
          break;
        case 2:
          v = c.rng.range(0, 60000);
          break;
        case 3:
          v = 128 * static_cast<int64_t>(8 * BODY - 9 * N) + c.rng.range(-200, 200);
          break;
        case 4:
          v = c.rng.range(0, 0x7fffffff);
          break;
        default:
          v = 1024 * c.rng.range(0, 40) + c.rng.range(-1, 1);
      }
      v = std::min<int64_t>(std::max<int64_t>(v, 0), 0x7fffffff);
      if (c.rng.below(2))
        v = -v;
      if (c.rng.below(40) == 0)
        v = INT32_MIN;
      s[at] = static_cast<int32_t>(v);
    }
    comp(s, "spike", c.rng);
  }
  // every value -2600..2600 at some position
  static void values(vh::case_t& c)
  {
    auto s = gauss(c.rng, 8);
    for (int j = 0; j < 3; j++)
      s[c.rng.below(N)] = static_cast<int32_t>(c.idx) - 2600;
    comp(s, "value sweep", c.rng);
  }
  // bodies: damaged encodings
  static void damaged(vh::case_t& c)
  {
    ivec s(N);
    const double sd = c.rng.below(2) ? ref::sigma(N) : c.rng.unit() * 170;
    do {
      for (auto& x : s)
        x = llround(c.rng.gauss() * sd);
    } while (!ref::compress(s, BODY));
    const bytes good = *ref::compress(s, BODY);
    const size_t used = ref::comp_bits(s);
    for (int k = 0; k < 12; k++) {
      bytes b = good;
      auto flip = [&](size_t bit) { b[bit / 8] ^= static_cast<uint8_t>(0x80 >> (bit % 8)); };
      const char* what = "";
      switch (k) {
        case 0:
          flip(c.rng.below(8 * BODY));
          what = "one bit flipped";
          break;
        case 1:
          if (used < 8 * BODY)
            flip(used + c.rng.below(8 * BODY - used));
          what = "padding bit set";
          break;
        case 2:
          flip(8 * BODY - 1);
          what = "last bit flipped";
          break;
        case 3:
          if (used < 8 * BODY)
            flip(used);
          what = "first padding bit set";
          break;
        case 4:
          for (int j = 0; j < 5; j++)
            flip(c.rng.below(8 * BODY));
          what = "bits flipped";
          break;
        case 5:
          b[c.rng.below(BODY)] = 0;
          what = "byte cleared";
          break;
        case 6: {
          const size_t at = c.rng.below(BODY);
          for (size_t j = at; j < BODY; j++)
            b[j] = 0;
          what = "tail cleared";
          break;
        }
        case 7: {
          // clear the final stop bit: the last coefficient runs on to the end
          flip(used - 1);
          what = "last stop bit cleared";
          break;
        }
        case 8: { // clear the final stop bit, set the last bit of the body
          flip(used - 1);
          if (used < 8 * BODY)
            flip(8 * BODY - 1);
          what = "last coefficient extended to the very end";
          break;
        }
        case 9: {
          // minus zero
          ivec t = s;
          const size_t at = c.rng.below(N);
          t[at] = 0;
          if (auto e = ref::compress(t, BODY)) {
            b = *e;
            size_t bit = 0;
            for (size_t j = 0; j < at; j++)
              bit += 9 + static_cast<size_t>(std::abs(t[j]) >> 7);
            flip(bit);
          }
          what = "minus zero";
          break;
        }
        case 10: {
          const size_t at = c.rng.below(BODY), n = 1 + c.rng.below(20);
          for (size_t j = at; j < std::min(BODY, at + n); j++)
            b[j] = c.rng.below(2) ? 0 : 0xff;
          what = "run of constant bytes";
          break;
        }
        default: {
          const size_t at = c.rng.below(BODY);
          b.erase(b.begin() + static_cast<long>(at));
          b.push_back(static_cast<uint8_t>(c.rng.next()));
          what = "byte removed";
        }
      }
      decomp(wrap(b, c.rng), what, nullptr, c.rng);
    }
    if (c.idx < 2)
      vh::sample("N=%zu encoding of %zu bits (body %zu): 12 damaged variants judged bit by bit", N, used, 8 * BODY);
  }
  // bodies built from valid coefficient codes, ending anywhere near the end
  static void ending(vh::case_t& c)
  {
    std::vector<bool> b;
    size_t coeffs = 0;
    const size_t total = 8 * BODY;
    const int64_t goal = static_cast<int64_t>(N) + (c.rng.below(3) ? 0 : c.rng.range(-2, 2));
    // spread `slack` unary zeros so that the last coefficient ends at end + d
    const int64_t d = c.rng.range(-9, 9);
    int64_t slack = static_cast<int64_t>(total) + d - 9 * goal;
    while (static_cast<int64_t>(coeffs) < goal) {
      const int64_t left = goal - static_cast<int64_t>(coeffs);
      int64_t k = left == 1 ? slack : std::min<int64_t>(slack, c.rng.below(6) ? static_cast<int64_t>(c.rng.below(2)) : static_cast<int64_t>(c.rng.below(30)));
      if (left < 20)
        k = left == 1 ? slack : std::min<int64_t>(slack, slack / left + static_cast<int64_t>(c.rng.below(3)));
      k = std::max<int64_t>(k, 0);
      slack -= k;
      const int low = static_cast<int>(c.rng.below(128));
      b.push_back(low || k ? c.rng.below(2) : false);
      for (int i = 6; i >= 0; i--)
        b.push_back((low >> i) & 1);
      for (int64_t i = 0; i < k; i++)
        b.push_back(false);
      b.push_back(true);
      coeffs++;
    }
    bytes body(BODY, 0);
    for (size_t i = 0; i < std::min(b.size(), total); i++)
      if (b[i])
        body[i / 8] |= static_cast<uint8_t>(0x80 >> (i % 8));
    decomp(wrap(body, c.rng), "ending near the end of the body", nullptr, c.rng);
  }
  static void random(vh::case_t& c)
  {
    bytes b(BODY);
    const double p = c.rng.unit();
    switch (c.rng.below(4)) {
      case 0:
        c.rng.fill(b.data(), BODY);
        break;
      case 1:
        std::fill(b.begin(), b.end(), static_cast<uint8_t>(c.rng.next()));
        break;
      default: // biased bits
        for (auto& x : b) {
          x = 0;
          for (int i = 0; i < 8; i++)
            x = static_cast<uint8_t>(2 * x + c.rng.chance(p));
        }
    }
    decomp(wrap(b, c.rng), "arbitrary body", nullptr, c.rng);
  }
  // every bit of one encoding
  static void everybit(vh::case_t& c)
  {
    ivec s(N);
    do {
      for (auto& x : s)
        x = llround(c.rng.gauss() * ref::sigma(N));
    } while (!ref::compress(s, BODY));
    const bytes good = *ref::compress(s, BODY);
    for (size_t i = c.idx % 8; i < 8 * BODY; i += 8) {
      bytes b = good;
      b[i / 8] ^= static_cast<uint8_t>(0x80 >> (i % 8));
      decomp(wrap(b, c.rng), "each bit flipped", nullptr, c.rng);
    }
  }
};
#define BOTH(name, q, t)                                                       \
  VH_SUITE(name##512, q, t) { X<512>::name(c); }                               \
  VH_SUITE(name##1024, q, t) { X<1024>::name(c); }

BOTH(natural, 8000, 300000)
BOTH(fit, 12000, 500000)
BOTH(spike, 12000, 500000)
BOTH(values, 5201, 5201)
BOTH(damaged, 3000, 150000)
BOTH(ending, 20000, 800000)
BOTH(random, 8000, 300000)
BOTH(everybit, 16, 160)

VH_FINISH(reach)
{
  if (!n_exact.total() || !n_over1.total() || !n_ok.total() || !n_bad.total())
    vh::note_fail("no-reach", "a class of inputs was never produced (harness defect)");
}
