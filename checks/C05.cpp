// Public key codec against an independent 14-bit little-endian packer.
#include "glue.hpp"
using namespace glue;

static vh::counter_t n_rt("round_trips"), n_acc("decoded"), n_rej("refused"), n_hdr("header_values");

template<size_t N>
struct P
{
  static constexpr size_t L = 1 + 14 * N / 8;
  static void dec(const bytes& pk, const char* what, vh::rng_t& r)
  {
    VH_REQUIRE(falcon_utils::compute_pkey_len<N>() == L, "length", "N=%zu: public keys have %zu bytes, the length function says %zu", N, L, static_cast<size_t>(falcon_utils::compute_pkey_len<N>()));
    const auto want = ref::dec_pk(N, pk.data());
    vh::gbuf in(pk), out(2 * N, static_cast<int>(r.below(256)));
    const bool ok = decoding::decode_pkey<N>(in.data(), reinterpret_cast<ff::ff_t*>(out.data()));
    VH_REQUIRE(in.intact() && out.intact(), "out-of-bounds-write", "N=%zu %s", N, what);
    VH_REQUIRE(in.equals(pk), "input-modified", "N=%zu %s", N, what);
    VH_REQUIRE(ok == want.has_value(), ok ? "accepted-malformed" : "refused-valid", "N=%zu %s: decode_pkey returned %d; %s..%s", N, what, ok,
               vh::hex(pk.data(), 24).c_str(), vh::hex(pk.data() + L - 8, 8).c_str());
    auto* h = reinterpret_cast<uint16_t*>(out.data());
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(h[i] == (want ? (*want)[i] : 0), ok ? "wrong-coefficient" : "refused-not-zeroed", "N=%zu %s: coefficient %zu is %u, expected %ld", N, what, i, h[i],
                 want ? (*want)[i] : 0);
    (ok ? n_acc : n_rej)++;
    vh::eval();
    vh::distinct(vh::hash_bytes(pk.data(), pk.size()));
    // the encoding of what was decoded is the input again
    if (ok) {
      vh::gbuf back(L, static_cast<int>(r.below(256)));
      encoding::encode_pkey<N>(reinterpret_cast<ff::ff_t*>(out.data()), back.data());
      VH_REQUIRE(back.intact() && back.equals(pk), "not-canonical", "N=%zu %s: re-encoding differs", N, what);
    }
  }
  static void enc(const ivec& h, const char* what, vh::rng_t& r)
  {
    std::vector<ff::ff_t> v(N);
    for (size_t i = 0; i < N; i++)
      v[i].v = static_cast<uint16_t>(h[i]);
    vh::gbuf out(L, static_cast<int>(r.below(256)));
    encoding::encode_pkey<N>(v.data(), out.data());
    const bytes want = ref::enc_pk(h);
    VH_REQUIRE(out.intact(), "out-of-bounds-write", "N=%zu %s", N, what);
    for (size_t i = 0; i < L; i++)
      VH_REQUIRE(out[i] == want[i], "wrong-encoding", "N=%zu %s: byte %zu is %02x, expected %02x", N, what, i, out[i], want[i]);
    vh::eval();
    n_rt++;
    dec(want, what, r);
  }
  // every coefficient value at every residue of the packing pattern, all positions over the run
  static void values(vh::case_t& c)
  {
    ivec h(N);
    for (size_t i = 0; i < N; i++)
      h[i] = static_cast<int64_t>((c.idx + i * 97) % ref::Q);
    enc(h, "value sweep", c.rng);
  }
  static void position(vh::case_t& c)
  {
    const size_t p = c.idx % N;
    for (int64_t bg : { int64_t(0), ref::Q - 1 })
      for (int bit = 0; bit < 14; bit++) {
        ivec h(N, bg);
        h[p] = (int64_t(1) << bit) % ref::Q;
        enc(h, "single bit at each position", c.rng);
      }
    // each non-canonical value class at each position
    for (int64_t v : { ref::Q - 1, ref::Q, ref::Q + 1, c.rng.range(ref::Q, 16383), int64_t(16383) }) {
      ivec h(N);
      for (auto& x : h)
        x = c.rng.range(0, ref::Q - 1);
      h[p] = v;
      dec(ref::enc_pk(h), "one coefficient at or above q", c.rng);
      for (auto& x : h)
        x = 0;
      h[p] = v;
      dec(ref::enc_pk(h), "one coefficient at or above q, rest zero", c.rng);
    }
  }
  static void random(vh::case_t& c)
  {
    ivec h(N);
    for (auto& x : h)
      x = c.rng.range(0, ref::Q - 1);
    enc(h, "random", c.rng);
    bytes b = ref::enc_pk(h);
    b[1 + c.rng.below(L - 1)] ^= static_cast<uint8_t>(1u << c.rng.below(8));
    dec(b, "one bit changed", c.rng);
    for (int i = 0; i < 3; i++)
      h[c.rng.below(N)] = c.rng.range(0, 16383);
    dec(ref::enc_pk(h), "a few arbitrary 14-bit values", c.rng);
    c.rng.fill(b.data() + 1, L - 1);
    b[0] = ref::logn(N);
    dec(b, "random bytes", c.rng);
    // two violations whose effects could cancel
    for (auto& x : h)
      x = c.rng.range(0, ref::Q - 1);
    const size_t p = c.rng.below(N);
    h[p] = c.rng.range(ref::Q, 16383);
    h[(p + 1 + c.rng.below(N - 1)) % N] = c.rng.below(2) ? h[p] : c.rng.range(ref::Q, 16383);
    dec(ref::enc_pk(h), "two coefficients at or above q", c.rng);
    if (c.idx < 2)
      vh::sample("N=%zu random key %s.. and five variants", N, vh::hex(ref::enc_pk(h).data(), 10).c_str());
  }
  static void header(vh::case_t& c)
  {
    ivec h(N);
    for (auto& x : h)
      x = c.rng.range(0, ref::Q - 1);
    bytes b = ref::enc_pk(h);
    b[0] = static_cast<uint8_t>(c.idx);
    dec(b, "header", c.rng);
    n_hdr++;
    std::fill(b.begin(), b.end(), static_cast<uint8_t>(c.idx));
    dec(b, "constant bytes", c.rng);
  }
};
#define BOTH(name, q, t)                                                       \
  VH_SUITE(name##512, q, t) { P<512>::name(c); }                               \
  VH_SUITE(name##1024, q, t) { P<1024>::name(c); }
BOTH(values, 12289, 12289)
BOTH(random, 8000, 400000)
BOTH(header, 256, 256)
VH_SUITE(position512, 512, 512)
{
  P<512>::position(c);
}
VH_SUITE(position1024, 1024, 1024)
{
  P<1024>::position(c);
}
