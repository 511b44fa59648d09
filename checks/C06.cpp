// Secret key codec against an independent two's complement packer.
#include "glue.hpp"
using namespace glue;

static vh::counter_t n_rt("round_trips"), n_rej("refused_headers"), n_any("arbitrary_bytes_decoded");

template<size_t N>
struct S
{
  static constexpr size_t W = N == 512 ? 6 : 5, L = 1 + 2 * W * N / 8 + N;
  static constexpr int64_t M = N == 512 ? 31 : 15;

  struct three
  {
    vh::gbuf f{ 4 * N, 0x33 }, g{ 4 * N, 0x44 }, F{ 4 * N, 0x55 };
    bool dec(const vh::gbuf& in)
    {
      auto p = [](vh::gbuf& b) { return reinterpret_cast<int32_t*>(b.data()); };
      const bool ok = decoding::decode_skey<N>(in.data(), p(f), p(g), p(F));
      VH_REQUIRE(in.intact() && f.intact() && g.intact() && F.intact(), "out-of-bounds-write", "N=%zu", N);
      return ok;
    }
    void want(const ivec& a, const ivec& b, const ivec& c, const char* key, const char* what)
    {
      const ivec* w[] = { &a, &b, &c };
      vh::gbuf* o[] = { &f, &g, &F };
      for (int k = 0; k < 3; k++)
        for (size_t i = 0; i < N; i++) {
          const int32_t x = reinterpret_cast<int32_t*>(o[k]->data())[i];
          VH_REQUIRE(x == (*w[k])[i], key, "N=%zu %s: coefficient %zu of %c is %d, expected %ld", N, what, i, "fgF"[k], x, (*w[k])[i]);
        }
    }
  };
  static void rt(const ivec& f, const ivec& g, const ivec& F, const char* what, vh::rng_t& r)
  {
    const auto f_ = i32<N>(f), g_ = i32<N>(g), F_ = i32<N>(F);
    vh::gbuf out(L, static_cast<int>(r.below(256)));
    encoding::encode_skey<N>(f_.data(), g_.data(), F_.data(), out.data());
    VH_REQUIRE(out.intact(), "out-of-bounds-write", "N=%zu %s", N, what);
    VH_REQUIRE(falcon_utils::compute_skey_len<N>() == L, "length", "N=%zu: secret keys have %zu bytes, the length function says %zu", N, L, static_cast<size_t>(falcon_utils::compute_skey_len<N>()));
    const bytes want = ref::enc_sk(f, g, F);
    for (size_t i = 0; i < L; i++)
      VH_REQUIRE(out[i] == want[i], "wrong-encoding", "N=%zu %s: byte %zu is %02x, expected %02x", N, what, i, out[i], want[i]);
    three t;
    VH_REQUIRE(t.dec(out), "refused-valid", "N=%zu %s: decode_skey refused its own encoding", N, what);
    VH_REQUIRE(out.equals(want), "input-modified", "N=%zu %s", N, what);
    t.want(f, g, F, "not-lossless", what);
    n_rt++;
    vh::eval(2);
    vh::distinct(vh::hash_bytes(want.data(), L));
  }
  static ivec rnd(vh::rng_t& r, int64_t m)
  {
    ivec v(N);
    const auto kind = r.below(4);
    for (auto& x : v)
      x = kind == 0 ? (r.below(2) ? m : -m) : r.range(-m, m);
    return v;
  }
  // one field position, every value, two backgrounds
  static void position(vh::case_t& c)
  {
    const size_t p = c.idx % N;
    for (int64_t bg : { int64_t(0), int64_t(-1), M }) {
      ivec z(N, bg);
      for (int64_t v = -M; v <= M; v++) {
        ivec f = z;
        f[p] = v;
        rt(f, z, z, "each value at each position of f", c.rng);
        rt(z, f, z, "each value at each position of g", c.rng);
      }
      for (int64_t v : { int64_t(-127), int64_t(-64), int64_t(-2), int64_t(-1), int64_t(1), int64_t(2), int64_t(4), int64_t(8), int64_t(16), int64_t(32), int64_t(64), int64_t(127) }) {
        ivec F = z;
        F[p] = v;
        rt(z, z, F, "values at each position of F", c.rng);
      }
    }
  }
  static void Fvals(vh::case_t& c)
  {
    ivec F(N);
    for (size_t i = 0; i < N; i++)
      F[i] = static_cast<int64_t>((c.idx + i) % 255) - 127;
    rt(rnd(c.rng, M), rnd(c.rng, M), F, "every value at every position of F", c.rng);
  }
  static void random(vh::case_t& c)
  {
    const ivec f = rnd(c.rng, M), g = rnd(c.rng, M), F = rnd(c.rng, 127);
    rt(f, g, F, "random", c.rng);
    if (c.idx < 2)
      vh::sample("N=%zu f=[%ld,%ld,..] g=[%ld,..] F=[%ld,..]: encoded, compared, decoded", N, f[0], f[1], g[0], F[0]);
  }
  static void golden(vh::case_t& c)
  {
    const auto& k = ref::golden(N)[c.idx % 24];
    rt(k.f, k.g, k.F, "stored key", c.rng);
  }
  static void header(vh::case_t& c)
  {
    bytes b = ref::enc_sk(rnd(c.rng, M), rnd(c.rng, M), rnd(c.rng, 127));
    b[0] = static_cast<uint8_t>(c.idx);
    vh::gbuf in(b);
    three t;
    const bool ok = t.dec(in), right = b[0] == (0x50 | ref::logn(N));
    VH_REQUIRE(ok == right, ok ? "accepted-header" : "refused-valid", "N=%zu header %02x: decode_skey returned %d", N, b[0], ok);
    if (!ok) {
      const ivec z(N, 0);
      t.want(z, z, z, "refused-not-zeroed", "wrong header");
      n_rej++;
    }
    vh::eval();
    vh::distinct(vh::hash_bytes(b.data(), L));
  }
  // arbitrary fields: whatever is accepted decodes to the fields' values
  static void arbitrary(vh::case_t& c)
  {
    bytes b(L);
    c.rng.fill(b.data(), L);
    b[0] = static_cast<uint8_t>(0x50 | ref::logn(N));
    vh::gbuf in(b);
    three t;
    if (t.dec(in)) {
      const auto k = *ref::dec_sk(N, b.data());
      t.want(k.f, k.g, k.F, "wrong-field", "arbitrary bytes");
      n_any++;
    }
    vh::eval();
    vh::distinct(vh::hash_bytes(b.data(), L));
  }
};
#define BOTH(name, q, t)                                                       \
  VH_SUITE(name##512, q, t) { S<512>::name(c); }                               \
  VH_SUITE(name##1024, q, t) { S<1024>::name(c); }
BOTH(Fvals, 255, 255)
BOTH(random, 20000, 800000)
BOTH(header, 256, 256)
BOTH(golden, 24, 24)
BOTH(arbitrary, 4000, 200000)
VH_SUITE(position512, 512, 512)
{
  S<512>::position(c);
}
VH_SUITE(position1024, 1024, 1024)
{
  S<1024>::position(c);
}
