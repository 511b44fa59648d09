// Every entry point, exact-size buffers (even and odd addresses), hostile
// contents, under AddressSanitizer and UndefinedBehaviorSanitizer; outputs are
// written in full (the same call over two different old contents must leave
// the same bytes) and nothing beside them is.
#include "glue.hpp"
using namespace glue;

static vh::counter_t n_ver("verify_calls"), n_sign("sign_calls"), n_sign_bad("sign_calls_with_malformed_keys"), n_kg("key_generations"), n_full("outputs_checked_for_full_write"), n_codec("codec_calls"),
  n_tr("transform_calls"), n_samp("sampler_calls"), n_hash("hash_calls"), n_acc("hostile_inputs_accepted"), n_solve("ntru_equations_solved"), n_odd("calls_with_odd_addresses");

// Exact-size heap array of T with canaries / red zones around it.
template<typename T>
struct arr
{
  vh::gbuf b;
  explicit arr(size_t n, int fill = 0xa5)
    : b(n * sizeof(T), fill)
  {
  }
  template<typename V>
  explicit arr(const V& v)
    : b(v.size() * sizeof(T))
  {
    for (size_t i = 0; i < v.size(); i++)
      (*this)[i] = static_cast<T>(v[i]);
  }
  T* p() const { return reinterpret_cast<T*>(b.data()); }
  T& operator[](size_t i) const { return p()[i]; }
};
// Byte buffer that ends exactly at the end of its allocation and starts at an
// address of the given parity.
struct obuf
{
  vh::gbuf b;
  size_t off;
  bytes lead;
  obuf(size_t n, size_t off, int fill)
    : b(n + off, fill)
    , off(off)
    , lead(b.data(), b.data() + off)
  {
    if (off & 1)
      n_odd++;
  }
  obuf(const bytes& v, size_t off)
    : obuf(v.size(), off, 0x3c)
  {
    if (!v.empty())
      memcpy(data(), v.data(), v.size());
  }
  uint8_t* data() const { return b.data() + off; }
  size_t size() const { return b.n - off; }
  bool intact() const { return b.intact() && std::equal(lead.begin(), lead.end(), b.data()); }
  bytes get() const { return bytes(data(), data() + size()); }
};

// Two runs of `f(old contents)`; the results must be equal.
template<typename F>
static void
full_write(const char* what, size_t n, F&& f)
{
  const bytes a = f(0x00), b = f(0xff);
  for (size_t i = 0; i < n; i++)
    VH_REQUIRE(a[i] == b[i], "output-not-written", "%s: output byte %zu of %zu keeps (or depends on) what the buffer contained: %02x over 00, %02x over ff", what, i, n, a[i], b[i]);
  n_full++;
  vh::eval();
}

static bytes
hostile_bytes(vh::rng_t& r, size_t n)
{
  bytes b(n);
  switch (r.below(7)) {
    case 0:
      return b;
    case 1:
      std::fill(b.begin(), b.end(), 0xff);
      return b;
    case 2: { // one value
      std::fill(b.begin(), b.end(), static_cast<uint8_t>(r.next()));
      return b;
    }
    case 3: // sparse ones: long zero runs
      for (size_t i = 0; i < n; i++)
        b[i] = r.below(40) ? 0 : static_cast<uint8_t>(1u << r.below(8));
      return b;
    case 4: // blocks of 0 / ff / random
      for (size_t i = 0; i < n;) {
        const size_t k = 1 + r.below(60);
        const int m = static_cast<int>(r.below(3));
        for (size_t j = 0; j < k && i < n; j++, i++)
          b[i] = m == 0 ? 0 : m == 1 ? 0xff : static_cast<uint8_t>(r.next());
      }
      return b;
    default:
      r.fill(b.data(), n);
      return b;
  }
}
static void
damage(vh::rng_t& r, bytes& b, size_t from = 0)
{
  const size_t n = b.size();
  switch (r.below(7)) {
    case 0:
      b[from + r.below(n - from)] ^= static_cast<uint8_t>(1u << r.below(8));
      break;
    case 1:
      for (size_t k = 1 + r.below(20); k--;)
        b[from + r.below(n - from)] = static_cast<uint8_t>(r.next());
      break;
    case 2: { // tail: zero, ones, random
      const size_t k = r.below(n - from + 1);
      const int v = static_cast<int>(r.below(3));
      for (size_t i = n - k; i < n; i++)
        b[i] = v == 0 ? 0 : v == 1 ? 0xff : static_cast<uint8_t>(r.next());
      break;
    }
    case 3: { // head
      const size_t k = r.below(n - from + 1);
      const int v = static_cast<int>(r.below(3));
      for (size_t i = from; i < from + k; i++)
        b[i] = v == 0 ? 0 : v == 1 ? 0xff : static_cast<uint8_t>(r.next());
      break;
    }
    case 4: { // shift
      const size_t p = from + r.below(n - from), k = 1 + r.below(3);
      for (size_t i = n; i-- > p + k;)
        b[i] = b[i - k];
      break;
    }
    case 5: {
      const auto h = hostile_bytes(r, n - from);
      std::copy(h.begin(), h.end(), b.begin() + static_cast<long>(from));
      break;
    }
    default:
      break;
  }
}
// Signature body: s2 with chosen shapes, possibly filling the body to the bit,
// then perhaps broken within the last bits.
static bytes
body(vh::rng_t& r, size_t N, size_t n)
{
  if (r.below(4) == 0)
    return hostile_bytes(r, n);
  bytes out(n);
  size_t bit = 0;
  const size_t bits = 8 * n;
  auto put = [&](int v) {
    if (bit < bits && v)
      out[bit / 8] |= static_cast<uint8_t>(0x80 >> (bit & 7));
    bit++;
  };
  const int mode = static_cast<int>(r.below(5));
  const size_t stop = mode == 1 ? r.below(N + 1) : N;
  for (size_t i = 0; i < stop && bit < bits + 50; i++) {
    put(r.below(2) != 0);
    for (int k = 0; k < 7; k++)
      put(r.below(2) != 0);
    uint64_t run = r.below(3);
    if (mode == 2 && r.below(50) == 0)
      run = r.below(200);
    if (mode == 3 && i + 3 > stop)
      run = bits > bit + 12 ? r.below(4) ? bits - bit - r.below(12) : 3 * bits : 2;
    if (mode == 4 && i == N / 2)
      run = r.below(bits);
    for (uint64_t k = 0; k < run && bit < bits + 50; k++)
      put(0);
    put(1);
  }
  return out;
}

template<size_t N>
struct S
{
  static constexpr size_t SIG = N == 512 ? 666 : 1280, PK = N == 512 ? 897 : 1793, LG = N == 512 ? 9 : 10;
  static const ref::key& key(vh::rng_t& r) { return ref::golden(N)[r.below(ref::golden(N).size())]; }

  static void verify(vh::case_t& c)
  {
    for (int rep = 0; rep < 8; rep++) {
      const auto& K = key(c.rng);
      bytes pk = K.pk, sig(SIG), m = message(c.rng, msg_len(c.rng, 600));
      sig[0] = static_cast<uint8_t>(c.rng.below(10) ? 0x30 | LG : c.rng.below(256));
      c.rng.fill(&sig[1], 40);
      const bytes b = body(c.rng, N, SIG - 41);
      std::copy(b.begin(), b.end(), sig.begin() + 41);
      if (c.rng.below(3) == 0)
        damage(c.rng, sig, c.rng.below(2) ? 41 : 0);
      if (c.rng.below(2))
        damage(c.rng, pk, c.rng.below(4) ? 1 : 0);
      const size_t off = c.rng.below(4);
      obuf p(pk, off), s(sig, c.rng.below(4)), g(m, c.rng.below(4));
      const bool ok = falcon::verify<N>(p.data(), g.data(), m.size(), s.data());
      n_acc.add(ok);
      VH_REQUIRE(p.intact() && s.intact() && g.intact() && p.get() == pk && s.get() == sig && g.get() == m, "out-of-bounds-write", "N=%zu verify wrote to or beside its inputs", N);
      n_ver++;
      vh::eval();
      vh::distinct(vh::hash_bytes(sig.data(), SIG, vh::hash_bytes(pk.data(), PK)));
    }
    if (c.idx == 0)
      vh::sample("N=%zu verify: damaged keys, unary runs up to the last bit, buffers at odd addresses", N);
  }
  // verify with an in-memory public key (the documented second interface)
  static void verify_h(vh::case_t& c)
  {
    constexpr int32_t b2 = N == 512 ? 34034726 : 70265242;
    bytes sig(SIG), m = message(c.rng, msg_len(c.rng, 300));
    sig[0] = 0x30 | LG;
    const bytes b = body(c.rng, N, SIG - 41);
    std::copy(b.begin(), b.end(), sig.begin() + 41);
    arr<ff::ff_t> h(N);
    for (size_t i = 0; i < N; i++)
      h[i] = ff::ff_t{ static_cast<uint16_t>(c.rng.below(4) ? c.rng.below(12289) : 12288 * c.rng.below(2)) };
    obuf s(sig, c.rng.below(4)), g(m, c.rng.below(4));
    verification::verify<N, b2>(h.p(), g.data(), m.size(), s.data());
    VH_REQUIRE(h.b.intact() && s.intact() && g.intact(), "out-of-bounds-write", "N=%zu verification::verify", N);
    n_ver++;
    vh::eval();
  }

  static void sign(vh::case_t& c)
  {
    const auto& K = key(c.rng);
    const size_t k = static_cast<size_t>(&K - ref::golden(N).data());
    const bytes m = message(c.rng, msg_len(c.rng, 3000));
    obuf sk(K.sk, c.rng.below(4)), g(m, c.rng.below(4));
    const size_t off = c.rng.below(4);
    const uint64_t es = c.rng.next();
    full_write("one-shot sign", SIG, [&](int fill) {
      obuf s(SIG, off, fill);
      vh::seed_entropy(es);
      const bool ok = falcon::sign<N>(sk.data(), g.data(), m.size(), s.data());
      VH_REQUIRE(ok && s.intact() && sk.intact() && g.intact() && sk.get() == K.sk && g.get() == m, "out-of-bounds-write", "N=%zu sign (returned %d)", N, ok);
      n_sign++;
      return s.get();
    });
    const auto& p = gold<N>(k);
    arr<fft::cmplx> B(4 * N), T(N * (LG + 1));
    std::copy(p.B.get(), p.B.get() + 4 * N, B.p());
    std::copy(p.T.get(), p.T.get() + N * (LG + 1), T.p());
    const bool force = c.rng.below(3) == 0;
    const uint64_t fs = c.rng.next(), until = 5000 + c.rng.below(60000);
    const double fp = c.rng.unit();
    full_write("prepared sign", SIG, [&](int fill) {
      obuf s(SIG, off, fill);
      vh::seed_entropy(es);
      prng::prng_t rng;
      forced_t src(fs, 40, until, fp);
      if (force)
        vhook::prng_override = &src;
      falcon::sign<N>(B.p(), T.p(), g.data(), m.size(), s.data(), rng);
      vhook::prng_override = nullptr;
      VH_REQUIRE(s.intact() && B.b.intact() && T.b.intact() && g.intact(), "out-of-bounds-write", "N=%zu sign (prepared)", N);
      n_sign++;
      return s.get();
    });
    vh::distinct(vh::hash_bytes(m.data(), m.size(), es));
  }
  static void sign_bad(vh::case_t& c)
  {
    bytes sk = key(c.rng).sk;
    if (c.rng.below(6) == 0)
      sk = hostile_bytes(c.rng, sk.size());
    else
      damage(c.rng, sk, c.rng.below(8) ? 1 : 0);
    if (c.rng.below(8))
      sk[0] = 0x50 | LG;
    const bytes m = message(c.rng, c.rng.below(100));
    obuf s(sk, c.rng.below(4)), g(m, c.rng.below(4)), sig(SIG, c.rng.below(4), 0x11);
    vhook::prng_budget = vhook::prng_bytes + 4'000'000;
    try {
      n_acc.add(falcon::sign<N>(s.data(), g.data(), m.size(), sig.data()));
    } catch (const vhook::budget_exceeded&) { // that it ends is C24's business
    }
    VH_REQUIRE(s.intact() && g.intact() && sig.intact() && s.get() == sk, "out-of-bounds-write", "N=%zu sign with a malformed key", N);
    n_sign_bad++;
    vh::eval();
    vh::distinct(vh::hash_bytes(sk.data(), sk.size()));
  }
  // the key expansion steps, on whatever decodes
  static void expand_bad(vh::case_t& c)
  {
    bytes sk = key(c.rng).sk;
    damage(c.rng, sk, 1);
    sk[0] = 0x50 | LG;
    arr<int32_t> f(N), g(N), F(N), G(N);
    if (!decoding::decode_skey<N>(sk.data(), f.p(), g.p(), F.p()))
      return;
    falcon::recompute_G<N>(f.p(), g.p(), F.p(), G.p());
    arr<fft::cmplx> B(4 * N), T(N * (LG + 1));
    falcon::compute_matrix_B<N>(f.p(), g.p(), F.p(), G.p(), B.p());
    falcon::compute_falcon_tree<N>(B.p(), T.p());
    VH_REQUIRE(f.b.intact() && g.b.intact() && F.b.intact() && G.b.intact() && B.b.intact() && T.b.intact(), "out-of-bounds-write", "N=%zu key expansion", N);
    n_sign_bad++;
    vh::eval();
  }
  static void expand(vh::case_t& c)
  {
    const auto b = variant<N>(c.rng);
    arr<int32_t> f(b.f), g(b.g), F(b.F), G(b.G);
    full_write("recompute_G", 4 * N, [&](int fill) {
      arr<int32_t> o(N, fill);
      falcon::recompute_G<N>(f.p(), g.p(), F.p(), o.p());
      VH_REQUIRE(o.b.intact(), "out-of-bounds-write", "N=%zu recompute_G", N);
      return bytes(o.b.data(), o.b.data() + o.b.n);
    });
    full_write("compute_matrix_B", 4 * N * 16, [&](int fill) {
      arr<fft::cmplx> o(4 * N, fill);
      falcon::compute_matrix_B<N>(f.p(), g.p(), F.p(), G.p(), o.p());
      VH_REQUIRE(o.b.intact(), "out-of-bounds-write", "N=%zu compute_matrix_B", N);
      return bytes(o.b.data(), o.b.data() + o.b.n);
    });
    arr<fft::cmplx> B(4 * N);
    falcon::compute_matrix_B<N>(f.p(), g.p(), F.p(), G.p(), B.p());
#ifndef VH_MINIMAL
    full_write("compute_gram_matrix", 4 * N * 16, [&](int fill) {
      arr<fft::cmplx> o(4 * N, fill);
      keygen::compute_gram_matrix<N>(B.p(), o.p());
      VH_REQUIRE(o.b.intact(), "out-of-bounds-write", "N=%zu compute_gram_matrix", N);
      return bytes(o.b.data(), o.b.data() + o.b.n);
    });
#endif
    full_write("compute_falcon_tree", N * (LG + 1) * 16, [&](int fill) {
      arr<fft::cmplx> o(N * (LG + 1), fill);
      falcon::compute_falcon_tree<N>(B.p(), o.p());
      VH_REQUIRE(o.b.intact(), "out-of-bounds-write", "N=%zu compute_falcon_tree", N);
      return bytes(o.b.data(), o.b.data() + o.b.n);
    });
#ifndef VH_MINIMAL
    full_write("compute_public_key", 2 * N, [&](int fill) {
      arr<ff::ff_t> o(N, fill);
      keygen::compute_public_key<N>(f.p(), g.p(), o.p());
      VH_REQUIRE(o.b.intact(), "out-of-bounds-write", "N=%zu compute_public_key", N);
      return bytes(o.b.data(), o.b.data() + o.b.n);
    });
#endif
    vh::distinct(vh::hash_bytes(b.f.data(), 8 * N));
  }

  static void codec(vh::case_t& c)
  {
    const size_t off = c.rng.below(4);
    arr<ff::ff_t> h(N);
    for (size_t i = 0; i < N; i++)
      h[i] = ff::ff_t{ static_cast<uint16_t>(c.rng.below(12289)) };
    full_write("encode_pkey", PK, [&](int fill) {
      obuf o(PK, off, fill);
      encoding::encode_pkey<N>(h.p(), o.data());
      VH_REQUIRE(o.intact() && h.b.intact(), "out-of-bounds-write", "N=%zu encode_pkey", N);
      return o.get();
    });
    arr<int32_t> f(N), g(N), F(N);
    const int32_t mx = N == 512 ? 31 : 15;
    for (size_t i = 0; i < N; i++) {
      f[i] = static_cast<int32_t>(c.rng.range(-mx, mx));
      g[i] = static_cast<int32_t>(c.rng.range(-mx, mx));
      F[i] = static_cast<int32_t>(c.rng.range(-127, 127));
    }
    full_write("encode_skey", ref::sk_len(N), [&](int fill) {
      obuf o(ref::sk_len(N), off, fill);
      encoding::encode_skey<N>(f.p(), g.p(), F.p(), o.data());
      VH_REQUIRE(o.intact() && f.b.intact() && g.b.intact() && F.b.intact(), "out-of-bounds-write", "N=%zu encode_skey", N);
      return o.get();
    });
    bytes pk = hostile_bytes(c.rng, PK), sk = hostile_bytes(c.rng, ref::sk_len(N));
    if (c.rng.below(4))
      pk[0] = LG;
    if (c.rng.below(4))
      sk[0] = 0x50 | LG;
    if (c.rng.below(2)) {
      pk = key(c.rng).pk;
      damage(c.rng, pk, c.rng.below(4) ? 1 : 0);
    }
    full_write("decode_pkey", 2 * N, [&](int fill) {
      obuf in(pk, off);
      arr<ff::ff_t> o(N, fill);
      decoding::decode_pkey<N>(in.data(), o.p());
      VH_REQUIRE(in.intact() && o.b.intact(), "out-of-bounds-write", "N=%zu decode_pkey", N);
      return bytes(o.b.data(), o.b.data() + o.b.n);
    });
    full_write("decode_skey", 12 * N, [&](int fill) {
      obuf in(sk, off);
      arr<int32_t> a(N, fill), b(N, fill), d(N, fill);
      decoding::decode_skey<N>(in.data(), a.p(), b.p(), d.p());
      VH_REQUIRE(in.intact() && a.b.intact() && b.b.intact() && d.b.intact(), "out-of-bounds-write", "N=%zu decode_skey", N);
      bytes r(a.b.data(), a.b.data() + 4 * N);
      r.insert(r.end(), b.b.data(), b.b.data() + 4 * N);
      r.insert(r.end(), d.b.data(), d.b.data() + 4 * N);
      return r;
    });
    bytes sig(SIG);
    const bytes b = body(c.rng, N, SIG - 41);
    std::copy(b.begin(), b.end(), sig.begin() + 41);
    sig[0] = static_cast<uint8_t>(c.rng.below(4) ? 0x30 | LG : c.rng.below(256));
    full_write("decompress_sig", 4 * N, [&](int fill) {
      obuf in(sig, off);
      arr<int32_t> o(N, fill);
      decoding::decompress_sig<N, SIG>(in.data(), o.p());
      VH_REQUIRE(in.intact() && o.b.intact(), "out-of-bounds-write", "N=%zu decompress_sig", N);
      return bytes(o.b.data(), o.b.data() + o.b.n);
    });
    {
      obuf in(sig, off);
      obuf salt(40, off, 7);
      arr<int32_t> o(N, 7);
      decoding::decode_sig<N>(in.data(), salt.data(), o.p());
      VH_REQUIRE(in.intact() && o.b.intact() && salt.intact(), "out-of-bounds-write", "N=%zu decode_sig", N);
    }
    // compress: short enough, on the edge, far too long, extreme
    arr<int32_t> s(N);
    const int mode = static_cast<int>(c.rng.below(4));
    const double w = mode == 0 ? 160 : mode == 1 ? 230 : mode == 2 ? 1e4 : 160;
    for (size_t i = 0; i < N; i++)
      s[i] = static_cast<int32_t>(std::lround(w * c.rng.gauss()));
    if (mode == 3)
      for (int k = 0; k < 3; k++) {
        static const int32_t E[] = { INT32_MIN, INT32_MAX, INT32_MIN + 1, 1 << 30, -(1 << 20), 65536, 12289, -6145, 2047, 1024 };
        s[c.rng.below(4) ? c.rng.below(N) : N - 1] = E[c.rng.below(10)];
      }
    bool ok[2] = {};
    bytes out[2];
    for (int k = 0; k < 2; k++) {
      obuf o(SIG, off, k ? 0xff : 0);
      ok[k] = encoding::compress_sig<N, SIG>(s.p(), o.data());
      VH_REQUIRE(o.intact() && s.b.intact(), "out-of-bounds-write", "N=%zu compress_sig", N);
      for (size_t i = 0; i < 41; i++)
        VH_REQUIRE(o.data()[i] == (k ? 0xff : 0), "out-of-bounds-write", "N=%zu compress_sig wrote byte %zu, before the body", N, i);
      out[k] = o.get();
    }
    VH_REQUIRE(ok[0] == ok[1], "output-not-written", "N=%zu compress_sig: success depends on what the buffer contained", N);
    if (ok[0])
      VH_REQUIRE(bytes(out[0].begin() + 41, out[0].end()) == bytes(out[1].begin() + 41, out[1].end()), "output-not-written", "N=%zu compress_sig leaves old contents in the body", N);
    n_codec.add(8);
    vh::distinct(vh::hash_bytes(s.p(), 4 * N));
  }

  static void hash(vh::case_t& c)
  {
    bytes salt(40), m = message(c.rng, msg_len(c.rng, 2000));
    c.rng.fill(salt.data(), 40);
    const size_t off = c.rng.below(4);
    full_write("hash_to_point", 2 * N, [&](int fill) {
      obuf s(salt, off), g(m, off ^ 1);
      arr<ff::ff_t> o(N, fill);
      hashing::hash_to_point<N>(s.data(), 40, g.data(), m.size(), o.p());
      VH_REQUIRE(s.intact() && g.intact() && o.b.intact(), "out-of-bounds-write", "N=%zu hash_to_point", N);
      return bytes(o.b.data(), o.b.data() + o.b.n);
    });
    n_hash++;
    vh::distinct(vh::hash_bytes(salt.data(), 40));
  }

  static void ntt_(vh::case_t& c)
  {
    auto poly = [&](arr<ff::ff_t>& a) {
      const int m = static_cast<int>(c.rng.below(3));
      for (size_t i = 0; i < N; i++)
        a[i] = ff::ff_t{ static_cast<uint16_t>(m == 0 ? 12288 : m == 1 ? c.rng.below(12289) : c.rng.below(2) * 12288) };
    };
    arr<ff::ff_t> a(N), b(N), o(N), x(N);
    poly(a);
    poly(b);
    std::copy(a.p(), a.p() + N, x.p());
    ntt::ntt<LG>(x.p());
    VH_REQUIRE(x.b.intact(), "out-of-bounds-write", "ntt");
    ntt::intt<LG>(x.p());
    VH_REQUIRE(x.b.intact(), "out-of-bounds-write", "intt");
    polynomial::mul<LG>(a.p(), b.p(), o.p());
    polynomial::div<LG>(a.p(), b.p(), o.p());
    polynomial::add_to<LG>(o.p(), a.p());
    polynomial::neg<LG>(o.p());
    VH_REQUIRE(o.b.intact() && a.b.intact() && b.b.intact(), "out-of-bounds-write", "polynomial operations over Z_q");
    n_tr.add(6);
    vh::eval();
  }

  // key generation: sound, with bursts of forced randomness
  static void keygen(vh::case_t& c)
  {
    const uint64_t es = c.rng.next();
    const bool two = c.idx == 0 && N == 512;
    bytes r[2];
    for (int k = 0; k < (two ? 2 : 1); k++) {
      vh::seed_entropy(es);
      obuf pk(PK, c.rng.below(4), k ? 0xff : 0), sk(ref::sk_len(N), c.rng.below(4), k ? 0xff : 0);
      falcon::keygen<N>(pk.data(), sk.data());
      VH_REQUIRE(pk.intact() && sk.intact(), "out-of-bounds-write", "N=%zu keygen", N);
      n_kg++;
      r[k] = pk.get();
      const bytes s = sk.get();
      r[k].insert(r[k].end(), s.begin(), s.end());
      vh::eval();
      vh::distinct(vh::hash_bytes(s.data(), s.size()));
    }
    if (two) {
      VH_REQUIRE(r[0] == r[1], "output-not-written", "N=%zu keygen: key bytes depend on what the buffers contained", N);
      n_full++;
    }
  }
  static void keygen_forced(vh::case_t& c)
  {
    forced_t src(c.rng.next(), 0, 200000 + c.rng.below(500000), c.rng.chance(0.3) ? 1.0 : 0.02 + 0.4 * c.rng.unit(), c.rng.below(4) ? 0 : 255);
    // cut short once the burst is over: that a full run is sound is seen above
    vhook::prng_budget = vhook::prng_bytes + 900000;
    arr<int32_t> f(N), g(N), F(N), G(N);
    try {
      with_source w(src);
      prng::prng_t rng;
      ntru_gen::ntru_gen<N>(f.p(), g.p(), F.p(), G.p(), rng);
    } catch (const vhook::budget_exceeded&) {
      vhook::prng_override = nullptr;
    }
    VH_REQUIRE(f.b.intact() && g.b.intact() && F.b.intact() && G.b.intact(), "out-of-bounds-write", "N=%zu ntru_gen", N);
    n_kg++;
    vh::eval();
  }
};

#define BOTH(name, q5, q10, t5, t10)                                                                                   \
  VH_SUITE(name##512, q5, t5) { S<512>::name(c); }                                                                     \
  VH_SUITE(name##1024, q10, t10) { S<1024>::name(c); }

#if defined(__clang__) || !defined(VH_ASAN) // GMP-heavy: one sanitizer build is enough
BOTH(keygen, 4, 1, 60, 16)
#endif
BOTH(keygen_forced, 4, 2, 100, 50)
BOTH(verify, 1500, 900, 60000, 40000)
BOTH(verify_h, 500, 300, 20000, 10000)
BOTH(sign, 200, 100, 1500, 800)
BOTH(sign_bad, 1000, 500, 8000, 4000)
BOTH(expand_bad, 100, 60, 3000, 2000)
BOTH(expand, 16, 8, 300, 200)
BOTH(codec, 800, 500, 40000, 30000)
BOTH(hash, 500, 300, 20000, 20000)
BOTH(ntt_, 200, 200, 5000, 5000)

// ------------------------------------------------- transforms of every length
template<size_t LG>
static void
ffts(vh::case_t& c)
{
  constexpr size_t n = 1ul << LG;
  arr<fft::cmplx> a(n), b(n), o(n), h0(n / 2), h1(n / 2);
  const double w = std::ldexp(1.0, static_cast<int>(c.rng.below(40)));
  for (size_t i = 0; i < n; i++) {
    a[i] = fft::cmplx{ w * c.rng.gauss(), 0 };
    b[i] = fft::cmplx{ c.rng.gauss(), 0 };
  }
  fft::fft<LG>(a.p());
  fft::fft<LG>(b.p());
  polynomial::add<LG>(a.p(), b.p(), o.p());
  polynomial::sub<LG>(a.p(), b.p(), o.p());
  polynomial::mul<LG>(a.p(), b.p(), o.p());
  polynomial::div<LG>(a.p(), b.p(), o.p());
  polynomial::add_to<LG>(o.p(), a.p());
#ifndef VH_MINIMAL
  fft::adj_poly<LG>(o.p());
#endif
  if constexpr (LG > 1) {
    fft::split_fft<LG>(a.p(), h0.p(), h1.p());
    fft::merge_fft<LG>(h0.p(), h1.p(), o.p());
  }
  fft::ifft<LG>(a.p());
  VH_REQUIRE(a.b.intact() && b.b.intact() && o.b.intact() && h0.b.intact() && h1.b.intact(), "out-of-bounds-write", "transforms of length %zu", n);
  n_tr.add(11);
  vh::eval();
}
VH_SUITE(transforms, 60, 2000)
{
  ffts<1>(c);
  ffts<2>(c);
  ffts<3>(c);
  ffts<4>(c);
  ffts<5>(c);
  ffts<6>(c);
  ffts<7>(c);
  ffts<8>(c);
  ffts<9>(c);
  ffts<10>(c);
}

// -------------------------------------------------------------------- sampler
VH_SUITE(sampler, 400, 20000)
{
  prng::prng_t rng;
  for (int i = 0; i < 60; i++) {
    const double smin = c.rng.below(2) ? samplerz::FALCON512_σ_min : samplerz::FALCON1024_σ_min;
    const double sp = c.rng.below(6) == 0 ? smin : c.rng.below(6) == 0 ? samplerz::σ_max : smin + (samplerz::σ_max - smin) * c.rng.unit();
    double mu = std::ldexp(c.rng.gauss(), static_cast<int>(c.rng.range(-60, 28)));
    if (c.rng.below(4) == 0)
      mu = std::round(mu) + 0.5 * static_cast<double>(c.rng.below(2));
    if (c.rng.below(8) == 0)
      mu = std::nextafter(std::round(mu), c.rng.below(2) ? 1e9 : -1e9);
    samplerz::samplerz(mu, sp, smin, rng);
    bytes t = hostile_bytes(c.rng, c.rng.below(60));
    obuf tape(t, c.rng.below(4));
    const auto r = samplerz::samplerz(mu, sp, smin, tape.data(), t.size());
    VH_REQUIRE(r.second <= t.size(), "out-of-bounds-read", "samplerz consumed %zu of %zu bytes", r.second, t.size());
    const double x = c.rng.below(8) == 0 ? 0 : std::ldexp(c.rng.unit(), static_cast<int>(c.rng.range(-60, 32)));
    const double ccs = c.rng.below(4) ? smin / sp : 1.0;
    samplerz::ber_exp(x, ccs, rng);
    if (!t.empty()) {
      const auto q = samplerz::ber_exp(x, ccs, tape.data(), t.size());
      VH_REQUIRE(q.second <= t.size(), "out-of-bounds-read", "ber_exp consumed %zu of %zu bytes", q.second, t.size());
    }
#ifndef VH_MINIMAL
    samplerz::approx_exp(samplerz::LN2 * c.rng.unit(), ccs);
#endif
    VH_REQUIRE(tape.intact(), "out-of-bounds-write", "samplerz");
#ifndef VH_MINIMAL
    std::array<uint8_t, 9> nine;
    const bytes hb = hostile_bytes(c.rng, 9);
    std::copy(hb.begin(), hb.end(), nine.begin());
    samplerz::base_sampler(std::move(nine));
#endif
    n_samp.add(6);
    vh::eval();
    vh::distinct(vh::hash_bytes(t.data(), t.size(), std::bit_cast<uint64_t>(mu)));
  }
}

// -------------------------------------------------------- big integer routines
template<size_t n>
static void
bigints(vh::case_t& c)
{
  auto make = [&](int bits) {
    std::array<mpz_class, n> a;
    for (auto& x : a) {
      x = static_cast<long>(c.rng.range(-30, 30));
      if (bits)
        for (int k = 0; k < bits; k += 32)
          x = (x << 32) + static_cast<unsigned long>(c.rng.below(1ull << 32));
    }
    return a;
  };
  const auto a = make(static_cast<int>(c.rng.below(3) * 200)), b = make(0);
  karatsuba::karamul(a, b);
#ifndef VH_MINIMAL
  if constexpr (n > 1) {
    ntru_gen::field_norm(a);
    ntru_gen::galois_conjugate(a);
  }
  if constexpr (n <= 512)
    ntru_gen::lift(a);
#endif
  std::array<mpz_class, n> f, g;
  for (size_t i = 0; i < n; i++) {
    f[i] = static_cast<long>(std::lround(4.05 * c.rng.gauss()));
    g[i] = static_cast<long>(std::lround(4.05 * c.rng.gauss()));
  }
  if (c.rng.below(6) == 0)
    g = f;
  if (n <= 64) {
    const auto r = ntru_gen::ntru_solve(f, g);
    n_solve.add(r.second.is_solution());
  }
  vh::eval();
}
VH_SUITE(bigint, 24, 600)
{
  bigints<1>(c);
  bigints<2>(c);
  bigints<4>(c);
  bigints<8>(c);
  bigints<16>(c);
  bigints<64>(c);
  if (c.idx % 4 == 0)
    bigints<512>(c);
}
VH_SUITE(xgcd, 300, 10000)
{
  mpz_class a = static_cast<long>(c.rng.range(-50, 50)), b = static_cast<long>(c.rng.range(-50, 50));
  for (uint64_t k = c.rng.below(8); k--;) {
    a = (a << 64) + static_cast<unsigned long>(c.rng.next());
    if (c.rng.below(2))
      b = (b << 64) + static_cast<unsigned long>(c.rng.next());
  }
#ifndef VH_MINIMAL
  ntru_gen::xgcd(a, b);
#endif
  vh::eval();
}
// field and 72-bit arithmetic: shifts and narrow types
VH_SUITE(scalars, 40, 400)
{
  for (int i = 0; i < 3000; i++) {
    const ff::ff_t x{ static_cast<uint16_t>(c.rng.next()) }, y{ static_cast<uint16_t>(c.rng.next()) };
    ff::ff_t z = x + y;
    z += x * y - (-x);
    z *= x;
    z = z / y + x.inv() + (x ^ static_cast<size_t>(c.rng.next() >> c.rng.below(64)));
    const size_t sh = c.rng.below(14);
    z = (z << sh) + (z >> sh);
    VH_REQUIRE(x.v < 12289 && (x * y).v < 12289, "not-canonical", "x=%u y=%u", x.v, y.v);
    const u72::u72_t a{ c.rng.next() & 0xff, c.rng.next() }, b{ c.rng.next() & 0xff, c.rng.next() };
    const auto s = a + b, d = a - b, m = -a;
    const bool lt = a < b, gt = a > b;
    VH_REQUIRE(!(lt && gt), "order", "u72");
    u72::u72_t::from_le_bytes(s.to_le_bytes());
    d.to_be_bytes();
    (void)m;
    vh::eval();
  }
}
VH_SUITE(hexutil, 100, 1000)
{
  const bytes b = hostile_bytes(c.rng, c.rng.below(100));
  obuf in(b, c.rng.below(4)), out(b.size(), c.rng.below(4), 1);
  const std::string s = to_hex(in.data(), b.size());
  to_byte_array(s, out.data());
  VH_REQUIRE(out.intact() && out.get() == b, "hex", "hexadecimal round trip of %zu bytes", b.size());
  vh::eval();
}
