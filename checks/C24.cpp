// Malformed secret keys: one-shot signing refuses them after bounded work, or
// what it emits verifies under g/f. Correct keys are never refused.
#include "glue.hpp"
using namespace glue;

static vh::counter_t n_good("correct_keys_signed_with"), n_ref("malformed_keys_refused"), n_ok("unusual_keys_signed_with_validly"), n_hdr("wrong_headers"), n_sing("keys_with_singular_f"), n_vals("coefficient_changes"),
  n_kg("fresh_library_keys"), n_draw("random_bytes_drawn"), n_ntru("malformed_keys_satisfying_the_ntru_equation"),
  n_near("short_bases_just_missing_the_ntru_equation"), n_far("of_which_too_long_to_encode");

template<size_t N>
struct M
{
  static constexpr int64_t W = N == 512 ? 31 : 15;
  // bytes drawn by one honest signing call of this process, the largest of a few
  static uint64_t typical()
  {
    static thread_local uint64_t t = 0;
    if (!t)
      for (int i = 0; i < 5; i++) {
        prng::prng_t rng;
        vh::gbuf m(size_t(3)), s(ref::sig_len(N));
        draw_t d;
        sign_prepared<N>(gold<N>(0), m, s, rng);
        t = std::max(t, d.bytes());
      }
    return t;
  }

  // Sign with the given bytes; judge what comes out.
  static bool run(const bytes& key, const bytes& m, const char* what, vh::rng_t& r)
  {
    vh::gbuf sk(key), msg(m), sig(ref::sig_len(N), static_cast<int>(r.below(256)));
    bool ok = false;
    {
      draw_t d(typical() * 25);
      try {
        ok = sign_oneshot<N>(sk, msg, sig);
      } catch (const vhook::budget_exceeded&) {
        vh::fail("unbounded", "N=%zu %s: signing consumed more than 25 times the random bytes of an ordinary signature (%lu) without returning; key %s..", N, what, static_cast<unsigned long>(typical()),
                 vh::hex(key.data(), 24).c_str());
      }
      n_draw.add(d.bytes());
    }
    VH_REQUIRE(sk.equals(key) && msg.equals(m), "input-modified", "N=%zu %s", N, what);
    vh::eval();
    vh::distinct(vh::hash_bytes(key.data(), key.size()));
    const auto d = ref::dec_sk(N, key.data());
    if (!ok) {
      n_ref++;
      return false;
    }
    VH_REQUIRE(d.has_value(), "accepted-header", "N=%zu %s: secret key with header %02x was signed with", N, what, key[0]);
    VH_REQUIRE(ref::invertible_q(d->f), "accepted-singular", "N=%zu %s: secret key whose f has no inverse modulo q (so that there is no public key) was signed with", N, what);
    const bytes pk = ref::enc_pk(ref::div_q(d->g, d->f));
    const auto v = ref::verify(N, pk.data(), msg.data(), msg.n, sig.data());
    VH_REQUIRE(v.ok, "bad-signature", "N=%zu %s: signing returned true but the signature does not verify under g/f: %s, norm %ld; key %s..", N, what, v.why, static_cast<long>(v.norm), vh::hex(key.data(), 24).c_str());
    n_ok++;
    return true;
  }
  static void good(const basis& b, const char* what, vh::rng_t& r)
  {
    const bytes key = ref::enc_sk(b.f, b.g, b.F);
    const auto before = n_ok.total();
    const bool ok = run(key, message(r, r.below(100)), what, r);
    (void)before;
    VH_REQUIRE(ok, "refused-valid", "N=%zu %s: a correct secret key was refused; key %s..", N, what, vh::hex(key.data(), 24).c_str());
    n_good++;
  }
  static ivec clampv(ivec a, int64_t m)
  {
    for (auto& x : a)
      x = std::clamp<int64_t>(x, -m - 1, m);
    return a;
  }
  static ivec mono(size_t i, int64_t v)
  {
    ivec a(N);
    a[i] = v;
    return a;
  }
  static ivec rnd(vh::rng_t& r, int64_t m)
  {
    ivec a(N);
    for (auto& x : a)
      x = r.range(-m - 1, m);
    return a;
  }
  static ivec sparse(vh::rng_t& r, size_t k, int64_t m)
  {
    ivec a(N);
    while (k--)
      a[r.below(N)] = r.range(-m - 1, m);
    return a;
  }
  static ivec neg(ivec a)
  {
    for (auto& x : a)
      x = -x;
    return a;
  }
  static void bad(vh::case_t& c)
  {
    vh::rng_t& r = c.rng;
    const basis b = variant<N>(r);
    const basis o = variant<N>(r);
    ivec f = b.f, g = b.g, F = b.F;
    const ivec zero(N);
    const char* what = "";
    switch (c.idx % 36) {
      case 0: f = zero; what = "f = 0"; break;
      case 1: g = zero; what = "g = 0"; break;
      case 2: F = zero; what = "F = 0"; break;
      case 3: f = g = F = zero; what = "all zero"; break;
      case 4: f = g = zero; what = "f = g = 0"; break;
      case 5: f = mono(r.below(N), r.below(2) ? 1 : -1); g = zero; F = r.below(2) ? zero : F; what = "f a monomial, g = 0"; break;
      case 6: f = mono(r.below(N), r.below(2) ? 1 : -1); F = zero; what = "f a monomial, F = 0 (a valid but long basis)"; break;
      case 7: f = mono(r.below(N), r.range(1, W)); g = mono(r.below(N), r.range(1, W)); F = zero; what = "f, g monomials"; break;
      case 8: std::swap(f, g); what = "f and g exchanged"; break;
      case 9: std::swap(f, g); F = clampv(neg(b.G), 127); what = "the basis with f and g exchanged"; break;
      case 10: f = o.f; what = "f of another key"; break;
      case 11: g = o.g; what = "g of another key"; break;
      case 12: F = o.F; what = "F of another key"; break;
      case 13: F[r.below(N)] += r.below(2) ? 1 : -1; what = "one coefficient of F off by one"; n_vals++; break;
      case 14: f[r.below(N)] += r.below(2) ? 1 : -1; f = clampv(f, W); what = "one coefficient of f off by one"; n_vals++; break;
      case 15: g[r.below(N)] += r.below(2) ? 1 : -1; g = clampv(g, W); what = "one coefficient of g off by one"; n_vals++; break;
      case 16: F = neg(F); what = "F negated"; break;
      case 17: f = neg(f); what = "f negated"; break;
      case 18: g = neg(g); what = "g negated"; break;
      case 19: f = neg(f); g = neg(g); what = "f and g negated"; break;
      case 20: f = neg(f); g = neg(g); F = neg(F); what = "everything negated"; break;
      case 21: F = rot(F, 1 + r.below(2 * N - 1)); what = "F rotated"; break;
      case 22: f = rot(f, 1 + r.below(2 * N - 1)); what = "f rotated"; break;
      case 23: F = clampv(b.G, 127); what = "G in place of F"; break;
      case 24: f = g; what = "f = g"; break;
      case 25: F = f; what = "F = f"; break;
      case 26: f = ivec(N, r.range(-W - 1, W)); what = "f constant"; break;
      case 27: g = ivec(N, r.range(-W - 1, W)); what = "g constant"; break;
      case 28: F = ivec(N, r.range(-128, 127)); what = "F constant"; break;
      case 29: f = rnd(r, W); g = rnd(r, W); F = rnd(r, 127); what = "random coefficients"; break;
      case 30: f = sparse(r, 1 + r.below(8), W); g = sparse(r, 1 + r.below(8), W); F = sparse(r, 1 + r.below(8), 127); what = "sparse polynomials"; break;
      case 31: f = ivec(N, -W - 1); g = ivec(N, -W - 1); F = ivec(N, -128); what = "all coefficients at the minimum"; break;
      case 32: { // a common factor 1 + x^(2^k): no solution F, G exists
        const size_t k = size_t(1) << r.below(N == 512 ? 9 : 10);
        f = sparse(r, 40, 3);
        g = sparse(r, 40, 3);
        const ivec a = rot(f, k), d = rot(g, k);
        for (size_t i = 0; i < N; i++) {
          f[i] += a[i];
          g[i] += d[i];
        }
        f = clampv(f, W);
        g = clampv(g, W);
        what = "f and g with a common factor";
        break;
      }
      case 33: { // f singular modulo q, by search
        for (int t = 0; t < 400 && ref::invertible_q(f); t++)
          f[r.below(N)] += r.below(2) ? 1 : -1, f = clampv(f, W);
        if (!ref::invertible_q(f))
          n_sing++;
        what = "f singular modulo q";
        break;
      }
      case 34: { // small f, g, but spread so that the basis is long
        for (auto& x : f)
          x /= 2;
        what = "f halved";
        break;
      }
      default: { // many coefficients of F off
        for (size_t i = 0; i < N; i++)
          F[i] = std::clamp<int64_t>(F[i] + r.range(-1, 1), -128, 127);
        what = "noise on F";
      }
    }
    const bool ok = run(ref::enc_sk(f, g, F), message(r, r.below(60)), what, r);
    if (c.idx < 36 && c.idx % 7 == 0)
      vh::sample("N=%zu: %s: %s", N, what, ok ? "signed, and the signature verifies under g/f" : "refused");
  }
  // bit flips, exchanged and cut bytes of a valid key; arbitrary strings
  static void damaged(vh::case_t& c)
  {
    vh::rng_t& r = c.rng;
    const basis b = variant<N>(r);
    bytes k = ref::enc_sk(b.f, b.g, b.F);
    const char* what = "one bit flipped";
    switch (c.idx % 6) {
      case 0:
      case 1:
        k[1 + r.below(k.size() - 1)] ^= static_cast<uint8_t>(1u << r.below(8));
        break;
      case 2: {
        const size_t a = 1 + r.below(k.size() - 1), n = 1 + r.below(std::min<size_t>(64, k.size() - a));
        memset(&k[a], r.below(2) ? 0 : 0xff, n);
        what = "some bytes cleared or set";
        break;
      }
      case 3:
        for (size_t i = 1 + r.below(k.size() - 1); i < k.size(); i++)
          k[i] = 0;
        what = "cut and zero-padded";
        break;
      case 4:
        r.fill(k.data() + 1, k.size() - 1);
        what = "arbitrary bytes";
        break;
      default: {
        const size_t s = 1 + r.below(k.size() - 2);
        std::rotate(k.begin() + 1, k.begin() + 1 + static_cast<long>(s), k.end());
        what = "bytes rotated";
      }
    }
    run(k, message(r, r.below(60)), what, r);
  }
  // every wrong header on correct keys
  static void headers(vh::case_t& c)
  {
    const basis b = variant<N>(c.rng);
    bytes k = ref::enc_sk(b.f, b.g, b.F);
    const uint8_t right = k[0];
    for (unsigned h = 0; h < 256; h++) {
      k[0] = static_cast<uint8_t>(h);
      const bool ok = run(k, message(c.rng, 5), "header changed", c.rng);
      VH_REQUIRE(ok == (h == right), h == right ? "refused-valid" : "accepted-header", "N=%zu header %02x", N, h);
      if (h != right)
        n_hdr++;
    }
  }
  // The basis with f and g exchanged satisfies the NTRU equation and is short;
  // when g has no inverse modulo q it is no key at all.
  static void singular(vh::case_t& c)
  {
    const auto& ks = ref::golden(N);
    static thread_local std::vector<size_t> idx;
    if (idx.empty())
      for (size_t i = 0; i < ks.size(); i++)
        if (!ref::invertible_q(ks[i].g) && max_abs(ks[i].G) <= 127)
          idx.push_back(i);
    if (idx.empty()) {
      fprintf(stderr, "no stored key with singular g\n");
      exit(3);
    }
    const auto& k = ks[idx[c.idx % idx.size()]];
    const size_t e = 2 * c.rng.below(N) + 1, i = c.rng.below(2 * N);
    const ivec f = rot(autom(k.g, e), i), g = rot(autom(k.f, e), i), F = rot(autom(neg(k.G), e), 2 * N - i), G = rot(autom(neg(k.F), e), 2 * N - i);
    VH_REQUIRE(ref::ntru_ok(f, g, F, G) && !ref::invertible_q(f), "harness", "bad construction");
    n_sing++;
    n_ntru++;
    run(ref::enc_sk(f, g, F), message(c.rng, 7), "short NTRU basis whose f is singular modulo q", c.rng);
  }
  // f*G - g*F = q + E for a chosen small E: F as short as that of a key, every
  // step of the expansion goes through as for a key, but it is none.
  static void missing(vh::case_t& c)
  {
    constexpr size_t LG = prep<N>::LG;
    vh::rng_t& r = c.rng;
    const auto& A = ref::near(N);
    const size_t k = r.below(A.size());
    const auto &P = A[k], &K = ref::golden(N)[k];
    ivec E(N);
    const char* what;
    const size_t i = c.idx % N, j = (i + 1 + r.below(N - 1)) % N;
    switch (c.idx / N % 6) {
      case 0: E[i] = r.below(2) ? 1 : -1; what = "NTRU equation missed by one in one coefficient"; break;
      case 1: E[i] = 1; E[j] = -1; what = "NTRU equation missed in two coefficients, with the right sum"; break;
      case 2: E[i] = r.below(2) ? ref::Q : -ref::Q; what = "NTRU equation holding modulo q only"; break;
      case 3: E[0] = -ref::Q - r.below(2) * ref::Q; what = "NTRU equation with 0 or -q instead of q"; break;
      case 4: for (size_t t = N / 2 + i / 2; t < N; t++) E[t] = r.range(-3, 3); what = "NTRU equation missed in upper coefficients"; break;
      default: E[i] = int64_t(1) << r.range(1, 20); what = "NTRU equation missed by a power of two in one coefficient";
    }
    if (k >= ref::golden(N).size() || P.f != K.f || P.g != K.g) {
      fprintf(stderr, "stored keys do not match\n");
      exit(3);
    }
    ivec F = K.F, G = K.G;
    const ivec u = ref::mul_z(E, P.F), v = ref::mul_z(E, P.G);
    for (size_t t = 0; t < N; t++) {
      F[t] += u[t];
      G[t] += v[t];
    }
    // make them short again: round off multiples of (f, g)
    auto tr = [](const ivec& a) {
      std::vector<fft::cmplx> x(a.begin(), a.end());
      fft::fft<LG>(x.data());
      return x;
    };
    const auto f = tr(K.f), g = tr(K.g);
    for (int it = 0; it < 3; it++) {
      auto a = tr(F), b = tr(G);
      for (size_t t = 0; t < N; t++)
        a[t] = (a[t] * std::conj(f[t]) + b[t] * std::conj(g[t])) / (std::norm(f[t]) + std::norm(g[t]));
      fft::ifft<LG>(a.data());
      ivec m(N);
      for (size_t t = 0; t < N; t++)
        m[t] = std::isfinite(a[t].real()) ? llround(a[t].real()) : 0;
      const ivec x = ref::mul_z(m, K.f), y = ref::mul_z(m, K.g);
      for (size_t t = 0; t < N; t++) {
        F[t] -= x[t];
        G[t] -= y[t];
      }
    }
    const ivec x = ref::mul_z(K.f, G), y = ref::mul_z(K.g, F);
    for (size_t t = 0; t < N; t++)
      VH_REQUIRE(x[t] - y[t] == (t == 0) * ref::Q + E[t], "harness", "bad construction");
    if (max_abs(F) > 127) {
      n_far++;
      return;
    }
    n_near++;
    run(ref::enc_sk(K.f, K.g, F), message(r, 7), what, r);
  }
};

VH_SUITE(missing512, 6 * 512, 100 * 512)
{
  M<512>::missing(c);
}
VH_SUITE(missing1024, 6 * 1024, 50 * 1024)
{
  M<1024>::missing(c);
}
// keys with much in common, one after the other, and one that mixes two of them
template<size_t N>
static void
related(vh::case_t& c)
{
  const auto ks = kin<N>(c.rng, c.rng.below(24));
  for (size_t i = 0; i < ks.size(); i++) {
    M<N>::good(ks[i], "key related to the one before", c.rng);
    if (c.rng.below(2)) {
      const auto& o = ks[c.rng.below(ks.size())];
      const unsigned w = 1 + static_cast<unsigned>(c.rng.below(6));
      M<N>::run(ref::enc_sk(w & 1 ? o.f : ks[i].f, w & 2 ? o.g : ks[i].g, w & 4 ? o.F : ks[i].F), message(c.rng, c.rng.below(60)), "parts of two related keys", c.rng);
    }
    if (c.rng.below(3) == 0)
      M<N>::good(ks[c.rng.below(i + 1)], "related key used before", c.rng);
  }
}
VH_SUITE(related512, 40, 1500)
{
  related<512>(c);
}
VH_SUITE(related1024, 20, 800)
{
  related<1024>(c);
}
VH_SUITE(good512, 700, 40000)
{
  M<512>::good(variant<512>(c.rng), "stored key or an image of one", c.rng);
}
VH_SUITE(good1024, 300, 20000)
{
  M<1024>::good(variant<1024>(c.rng), "stored key or an image of one", c.rng);
}
template<size_t N>
static void
fresh(vh::case_t& c)
{
  vh::gbuf pk(ref::pk_len(N)), sk(ref::sk_len(N));
  falcon::keygen<N>(pk.data(), sk.data());
  const bytes key(sk.data(), sk.data() + sk.n);
  for (int i = 0; i < 3; i++) {
    const bool ok = M<N>::run(key, message(c.rng, c.rng.below(60)), "fresh key", c.rng);
    VH_REQUIRE(ok, "refused-valid", "N=%zu: a key just generated was refused", N);
    n_good++;
  }
  n_kg++;
}
#if !defined(VH_ASAN) && !defined(VH_UBSAN)
VH_SUITE(fresh512, 16, 600)
{
  fresh<512>(c);
}
VH_SUITE(fresh1024, 3, 100)
{
  fresh<1024>(c);
}
#endif
VH_SUITE(bad512, 36 * 60, 36 * 3000)
{
  M<512>::bad(c);
}
VH_SUITE(bad1024, 36 * 30, 36 * 1500)
{
  M<1024>::bad(c);
}
VH_SUITE(damaged512, 1200, 100000)
{
  M<512>::damaged(c);
}
VH_SUITE(damaged1024, 600, 50000)
{
  M<1024>::damaged(c);
}
VH_SUITE(headers512, 4, 100)
{
  M<512>::headers(c);
}
VH_SUITE(headers1024, 4, 100)
{
  M<1024>::headers(c);
}
VH_SUITE(singular512, 40, 4000)
{
  M<512>::singular(c);
}
VH_SUITE(singular1024, 40, 4000)
{
  M<1024>::singular(c);
}
