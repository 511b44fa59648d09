// Key expansion: recomputed G, basis in FFT form and sampling tree, against a
// long-double reference tree built in coefficient form.
#include "glue.hpp"
using namespace glue;

static vh::counter_t n_g("G_coefficients_recomputed"), n_b("basis_rows_compared"), n_node("inner_tree_nodes_compared"), n_leaf("leaves_compared"), n_fresh("keys_generated_here"),
  n_sk("trees_rebuilt_from_encoded_key"), n_gram("gram_entries_rebuilt_from_tree"), n_kin("related_keys_in_sequence");
static vh::acc_t a_err(3);
// observed: 4e-14 on leaves, 3e-13 on nodes; sigma is given to 12 digits
constexpr ref::ld TOL = 5e-11L;

template<size_t N>
struct X
{
  static constexpr size_t LG = N == 512 ? 9 : 10;

  template<size_t LOGN>
  static ref::rvec coef(const fft::cmplx* p)
  {
    constexpr size_t n = size_t(1) << LOGN;
    fft::cmplx t[n];
    memcpy(t, p, sizeof t);
    fft::ifft<LOGN>(t);
    ref::rvec r(n);
    for (size_t i = 0; i < n; i++)
      r[i] = t[i].real();
    return r;
  }
  template<size_t L>
  static void node(const ref::tree* t, const fft::cmplx* T, size_t i, double sig, const char* what)
  {
    if constexpr (L == LG) {
      const ref::ld want = sig / std::sqrt(t->d), got = T[LG * N + i].real();
      VH_REQUIRE(std::isfinite(got), "tree-leaf", "N=%zu %s: leaf %zu is not finite", N, what, i);
      const ref::ld e = std::fabs(got - want) / want;
      a_err[0] = std::max(a_err[0], static_cast<double>(e));
      VH_REQUIRE(e < TOL, "tree-leaf", "N=%zu %s: leaf %zu is %.12Lg, reference %.12Lg", N, what, i, got, want);
      VH_REQUIRE(std::fabs(T[LG * N + i].imag()) < 1e-7, "tree-leaf", "N=%zu %s: leaf %zu has imaginary part %g", N, what, i, T[LG * N + i].imag());
      if (sig == ref::sigma(N))
        VH_REQUIRE(got >= ref::sigma_min(N) - 1e-7 && got <= ref::sigma_max + 1e-7, "leaf-range", "N=%zu %s: leaf %zu is %.12Lg, outside [sigma_min, sigma_max]", N, what, i, got);
      n_leaf++;
    } else {
      const auto c = coef<LG - L>(T + L * N + i * (N >> L));
      ref::ld nrm = 1e-9L, err = 0;
      for (size_t j = 0; j < c.size(); j++) {
        nrm += t->l[j] * t->l[j];
        err += (c[j] - t->l[j]) * (c[j] - t->l[j]);
      }
      const ref::ld e = std::sqrt(err / std::max(nrm, ref::ld(1)));
      a_err[1] = std::max(a_err[1], static_cast<double>(e));
      VH_REQUIRE(e < TOL, "tree-node", "N=%zu %s: node %zu of level %zu differs from the reference by %.3Lg (relative)", N, what, i, L, e);
      n_node++;
      node<L + 1>(t->left, T, 2 * i, sig, what);
      node<L + 1>(t->right, T, 2 * i + 1, sig, what);
    }
  }
  static void row(const fft::cmplx* B, const ivec& p, int sgn, const char* what)
  {
    const auto c = coef<LG>(B);
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(std::fabs(c[i] - static_cast<ref::ld>(sgn * p[i])) < 1e-8L, "basis", "N=%zu: %s coefficient %zu is %.12Lg, not %ld", N, what, i, c[i], static_cast<long>(sgn * p[i]));
    n_b++;
  }
  static void basis_ok(const basis& b, const fft::cmplx* B)
  {
    row(B, b.g, 1, "B[0][0]=g");
    row(B + N, b.f, -1, "B[0][1]=-f");
    row(B + 2 * N, b.G, 1, "B[1][0]=G");
    row(B + 3 * N, b.F, -1, "B[1][1]=-F");
  }
  static void tree_ok(const basis& b, const fft::cmplx* T, double sig, const char* what)
  {
    std::unique_ptr<ref::tree> t(ref::key_tree(b.f, b.g, b.F, b.G));
    node<0>(t.get(), T, 0, sig, what);
    vh::eval();
  }
  // Rebuild the Gram matrix from the root of the tree and the leaf volumes.
  static void gram_ok(const basis& b, const fft::cmplx* T)
  {
    // the product of all leaves is sigma^2N / sqrt(det) with det = q^2N
    ref::ld s = 0;
    for (size_t i = 0; i < N; i++)
      s += std::log(static_cast<ref::ld>(ref::sigma(N))) - std::log(static_cast<ref::ld>(T[LG * N + i].real()));
    // sum log d_i / 2 where prod d_i = q^N (each leaf stands for two samplings)
    const ref::ld want = static_cast<ref::ld>(N) / 2 * std::log(ref::ld(ref::Q));
    VH_REQUIRE(std::fabs(s - want) < 1e-6L, "gram-determinant", "N=%zu: log-volume of the leaves is %.12Lg, must be %.12Lg", N, s, want);
    // L D L* at the root: l * g00 = g10
    const auto l = coef<LG>(T);
    const auto g00 = [&] {
      auto x = ref::mul_r(ref::to_r(b.g), ref::adj(ref::to_r(b.g))), y = ref::mul_r(ref::to_r(b.f), ref::adj(ref::to_r(b.f)));
      for (size_t i = 0; i < N; i++)
        x[i] += y[i];
      return x;
    }();
    const auto g10 = [&] {
      auto x = ref::mul_r(ref::to_r(b.G), ref::adj(ref::to_r(b.g))), y = ref::mul_r(ref::to_r(b.F), ref::adj(ref::to_r(b.f)));
      for (size_t i = 0; i < N; i++)
        x[i] += y[i];
      return x;
    }();
    const auto p = ref::mul_r(l, g00);
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(std::fabs(p[i] - g10[i]) < 1e-3L, "gram-root", "N=%zu: root node does not reproduce Gram entry at %zu: %.9Lg vs %.9Lg", N, i, p[i], g10[i]);
    n_gram.add(N);
  }
  static void G_ok(const basis& b)
  {
    const auto f = i32<N>(b.f), g = i32<N>(b.g), F = i32<N>(b.F);
    std::vector<int32_t> G(N, 0x5a5a5a5a);
    falcon::recompute_G<N>(f.data(), g.data(), F.data(), G.data());
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(G[i] == b.G[i], "recomputed-G", "N=%zu: recomputed G[%zu] is %d, must be %ld", N, i, G[i], static_cast<long>(b.G[i]));
    n_g.add(N);
  }
  static void distinct(const basis& b)
  {
    vh::distinct(vh::hash_bytes(b.f.data(), N * 8, vh::hash_bytes(b.F.data(), N * 8)));
  }
  static void key(vh::case_t& c)
  {
    basis b;
    if (const auto& ks = ref::golden(N); c.idx < ks.size())
      b = { ks[c.idx].f, ks[c.idx].g, ks[c.idx].F, ks[c.idx].G };
    else
      b = variant<N>(c.rng);
    G_ok(b);
    const auto p = prepare<N>(b.f, b.g, b.F, b.G);
    basis_ok(b, p->B.get());
    tree_ok(b, p->T.get(), ref::sigma(N), "rebuilt");
    gram_ok(b, p->T.get());
    distinct(b);
    if (c.idx < 2)
      vh::sample("N=%zu key %lu: leaf 0 = %.9f, leaf %zu = %.9f", N, c.idx, p->T[LG * N].real(), N - 1, p->T[LG * N + N - 1].real());
  }
  // correct keys with much in common, one after the other and again
  static void related(vh::case_t& c)
  {
    const auto ks = kin<N>(c.rng, c.idx);
    std::vector<size_t> order;
    for (size_t i = 0; i < ks.size(); i++) {
      order.push_back(i);
      if (c.rng.below(3) == 0)
        order.push_back(c.rng.below(i + 1));
    }
    for (auto i : order) {
      const basis& b = ks[i];
      G_ok(b);
      const auto p = prepare<N>(b.f, b.g, b.F, b.G);
      basis_ok(b, p->B.get());
      tree_ok(b, p->T.get(), ref::sigma(N), "key related to the one before");
      distinct(b);
      n_kin++;
    }
  }
  static void fresh(vh::case_t& c)
  {
    prep<N> p;
    std::vector<ff::ff_t> h(N);
    prng::prng_t rng;
    const double sig = c.idx & 1 ? ref::sigma(N) * (0.7 + 0.6 * c.rng.unit()) : ref::sigma(N);
    keygen::keygen<N>(p.B.get(), p.T.get(), h.data(), sig, rng);
    n_fresh++;
    basis b;
    ivec* dst[4] = { &b.g, &b.f, &b.G, &b.F };
    for (int i = 0; i < 4; i++) {
      const auto r = coef<LG>(p.B.get() + i * N);
      for (auto x : r) {
        VH_REQUIRE(std::fabs(x - std::round(x)) < 1e-8L && std::fabs(x) < 1e6L, "basis", "N=%zu: generated basis entry %d is not an integer polynomial", N, i);
        dst[i]->push_back((i & 1 ? -1 : 1) * static_cast<int64_t>(std::llround(x)));
      }
    }
    VH_REQUIRE(ref::ntru_ok(b.f, b.g, b.F, b.G), "basis", "N=%zu: generated matrix does not satisfy the NTRU equation", N);
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(h[i].v < 12289, "public-key", "N=%zu", N);
    const ivec hf = ref::mul_q(ivec([&] {
                                 ivec v;
                                 for (auto x : h)
                                   v.push_back(x.v);
                                 return v;
                               }()),
                               b.f);
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(hf[i] == ref::mod(b.g[i]), "public-key", "N=%zu: h*f != g at %zu", N, i);
    tree_ok(b, p.T.get(), sig, "generated");
    // through the encoded key
    vh::gbuf sk(ref::sk_len(N));
    const auto f = i32<N>(b.f), g = i32<N>(b.g), F = i32<N>(b.F);
    encoding::encode_skey<N>(f.data(), g.data(), F.data(), sk.data());
    std::vector<int32_t> f2(N), g2(N), F2(N), G2(N);
    VH_REQUIRE(decoding::decode_skey<N>(sk.data(), f2.data(), g2.data(), F2.data()), "generated-key-refused", "N=%zu", N);
    falcon::recompute_G<N>(f2.data(), g2.data(), F2.data(), G2.data());
    const basis b2{ ivec(f2.begin(), f2.end()), ivec(g2.begin(), g2.end()), ivec(F2.begin(), F2.end()), ivec(G2.begin(), G2.end()) };
    VH_REQUIRE(b2.G == b.G, "recomputed-G", "N=%zu: G recomputed from the encoded key differs", N);
    const auto q = prepare<N>(b2.f, b2.g, b2.F, b2.G);
    for (size_t i = 0; i < 4 * N; i++)
      VH_REQUIRE(std::abs(q->B[i] - p.B[i]) < 1e-7, "rebuilt-basis", "N=%zu: entry %zu differs", N, i);
    const double k = sig / ref::sigma(N);
    for (size_t i = 0; i < N * (LG + 1); i++)
      VH_REQUIRE(std::abs(q->T[i] * (i < LG * N ? 1. : k) - p.T[i]) < 1e-9 * (1 + std::abs(p.T[i])), "rebuilt-tree",
                 "N=%zu: entry %zu of the tree rebuilt from the encoded key is (%.9g,%.9g), generated (%.9g,%.9g)", N, i, q->T[i].real(), q->T[i].imag(), p.T[i].real(), p.T[i].imag());
    n_sk++;
    distinct(b);
  }
};
VH_SUITE(fresh512, 10, 200) { X<512>::fresh(c); }
VH_SUITE(fresh1024, 4, 50) { X<1024>::fresh(c); }
VH_SUITE(related512, 16, 400) { X<512>::related(c); }
VH_SUITE(related1024, 8, 200) { X<1024>::related(c); }
VH_SUITE(key512, 300, 10000) { X<512>::key(c); }
VH_SUITE(key1024, 150, 5000) { X<1024>::key(c); }
