// Generated keys judged by exact integer arithmetic, under natural and hostile
// generator output.
#include "steered.inc"
using namespace glue;

static vh::counter_t n_cand("candidates_led_to"), n_slot("candidates_vanishing_at_one_root"), n_over("candidates_just_over_a_norm_bound"), n_pub("public_keys_of_chosen_polynomials"), n_keys("keys"), n_enc("encoded_keys"), n_host("keys_under_hostile_randomness"), n_forced("forced_reads"), n_near("gs_norm_within_5_percent_of_bound"),
  n_reg("keys_from_recorded_unencodable_seeds"), n_lop("lopsided_candidates_led_to"), n_lopno("of_these_refused_for_the_size_of_F_or_no_solution");

template<size_t N>
struct K
{
  static constexpr int64_t M = N == 512 ? 31 : 15;

  static void basis(const ivec& f, const ivec& g, const ivec& F, const ivec& G)
  {
    for (size_t i = 0; i < N; i++) {
      VH_REQUIRE(std::abs(f[i]) <= M && std::abs(g[i]) <= M, "fg-too-large", "N=%zu coefficient %zu: f %ld g %ld (limit %ld)", N, i, f[i], g[i], M);
      VH_REQUIRE(std::abs(F[i]) <= 127, "F-too-large", "N=%zu coefficient %zu of F is %ld", N, i, F[i]);
      VH_REQUIRE(std::abs(G[i]) < (1 << 20), "G-too-large", "N=%zu coefficient %zu of G is %ld", N, i, G[i]);
    }
    VH_REQUIRE(ref::ntru_ok(f, g, F, G), "ntru-equation", "N=%zu fG - gF != q", N);
    VH_REQUIRE(ref::invertible_q(f), "f-not-invertible", "N=%zu", N);
    const long double gs = ref::gs_norm(f, g), lim = 1.17L * 1.17L * ref::Q;
    VH_REQUIRE(gs <= lim * (1 + 1e-9L), "gs-norm", "N=%zu squared Gram-Schmidt norm %.3Lf, bound %.3Lf", N, gs, lim);
    if (gs > 0.95L * lim)
      n_near++;
    n_keys++;
    vh::eval();
    vh::distinct(vh::hash_bytes(f.data(), 8 * N) ^ vh::hash_bytes(g.data(), 8 * N) * 7);
  }
  static void pub(const ivec& f, const ivec& g, const ivec& h)
  {
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(h[i] >= 0 && h[i] < ref::Q, "h-not-canonical", "N=%zu", N);
    const ivec hf = ref::mul_q(h, f);
    for (size_t i = 0; i < N; i++)
      VH_REQUIRE(hf[i] == ref::mod(g[i]), "public-key", "N=%zu h*f != g at %zu", N, i);
    vh::eval();
  }
  // solve for G exactly: G = (q + gF)/f over the reals, rounded, then checked
  static ivec G_of(const ivec& f, const ivec& g, const ivec& F)
  {
    auto ef = ref::eval_c(f), eg = ref::eval_c(g), eF = ref::eval_c(F);
    std::vector<ref::cld> q(N);
    for (size_t i = 0; i < N; i++)
      q[i] = (ref::cld(ref::Q) + eg[i] * eF[i]) / ef[i];
    const auto r = ref::interp_c(q);
    ivec G(N);
    for (size_t i = 0; i < N; i++)
      G[i] = std::fabs(r[i]) < 1e6L ? llroundl(r[i]) : 1 << 21;
    return G;
  }
  static void encoded()
  {
    vh::gbuf pk(ref::pk_len(N)), sk(ref::sk_len(N));
    falcon::keygen<N>(pk.data(), sk.data());
    VH_REQUIRE(pk.intact() && sk.intact(), "out-of-bounds-write", "N=%zu keygen", N);
    auto k = ref::dec_sk(N, sk.data());
    VH_REQUIRE(k.has_value(), "sk-header", "N=%zu", N);
    auto h = ref::dec_pk(N, pk.data());
    VH_REQUIRE(h.has_value(), "pk-malformed", "N=%zu", N);
    basis(k->f, k->g, k->F, G_of(k->f, k->g, k->F));
    pub(k->f, k->g, *h);
    std::vector<int32_t> f(N), g(N), F(N);
    VH_REQUIRE(decoding::decode_skey<N>(sk.data(), f.data(), g.data(), F.data()), "sk-refused", "N=%zu", N);
    VH_REQUIRE(ivec(f.begin(), f.end()) == k->f && ivec(g.begin(), g.end()) == k->g && ivec(F.begin(), F.end()) == k->F, "sk-decode", "N=%zu", N);
    n_enc++;
  }
  static void polys()
  {
    std::vector<int32_t> f(N, 77), g(N, 77), F(N, 77), G(N, 77);
    prng::prng_t rng;
    ntru_gen::ntru_gen<N>(f.data(), g.data(), F.data(), G.data(), rng);
    const ivec f_(f.begin(), f.end()), g_(g.begin(), g.end()), F_(F.begin(), F.end()), G_(G.begin(), G.end());
    basis(f_, g_, F_, G_);
#ifndef VH_MINIMAL
    std::vector<ff::ff_t> h(N);
    keygen::compute_public_key<N>(f.data(), g.data(), h.data());
    ivec hh(N);
    for (size_t i = 0; i < N; i++)
      hh[i] = h[i].v;
    pub(f_, g_, hh);
#endif
    // encode / decode of exactly this key
    vh::gbuf sk(ref::sk_len(N));
    encoding::encode_skey<N>(f.data(), g.data(), F.data(), sk.data());
    const auto k = ref::dec_sk(N, sk.data());
    VH_REQUIRE(k && k->f == f_ && k->g == g_ && k->F == F_, "sk-decode", "N=%zu encoded key decodes to another key", N);
  }
  static void prepared()
  {
    prep<N> p;
    std::vector<ff::ff_t> h(N);
    prng::prng_t rng;
    keygen::keygen<N>(p.B.get(), p.T.get(), h.data(), ref::sigma(N), rng);
    auto back = [&](size_t off, int s) {
      std::vector<fft::cmplx> v(p.B.get() + off * N, p.B.get() + (off + 1) * N);
      fft::ifft<prep<N>::LG>(v.data());
      ivec r(N);
      for (size_t i = 0; i < N; i++) {
        r[i] = s * llround(v[i].real());
        VH_REQUIRE(std::fabs(v[i].real() - static_cast<double>(s * r[i])) < 1e-6, "basis-not-integral", "N=%zu", N);
      }
      return r;
    };
    const ivec g = back(0, 1), f = back(1, -1), G = back(2, 1), F = back(3, -1);
    basis(f, g, F, G);
    ivec hh(N);
    for (size_t i = 0; i < N; i++)
      hh[i] = h[i].v;
    pub(f, g, hh);
  }
};

// many keys, one after the other, in one process
VH_SUITE(streak512, 1, 10)
{
  for (int i = 0; i < (vh::thorough ? 100 : 20); i++)
    if (i % 3 < 2)
      K<512>::encoded();
    else
      K<512>::polys();
}
VH_SUITE(encoded512, 20, 1500)
{
  K<512>::encoded();
  if (c.idx < 2)
    vh::sample("Falcon-512 key pair: equation, norm, ranges, encodings, public key exact");
}
VH_SUITE(encoded1024, 9, 400)
{
  K<1024>::encoded();
}
VH_SUITE(polys512, 10, 800)
{
  K<512>::polys();
}
VH_SUITE(polys1024, 4, 200)
{
  K<1024>::polys();
}
VH_SUITE(prepared512, 4, 200)
{
  K<512>::prepared();
}
VH_SUITE(prepared1024, 2, 60)
{
  K<1024>::prepared();
}

// Bursts of forced sampler output in the first candidates: single coefficients
// of f and g far outside the encodable range, with the norm kept in range.
struct burst_t : vhook::source_t
{
  vh::rng_t r;
  uint64_t until, seen = 0, forced = 0;
  int left = 0;
  double p, quiet;
  bool in_quiet = false;
  uint8_t sign = 0;
  burst_t(uint64_t s, uint64_t until, double p, double quiet)
    : r(s)
    , until(until)
    , p(p)
    , quiet(quiet)
  {
  }
  void fill(uint8_t* b, size_t n) override
  {
    r.fill(b, n);
    if (seen < until) {
      if (n >= 9) { // base sampler
        in_quiet = false;
        if (left == 0 && r.chance(p)) {
          left = static_cast<int>(r.range(1, 5));
          sign = static_cast<uint8_t>(r.below(2));
        }
        if (left > 0) {
          left--;
          memset(b, 0, n);
          // table value of z0 falls with the 72-bit little endian number: keep
          // only a few high bits to vary between the largest and medium values
          if (r.below(2))
            b[n - 2] = static_cast<uint8_t>(r.below(8));
          forced++;
          mode = 1;
        } else if (r.chance(quiet)) {
          memset(b, 0xff, n);
          mode = 2;
        } else {
          mode = 0;
        }
        first = true;
      } else if (mode == 1) {
        memset(b, first ? sign : 0, n);
        first = false;
      } else if (mode == 2) {
        memset(b, 0, n);
      }
    }
    seen += n;
  }
  int mode = 0;
  bool first = false;
};
template<size_t N>
static void
hostile(vh::case_t& c)
{
  burst_t src(c.rng.next(), c.rng.range(2000000, 12000000), std::exp(-c.rng.unit() * 3) / 2000., c.rng.below(3) ? 0.25 * c.rng.unit() : 0.);
  {
    with_source w(src);
    if (c.idx & 1)
      K<N>::encoded();
    else
      K<N>::polys();
  }
  n_forced.add(src.forced);
  n_host++;
}
VH_SUITE(hostile512, 20, 1500)
{
  hostile<512>(c);
}
VH_SUITE(hostile1024, 6, 200)
{
  hostile<1024>(c);
}

// Entropy recorded (tools/find_unencodable.cpp) to lead to a key whose F does
// not fit, were it not refused.
static std::vector<uint64_t>
recorded(size_t N)
{
  std::vector<uint64_t> v;
  if (FILE* f = fopen((std::string(DATA_DIR) + "/unencodable.txt").c_str(), "r")) {
    size_t n = 0;
    uint64_t s = 0;
    while (fscanf(f, "%zu %lu%*[^\n]", &n, &s) == 2)
      if (n == N)
        v.push_back(s);
    fclose(f);
  }
  return v;
}
template<size_t N>
static void
seeds(vh::case_t& c)
{
  static const auto v = recorded(N);
  if (v.empty())
    return;
  vh::seed_entropy(v[c.idx % v.size()]);
  if (c.rng.below(2))
    K<N>::encoded();
  else
    K<N>::polys();
  n_reg++;
}
VH_SUITE(seeds512, 4, 40)
{
  seeds<512>(c);
}
VH_SUITE(seeds1024, 2, 20)
{
  seeds<1024>(c);
}

// Candidates led to through the sampler. Whatever is accepted is judged.
template<size_t N>
static size_t
offer(vh::case_t& c, const std::vector<std::pair<ivec, ivec>>& cs)
{
  ivec o[4];
  size_t which = 0;
  n_cand.add(cs.size());
  if (steer::candidates<N>(c.rng.next(), cs, o, which)) {
    K<N>::basis(o[0], o[1], o[2], o[3]);
    return 1;
  }
  vh::eval(cs.size());
  return 0;
}
// f not invertible because of a single root, for every root in turn
template<size_t N>
static void
slots(vh::case_t& c)
{
  if (!steer::poly_obeys<N>()) {
    steered::n_off++;
    return;
  }
  std::vector<std::pair<ivec, ivec>> cs;
  size_t misses = 0;
  for (size_t j = 0; j < 32; j++) {
    const basis b = variant<N>(c.rng);
    ivec f = b.f, g = b.g;
    if (!steer::kill(f, (c.idx * 32 + j) % N, c.rng) || max_abs(f) > K<N>::M) {
      if (++misses < 4000)
        j--;
      continue;
    }
    // keep it within the norm bound, so that only its root speaks against it
    while (ref::sqnorm(f) + ref::sqnorm(g) > 16822) {
      auto& x = g[c.rng.below(N)];
      x -= (x > 0) - (x < 0);
    }
    n_slot++;
    cs.push_back({ f, g });
  }
  offer<N>(c, cs);
  vh::distinct(c.idx * 2 + (N == 1024));
}
VH_SUITE(slots512, 24, 800)
{
  slots<512>(c);
}
VH_SUITE(slots1024, 44, 800)
{
  slots<1024>(c);
}
// first or second Gram-Schmidt norm next to the bound, on either side
template<size_t N>
static void
bounds(vh::case_t& c)
{
  if (!steer::poly_obeys<N>()) {
    steered::n_off++;
    return;
  }
  constexpr double B = 1.17 * 1.17 * ref::Q;
  auto& r = c.rng;
  const bool second = c.idx % 2;
  basis b = variant<N>(r);
  ivec f = b.f, g = b.g;
  for (auto* a : { &f, &g })
    for (auto& x : *a)
      if (r.below(10) == 0)
        x += r.range(-1, 1);
  auto step = [&]() -> std::pair<int64_t*, int64_t> {
    for (;;) {
      auto& x = (r.below(2) ? f : g)[r.below(N)];
      const int64_t d = r.below(2) ? 1 : -1;
      if (std::abs(x + d) <= K<N>::M - 1)
        return { &x, d };
    }
  };
  if (!second) {
    const int64_t goal = 16823 + static_cast<int64_t>(r.below(3) ? 0 : r.below(20));
    int64_t n = ref::sqnorm(f) + ref::sqnorm(g);
    while (n != goal) {
      auto [x, d] = step();
      const int64_t m = n + 2 * *x * d + 1;
      if (std::abs(m - goal) < std::abs(n - goal) || r.below(20) == 0) {
        *x += d;
        n = m;
      }
    }
  } else {
    // |f|^2 + |g|^2 at the roots, updated per step
    auto ef = ref::eval_c(f), eg = ref::eval_c(g);
    std::vector<std::complex<double>> F(ef.begin(), ef.end()), G(eg.begin(), eg.end());
    auto norm = [&] {
      double s = 0;
      for (size_t i = 0; i < N; i++)
        s += 1 / (std::norm(F[i]) + std::norm(G[i]));
      return s / static_cast<double>(N) * ref::Q * ref::Q;
    };
    const double rel = std::pow(10., -2 - 3.5 * r.unit()), goal = B * (1 + rel);
    double cur = norm();
    ivec unit(N);
    for (int it = 0; it < 6000 && !(cur > B * (1 + rel / 2) && cur < B * (1 + rel * 2)); it++) {
      auto [x, d] = step();
      const bool inf = x >= f.data() && x < f.data() + N;
      const size_t pos = static_cast<size_t>(x - (inf ? f.data() : g.data()));
      // value of x^pos at each root, from the root's own value
      static thread_local std::vector<std::complex<double>> root;
      if (root.empty()) {
        ivec u(N);
        u[1] = 1;
        const auto e = ref::eval_c(u);
        for (auto z : e)
          root.push_back({ static_cast<double>(z.real()), static_cast<double>(z.imag()) });
      }
      auto& V = inf ? F : G;
      const auto keep = V;
      for (size_t i = 0; i < N; i++)
        V[i] += static_cast<double>(d) * std::polar(1., std::arg(root[i]) * static_cast<double>(pos));
      const double nw = norm();
      const int64_t n1 = ref::sqnorm(f) + ref::sqnorm(g) + 2 * *x * d + 1;
      if (std::abs(nw - goal) < std::abs(cur - goal) && n1 <= 16822) {
        *x += d;
        cur = nw;
      } else
        V = keep;
    }
    const long double gs = ref::gs_norm(f, g);
    if (!(gs > B * (1 + 1e-9)))
      return; // not found
  }
  if (!ref::invertible_q(f))
    return;
  int64_t pf = 0, pg = 0;
  for (size_t i = 0; i < N; i++) {
    pf += f[i];
    pg += g[i];
  }
  n_over++;
  const size_t got = offer<N>(c, { { f, g } });
  if (c.idx < 4)
    vh::sample("N=%zu candidate with squared norms %ld and %.7Lf of the bound: %s", N, static_cast<long>(ref::sqnorm(f) + ref::sqnorm(g)), ref::gs_norm(f, g) / B, got ? "accepted" : "discarded");
  vh::distinct(vh::hash_bytes(f.data(), 8 * N));
}
VH_SUITE(bounds512, 48, 2000)
{
  bounds<512>(c);
}
VH_SUITE(bounds1024, 24, 1000)
{
  bounds<1024>(c);
}
// coefficients out of range, pairs without a solution, and acceptable pairs at
// the edges
template<size_t N>
static void
misfits(vh::case_t& c)
{
  if (!steer::poly_obeys<N>()) {
    steered::n_off++;
    return;
  }
  auto& r = c.rng;
  std::vector<std::pair<ivec, ivec>> cs;
  for (int i = 0; i < 24; i++) {
    const basis b = variant<N>(r);
    ivec f = b.f, g = b.g;
    auto& a = r.below(2) ? f : g;
    const size_t at = r.below(3) ? r.below(N) : r.below(2) ? 0 : N - 1;
    a[at] = (r.below(2) ? 1 : -1) * (K<N>::M + 1 + (r.below(2) ? 0 : static_cast<int64_t>(r.below(6))));
    while (ref::sqnorm(f) + ref::sqnorm(g) > 16700) {
      auto& x = (r.below(2) ? f : g)[r.below(N)];
      if (std::abs(x) <= K<N>::M)
        x -= (x > 0) - (x < 0);
    }
    cs.push_back({ f, g });
  }
  offer<N>(c, cs);
  const auto& e = ref::edge(N)[c.idx % ref::edge(N).size()];
  VH_REQUIRE(ref::ntru_ok(e.f, e.g, e.F, e.G), "harness", "edge key");
  offer<N>(c, { { e.f, e.g } });
  vh::distinct(vh::hash_bytes(cs[0].first.data(), 8 * N));
}
VH_SUITE(misfits512, 8, 300)
{
  misfits<512>(c);
}
VH_SUITE(misfits1024, 6, 150)
{
  misfits<1024>(c);
}
// Nearly all of the norm in f (or in g): F (or G) is then large, and fits or
// misses the encoding's range by little. Such pairs are made by flattening the
// spectrum of |f|^2 + |g|^2 until the second norm is within the bound.
template<size_t N>
static void
lopsided(vh::case_t& c)
{
  if (!steer::poly_obeys<N>()) {
    steered::n_off++;
    return;
  }
  constexpr double B = 1.17 * 1.17 * ref::Q;
  auto& r = c.rng;
  static thread_local std::vector<std::complex<double>> root; // exp(i pi k/N)
  if (root.empty())
    for (size_t k = 0; k < 2 * N; k++)
      root.push_back(std::polar(1., M_PI * static_cast<double>(k) / N));
  constexpr size_t H = N / 2;
  for (int tries = 0; tries < 20; tries++) {
    const double share = 0.04 + 0.1 * r.unit();
    ivec f(N), g(N);
    for (auto& x : f)
      x = std::clamp<int64_t>(llround(r.gauss() * std::sqrt(16300 * (1 - share) / N)), -K<N>::M, K<N>::M);
    for (auto& x : g)
      x = std::clamp<int64_t>(llround(r.gauss() * std::sqrt(16300 * share / N)), -K<N>::M, K<N>::M);
    const auto ef = ref::eval_c(f), eg = ref::eval_c(g);
    // spectrum at the roots exp(i pi (2k+1)/N), k < N/2
    std::vector<std::complex<double>> X[2];
    X[0].resize(H);
    X[1].resize(H);
    for (int w = 0; w < 2; w++)
      for (size_t k = 0; k < H; k++) {
        std::complex<double> v = 0;
        const auto& a = w ? g : f;
        for (size_t i = 0; i < N; i++)
          v += static_cast<double>(a[i]) * root[(2 * k + 1) * i % (2 * N)];
        X[w][k] = v;
      }
    auto second = [&](const std::vector<std::complex<double>>& u, const std::vector<std::complex<double>>& v) {
      double s = 0;
      for (size_t k = 0; k < H; k++)
        s += 1 / (std::norm(u[k]) + std::norm(v[k]));
      return s / H * ref::Q * ref::Q;
    };
    double cur = second(X[0], X[1]), n1 = static_cast<double>(ref::sqnorm(f) + ref::sqnorm(g));
    std::vector<std::complex<double>> T(H);
    for (int it = 0; it < 12000 && cur > B * 0.995; it++) {
      const int w = r.below(4) == 0;
      auto& a = w ? g : f;
      const size_t i = r.below(N);
      const int64_t d = r.below(2) ? 1 : -1;
      const double m1 = n1 + static_cast<double>(2 * a[i] * d + 1);
      if (std::abs(a[i] + d) > K<N>::M || m1 > 16800)
        continue;
      for (size_t k = 0; k < H; k++)
        T[k] = X[w][k] + static_cast<double>(d) * root[(2 * k + 1) * i % (2 * N)];
      const double s = w ? second(X[0], T) : second(T, X[1]);
      if (s < cur) {
        X[w] = T;
        a[i] += d;
        cur = s;
        n1 = m1;
      }
    }
    if (c.idx % 4 == 3)
      std::swap(f, g);
    if (!ref::invertible_q(f) || ref::gs_norm(f, g) > B)
      continue;
    n_lop++;
    if (!offer<N>(c, { { f, g } }))
      n_lopno++;
    vh::distinct(vh::hash_bytes(f.data(), 8 * N));
    return;
  }
}
VH_SUITE(lopsided512, 120, 4000)
{
  lopsided<512>(c);
}
VH_SUITE(lopsided1024, 16, 400)
{
  lopsided<1024>(c);
}
// The public key of chosen polynomials: every coefficient value, every position.
template<size_t N>
static void
chosen(vh::case_t& c)
{
  auto& r = c.rng;
  ivec f(N), g(N);
  for (int i = 0; i < 10; i++) {
    const int64_t m = i % 3 == 2 ? 6143 : K<N>::M;
    auto draw = [&](ivec& a, unsigned kind) {
      for (auto& x : a)
        switch (kind) {
          case 0:
            x = r.range(-m, m);
            break;
          case 1:
            x = r.below(2) ? m : -m;
            break;
          case 2:
            x = r.below(40) ? 0 : r.range(-m, m);
            break;
          default:
            x = std::max<int64_t>(-m, std::min<int64_t>(m, llround(4 * std::sqrt(-2 * std::log(1 - r.unit())) * std::cos(2 * M_PI * r.unit()))));
        }
    };
    draw(g, static_cast<unsigned>(r.below(4)));
    do
      draw(f, static_cast<unsigned>(r.below(4)));
    while (!ref::invertible_q(f));
    const auto f_ = i32<N>(f), g_ = i32<N>(g);
#ifndef VH_MINIMAL
    std::vector<ff::ff_t> h(N);
    keygen::compute_public_key<N>(f_.data(), g_.data(), h.data());
    ivec hh(N);
    for (size_t j = 0; j < N; j++)
      hh[j] = h[j].v;
    K<N>::pub(f, g, hh);
    n_pub++;
#endif
    vh::distinct(vh::hash_bytes(f.data(), 8 * N) ^ 3 * vh::hash_bytes(g.data(), 8 * N));
  }
}
VH_SUITE(chosen512, 40, 4000)
{
  chosen<512>(c);
}
VH_SUITE(chosen1024, 30, 3000)
{
  chosen<1024>(c);
}
