// Generates data/edge{512,1024}.bin: key pairs at the edges of what key
// generation accepts. Every record is checked against the independent reference.
// Usage: make_edge_keys N OUT SEED KINDS(e.g. 1234567) SECONDS
#define VH_NO_MAIN
#include "vh.hpp"
#include "ref.hpp"
#include "falcon.hpp"
using ref::ivec;
template<size_t N> struct E {
  static constexpr int M = N == 512 ? 31 : 15;
  static constexpr double B = 1.17 * 1.17 * 12289;
  static double gs2(const ivec& f, const ivec& g) { auto x = ref::eval_c(f), y = ref::eval_c(g); long double b = 0; for (size_t i = 0; i < N; i++) b += 1 / (std::norm(x[i]) + std::norm(y[i])); return b / N * 12289 * 12289; }
  static int64_t n1(const ivec& f, const ivec& g) { return ref::sqnorm(f) + ref::sqnorm(g); }
  static void rnd(ivec& a, double s, vh::rng_t& r) { for (auto& x : a) x = std::max<int64_t>(-M, std::min<int64_t>(M, llround(s * std::sqrt(-2 * std::log(1 - r.unit())) * std::cos(2 * M_PI * r.unit())))); }
  static bool make(int kind, vh::rng_t& r, ivec& f, ivec& g) {
    f.assign(N, 0); g.assign(N, 0);
    double s = std::sqrt((kind >= 7 ? 16600. : 16400.) / (2 * N));
    rnd(f, s, r); rnd(g, s, r);
    if (kind >= 1 && kind <= 4) (kind < 3 ? f : g)[r.below(N)] = kind & 1 ? M : -M;
    if (kind == 5) { while (n1(f, g) != 16822) { auto& a = r.below(2) ? f : g; auto& x = a[r.below(N)]; int64_t d = r.below(2) ? 1 : -1, o = n1(f, g), nx = x + d; if (std::abs(nx) > M) continue; int64_t w = o - x * x + nx * nx; if (std::abs(w - 16822) < std::abs(o - 16822) || r.below(10) == 0) x = nx; } }
    if (kind == 6) { // hill climb on the second norm
      double cur = gs2(f, g); const double goal = B * (1 - 2e-7);
      for (int it = 0; it < 20000 && !(cur <= goal && cur > B * (1 - 1e-6)); it++) {
        auto& a = r.below(2) ? f : g; auto& x = a[r.below(N)]; int64_t d = r.below(2) ? 1 : -1; if (std::abs(x + d) > M) continue; x += d;
        double c = gs2(f, g); if (n1(f, g) <= 16822 && (std::abs(c - goal) < std::abs(cur - goal))) cur = c; else x -= d; }
      if (!(cur <= goal && cur > B * (1 - 1e-6))) return false;
    }
    int64_t pf = 0, pg = 0; for (size_t j = 0; j < N; j++) pf += f[j], pg += g[j];
    if (!((pf | pg) & 1)) return false;
    return n1(f, g) <= 16822 && gs2(f, g) <= B * (1 - 1e-8) && ref::invertible_q(f);
  }
  static void go(FILE* fp, uint64_t seed, const char* kinds, double secs) {
    vh::rng_t r(seed);
    for (const char* k = kinds; *k; k++) {
      const double t0 = time(0);
      int tries = 0;
      for (;;) {
        if (time(0) - t0 > secs) { fprintf(stderr, "N=%zu kind %c: gave up after %d\n", N, *k, tries); break; }
        ivec f, g; if (!make(*k - '0', r, f, g)) continue;
        tries++;
        std::array<mpz_class, N> a, b; for (size_t i = 0; i < N; i++) a[i] = f[i], b[i] = g[i];
        auto s = ntru_gen::ntru_solve(a, b); if (!s.second.is_solution()) continue;
        ivec F(N), G(N); int64_t mx = 0; for (size_t i = 0; i < N; i++) { F[i] = s.first.first[i].get_si(); G[i] = s.first.second[i].get_si(); mx = std::max(mx, std::abs(F[i])); }
        if (mx > 127) continue;
        if (*k == '7' && mx != 127) continue;
        if (*k == '8' && *std::max_element(F.begin(), F.end()) != 127) continue;
        if (*k == '9' && *std::min_element(F.begin(), F.end()) != -127) continue;
        if (!ref::ntru_ok(f, g, F, G)) { fprintf(stderr, "bad\n"); exit(1); }
        fprintf(stderr, "N=%zu kind %c: norm %ld gs2/B %.9f max|F| %ld after %d\n", N, *k, n1(f, g), gs2(f, g) / B, mx, tries);
        for (auto* v : { &f, &g, &F, &G }) for (int64_t x : *v) { int16_t t = (int16_t)x; fwrite(&t, 2, 1, fp); }
        fflush(fp); break;
      }
    }
  }
};
int main(int, char** v) { vhook::prng_budget = ~0ull; static vh::slab_t sl; vh::me = &sl; FILE* fp = fopen(v[2], "ab"); if (atoi(v[1]) == 512) E<512>::go(fp, atol(v[3]), v[4], atof(v[5])); else E<1024>::go(fp, atol(v[3]), v[4], atof(v[5])); }
