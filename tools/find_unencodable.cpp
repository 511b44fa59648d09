// Searches entropy seeds for which the first otherwise acceptable key has an F
// that does not fit the secret key encoding. Output: data/unencodable<N>.txt.
#define VH_NO_MAIN
#include "glue.hpp"
template<size_t N>
void go(uint64_t from, uint64_t n)
{
  constexpr size_t LG = N == 512 ? 9 : 10;
  for (uint64_t s = from; s < from + n; s++) {
    vh::seed_entropy(s);
    prng::prng_t rng;
    std::vector<int32_t> f(N), g(N);
    while (true) {
      ntru_gen::gen_poly<LG>(f.data(), rng);
      ntru_gen::gen_poly<LG>(g.data(), rng);
      int mx = 0;
      for (size_t i = 0; i < N; i++)
        mx = std::max({ mx, std::abs(f[i]), std::abs(g[i]) });
      if (!ntru_gen::is_poly_invertible<LG>(f.data()) || ntru_gen::gram_schmidt_norm<LG>(f.data(), g.data()) > ntru_gen::GS_NORM_THRESHOLD)
        continue;
      std::array<mpz_class, N> a, b;
      for (size_t i = 0; i < N; i++)
        a[i] = f[i], b[i] = g[i];
      auto r = ntru_gen::ntru_solve(a, b);
      if (!r.second.is_solution())
        continue;
      long F = 0, G = 0;
      for (size_t i = 0; i < N; i++)
        F = std::max(F, std::abs(r.first.first[i].get_si())), G = std::max(G, std::abs(r.first.second[i].get_si()));
      if (F > 127 || mx > ref::fg_max(N))
        printf("%zu %lu maxfg=%d maxF=%ld maxG=%ld\n", N, s, mx, F, G), fflush(stdout);
      break;
    }
  }
  printf("done %zu %lu..%lu\n", N, from, from + n), fflush(stdout);
}
int main(int c, char** v)
{
  uint64_t from = strtoull(v[2], 0, 0), n = strtoull(v[3], 0, 0);
  if (atoi(v[1]) == 512) go<512>(from, n); else go<1024>(from, n);
}
