// Generates data/near{512,1024}.bin: for the first stored keys, short F1, G1
// with f*G1 - g*F1 = 1 (not q). Adding multiples of (F1, G1) to (F, G) gives
// short polynomials that miss the NTRU equation in chosen coefficients.
// Built against a copy of ntru_gen.hpp in which the solver's q is replaced:
//   mkdir x && cp /repo/include/*.hpp x && sed -i 's/-q \* ret\[1\]/-ret[1]/; s/(q \* ret\[0\])/(ret[0])/' x/ntru_gen.hpp
//   g++ -w -O3 -std=c++20 -Ix -Ilib -Ilib/sha3 -DDATA_DIR='"data"' tools/make_near_keys.cpp -lgmpxx -lgmp
// Usage: make_near_keys N OUT
#define VH_NO_MAIN
#include "vh.hpp"
#include "ref.hpp"
#include "falcon.hpp"
using ref::ivec;
template<size_t N>
static void
go(FILE* fp)
{
  for (size_t k = 0; k < 6; k++) {
    const auto& K = ref::golden(N)[k];
    std::array<mpz_class, N> a, b;
    for (size_t i = 0; i < N; i++)
      a[i] = K.f[i], b[i] = K.g[i];
    const auto s = ntru_gen::ntru_solve(a, b);
    if (!s.second.is_solution())
      exit(1);
    ivec F(N), G(N);
    int64_t mx = 0;
    for (size_t i = 0; i < N; i++) {
      F[i] = s.first.first[i].get_si();
      G[i] = s.first.second[i].get_si();
      mx = std::max({ mx, std::abs(F[i]), std::abs(G[i]) });
    }
    const ivec x = ref::mul_z(K.f, G), y = ref::mul_z(K.g, F);
    for (size_t i = 0; i < N; i++)
      if (x[i] - y[i] != (i == 0)) {
        fprintf(stderr, "wrong at %zu: %ld\n", i, (long)(x[i] - y[i]));
        exit(1);
      }
    fprintf(stderr, "N=%zu key %zu: max %ld\n", N, k, (long)mx);
    for (auto* v : { &K.f, &K.g, (const ivec*)&F, (const ivec*)&G })
      for (int64_t t : *v) {
        const int16_t w = (int16_t)t;
        fwrite(&w, 2, 1, fp);
      }
  }
}
int
main(int, char** v)
{
  vhook::prng_budget = ~0ull;
  static vh::slab_t sl;
  vh::me = &sl;
  FILE* fp = fopen(v[2], "wb");
  atoi(v[1]) == 512 ? go<512>(fp) : go<1024>(fp);
  fclose(fp);
}
