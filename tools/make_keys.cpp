// Generates data/keys{512,1024}.bin with the (repaired) library; every record
// is checked against the independent reference before it is written.
#define VH_NO_MAIN
#include "vh.hpp"
#include "ref.hpp"
#include "falcon.hpp"
template<size_t N> void gen(int count, const char* path)
{
  FILE* fp = fopen(path, "wb");
  for (int k = 0; k < count;) {
    vh::seed_entropy(0xfa1c0 + N * 1000 + k);
    static int32_t f[N], g[N], F[N], G[N];
    prng::prng_t rng;
    ntru_gen::ntru_gen<N>(f, g, F, G, rng);
    ref::ivec a(f, f + N), b(g, g + N), c(F, F + N), d(G, G + N);
    if (!ref::ntru_ok(a, b, c, d) || !ref::invertible_q(a)) { fprintf(stderr, "bad key\n"); exit(1); }
    for (auto* v : { &a, &b, &c, &d })
      for (int64_t x : *v) { int16_t t = (int16_t)x; fwrite(&t, 2, 1, fp); }
    k++;
  }
  fclose(fp);
}
int main() { vhook::prng_budget = ~0ull; static vh::slab_t sl; vh::me = &sl; gen<512>(24, DATA_DIR "/keys512.bin"); gen<1024>(24, DATA_DIR "/keys1024.bin"); }
