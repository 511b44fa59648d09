#pragma once
// Independent references. Nothing here includes or imitates the code under
// test: definitions follow the Falcon specification and plain mathematics.
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace ref {

using bytes = std::vector<uint8_t>;
using ivec = std::vector<int64_t>;
using ld = long double;
using cld = std::complex<long double>;

constexpr int64_t Q = 12289;

inline int64_t
beta2(size_t N)
{
  return N == 512 ? 34034726 : 70265242;
}
inline size_t
sig_len(size_t N)
{
  return N == 512 ? 666 : 1280;
}
inline size_t
pk_len(size_t N)
{
  return N == 512 ? 897 : 1793;
}
inline size_t
sk_len(size_t N)
{
  return N == 512 ? 1281 : 2305;
}
inline int
fg_bits(size_t N)
{
  return N == 512 ? 6 : 5;
}
inline int
fg_max(size_t N)
{
  return N == 512 ? 31 : 15;
}
inline uint8_t
logn(size_t N)
{
  return N == 512 ? 9 : 10;
}
inline double
sigma(size_t N)
{
  return N == 512 ? 165.736617183 : 168.388571447;
}
inline double
sigma_min(size_t N)
{
  return N == 512 ? 1.277833697 : 1.298280334;
}
constexpr double sigma_max = 1.8205;

// ------------------------------------------------------------------- SHAKE256
// FIPS 202, lane array A[x][y], round constants from the LFSR definition.
class keccak
{
  uint64_t A[5][5]{};
  uint64_t RC[24];
  int off[5][5];
  static uint64_t rol(uint64_t v, int r) { return r ? (v << r) | (v >> (64 - r)) : v; }

public:
  keccak()
  {
    auto lfsr = [](int t) {
      unsigned R = 1;
      for (int i = 0; i < t % 255; i++) {
        R <<= 1;
        if (R & 0x100)
          R ^= 0x171;
      }
      return R & 1;
    };
    for (int r = 0; r < 24; r++) {
      RC[r] = 0;
      for (int j = 0; j <= 6; j++)
        if (lfsr(j + 7 * r))
          RC[r] |= 1ull << ((1 << j) - 1);
    }
    off[0][0] = 0;
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) {
      off[x][y] = ((t + 1) * (t + 2) / 2) % 64;
      const int nx = y, ny = (2 * x + 3 * y) % 5;
      x = nx;
      y = ny;
    }
  }
  void permute()
  {
    for (int r = 0; r < 24; r++) {
      uint64_t Cc[5], B[5][5];
      for (int x = 0; x < 5; x++)
        Cc[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++)
          A[x][y] ^= Cc[(x + 4) % 5] ^ rol(Cc[(x + 1) % 5], 1);
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++)
          B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], off[x][y]);
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++)
          A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
      A[0][0] ^= RC[r];
    }
  }
  void xor_byte(size_t i, uint8_t b) { A[(i / 8) % 5][(i / 8) / 5] ^= uint64_t(b) << (8 * (i % 8)); }
  uint8_t get_byte(size_t i) const { return uint8_t(A[(i / 8) % 5][(i / 8) / 5] >> (8 * (i % 8))); }
};

class shake256
{
  keccak k;
  size_t p = 0;

public:
  shake256& absorb(const void* d, size_t n)
  {
    auto* b = static_cast<const uint8_t*>(d);
    for (size_t i = 0; i < n; i++) {
      k.xor_byte(p++, b[i]);
      if (p == 136) {
        k.permute();
        p = 0;
      }
    }
    return *this;
  }
  shake256& done()
  {
    k.xor_byte(p, 0x1f);
    k.xor_byte(135, 0x80);
    k.permute();
    p = 0;
    return *this;
  }
  uint8_t next()
  {
    if (p == 136) {
      k.permute();
      p = 0;
    }
    return k.get_byte(p++);
  }
  bytes read(size_t n)
  {
    bytes r(n);
    for (auto& b : r)
      b = next();
    return r;
  }
};

// Algorithm 3.
inline ivec
hash_to_point(size_t N, const uint8_t* salt, const void* msg, size_t mlen)
{
  shake256 s;
  s.absorb(salt, 40).absorb(msg, mlen).done();
  ivec c;
  while (c.size() < N) {
    const int64_t hi = s.next();
    const int64_t t = hi * 256 + s.next();
    if (t < 5 * Q)
      c.push_back(t % Q);
  }
  return c;
}

// -------------------------------------------------------------------- mod q
inline int64_t
mod(int64_t a, int64_t m = Q)
{
  a %= m;
  return a < 0 ? a + m : a;
}
inline int64_t
centre(int64_t a)
{
  a = mod(a);
  return a > (Q - 1) / 2 ? a - Q : a;
}
inline int64_t
powmod(int64_t b, uint64_t e)
{
  int64_t r = 1;
  b = mod(b);
  for (; e; e >>= 1, b = b * b % Q)
    if (e & 1)
      r = r * b % Q;
  return r;
}

// a*b mod (x^N+1, q), schoolbook.
inline ivec
mul_q(const ivec& a, const ivec& b)
{
  const size_t N = a.size();
  std::vector<int32_t> x(N), y2(2 * N); // y2 = (b, -b) reversed trick avoided: plain
  for (size_t i = 0; i < N; i++)
    x[i] = static_cast<int32_t>(mod(a[i]));
  for (size_t i = 0; i < N; i++) {
    y2[N + i] = static_cast<int32_t>(mod(b[i]));
    y2[i] = static_cast<int32_t>(mod(-b[i]));
  }
  // c[k] = sum_i a[i] * (k>=i ? b[k-i] : -b[N+k-i]) = sum_i a[i]*y2[N+k-i]
  ivec c(N, 0);
  std::vector<int64_t> acc(N, 0);
  for (size_t i = 0; i < N; i++) {
    const int64_t ai = x[i];
    if (!ai)
      continue;
    const int32_t* y = &y2[N - i];
    for (size_t k = 0; k < N; k++)
      acc[k] += ai * y[k];
  }
  for (size_t k = 0; k < N; k++)
    c[k] = acc[k] % Q;
  return c;
}

// exact integer product mod x^N+1 (small entries: |a|,|b| < 2^20)
inline ivec
mul_z(const ivec& a, const ivec& b)
{
  const size_t N = a.size();
  std::vector<int64_t> y2(2 * N), acc(N, 0);
  for (size_t i = 0; i < N; i++) {
    y2[N + i] = b[i];
    y2[i] = -b[i];
  }
  for (size_t i = 0; i < N; i++) {
    const int64_t ai = a[i];
    if (!ai)
      continue;
    const int64_t* y = &y2[N - i];
    for (size_t k = 0; k < N; k++)
      acc[k] += ai * y[k];
  }
  return acc;
}

// Values of a at all N roots of x^N+1 over Z_q: at psi^(2i+1), i=0..N-1, psi a
// primitive 2N-th root found by search. Textbook recursive evaluation.
inline int64_t
psi(size_t N)
{
  static int64_t memo[4097]; // plain arrays: MSan cannot follow libstdc++'s trees
  if (memo[N])
    return memo[N];
  for (int64_t g = 2;; g++) {
    const int64_t r = powmod(g, (Q - 1) / (2 * N));
    if (powmod(r, N) == Q - 1)
      return memo[N] = r;
  }
}
inline ivec
dft_q(const ivec& a, int64_t w) // values at w^i, i < n
{
  const size_t n = a.size();
  if (n == 1)
    return a;
  ivec e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++) {
    e[i] = a[2 * i];
    o[i] = a[2 * i + 1];
  }
  const int64_t w2 = w * w % Q;
  e = dft_q(e, w2);
  o = dft_q(o, w2);
  ivec r(n);
  int64_t p = 1;
  for (size_t i = 0; i < n / 2; i++, p = p * w % Q) {
    r[i] = (e[i] + p * o[i]) % Q;
    r[i + n / 2] = mod(e[i] - p * o[i]);
  }
  return r;
}
inline ivec
eval_q(const ivec& a) // values at psi^(2i+1)
{
  const size_t N = a.size();
  const int64_t ps = psi(N);
  ivec b(N);
  int64_t p = 1;
  for (size_t i = 0; i < N; i++, p = p * ps % Q)
    b[i] = mod(a[i]) * p % Q;
  return dft_q(b, ps * ps % Q);
}
inline ivec
interp_q(const ivec& v)
{
  const size_t N = v.size();
  const int64_t ps = psi(N), ips = powmod(ps, Q - 2), in = powmod(static_cast<int64_t>(N), Q - 2);
  ivec b = dft_q(v, ips * ips % Q);
  int64_t p = in;
  for (size_t i = 0; i < N; i++, p = p * ips % Q)
    b[i] = b[i] * p % Q;
  return b;
}
inline bool
invertible_q(const ivec& f)
{
  for (int64_t v : eval_q(f))
    if (v == 0)
      return false;
  return true;
}
inline ivec
div_q(const ivec& g, const ivec& f) // g/f; f must be invertible
{
  ivec a = eval_q(g), b = eval_q(f);
  for (size_t i = 0; i < a.size(); i++)
    a[i] = a[i] * powmod(b[i], Q - 2) % Q;
  return interp_q(a);
}

// ------------------------------------------------------------------ encodings
// Fields of `width` bits each, least significant bit first.
inline void
pack_lsb(bytes& out, const ivec& v, int width)
{
  uint64_t acc = 0;
  int nb = 0;
  for (int64_t x : v) {
    acc |= (static_cast<uint64_t>(x) & ((1ull << width) - 1)) << nb;
    nb += width;
    while (nb >= 8) {
      out.push_back(static_cast<uint8_t>(acc));
      acc >>= 8;
      nb -= 8;
    }
  }
}
inline ivec
unpack_lsb(const uint8_t* p, size_t count, int width, bool sgn)
{
  ivec r(count);
  for (size_t i = 0; i < count; i++) {
    int64_t x = 0;
    for (int b = 0; b < width; b++) {
      const size_t at = i * width + b;
      x |= static_cast<int64_t>((p[at / 8] >> (at % 8)) & 1) << b;
    }
    if (sgn && (x >> (width - 1)))
      x -= int64_t(1) << width;
    r[i] = x;
  }
  return r;
}
inline bytes
enc_pk(const ivec& h)
{
  bytes r{ logn(h.size()) };
  pack_lsb(r, h, 14);
  return r;
}
inline std::optional<ivec>
dec_pk(size_t N, const uint8_t* p)
{
  if (p[0] != logn(N))
    return {};
  ivec h = unpack_lsb(p + 1, N, 14, false);
  for (int64_t x : h)
    if (x >= Q)
      return {};
  return h;
}
inline bytes
enc_sk(const ivec& f, const ivec& g, const ivec& F)
{
  const size_t N = f.size();
  bytes r{ static_cast<uint8_t>(0x50 | logn(N)) };
  pack_lsb(r, f, fg_bits(N));
  pack_lsb(r, g, fg_bits(N));
  pack_lsb(r, F, 8);
  return r;
}
struct sk_t
{
  ivec f, g, F;
};
inline std::optional<sk_t>
dec_sk(size_t N, const uint8_t* p)
{
  if (p[0] != (0x50 | logn(N)))
    return {};
  const size_t w = N * fg_bits(N) / 8;
  return sk_t{ unpack_lsb(p + 1, N, fg_bits(N), true), unpack_lsb(p + 1 + w, N, fg_bits(N), true), unpack_lsb(p + 1 + 2 * w, N, 8, true) };
}

// Compressed body as a string of bits (most significant bit of each byte
// first). Empty optional: too long.
inline size_t
comp_bits(const ivec& s)
{
  size_t n = 0;
  for (int64_t x : s)
    n += 9 + static_cast<size_t>((x < 0 ? -x : x) >> 7);
  return n;
}
inline std::optional<bytes>
compress(const ivec& s, size_t body)
{
  if (comp_bits(s) > 8 * body)
    return {};
  std::vector<bool> b;
  for (int64_t x : s) {
    const int64_t m = x < 0 ? -x : x;
    b.push_back(x < 0);
    for (int i = 6; i >= 0; i--)
      b.push_back((m >> i) & 1);
    for (int64_t i = 0; i < (m >> 7); i++)
      b.push_back(false);
    b.push_back(true);
  }
  bytes r(body, 0);
  for (size_t i = 0; i < b.size(); i++)
    if (b[i])
      r[i / 8] |= static_cast<uint8_t>(0x80 >> (i % 8));
  return r;
}
inline std::optional<ivec>
decompress(size_t N, const uint8_t* p, size_t body)
{
  size_t at = 0;
  const size_t end = body * 8;
  auto bit = [&](size_t i) { return (p[i / 8] >> (7 - i % 8)) & 1; };
  ivec s;
  while (s.size() < N) {
    if (at + 8 > end)
      return {};
    const bool neg = bit(at++);
    int64_t m = 0;
    for (int i = 0; i < 7; i++)
      m = 2 * m + bit(at++);
    while (true) {
      if (at >= end)
        return {};
      if (bit(at++))
        break;
      m += 128;
    }
    if (neg && m == 0)
      return {};
    s.push_back(neg ? -m : m);
  }
  for (; at < end; at++)
    if (bit(at))
      return {};
  return s;
}

// ---------------------------------------------------------------- verification
struct verdict
{
  bool ok = false;
  const char* why = "";
  ivec s1, s2;
  int64_t norm = -1;
};
inline int64_t
sqnorm(const ivec& a)
{
  __int128 t = 0;
  for (int64_t x : a)
    t += static_cast<__int128>(x) * x;
  return t > (static_cast<__int128>(1) << 62) ? int64_t(1) << 62 : static_cast<int64_t>(t);
}
inline verdict
verify(size_t N, const uint8_t* pk, const void* msg, size_t mlen, const uint8_t* sig)
{
  verdict v;
  auto h = dec_pk(N, pk);
  if (!h) {
    v.why = "public key";
    return v;
  }
  if (sig[0] != (0x30 | logn(N))) {
    v.why = "header";
    return v;
  }
  auto s2 = decompress(N, sig + 41, sig_len(N) - 41);
  if (!s2) {
    v.why = "body";
    return v;
  }
  const ivec c = hash_to_point(N, sig + 1, msg, mlen);
  const ivec sh = mul_q(*s2, *h);
  v.s2 = *s2;
  v.s1.resize(N);
  for (size_t i = 0; i < N; i++)
    v.s1[i] = centre(c[i] - sh[i]);
  v.norm = sqnorm(v.s1) + sqnorm(v.s2);
  v.ok = v.norm <= beta2(N);
  v.why = v.ok ? "short" : "long";
  return v;
}

// --------------------------------------------------------- complex evaluation
// Values of a real polynomial at exp(i*pi*(2k+1)/N), k = 0..N-1.
inline void
dft_c(std::vector<cld>& a, const std::vector<cld>& root, size_t stride)
{
  const size_t n = a.size();
  if (n == 1)
    return;
  std::vector<cld> e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++) {
    e[i] = a[2 * i];
    o[i] = a[2 * i + 1];
  }
  dft_c(e, root, 2 * stride);
  dft_c(o, root, 2 * stride);
  for (size_t i = 0; i < n / 2; i++) {
    const cld t = root[i * stride] * o[i];
    a[i] = e[i] + t;
    a[i + n / 2] = e[i] - t;
  }
}
inline const std::vector<cld>&
roots2n(size_t N) // exp(i*pi*j/N), j < 2N
{
  static std::vector<cld> memo[4097];
  auto& r = memo[N];
  if (r.empty()) {
    const ld pi = acosl(-1.0L);
    for (size_t j = 0; j < 2 * N; j++)
      r.push_back({ cosl(pi * static_cast<ld>(j) / static_cast<ld>(N)), sinl(pi * static_cast<ld>(j) / static_cast<ld>(N)) });
  }
  return r;
}
template<typename T>
inline std::vector<cld>
eval_c(const std::vector<T>& a)
{
  const size_t N = a.size();
  const auto& w = roots2n(N);
  std::vector<cld> b(N), r;
  for (size_t i = 0; i < N; i++)
    b[i] = static_cast<ld>(a[i]) * w[i];
  for (size_t j = 0; j < N; j++)
    r.push_back(w[2 * j]);
  dft_c(b, r, 1);
  return b;
}
inline std::vector<ld>
interp_c(const std::vector<cld>& v)
{
  const size_t N = v.size();
  const auto& w = roots2n(N);
  std::vector<cld> b(v), r;
  for (size_t j = 0; j < N; j++)
    r.push_back(std::conj(w[2 * j]));
  dft_c(b, r, 1);
  std::vector<ld> a(N);
  for (size_t i = 0; i < N; i++)
    a[i] = (b[i] * std::conj(w[i])).real() / static_cast<ld>(N);
  return a;
}
using rvec = std::vector<ld>;
inline rvec
mul_r(const rvec& a, const rvec& b)
{
  auto x = eval_c(a), y = eval_c(b);
  for (size_t i = 0; i < x.size(); i++)
    x[i] *= y[i];
  return interp_c(x);
}
template<typename T>
inline rvec
to_r(const std::vector<T>& a)
{
  return rvec(a.begin(), a.end());
}

// max(||(g,-f)||^2, ||GS of the second block||^2)
inline ld
gs_norm(const ivec& f, const ivec& g)
{
  const size_t N = f.size();
  const ld a = static_cast<ld>(sqnorm(f) + sqnorm(g));
  auto x = eval_c(f), y = eval_c(g);
  ld b = 0;
  for (size_t i = 0; i < N; i++) {
    const ld d = std::norm(x[i]) + std::norm(y[i]);
    b += 1 / d; // (|f|^2+|g|^2)/d^2
  }
  b = b / static_cast<ld>(N) * Q * Q;
  return std::max(a, b);
}

// The (un-normalised) LDL* tree over coefficient-form polynomials: node l, and
// children built from the two diagonal entries. Leaves hold d.
struct tree
{
  rvec l;           // coefficient form, size n (inner)
  ld d = 0;         // leaf value
  tree *left = nullptr, *right = nullptr;
  ~tree()
  {
    delete left;
    delete right;
  }
};
// Gram matrix [[a, *],[b, a']] with a, a2 self-adjoint, given by evaluations.
inline tree*
ldl_node(const rvec& g00, const rvec& g10, const rvec& g11);
inline tree*
ldl_split(const rvec& d) // child for a diagonal entry d (size n); self-adjoint,
                         // so at n == 2 it is a constant: a leaf
{
  const size_t n = d.size();
  if (n == 2) {
    auto* t = new tree;
    t->d = d[0];
    return t;
  }
  // quasi-circulant: d = e(x^2) + x o(x^2); Gram [[e, o],[o*, e]] (g10 = o*)
  rvec e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++) {
    e[i] = d[2 * i];
    o[i] = d[2 * i + 1];
  }
  rvec oa(n / 2); // adjoint of o: o(1/x) = o[0] - sum o[i] x^(n-i)
  oa[0] = o[0];
  for (size_t i = 1; i < n / 2; i++)
    oa[i] = -o[n / 2 - i];
  return ldl_node(e, oa, e);
}
inline tree*
ldl_node(const rvec& g00, const rvec& g10, const rvec& g11)
{
  auto a = eval_c(g00), b = eval_c(g10), c = eval_c(g11);
  auto l = b, d11 = c;
  for (size_t i = 0; i < a.size(); i++) {
    l[i] = b[i] / a[i];
    d11[i] = c[i] - std::norm(l[i]) * a[i];
  }
  auto* t = new tree;
  t->l = interp_c(l);
  t->left = ldl_split(g00);
  t->right = ldl_split(interp_c(d11));
  return t;
}
inline rvec
adj(const rvec& a)
{
  rvec r(a.size());
  r[0] = a[0];
  for (size_t i = 1; i < a.size(); i++)
    r[i] = -a[a.size() - i];
  return r;
}
// Tree of B = [[g,-f],[G,-F]].
inline tree*
key_tree(const ivec& f, const ivec& g, const ivec& F, const ivec& G)
{
  auto ef = eval_c(f), eg = eval_c(g), eF = eval_c(F), eG = eval_c(G);
  const size_t N = f.size();
  std::vector<cld> a(N), b(N), c(N);
  for (size_t i = 0; i < N; i++) {
    a[i] = std::norm(eg[i]) + std::norm(ef[i]);
    b[i] = eG[i] * std::conj(eg[i]) + eF[i] * std::conj(ef[i]); // row 1 . row 0*
    c[i] = std::norm(eG[i]) + std::norm(eF[i]);
  }
  return ldl_node(interp_c(a), interp_c(b), interp_c(c));
}

inline bool
ntru_ok(const ivec& f, const ivec& g, const ivec& F, const ivec& G)
{
  const ivec a = mul_z(f, G), b = mul_z(g, F);
  for (size_t i = 0; i < f.size(); i++)
    if (a[i] - b[i] != (i == 0 ? Q : 0))
      return false;
  return true;
}

// ------------------------------------------------------------- golden keys
// Keys committed under data/ (made by tools/make_keys.cpp): each record is
// f, g (int8), F, G (int16).
struct key
{
  ivec f, g, F, G, h;
  bytes pk, sk;
};
inline std::string data_dir = DATA_DIR;
inline std::vector<key>
read_keys(size_t N, const char* name)
{
  std::vector<key> ks;
  const std::string path = data_dir + "/" + name + std::to_string(N) + ".bin";
  FILE* fp = fopen(path.c_str(), "rb");
  if (!fp) {
    perror(path.c_str());
    exit(3);
  }
  std::vector<int16_t> buf(4 * N);
  while (fread(buf.data(), 2, 4 * N, fp) == 4 * N) {
    key k;
    auto part = [&](size_t i) { return ivec(buf.begin() + static_cast<long>(i * N), buf.begin() + static_cast<long>((i + 1) * N)); };
    k.f = part(0);
    k.g = part(1);
    k.F = part(2);
    k.G = part(3);
    k.h = div_q(k.g, k.f);
    k.pk = enc_pk(k.h);
    k.sk = enc_sk(k.f, k.g, k.F);
    ks.push_back(std::move(k));
  }
  fclose(fp);
  if (ks.empty())
    exit(3);
  return ks;
}
inline const std::vector<key>&
golden(size_t N)
{
  if (N == 512) {
    static const auto a = read_keys(512, "keys");
    return a;
  }
  static const auto b = read_keys(1024, "keys");
  return b;
}
// Not keys: the f, g of the first stored keys with short F, G such that
// f*G - g*F = 1 (tools/make_near_keys.cpp).
inline const std::vector<key>&
near(size_t N)
{
  if (N == 512) {
    static const auto a = read_keys(512, "near");
    return a;
  }
  static const auto b = read_keys(1024, "near");
  return b;
}
// Keys at the edges of what key generation accepts (tools/make_edge_keys.cpp):
// coefficients of f, g at +-31 (15), first or second norm just within the bound.
inline const std::vector<key>&
edge(size_t N)
{
  if (N == 512) {
    static const auto a = read_keys(512, "edge");
    return a;
  }
  static const auto b = read_keys(1024, "edge");
  return b;
}

}
