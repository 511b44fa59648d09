#pragma once
// Stand-in for the (empty, unfetchable) git submodule `sha3`: the SHAKE256 XOF
// with the interface /repo uses (FIPS 202; validated against hashlib in setup).
//
// It doubles as an observation point: every byte the library's PRNG hands out
// passes through here, so a monitor can count, record, budget or replace the
// randomness without touching /repo (see `vhook`).
#include <algorithm>
#include <array>
#include <bit>
#include <cstddef>
#include <cstdint>
#include <cstring>

namespace vhook {

// What a monitor may attach to the PRNG of the *current thread*.
struct source_t
{
  // Called instead of squeezing; must fill `len` bytes.
  virtual void fill(uint8_t* bytes, size_t len) = 0;
  virtual ~source_t() = default;
};

struct budget_exceeded
{
  uint64_t bytes;
};

inline thread_local source_t* prng_override = nullptr; // scripted randomness
inline thread_local uint64_t prng_bytes = 0;           // bytes handed out
inline thread_local uint64_t prng_reads = 0;           // read() calls seen
inline thread_local uint64_t prng_seeds = 0;           // hash() calls seen
inline thread_local uint64_t prng_budget = ~0ull;      // logical step bound
inline thread_local void (*on_seed)(const uint8_t*, size_t) = nullptr;
inline thread_local void (*on_read)(const uint8_t*, size_t) = nullptr;

}

namespace shake256 {

constexpr size_t rate = 1088; // bits

namespace detail {

inline constexpr uint64_t RC[24]{
  0x0000000000000001ul, 0x0000000000008082ul, 0x800000000000808aul,
  0x8000000080008000ul, 0x000000000000808bul, 0x0000000080000001ul,
  0x8000000080008081ul, 0x8000000000008009ul, 0x000000000000008aul,
  0x0000000000000088ul, 0x0000000080008009ul, 0x000000008000000aul,
  0x000000008000808bul, 0x800000000000008bul, 0x8000000000008089ul,
  0x8000000000008003ul, 0x8000000000008002ul, 0x8000000000000080ul,
  0x000000000000800aul, 0x800000008000000aul, 0x8000000080008081ul,
  0x8000000000008080ul, 0x0000000080000001ul, 0x8000000080008008ul
};
inline constexpr int ROT[24]{ 1,  3,  6,  10, 15, 21, 28, 36, 45, 55, 2,  14,
                              27, 41, 56, 8,  25, 43, 62, 18, 39, 61, 20, 44 };
inline constexpr int PIL[24]{ 10, 7,  11, 17, 18, 3, 5,  16, 8,  21, 24, 4,
                              15, 23, 19, 13, 12, 2, 20, 14, 22, 9,  6,  1 };

inline void
keccakf(uint64_t* const s)
{
  for (int r = 0; r < 24; r++) {
    uint64_t bc[5];
    for (int i = 0; i < 5; i++)
      bc[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
    for (int i = 0; i < 5; i++) {
      const uint64_t t = bc[(i + 4) % 5] ^ std::rotl(bc[(i + 1) % 5], 1);
      for (int j = 0; j < 25; j += 5)
        s[j + i] ^= t;
    }
    uint64_t t = s[1];
    for (int i = 0; i < 24; i++) {
      const int j = PIL[i];
      const uint64_t b = s[j];
      s[j] = std::rotl(t, ROT[i]);
      t = b;
    }
    for (int j = 0; j < 25; j += 5) {
      for (int i = 0; i < 5; i++)
        bc[i] = s[j + i];
      for (int i = 0; i < 5; i++)
        s[j + i] ^= (~bc[(i + 1) % 5]) & bc[(i + 2) % 5];
    }
    s[0] ^= RC[r];
  }
}

struct sponge_t
{
  uint64_t st[25]{};
  size_t pos = 0;

  void absorb(const uint8_t* msg, size_t len)
  {
    for (size_t i = 0; i < len; i++) {
      if constexpr (std::endian::native == std::endian::little) {
        while (pos == 0 && len - i >= rate / 8) { // whole blocks
          for (size_t k = 0; k < rate / 64; k++) {
            uint64_t w;
            std::memcpy(&w, msg + i + 8 * k, 8);
            st[k] ^= w;
          }
          keccakf(st);
          i += rate / 8;
        }
        if (i == len)
          break;
      }
      st[pos >> 3] ^= static_cast<uint64_t>(msg[i]) << (8 * (pos & 7));
      if (++pos == rate / 8) {
        keccakf(st);
        pos = 0;
      }
    }
  }
  void finalize()
  {
    st[pos >> 3] ^= 0x1full << (8 * (pos & 7));
    st[16] ^= 0x80ull << 56;
    keccakf(st);
    pos = 0;
  }
  void squeeze(uint8_t* out, size_t len)
  {
    for (size_t i = 0; i < len; i++) {
      if (pos == rate / 8) {
        keccakf(st);
        pos = 0;
      }
      out[i] = static_cast<uint8_t>(st[pos >> 3] >> (8 * (pos & 7)));
      pos++;
    }
  }
};

}

template<const bool incremental = false>
struct shake256;

// One-shot absorb; what /repo's PRNG is built on.
template<>
struct shake256<false>
{
private:
  detail::sponge_t sp;

public:
  inline void hash(const uint8_t* const msg, const size_t mlen)
  {
    vhook::prng_seeds++;
    if (vhook::on_seed)
      vhook::on_seed(msg, mlen);
    sp = {};
    sp.absorb(msg, mlen);
    sp.finalize();
  }
  inline void read(uint8_t* const dig, const size_t dlen)
  {
    vhook::prng_reads++;
    vhook::prng_bytes += dlen;
    if (vhook::prng_bytes > vhook::prng_budget)
      throw vhook::budget_exceeded{ vhook::prng_bytes };
    if (vhook::prng_override)
      vhook::prng_override->fill(dig, dlen);
    else
      sp.squeeze(dig, dlen);
    if (vhook::on_read)
      vhook::on_read(dig, dlen);
  }
};

// Incremental absorb; what hash-to-point is built on. Misuse of the phases
// (absorbing after finalize, reading before) is ignored, as upstream does.
template<>
struct shake256<true>
{
private:
  detail::sponge_t sp;
  bool done = false;

public:
  inline void absorb(const uint8_t* const msg, const size_t mlen)
  {
    if (!done)
      sp.absorb(msg, mlen);
  }
  inline void finalize()
  {
    if (!done) {
      sp.finalize();
      done = true;
    }
  }
  inline void read(uint8_t* const dig, const size_t dlen)
  {
    if (done)
      sp.squeeze(dig, dlen);
  }
};

}
