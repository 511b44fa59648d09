// A valid signature, any change to it, its message or its key, must not verify.
#include "glue.hpp"
using namespace glue;

static vh::counter_t n_base("valid_signatures"), n_sig("signature_changes"), n_pk("key_changes"), n_msg("message_changes"), n_other("other_key"),
  n_set("other_parameter_set"), n_over("keys_with_a_field_of_q_or_more"), n_long("changes_to_messages_over_8k"), n_legit("changed_triple_legitimately_valid");

template<size_t N>
struct B
{
  bytes pk, m, sig;
  size_t key;
  static B make(vh::case_t& c, size_t mlen) { return make(c, message(c.rng, mlen)); }
  static B make(vh::case_t& c, const bytes& mm)
  {
    B b;
    b.key = c.rng.below(24);
    b.pk = ref::golden(N)[b.key].pk;
    b.m = mm;
    vh::gbuf msg(b.m), sig(ref::sig_len(N)), pk(b.pk);
    prng::prng_t rng;
    sign_prepared<N>(gold<N>(b.key), msg, sig, rng);
    b.sig.assign(sig.data(), sig.data() + sig.n);
    VH_REQUIRE(verify<N>(pk, msg, sig), "unmodified-rejected", "N=%zu the unmodified signature does not verify", N);
    n_base++;
    return b;
  }
  // the changed triple (buffers already changed in place)
  static void must_fail(const vh::gbuf& pk, const vh::gbuf& m, vh::gbuf& sig, const char* what, size_t at, int bit = -1)
  {
    vh::eval();
    if (!verify<N>(pk, m, sig))
      return;
    if (ref::verify(N, pk.data(), m.data(), m.n, sig.data()).ok) {
      n_legit++; // genuinely short: chance, below 2^-30
      return;
    }
    vh::fail("tampered-accepted", "N=%zu %s changed at %zu bit %d still verifies; message of %zu bytes, signature %s..", N, what, at, bit, m.n,
             vh::hex(sig.data(), 48).c_str());
  }
  void flip_all(vh::gbuf& buf, const vh::gbuf& pk, const vh::gbuf& m, vh::gbuf& s, const char* what, vh::counter_t& cnt) const
  {
    for (size_t i = 0; i < buf.n; i++)
      for (int b = 0; b < 8; b++) {
        buf[i] ^= static_cast<uint8_t>(1 << b);
        must_fail(pk, m, s, what, i, b);
        buf[i] ^= static_cast<uint8_t>(1 << b);
      }
    cnt.add(8 * buf.n);
    vh::distinct_bulk(8 * buf.n);
  }
};

// every single bit of signature, key and message
template<size_t N>
static void
allbits(vh::case_t& c)
{
  const size_t lens[] = { 0, 1, 33, 96, 97, 250 };
  auto b = B<N>::make(c, lens[c.idx % 6]);
  vh::gbuf pk(b.pk), m(b.m), s(b.sig);
  b.flip_all(s, pk, m, s, "signature", n_sig);
  b.flip_all(m, pk, m, s, "message", n_msg);
  b.flip_all(pk, pk, m, s, "public key", n_pk);
  if (c.idx < 2)
    vh::sample("N=%zu every bit of a signature, its %zu-byte message and its key flipped in turn: all rejected", N, b.m.size());
}
VH_SUITE(allbits512, 12, 200)
{
  allbits<512>(c);
}
VH_SUITE(allbits1024, 8, 100)
{
  allbits<1024>(c);
}

// every value of one byte
template<size_t N>
static void
bytevals(vh::case_t& c)
{
  auto b = B<N>::make(c, 1 + c.rng.below(300));
  vh::gbuf pk(b.pk), m(b.m), s(b.sig);
  struct
  {
    vh::gbuf* b;
    const char* w;
    vh::counter_t* n;
  } part[] = { { &s, "signature", &n_sig }, { &m, "message", &n_msg }, { &pk, "public key", &n_pk } };
  for (auto& p : part) {
    size_t pos[] = { 0, c.rng.below(p.b->n), p.b->n - 1, std::min<size_t>(40, p.b->n - 1), std::min<size_t>(41, p.b->n - 1) };
    for (size_t i : pos) {
      const uint8_t was = (*p.b)[i];
      for (int v = 0; v < 256; v++) {
        if (v == was)
          continue;
        (*p.b)[i] = static_cast<uint8_t>(v);
        B<N>::must_fail(pk, m, s, p.w, i);
      }
      (*p.b)[i] = was;
      p.n->add(255);
    }
  }
  vh::distinct(vh::hash_bytes(b.sig.data(), 64));
}
VH_SUITE(bytevals512, 24, 600)
{
  bytevals<512>(c);
}
VH_SUITE(bytevals1024, 12, 300)
{
  bytevals<1024>(c);
}

// length changes, splices, several changes at once, long messages
template<size_t N>
static void
edits(vh::case_t& c)
{
  const bool longm = c.idx % 8 == 0;
  auto b = B<N>::make(c, longm ? c.rng.range(5000, 300000) : msg_len(c.rng, 2000));
  vh::gbuf pk(b.pk), s(b.sig);
  auto tryM = [&](const bytes& m, const char* what) {
    if (m == b.m)
      return;
    vh::gbuf mm(m);
    B<N>::must_fail(pk, mm, s, what, m.size());
    n_msg++;
    vh::distinct(vh::hash_bytes(m.data(), m.size()) ^ vh::hash_bytes(b.sig.data(), 41));
  };
  for (uint8_t v : { 0x00, 0x80, 0x1f, 0xff, 0x41 }) {
    bytes m = b.m;
    m.push_back(v);
    tryM(m, "message (byte appended)");
    m = b.m;
    m.insert(m.begin(), v);
    tryM(m, "message (byte prepended)");
  }
  for (size_t k : { 2, 8, 64, 96, 135, 136, 137, 272, 4096 }) {
    bytes m = b.m;
    m.resize(m.size() + k, 0);
    tryM(m, "message (zeros appended)");
    if (b.m.size() >= k) {
      m = b.m;
      m.resize(m.size() - k);
      tryM(m, "message (tail removed)");
      m.assign(b.m.begin() + static_cast<long>(k), b.m.end());
      tryM(m, "message (head removed)");
    }
  }
  if (!b.m.empty()) {
    bytes m = b.m;
    m.pop_back();
    tryM(m, "message (last byte removed)");
    tryM({}, "message (emptied)");
    m = b.m;
    std::reverse(m.begin(), m.end());
    tryM(m, "message (reversed)");
    for (int i = 0; i < 40; i++) {
      m = b.m;
      m[c.rng.below(m.size())] ^= static_cast<uint8_t>(1u << c.rng.below(8));
      tryM(m, "message (one bit)");
      const uint8_t d = static_cast<uint8_t>(1 + c.rng.below(255));
      m[c.rng.below(m.size())] ^= d; // equal differences: cancel in any xor fold
      m[c.rng.below(m.size())] ^= d;
      tryM(m, "message (several bytes)");
      m = b.m;
      std::swap(m[c.rng.below(m.size())], m[c.rng.below(m.size())]);
      tryM(m, "message (two bytes exchanged)");
      if (m.size() > 16) {
        m = b.m;
        const size_t w = 8 * c.rng.below(m.size() / 8 - 1);
        for (size_t j = 0; j < 8; j++)
          std::swap(m[w + j], m[w + 8 + j]);
        tryM(m, "message (two words exchanged)");
      }
    }
    tryM([&] { auto x = b.m; x.insert(x.end(), b.m.begin(), b.m.end()); return x; }(), "message (doubled)");
  }
  // salt: permuted, exchanged with message bytes
  vh::gbuf m(b.m);
  auto trySig = [&](const bytes& g, const char* what) {
    if (g == b.sig)
      return;
    vh::gbuf ss(g);
    B<N>::must_fail(pk, m, ss, what, 0);
    n_sig++;
    vh::distinct(vh::hash_bytes(g.data(), g.size()));
  };
  for (int i = 0; i < 20; i++) {
    bytes g = b.sig;
    std::swap(g[1 + c.rng.below(40)], g[1 + c.rng.below(40)]);
    trySig(g, "salt (two bytes exchanged)");
    g = b.sig;
    std::rotate(g.begin() + 1, g.begin() + 1 + static_cast<long>(c.rng.below(40)), g.begin() + 41);
    trySig(g, "salt (rotated)");
    g = b.sig;
    const uint8_t d = static_cast<uint8_t>(1 + c.rng.below(255));
    g[1 + c.rng.below(40)] ^= d;
    g[1 + c.rng.below(40)] ^= d;
    trySig(g, "salt (two bytes)");
    if (!b.m.empty()) {
      g = b.sig;
      vh::gbuf m2(b.m);
      std::swap(g[40], m2[0]);
      if (g != b.sig) {
        vh::gbuf ss(g);
        B<N>::must_fail(pk, m2, ss, "last salt byte exchanged with first message byte", 0);
      }
    }
    // coefficients of s2: exchanged, negated, shifted by one, +-q
    auto s2 = *ref::decompress(N, b.sig.data() + 41, b.sig.size() - 41);
    auto put = [&](const ivec& t, const char* what) {
      if (auto e = ref::compress(t, b.sig.size() - 41)) {
        g = b.sig;
        std::copy(e->begin(), e->end(), g.begin() + 41);
        trySig(g, what);
      }
    };
    ivec t = s2;
    std::swap(t[c.rng.below(N)], t[c.rng.below(N)]);
    put(t, "s2 (two coefficients exchanged)");
    t = s2;
    t[c.rng.below(N)] *= -1;
    put(t, "s2 (sign of one coefficient)");
    t = s2;
    const size_t at = c.rng.below(N);
    t[at] += t[at] > 0 ? -ref::Q : ref::Q;
    put(t, "s2 (q added to one coefficient)");
    t = s2;
    t[c.rng.below(N)] += c.rng.below(2) ? 1 : -1;
    put(t, "s2 (one coefficient by one)");
    t = s2;
    std::rotate(t.begin(), t.begin() + 1, t.end());
    put(t, "s2 (rotated)");
  }
  // another signature's salt / body
  auto o = B<N>::make(c, b.m.size());
  bytes g = b.sig;
  std::copy(o.sig.begin() + 1, o.sig.begin() + 41, g.begin() + 1);
  trySig(g, "salt of another signature");
  g = b.sig;
  std::copy(o.sig.begin() + 41, o.sig.end(), g.begin() + 41);
  trySig(g, "body of another signature");
  // other keys
  for (size_t k = 0; k < 24; k++)
    if (k != b.key) {
      vh::gbuf p2(ref::golden(N)[k].pk);
      B<N>::must_fail(p2, m, s, "key (independent)", k);
      n_other++;
    }
}
VH_SUITE(edits512, 160, 6000)
{
  edits<512>(c);
}
VH_SUITE(edits1024, 80, 3000)
{
  edits<1024>(c);
}

// One byte more or less at the end or the beginning, next to every byte: what
// text processing strips, ends at or joins is part of the message here.
template<size_t N>
static void
neighbours(vh::case_t& c)
{
  const auto a = static_cast<uint8_t>(c.idx);
  for (int end = 0; end < 2; end++) {
    bytes m = message(c.rng, 1 + c.rng.below(40));
    (end ? m.back() : m.front()) = a;
    auto b = B<N>::make(c, m);
    vh::gbuf pk(b.pk), s(b.sig);
    for (int x = 0; x < 256; x++) {
      bytes t = m;
      t.insert(end ? t.end() : t.begin(), static_cast<uint8_t>(x));
      const vh::gbuf mm(t);
      B<N>::must_fail(pk, mm, s, end ? "one byte appended to the message" : "one byte put before the message", static_cast<size_t>(x));
    }
    n_msg.add(256);
    // the other way round: signed with the byte, presented without
    for (int k = 0; k < (vh::thorough ? 256 : 32); k++) {
      static const uint8_t likely[] = { 0, '\n', '\r', ' ', '\t', 0xff, 0x80, 0x1f, 0x01, '0', '.', 0xbf };
      bytes t = m;
      t.insert(end ? t.end() : t.begin(), vh::thorough ? static_cast<uint8_t>(k) : k < 12 ? likely[k] : static_cast<uint8_t>(c.rng.below(256)));
      auto o = B<N>::make(c, t);
      vh::gbuf pk2(o.pk), s2(o.sig);
      const vh::gbuf mm(m);
      B<N>::must_fail(pk2, mm, s2, end ? "last byte of the message removed" : "first byte of the message removed", static_cast<size_t>(k));
      n_msg.add(1);
    }
  }
  // letters in the other case, other line ends, text cut at a zero
  const std::string text = "Pay 100 to Bob\r\nand 7 to Carol\n\0and all to Eve \t";
  bytes m(text.begin(), text.end());
  m[c.rng.below(m.size())] = a;
  auto b = B<N>::make(c, m);
  vh::gbuf pk(b.pk), s(b.sig);
  for (int k = 0; k < 8; k++) {
    bytes t;
    for (size_t i = 0; i < m.size(); i++) {
      const uint8_t x = m[i];
      switch (k) {
        case 0: t.push_back(static_cast<uint8_t>(toupper(x))); break;
        case 1: t.push_back(static_cast<uint8_t>(tolower(x))); break;
        case 2: if (x != '\r') t.push_back(x); break;
        case 3: if (x == '\n') t.push_back('\r'); t.push_back(x); break;
        case 4: if (x != ' ') t.push_back(x); break;
        case 5: t.push_back(x & 0x7f); break;
        case 6: t.push_back(x == '\t' ? ' ' : x); break;
        default: if (std::find(m.begin(), m.begin() + static_cast<int64_t>(i) + 1, 0) == m.begin() + static_cast<int64_t>(i) + 1) t.push_back(x);
      }
    }
    if (t == m)
      continue;
    const vh::gbuf mm(t);
    B<N>::must_fail(pk, mm, s, "message text normalised", static_cast<size_t>(k));
    n_msg.add(1);
  }
}
VH_SUITE(neighbours512, 256, 256)
{
  neighbours<512>(c);
}
VH_SUITE(neighbours1024, 64, 256)
{
  neighbours<1024>(c);
}

// A length counted in too few bits would make these equal: m, and m followed by
// 2^k further bytes.
template<size_t N>
static void
aliases(vh::case_t& c)
{
  const size_t L = c.rng.below(2) ? c.rng.below(9) : c.rng.below(400);
  auto b = B<N>::make(c, L);
  vh::gbuf pk(b.pk), s(b.sig);
  for (size_t k = 7; k <= (c.idx < 4 ? 24u : 17u); k++)
    for (int v = 0; v < 2; v++) {
      bytes m = b.m;
      m.resize(L + (size_t(1) << k));
      if (v)
        c.rng.fill(m.data() + L, m.size() - L);
      vh::gbuf M(m);
      B<N>::must_fail(pk, M, s, "message (2^k bytes appended)", k);
      n_msg++;
      vh::distinct(vh::mix64(vh::hash_bytes(b.sig.data(), 40) + 2 * k + static_cast<size_t>(v)));
    }
}
// Long messages: every byte counts, the last ones too.
template<size_t N>
static void
longmsg(vh::case_t& c)
{
  const size_t L = (size_t(1) << (13 + c.idx % 13)) + c.rng.below(c.idx & 1 ? 300 : 3) - 1;
  auto b = B<N>::make(c, L);
  vh::gbuf pk(b.pk), s(b.sig);
  for (int i = 0; i < 8; i++) {
    bytes m = b.m;
    size_t at = L - 1;
    const char* what = "long message (byte)";
    switch (i) {
      case 0: m[at] ^= static_cast<uint8_t>(1u << c.rng.below(8)); break;
      case 1: m.push_back(c.rng.below(2) ? 0 : static_cast<uint8_t>(c.rng.next())); what = "long message (one byte appended)"; break;
      case 2: m.pop_back(); what = "long message (last byte removed)"; break;
      case 3: at = L / 2 + c.rng.below(L / 2); m[at] ^= static_cast<uint8_t>(1u << c.rng.below(8)); break;
      case 4: at = L - 1 - c.rng.below(std::min<size_t>(L, 200)); m[at] ^= 0x80; break;
      case 5: m[at = 0] ^= 1; break;
      case 6: at = 4096 * c.rng.below(L / 4096) + 4095; m[at] ^= 1; break;
      default: at = c.rng.below(L); m[at] ^= static_cast<uint8_t>(1 + c.rng.below(255));
    }
    vh::gbuf M(m);
    B<N>::must_fail(pk, M, s, what, at);
    n_msg++;
    n_long++;
    vh::distinct(vh::mix64(vh::hash_bytes(b.sig.data(), 40) + at * 8 + static_cast<size_t>(i)));
  }
}
VH_SUITE(long512, 26, 520)
{
  longmsg<512>(c);
}
VH_SUITE(long1024, 13, 260)
{
  longmsg<1024>(c);
}
VH_SUITE(aliases512, 12, 300)
{
  aliases<512>(c);
}
VH_SUITE(aliases1024, 12, 300)
{
  aliases<1024>(c);
}
#if !defined(VH_ASAN) && !defined(VH_MSAN) && !defined(VH_TSAN) && defined(__clang__)
// and 2^32 bytes (pages of zeros, which cost no memory)
VH_SUITE(beyond32, 2, 2)
{
  auto go = [&]<size_t N>(std::integral_constant<size_t, N>) {
    const size_t L = 16, n = (size_t(1) << 32) + L;
    auto b = B<N>::make(c, L);
    vh::gbuf pk(b.pk), s(b.sig);
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      fprintf(stderr, "cannot map 4 GiB\n");
      exit(3);
    }
    memcpy(p, b.m.data(), L);
    const bool ok = falcon::verify<N>(pk.data(), static_cast<const uint8_t*>(p), n, s.data());
    munmap(p, n);
    VH_REQUIRE(!ok, "tampered-accepted", "N=%zu: a signature of %zu bytes verifies for them followed by 2^32 zero bytes", N, L);
    n_msg++;
    vh::eval();
    vh::distinct(vh::hash_bytes(b.sig.data(), 40));
  };
  if (c.idx & 1)
    go(std::integral_constant<size_t, 512>{});
  else
    go(std::integral_constant<size_t, 1024>{});
}
#endif

// A key written with a field of q or more where the key has its residue.
template<size_t N>
static void
overflow(vh::case_t& c)
{
  const size_t p = c.idx % N;
  bytes m, sig;
  const ivec h = valid_with_zero<N>(c.rng, p, m, sig);
  bytes pk = ref::enc_pk(h);
  vh::gbuf P(pk), M(m), S(sig);
  VH_REQUIRE(verify<N>(P, M, S), "unmodified-rejected", "N=%zu a valid signature does not verify", N);
  n_base++;
  for (int k = 0; k < 6; k++) {
    ivec g = h;
    size_t at = p;
    if (k)
      for (at = c.rng.below(N); h[at] + ref::Q > 16383;)
        at = c.rng.below(N);
    g[at] += ref::Q;
    bytes b{ pk[0] };
    ref::pack_lsb(b, g, 14);
    vh::gbuf Q(b);
    B<N>::must_fail(Q, M, S, "public key (q added to the coefficient)", at);
    n_pk++;
    n_over++;
  }
  vh::distinct(vh::hash_bytes(sig.data(), 60));
}
VH_SUITE(overflow512, 512, 5120)
{
  overflow<512>(c);
}
VH_SUITE(overflow1024, 1024, 5120)
{
  overflow<1024>(c);
}

// the other parameter set
VH_SUITE(cross, 200, 5000)
{
  {
    auto b = B<512>::make(c, c.rng.below(200));
    bytes s = b.sig, p = b.pk;
    s.resize(1280, 0);
    const int v = static_cast<int>(c.rng.below(4));
    if (v & 1)
      s[0] = 0x3a;
    if (v & 2) {
      p.resize(1793, 0);
      p[0] = 0x0a;
    } else {
      p = ref::golden(1024)[c.rng.below(24)].pk;
    }
    vh::gbuf pk(p), m(b.m), sg(s);
    B<1024>::must_fail(pk, m, sg, "Falcon-512 signature under Falcon-1024", 0);
  }
  {
    auto b = B<1024>::make(c, c.rng.below(200));
    bytes s = b.sig, p = b.pk;
    const int v = static_cast<int>(c.rng.below(4));
    if (v & 1)
      s[0] = 0x39;
    if (v & 2)
      p[0] = 0x09;
    else
      p = ref::golden(512)[c.rng.below(24)].pk;
    p.resize(897);
    s.resize(666);
    vh::gbuf pk(p), m(b.m), sg(s);
    B<512>::must_fail(pk, m, sg, "Falcon-1024 signature under Falcon-512", 0);
  }
  n_set.add(2);
  vh::distinct(c.idx + 77);
}
