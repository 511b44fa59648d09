// What calls leave behind: heap memory, open files, threads, output, the
// floating-point environment; and how much stack they take.
#include "glue.hpp"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <malloc.h>
#include <pthread.h>
#include <new>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <xmmintrin.h>
using namespace glue;

// ------------------------------------------------------------ heap accounting
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
static thread_local int64_t h_live __attribute__((tls_model("initial-exec"))) = 0;
static thread_local int64_t h_blocks __attribute__((tls_model("initial-exec"))) = 0;
static thread_local int64_t h_peak __attribute__((tls_model("initial-exec"))) = 0;
static thread_local uint64_t h_calls __attribute__((tls_model("initial-exec"))) = 0;
static void*
note(void* p)
{
  if (p) {
    h_live += static_cast<int64_t>(malloc_usable_size(p));
    h_blocks++;
    h_calls++;
    if (h_live > h_peak)
      h_peak = h_live;
  }
  return p;
}
static void
drop(void* p)
{
  if (p) {
    h_live -= static_cast<int64_t>(malloc_usable_size(p));
    h_blocks--;
  }
}
extern "C" {
void*
malloc(size_t n)
{
  return note(__libc_malloc(n));
}
void
free(void* p)
{
  const int e = errno;
  drop(p);
  __libc_free(p);
  errno = e;
}
void*
calloc(size_t n, size_t m)
{
  return note(__libc_calloc(n, m));
}
void*
realloc(void* p, size_t n)
{
  drop(p);
  void* q = __libc_realloc(p, n);
  if (!q && n && p) { // the old block stays
    h_live += static_cast<int64_t>(malloc_usable_size(p));
    h_blocks++;
  }
  return note(q);
}
void*
memalign(size_t a, size_t n)
{
  return note(__libc_memalign(a, n));
}
void*
aligned_alloc(size_t a, size_t n)
{
  return note(__libc_memalign(a, n));
}
int
posix_memalign(void** p, size_t a, size_t n)
{
  *p = note(__libc_memalign(a, n));
  return *p ? 0 : ENOMEM;
}
}

static vh::counter_t n_calls("calls_watched"), n_alloc("allocations_in_them"), n_exc("calls_ended_by_entropy_failure"), n_refused("calls_that_refused"), n_stack("stacks_measured");

static int
entries(const char* dir)
{
  DIR* d = opendir(dir);
  int n = 0;
  if (!d)
    return 0;
  while (readdir(d))
    n++;
  closedir(d);
  return n;
}

// Everything the call might leave behind, as seen from outside.
struct world_t
{
  int fds, tasks, round, mxcsr;
  std::string locale;
  sigset_t mask;
  struct sigaction act[32];
  std::vector<std::string> env;
  std::string cwd;
  mode_t mask_of_files;
  std::terminate_handler term;
  std::new_handler newh;
  std::string cxx_locale;
  std::ios_base::fmtflags fmt[3];
  std::streamsize prec[3];
  rlimit limits[RLIM_NLIMITS];
  itimerval timers[3];
  int nice_, sched;
  cpu_set_t cpus;
  char thread_name[17] = {};
  int rnd;
  world_t()
  {
    fds = entries("/proc/self/fd");
    tasks = entries("/proc/self/task");
    round = std::fegetround();
    mxcsr = static_cast<int>(_mm_getcsr() & ~0x3fu); // not the sticky flags
    locale = setlocale(LC_ALL, nullptr);
    memset(&mask, 0, sizeof mask);
    pthread_sigmask(SIG_BLOCK, nullptr, &mask);
    for (int i = 1; i < 32; i++)
      sigaction(i, nullptr, &act[i]);
    for (char** e = environ; *e; e++)
      env.push_back(*e);
    char b[4096];
    cwd = getcwd(b, sizeof b) ? b : "";
    mask_of_files = umask(022);
    umask(mask_of_files);
    term = std::get_terminate();
    newh = std::get_new_handler();
    cxx_locale = std::locale().name();
    const std::ostream* os[] = { &std::cout, &std::cerr, &std::clog };
    for (int i = 0; i < 3; i++) {
      fmt[i] = os[i]->flags();
      prec[i] = os[i]->precision();
      memset(&timers[i], 0, sizeof timers[i]);
      getitimer(static_cast<__itimer_which_t>(i), &timers[i]);
    }
    memset(limits, 0, sizeof limits);
    for (int i = 0; i < RLIM_NLIMITS; i++)
      getrlimit(static_cast<__rlimit_resource_t>(i), &limits[i]);
    nice_ = getpriority(PRIO_PROCESS, 0);
    sched = sched_getscheduler(0);
    CPU_ZERO(&cpus);
    sched_getaffinity(0, sizeof cpus, &cpus);
    prctl(PR_GET_NAME, thread_name);
    // the C library's generator: a program that seeds it expects its sequence
    static const int first = (srand(20240229), rand());
    rnd = rand() == first;
    srand(20240229);
  }
  static bool armed(const itimerval& t) { return t.it_value.tv_sec || t.it_value.tv_usec || t.it_interval.tv_sec || t.it_interval.tv_usec; }
  // what a first use may set up once
  const char* grew(const world_t& o) const
  {
    if (fds != o.fds)
      return "open files";
    return tasks != o.tasks ? "threads" : nullptr;
  }
  const char* differs(const world_t& o) const
  {
    if (round != o.round || mxcsr != o.mxcsr)
      return "floating-point control state";
    if (locale != o.locale)
      return "locale";
    if (memcmp(&mask, &o.mask, sizeof mask))
      return "signal mask";
    for (int i = 1; i < 32; i++)
      if (act[i].sa_handler != o.act[i].sa_handler)
        return "signal handlers";
    if (env != o.env)
      return "environment";
    if (cwd != o.cwd)
      return "working directory";
    if (mask_of_files != o.mask_of_files)
      return "file mode mask";
    if (term != o.term || newh != o.newh)
      return "terminate or new handler";
    if (cxx_locale != o.cxx_locale)
      return "global C++ locale";
    for (int i = 0; i < 3; i++) {
      if (fmt[i] != o.fmt[i] || prec[i] != o.prec[i])
        return "format of the standard streams";
      if (armed(timers[i]) != armed(o.timers[i]))
        return "timers";
    }
    if (memcmp(limits, o.limits, sizeof limits))
      return "resource limits";
    if (nice_ != o.nice_ || sched != o.sched || memcmp(&cpus, &o.cpus, sizeof cpus) || strcmp(thread_name, o.thread_name))
      return "scheduling or name of the thread";
    return !o.rnd ? "the C library's random number sequence" : nullptr;
  }
};

// Output is caught in a memory file while calls run.
struct caught_t
{
  int fd, o1, o2;
  caught_t()
  {
    fflush(nullptr);
    std::cout.flush();
    std::cerr.flush();
    fd = memfd_create("out", 0);
    o1 = dup(1);
    o2 = dup(2);
    dup2(fd, 1);
    dup2(fd, 2);
  }
  size_t end()
  {
    if (fd < 0)
      return 0;
    fflush(nullptr);
    std::cout.flush();
    std::cerr.flush();
    std::clog.flush();
    const auto n = lseek(fd, 0, SEEK_END);
    dup2(o1, 1);
    dup2(o2, 2);
    close(o1);
    close(o2);
    close(fd);
    fd = -1;
    return n < 0 ? 0 : static_cast<size_t>(n);
  }
  ~caught_t() { end(); }
};

// Runs `call` `times` times after `warm` unwatched ones, on the same kind of
// input; each must give back exactly what it took. A process may keep what its
// first calls set up; it may not keep something per call.
static void
watch(const std::string& what, int warm, int times, const std::function<void(int)>& call)
{
  int64_t grown = 0, blocks = 0, peak = 0;
  int grew = 0;
  const world_t before;
  for (int i = 0; i < warm; i++)
    call(i);
  const world_t w0;
  size_t out = 0;
  {
    caught_t out_of;
    for (int i = 0; i < times; i++) {
      const int64_t l0 = h_live, b0 = h_blocks;
      const uint64_t c0 = h_calls;
      h_peak = h_live;
      call(warm + i);
      const int64_t dl = h_live - l0, db = h_blocks - b0;
      peak = std::max(peak, h_peak - l0);
      n_alloc.add(h_calls - c0);
      grown += dl;
      blocks += db;
      grew += dl > 0 || db > 0;
    }
    out = out_of.end();
  }
  const world_t w1;
  n_calls.add(static_cast<uint64_t>(times));
  // growth in some calls only: once is a first use, again and again is a leak
  if (blocks > 0 && grew * 2 < times) {
    int again = 0, more = 0;
    while (more < 60 && again < 3) {
      const int64_t b0 = h_blocks;
      call(warm + times + more++);
      again += h_blocks > b0;
    }
    VH_REQUIRE(again < 3, "leak", "%s: %d of %d calls kept memory, and so did %d of %d more", what.c_str(), grew, times, again, more);
  }
  VH_REQUIRE(blocks <= 0 || grew * 2 < times, "leak", "%s: %d of %d calls kept memory: %ld bytes in %ld blocks more than before", what.c_str(), grew, times, static_cast<long>(grown), static_cast<long>(blocks));
  VH_REQUIRE(peak < (int64_t(512) << 20), "heap", "%s: needed %ld bytes of heap", what.c_str(), static_cast<long>(peak));
  VH_REQUIRE(out == 0, "output", "%s: %zu bytes were written to the standard streams", what.c_str(), out);
  const char* d = w0.grew(w1);
  if (!d)
    d = before.differs(w0);
  if (!d)
    d = before.differs(w1);
  VH_REQUIRE(d == nullptr, "side-effect", "%s: the process's %s changed (files %d -> %d, threads %d -> %d)", what.c_str(), d ? d : "", w0.fds, w1.fds, w0.tasks, w1.tasks);
  vh::eval(static_cast<uint64_t>(times));
  vh::distinct(vh::hash_bytes(what.data(), what.size(), vh::mix64(static_cast<uint64_t>(vh::me->case_suite) << 32 ^ vh::me->case_idx)));
}

// Swallows the injected failure of the entropy source.
template<typename F>
static bool
failing(int64_t k, F&& f)
{
  auto& e = vh::entropy();
  e.words = 0;
  e.fail_at = k < 0 ? ~0ull : static_cast<uint64_t>(k);
  bool thrown = false;
  try {
    f();
  } catch (const std::exception&) {
    thrown = true;
  }
  e.fail_at = ~0ull;
  return thrown;
}

template<size_t N>
struct L
{
  static constexpr size_t LG = N == 512 ? 9 : 10;
  static constexpr size_t SL = N == 512 ? 666 : 1280;
  static std::string name(const char* s) { return "N=" + std::to_string(N) + " " + s; }

  static void verifying(vh::case_t& c)
  {
    const auto& K = ref::golden(N)[c.rng.below(24)];
    vh::gbuf pk(K.pk), msg(message(c.rng, msg_len(c.rng))), sig(ref::sig_len(N)), pk2(K.pk), sig2(ref::sig_len(N));
    prng::prng_t rng;
    const auto& p = gold<N>(static_cast<size_t>(&K - ref::golden(N).data()));
    sign_prepared<N>(p, msg, sig, rng);
    const auto spoil = [&](int i) {
      memcpy(pk2.data(), pk.data(), pk.n);
      memcpy(sig2.data(), sig.data(), sig.n);
      switch (i % 10) {
        case 0: break;
        case 1: sig2.data()[0] ^= 1; break;
        case 2: sig2.data()[1 + static_cast<size_t>(i) % 40] ^= 1; break;
        case 3: sig2.data()[41 + static_cast<size_t>(i) % 300] ^= 0x10; break;
        case 4: sig2.data()[sig.n - 1] |= 1; break;
        case 5: memset(sig2.data() + 41, 0, sig.n - 41); break;
        case 6: memset(sig2.data() + 41, 0xff, sig.n - 41); break;
        case 7: pk2.data()[0] ^= 0x20; break;
        case 8: memset(pk2.data() + 1, 0xff, pk.n - 1); break;
        default: pk2.data()[1 + static_cast<size_t>(i) % 500] ^= 2;
      }
    };
    for (int k = 0; k < 10; k++) {
      spoil(k);
      bool any = false;
      watch(name("verify, variant ") + std::to_string(k), 2, 8, [&](int) { any |= falcon::verify<N>(pk2.data(), msg.data(), msg.n, sig2.data()); });
      if (!any)
        n_refused.add(8);
    }
  }
  static void signing(vh::case_t& c)
  {
    const auto& K = ref::golden(N)[c.rng.below(24)];
    const auto& p = gold<N>(static_cast<size_t>(&K - ref::golden(N).data()));
    vh::gbuf sk(K.sk), msg(message(c.rng, msg_len(c.rng))), sig(ref::sig_len(N)), bad(K.sk);
    prng::prng_t rng;
    watch(name("one-shot sign"), 2, 6, [&](int) { falcon::sign<N>(sk.data(), msg.data(), msg.n, sig.data()); });
    watch(name("prepared sign"), 2, 10, [&](int) { falcon::sign<N>(p.B.get(), p.T.get(), msg.data(), msg.n, sig.data(), rng); });
    watch(name("prepared sign, generator and all"), 2, 10, [&](int) {
      prng::prng_t g;
      falcon::sign<N>(p.B.get(), p.T.get(), msg.data(), msg.n, sig.data(), g);
    });
    { // attempts thrown away
      std::vector<std::unique_ptr<forced_t>> src;
      for (int i = 0; i < 6; i++)
        src.push_back(std::make_unique<forced_t>(c.rng.next(), 40, 5000 + c.rng.below(60000), 0.3));
      watch(name("sign with restarts"), 2, 4, [&](int i) {
        with_source w(*src[static_cast<size_t>(i) % src.size()]);
        falcon::sign<N>(p.B.get(), p.T.get(), msg.data(), msg.n, sig.data(), rng);
      });
    }
    for (int k = 0; k < 5; k++) { // keys that are refused, or used all the same
      memcpy(bad.data(), sk.data(), sk.n);
      switch (k) {
        case 0: bad.data()[0] ^= 1; break;
        case 1: memset(bad.data() + 1, 0, sk.n - 1); break;
        case 2: bad.data()[sk.n - 1] ^= 1; break;
        case 3: memset(bad.data() + 1, 0x11, sk.n - 1); break;
        default: bad.data()[1 + c.rng.below(300)] ^= static_cast<uint8_t>(1u << c.rng.below(8));
      }
      int refused = 0;
      watch(name("sign with a damaged key"), 2, 4, [&](int) {
        draw_t d(4'000'000);
        try {
          refused += !falcon::sign<N>(bad.data(), msg.data(), msg.n, sig.data());
        } catch (const vhook::budget_exceeded&) {
        }
      });
      n_refused.add(static_cast<uint64_t>(refused));
    }
    watch(name("one-shot sign, no entropy"), 2, 6, [&](int i) {
      if (failing(i % 8, [&] { falcon::sign<N>(sk.data(), msg.data(), msg.n, sig.data()); }))
        n_exc.add();
    });
  }
  static void keys(vh::case_t& c)
  {
    vh::gbuf pk(ref::pk_len(N)), sk(ref::sk_len(N));
    std::vector<int32_t> f(N), g(N), F(N), G(N);
    std::vector<ff::ff_t> h(N);
    auto p = std::make_shared<prep<N>>();
    watch(name("key generation, no entropy"), 1, 8, [&](int i) {
      if (failing(i % 8, [&] { falcon::keygen<N>(pk.data(), sk.data()); }))
        n_exc.add();
    });
    if (c.idx % 3 == 0)
      watch(name("key generation"), 1, 3, [&](int) { falcon::keygen<N>(pk.data(), sk.data()); });
    else if (c.idx % 3 == 1)
      watch(name("key generation, expanded"), 1, 3, [&](int) {
        prng::prng_t rng;
        keygen::keygen<N>(p->B.get(), p->T.get(), h.data(), ref::sigma(N), rng);
      });
    else
      watch(name("ntru_gen"), 1, 3, [&](int) {
        prng::prng_t rng;
        ntru_gen::ntru_gen<N>(f.data(), g.data(), F.data(), G.data(), rng);
      });
  }
  static void parts(vh::case_t& c)
  {
    const auto& K = ref::golden(N)[c.rng.below(24)];
    auto f = i32<N>(K.f), g = i32<N>(K.g), F = i32<N>(K.F), G = i32<N>(K.G);
    std::vector<ff::ff_t> h(N);
    vh::gbuf pk(K.pk), sk(K.sk), body(SL);
    auto p = std::make_shared<prep<N>>();
    std::vector<int32_t> s(N);
    watch(name("codecs"), 2, 20, [&](int i) {
      decoding::decode_pkey<N>(pk.data(), h.data());
      encoding::encode_pkey<N>(h.data(), pk.data());
      decoding::decode_skey<N>(sk.data(), f.data(), g.data(), F.data());
      encoding::encode_skey<N>(f.data(), g.data(), F.data(), sk.data());
      for (size_t j = 0; j < N; j++)
        s[j] = static_cast<int32_t>(j * 37 % 211) * (i % 3) - 100 * (i % 2) + (i % 5 == 4) * 100000;
      encoding::compress_sig<N, SL>(s.data(), body.data());
      body.data()[static_cast<size_t>(i) % 200] ^= static_cast<uint8_t>(i);
      decoding::decompress_sig<N, SL>(body.data(), s.data());
    });
    watch(name("expansion"), 2, 4, [&](int) {
      falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), p->B.get());
      falcon::compute_falcon_tree<N>(p->B.get(), p->T.get());
    });
    vh::gbuf salt(size_t(40), 7), msg(message(c.rng, 3000));
    watch(name("hash to point, transforms"), 2, 10, [&](int) {
      hashing::hash_to_point<N>(salt.data(), salt.n, msg.data(), msg.n, h.data());
      ntt::ntt<LG>(h.data());
      ntt::intt<LG>(h.data());
      std::vector<fft::cmplx> v(N, fft::cmplx{ 1.5 });
      fft::fft<LG>(v.data());
      fft::ifft<LG>(v.data());
    });
  }
};

// Long messages: what is kept may be kept only of those.
template<size_t N>
static void
lengthy(vh::case_t& c)
{
  static const size_t LEN[] = { 70'000, 300'000, 1'100'000, 4'300'000, 17'000'000 };
  const size_t len = LEN[c.idx % 5] + c.rng.below(1000);
  const auto& K = ref::golden(N)[c.rng.below(24)];
  vh::gbuf pk(K.pk), sk(K.sk), msg(len), sig(ref::sig_len(N));
  memset(msg.data(), static_cast<int>(c.rng.below(256)), len);
  const int t = len > 2'000'000 ? 2 : 4;
  watch("sign, " + std::to_string(len) + " bytes, N=" + std::to_string(N), 1, t, [&](int) { falcon::sign<N>(sk.data(), msg.data(), msg.n, sig.data()); });
  watch("verify, " + std::to_string(len) + " bytes, N=" + std::to_string(N), 1, t, [&](int i) {
    sig.data()[100] ^= static_cast<uint8_t>(i & 1);
    falcon::verify<N>(pk.data(), msg.data(), msg.n, sig.data());
  });
}

// The solver, on equations with and without solutions, in every degree.
template<size_t N>
static void
solver(vh::case_t& c)
{
  std::array<mpz_class, N> f, g;
  for (int kind = 0; kind < 3; kind++) {
    for (size_t i = 0; i < N; i++) {
      f[i] = static_cast<long>(c.rng.range(-8, 8));
      g[i] = static_cast<long>(c.rng.range(-8, 8));
      if (kind == 1) { // 2 divides both
        f[i] *= 2;
        g[i] *= 2;
      }
    }
    if (kind == 2)
      for (auto& x : f)
        x = 0;
    // solutions of another input free their numbers in the loop
    watch("ntru_solve in degree " + std::to_string(N), 2, 5, [&](int) { const auto r = ntru_gen::ntru_solve<N>(f, g); });
    const auto a = f, b = g;
    watch("karamul in degree " + std::to_string(N), 2, 5, [&](int) { const auto r = karatsuba::karamul<N>(a, b); });
  }
}

// Generators and small things.
VH_SUITE(small, 10, 200)
{
  vh::gbuf b(size_t(5000));
  watch("generator", 4, 200, [&](int i) {
    prng::prng_t g;
    g.read(b.data(), static_cast<size_t>(i) * 20);
  });
  watch("generator, no entropy", 4, 60, [&](int i) {
    if (failing(i % 8, [&] {
          prng::prng_t g;
          g.read(b.data(), 100);
        }))
      n_exc.add();
  });
  prng::prng_t rng;
  watch("samplerz", 4, 2000, [&](int i) { samplerz::samplerz(i * 0.77, 1.3 + (i % 10) * 0.05, 1.2778, rng); });
  std::string t(200, 'a');
  watch("hexadecimal", 4, 100, [&](int i) {
    const std::string s = to_hex(b.data(), static_cast<size_t>(i) * 10);
    to_byte_array(s, b.data());
  });
  watch("random field elements", 4, 100, [&](int) { ff::ff_t::random(); });
  (void)c;
}
VH_SUITE(verify512, 12, 300)
{
  L<512>::verifying(c);
}
VH_SUITE(verify1024, 8, 200)
{
  L<1024>::verifying(c);
}
VH_SUITE(sign512, 12, 300)
{
  L<512>::signing(c);
}
VH_SUITE(sign1024, 8, 200)
{
  L<1024>::signing(c);
}
VH_SUITE(parts512, 8, 200)
{
  L<512>::parts(c);
}
VH_SUITE(parts1024, 8, 200)
{
  L<1024>::parts(c);
}
VH_SUITE(keys512, 6, 60)
{
  L<512>::keys(c);
}
VH_SUITE(keys1024, 3, 30)
{
  L<1024>::keys(c);
}
VH_SUITE(lengthy512, 5, 50)
{
  lengthy<512>(c);
}
VH_SUITE(lengthy1024, 5, 50)
{
  lengthy<1024>(c);
}
VH_SUITE(solver, 6, 60)
{
  switch (c.idx % 6) {
    case 0: solver<1>(c); break;
    case 1: solver<4>(c); break;
    case 2: solver<16>(c); break;
    case 3: solver<64>(c); break;
    case 4: solver<2>(c); break;
    default: solver<128>(c);
  }
}

// ------------------------------------------------------------------ the stack
// Calls made on a thread of their own, on a stack painted beforehand.
static constexpr size_t STACK = size_t(64) << 20, LIMIT = size_t(8) << 20;
static vh::acc_t a_use(64);
static size_t
stack_of(const std::function<void()>& f)
{
  auto* s = static_cast<uint8_t*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (s == MAP_FAILED)
    return 0;
  const size_t from = STACK - LIMIT - (size_t(4) << 20); // painted: the top 12 MiB
  memset(s + from, 0x5a, STACK - from);
  struct job_t
  {
    const std::function<void()>* f;
    vh::entropy_t e;
    std::string err, key;
  } job{ &f, vh::entropy(), "", "" };
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, s, STACK);
  pthread_t t;
  const int rc = pthread_create(&t, &at, [](void* a) -> void* {
      auto* j = static_cast<job_t*>(a);
      vh::entropy() = j->e;
      vhook::prng_budget = vhook::prng_bytes + vh::default_budget;
      try {
        (*j->f)();
      } catch (const std::exception& e) {
        j->err = e.what();
      } catch (...) {
        j->err = "budget";
      }
      return nullptr;
    },
    &job);
  if (rc) {
    munmap(s, STACK);
    return 0;
  }
  pthread_join(t, nullptr);
  size_t lo = 0;
  for (lo = from; lo < STACK && s[lo] == 0x5a; lo++)
    ;
  munmap(s, STACK);
  pthread_attr_destroy(&at);
  n_stack++;
  return STACK - lo;
}
template<size_t N>
static void
stacks(vh::case_t& c)
{
  const auto& K = ref::golden(N)[c.rng.below(24)];
  const auto& p = gold<N>(static_cast<size_t>(&K - ref::golden(N).data()));
  vh::gbuf pk(K.pk), sk(K.sk), msg(message(c.rng, msg_len(c.rng))), sig(ref::sig_len(N)), pk2(K.pk), sk2(K.sk);
  const char* names[] = { "sign", "verify", "prepared sign", "sign with restarts", "keygen" };
  const size_t kind = c.idx % 5;
  forced_t src(c.rng.next(), 40, 400000, 0.3);
  const size_t used = stack_of([&] {
    prng::prng_t rng;
    switch (kind) {
      case 0: falcon::sign<N>(sk.data(), msg.data(), msg.n, sig.data()); break;
      case 1: falcon::verify<N>(pk.data(), msg.data(), msg.n, sig.data()); break;
      case 2: falcon::sign<N>(p.B.get(), p.T.get(), msg.data(), msg.n, sig.data(), rng); break;
      case 3: {
        with_source w(src);
        falcon::sign<N>(p.B.get(), p.T.get(), msg.data(), msg.n, sig.data(), rng);
        break;
      }
      default: falcon::keygen<N>(pk2.data(), sk2.data());
    }
  });
  VH_REQUIRE(used < LIMIT - (size_t(64) << 10), "stack", "N=%zu %s: takes %zu bytes of stack, more than an ordinary thread has", N, names[kind], used);
  if (c.idx < 5)
    vh::sample("N=%zu %s: %zu KiB of stack", N, names[kind], used >> 10);
  vh::eval();
  vh::distinct(vh::mix64(used) ^ kind);
}
VH_SUITE(stack512, 40, 600)
{
  stacks<512>(c);
}
VH_SUITE(stack1024, 40, 400)
{
  stacks<1024>(c);
}
