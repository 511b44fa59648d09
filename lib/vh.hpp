#pragma once
// Harness runtime shared by all checks: deterministic case generation from
// VERIF_SEED, worker processes, crash / hang attribution, violation reporting,
// coverage counters, distinct-case counting, accumulators for statistical
// oracles and control over system entropy. One harness = one binary; a harness
// is a set of suites, a suite is a numbered family of cases. (seed, suite, idx)
// identifies a case completely.
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <random>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "sha3/shake256.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define VH_MSAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#endif

namespace vh {

// ---------------------------------------------------------------- randomness
inline uint64_t
mix64(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct rng_t
{
  uint64_t s[4];
  explicit rng_t(uint64_t seed = 0)
  {
    for (auto& w : s)
      w = seed = mix64(seed);
  }
  uint64_t next()
  {
    const uint64_t r = std::rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = std::rotl(s[3], 45);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) // inclusive
  {
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
  }
  double unit() { return static_cast<double>(next() >> 11) * 0x1p-53; }
  bool chance(double p) { return unit() < p; }
  double gauss()
  {
    double u = 0;
    do {
      u = unit();
    } while (u <= 0);
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * unit());
  }
  void fill(void* p, size_t n)
  {
    auto* b = static_cast<uint8_t*>(p);
    for (size_t i = 0; i < n; i++)
      b[i] = static_cast<uint8_t>(next() >> 24);
  }
};

inline uint64_t
hash_bytes(const void* p, size_t n, uint64_t h = 0x243f6a8885a308d3ull)
{
  auto* b = static_cast<const uint8_t*>(p);
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t w;
    std::memcpy(&w, b + i, 8);
    h = mix64(h ^ w);
  }
  uint64_t w = n;
  for (; i < n; i++)
    w = (w << 8) | b[i];
  return mix64(h ^ w);
}

// ------------------------------------------------------------ system entropy
struct entropy_failure : std::runtime_error
{
  entropy_failure()
    : std::runtime_error("injected: random_device could not be read")
  {
  }
};
struct entropy_t
{
  rng_t gen{ 0 };
  uint64_t words = 0;              // drawn so far
  uint64_t fail_at = ~0ull;        // index of the first draw that fails
  uint64_t fail_until = ~0ull;     // ... and of the first that works again
  const std::vector<uint32_t>* tape = nullptr; // explicit values, then gen
  std::vector<uint32_t>* log = nullptr;
  bool inject_failed = false;

  uint32_t word()
  {
    const uint64_t i = words++;
    if (i >= fail_at && i < fail_until) {
      inject_failed = true;
      throw entropy_failure{};
    }
    const uint32_t fresh = static_cast<uint32_t>(gen.next() >> 16);
    const uint32_t w = (tape && i < tape->size()) ? (*tape)[i] : fresh;
    if (log)
      log->push_back(w);
    return w;
  }
};
inline entropy_t&
entropy()
{
  static thread_local entropy_t e;
  return e;
}
inline void
seed_entropy(uint64_t seed)
{
  entropy() = entropy_t{};
  entropy().gen = rng_t{ mix64(seed ^ 0xe7037ed1a0b428dbull) };
}

// -------------------------------------------------------------- shared state
constexpr size_t MAX_JOBS = 16, MAX_CNT = 256, MAX_V = 12, VTXT = 2400,
                 MAX_SAMPLE = 40, STXT = 400;

struct violation_t
{
  char key[128], suite[64], text[VTXT];
  uint64_t idx;
};
struct slab_t // one per worker slot
{
  volatile uint64_t case_idx;
  volatile int32_t case_suite; // -1: between cases
  uint64_t evals, cases;
  uint64_t cnt[MAX_CNT];
  uint32_t nviol, nviol_total, nsample;
  violation_t viol[MAX_V];
  char sample[MAX_SAMPLE][STXT];
};
struct shared_t
{
  std::atomic<uint64_t> next[64];
  std::atomic<uint64_t> distinct;
  std::atomic<uint64_t> distinct_bulk;
  std::atomic<uint32_t> stop;
  slab_t slab[MAX_JOBS + 1]; // the last: parent
};

inline shared_t* sh = nullptr;
inline slab_t* me = nullptr;
inline int my_slot = MAX_JOBS;
inline std::atomic<uint64_t>* dset = nullptr;
constexpr uint64_t DSET = 1ull << 22;
inline double* accbase = nullptr; // [slot][total]
inline int njobs = 8;
inline uint64_t seed = 1;
inline bool thorough = false, verbose = false;
inline double scale = 1.0;

struct counter_t;
inline std::vector<bool>&
counter_is_max()
{
  static std::vector<bool> v;
  return v;
}
inline std::vector<const char*>&
counter_names()
{
  static std::vector<const char*> v;
  return v;
}
struct counter_t
{
  enum mode_t
  {
    SUM,
    MAX
  };
  size_t id;
  mode_t mode;
  explicit counter_t(const char* name, mode_t mode = SUM)
    : mode(mode)
  {
    id = counter_names().size();
    counter_names().push_back(name);
    counter_is_max().push_back(mode == MAX);
    if (id >= MAX_CNT)
      abort();
  }
  void add(uint64_t k = 1) { __atomic_fetch_add(&me->cnt[id], k, __ATOMIC_RELAXED); }
  void operator++(int) { add(); }
  void max(uint64_t v)
  {
    if (v > me->cnt[id])
      me->cnt[id] = v;
  }
  uint64_t total() const
  {
    uint64_t t = 0;
    for (size_t s = 0; s <= MAX_JOBS; s++)
      t = mode == MAX ? std::max<uint64_t>(t, sh->slab[s].cnt[id]) : t + sh->slab[s].cnt[id];
    return t;
  }
};

inline size_t&
acc_total()
{
  static size_t t = 0;
  return t;
}
// Vector of sums, one copy per worker, added up for the finish oracles.
struct acc_t
{
  size_t off, n;
  explicit acc_t(size_t n)
    : off(acc_total())
    , n(n)
  {
    acc_total() += n;
  }
  double& operator[](size_t i) { return accbase[my_slot * acc_total() + off + i]; }
  double total(size_t i) const
  {
    double t = 0;
    for (size_t s = 0; s <= MAX_JOBS; s++)
      t += accbase[s * acc_total() + off + i];
    return t;
  }
};

inline void
eval(uint64_t k = 1)
{
  __atomic_fetch_add(&me->evals, k, __ATOMIC_RELAXED);
}

// Note a distinct non-trivial case, identified by a hash of what it was.
inline void
distinct(uint64_t h)
{
  if (!h)
    h = 1;
  if (sh->distinct.load(std::memory_order_relaxed) > DSET * 3 / 4)
    return;
  for (uint64_t i = mix64(h) & (DSET - 1);; i = (i + 1) & (DSET - 1)) {
    uint64_t cur = dset[i].load(std::memory_order_relaxed);
    if (cur == h)
      return;
    if (cur == 0) {
      if (dset[i].compare_exchange_strong(cur, h)) {
        sh->distinct.fetch_add(1);
        return;
      }
      if (cur == h)
        return;
    }
  }
}

// `k` further cases, distinct by construction (exhaustive enumerations).
inline void
distinct_bulk(uint64_t k)
{
  sh->distinct_bulk.fetch_add(k);
}

struct case_t
{
  const char* suite;
  uint64_t idx;
  rng_t rng;
};
struct case_abort
{
};
inline thread_local case_t* cur = nullptr;

__attribute__((format(printf, 1, 2))) inline void
sample(const char* fmt, ...)
{
  const uint32_t lim = 12;
  if (me->nsample >= lim)
    return;
  char* p = me->sample[me->nsample++];
  int k = snprintf(p, STXT, "%s#%lu: ", cur ? cur->suite : "", cur ? cur->idx : 0ul);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(p + k, STXT - k, fmt, ap);
  va_end(ap);
}

inline void
record(const char* key, const char* suite, uint64_t idx, const char* text)
{
  me->nviol_total++;
  if (me->nviol < MAX_V) {
    auto& v = me->viol[me->nviol++];
    snprintf(v.key, sizeof v.key, "%s", key);
    snprintf(v.suite, sizeof v.suite, "%s", suite);
    snprintf(v.text, sizeof v.text, "%s", text);
    v.idx = idx;
  }
  if (verbose)
    fprintf(stderr, "[violation] %s (%s#%lu): %s\n", key, suite, idx, text);
}

// Report a violation; ends the case.
[[noreturn]] __attribute__((format(printf, 2, 3))) inline void
fail(const char* key, const char* fmt, ...)
{
  char buf[VTXT];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  record(key, cur ? cur->suite : "finish", cur ? cur->idx : 0, buf);
  throw case_abort{};
}
// Report from a finish oracle (does not end anything).
__attribute__((format(printf, 2, 3))) inline void
note_fail(const char* key, const char* fmt, ...)
{
  char buf[VTXT];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  record(key, cur ? cur->suite : "finish", cur ? cur->idx : 0, buf);
}

#define VH_REQUIRE(cond, key, ...)                                             \
  do {                                                                         \
    if (!(cond))                                                               \
      vh::fail(key, __VA_ARGS__);                                              \
  } while (0)

struct suite_t
{
  const char* name;
  void (*fn)(case_t&);
  uint64_t quick, thorough;
};
inline std::vector<suite_t>&
suites()
{
  static std::vector<suite_t> v;
  return v;
}
struct finish_t
{
  const char* name;
  void (*fn)();
};
inline std::vector<finish_t>&
finishers()
{
  static std::vector<finish_t> v;
  return v;
}
struct reg_suite
{
  reg_suite(const char* n, void (*f)(case_t&), uint64_t q, uint64_t t)
  {
    suites().push_back({ n, f, q, t });
  }
};
struct reg_finish
{
  reg_finish(const char* n, void (*f)()) { finishers().push_back({ n, f }); }
};
#define VH_SUITE(name, quick, thorough)                                        \
  static void vh_suite_##name(vh::case_t&);                                    \
  static vh::reg_suite vh_reg_##name{ #name, vh_suite_##name, quick,           \
                                      thorough };                              \
  static void vh_suite_##name([[maybe_unused]] vh::case_t& c)
#define VH_FINISH(name)                                                        \
  static void vh_fin_##name();                                                 \
  static vh::reg_finish vh_regf_##name{ #name, vh_fin_##name };                \
  static void vh_fin_##name()

inline std::string
hex(const void* p, size_t n)
{
  std::string r;
  char b[3];
  for (size_t i = 0; i < n; i++) {
    snprintf(b, 3, "%02x", static_cast<const uint8_t*>(p)[i]);
    r += b;
  }
  return r;
}

inline thread_local uint64_t shifts = 0;
// Heap buffer of exactly n bytes. Plain builds: surrounded by canaries that
// `intact` checks. ASan builds: a bare allocation, red zones do the work.
struct gbuf
{
  static constexpr size_t G = 64;
  uint8_t* raw;
  size_t n, at = G;
  // bytes shifts the buffer to any alignment (never for arrays of numbers)
  explicit gbuf(size_t n, int fillbyte = 0xa5, bool bytes = false)
    : n(n)
  {
#ifdef VH_ASAN
    raw = static_cast<uint8_t*>(malloc(n ? n : 1));
    // n == 0: one byte exists but none may be touched
    memset(data(), fillbyte, n);
#else
    if (bytes || (n & 3))
      at += mix64(shifts++) % 16;
    raw = static_cast<uint8_t*>(malloc(n + 2 * G + 16));
    memset(raw, 0xc7, at);
    memset(raw + at, fillbyte, n);
    memset(raw + at + n, 0xc9, G);
#endif
  }
  gbuf(const void* p, size_t n)
    : gbuf(n)
  {
    if (n)
      memcpy(data(), p, n);
  }
  gbuf(const uint8_t* p, size_t n)
    : gbuf(n, 0xa5, true)
  {
    if (n)
      memcpy(data(), p, n);
  }
  explicit gbuf(const std::vector<uint8_t>& v)
    : gbuf(v.data(), v.size())
  {
  }
  gbuf(const gbuf&) = delete;
  gbuf& operator=(const gbuf&) = delete;
  ~gbuf() { free(raw); }
  uint8_t* data() const
  {
#ifdef VH_ASAN
    return raw + (n == 0); // no byte of an empty buffer may be touched
#else
    return raw + at;
#endif
  }
  uint8_t& operator[](size_t i) const { return data()[i]; }
  bool intact() const
  {
#ifndef VH_ASAN
    for (size_t i = 0; i < G; i++)
      if (raw[at - 1 - i] != 0xc7 || raw[at + n + i] != 0xc9)
        return false;
#endif
    return true;
  }
  bool equals(const std::vector<uint8_t>& v) const
  {
    return v.size() == n && (n == 0 || memcmp(v.data(), data(), n) == 0);
  }
};

inline uint64_t default_budget = 400'000'000; // random bytes per case

inline void
run_case(const suite_t& s, int si, uint64_t idx)
{
  uint64_t h = seed;
  h = mix64(h ^ hash_bytes(s.name, strlen(s.name)));
  h = mix64(h + idx);
  case_t c{ s.name, idx, rng_t{ h } };
  cur = &c;
  seed_entropy(mix64(h ^ 0x51ed270b));
  shifts = h;
  vhook::prng_override = nullptr;
  vhook::on_seed = nullptr;
  vhook::on_read = nullptr;
  vhook::prng_bytes = vhook::prng_reads = vhook::prng_seeds = 0;
  vhook::prng_budget = default_budget;
  me->case_idx = idx;
  me->case_suite = si;
  try {
    s.fn(c);
  } catch (const case_abort&) {
  } catch (const vhook::budget_exceeded& b) {
    char t[160];
    snprintf(t, sizeof t, "call did not finish within %lu random bytes", b.bytes);
    record("unbounded-randomness", s.name, idx, t);
  } catch (const std::exception& e) {
    record("exception", s.name, idx, e.what());
  } catch (...) {
    record("exception", s.name, idx, "unknown exception");
  }
  me->cases++;
  me->case_suite = -1;
  cur = nullptr;
}

inline uint64_t
suite_count(const suite_t& s)
{
  const uint64_t full = thorough ? s.thorough : s.quick;
  if (full == 0)
    return 0;
  // a suite that is complete at its thorough size is not enlarged beyond it
  const double k = std::min(std::ceil(static_cast<double>(full) * scale), static_cast<double>(std::max(s.quick, s.thorough)));
  return k < 1 ? 1 : static_cast<uint64_t>(k);
}

inline void
arm(unsigned secs)
{
  itimerval t{};
  t.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &t, nullptr);
}

inline std::string
slurp_tail(const std::string& path, size_t max)
{
  std::string r;
  if (FILE* f = fopen(path.c_str(), "r")) {
    char b[4096];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0)
      r.append(b, k);
    fclose(f);
  }
  if (r.size() > max)
    r = r.substr(0, max);
  return r;
}

inline std::string
jesc(const char* s)
{
  std::string r;
  for (; *s; s++) {
    const unsigned char ch = static_cast<unsigned char>(*s);
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += *s;
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r += *s;
    }
  }
  return r;
}

struct opts_t
{
  std::string out, replay, only, tmp = "/tmp";
  unsigned cpu = 120;
};
inline opts_t opts;

inline void
worker(int slot)
{
  my_slot = slot;
  me = &sh->slab[slot];
  auto& ss = suites();
  for (size_t si = 0; si < ss.size(); si++) {
    if (!opts.only.empty() && opts.only != ss[si].name)
      continue;
    const uint64_t n = suite_count(ss[si]);
    while (!sh->stop.load(std::memory_order_relaxed)) {
      const uint64_t idx = sh->next[si].fetch_add(1);
      if (idx >= n)
        break;
      arm(opts.cpu);
      run_case(ss[si], static_cast<int>(si), idx);
      if (me->nviol_total >= 8)
        return;
    }
  }
}

inline pid_t
spawn(int slot, std::function<void()> body)
{
  fflush(stdout);
  fflush(stderr);
  const pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    const std::string log = opts.tmp + "/w" + std::to_string(slot) + ".err";
    const int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) {
      dup2(fd, 2);
      close(fd);
    }
    body();
    _exit(0);
  }
  return p;
}

inline int
main_(int argc, char** argv)
{
  if (const char* e = getenv("VERIF_SEED"))
    seed = strtoull(e, nullptr, 0);
  if (const char* e = getenv("VERIF_TIER"))
    thorough = !strcmp(e, "thorough");
  for (int i = 1; i < argc; i++) {
    const std::string a = argv[i];
    auto val = [&]() { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed")
      seed = strtoull(val(), nullptr, 0);
    else if (a == "--thorough")
      thorough = true;
    else if (a == "--scale")
      scale = atof(val());
    else if (a == "--jobs")
      njobs = atoi(val());
    else if (a == "--out")
      opts.out = val();
    else if (a == "--replay")
      opts.replay = val();
    else if (a == "--only")
      opts.only = val();
    else if (a == "--cpu")
      opts.cpu = static_cast<unsigned>(atoi(val()));
    else if (a == "--tmp")
      opts.tmp = val();
    else if (a == "--budget")
      default_budget = strtoull(val(), nullptr, 0);
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 3;
    }
  }
  if (njobs > static_cast<int>(MAX_JOBS))
    njobs = MAX_JOBS;
  auto shm = [](size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(3);
    }
    return p;
  };
  sh = static_cast<shared_t*>(shm(sizeof(shared_t)));
  dset = static_cast<std::atomic<uint64_t>*>(shm(DSET * 8));
  accbase = static_cast<double*>(shm((MAX_JOBS + 1) * (acc_total() + 1) * sizeof(double)));
  for (auto& s : sh->slab)
    s.case_suite = -1;
  my_slot = MAX_JOBS;
  me = &sh->slab[MAX_JOBS];
#if !defined(VH_ASAN) && !defined(VH_MSAN) && !defined(VH_TSAN)
  {
    rlimit rl{ 12ull << 30, 12ull << 30 };
    setrlimit(RLIMIT_AS, &rl);
  }
#endif
  auto& ss = suites();
  const auto t_begin = std::chrono::steady_clock::now();

  if (!opts.replay.empty()) {
    const size_t colon = opts.replay.find(':');
    const std::string nm = opts.replay.substr(0, colon);
    const uint64_t idx = colon == std::string::npos ? 0 : strtoull(opts.replay.c_str() + colon + 1, nullptr, 0);
    verbose = true;
    for (size_t si = 0; si < ss.size(); si++)
      if (nm == ss[si].name) {
        arm(opts.cpu);
        run_case(ss[si], static_cast<int>(si), idx);
      }
    printf("replay: %u violation(s)\n", me->nviol_total);
    return me->nviol_total ? 1 : 0;
  }

  std::vector<pid_t> pid(njobs, -1);
  std::vector<int> restarts(njobs, 0);
  int live = 0, harness_error = 0;
  for (int s = 0; s < njobs; s++) {
    pid[s] = spawn(s, [s] { worker(s); });
    live++;
  }
  while (live > 0) {
    int st = 0;
    const pid_t p = waitpid(-1, &st, 0);
    if (p < 0)
      break;
    int slot = -1;
    for (int s = 0; s < njobs; s++)
      if (pid[s] == p)
        slot = s;
    if (slot < 0)
      continue;
    pid[slot] = -1;
    live--;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      if (sh->slab[slot].nviol_total >= 8)
        sh->stop = 1;
      continue;
    }
    auto& sl = sh->slab[slot];
    const int si = sl.case_suite;
    const uint64_t idx = sl.case_idx;
    std::string err = slurp_tail(opts.tmp + "/w" + std::to_string(slot) + ".err", VTXT - 300);
    if (si < 0) {
      fprintf(stderr, "worker died outside a case (status %x): %s\n", st, err.c_str());
      harness_error = 1;
      continue;
    }
    bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
    const bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
    char what[128];
    if (WIFSIGNALED(st))
      snprintf(what, sizeof what, "signal %d", WTERMSIG(st));
    else
      snprintf(what, sizeof what, "exit status %d", WEXITSTATUS(st));
    bool confirmed = !killed;
    if (hang && sh->stop.load()) { // a hang is on record already
      sl.case_suite = -1;
      continue;
    }
    if (hang || killed) { // once more, alone, with a larger limit
      const pid_t q = spawn(slot, [&] {
        my_slot = slot;
        me = &sh->slab[slot];
        arm(opts.cpu + opts.cpu / 2);
        run_case(ss[si], si, idx);
      });
      int st2 = 0;
      waitpid(q, &st2, 0);
      confirmed = WIFSIGNALED(st2) && WTERMSIG(st2) == WTERMSIG(st) && !killed;
      if (killed && !(WIFEXITED(st2) && WEXITSTATUS(st2) == 0)) {
        fprintf(stderr, "worker killed twice in %s#%lu\n", ss[si].name, idx);
        harness_error = 1;
      }
    }
    if (confirmed) {
      char key[128];
      const char* kind = hang ? "hang" : "crash";
      if (!hang && (err.find("Sanitizer") != std::string::npos || err.find("runtime error") != std::string::npos))
        kind = "sanitizer";
      snprintf(key, sizeof key, "%s", kind);
      std::string txt = std::string(what) + "\n" + err;
      my_slot = MAX_JOBS;
      me = &sh->slab[MAX_JOBS];
      record(key, ss[si].name, idx, txt.c_str());
    }
    sl.case_suite = -1;
    if (hang && confirmed)
      sh->stop = 1;
    if (++restarts[slot] <= 3 && !sh->stop.load()) {
      pid[slot] = spawn(slot, [slot] { worker(slot); });
      live++;
    }
  }
  my_slot = MAX_JOBS;
  me = &sh->slab[MAX_JOBS];
  uint32_t nv = 0;
  for (auto& s : sh->slab)
    nv += s.nviol_total;
  const bool complete = sh->stop.load() == 0 && nv == 0;
  if (complete && opts.only.empty())
    for (auto& f : finishers()) {
      case_t c{ f.name, 0, rng_t{ seed } };
      cur = &c;
      try {
        f.fn();
      } catch (const case_abort&) {
      }
      cur = nullptr;
    }
  // ------------------------------------------------------------ result file
  uint64_t evals = 0, cases = 0;
  nv = 0;
  for (auto& s : sh->slab) {
    evals += s.evals;
    cases += s.cases;
    nv += s.nviol_total;
  }
  const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t_begin).count();
  FILE* f = opts.out.empty() ? stdout : fopen(opts.out.c_str(), "w");
  if (!f)
    return 3;
  fprintf(f, "{\"evaluations\":%lu,\"cases\":%lu,\"distinct\":%lu,\"wall\":%.2f,\"harness_error\":%d,\n", evals, cases,
          sh->distinct.load() + sh->distinct_bulk.load(), wall, harness_error);
  fprintf(f, "\"suites\":{");
  bool first = true;
  for (size_t si = 0; si < ss.size(); si++) {
    fprintf(f, "%s\"%s\":%lu", first ? "" : ",", ss[si].name, suite_count(ss[si]));
    first = false;
  }
  fprintf(f, "},\n\"counters\":{");
  for (size_t i = 0; i < counter_names().size(); i++) {
    uint64_t t = 0;
    for (auto& s : sh->slab)
      t = counter_is_max()[i] ? std::max<uint64_t>(t, s.cnt[i]) : t + s.cnt[i];
    fprintf(f, "%s\"%s\":%lu", i ? "," : "", counter_names()[i], t);
  }
  fprintf(f, "},\n\"samples\":[");
  int k = 0;
  for (uint32_t j = 0; j < MAX_SAMPLE && k < 30; j++)
    for (auto& s : sh->slab)
      if (j < s.nsample && k < 30)
        fprintf(f, "%s\"%s\"", k++ ? ",\n" : "", jesc(s.sample[j]).c_str());
  fprintf(f, "],\n\"violations_total\":%u,\"violations\":[", nv);
  k = 0;
  for (auto& s : sh->slab)
    for (uint32_t j = 0; j < s.nviol; j++)
      fprintf(f, "%s{\"key\":\"%s\",\"suite\":\"%s\",\"idx\":%lu,\"text\":\"%s\"}", k++ ? ",\n" : "", jesc(s.viol[j].key).c_str(),
              s.viol[j].suite, s.viol[j].idx, jesc(s.viol[j].text).c_str());
  fprintf(f, "]}\n");
  if (f != stdout)
    fclose(f);
  return harness_error ? 3 : (nv ? 1 : 0);
}

}

// System entropy, as seen by std::random_device, under the monitor's control.
#ifndef VH_NO_ENTROPY
std::random_device::result_type
std::random_device::_M_getval()
{
  return vh::entropy().word();
}
#endif

#ifndef VH_NO_MAIN
int
main(int argc, char** argv)
{
  return vh::main_(argc, argv);
}
#endif
