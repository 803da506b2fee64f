// Common support for the monitored workloads ("harnesses").
//
// A harness is a set of families; a family is a workload whose cases are
// derived from (seed, family, index) alone, so that every case can be replayed.
// While a case runs, the sanitizers built into the binary and the oracle calls
// of the case watch the execution. Everything that goes wrong ends up on
// stdout as one line starting with VP-FAIL / VP-CRASH / VP-HANG that names the
// family and the case.
#ifndef VP_H
#define VP_H
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <signal.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#define VP_TSAN 1
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VP_TSAN 1
#endif
#endif
#if defined(VP_ASAN) || defined(VP_TSAN)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#if defined(VP_ASAN)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

// What a workload shares between its cases is kept by each thread for itself
// when several threads run cases at once.
#if defined(VP_THREADS)
#define VP_TLS thread_local
#include <condition_variable>
#include <thread>
#else
#define VP_TLS
#endif

namespace vp {
inline uint64_t mix(uint64_t X) {
  X += 0x9e3779b97f4a7c15ull;
  X = (X ^ (X >> 30)) * 0xbf58476d1ce4e5b9ull;
  X = (X ^ (X >> 27)) * 0x94d049bb133111ebull;
  return X ^ (X >> 31);
}
inline uint64_t hashBytes(const void *P, size_t N, uint64_t H = 1469598103934665603ull) {
  auto *B = static_cast<const unsigned char *>(P);
  for (size_t I = 0; I < N; ++I) { H ^= B[I]; H *= 1099511628211ull; }
  return mix(H);
}
inline uint64_t hashStr(const std::string &S) { return hashBytes(S.data(), S.size()); }

struct Rng {
  uint64_t S;
  explicit Rng(uint64_t Seed) : S(Seed) {}
  uint64_t next() { S += 0x9e3779b97f4a7c15ull; return mix(S); }
  // Uniform in [0, N).
  uint64_t below(uint64_t N) { return N ? next() % N : 0; }
  // Uniform in [A, B].
  int64_t range(int64_t A, int64_t B) { return A + (int64_t)below((uint64_t)(B - A + 1)); }
  bool chance(unsigned Num, unsigned Den) { return below(Den) < Num; }
  template<class C> auto &pick(C &Coll) { return Coll[below(std::size(Coll))]; }
  // A size with many small and some large values.
  size_t size(size_t Max) {
    switch (below(4)) {
    case 0: return below(std::min<size_t>(Max, 2) + 1);
    case 1: return below(std::min<size_t>(Max, 5) + 1);
    case 2: return below(std::min<size_t>(Max, 16) + 1);
    default: return below(Max + 1);
    }
  }
};

inline std::string fmt(const char *F, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *F, ...) {
  va_list A; va_start(A, F);
  char *P = nullptr;
  if (vasprintf(&P, F, A) < 0) P = nullptr;
  va_end(A);
  std::string R = P ? P : "";
  free(P);
  return R;
}
// Printable form of arbitrary bytes.
inline std::string show(const std::string &S, size_t Max = 400) {
  std::string R;
  for (size_t I = 0; I < S.size() && R.size() < Max; ++I) {
    unsigned char C = S[I];
    if (C == '\\') R += "\\\\";
    else if (C >= 32 && C < 127) R += (char)C;
    else R += fmt("\\x%02x", C);
  }
  if (R.size() >= Max) R += fmt("...(%zu bytes)", S.size());
  return R;
}

struct Case;
struct Family {
  std::string Name;
  uint64_t Quick, Thorough;
  std::function<void(Case &)> Body;
  bool LeakCheck;
};
inline std::vector<Family> &families() { static std::vector<Family> F; return F; }

struct Stop {}; // thrown to end a failed case

struct Global {
  uint64_t Seed = 1;
  bool Thorough = false;
  std::string Prefix = "";
  char CurFamily[128] = "none";
  std::atomic<uint64_t> CurCase{0};
  uint64_t Failures = 0;
  uint64_t Evaluations = 0;
  bool Replay = false;
  bool Alone = false;
  std::unordered_set<uint64_t> Distinct;
  std::map<std::string, uint64_t> Counters;
  std::map<std::string, std::unordered_set<uint64_t>> Sets;
  std::map<std::string, std::vector<std::string>> Samples;
  std::recursive_mutex M;
};
inline char *curInput() { static VP_TLS char S[2048]; return S; }
inline Global &G() { static Global *X = new Global; return *X; }

inline void printLocation(const char *What) {
  // Async-signal-safe enough for a dying process.
  char B[4096];
  int N = snprintf(B, sizeof B, "\n%s family=%s case=%llu seed=%llu key=%s input=%s\n", What, G().CurFamily,
    (unsigned long long)G().CurCase.load(), (unsigned long long)G().Seed,
    What[3] == 'C' ? "crash" : "hang", curInput());
  if (N > (int)sizeof B) N = sizeof B - 1;
  if (N > 0) { ssize_t R = write(1, B, N); (void)R; }
}
inline void onDeath() { printLocation("VP-CRASH"); }
inline void onAlarm(int) { printLocation("VP-HANG"); _exit(86); }
inline void onAbort(int) { printLocation("VP-CRASH"); signal(SIGABRT, SIG_DFL); raise(SIGABRT); }

struct Case {
  Rng R;
  uint64_t Index;
  bool Thorough;
  std::string FamilyName;
  // Describes the input of the case; shown when it fails or crashes.
  void input(const std::string &S) {
    size_t N = std::min<size_t>(S.size(), 2047);
    std::string P = show(S, 2048 - 40);
    N = std::min<size_t>(P.size(), 2047);
    memcpy(curInput(), P.data(), N);
    curInput()[N] = 0;
  }
  void fail(const std::string &Key, const std::string &Msg) {
    std::lock_guard<std::recursive_mutex> L(G().M);
    ++G().Failures;
    printf("\nVP-FAIL family=%s case=%llu seed=%llu key=%s msg=%s input=%s\n", G().CurFamily,
      (unsigned long long)Index, (unsigned long long)G().Seed, Key.c_str(), show(Msg, 1500).c_str(), curInput());
    fflush(stdout);
    throw Stop();
  }
  void check(bool Ok, const char *Key, const std::string &Msg) { if (!Ok) fail(Key, Msg); }
  // Records one distinct non-trivial case (by the hash of what makes it so).
  void distinct(uint64_t H) { Pending.push_back(H); }
  void distinct(const std::string &S) { Pending.push_back(hashStr(S)); }
  void count(const char *Name, uint64_t N = 1) {
#if !defined(VP_THREADS) // each thread has a case of its own, and a lock would order the threads
    std::lock_guard<std::recursive_mutex> L(G().M);
#endif
    PendingCount.emplace_back(Name, N);
  }
  // Records a member of a named set, e.g. a distinct state or interleaving.
  void member(const char *Set, uint64_t H) {
#if !defined(VP_THREADS)
    std::lock_guard<std::recursive_mutex> L(G().M);
#endif
    PendingSet.emplace_back(Set, H);
  }
  void sample(const std::string &S) { if (PendingSample.empty()) PendingSample = S; }
  void flush() {
    auto &Gl = G();
    for (auto H : Pending) Gl.Distinct.insert(mix(H ^ hashStr(FamilyName)));
    for (auto &C : PendingCount) Gl.Counters[C.first] += C.second;
    for (auto &C : PendingSet) Gl.Sets[C.first].insert(C.second);
    auto &S = Gl.Samples[FamilyName];
    if (!PendingSample.empty() && S.size() < 2) S.push_back(show(PendingSample, 600));
  }
  std::vector<uint64_t> Pending;
  std::vector<std::pair<const char *, uint64_t>> PendingCount;
  std::vector<std::pair<const char *, uint64_t>> PendingSet;
  std::string PendingSample;
};
#define VP_CHECK(c, cond, key, msg) do { if (!(cond)) (c).fail(key, std::string(#cond) + ": " + (msg)); } while (0)

struct Registrar {
  Registrar(const char *Name, uint64_t Q, uint64_t T, std::function<void(Case &)> B, bool Leak = true) {
    families().push_back(Family{Name, Q, T, B, Leak});
  }
};
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
// VP_FAMILY("Q01.history", quick-cases, thorough-cases) { ... c ... }
#define VP_FAMILY_(name, q, t, leak, fn) \
  static void fn(vp::Case &c); \
  static vp::Registrar VP_CAT(fn, _reg)(name, q, t, fn, leak); \
  static void fn(vp::Case &c)
#define VP_FAMILY(name, q, t) VP_FAMILY_(name, q, t, true, VP_CAT(vp_family_, __LINE__))
#define VP_FAMILY_NOLEAK(name, q, t) VP_FAMILY_(name, q, t, false, VP_CAT(vp_family_, __LINE__))

inline double now() { timespec T; clock_gettime(CLOCK_MONOTONIC, &T); return T.tv_sec + T.tv_nsec * 1e-9; }
inline size_t heapBytes() {
#if defined(VP_ASAN)
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

// One execution of a case. Returns bytes still allocated afterwards.
inline long runOnce(const Family &F, uint64_t Index, bool Record, bool &Failed) {
  uint64_t S = mix(mix(G().Seed) ^ hashStr(F.Name)) ^ mix(Index * 2654435761u + 17);
  Failed = false;
  long Leak = 0;
  {
    Case C{Rng(S), Index, G().Thorough, F.Name, {}, {}, {}, {}};
    C.Pending.reserve(64); C.PendingCount.reserve(256); C.PendingSet.reserve(1024); C.PendingSample.reserve(4096);
    size_t Before = heapBytes();
    try { F.Body(C); }
    catch (Stop &) { Failed = true; }
    size_t After = heapBytes();
    // The bookkeeping vectors may have grown: only growth with unchanged
    // capacities is a leak of the code under test.
    size_t Own = 0;
    if (C.Pending.capacity() != 64) Own += C.Pending.capacity() * 8 - 512;
    if (C.PendingCount.capacity() != 256) Own += (C.PendingCount.capacity() - 256) * sizeof(C.PendingCount[0]);
    if (C.PendingSet.capacity() != 1024) Own += (C.PendingSet.capacity() - 1024) * sizeof(C.PendingSet[0]);
    if (C.PendingSample.capacity() > 4096) Own += C.PendingSample.capacity() - 4096;
    Leak = (long)After - (long)Before - (long)Own;
    if (Record && !Failed) C.flush();
  }
  return Leak;
}

#if defined(VP_THREADS)
// Runs a function in all its threads at once.
struct Pool {
  std::mutex M; std::condition_variable Go, Back; unsigned Round = 0, Busy = 0;
  const std::function<void(unsigned)> *F = nullptr; std::atomic<unsigned> Ready{0};
  Pool() { if (!G().Alone) for (unsigned K = 0; K < VP_THREADS; ++K) std::thread([this, K] { work(K); }).detach(); }
  void work(unsigned K) {
    for (unsigned Done = 0;;) {
      const std::function<void(unsigned)> *Fn;
      { std::unique_lock<std::mutex> L(M); Go.wait(L, [&] { return Round != Done; }); Done = Round; Fn = F; }
      // From here on the threads do not wait for each other.
      Ready.fetch_add(1, std::memory_order_relaxed);
      for (unsigned Spin = 0; Ready.load(std::memory_order_relaxed) < VP_THREADS; ++Spin) if (Spin > 100) std::this_thread::yield();
      (*Fn)(K);
      { std::unique_lock<std::mutex> L(M); if (--Busy == 0) Back.notify_one(); }
    }
  }
  void run(const std::function<void(unsigned)> &Fn) {
    // One after another shows whether a failure needs several threads.
    if (G().Alone) { for (unsigned K = 0; K < VP_THREADS; ++K) Fn(K); return; }
    std::unique_lock<std::mutex> L(M);
    F = &Fn; Busy = VP_THREADS; Ready = 0; ++Round; Go.notify_all();
    Back.wait(L, [&] { return Busy == 0; });
  }
};
inline Pool &pool() { static Pool *P = new Pool; return *P; }
// Cases of a family in several threads at once, from the first use of the code
// on. Nothing but the start orders the threads, so the race detector sees each
// access of one thread as concurrent with those of all others.
inline bool runThreads(const Family &F, uint64_t Index) {
  const unsigned N = VP_THREADS;
  std::atomic<bool> Bad{false};
  double From[VP_THREADS], To[VP_THREADS];
  std::vector<std::unique_ptr<Case>> Cases;
  for (unsigned K = 0; K < N; ++K) {
    // The same case in all threads or different ones.
    uint64_t I = Index % 2 ? Index : (Index + K * 97) % (G().Thorough ? F.Thorough : F.Quick);
    uint64_t S = mix(mix(G().Seed) ^ hashStr(F.Name)) ^ mix(I * 2654435761u + 17);
    Cases.emplace_back(new Case{Rng(S), I, G().Thorough, F.Name, {}, {}, {}, {}});
  }
  pool().run([&](unsigned K) {
    curInput()[0] = 0;
    From[K] = now();
    try { F.Body(*Cases[K]); } catch (Stop &) { Bad.store(true, std::memory_order_relaxed); }
    To[K] = now();
  });
  if (Bad) return false;
  unsigned Overlap = 0; uint64_t Order = 0;
  for (unsigned A = 0; A < N; ++A)
    for (unsigned B = 0; B < N; ++B) {
      if (A < B && From[A] < To[B] && From[B] < To[A]) ++Overlap;
      Order = Order * 4 + (To[A] < To[B]) * 2 + (From[A] < From[B]);
    }
  for (auto &C : Cases) { C->flush(); ++G().Evaluations; }
  G().Sets["thread_orders"].insert(Order);
  G().Counters["overlapping_pairs"] += Overlap;
  G().Counters["rounds"] += 1;
  return true;
}
#endif

inline int mainImpl(int argc, char **argv) {
  auto &Gl = G();
  std::string Out, Only;
  uint64_t Shard = 0, Shards = 1, OnlyCase = ~0ull;
  double Budget = 1e9; double Scale = 1;
  unsigned Alarm = 120;
  for (int I = 1; I < argc; ++I) {
    std::string A = argv[I];
    auto val = [&]() -> std::string { return I + 1 < argc ? argv[++I] : ""; };
    if (A == "--seed") Gl.Seed = strtoull(val().c_str(), 0, 10);
    else if (A == "--thorough") Gl.Thorough = true;
    else if (A == "--prop") Gl.Prefix = val();
    else if (A == "--out") Out = val();
    else if (A == "--shard") { auto S = val(); sscanf(S.c_str(), "%lu/%lu", &Shard, &Shards); }
    else if (A == "--family") Only = val();
    else if (A == "--case") OnlyCase = strtoull(val().c_str(), 0, 10);
    else if (A == "--budget") Budget = atof(val().c_str());
    else if (A == "--scale") Scale = atof(val().c_str());
    else if (A == "--alarm") Alarm = atoi(val().c_str());
    else if (A == "--alone") Gl.Alone = true;
    else if (A == "--list") { for (auto &F : families()) printf("%s\n", F.Name.c_str()); return 0; }
  }
#if defined(VP_ASAN) || defined(VP_TSAN)
  __sanitizer_set_death_callback(onDeath);
#else
  signal(SIGABRT, onAbort);
  signal(SIGSEGV, onAbort);
#endif
  signal(SIGALRM, onAlarm);
  double Start = now();
  uint64_t Fam = 0;
  for (auto &F : families()) if (F.Name.compare(0, Gl.Prefix.size(), Gl.Prefix) == 0 && (Only.empty() || Only == F.Name)) ++Fam;
  uint64_t Done = 0;
  std::map<std::string, uint64_t> PerFamily;
  for (auto &F : families()) {
    if (F.Name.compare(0, Gl.Prefix.size(), Gl.Prefix) != 0 || (!Only.empty() && Only != F.Name)) continue;
    ++Done;
#if defined(VP_THREADS)
    if (F.Name == "M01.huge" || F.Name == "R02.faults" || F.Name == "R02.pool" || F.Name == "R03.memory") continue; // need the process for themselves
#endif
    double FamEnd = now() + (Start + Budget - now()) / (double)(Fam - Done + 1);
    uint64_t N = (uint64_t)((Gl.Thorough ? F.Thorough : F.Quick) * Scale);
    if (N < 1) N = 1;
    snprintf(Gl.CurFamily, sizeof Gl.CurFamily, "%s", F.Name.c_str());
    unsigned FamFailures = 0;
    for (uint64_t I = Shard; I < N || OnlyCase != ~0ull; I += Shards) {
      if (OnlyCase != ~0ull) I = OnlyCase;
      if (now() > FamEnd && I >= Shards) break;
      Gl.CurCase = I;
      curInput()[0] = 0;
      alarm(Alarm);
      bool Failed;
#if defined(VP_THREADS)
      long Leak = 0;
      if (F.LeakCheck) { Failed = !runThreads(F, I); PerFamily[F.Name] += VP_THREADS; }
      else { runOnce(F, I, true, Failed); ++Gl.Evaluations; ++PerFamily[F.Name]; } // has threads of its own
#else
      long Leak = runOnce(F, I, true, Failed);
      ++Gl.Evaluations; ++PerFamily[F.Name];
#endif
      if (Failed) ++FamFailures;
      else if (Leak > 0 && F.LeakCheck) {
        // Objects with static storage may have been built lazily: what leaks
        // leaks again. Asynchronous releases get some time.
        bool F2 = false;
        long L2 = runOnce(F, I, false, F2);
        if (!F2 && L2 > 0) { usleep(1000); L2 = runOnce(F, I, false, F2); }
        if (!F2 && L2 > 0) {
          ++Gl.Failures; ++FamFailures;
          printf("\nVP-FAIL family=%s case=%llu seed=%llu key=leak msg=%ld bytes are still allocated after the case (again %ld when repeated) input=%s\n",
            Gl.CurFamily, (unsigned long long)I, (unsigned long long)Gl.Seed, Leak, L2, curInput());
          fflush(stdout);
        }
      }
      alarm(0);
      if (FamFailures >= 2 || OnlyCase != ~0ull) break;
    }
  }
  if (!Out.empty()) {
    FILE *O = fopen(Out.c_str(), "w");
    auto esc = [](const std::string &S) { std::string R; for (char C : S) { if (C == '"' || C == '\\') R += '\\'; if ((unsigned char)C < 32) { R += fmt("\\u%04x", C); continue; } R += C; } return R; };
    fprintf(O, "{\"evaluations\":%llu,\"failures\":%llu,\"wall\":%f,\"families\":{", (unsigned long long)Gl.Evaluations, (unsigned long long)Gl.Failures, now() - Start);
    bool Fi = true;
    for (auto &P : PerFamily) { fprintf(O, "%s\"%s\":%llu", Fi ? "" : ",", P.first.c_str(), (unsigned long long)P.second); Fi = false; }
    fprintf(O, "},\"counters\":{"); Fi = true;
    for (auto &P : Gl.Counters) { fprintf(O, "%s\"%s\":%llu", Fi ? "" : ",", P.first.c_str(), (unsigned long long)P.second); Fi = false; }
    fprintf(O, "},\"sets\":{"); Fi = true;
    for (auto &P : Gl.Sets) {
      fprintf(O, "%s\"%s\":[", Fi ? "" : ",", P.first.c_str()); Fi = false;
      bool F2 = true;
      for (auto H : P.second) { fprintf(O, "%s\"%llx\"", F2 ? "" : ",", (unsigned long long)H); F2 = false; }
      fprintf(O, "]");
    }
    fprintf(O, "},\"samples\":{"); Fi = true;
    for (auto &P : Gl.Samples) {
      fprintf(O, "%s\"%s\":[", Fi ? "" : ",", P.first.c_str()); Fi = false;
      bool F2 = true;
      for (auto &S : P.second) { fprintf(O, "%s\"%s\"", F2 ? "" : ",", esc(S).c_str()); F2 = false; }
      fprintf(O, "]");
    }
    fprintf(O, "}}\n");
    fclose(O);
    FILE *H = fopen((Out + ".hashes").c_str(), "wb");
    for (auto X : Gl.Distinct) fwrite(&X, 8, 1, H);
    fclose(H);
  }
  printf("VP-DONE evaluations=%llu failures=%llu\n", (unsigned long long)Gl.Evaluations, (unsigned long long)Gl.Failures);
  fflush(stdout);
  return Gl.Failures ? 1 : 0;
}
} // namespace vp
#if defined(VP_NO_MAIN)
#define VP_MAIN
#else
#define VP_MAIN int main(int argc, char **argv) { return vp::mainImpl(argc, argv); }
#endif
#endif
