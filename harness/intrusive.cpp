// I01..I03: request/response connections. The socket is a stand-in which calls
// the listeners as a socket does (from one thread) and records what is sent;
// the last family uses the real C socket. Delays are injected around locks and
// notifications, so that the handler and the socket meet in many orders.
#include "vp.h"
#ifdef WITH_FAILURES
#define OOM_MAIN
#include <dlfcn.h>
#endif
#include "oom.h"
#include <bcl/CSocket.h>
#include <bcl/IntrusiveConnection.h>
#include <sstream>
#include <arpa/inet.h>
#include <deque>
#include <dirent.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <sys/socket.h>
#include <thread>

namespace {
std::atomic<bool> Jitter{false};
std::atomic<uint64_t> JitterSeed{1}, Jitters{0};
thread_local bool Inside = false;
// The order of lock operations and notifications of all threads in a case.
std::atomic<unsigned> Steps{0};
std::atomic<uint32_t> Trace[4096];
std::atomic<uint32_t> NextThread{1};
thread_local uint32_t Self = 0;
void step(uint32_t Op) {
  if (!Jitter.load(std::memory_order_relaxed) || Inside) return;
  if (!Self) Self = NextThread.fetch_add(1, std::memory_order_relaxed);
  unsigned I = Steps.fetch_add(1, std::memory_order_relaxed);
  if (I < 4096) Trace[I].store(Self << 3 | Op, std::memory_order_relaxed);
}
uint64_t interleaving() {
  std::map<uint32_t, uint32_t> Names; uint64_t H = 0;
  for (unsigned I = 0, N = std::min(Steps.load(), 4096u); I < N; ++I) {
    uint32_t X = Trace[I].load(std::memory_order_relaxed);
    auto T = Names.emplace(X >> 3, (uint32_t)Names.size()).first->second;
    H = vp::mix(H * 131 + (T << 3 | (X & 7)));
  }
  return H;
}
void jitter(unsigned Rare) {
  if (!Jitter.load(std::memory_order_relaxed) || Inside) return;
  Inside = true;
  uint64_t X = vp::mix(JitterSeed.fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed));
  if (X % Rare == 0) { Jitters.fetch_add(1, std::memory_order_relaxed); usleep((X >> 20) % ((X >> 60) ? 120 : 1500)); }
  else if (X % 3 == 0) sched_yield();
  Inside = false;
}
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *M) { jitter(6); int R = __real_pthread_mutex_lock(M); step(1); return R; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *M) { step(2); int R = __real_pthread_mutex_unlock(M); jitter(5); return R; }
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable *);
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable *C) {
  jitter(3);
  step(3);
  // An access the sanitizers can see, unlike those of the C++ library.
  volatile char *P = reinterpret_cast<volatile char *>(C); (void)*P;
  __real__ZNSt18condition_variable10notify_oneEv(C);
}
}

namespace {
// Everything that happens on one connection, in order.
struct Log {
  std::mutex M;
  std::vector<std::pair<char, std::string>> E;
  void add(char K, const std::string &S = "") { std::lock_guard<std::mutex> L(M); E.emplace_back(K, S); }
};
struct FakeSocket : bcl::Socket<std::string> {
  explicit FakeSocket(std::shared_ptr<Log> L) : L(L) {}
  void send(const std::string &M) const override { if (Dead) { L->add('!', M); return; } L->add('S', M); jitter(8); }
  void receive(const ReceiveCallback &F) const override { R.push_back(F); }
  void closed(const ClosedCallback &F) const override { C.push_back(F); }
  void deliver(const std::string &P) { for (auto &F : R) F(P); }
  void close(bool Ok) { Dead = true; for (auto &F : C) F(Ok); }
  std::shared_ptr<Log> L;
  mutable std::vector<ReceiveCallback> R;
  mutable std::vector<ClosedCallback> C;
  bool Dead = false;
};

int threads() {
  int N = 0;
  if (DIR *D = opendir("/proc/self/task")) { while (auto *E = readdir(D)) if (E->d_name[0] != '.') ++N; closedir(D); }
  return N;
}
// Handlers are detached: their threads have to end by themselves.
void awaitThreads(vp::Case &c, int N) {
  double Until = vp::now() + 25;
  while (threads() > N) { if (vp::now() > Until) c.fail("handler-stuck", "a handler thread does not end"); usleep(100); }
}
struct JitterOn {
  JitterOn(vp::Case &c) { JitterSeed = c.R.next(); Steps = 0; Jitter = c.R.chance(4, 5); }
  ~JitterOn() { Jitter = false; }
};

std::string respond(const std::string &Q) { return Q.size() % 5 == 4 ? std::string() : "re:" + std::string(Q.rbegin(), Q.rend()); }

struct Plan {
  char Delimiter;
  std::vector<std::string> Requests;
  std::vector<std::string> Pieces;
};
Plan plan(vp::Case &c, size_t MaxRequests) {
  auto &R = c.R;
  char Ds[] = {'$', '\n', ' ', 'x', '\xff', '\1', '\0', '\0'};
  Plan P; P.Delimiter = R.pick(Ds);
  size_t N = R.size(MaxRequests);
  bool Single = P.Delimiter == '\0';
  std::string Piece; bool Open = false;
  for (size_t I = 0; I < N; ++I) {
    std::string Q(R.size(40), 0);
    if (R.chance(1, 30)) Q.resize(R.below(20000));
    for (auto &Ch : Q) { do Ch = R.chance(1, 3) ? (char)R.below(256) : (char)('a' + R.below(26)); while (Ch == P.Delimiter); }
    // A request without a delimiter after it has to be the last of its piece,
    // and can be told from nothing only if it is not empty.
    bool NoDelimiter = !Q.empty() && R.chance(1, 4);
    P.Requests.push_back(Q);
    Piece += Q; if (!NoDelimiter) Piece += P.Delimiter;
    Open = true;
    if (NoDelimiter || Single || R.chance(1, 2)) { P.Pieces.push_back(Piece); Piece.clear(); Open = false; }
  }
  if (Open) P.Pieces.push_back(Piece);
  return P;
}
std::string describe(const Plan &P) { return vp::fmt("delimiter=%02x requests=%zu pieces=%zu:", (unsigned char)P.Delimiter, P.Requests.size(), P.Pieces.size()); }

// Compares what was sent with the expectation; a '\0' delimiter may be left out.
void compareSent(vp::Case &c, const std::vector<std::string> &Sent, const std::vector<std::string> &Responses, char D) {
  VP_CHECK(c, Sent.size() == Responses.size(), "responses", vp::fmt("%zu responses to %zu requests", Sent.size(), Responses.size()));
  for (size_t I = 0; I < Sent.size(); ++I)
    VP_CHECK(c, Sent[I] == Responses[I] + D || (D == '\0' && Sent[I] == Responses[I]), "response", vp::fmt("response %zu is ", I) + Sent[I].substr(0, 200) + " instead of " + Responses[I].substr(0, 200));
}
std::vector<std::string> of(Log &L, char K) { std::lock_guard<std::mutex> G(L.M); std::vector<std::string> R; for (auto &E : L.E) if (E.first == K) R.push_back(E.second); return R; }
uint64_t orders(Log &L) { std::lock_guard<std::mutex> G(L.M); uint64_t H = 0; for (auto &E : L.E) H = vp::mix(H * 131 + E.first); return H; }
// A request is handed over only after the previous one was answered.
void checkOrder(vp::Case &c, Log &L) {
  std::lock_guard<std::mutex> G(L.M);
  bool Open = false;
  for (auto &E : L.E) {
    if (E.first == 'Q') { VP_CHECK(c, !Open, "order", "a request is handed over before the previous one is answered"); Open = true; }
    if (E.first == 'S') Open = false;
    VP_CHECK(c, E.first != '!', "send-after-close", "something is sent to a closed socket");
  }
}
}

VP_FAMILY("I01.requests", 6000, 60000) {
  auto &R = c.R;
  int Th = threads();
  Plan P = plan(c, 30);
  auto L = std::make_shared<Log>();
  bool Ok = R.chance(1, 2);
  std::string In = describe(P); for (auto &X : P.Pieces) { if (In.size() < 1500) In += " " + X.substr(0, 60); }
  c.input(In);
  {
    JitterOn J(c);
    FakeSocket S(L);
    bool AsReference = R.chance(1, 2);
    auto Serve = [L](bcl::IntrusiveConnection C, const std::string &Tag, int N) {
      if (Tag != "argument" || N != 42) { L->add('!', "arguments"); }
      while (C.answer([&](const std::string &Q) { L->add('Q', Q); jitter(4); return respond(Q); }));
      L->add('E');
    };
    if (AsReference) bcl::IntrusiveConnection::connect(&S, P.Delimiter, Serve, std::string("argument"), 42);
    else bcl::IntrusiveConnection::connect(&S, P.Delimiter, std::move(Serve), "argument", 42);
    for (auto &X : P.Pieces) S.deliver(X);
    auto Sent = of(*L, 'S');
    S.close(Ok);
    awaitThreads(c, Th);
    VP_CHECK(c, of(*L, 'Q') == P.Requests, "requests", vp::fmt("the handler sees %zu requests of %zu or others", of(*L, 'Q').size(), P.Requests.size()));
    std::vector<std::string> E; for (auto &Q : P.Requests) E.push_back(respond(Q));
    VP_CHECK(c, Sent == of(*L, 'S'), "late-response", "a response is sent after the socket has been closed");
    compareSent(c, Sent, E, P.Delimiter);
    checkOrder(c, *L);
    VP_CHECK(c, of(*L, 'E').size() == 1, "no-end", "the handler is not told that the connection is broken");
    c.member("interleavings", interleaving());
    c.count("requests", P.Requests.size()); c.count("pieces", P.Pieces.size());
  }
  for (auto &X : P.Pieces) c.member("pieces", vp::hashStr(X));
  c.distinct(In); c.sample(In);
}

namespace {
// How a handler gives up a connection.
enum GiveUp { Return, Temporary, Vector, Pointer, OtherThread, AssignOver, NGiveUp };
const char *giveUpName(int G) { static const char *N[] = {"return", "temporary", "vector", "pointer", "thread", "assign"}; return N[G]; }
}

VP_FAMILY("I02.reject", 6000, 60000) {
  auto &R = c.R;
  int Th = threads();
  Plan P = plan(c, 14);
  // The other connection is what a connection is assigned to.
  Plan P2 = plan(c, 6);
  auto L = std::make_shared<Log>(), L2 = std::make_shared<Log>();
  size_t Answers = R.below(P.Requests.size() + 2);
  int G = (int)R.below(NGiveUp);
  bool CloseEarly = R.chance(1, 3);
  if (CloseEarly) P.Pieces.resize(R.below(P.Pieces.size() + 1)); // and no more requests
  size_t Delivered = 0;
  { // recount
    Plan T = P; size_t K = 0;
    for (auto &X : T.Pieces) {
      size_t Pos = 0;
      while (K < P.Requests.size() && Pos < X.size()) {
        auto &Q = P.Requests[K];
        if (X.compare(Pos, Q.size(), Q) != 0) break;
        Pos += Q.size(); if (Pos < X.size()) ++Pos;
        ++K;
      }
    }
    Delivered = K;
    P.Requests.resize(K);
  }
  std::string In = describe(P) + vp::fmt(" answers=%zu %s", Answers, giveUpName(G)); for (auto &X : P.Pieces) { if (In.size() < 1500) In += " " + X.substr(0, 60); }
  c.input(In);
  {
    JitterOn J(c);
    FakeSocket S(L), S2(L2);
    struct Exchange { std::mutex M; std::condition_variable CV; std::unique_ptr<bcl::IntrusiveConnection> C; bool Taken = false; };
    auto Ex = std::make_shared<Exchange>();
    auto Work = [](std::shared_ptr<Log> L, bcl::IntrusiveConnection &C, size_t N) {
      bool Open = true;
      for (size_t I = 0; I < N && Open; ++I) {
        Open = C.answer([&](const std::string &Q) { L->add('Q', Q); jitter(4); return respond(Q); });
        if (!Open) {
          L->add('E');
          // Nothing happens any more.
          if (C.answer([&](const std::string &Q) { L->add('!', Q); return Q; })) L->add('!', "answered");
        }
      }
      return Open;
    };
    if (G == AssignOver)
      bcl::IntrusiveConnection::connect(&S2, P2.Delimiter, [Ex](bcl::IntrusiveConnection C) {
        std::lock_guard<std::mutex> K(Ex->M);
        Ex->C.reset(new bcl::IntrusiveConnection(std::move(C)));
        Ex->CV.notify_all();
      });
    bcl::IntrusiveConnection::connect(&S, P.Delimiter, [=](bcl::IntrusiveConnection C) {
      using bcl::IntrusiveConnection;
      switch (G) {
      case Temporary: { IntrusiveConnection T(std::move(C)); Work(L, T, Answers); break; }
      case Vector: {
        std::vector<IntrusiveConnection> V; V.push_back(std::move(C)); V.reserve(V.capacity() + 10);
        if (C.answer([&](const std::string &Q) { L->add('!', Q); return Q; })) L->add('!', "moved");
        Work(L, V.front(), Answers); break;
      }
      case Pointer: { std::unique_ptr<IntrusiveConnection> U(new IntrusiveConnection(std::move(C))); Work(L, *U, Answers); U.reset(); jitter(2); break; }
      case OtherThread: {
        std::thread T([L, Answers, &Work](IntrusiveConnection C) { Work(L, C, Answers); }, std::move(C));
        T.join(); break;
      }
      case AssignOver: {
        std::unique_lock<std::mutex> K(Ex->M);
        Ex->CV.wait(K, [&] { return Ex->C != nullptr; });
        IntrusiveConnection Other(std::move(*Ex->C)); Ex->C.reset(); K.unlock();
        bool Open = Work(L, C, Answers);
        jitter(2);
        // The connection C is given up, Other goes on under its name.
        auto &Same = (C = std::move(Other));
        if (&Same != &C) L->add('!', "assignment");
        auto &Self = C; C = std::move(Self); // nothing happens
        (void)Open;
        if (Other.answer([&](const std::string &Q) { L2->add('!', Q); return Q; })) L2->add('!', "moved");
        Work(L2, C, ~size_t(0)); break;
      }
      default: Work(L, C, Answers);
      }
    });
    if (G == AssignOver) {
      std::thread T([&] { for (auto &X : P.Pieces) S.deliver(X); S.close(true); });
      for (auto &X : P2.Pieces) S2.deliver(X);
      S2.close(false);
      T.join();
    } else {
      for (auto &X : P.Pieces) { S.deliver(X); jitter(3); }
      S.close(R.chance(1, 2));
    }
    awaitThreads(c, Th);
    size_t N = std::min(Answers, Delivered);
    std::vector<std::string> Seen(P.Requests.begin(), P.Requests.begin() + N), E;
    for (auto &Q : Seen) E.push_back(respond(Q));
    for (size_t I = N; I < Delivered; ++I) { E.push_back("REJECT"); }
    for (auto &X : {L, L2}) { auto Bad = of(*X, '!'); VP_CHECK(c, Bad.empty(), "wrong-call", Bad.empty() ? "" : Bad[0]); }
    VP_CHECK(c, of(*L, 'Q') == Seen, "requests", vp::fmt("the handler sees %zu requests instead of %zu", of(*L, 'Q').size(), N));
    compareSent(c, of(*L, 'S'), E, P.Delimiter);
    checkOrder(c, *L);
    size_t Ends = Answers > Delivered ? 1 : 0;
    VP_CHECK(c, of(*L, 'E').size() == Ends, "no-end", "a waiting handler is not told that the connection is broken");
    if (G == AssignOver) {
      VP_CHECK(c, of(*L2, 'Q') == P2.Requests, "requests", "the assigned connection does not get its requests");
      std::vector<std::string> E2; for (auto &Q : P2.Requests) E2.push_back(respond(Q));
      compareSent(c, of(*L2, 'S'), E2, P2.Delimiter);
      VP_CHECK(c, of(*L2, 'E').size() == 1, "no-end", "the assigned connection is not broken at the end");
      checkOrder(c, *L2);
      c.count("assigned");
    }
    c.count("rejected", Delivered - N); c.count("answered", N); if (Ends) c.count("told_closed"); else c.count("given_up");
    c.member("interleavings", interleaving());
    c.member("ways", G);
    c.member("event_orders", orders(*L));
  }
  c.distinct(In); c.sample(In);
}

// Short lives: everything meets at the end.
VP_FAMILY("I03.teardown", 10000, 80000) {
  auto &R = c.R;
  int Th = threads();
  size_t N = 1 + R.below(3);
  std::string In;
  {
    JitterOn J(c);
    struct One { std::shared_ptr<Log> L; std::unique_ptr<FakeSocket> S; size_t Requests, Answers; bool OneByOne; };
    std::vector<One> V(N);
    for (auto &X : V) {
      X.L = std::make_shared<Log>(); X.S.reset(new FakeSocket(X.L)); X.Requests = R.below(4); X.Answers = R.below(5); X.OneByOne = R.chance(1, 2);
      In += vp::fmt("%zu/%zu%s ", X.Requests, X.Answers, X.OneByOne ? "s" : "");
    }
    c.input(In);
    std::vector<std::thread> T;
    struct Joiner { std::vector<std::thread> &T; ~Joiner() { for (auto &X : T) X.join(); } };
    {
      Joiner Jn{T};
      for (auto &X : V)
        T.emplace_back([&X] {
          auto L = X.L; size_t A = X.Answers;
          bcl::IntrusiveConnection::connect(X.S.get(), '$', [L, A](bcl::IntrusiveConnection C) {
            for (size_t I = 0; I < A; ++I)
              if (!C.answer([&](const std::string &Q) { L->add('Q', Q); return "r" + Q; })) { L->add('E'); return; }
          });
          std::string All;
          for (size_t I = 0; I < X.Requests; ++I) { std::string Q = std::to_string(I) + "$"; if (X.OneByOne) X.S->deliver(Q); else All += Q; }
          if (!All.empty()) X.S->deliver(All);
          X.S->close(true);
          // The socket and its listeners are destroyed at once.
          X.S.reset();
        });
    }
    awaitThreads(c, Th);
    c.member("interleavings", interleaving());
    for (auto &X : V) {
      std::vector<std::string> E;
      for (size_t I = 0; I < X.Requests; ++I) E.push_back(I < X.Answers ? "r" + std::to_string(I) : "REJECT");
      compareSent(c, of(*X.L, 'S'), E, '$');
      checkOrder(c, *X.L);
      VP_CHECK(c, of(*X.L, 'E').size() == (X.Answers > X.Requests ? 1u : 0u), "no-end", "end of the connection");
      c.member("event_orders", orders(*X.L));
      c.count("connections");
    }
  }
  c.count("delays", Jitters.exchange(0));
  c.distinct(In + vp::fmt("/%lu", (unsigned long)(c.Index))); c.sample(In);
}

#ifdef WITH_FAILURES
// --- I04: what can not be evaluated, sent, started or stored
namespace {
std::atomic<bool> FailNextThread{false};
struct ThrowingCopy {
  explicit ThrowingCopy(int N) : N(N) {}
  ThrowingCopy(const ThrowingCopy &X) : N(X.N) { if (N == 0) throw std::runtime_error("copy"); }
  int N;
};
struct SendFailure {};
// A socket which can not send any more.
struct FailingSocket : FakeSocket {
  FailingSocket(std::shared_ptr<Log> L, size_t N) : FakeSocket(L), N(N) {}
  void send(const std::string &M) const override {
    if (I++ >= N) { L->add('F'); throw SendFailure(); }
    oom::Pause P; FakeSocket::send(M);
  }
  mutable size_t I = 0; size_t N;
};
}
extern "C" int pthread_create(pthread_t *T, const pthread_attr_t *A, void *(*F)(void *), void *Arg) {
  if (FailNextThread.exchange(false)) return EAGAIN;
  using Fn = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  static Fn Real = (Fn)dlsym(RTLD_NEXT, "pthread_create");
  return Real(T, A, F, Arg);
}

// The evaluation of some requests fails, and the socket may fail to send.
VP_FAMILY("I04.throws", 5000, 50000) {
  auto &R = c.R;
  int Th = threads();
  Plan P = plan(c, 14);
  auto L = std::make_shared<Log>();
  auto What = std::make_shared<std::vector<int>>(P.Requests.size());
  for (auto &X : *What) X = R.chance(1, 2) ? 0 : 1 + (int)R.below(5);
  size_t Answers = R.chance(1, 2) ? ~size_t(0) : R.below(P.Requests.size() + 2);
  size_t Sends = R.chance(2, 3) ? ~size_t(0) : R.below(P.Requests.size() + 1);
  std::string In = describe(P) + vp::fmt(" answers=%zd sends=%zd", (ssize_t)Answers, (ssize_t)Sends);
  for (auto X : *What) In += vp::fmt(" %d", X);
  for (auto &X : P.Pieces) { if (In.size() < 1500) In += " " + X.substr(0, 60); }
  c.input(In);
  {
    JitterOn J(c);
    FailingSocket S(L, Sends);
    bcl::IntrusiveConnection::connect(&S, P.Delimiter, [L, What, Answers](bcl::IntrusiveConnection C) {
      size_t I = 0;
      for (; I < Answers;) {
        bool Own = false;
        auto Answer = [&](const std::string &Q) -> std::string {
          L->add('Q', Q); jitter(4);
          int X = I < What->size() ? (*What)[I] : 0;
          ++I;
          Own = X != 0;
          switch (X) {
          case 1: throw std::runtime_error("no");
          case 2: throw 42;
          case 3: throw std::string("text");
          case 4: throw std::bad_alloc();
          case 5: throw SendFailure();
          }
          return respond(Q);
        };
        size_t Was = I;
        try { if (!C.answer(Answer)) { L->add('E'); return; } if (Own) L->add('!', "an exception is lost"); }
        catch (const std::bad_alloc &) { if (!Own || (*What)[I - 1] != 4) L->add('!', "bad_alloc"); }
        catch (const std::exception &E) { if (!Own || std::string(E.what()) != "no") L->add('!', E.what()); }
        catch (int K) { if (!Own || K != 42) L->add('!', "int"); }
        catch (const std::string &T) { if (!Own || T != "text") L->add('!', T); }
        catch (SendFailure) { if (!Own || (*What)[I - 1] != 5) L->add('!', "a failure of the socket reaches the handler"); }
        if (I != Was + 1) L->add('!', "not called once");
      }
      L->add('G');
    });
    bool Failed = false, Ok = R.chance(1, 2);
    for (auto &X : P.Pieces) {
      try { S.deliver(X); } catch (SendFailure) { Failed = true; break; } // a socket closes then
    }
    S.close(Ok && !Failed);
    awaitThreads(c, Th);
    size_t N = P.Requests.size();
    VP_CHECK(c, Failed == (Sends < N), "send-failure", vp::fmt("a failure to send is %s", Failed ? "invented" : "lost"));
    auto Bad = of(*L, '!'); VP_CHECK(c, Bad.empty(), "wrong-call", Bad.empty() ? "" : Bad[0]);
    // The request whose response can not be sent was handed over.
    size_t Seen = std::min(std::min(N, Failed ? Sends + 1 : N), Answers);
    VP_CHECK(c, of(*L, 'Q') == std::vector<std::string>(P.Requests.begin(), P.Requests.begin() + Seen), "requests", vp::fmt("the handler sees %zu requests instead of %zu", of(*L, 'Q').size(), Seen));
    std::vector<std::string> E;
    for (size_t I = 0; I < std::min(N, Sends); ++I) E.push_back(I < Answers && (*What)[I] == 0 ? respond(P.Requests[I]) : "REJECT");
    for (size_t I = 0; I < Seen; ++I) c.count((*What)[I] ? "failed_evaluations" : "evaluations");
    compareSent(c, of(*L, 'S'), E, P.Delimiter);
    checkOrder(c, *L);
    VP_CHECK(c, of(*L, 'E').size() == (Answers > Seen ? 1u : 0u), "no-end", "end of the connection");
    VP_CHECK(c, of(*L, 'G').size() == (Answers > Seen ? 0u : 1u), "no-end", "end of the handler");
    if (Failed) c.count("failed_sends");
    c.member("interleavings", interleaving());
  }
  c.distinct(In); c.sample(In);
}

// The handler can not be started.
VP_FAMILY("I04.start", 5000, 50000) {
  auto &R = c.R;
  int Th = threads();
  Plan P = plan(c, 6);
  auto L = std::make_shared<Log>();
  int How = (int)R.below(3);
  long N = (long)R.below(12); bool All = R.chance(1, 2);
  std::string In = describe(P) + vp::fmt(" how=%d at=%ld%s", How, N, All ? "+" : "");
  c.input(In);
  {
    JitterOn J(c);
    FakeSocket S(L);
    auto Serve = [L](bcl::IntrusiveConnection C, const std::string &, const ThrowingCopy &) {
      while (C.answer([&](const std::string &Q) { L->add('Q', Q); return respond(Q); }));
      L->add('E');
    };
    bool Thrown = false;
    std::string Tag(40, 't');
    switch (How) {
    case 0:
      FailNextThread = true;
      try { bcl::IntrusiveConnection::connect(&S, P.Delimiter, Serve, Tag, ThrowingCopy(1)); } catch (const std::system_error &) { Thrown = true; }
      FailNextThread = false;
      VP_CHECK(c, Thrown, "no-exception", "a thread which can not be started is not reported");
      c.count("failed_threads");
      break;
    case 1: {
      ThrowingCopy X(0);
      try { bcl::IntrusiveConnection::connect(&S, P.Delimiter, Serve, Tag, X); } catch (const std::runtime_error &) { Thrown = true; }
      VP_CHECK(c, Thrown, "no-exception", "an argument which can not be copied is not reported");
      c.count("failed_arguments");
      break;
    }
    default: {
      auto X = oom::run(N, All, [&] { bcl::IntrusiveConnection::connect(&S, P.Delimiter, Serve, Tag, ThrowingCopy(1)); });
      VP_CHECK(c, X.Thrown == X.Failed, "no-exception", "a failed allocation is not reported");
      Thrown = X.Thrown;
      if (Thrown) c.count("failed_allocations_at_start");
    }
    }
    for (auto &X : P.Pieces) S.deliver(X);
    S.close(R.chance(1, 2));
    awaitThreads(c, Th);
    auto Sent = of(*L, 'S');
    std::vector<std::string> E;
    for (auto &Q : P.Requests) E.push_back(Thrown ? "REJECT" : respond(Q));
    if (Thrown) {
      VP_CHECK(c, of(*L, 'Q').empty() && of(*L, 'E').empty(), "wrong-call", "a handler runs which has not been started");
      if (Sent.empty()) E.clear(); else c.count("rejected_without_handler", Sent.size());
    } else
      VP_CHECK(c, of(*L, 'Q') == P.Requests && of(*L, 'E').size() == 1, "requests", "the handler does not get its requests");
    compareSent(c, Sent, E, P.Delimiter);
    checkOrder(c, *L);
    c.member("interleavings", interleaving());
  }
  c.distinct(In + vp::fmt("/%lu", (unsigned long)c.Index)); c.sample(In);
}

// Memory is exhausted in the thread of the socket or in that of the handler.
VP_FAMILY("I04.memory", 6000, 60000) {
  auto &R = c.R;
  int Th = threads();
  Plan P = plan(c, 8);
  auto L = std::make_shared<Log>();
  bool InSocket = R.chance(1, 2);
  size_t Answers = R.chance(2, 3) ? ~size_t(0) : R.below(P.Requests.size() + 2);
  size_t At = R.below(P.Pieces.size() + 1);
  long N = (long)R.below(R.chance(1, 2) ? 6 : 30); bool All = R.chance(1, 2);
  uint64_t HandlerSeed = R.next();
  std::string In = describe(P) + vp::fmt(" %s answers=%zd at=%zu/%ld%s", InSocket ? "socket" : "handler", (ssize_t)Answers, At, N, All ? "+" : "");
  for (auto &X : P.Pieces) { if (In.size() < 1500) In += " " + X.substr(0, 60); }
  c.input(In);
  {
    JitterOn J(c);
    FailingSocket S(L, ~size_t(0));
    auto Failures = std::make_shared<std::atomic<size_t>>(0);
    bcl::IntrusiveConnection::connect(&S, P.Delimiter, [=](bcl::IntrusiveConnection C) {
      vp::Rng H(HandlerSeed);
      size_t I = 0;
      while (I < Answers) {
        auto Answer = [&](const std::string &Q) {
          { oom::Pause X; L->add('Q', Q); ++I; L->add('T'); jitter(4); }
          std::string Copy = respond(Q);
          { oom::Pause X; std::lock_guard<std::mutex> K(L->M); L->E.back().first = 'R'; }
          return Copy;
        };
        bool Arm = !InSocket && H.chance(1, 2), Open = true;
        long At = (long)H.below(6); bool All = H.chance(1, 2);
        if (Arm) { if (oom::run(At, All, [&] { Open = C.answer(Answer); }).Thrown) (*Failures)++; }
        else Open = C.answer(Answer);
        if (!Open) { L->add('E'); return; }
      }
      L->add('G');
    });
    bool Failed = false;
    for (size_t I = 0; I < P.Pieces.size() && !Failed; ++I) {
      if (InSocket && I == At) {
        auto X = oom::run(N, All, [&] { S.deliver(P.Pieces[I]); });
        VP_CHECK(c, X.Thrown == X.Failed, "lost-failure", "memory is exhausted in the listener but it does not throw");
        Failed = X.Thrown;
        if (Failed) c.count("failed_receipts");
      } else S.deliver(P.Pieces[I]);
    }
    S.close(!Failed);
    awaitThreads(c, Th);
    auto Bad = of(*L, '!'); VP_CHECK(c, Bad.empty(), "wrong-call", Bad.empty() ? "" : Bad[0]);
    auto Q = of(*L, 'Q'), Sent = of(*L, 'S');
    VP_CHECK(c, Q.size() <= P.Requests.size() && std::equal(Q.begin(), Q.end(), P.Requests.begin()), "requests", "the handler sees other requests");
    // Outcome of every evaluation.
    std::vector<std::string> E;
    { std::lock_guard<std::mutex> G(L->M);
      std::string Last;
      for (auto &X : L->E) { if (X.first == 'Q') Last = X.second; if (X.first == 'R') E.push_back(respond(Last)); if (X.first == 'T') E.push_back("REJECT"); } }
    VP_CHECK(c, E.size() == Q.size(), "requests", "an evaluation has no outcome");
    if (!Failed) {
      VP_CHECK(c, Q.size() == std::min(P.Requests.size(), Answers), "requests", vp::fmt("the handler sees %zu requests of %zu", Q.size(), P.Requests.size()));
      while (E.size() < P.Requests.size()) E.push_back("REJECT");
    } else {
      // What was handed over last may be unanswered, what comes later is rejected.
      VP_CHECK(c, Sent.size() <= P.Requests.size(), "responses", "too many responses");
      if (Sent.size() < E.size()) { VP_CHECK(c, Sent.size() + 1 == E.size(), "responses", "more than one response is lost"); E.pop_back(); }
      while (E.size() < Sent.size()) { VP_CHECK(c, E.size() >= Answers, "responses", "a response to a request which was not handed over"); E.push_back("REJECT"); }
    }
    compareSent(c, Sent, E, P.Delimiter);
    checkOrder(c, *L);
    VP_CHECK(c, of(*L, 'E').size() + of(*L, 'G').size() == 1, "no-end", "the handler does not end");
    c.count("failed_answers", *Failures);
    c.member("interleavings", interleaving());
  }
  c.distinct(In); c.sample(In);
}
#endif

// --- over the real C socket
namespace {
struct Real {
  std::mutex M; std::condition_variable CV;
  bool Listening = false; int Port = 0;
  std::atomic<int> Handlers{0}, Ended{0}, Closed{0};
  std::atomic<size_t> Answers{0};
};
Real &real() { static Real *X = new Real; return *X; }
}
namespace bcl {
template<> void createServer<std::string>(const Socket<std::string> *S) {
  real().Handlers++;
  S->closed([](bool) { real().Closed++; });
  IntrusiveConnection::connect(S, '$', [](IntrusiveConnection C) {
    bool More = true;
    while (More && C.answer([&](const std::string &Q) { if (Q == "bye") More = false; jitter(5); return "<" + Q + ">"; }));
    real().Ended++;
  });
}
}
VP_FAMILY_NOLEAK("I03.socket", 600, 8000) {
  auto &R = c.R;
  auto &Re = real();
  {
    std::unique_lock<std::mutex> L(Re.M);
    if (!Re.Listening) {
      std::thread([] {
        auto *On = new bcl::net::SocketStatusHandler([](bcl::net::SocketStatus S, const bcl::net::Connection &C) {
          if (S != bcl::net::SocketStatus::Listen) return;
          std::lock_guard<std::mutex> L(real().M); real().Port = C.getServerPort(); real().Listening = true; real().CV.notify_all();
        });
        bcl::net::startServer("127.0.0.1", 0, 0, *On);
      }).detach();
      VP_CHECK(c, Re.CV.wait_for(L, std::chrono::seconds(20), [&] { return Re.Listening; }), "no-listen", "the server does not listen");
    }
  }
  size_t N = 1 + R.below(4);
  int H0 = Re.Handlers;
  std::string In;
  JitterOn J(c);
  struct One { std::vector<std::string> Q; std::string Got, Expect; bool Ok = false; bool Abort = false; };
  std::vector<One> V(N);
  for (auto &X : V) {
    size_t K = R.below(12); bool Bye = false;
    for (size_t I = 0; I < K; ++I) {
      std::string Q = R.chance(1, 10) ? "bye" : std::to_string(R.below(1000000));
      X.Q.push_back(Q);
      X.Expect += Bye ? "REJECT$" : "<" + Q + ">$";
      Bye |= Q == "bye";
    }
    X.Abort = R.chance(1, 4);
    In += vp::fmt("%zu%s%s ", K, Bye ? "b" : "", X.Abort ? "a" : "");
  }
  c.input(In);
  {
    std::vector<std::thread> T;
    struct Joiner { std::vector<std::thread> &T; ~Joiner() { for (auto &X : T) X.join(); } } Jn{T};
    for (auto &X : V) {
      vp::Rng R2(R.next());
      T.emplace_back([&X, R2, &Re]() mutable {
        int F = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in A; memset(&A, 0, sizeof A); A.sin_family = AF_INET; A.sin_port = htons(Re.Port); inet_pton(AF_INET, "127.0.0.1", &A.sin_addr);
        if (connect(F, (sockaddr *)&A, sizeof A) != 0) { close(F); return; }
        int On = 1; setsockopt(F, IPPROTO_TCP, TCP_NODELAY, &On, sizeof On);
        // Batches go out at once: pieces end where requests end.
        for (size_t I = 0; I < X.Q.size();) {
          std::string B;
          for (size_t K = 1 + R2.below(4); K > 0 && I < X.Q.size(); --K) B += X.Q[I++] + "$";
          if (send(F, B.data(), B.size(), MSG_NOSIGNAL) != (ssize_t)B.size()) break;
          if (R2.chance(1, 2)) usleep(R2.below(500));
        }
        if (X.Abort) { linger Li{1, 0}; setsockopt(F, SOL_SOCKET, SO_LINGER, &Li, sizeof Li); close(F); X.Ok = true; return; }
        shutdown(F, SHUT_WR);
        char B[4096];
        for (;;) {
          pollfd P{F, POLLIN, 0};
          if (poll(&P, 1, 20000) <= 0) break;
          ssize_t K = recv(F, B, sizeof B, 0);
          if (K == 0) X.Ok = true;
          if (K <= 0) break;
          X.Got.append(B, K);
        }
        close(F);
      });
    }
  }
  int Complete = 0;
  for (auto &X : V) {
    VP_CHECK(c, X.Ok, "client-stuck", "a client gets no end: " + X.Got);
    if (X.Abort) continue;
    ++Complete;
    VP_CHECK(c, X.Got == X.Expect, "responses", X.Got + " instead of " + X.Expect);
    c.count("socket_requests", X.Q.size());
  }
  double Until = vp::now() + 20;
  // A client which aborts early may never have been accepted.
  auto Over = [&] { int H = Re.Handlers; return H - H0 >= Complete && Re.Ended == H && Re.Closed == H; };
  while (!Over() && vp::now() < Until) usleep(200);
  VP_CHECK(c, Over(), "handler-stuck", vp::fmt("%d handlers started in all, %d ended, %d sockets closed", (int)Re.Handlers, (int)Re.Ended, (int)Re.Closed));
  c.count("socket_connections", N);
  c.distinct(In + vp::fmt("/%lu", (unsigned long)c.Index)); c.sample(In);
}

int main(int argc, char **argv) {
  std::thread([] {}).join(); // a sanitizer may start a thread of its own now
  int RC = vp::mainImpl(argc, argv);
  fflush(nullptr);
  _exit(RC);
}
