// S07: a server whose threads run out of memory. Allocations fail while a
// connection is taken (in the thread which accepts) or served (in its own
// thread); both ends are recorded. What the harness itself allocates never fails.
#define OOM_MAIN
#include "oom.h"
#include "vp.h"
#include <bcl/CSocket.h>
#include <arpa/inet.h>
#include <cerrno>
#include <condition_variable>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>

using bcl::net::SocketStatus;
using bcl::net::Connection;

namespace {
struct Script {
  enum { Calm, Taking, Serving } Where = Calm;
  long N = 0; bool Sticky = false;
  int Receivers = 1, Closers = 1; bool Adding = false;
};
struct Conn {
  Script S; std::string Key;
  int Accepts = 0, Closes = 0, Errors = 0, Created = 0, Added = 0;
  std::vector<int> ClosedCalls; std::vector<char> Registered; bool ClosedOk = true;
  bool AfterClose = false, Failed = false;
  std::string Received; // by the first listener
};
struct World {
  std::mutex M; std::condition_variable CV;
  std::map<std::string, std::shared_ptr<Conn>> Conns;
  int Port = 0; bool Returned = false; std::string How;
};
World &W() { static World *X = new World; return *X; }
thread_local std::shared_ptr<Conn> Cur;      // the connection which is taken or served
thread_local std::shared_ptr<Conn> *Taken = nullptr;
std::atomic<uint64_t> TakingFailures{0}, ServingFailures{0};
std::shared_ptr<Conn> find(const std::string &K) { auto I = W().Conns.find(K); return I == W().Conns.end() ? nullptr : I->second; }
void arm(const Script &S) { oom::Failed = oom::Seen = 0; oom::Left = S.N; oom::Sticky = S.Sticky; oom::Armed = true; }
// Counts what has failed.
void disarm(std::atomic<uint64_t> &To) {
  oom::Armed = false;
  if (oom::Failed) { To += oom::Failed; if (Cur) { std::lock_guard<std::mutex> L(W().M); Cur->Failed = true; } }
  oom::Failed = 0;
}
struct Start { void *(*F)(void *); void *Arg; std::shared_ptr<Conn> C; };
void *trampoline(void *P) {
  auto *S = (Start *)P; auto St = *S; delete S;
  Cur = St.C;
  if (Cur && Cur->S.Where == Script::Serving) arm(Cur->S);
  void *R = St.F(St.Arg);
  disarm(ServingFailures);
  Cur = nullptr;
  return R;
}
}
extern "C" {
int __real_accept(int, sockaddr *, socklen_t *);
int __wrap_accept(int S, sockaddr *A, socklen_t *L) {
  disarm(TakingFailures);
  Cur = nullptr;
  int R = __real_accept(S, A, L);
  if (R >= 0 && A && A->sa_family == AF_INET) {
    auto *I = (sockaddr_in *)A; char B[INET_ADDRSTRLEN] = "";
    inet_ntop(AF_INET, &I->sin_addr, B, sizeof B);
    std::lock_guard<std::mutex> G(W().M);
    Cur = find(std::string(B) + ":" + std::to_string(ntohs(I->sin_port)));
    if (Cur && Cur->S.Where == Script::Taking) arm(Cur->S);
  }
  return R;
}
int pthread_create(pthread_t *T, const pthread_attr_t *A, void *(*F)(void *), void *Arg) {
  using Fn = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  static Fn Real = (Fn)dlsym(RTLD_NEXT, "pthread_create");
  if (!Cur) return Real(T, A, F, Arg);
  oom::Pause P;
  auto *S = new Start{F, Arg, Cur};
  int R = Real(T, A, trampoline, S);
  if (R) delete S;
  return R;
}
}

namespace bcl {
template<> void createServer<std::string>(const Socket<std::string> *S) {
  auto &C = Cur;
  if (!C) return;
  int Receivers, Closers;
  { oom::Pause P; std::lock_guard<std::mutex> L(W().M); ++C->Created; Receivers = C->S.Receivers; Closers = C->S.Closers; C->ClosedCalls.resize(20); C->Registered.resize(20); }
  // What is passed to the socket is made in advance, only the socket allocates.
  std::vector<Socket<std::string>::ReceiveCallback> R; std::vector<Socket<std::string>::ClosedCallback> Cl;
  {
  oom::Pause P;
  auto own = [](int I) { return "an own value of the listener, number " + std::to_string(I); };
  auto closed = [own](std::shared_ptr<Conn> C, int I) -> Socket<std::string>::ClosedCallback {
    auto O = own(I);
    return [C, I, O, own](bool Ok) {
      oom::Pause P; std::lock_guard<std::mutex> L(W().M);
      if (O != own(I)) abort();
      ++C->ClosedCalls[I]; C->ClosedOk = Ok; W().CV.notify_all();
    };
  };
  auto Shared = C;
  for (int I = 0; I < Receivers; ++I) { auto O = own(I); R.push_back([Shared, S, I, O, own, closed](const std::string &D) {
    {
      oom::Pause P; std::lock_guard<std::mutex> L(W().M);
      if (O != own(I)) abort();
      if (Shared->Closes) Shared->AfterClose = true;
      if (I == 0) Shared->Received += D;
    }
    if (I == 0) S->send(D);
    if (I == 0 && Shared->S.Adding && Shared->Added < 15) {
      Socket<std::string>::ClosedCallback F; int K;
      { oom::Pause P; K = Shared->S.Closers + Shared->Added++; F = closed(Shared, K); }
      S->closed(F);
      { oom::Pause P; std::lock_guard<std::mutex> L(W().M); Shared->Registered[K] = 1; }
    }
  }); }
  for (int I = 0; I < Closers; ++I) Cl.push_back(closed(C, I));
  }
  for (int I = 0; I < Closers; ++I) { S->closed(Cl[I]); oom::Pause P; std::lock_guard<std::mutex> L(W().M); C->Registered[I] = 1; }
  for (auto &F : R) S->receive(F);
}
}

namespace {
void onStatus(SocketStatus St, const Connection &C) {
  oom::Pause P;
  std::lock_guard<std::mutex> L(W().M);
  if (Cur && oom::Failed) Cur->Failed = true;
  if (St == SocketStatus::Listen) W().Port = C.getServerPort();
  if (auto X = find(C.getClientAddress() + ":" + std::to_string(C.getClientPort()))) {
    if (X->Closes && St != SocketStatus::Accept) X->AfterClose = true;
    if (St == SocketStatus::Accept) ++X->Accepts;
    else if (St == SocketStatus::Close) ++X->Closes;
    else if (St != SocketStatus::Send && St != SocketStatus::Receive) ++X->Errors;
  }
  W().CV.notify_all();
}
// The handler needs memory when it is copied.
struct Handler { std::string A = "a handler which does not fit into a function object"; std::shared_ptr<int> B = std::make_shared<int>(0);
  void operator()(SocketStatus S, const Connection &C) const { onStatus(S, C); } };
int port() {
  {
    std::lock_guard<std::mutex> L(W().M);
    if (W().Port) return W().Port;
  }
  std::thread([] {
    auto *On = new bcl::net::SocketStatusHandler(Handler());
    std::string How = "returns";
    try { bcl::net::startServer("127.0.0.1", 0, 0, *On, 3000); } catch (const std::exception &E) { How = E.what(); } catch (...) { How = "an exception"; }
    oom::Armed = false;
    std::lock_guard<std::mutex> L(W().M); W().Returned = true; W().How = How; W().CV.notify_all();
  }).detach();
  std::unique_lock<std::mutex> L(W().M);
  W().CV.wait_for(L, std::chrono::seconds(20), [] { return W().Port != 0; });
  return W().Port;
}
int descriptors() { int N = 0; for (int I = 0; I < 1024; ++I) { struct stat S; if (fstat(I, &S) == 0) ++N; } return N; }
int threads() { int N = 0; if (DIR *D = opendir("/proc/self/task")) { while (auto *E = readdir(D)) if (E->d_name[0] != '.') ++N; closedir(D); } return N; }

struct Client {
  int Fd = -1; std::string Key, Out, In; bool Stuck = false;
  bool open(vp::Rng &R) {
    Fd = socket(AF_INET, SOCK_STREAM, 0);
    for (int Try = 0; Fd >= 0 && Try < 20; ++Try) {
      sockaddr_in A; memset(&A, 0, sizeof A); A.sin_family = AF_INET;
      std::string Ad = vp::fmt("127.%d.%d.%d", (int)R.below(250), (int)R.below(250), 1 + (int)R.below(250));
      inet_pton(AF_INET, Ad.c_str(), &A.sin_addr);
      socklen_t L = sizeof A;
      if (bind(Fd, (sockaddr *)&A, sizeof A) != 0 || getsockname(Fd, (sockaddr *)&A, &L) != 0) continue;
      Key = Ad + ":" + std::to_string(ntohs(A.sin_port));
      return true;
    }
    return false;
  }
  bool connectTo(int Port) {
    sockaddr_in A; memset(&A, 0, sizeof A); A.sin_family = AF_INET; A.sin_port = htons(Port); A.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return connect(Fd, (sockaddr *)&A, sizeof A) == 0;
  }
  // Says everything piece by piece, waits for an answer to each and for the end.
  void run(vp::Rng R) {
    std::vector<char> B(4096);
    auto hear = [&](size_t N) {
      while (In.size() < N) {
        pollfd P{Fd, POLLIN, 0};
        if (poll(&P, 1, 20000) <= 0) { Stuck = true; return false; }
        ssize_t K = recv(Fd, B.data(), B.size(), 0);
        if (K <= 0) return false;
        In.append(B.data(), K);
      }
      return true;
    };
    size_t Said = 0; bool Go = true;
    while (Go && Said < Out.size()) {
      size_t N = std::min(Out.size() - Said, 1 + (size_t)R.below(400));
      if (send(Fd, Out.data() + Said, N, MSG_NOSIGNAL) != (ssize_t)N) break;
      Said += N; Go = hear(Said);
    }
    shutdown(Fd, SHUT_WR);
    if (!Stuck) hear((size_t)-1);
    ::close(Fd); Fd = -1;
  }
  ~Client() { if (Fd >= 0) ::close(Fd); }
};
}

VP_FAMILY_NOLEAK("S07.memory", 3000, 30000) {
  auto &R = c.R;
  int Port = port();
  VP_CHECK(c, Port, "no-listen", "the server does not start");
  struct Quiet { ~Quiet() { std::lock_guard<std::mutex> L(W().M); W().Conns.clear(); } } Q;
  int Fds = descriptors(), Th = threads();
  size_t N = 1 + R.below(5);
  std::string In;
  {
    std::vector<Client> Cl(N); std::vector<std::shared_ptr<Conn>> Co(N); std::vector<char> Con(N, 0);
    for (size_t I = 0; I < N; ++I) {
      VP_CHECK(c, Cl[I].open(R), "harness", "no client socket");
      auto C = std::make_shared<Conn>(); C->Key = Cl[I].Key; Co[I] = C;
      auto &S = C->S;
      S.Receivers = 1 + (int)R.below(3); S.Closers = 1 + (int)R.below(4); S.Adding = R.chance(1, 3);
      S.Where = R.chance(1, 4) ? Script::Calm : R.chance(1, 3) ? Script::Taking : Script::Serving;
      S.N = S.Where == Script::Taking ? (long)R.below(8) : (long)R.below(R.chance(1, 2) ? 8 : 40); S.Sticky = R.chance(1, 3);
      std::string O(1 + R.below(3000), 0); for (auto &X : O) X = (char)R.below(256); Cl[I].Out = O;
      In += vp::fmt("[where=%d allocation=%ld%s listeners=%d,%d out=%zu] ", (int)S.Where, S.N, S.Sticky ? "+" : "", S.Receivers, S.Closers, O.size());
      std::lock_guard<std::mutex> L(W().M); W().Conns[C->Key] = C;
    }
    c.input(In);
    {
      struct Joiner { std::vector<std::thread> T; ~Joiner() { for (auto &X : T) if (X.joinable()) X.join(); } } J;
      bool Seq = R.chance(1, 3);
      for (size_t I = 0; I < N; ++I) {
        vp::Rng R2(R.next());
        auto Go = [&, I, R2] { Con[I] = Cl[I].connectTo(Port); if (Con[I]) Cl[I].run(R2); };
        if (Seq) Go(); else J.T.emplace_back(Go);
      }
    }
    { std::lock_guard<std::mutex> L(W().M); VP_CHECK(c, !W().Returned, "server-ends", "the server ends (" + W().How + "): " + In); }
    for (size_t I = 0; I < N; ++I) {
      VP_CHECK(c, Con[I], "connect", "a client can not connect: " + In);
      VP_CHECK(c, !Cl[I].Stuck, "client-stuck", vp::fmt("client %zu waits for ever: ", I) + In);
      std::unique_lock<std::mutex> L(W().M);
      auto &C = *Co[I];
      bool Ok = W().CV.wait_for(L, std::chrono::seconds(20), [&] {
        if (C.Accepts != 1 || C.Closes < 1) return false;
        for (size_t K = 0; K < C.Registered.size(); ++K) if (C.Registered[K] && !C.ClosedCalls[K]) return false;
        return true;
      });
      auto S = C;
      L.unlock();
      std::string Tr = vp::fmt("client %zu: accepted %d times, created %d, closed %d, errors %d, %zu bytes got: ", I, S.Accepts, S.Created, S.Closes, S.Errors, Cl[I].In.size()) + In;
      VP_CHECK(c, Ok, "no-end", Tr);
      VP_CHECK(c, S.Closes == 1 && S.Created <= 1, "closes", Tr);
      VP_CHECK(c, !S.AfterClose, "after-close", Tr);
      for (size_t K = 0; K < S.Registered.size(); ++K) VP_CHECK(c, S.ClosedCalls[K] == S.Registered[K] || (S.ClosedCalls[K] <= 1 && S.Failed), "closed-calls", vp::fmt("closed listener %zu is called %d times, ", K, S.ClosedCalls[K]) + Tr);
      VP_CHECK(c, Cl[I].Out.compare(0, S.Received.size(), S.Received) == 0, "received-stream", Tr);
      VP_CHECK(c, Cl[I].Out.compare(0, Cl[I].In.size(), Cl[I].In) == 0, "sent-stream", Tr);
      // A connection is served as usual, or its end is an error.
      bool Whole = S.Received == Cl[I].Out && Cl[I].In == Cl[I].Out && S.Errors == 0;
      if (!S.Failed) VP_CHECK(c, Whole && S.ClosedOk, "disturbed", "no allocation fails for a connection but it is not served: " + Tr);
      else if (!Whole) {
        VP_CHECK(c, S.Errors >= 1, "not-reported", Tr);
        bool Any = false; for (auto X : S.ClosedCalls) Any = Any || X;
        if (Any) VP_CHECK(c, !S.ClosedOk, "closed-value", Tr);
      }
      c.count(!S.Failed ? "not_concerned" : Whole ? "served_nevertheless" : S.Created ? "ended_while_served" : "ended_before");
      if (S.Failed && S.S.Where == Script::Taking) c.count("not_taken");
    }
  }
  double Until = vp::now() + 20;
  while ((descriptors() > Fds || threads() > Th) && vp::now() < Until) usleep(1000);
  VP_CHECK(c, descriptors() <= Fds, "not-released", vp::fmt("%d descriptors instead of %d: ", descriptors(), Fds) + In);
  VP_CHECK(c, threads() <= Th, "not-released", vp::fmt("%d threads instead of %d: ", threads(), Th) + In);
  // It still serves.
  Client P; VP_CHECK(c, P.open(R), "harness", "no client socket");
  { auto C = std::make_shared<Conn>(); std::lock_guard<std::mutex> L(W().M); W().Conns[P.Key] = C; }
  P.Out = "still there?";
  VP_CHECK(c, P.connectTo(Port), "not-serving", "nobody listens");
  P.run(vp::Rng(1));
  VP_CHECK(c, P.In == P.Out, "not-serving", "the server does not answer any more");
  c.count("failed_taking", TakingFailures.exchange(0)); c.count("failed_serving", ServingFailures.exchange(0));
  c.distinct(In); c.sample(In);
}

int main(int argc, char **argv) {
  int RC = vp::mainImpl(argc, argv);
  fflush(nullptr);
  _exit(RC); // the server never ends
}
