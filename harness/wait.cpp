// W02: a thread that waits does no work. Every basic block of the code under
// test is counted (-fsanitize-coverage=trace-pc): nothing happens while servers,
// connections and handlers wait for something from outside, so a count which
// grows belongs to a thread that does not sleep. Afterwards that what has been
// waited for happens, and the waiting thread has to go on.
#include "vp.h"
#include <bcl/CSocket.h>
#include <bcl/IntrusiveConnection.h>
#include <arpa/inet.h>
#include <condition_variable>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>

#define NOCOV __attribute__((no_sanitize_coverage))
namespace {
uint64_t Blocks = 0;
bool On = false;
}
extern "C" NOCOV void __sanitizer_cov_trace_pc() { if (__atomic_load_n(&On, __ATOMIC_RELAXED)) __atomic_fetch_add(&Blocks, 1, __ATOMIC_RELAXED); }
extern "C" int __real_nanosleep(const timespec *, timespec *);
// A server which waits for a free slot may sleep for seconds.
extern "C" NOCOV int __wrap_nanosleep(const timespec *T, timespec *R) {
  timespec Short{0, 20000000};
  return __real_nanosleep(T->tv_sec > 0 || T->tv_nsec > Short.tv_nsec ? &Short : T, R);
}

namespace {
NOCOV void rest(unsigned Ms) { timespec T{0, (long)Ms * 1000000}; __real_nanosleep(&T, nullptr); }
// Work which is done while nothing happens.
NOCOV uint64_t idle(unsigned Ms) {
  __atomic_exchange_n(&Blocks, 0, __ATOMIC_SEQ_CST);
  __atomic_store_n(&On, true, __ATOMIC_SEQ_CST);
  rest(Ms);
  __atomic_store_n(&On, false, __ATOMIC_SEQ_CST);
  return __atomic_exchange_n(&Blocks, 0, __ATOMIC_SEQ_CST);
}
void waits(vp::Case &c, const std::string &What, unsigned Ms) {
  const uint64_t Most = 2500;
  uint64_t N = 0;
  // What has been started before may still be finished during the first tries.
  for (int Try = 0; Try < 4; ++Try) { rest(40); N = idle(Ms); c.count("measurements"); if (N <= Most) break; }
  if (getenv("VP_WORK")) fprintf(stderr, "%-50s %12llu\n", What.c_str(), (unsigned long long)N);
  VP_CHECK(c, N <= Most, "no-rest", What + vp::fmt(": %llu basic blocks are executed in %u ms", (unsigned long long)N, Ms));
  c.count("milliseconds", Ms); c.member("scenarios", vp::hashStr(What));
}

// --- the real server
struct Gate {
  std::mutex M; std::condition_variable CV; bool Open = true; int Inside = 0;
  void pass() { std::unique_lock<std::mutex> L(M); ++Inside; CV.notify_all(); CV.wait(L, [this] { return Open; }); --Inside; CV.notify_all(); }
  void set(bool X) { std::lock_guard<std::mutex> L(M); Open = X; CV.notify_all(); }
  bool reached(int N) { std::unique_lock<std::mutex> L(M); return CV.wait_for(L, std::chrono::seconds(10), [&] { return Inside >= N; }); }
};
Gate &slow() { static Gate *G = new Gate; return *G; }
std::atomic<bool> Intrusive{false}, Large{false};
std::atomic<int> Handlers{0};
void handle(bcl::IntrusiveConnection C) {
  ++Handlers;
  while (C.answer([](const std::string &D) -> std::string { if (D == "slow") slow().pass(); return "<" + D + ">"; }));
  --Handlers;
}
}
namespace bcl {
template<> void createServer<std::string>(const Socket<std::string> *S) {
  if (Intrusive) { IntrusiveConnection::connect(S, '\n', handle); return; }
  if (Large) { S->send(std::string(16000000, 'x')); return; }
  S->receive([S](const std::string &D) { if (D == "slow") slow().pass(); S->send(D); });
}
}
namespace {
int serve(size_t Limit) {
  struct State { std::mutex M; std::condition_variable CV; int Port = 0; };
  auto St = std::make_shared<State>();
  std::thread([St, Limit] {
    auto *H = new bcl::net::SocketStatusHandler([St](bcl::net::SocketStatus S, const bcl::net::Connection &C) {
      if (S != bcl::net::SocketStatus::Listen) return;
      std::lock_guard<std::mutex> L(St->M); St->Port = C.getServerPort(); St->CV.notify_all(); });
    bcl::net::startServer("127.0.0.1", 0, Limit, *H, 65535);
  }).detach();
  std::unique_lock<std::mutex> L(St->M);
  St->CV.wait_for(L, std::chrono::seconds(20), [&] { return St->Port != 0; });
  return St->Port;
}
int port(size_t Limit) {
  static int P[3];
  if (!P[Limit]) P[Limit] = serve(Limit);
  return P[Limit];
}
struct Peer {
  int Fd = -1;
  bool open(int Port) {
    Fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in A; memset(&A, 0, sizeof A);
    A.sin_family = AF_INET; A.sin_port = htons(Port); A.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return Fd >= 0 && connect(Fd, (sockaddr *)&A, sizeof A) == 0;
  }
  bool say(const std::string &S) { return send(Fd, S.data(), S.size(), MSG_NOSIGNAL) == (ssize_t)S.size(); }
  std::string hear(size_t N) { // N bytes, fewer if they do not come
    std::string R; std::vector<char> B(1 << 20);
    while (R.size() < N) {
      pollfd P{Fd, POLLIN, 0};
      if (poll(&P, 1, 10000) <= 0) break;
      ssize_t K = recv(Fd, B.data(), std::min(B.size(), N - R.size()), 0);
      if (K <= 0) break;
      R.append(B.data(), K);
    }
    return R;
  }
  bool ask(const std::string &S) { return say(S) && hear(S.size()) == S; }
  void end() { if (Fd >= 0) close(Fd); Fd = -1; }
  ~Peer() { end(); }
};

// --- a connection on a socket made by hand
struct Wire : bcl::Socket<std::string> {
  mutable std::vector<ReceiveCallback> R; mutable std::vector<ClosedCallback> C; mutable std::mutex M; mutable std::string Out;
  void send(const std::string &S) const override { std::lock_guard<std::mutex> L(M); Out += S; }
  void receive(const ReceiveCallback &F) const override { R.push_back(F); }
  void closed(const ClosedCallback &F) const override { C.push_back(F); }
  void data(const std::string &S) const { for (auto &F : R) F(S); }
  void close() const { for (auto &F : C) F(true); }
};
bool ended() { for (int I = 0; I < 5000 && Handlers; ++I) rest(2); return !Handlers; }
const unsigned Ms = 120;
}

VP_FAMILY_NOLEAK("W02.server", 48, 600) {
  auto &R = c.R;
  Intrusive = Large = false; slow().set(true);
  size_t N = 1 + R.below(5);
  const char *Names[] = {"a server without clients", "clients which say nothing", "a client in the middle of its work", "clients over the limit",
    "a client which does not read", "a listener which is busy", "clients which have gone", "clients after many conversations"};
  std::string What = Names[c.Index % 8];
  c.input(What + vp::fmt(" clients=%zu", N));
  std::vector<Peer> P(N);
  switch (c.Index % 8) {
  case 0: { int Q = port(0); waits(c, What, Ms); VP_CHECK(c, P[0].open(Q) && P[0].ask("hello"), "not-woken", What); break; }
  case 1: {
    int Q = port(0); for (auto &X : P) VP_CHECK(c, X.open(Q), "connect", What);
    waits(c, What, Ms);
    for (auto &X : P) VP_CHECK(c, X.ask("hello"), "not-woken", What); break;
  }
  case 2: {
    int Q = port(0); for (auto &X : P) VP_CHECK(c, X.open(Q) && X.ask(std::string(1 + R.below(3000), 'a')), "connect", What);
    waits(c, What, Ms);
    for (auto &X : P) VP_CHECK(c, X.ask("hello"), "not-woken", What); break;
  }
  case 3: {
    int Q = port(2); Peer A, B, D;
    VP_CHECK(c, A.open(Q) && A.ask("first") && B.open(Q) && B.ask("second") && D.open(Q) && D.say("third"), "connect", What);
    waits(c, What, Ms);
    A.end();
    VP_CHECK(c, D.hear(5) == "third", "not-woken", What); break;
  }
  case 4: {
    Large = true; int Q = port(0);
    VP_CHECK(c, P[0].open(Q), "connect", What);
    waits(c, What, Ms);
    VP_CHECK(c, P[0].hear(16000000).size() == 16000000, "not-woken", What); Large = false; break;
  }
  case 5: {
    int Q = port(0); slow().set(false);
    for (auto &X : P) VP_CHECK(c, X.open(Q) && X.say("slow"), "connect", What);
    bool Reached = slow().reached((int)N);
    if (Reached) waits(c, What, Ms);
    slow().set(true);
    VP_CHECK(c, Reached, "connect", What);
    for (auto &X : P) VP_CHECK(c, X.hear(4) == "slow", "not-woken", What); break;
  }
  case 6: {
    int Q = port(0); for (auto &X : P) VP_CHECK(c, X.open(Q) && X.ask("hello"), "connect", What);
    for (auto &X : P) X.end();
    waits(c, What, Ms);
    Peer A; VP_CHECK(c, A.open(Q) && A.ask("hello"), "not-woken", What); break;
  }
  case 7: {
    int Q = port(0); for (int I = 0; I < 30; ++I) { Peer A; VP_CHECK(c, A.open(Q) && A.ask("hello"), "connect", What); }
    VP_CHECK(c, P[0].open(Q) && P[0].ask("hello"), "connect", What);
    waits(c, What, Ms);
    VP_CHECK(c, P[0].ask("hello"), "not-woken", What); break;
  }
  }
  c.count("woken"); c.distinct(What + vp::fmt("%zu", N)); c.sample(What);
}
VP_FAMILY_NOLEAK("W02.connection", 48, 600) {
  auto &R = c.R;
  slow().set(true);
  const char *Names[] = {"a handler without requests", "a handler after some requests", "a request which is evaluated", "many connections",
    "the end of a connection whose request is evaluated", "connections of a real server", "a real server which evaluates requests", "a handler which does not answer"};
  std::string What = Names[c.Index % 8];
  size_t N = 1 + R.below(6);
  c.input(What + vp::fmt(" N=%zu", N));
  VP_CHECK(c, ended(), "harness", "a handler of another case");
  switch (c.Index % 8) {
  case 0: { Wire W; bcl::IntrusiveConnection::connect(&W, '\n', handle); waits(c, What, Ms); W.data("a\n"); VP_CHECK(c, W.Out == "<a>\n", "not-woken", What + ": " + W.Out); W.close(); break; }
  case 1: {
    Wire W; bcl::IntrusiveConnection::connect(&W, '\n', handle);
    std::string Want; for (size_t I = 0; I < N; ++I) { W.data("q\nw\n"); Want += "<q>\n<w>\n"; }
    waits(c, What, Ms);
    W.data("a\n"); VP_CHECK(c, W.Out == Want + "<a>\n", "not-woken", What + ": " + W.Out); W.close(); break;
  }
  case 2: {
    Wire W; bcl::IntrusiveConnection::connect(&W, '\n', handle); slow().set(false);
    std::thread T([&] { W.data("a\nslow\nb"); });
    bool Reached = slow().reached(1);
    struct Join { std::thread &T; ~Join() { slow().set(true); if (T.joinable()) T.join(); } } J{T};
    VP_CHECK(c, Reached, "connect", What);
    waits(c, What, Ms);
    slow().set(true); T.join();
    VP_CHECK(c, W.Out == "<a>\n<slow>\n<b>\n", "not-woken", What + ": " + W.Out); W.close(); break;
  }
  case 3: {
    std::vector<Wire> W(N); for (auto &X : W) bcl::IntrusiveConnection::connect(&X, '\n', handle);
    for (auto &X : W) if (R.chance(1, 2)) X.data("q\n");
    waits(c, What, Ms);
    for (auto &X : W) { X.Out.clear(); X.data("a\n"); VP_CHECK(c, X.Out == "<a>\n", "not-woken", What + ": " + X.Out); }
    for (auto &X : W) X.close();
    break;
  }
  case 4: {
    // The handler holds its connection and works on something else.
    auto *G = new Gate; G->set(false);
    Wire W; std::atomic<bool> Done{false};
    bcl::IntrusiveConnection::connect(&W, '\n', [G](bcl::IntrusiveConnection C) { C.answer([](const std::string &) { return std::string("1"); }); G->pass(); });
    W.data("a\n");
    bool Reached = G->reached(1);
    std::thread T([&] { W.close(); Done = true; });
    struct Join { std::thread &T; Gate *G; ~Join() { G->set(true); if (T.joinable()) T.join(); } } J{T, G};
    VP_CHECK(c, Reached, "connect", What);
    waits(c, What, Ms);
    VP_CHECK(c, !Done, "ends-early", What);
    G->set(true); T.join(); break;
  }
  case 5: case 6: {
    Intrusive = true; int Q = port(0); bool Busy = c.Index % 8 == 6;
    std::vector<Peer> P(N); bool Ok = true; slow().set(!Busy);
    for (auto &X : P) Ok = Ok && X.open(Q) && X.say("hello\n") && X.hear(8) == "<hello>\n" && (!Busy || X.say("slow\n"));
    if (Busy) Ok = Ok && slow().reached((int)N);
    struct Free { ~Free() { slow().set(true); } } F;
    VP_CHECK(c, Ok, "connect", What);
    waits(c, What, Ms);
    slow().set(true); Intrusive = false;
    for (auto &X : P) VP_CHECK(c, Busy ? X.hear(7) == "<slow>\n" : X.say("x\n") && X.hear(4) == "<x>\n", "not-woken", What);
    break;
  }
  case 7: {
    auto *G = new Gate; G->set(false);
    Wire W; bcl::IntrusiveConnection::connect(&W, '\n', [G](bcl::IntrusiveConnection C) { G->pass(); C.answer([](const std::string &) { return std::string("1"); }); });
    std::thread T([&] { W.data("a\nb\n"); });
    bool Reached = G->reached(1);
    struct Join { std::thread &T; Gate *G; ~Join() { G->set(true); if (T.joinable()) T.join(); } } J{T, G};
    VP_CHECK(c, Reached, "connect", What);
    waits(c, What, Ms);
    G->set(true); T.join();
    VP_CHECK(c, W.Out == "1\nREJECT\n", "not-woken", What + ": " + W.Out); W.close(); break;
  }
  }
  c.count("woken"); c.distinct(What + vp::fmt("%zu", N)); c.sample(What);
}

int main(int argc, char **argv) {
  int RC = vp::mainImpl(argc, argv);
  fflush(nullptr);
  _exit(RC); // servers never end
}
