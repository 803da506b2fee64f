// S01..S06: the C socket server, observed from both ends: a log of everything
// the server tells (status events, listeners) and what its clients send and get
// over the loopback network. System calls of the server may be disturbed
// (short counts, interrupts, failures, delays) by wrappers in this file.
#include "vp.h"
#include <bcl/CSocket.h>
#include <arpa/inet.h>
#include <cerrno>
#include <condition_variable>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>

using bcl::net::SocketStatus;
using bcl::net::Connection;

namespace {
const char *statusName(int S) {
  static const char *N[] = {"UnknownError", "InitializeError", "HostnameError", "ServerAddressError", "CreateError", "OptionError",
    "BindError", "ListenError", "AcceptError", "ReceiveError", "SendError", "CloseError", "Listen", "Accept", "Receive", "Send", "Close"};
  return S >= 0 && S < 17 ? N[S] : "?";
}
enum { Listener = 100, ClosedListener = 200, Added = 300, AddedClosed = 400, Failure = 500 }; // kinds of events besides statuses
struct Event {
  int Kind; uint64_t Seq;
  std::string SAddr, CAddr; int SPort = 0, CPort = 0; bool Active = false;
  std::string Data; bool Ok = false;
};
struct Script {
  int Server = -1;
  int Receivers = 1, Closers = 1;
  std::vector<std::string> Greeting;
  enum { Silent, Echo, Chatty, Late } Reply = Silent;
  uint64_t Seed = 0;
  unsigned SlowClosed = 0, SlowReceive = 0; // microseconds
  bool FailThread = false;
  bool FailClose = false;   // closing reports an error
  bool FailAddress = false; // the address of the accepted connection can not be got
  // S06: when something is thrown (0, 1: while the server is created, otherwise when piece ThrowAt - 2 is received) and by whom.
  int ThrowAt = -1, ThrowBy = 0, ThrowClosed = -1;
  bool Adding = false; // listeners which add listeners
  bool Flood = false;  // sends until the peer is gone, then adds listeners
};
struct Conn {
  std::string Key;
  Script S;
  std::vector<Event> Events;
  std::string Sent; size_t Sends = 0; bool SendFailed = false;
  bool Known = false, Closed = false, Foreign = false;
  size_t ClosedCalls = 0;
  int Receivers = 0, Closers = 0;
};
struct Server {
  int Index; std::string Address; size_t Buffer, Limit;
  std::vector<Event> Events; // those which are reported not by a connection
  std::map<std::string, int> Accepted;
  bool Listening = false; int Port = 0;
  int Serving = 0, MaxServing = 0;
  std::string ListenAddress;
};
struct World {
  std::mutex M; std::condition_variable CV;
  std::atomic<uint64_t> Seq{0};
  std::map<std::string, Script> Scripts;
  std::map<std::string, std::shared_ptr<Conn>> Conns;
  std::deque<Server> Servers; // constant addresses
  std::set<int> FailClose;    // descriptors
};
World &W() { static World *X = new World; return *X; }
thread_local std::shared_ptr<Conn> Cur;
thread_local bool FailNextThread = false, FailNextAddress = false;
thread_local bool ServerThread = false;

// --- disturbance of the system calls of the server
std::atomic<bool> Disturb{false};
std::atomic<uint64_t> DisturbSeed{1}, Shorts{0}, Interrupts{0}, AcceptFaults{0};
std::atomic<const char *> StartFault{nullptr};
std::atomic<int> StartFaults{0};
std::atomic<int> StartDelay{0}; // before steps of a start
std::atomic<bool> StartFailClose{false}; // closing the socket of the server reports an error
unsigned dice(unsigned N) { return (unsigned)(vp::mix(DisturbSeed.fetch_add(0x9e3779b97f4a7c15ull)) % N); }
void startDelay() { if (int D = StartDelay) usleep(dice(D)); }
bool startFault(const char *N) {
  auto F = StartFault.load();
  if (!F || strcmp(F, N)) return false;
  StartFaults++; return true;
}
}
extern "C" {
ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
int __real_accept(int, sockaddr *, socklen_t *); int __real_close(int); int __real_nanosleep(const timespec *, timespec *);
int __real_socket(int, int, int); int __real_setsockopt(int, int, int, const void *, socklen_t);
int __real_bind(int, const sockaddr *, socklen_t); int __real_listen(int, int);
int __real_getsockname(int, sockaddr *, socklen_t *);
hostent *__real_gethostbyname(const char *);
// Only the server calls these functions (the clients call __real_... below).
ssize_t __wrap_recv(int S, void *B, size_t N, int F) {
  if (Disturb) {
    switch (dice(8)) {
    case 0: Interrupts++; errno = EINTR; return -1;
    case 1: case 2: if (N > 1) { N = 1 + dice(N < 64 ? N : 64); Shorts++; } break;
    case 3: usleep(dice(300));
    }
  }
  return __real_recv(S, B, N, F);
}
ssize_t __wrap_send(int S, const void *B, size_t N, int F) {
  if (Disturb) {
    switch (dice(8)) {
    case 0: Interrupts++; errno = EINTR; return -1;
    case 1: case 2: case 3: if (N > 1) { N = 1 + dice(N < 100000 ? N : 100000); Shorts++; } break;
    case 4: usleep(dice(300));
    }
  }
  return __real_send(S, B, N, F);
}
int __wrap_accept(int S, sockaddr *A, socklen_t *L) {
  if (Disturb && dice(4) == 0) { static const int E[] = {EINTR, ECONNABORTED, EMFILE, ENOBUFS}; AcceptFaults++; errno = E[dice(4)]; return -1; }
  int R = __real_accept(S, A, L);
  if (R >= 0 && A && A->sa_family == AF_INET) {
    auto *I = (sockaddr_in *)A; char B[INET_ADDRSTRLEN] = "";
    inet_ntop(AF_INET, &I->sin_addr, B, sizeof B);
    std::lock_guard<std::mutex> G(W().M);
    auto Sc = W().Scripts.find(std::string(B) + ":" + std::to_string(ntohs(I->sin_port)));
    FailNextAddress = Sc != W().Scripts.end() && Sc->second.FailAddress;
    if (Sc != W().Scripts.end() && Sc->second.FailClose) W().FailClose.insert(R);
  }
  return R;
}
// A descriptor is always closed but there may be an error.
int __wrap_close(int F) {
  bool Fail;
  { std::lock_guard<std::mutex> G(W().M); Fail = W().FailClose.erase(F); }
  int R = __real_close(F);
  if (Fail) { errno = EIO; return -1; }
  return R;
}
// A server which waits for a free slot may sleep for seconds.
int __wrap_nanosleep(const timespec *T, timespec *R) {
  timespec Short{0, 2000000};
  return __real_nanosleep(T->tv_sec > 0 || T->tv_nsec > Short.tv_nsec ? &Short : T, R);
}
int __wrap_socket(int A, int B, int C) {
  startDelay();
  if (startFault("socket")) { errno = EMFILE; return -1; }
  int R = __real_socket(A, B, C);
  if (R >= 0 && StartFailClose) { std::lock_guard<std::mutex> G(W().M); W().FailClose.insert(R); }
  return R;
}
// Its result belongs to the library, other threads may run before it is read.
hostent *__wrap_gethostbyname(const char *N) { auto *R = __real_gethostbyname(N); startDelay(); return R; }
int __wrap_setsockopt(int A, int B, int C, const void *D, socklen_t E) { startDelay(); if (startFault("setsockopt")) { errno = ENOMEM; return -1; } return __real_setsockopt(A, B, C, D, E); }
int __wrap_bind(int A, const sockaddr *B, socklen_t C) { startDelay(); if (startFault("bind")) { errno = EACCES; return -1; } return __real_bind(A, B, C); }
// With a short queue the kernel answers a crowd with SYN cookies, then it may take
// a connection without its first bytes if they are few: a client which sends 2
// bytes and ends seems to have sent nothing. Longer queues avoid that.
int __wrap_listen(int A, int B) { if (startFault("listen")) { errno = EADDRINUSE; return -1; } return __real_listen(A, B > 0 ? std::max(B, 1024) : B); }
int __wrap_getsockname(int A, sockaddr *B, socklen_t *C) { startDelay(); if (FailNextAddress) { FailNextAddress = false; errno = ENOBUFS; return -1; } if (startFault("getsockname")) { errno = ENOBUFS; return -1; } return __real_getsockname(A, B, C); }
// Threads are launched by the C++ library.
int pthread_create(pthread_t *T, const pthread_attr_t *A, void *(*F)(void *), void *Arg) {
  if (FailNextThread) { FailNextThread = false; return EAGAIN; }
  using Fn = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  static Fn Real = (Fn)dlsym(RTLD_NEXT, "pthread_create");
  return Real(T, A, F, Arg);
}
}

namespace {
std::string key(const std::string &A, int P) { return A + ":" + std::to_string(P); }

void onStatus(int Index, SocketStatus St, const Connection &C) {
  Event E{(int)St, 0, C.getServerAddress(), C.getClientAddress(), C.getServerPort(), C.getClientPort(), C.isActive(), "", false};
  bool Fail = false;
  {
    std::lock_guard<std::mutex> L(W().M);
    E.Seq = ++W().Seq;
    auto &S = W().Servers[Index];
    if (Cur) {
      if (!Cur->Known) {
        Cur->Known = true; Cur->Key = key(E.CAddr, E.CPort);
        auto I = W().Scripts.find(Cur->Key);
        if (I != W().Scripts.end()) Cur->S = I->second;
        W().Conns[Cur->Key] = Cur;
      }
      Cur->Events.push_back(E);
      if (Cur->S.Server != Index) Cur->Foreign = true; // another server reports it
      if (St == SocketStatus::SendError) Cur->SendFailed = true;
      if (St == SocketStatus::Close || St == SocketStatus::CloseError) { Cur->Closed = true; --S.Serving; }
    } else {
      if (St == SocketStatus::Listen) { S.Listening = true; S.Port = E.SPort; S.ListenAddress = E.SAddr; }
      if (St == SocketStatus::Accept) {
        ++S.Accepted[key(E.CAddr, E.CPort)];
        auto I = W().Scripts.find(key(E.CAddr, E.CPort));
        Fail = I != W().Scripts.end() && I->second.FailThread;
        if (!Fail) { ++S.Serving; S.MaxServing = std::max(S.MaxServing, S.Serving); }
      }
      if (S.Events.size() < 100000) S.Events.push_back(E);
    }
    W().CV.notify_all();
  }
  if (Fail) FailNextThread = true;
}

void transmit(Conn &C, const bcl::Socket<std::string> *S, const std::string &M) {
  { std::lock_guard<std::mutex> L(W().M); C.Sent += M; ++C.Sends; }
  S->send(M);
}
std::string pattern(uint64_t Seed, size_t N) {
  std::string S(N, 0);
  vp::Rng R(Seed);
  bool Text = R.chance(1, 3);
  for (size_t I = 0; I < N; I += 8) { uint64_t X = R.next(); memcpy(&S[I], &X, std::min<size_t>(8, N - I)); }
  if (Text) for (auto &C : S) C = (char)('a' + (unsigned char)C % 26);
  return S;
}
}

namespace {
void log(Conn &C, int Kind, const std::string &Data = "", bool Ok = false) {
  std::lock_guard<std::mutex> L(W().M);
  C.Events.push_back(Event{Kind, ++W().Seq, "", "", 0, 0, false, Data, Ok});
  W().CV.notify_all();
}
[[noreturn]] void fail(Conn &C) {
  log(C, Failure);
  struct Own {};
  switch (C.S.Seed % 5) { case 0: throw std::runtime_error("listener"); case 1: throw 42; case 2: throw Own(); case 3: throw std::bad_alloc(); default: throw std::string("text"); }
}
void awaitEnd(std::shared_ptr<Conn> C, const bcl::Socket<std::string> *S, int I) {
  std::string Own = "an own value of the listener, number " + std::to_string(I);
  S->closed([C, I, Own](bool Ok) {
    if (C->S.SlowClosed) usleep(C->S.SlowClosed);
    {
      std::lock_guard<std::mutex> L(W().M);
      Event E{ClosedListener + I, ++W().Seq, "", "", 0, 0, false, "", Ok};
      C->Events.push_back(E); ++C->ClosedCalls;
      W().CV.notify_all();
    }
    if (I == C->S.ThrowClosed) fail(*C);
    if (Own != "an own value of the listener, number " + std::to_string(I)) abort();
  });
}
void listenTo(std::shared_ptr<Conn> C, const bcl::Socket<std::string> *S, int I) {
  std::string Own = "an own value of the listener, number " + std::to_string(I);
  int Calls = 0;
  S->receive([C, S, I, Own, Calls](const std::string &D) mutable {
      auto &Sc = C->S;
      uint64_t N;
      {
        std::lock_guard<std::mutex> L(W().M);
        Event E{Listener + I, ++W().Seq, "", "", 0, 0, false, D, false};
        C->Events.push_back(E); N = C->Events.size();
        W().CV.notify_all();
      }
      if (I == 0 && Sc.SlowReceive) usleep(Sc.SlowReceive);
      if (Sc.Reply == Script::Echo && I == 0) transmit(*C, S, D);
      if (Sc.Reply == Script::Late && I == Sc.Receivers - 1) { usleep(500); transmit(*C, S, "late" + D); }
      if (Sc.Reply == Script::Chatty) {
        vp::Rng R(Sc.Seed ^ vp::mix(N));
        for (int K = (int)R.below(3); K > 0; --K) transmit(*C, S, pattern(R.next(), R.below(60)));
      }
      if (Sc.Flood && I == 0) {
        std::string Big = pattern(Sc.Seed, 2000000);
        double Until = vp::now() + 30;
        while (!C->SendFailed && vp::now() < Until) transmit(*C, S, Big);
        int K; { std::lock_guard<std::mutex> L(W().M); K = C->Closers++; } log(*C, AddedClosed + K); awaitEnd(C, S, K);
        K = C->Receivers++; log(*C, Added + K); listenTo(C, S, K);
      }
      if (Sc.Adding) {
        vp::Rng R(Sc.Seed ^ vp::mix(N + 1000));
        if (R.chance(1, 3) && C->Receivers < 12) { int K = C->Receivers++; log(*C, Added + K); listenTo(C, S, K); }
        if (R.chance(1, 4) && C->Closers < 12) { int K; { std::lock_guard<std::mutex> L(W().M); K = C->Closers++; } log(*C, AddedClosed + K); awaitEnd(C, S, K); }
      }
      ++Calls;
      if (Sc.ThrowAt == Calls + 1 && Sc.ThrowBy == I) fail(*C);
      if (Own != "an own value of the listener, number " + std::to_string(I)) abort();
    });
}
}

namespace bcl {
template<> void createServer<std::string>(const Socket<std::string> *S) {
  auto C = std::make_shared<Conn>();
  Cur = C;
  // An empty message tells nothing to a client, but the server reports it.
  transmit(*C, S, "");
  auto Sc = C->S;
  C->Receivers = Sc.Receivers;
  { std::lock_guard<std::mutex> L(W().M); C->Closers = Sc.ThrowAt == 0 ? 0 : Sc.Closers; }
  for (auto &M : Sc.Greeting) transmit(*C, S, M);
  if (Sc.ThrowAt == 0) fail(*C);
  for (int I = 0; I < Sc.Receivers; ++I) listenTo(C, S, I);
  for (int I = 0; I < Sc.Closers; ++I) awaitEnd(C, S, I);
  if (Sc.ThrowAt == 1) fail(*C);
}
}

namespace {
int server(vp::Case &c, const std::string &Address, size_t Buffer, size_t Limit) {
  std::unique_lock<std::mutex> L(W().M);
  for (auto &S : W().Servers) if (S.Address == Address && S.Buffer == Buffer && S.Limit == Limit) return S.Index;
  int I = (int)W().Servers.size();
  W().Servers.push_back(Server{I, Address, Buffer, Limit, {}, {}, false, 0, 0, 0, ""});
  L.unlock();
  std::thread([I, Address, Buffer, Limit] {
    ServerThread = true;
    auto *On = new bcl::net::SocketStatusHandler([I](SocketStatus S, const Connection &C) { onStatus(I, S, C); });
    bcl::net::startServer(Address, 0, Limit, *On, Buffer);
  }).detach();
  L.lock();
  bool Ok = W().CV.wait_for(L, std::chrono::seconds(20), [&] { return W().Servers[I].Listening; });
  L.unlock();
  if (!Ok) c.fail("no-listen", "the server does not report that it listens");
  return I;
}

std::set<int> descriptors() {
  std::set<int> R;
  for (int I = 0; I < 2400; ++I) { struct stat S; if (fstat(I, &S) == 0) R.insert(I); }
  return R;
}
// A program may have opened many other files, then descriptors are large.
struct Occupied {
  std::vector<int> F;
  void occupy(vp::Case &c, int N) {
    rlimit Lim; if (getrlimit(RLIMIT_NOFILE, &Lim) != 0 || Lim.rlim_cur < 4000) return;
    int Z = ::open("/dev/null", O_RDONLY);
    for (int I = 0; I < N && Z >= 0; ++I) { F.push_back(Z); Z = dup(Z); }
    if (Z >= 0) { F.push_back(Z); c.count("large_descriptors"); }
  }
  ~Occupied() { for (int X : F) ::close(X); }
};
int threads() {
  int N = 0;
  if (DIR *D = opendir("/proc/self/task")) { while (auto *E = readdir(D)) if (E->d_name[0] != '.') ++N; closedir(D); }
  return N;
}
long vmPages() { FILE *F = fopen("/proc/self/statm", "r"); long N = 0; if (F) { if (fscanf(F, "%ld", &N) != 1) N = 0; fclose(F); } return N; }

struct Client {
  int Fd = -1;
  std::string Addr, Where = "127.0.0.1"; int Port = 0;
  std::string Out, In;      // to send, received
  size_t SentN = 0;
  unsigned SlowRead = 0, ReadDelay = 0; // microseconds; at most SlowRead bytes at once if not 0
  size_t ReadChunk = 65536;
  size_t MaxChunk = 1000000; unsigned ChunkDelay = 0;
  enum { Fin, Reset, Close } End = Fin;
  size_t ResetAfter = 0;    // for Reset/Close: bytes to read before
  bool SendAllFirst = true;
  bool Eof = false, Error = false;
  std::string key() const { return ::key(Addr, Port); }

  // Takes an address; the script has to be known before connect().
  bool open(vp::Rng &R) {
    Fd = __real_socket(AF_INET, SOCK_STREAM, 0);
    if (Fd < 0) return false;
    for (int Try = 0; Try < 20; ++Try) {
      sockaddr_in A; memset(&A, 0, sizeof A);
      A.sin_family = AF_INET;
      std::string Ad = vp::fmt("127.%d.%d.%d", (int)R.below(250), (int)R.below(250), 1 + (int)R.below(250));
      inet_pton(AF_INET, Ad.c_str(), &A.sin_addr);
      if (__real_bind(Fd, (sockaddr *)&A, sizeof A) != 0) continue;
      socklen_t L = sizeof A;
      if (__real_getsockname(Fd, (sockaddr *)&A, &L) != 0) return false;
      Addr = Ad; Port = ntohs(A.sin_port);
      return true;
    }
    return false;
  }
  bool connectTo(int SPort) { return connectTo(SPort, Where); }
  bool connectTo(int SPort, const std::string &Where) {
    this->Where = Where;
    sockaddr_in A; memset(&A, 0, sizeof A);
    A.sin_family = AF_INET; A.sin_port = htons(SPort); inet_pton(AF_INET, Where.c_str(), &A.sin_addr);
    if (connect(Fd, (sockaddr *)&A, sizeof A) != 0) return false;
    int One = 1; __real_setsockopt(Fd, IPPROTO_TCP, TCP_NODELAY, &One, sizeof One);
    return true;
  }
  void reset() {
    linger Li{1, 0};
    __real_setsockopt(Fd, SOL_SOCKET, SO_LINGER, &Li, sizeof Li);
    ::close(Fd); Fd = -1;
  }
  // Sends and reads until the end. Returns false if it takes too long.
  bool run(vp::Rng R) {
    fcntl(Fd, F_SETFL, O_NONBLOCK);
    double Until = vp::now() + 40;
    double ReadFrom = vp::now() + ReadDelay * 1e-6;
    bool Shut = false;
    std::vector<char> B(ReadChunk);
    for (;;) {
      if (vp::now() > Until) return false;
      bool WantWrite = SentN < Out.size();
      if (!WantWrite && !Shut && End == Fin) { shutdown(Fd, SHUT_WR); Shut = true; }
      if (End != Fin && !WantWrite && In.size() >= ResetAfter) break;
      bool MayRead = vp::now() >= ReadFrom;
      pollfd P{Fd, (short)((WantWrite ? POLLOUT : 0) | (MayRead ? POLLIN : 0)), 0};
      poll(&P, 1, MayRead ? 1000 : 1);
      if (P.revents & POLLOUT) {
        size_t N = std::min(Out.size() - SentN, 1 + (size_t)R.below(MaxChunk));
        ssize_t K = __real_send(Fd, Out.data() + SentN, N, MSG_NOSIGNAL);
        if (K < 0 && errno != EAGAIN) { Error = true; break; }
        if (K > 0) SentN += K;
        if (ChunkDelay && R.chance(1, 2)) usleep(R.below(ChunkDelay));
      }
      if (MayRead && (P.revents & (POLLIN | POLLHUP | POLLERR))) {
        ssize_t K = __real_recv(Fd, B.data(), B.size(), 0);
        if (K == 0) { Eof = true; break; }
        if (K < 0) { if (errno == EAGAIN) continue; Error = true; break; }
        In.append(B.data(), K);
        if (SlowRead) ReadFrom = vp::now() + R.below(SlowRead) * 1e-6;
      }
    }
    if (End == Reset) reset();
    else { ::close(Fd); Fd = -1; }
    return true;
  }
  ~Client() { if (Fd >= 0) ::close(Fd); }
};

std::shared_ptr<Conn> find(const std::string &Key) {
  std::lock_guard<std::mutex> L(W().M);
  auto I = W().Conns.find(Key);
  return I == W().Conns.end() ? nullptr : I->second;
}
std::shared_ptr<Conn> awaitClosed(vp::Case &c, const std::string &Key) {
  std::unique_lock<std::mutex> L(W().M);
  auto Done = [&] { auto I = W().Conns.find(Key); return I != W().Conns.end() && I->second->Closed && I->second->ClosedCalls >= (size_t)I->second->Closers; };
  if (W().CV.wait_for(L, std::chrono::seconds(30), Done)) return W().Conns[Key];
  std::string M = "connection " + Key;
  auto I = W().Conns.find(Key);
  if (I == W().Conns.end()) M += " is not served";
  else { M += vp::fmt(" closed=%d closed listeners called %zu of %d; events:", I->second->Closed, I->second->ClosedCalls, I->second->Closers); for (auto &E : I->second->Events) M += std::string(" ") + (E.Kind < Listener ? statusName(E.Kind) : E.Kind < ClosedListener ? "listener" : "closed"); }
  L.unlock();
  c.fail("no-end", M);
  return nullptr;
}

// Checks everything the server has told about one connection.
void verify(vp::Case &c, const Client &Cl, const std::shared_ptr<Conn> &C, bool Complete, int ExpectOk /*-1: any*/) {
  std::unique_lock<std::mutex> L(W().M);
  auto Events = C->Events; auto Sent = C->Sent; size_t Sends = C->Sends; auto Sc = C->S; bool Failed = C->SendFailed; int Receivers = C->Receivers, Closers = C->Closers;
  auto Srv = W().Servers[Sc.Server];
  int Accepted = Srv.Accepted[Cl.key()];
  bool Foreign = C->Foreign;
  uint64_t AcceptSeq = 0, ListenSeq = 0; std::string ListenAt; int Listens = 0, Accepts = 0;
  bool AddressOk = true; std::string Bad;
  for (auto &E : W().Servers[Sc.Server].Events) {
    if (E.Kind == (int)SocketStatus::Listen) { ++Listens; ListenSeq = E.Seq; ListenAt = key(E.SAddr, E.SPort); }
    if (E.CAddr == Cl.Addr && E.CPort == Cl.Port) {
      if (E.Kind == (int)SocketStatus::Accept) { ++Accepts; AcceptSeq = E.Seq; }
      if (!E.Active || E.SAddr != Cl.Where || E.SPort != Srv.Port) { AddressOk = false; Bad = E.SAddr + ":" + std::to_string(E.SPort); }
    }
  }
  L.unlock();
  std::string Trace;
  for (auto &E : Events) if (Trace.size() < 700) Trace += std::string(" ") + (E.Kind < Listener ? statusName(E.Kind) : E.Kind < ClosedListener ? vp::fmt("L%d(%zu)", E.Kind - Listener, E.Data.size()) : vp::fmt("closed%d(%d)", E.Kind - ClosedListener, E.Ok));
  VP_CHECK(c, Accepted == 1 && Accepts == 1, "accept", vp::fmt("%d acceptances are reported", Accepts));
  VP_CHECK(c, Listens == 1 && ListenSeq < AcceptSeq, "listen", vp::fmt("%d times reported", Listens));
  VP_CHECK(c, ListenAt == key(Srv.Address.empty() ? "0.0.0.0" : Srv.Address, Srv.Port), "listen-address", "the server at '" + Srv.Address + "' is reported as " + ListenAt);
  VP_CHECK(c, !Foreign, "server", "events of a connection are reported by another server:" + Trace);
  VP_CHECK(c, AddressOk, "address", "acceptance reports server " + Bad);
  std::vector<std::string> Data(Receivers);
  std::vector<size_t> From(Receivers, 0); // where the data of a listener start
  std::vector<int> ClosedN(Closers, 0);
  int Count = Sc.ThrowAt == 0 ? 0 : Sc.Receivers, Total = Count; bool Thrown = false; size_t Stream = 0;
  size_t SendEvents = 0, ReceiveEvents = 0, Closes = 0; int NextListener = Count; bool ReceiveError = false; size_t Errors = 0;
  std::string Piece;
  // That a connection could not be closed properly is reported as an error and as a failure to its listeners.
  const int End = (int)(Sc.FailClose ? SocketStatus::CloseError : SocketStatus::Close);
  if (Sc.FailClose) ExpectOk = 0;
  for (auto &E : Events) {
    VP_CHECK(c, E.Seq > AcceptSeq, "before-accept", "something happens before the acceptance:" + Trace);
    if (E.Kind < Listener) {
      VP_CHECK(c, E.CAddr == Cl.Addr && E.CPort == Cl.Port && E.SAddr == Cl.Where && E.SPort == Srv.Port && E.Active, "address",
        std::string(statusName(E.Kind)) + " reports " + key(E.SAddr, E.SPort) + " - " + key(E.CAddr, E.CPort) + " instead of " + key(Cl.Where, Srv.Port) + " - " + Cl.key());
      VP_CHECK(c, Closes == 0, "after-close", std::string(statusName(E.Kind)) + " after closing:" + Trace);
      VP_CHECK(c, !ReceiveError || E.Kind == End, "after-error", Trace);
    }
    if (E.Kind == (int)SocketStatus::Send) ++SendEvents;
    else if (E.Kind == (int)SocketStatus::SendError) ++Errors;
    else if (E.Kind == (int)SocketStatus::Receive) {
      VP_CHECK(c, NextListener >= Count && !Thrown, "listener-not-called", Trace);
      ++ReceiveEvents; NextListener = 0; Stream += Piece.size(); Piece.clear(); Count = Total;
    } else if (E.Kind == (int)SocketStatus::ReceiveError) ReceiveError = true;
    else if (E.Kind == End) { ++Closes; if (Sc.FailClose) c.count("failed_closes"); }
    else if (E.Kind == (int)SocketStatus::UnknownError && Thrown) c.count("failures_reported");
    else if (E.Kind < Listener) c.fail("unexpected-event", statusName(E.Kind) + Trace);
    else if (E.Kind < ClosedListener) {
      VP_CHECK(c, Closes == 0, "after-close", "data after closing:" + Trace);
      int I = E.Kind - Listener;
      VP_CHECK(c, !Thrown, "after-failure", "data after a failure:" + Trace);
      // A listener which has just been added may be called or not.
      VP_CHECK(c, I == NextListener && I < Total, "listener-order", vp::fmt("listener %d is called instead of %d:", I, NextListener) + Trace);
      ++NextListener;
      VP_CHECK(c, !E.Data.empty() && E.Data.size() <= Srv.Buffer, "piece-size", vp::fmt("a piece of %zu bytes, buffer %zu", E.Data.size(), Srv.Buffer));
      if (I == 0) Piece = E.Data;
      VP_CHECK(c, E.Data == Piece, "different-pieces", "listeners see different data");
      if (I >= Count) From[I] = Stream;
      Data[I] += E.Data;
    } else if (E.Kind >= Failure) Thrown = true;
    else if (E.Kind >= AddedClosed) c.count("added_closed_listeners");
    else if (E.Kind >= Added) { From[Total++] = Stream + Piece.size(); c.count("added_listeners"); }
    else {
      int I = E.Kind - ClosedListener;
      VP_CHECK(c, Closes == 1, "closed-early", Trace);
      VP_CHECK(c, ++ClosedN[I] == 1, "closed-twice", Trace);
      if (Thrown && Sc.ThrowClosed < 0) VP_CHECK(c, !E.Ok, "closed-value", "the end of a connection whose listener fails is reported as a success:" + Trace);
      else if (ExpectOk >= 0 && !Failed)
        VP_CHECK(c, E.Ok == (bool)ExpectOk, "closed-value", vp::fmt("the closed listener gets %d:", E.Ok) + Trace);
    }
  }
  VP_CHECK(c, Closes == 1, "closes", Trace);
  VP_CHECK(c, NextListener >= Count || Thrown, "listener-not-called", Trace);
  for (auto N : ClosedN) VP_CHECK(c, N == 1, "closed-calls", Trace);
  VP_CHECK(c, SendEvents + Errors == Sends, "send-events", vp::fmt("%zu sends, %zu reported as done and %zu as failed:", Sends, SendEvents, Errors) + Trace);
  for (auto &D : Data) {
    auto Out = Cl.Out.substr(std::min(Cl.Out.size(), From[&D - &Data[0]]));
    if (Complete) {
      if (D != Out) {
        size_t K = 0; while (K < D.size() && K < Out.size() && D[K] == Out[K]) ++K;
        c.fail("received-stream", vp::fmt("%zu bytes are delivered of %zu, equal up to %zu:", D.size(), Out.size(), K) + Trace);
      }
    } else
      VP_CHECK(c, D.size() <= Cl.SentN && Out.compare(0, D.size(), D) == 0, "received-stream", "delivered data are not a prefix of those sent");
  }
  if (Complete) {
    VP_CHECK(c, !Failed && Errors == 0, "send-error", "a send fails though the client reads everything:" + Trace);
    if (Cl.In != Sent) {
      size_t K = 0; while (K < Cl.In.size() && K < Sent.size() && Cl.In[K] == Sent[K]) ++K;
      c.fail("sent-stream", vp::fmt("the client gets %zu bytes of %zu, equal up to %zu:", Cl.In.size(), Sent.size(), K) + Trace);
    }
  } else
    VP_CHECK(c, Cl.In.size() <= Sent.size() && Sent.compare(0, Cl.In.size(), Cl.In) == 0, "sent-stream", "received data are not a prefix of those sent");
  c.count("connections"); c.count("pieces", ReceiveEvents); c.count("bytes_received", Data.empty() ? 0 : Data[0].size());
  c.count("bytes_sent", Cl.In.size()); c.count("sends", SendEvents); c.count("send_errors", Errors); if (ReceiveError) c.count("receive_errors");
  uint64_t H = 0;
  for (auto &E : Events) H = vp::mix(H * 31 + E.Kind + (E.Data.size() << 9));
  c.member("event_sequences", H);
}

// Descriptors and threads of the connections have to go away.
void settle(vp::Case &c, const std::set<int> &Fds, int Threads) {
  double Until = vp::now() + 20;
  for (;;) {
    auto F = descriptors(); int T = threads();
    if (F.size() <= Fds.size() && T <= Threads) return;
    if (vp::now() > Until) c.fail("not-released", vp::fmt("%zu descriptors instead of %zu, %d threads instead of %d", F.size(), Fds.size(), T, Threads));
    usleep(1000);
  }
}
struct Quiet { ~Quiet() { Disturb = false; std::lock_guard<std::mutex> L(W().M); W().Scripts.clear(); W().Conns.clear(); for (auto &S : W().Servers) { S.Accepted.clear(); std::vector<Event> K; for (auto &E : S.Events) if (E.Kind == (int)SocketStatus::Listen) K.push_back(E); S.Events.swap(K); S.MaxServing = S.Serving; } } };
// Cases leave before their threads only after joining them.
struct Joiner { std::vector<std::thread> T; ~Joiner() { for (auto &X : T) if (X.joinable()) X.join(); } };
void setScript(const std::string &K, const Script &S) { std::lock_guard<std::mutex> L(W().M); W().Scripts[K] = S; }

size_t pickBuffer(vp::Rng &R) { size_t B[] = {1, 2, 3, 7, 64, 1000, 65535}; return R.pick(B); }

enum Focus { Streams, Sending, Eventing, Adding };
void talk(vp::Case &c, Focus Fo) {
  auto &R = c.R;
  Quiet Q;
  size_t Buf = Fo == Sending ? 65535 : pickBuffer(R);
  const char *Hosts[] = {"127.0.0.1", "", "127.31.7.9", "0.0.0.0"};
  std::string Host = Hosts[R.chance(1, 2) ? 0 : R.below(4)];
  int Srv = server(c, Host, Buf, 0);
  int Port = W().Servers[Srv].Port;
  size_t N = 1 + R.below(4);
  bool D = R.chance(1, 2);
  std::string In = vp::fmt("host='%s' buffer=%zu disturb=%d:", Host.c_str(), Buf, D);
  usleep(100);
  Occupied Oc; if (R.chance(1, 8)) Oc.occupy(c, 1020 + (int)R.below(100));
  auto Fds = descriptors(); int Th = threads();
  {
    std::vector<Client> Cl(N);
    std::vector<int> Expect(N);
    for (auto &X : Cl) {
      VP_CHECK(c, X.open(R), "harness", "no client socket");
      X.Where = Host == "" || Host == "0.0.0.0" ? vp::fmt("127.0.%d.%d", (int)R.below(3), 1 + (int)R.below(200)) : Host;
      if (X.Where != "127.0.0.1") c.count("other_addresses");
      Script S; S.Server = Srv; S.Seed = R.next();
      S.Receivers = 1 + (int)R.below(3); S.Closers = (int)R.below(3);
      size_t Max = Buf < 10 ? 600 : 6000;
      if (Fo == Sending) Max = 300;
      X.Out = pattern(R.next(), R.chance(1, 8) ? R.below(Max * 30) : R.size(Max));
      if (R.chance(1, 4)) for (auto &Ch : X.Out) Ch = R.chance(1, 3) ? 0 : Ch;
      X.MaxChunk = R.chance(1, 2) ? 1 + R.below(40) : 100000; if (X.Out.size() > 5000) X.MaxChunk = 100000;
      X.ChunkDelay = R.chance(1, 3) ? 200 : 0; if (X.Out.size() / X.MaxChunk > 200) X.ChunkDelay = 0;
      S.Reply = (decltype(S.Reply))R.below(4);
      if (S.Reply == Script::Late && Buf < 64) S.Reply = Script::Chatty;
      if (R.chance(1, 2) || Fo == Sending)
        for (size_t K = R.below(4) + (Fo == Sending); K > 0; --K) S.Greeting.push_back(pattern(R.next(), Fo == Sending && R.chance(1, 6) ? R.below(6000000) : R.size(3000)));
      if (Fo == Sending && R.chance(1, 3)) { X.ReadDelay = (unsigned)R.below(20000); X.SlowRead = 300; X.ReadChunk = 1 + R.below(200000); if (X.ReadChunk < 5000) X.SlowRead = 0; }
      if (X.ReadChunk < 2000) for (auto &G : S.Greeting) G.resize(std::min<size_t>(G.size(), 20000));
      S.Adding = Fo == Adding;
      if (Fo == Eventing) {
        X.End = R.chance(1, 2) ? Client::Fin : R.chance(1, 2) ? Client::Reset : Client::Close;
        if (R.chance(1, 4)) S.SlowReceive = 200;
        S.FailClose = R.chance(1, 7);
      }
      In += vp::fmt(" [out=%zu reply=%d greetings=%zu listeners=%d,%d end=%d]", X.Out.size(), (int)S.Reply, S.Greeting.size(), S.Receivers, S.Closers, (int)X.End);
      setScript(X.key(), S);
    }
    c.input(In);
    if (D) { DisturbSeed = R.next(); Disturb = true; }
    std::vector<char> Ok(N, 0), Con(N, 0);
    {
      Joiner J;
      for (size_t I = 0; I < N; ++I) {
        vp::Rng R2(R.next());
        J.T.emplace_back([&, I, R2] { Con[I] = Cl[I].connectTo(Port); if (Con[I]) Ok[I] = Cl[I].run(R2); });
      }
    }
    for (size_t I = 0; I < N; ++I) {
      VP_CHECK(c, Con[I], "connect", "a client can not connect");
      VP_CHECK(c, Ok[I], "client-stuck", vp::fmt("client %zu: %zu of %zu bytes sent, %zu received", I, Cl[I].SentN, Cl[I].Out.size(), Cl[I].In.size()));
      auto C = awaitClosed(c, Cl[I].key());
      bool Complete = Cl[I].End == Client::Fin;
      if (Complete) VP_CHECK(c, Cl[I].Eof, "client-reset", vp::fmt("client %zu gets an error instead of the end", I));
      // A client which closes with unread data resets the connection.
      int Exp = Cl[I].End == Client::Fin ? 1 : Cl[I].End == Client::Reset ? 0 : -1;
      if (Cl[I].End == Client::Close && C->S.Greeting.empty() && C->S.Reply == Script::Silent) Exp = 1;
      verify(c, Cl[I], C, Complete, Exp);
      c.count(Exp == 1 ? "orderly_ends" : Exp == 0 ? "resets" : "other_ends");
    }
    Disturb = false;
  }
  settle(c, Fds, Th);
  c.count("disturbed", D); c.member("buffers", Buf);
  uint64_t H = vp::hashStr(In);
  c.distinct(H ^ c.Index); c.sample(In);
}
}

VP_FAMILY_NOLEAK("S01.streams", 1200, 20000) { talk(c, Streams); }
VP_FAMILY_NOLEAK("S02.messages", 800, 12000) { talk(c, Sending); }
VP_FAMILY_NOLEAK("S03.events", 1200, 20000) { talk(c, Eventing); }

// One client goes away while it is answered; the others must not notice.
static void gone(vp::Case &c, bool Late) {
  auto &R = c.R;
  Quiet Q;
  int Srv = server(c, "127.0.0.1", 1000, 0), Port = W().Servers[Srv].Port;
  auto Fds = descriptors(); int Th = threads();
  bool D = R.chance(1, 3);
  {
    Client Gone, Good;
    VP_CHECK(c, Gone.open(R) && Good.open(R), "harness", "no client socket");
    Script S; S.Server = Srv; S.Seed = R.next(); S.Closers = 1; S.Reply = Script::Echo;
    for (int K = 0; K < 3; ++K) S.Greeting.push_back(pattern(R.next(), 4500000 + R.below(1000000)));
    S.Greeting.push_back("x"); S.Greeting.push_back("y");
    if (Late) { // listeners are set after the failure
      S.Closers = 1 + (int)R.below(3); S.Adding = R.chance(1, 2); Gone.Out = pattern(R.next(), 1 + R.below(500));
      if (R.chance(1, 2)) { S.Greeting.clear(); S.Flood = true; S.Reply = Script::Silent; }
    }
    Gone.End = R.chance(1, 2) ? Client::Reset : Client::Close; Gone.ResetAfter = R.below(100000);
    setScript(Gone.key(), S);
    Script T; T.Server = Srv; T.Reply = Script::Echo; Good.Out = pattern(R.next(), 3000); Good.MaxChunk = 1 + R.below(300); Good.ChunkDelay = 300;
    setScript(Good.key(), T);
    std::string In = vp::fmt("end=%d after %zu", (int)Gone.End, Gone.ResetAfter);
    c.input(In);
    if (D) { DisturbSeed = R.next(); Disturb = true; }
    char Ok1 = 0, Ok2 = 0;
    { Joiner J; vp::Rng A(R.next()), B(R.next()); J.T.emplace_back([&, A] { Ok1 = Gone.connectTo(Port) && Gone.run(A); }); J.T.emplace_back([&, B] { Ok2 = Good.connectTo(Port) && Good.run(B); }); }
    VP_CHECK(c, Ok1 && Ok2, "client-stuck", vp::fmt("%d %d", Ok1, Ok2));
    auto C1 = awaitClosed(c, Gone.key()); auto C2 = awaitClosed(c, Good.key());
    verify(c, Gone, C1, false, -1); verify(c, Good, C2, true, 1);
    VP_CHECK(c, C1->SendFailed, "no-send-error", "the peer has gone but every send is reported as done");
    c.count(Late ? S.Flood ? "gone_in_listener" : "gone_before_listeners" : "peers_gone");
    c.distinct(In + vp::fmt("%zu", Gone.In.size())); c.sample(In);
    Disturb = false;
  }
  settle(c, Fds, Th);
}
VP_FAMILY_NOLEAK("S02.gone", 400, 6000) { gone(c, false); }
VP_FAMILY_NOLEAK("S06.gone", 250, 4000) { gone(c, true); }

// Crowds of clients, most of them rude.
VP_FAMILY_NOLEAK("S04.hostile", 250, 4000) {
  auto &R = c.R;
  Quiet Q;
  int Srv = server(c, "127.0.0.1", R.chance(1, 2) ? 64 : 65535, 0), Port = W().Servers[Srv].Port;
  Occupied Oc; if (R.chance(1, 6)) Oc.occupy(c, 1020 + (int)R.below(100));
  auto Fds = descriptors(); int Th = threads();
  bool D = R.chance(1, 3);
  std::string In = vp::fmt("disturb=%d:", D);
  if (D) { DisturbSeed = R.next(); Disturb = true; }
  size_t Waves = 1 + R.below(3), Unnamed = 0;
  for (size_t Wv = 0; Wv < Waves; ++Wv) {
    size_t N = 1 + R.size(16);
    struct Guest { Client Cl; int Kind; bool Con = false, Ok = false; };
    std::vector<Guest> Gs(N);
    for (auto &X : Gs) {
      VP_CHECK(c, X.Cl.open(R), "harness", "no client socket");
      X.Kind = (int)R.below(8);
      Script S; S.Server = Srv; S.Seed = R.next();
      S.SlowClosed = R.chance(1, 3) ? (unsigned)R.below(15000) : 0;
      switch (X.Kind) {
      case 0: X.Cl.End = Client::Close; break;                        // says nothing
      case 1: X.Cl.End = Client::Reset; break;
      case 2: X.Cl.End = Client::Close; X.Cl.Out = pattern(R.next(), R.size(3000)); S.Reply = Script::Chatty; break;
      case 3: X.Cl.End = Client::Reset; X.Cl.Out = pattern(R.next(), R.size(3000)); S.Reply = Script::Echo; break;
      case 4: X.Cl.End = Client::Reset; S.Greeting.push_back(pattern(1, 3000000)); X.Cl.ResetAfter = R.below(5000); X.Cl.Out = "x"; break; // what it says makes the kernel finish the connection
      case 5: S.FailThread = true; X.Cl.Out = "x"; break;              // no thread is available
      case 7: S.FailAddress = true; X.Cl.Out = "x"; break;             // its address can not be got
      default: X.Cl.Out = pattern(R.next(), R.size(3000)); S.Reply = Script::Echo;
      }
      In += vp::fmt(" %d", X.Kind);
      setScript(X.Cl.key(), S);
    }
    c.input(In);
    {
      Joiner J;
      bool Seq = R.chance(1, 3);
      for (auto &X : Gs) {
        vp::Rng R2(R.next());
        auto Go = [&X, R2, Port] { X.Con = X.Cl.connectTo(Port); if (X.Con) X.Ok = X.Cl.run(R2); };
        if (Seq) Go(); else J.T.emplace_back(Go);
      }
    }
    for (auto &X : Gs) {
      VP_CHECK(c, X.Con, "connect", "a client can not connect");
      if (!X.Ok) {
        auto C = find(X.Cl.key());
        std::string M;
        if (C) { std::lock_guard<std::mutex> L(W().M); for (auto &E : C->Events) M += std::string(" ") + (E.Kind < Listener ? statusName(E.Kind) : E.Kind < ClosedListener ? "listener" : "closed"); } else M = " not served";
        c.fail("client-stuck", vp::fmt("kind %d, %zu of %zu sent, %zu read, %zu wanted, %d descriptors:", X.Kind, X.Cl.SentN, X.Cl.Out.size(), X.Cl.In.size(), X.Cl.ResetAfter, (int)descriptors().size()) + M);
      }
      if (X.Kind == 5) {
        // Refused, with a report.
        std::unique_lock<std::mutex> L(W().M);
        bool Ok = W().CV.wait_for(L, std::chrono::seconds(20), [&] { for (auto &E : W().Servers[Srv].Events) if (E.Kind == (int)SocketStatus::Close && E.CPort == X.Cl.Port && E.CAddr == X.Cl.Addr) return true; return false; });
        L.unlock();
        VP_CHECK(c, Ok, "refused-not-closed", "a connection which gets no thread is not closed");
        c.count("without_thread"); continue;
      }
      if (X.Kind == 7) {
        // Refused, with a report which does not name the client.
        ++Unnamed;
        VP_CHECK(c, !find(X.Cl.key()), "refused-served", "a connection whose address is unknown is served");
        c.count("without_address"); continue;
      }
      // A client may leave before its connection is accepted, then nobody has
      // seen it.
      if (X.Cl.End != Client::Fin) {
        double Until = vp::now() + 0.2; bool Seen = false;
        while (vp::now() < Until && !(Seen = (bool)find(X.Cl.key()))) usleep(500);
        if (!Seen) { c.count("never_seen"); continue; }
      }
      auto C = awaitClosed(c, X.Cl.key());
      verify(c, X.Cl, C, X.Kind == 6, X.Kind == 6 ? 1 : X.Kind == 1 || X.Kind == 3 ? 0 : X.Kind == 0 ? 1 : -1);
      c.count("served");
    }
  }
  Disturb = false;
  // It still serves.
  Client P; VP_CHECK(c, P.open(R), "harness", "no client socket");
  Script S; S.Server = Srv; S.Reply = Script::Echo; P.Out = "still there?"; setScript(P.key(), S);
  VP_CHECK(c, P.connectTo(Port) && P.run(vp::Rng(1)) && P.In == P.Out, "not-serving", "the server does not answer any more");
  awaitClosed(c, P.key());
  settle(c, Fds, Th);
  {
    std::lock_guard<std::mutex> L(W().M);
    size_t Errors = 0, Closes = 0; bool Order = true;
    for (auto &E : W().Servers[Srv].Events) {
      if (E.Kind == (int)SocketStatus::ServerAddressError) ++Errors;
      if (E.Kind == (int)SocketStatus::Close && !E.Active) { ++Closes; Order = Order && Closes <= Errors; }
    }
    VP_CHECK(c, Errors == Unnamed && Closes == Unnamed && Order, "unnamed-report", vp::fmt("%zu connections whose address is unknown, %zu errors and %zu ends are reported", Unnamed, Errors, Closes));
  }
  c.distinct(In + vp::fmt("/%lu", (unsigned long)c.Index)); c.sample(In);
}

// No more connections than allowed; the others wait.
VP_FAMILY_NOLEAK("S04.limit", 200, 3000) {
  auto &R = c.R;
  Quiet Q;
  size_t Limit = 1 + R.below(4);
  int Srv = server(c, "127.0.0.1", 65535, Limit), Port = W().Servers[Srv].Port;
  size_t N = Limit + 1 + R.below(2 * Limit + 2);
  auto Fds = descriptors();
  std::string In = vp::fmt("limit=%zu clients=%zu", Limit, N);
  c.input(In);
  {
    std::vector<Client> Cl(N); std::vector<char> Ok(N, 0);
    std::vector<unsigned> Hold(N);
    {
      Joiner J;
      for (size_t I = 0; I < N; ++I) {
        VP_CHECK(c, Cl[I].open(R), "harness", "no client socket");
        Script S; S.Server = Srv; S.Reply = Script::Echo; S.SlowClosed = R.chance(1, 3) ? 2000 : 0;
        Cl[I].Out = pattern(R.next(), 1 + R.below(200)); Cl[I].ChunkDelay = 3000; Cl[I].MaxChunk = 1 + R.below(200);
        Hold[I] = (unsigned)R.below(6000);
        setScript(Cl[I].key(), S);
      }
      for (size_t I = 0; I < N; ++I) { vp::Rng R2(R.next()); J.T.emplace_back([&, I, R2] { if (!Cl[I].connectTo(Port)) return; usleep(Hold[I]); Ok[I] = Cl[I].run(R2); }); }
    }
    for (size_t I = 0; I < N; ++I) {
      VP_CHECK(c, Ok[I], "client-stuck", vp::fmt("client %zu of %zu is not served", I, N));
      auto C = awaitClosed(c, Cl[I].key());
      verify(c, Cl[I], C, true, 1);
    }
  }
  int Max;
  { std::lock_guard<std::mutex> L(W().M); Max = W().Servers[Srv].MaxServing; }
  VP_CHECK(c, Max <= (int)Limit, "limit", vp::fmt("%d connections are served at the same time, %zu are allowed", Max, Limit));
  if (Max == (int)Limit) c.count("limit_reached");
  c.count("waiting_clients", N - Limit);
  settle(c, Fds, 1 << 20);
  c.distinct(In + vp::fmt("/%lu", (unsigned long)c.Index)); c.sample(In);
}

// Several servers: what one of them serves does not count for others.
VP_FAMILY_NOLEAK("S04.several", 100, 2000) {
  auto &R = c.R;
  Quiet Q;
  size_t M = 2 + R.below(2);
  std::vector<int> Srv; std::string In;
  const char *Addr[] = {"127.0.0.1", "127.0.0.1", "127.0.0.5"};
  std::set<int> Used;
  for (size_t I = 0; I < M; ++I) {
    int S = server(c, R.pick(Addr), R.chance(1, 2) ? 65535 : 64, 1 + R.below(3));
    if (!Used.insert(S).second) continue;
    Srv.push_back(S); In += vp::fmt("[%s buffer=%zu limit=%zu] ", W().Servers[S].Address.c_str(), W().Servers[S].Buffer, W().Servers[S].Limit);
  }
  auto Fds = descriptors();
  c.input(In);
  {
    std::vector<int> Of;
    for (int S : Srv) for (size_t I = 0; I < W().Servers[S].Limit; ++I) Of.push_back(S);
    for (size_t I = Of.size(); I > 1; --I) std::swap(Of[I - 1], Of[R.below(I)]);
    size_t N = Of.size();
    std::vector<Client> Cl(N); std::vector<char> Ok(N, 0);
    for (size_t I = 0; I < N; ++I) {
      VP_CHECK(c, Cl[I].open(R), "harness", "no client socket");
      Script S; S.Server = Of[I]; S.Seed = R.next(); S.Reply = (decltype(S.Reply))(1 + R.below(2)); S.Receivers = 1 + (int)R.below(2); S.Closers = 1;
      Cl[I].Out = pattern(R.next(), 1 + R.below(500));
      setScript(Cl[I].key(), S);
      VP_CHECK(c, Cl[I].connectTo(W().Servers[Of[I]].Port, W().Servers[Of[I]].Address), "connect", "nobody listens");
    }
    // All of them are served at the same time.
    bool All;
    {
      std::unique_lock<std::mutex> L(W().M);
      All = W().CV.wait_for(L, std::chrono::seconds(15), [&] { for (int S : Srv) if (W().Servers[S].Serving < (int)W().Servers[S].Limit) return false; return true; });
    }
    VP_CHECK(c, All, "not-serving", "servers do not take as many clients as they may: " + In);
    if (R.chance(1, 3)) { DisturbSeed = R.next(); Disturb = true; }
    { Joiner J; for (size_t I = 0; I < N; ++I) { vp::Rng R2(R.next()); J.T.emplace_back([&, I, R2] { Ok[I] = Cl[I].run(R2); }); } }
    Disturb = false;
    for (size_t I = 0; I < N; ++I) {
      VP_CHECK(c, Ok[I], "client-stuck", vp::fmt("client %zu of %zu is not served", I, N));
      verify(c, Cl[I], awaitClosed(c, Cl[I].key()), true, 1);
    }
    c.count("served_at_once", N);
  }
  if (Srv.size() > 1) c.count("full_servers", Srv.size());
  settle(c, Fds, 1 << 20);
  c.distinct(In + vp::fmt("/%lu", (unsigned long)c.Index)); c.sample(In);
}

// Many connections one after another: threads and their memory are given back.
VP_FAMILY_NOLEAK("S04.churn", 8, 64) {
  auto &R = c.R;
  Quiet Q;
  size_t Limit = R.chance(1, 2) ? 0 : 1000;
  int Srv = server(c, "127.0.0.1", 65535, Limit), Port = W().Servers[Srv].Port;
  c.input(vp::fmt("limit=%zu", Limit));
  auto Fds = descriptors(); int Th = threads();
  long Before = 0;
  for (int I = 0; I < 300; ++I) {
    if (I == 60) Before = vmPages();
    Client X; VP_CHECK(c, X.open(R), "harness", "no client socket");
    Script S; S.Server = Srv; S.Reply = Script::Echo; X.Out = pattern(R.next(), R.below(50)); setScript(X.key(), S);
    VP_CHECK(c, X.connectTo(Port) && X.run(vp::Rng(R.next())) && X.In == X.Out, "not-serving", "no answer");
    if (I % 10 == 0) { auto C = awaitClosed(c, X.key()); verify(c, X, C, true, 1); }
  }
  settle(c, Fds, Th);
  long Grown = (vmPages() - Before) * 4 / 1024;
  VP_CHECK(c, Grown < 900, "memory", vp::fmt("%ld MB of address space are not given back after 240 connections", Grown));
  c.count("churned", 300); c.distinct(c.Index); c.sample(vp::fmt("grown by %ld MB", Grown));
}

// Listeners which are added by listeners.
VP_FAMILY_NOLEAK("S06.added", 600, 10000) { talk(c, Adding); }

// Listeners which fail end their own connections and nothing else.
VP_FAMILY_NOLEAK("S06.failing", 1000, 15000) {
  auto &R = c.R;
  Quiet Q;
  int Srv = server(c, "127.0.0.1", R.chance(1, 2) ? 64 : 65535, 0), Port = W().Servers[Srv].Port;
  auto Fds = descriptors(); int Th = threads();
  size_t N = 2 + R.below(4);
  std::string In;
  {
    std::vector<Client> Cl(N); std::vector<Script> Sc(N); std::vector<char> Ok(N, 0);
    for (size_t I = 0; I < N; ++I) {
      VP_CHECK(c, Cl[I].open(R), "harness", "no client socket");
      auto &S = Sc[I];
      S.Server = Srv; S.Seed = R.next(); S.Receivers = 1 + (int)R.below(3); S.Closers = 1 + (int)R.below(3); S.Reply = (decltype(S.Reply))R.below(3);
      S.Adding = R.chance(1, 4); S.FailClose = R.chance(1, 10);
      if (I + 1 < N) { // the last one is not disturbed
        if (R.chance(1, 5)) S.ThrowClosed = (int)R.below(S.Closers);
        else { S.ThrowAt = (int)R.below(6); S.ThrowBy = (int)R.below(S.Receivers); }
      }
      if (R.chance(1, 3)) S.Greeting.push_back(pattern(R.next(), R.size(2000)));
      Cl[I].Out = pattern(R.next(), 1 + R.size(2000)); Cl[I].MaxChunk = 1 + R.below(500); Cl[I].ChunkDelay = R.chance(1, 2) ? 300 : 0;
      In += vp::fmt("[out=%zu throws=%d,%d closed=%d reply=%d] ", Cl[I].Out.size(), S.ThrowAt, S.ThrowBy, S.ThrowClosed, (int)S.Reply);
      setScript(Cl[I].key(), S);
    }
    c.input(In);
    if (R.chance(1, 3)) { DisturbSeed = R.next(); Disturb = true; }
    { Joiner J; for (size_t I = 0; I < N; ++I) { vp::Rng R2(R.next()); J.T.emplace_back([&, I, R2] { Ok[I] = Cl[I].connectTo(Port) && Cl[I].run(R2); }); } }
    for (size_t I = 0; I < N; ++I) {
      VP_CHECK(c, Ok[I], "client-stuck", vp::fmt("client %zu waits for the end of its connection: ", I) + In);
      auto C = awaitClosed(c, Cl[I].key());
      bool Failed = false;
      { std::lock_guard<std::mutex> L(W().M); for (auto &E : C->Events) if (E.Kind == Failure) Failed = true; }
      bool Early = Failed && Sc[I].ThrowClosed < 0;
      if (Sc[I].ThrowAt >= 0 && Sc[I].ThrowAt < 2) VP_CHECK(c, Failed, "harness", "");
      verify(c, Cl[I], C, !Early, Early ? 0 : 1);
      c.count(!Failed ? "calm_connections" : Sc[I].ThrowClosed >= 0 ? "failed_closed_listeners" : Sc[I].ThrowAt < 2 ? "failed_creations" : "failed_listeners");
    }
    Disturb = false;
    // It still serves.
    Client P; VP_CHECK(c, P.open(R), "harness", "no client socket");
    Script S; S.Server = Srv; S.Reply = Script::Echo; P.Out = "still there?"; setScript(P.key(), S);
    VP_CHECK(c, P.connectTo(Port) && P.run(vp::Rng(1)) && P.In == P.Out, "not-serving", "the server does not answer any more");
    awaitClosed(c, P.key());
  }
  settle(c, Fds, Th);
  c.distinct(In); c.sample(In);
}

// A server which can not start.
VP_FAMILY_NOLEAK("S05.start", 400, 4000) {
  auto &R = c.R;
  struct Reset { ~Reset() { StartFault = nullptr; StartFailClose = false; } } Rs;
  auto Fds = descriptors();
  std::string Address = "127.0.0.1"; int Port = 0;
  std::vector<int> Expect; bool RealAddress = false; std::string What;
  int Busy = -1;
  auto k = [](SocketStatus S) { return (int)S; };
  switch (R.below(10)) {
  case 0: case 1: {
    const char *Names[] = {"no such host", "bad..name", "256.256.256.256.", "-", "a_name_with_a_label_which_is_too_long_to_be_a_label_of_any_host_in_the_world.x", "127.0.0.1:80", "???"};
    Address = R.pick(Names); Port = (int)R.below(65536); Expect = {k(SocketStatus::HostnameError)}; What = "host"; break;
  }
  case 2: case 3: { // somebody listens there
    Busy = __real_socket(AF_INET, SOCK_STREAM, 0);
    Address = vp::fmt("127.%d.%d.%d", (int)R.below(250), (int)R.below(250), 1 + (int)R.below(250));
    sockaddr_in A; memset(&A, 0, sizeof A); A.sin_family = AF_INET; inet_pton(AF_INET, Address.c_str(), &A.sin_addr);
    VP_CHECK(c, __real_bind(Busy, (sockaddr *)&A, sizeof A) == 0 && __real_listen(Busy, 1) == 0, "harness", "no socket");
    socklen_t L = sizeof A; __real_getsockname(Busy, (sockaddr *)&A, &L); Port = ntohs(A.sin_port);
    Expect = {k(SocketStatus::BindError), k(SocketStatus::Close)}; What = "busy"; break;
  }
  case 4: { const char *Foreign[] = {"192.0.2.1", "198.51.100.77", "8.8.8.8"}; Address = R.pick(Foreign); Port = 1 + (int)R.below(65535); Expect = {k(SocketStatus::BindError), k(SocketStatus::Close)}; What = "foreign"; break; }
  case 5: StartFault = "socket"; Expect = {k(SocketStatus::CreateError)}; What = "socket"; break;
  case 6: StartFault = "setsockopt"; Expect = {k(SocketStatus::OptionError), k(SocketStatus::Close)}; What = "option"; break;
  case 7: StartFault = "bind"; Expect = {k(SocketStatus::BindError), k(SocketStatus::Close)}; What = "bind"; break;
  case 8: StartFault = "getsockname"; Expect = {k(SocketStatus::ServerAddressError), k(SocketStatus::Close)}; What = "address"; break;
  default: StartFault = "listen"; Expect = {k(SocketStatus::ListenError), k(SocketStatus::Close)}; RealAddress = true; What = "listen"; break;
  }
  if (Port == 0 && !RealAddress && R.chance(1, 2)) Port = 20000 + (int)R.below(10000);
  if (Expect.size() == 2 && R.chance(1, 3)) { StartFailClose = true; Expect[1] = k(SocketStatus::CloseError); What += ",close"; c.count("failed_start_closes"); }
  std::string In = What + " " + key(Address, Port);
  c.input(In);
  struct Shared { std::mutex M; std::condition_variable CV; bool Done = false; std::vector<Event> E; };
  auto Sh = std::make_shared<Shared>();
  StartFaults = 0;
  std::thread T([Sh, Address, Port] {
    // The handler outlives a server which should not have started.
    auto *On = new bcl::net::SocketStatusHandler([Sh](SocketStatus S, const Connection &C) { std::lock_guard<std::mutex> L(Sh->M); Sh->E.push_back(Event{(int)S, 0, C.getServerAddress(), C.getClientAddress(), C.getServerPort(), C.getClientPort(), C.isActive(), "", false}); });
    bcl::net::startServer(Address, Port, 0, *On);
    delete On;
    std::lock_guard<std::mutex> L(Sh->M); Sh->Done = true; Sh->CV.notify_all();
  });
  {
    std::unique_lock<std::mutex> L(Sh->M);
    if (!Sh->CV.wait_for(L, std::chrono::seconds(15), [&] { return Sh->Done; })) {
      T.detach();
      std::string Tr; for (auto &E : Sh->E) Tr += std::string(" ") + statusName(E.Kind);
      L.unlock();
      c.fail("start-does-not-return", In + ":" + Tr);
    }
  }
  T.join();
  StartFault = nullptr; StartFailClose = false;
  if (Busy >= 0) close(Busy);
  std::string Tr; std::vector<int> Got;
  for (auto &E : Sh->E) { Tr += std::string(" ") + statusName(E.Kind) + "(" + key(E.SAddr, E.SPort) + ")"; Got.push_back(E.Kind); }
  VP_CHECK(c, Got == Expect, "start-events", In + ":" + Tr);
  for (auto &E : Sh->E) {
    VP_CHECK(c, !E.Active && E.CAddr.empty(), "start-address", "a client is reported:" + Tr);
    VP_CHECK(c, E.SAddr == Address, "start-address", In + ":" + Tr);
    if (RealAddress) VP_CHECK(c, E.SPort > 0 && (Port == 0 || E.SPort == Port), "start-address", In + ":" + Tr);
    else VP_CHECK(c, E.SPort == Port, "start-address", In + ":" + Tr);
  }
  auto After = descriptors();
  VP_CHECK(c, After == Fds, "start-descriptors", vp::fmt("%zu descriptors before, %zu after", Fds.size(), After.size()));
  c.count(What == "host" ? "unresolved" : What.compare(0, 4, "busy") == 0 || What.compare(0, 7, "foreign") == 0 ? "not_bound" : "faults");
  c.distinct(In); c.sample(In + ":" + Tr);
}

// Servers which are started at the same time.
VP_FAMILY_NOLEAK("S05.together", 60, 600) {
  auto &R = c.R;
  struct Reset { ~Reset() { StartFault = nullptr; StartDelay = 0; } } Rs;
  auto Fds = descriptors();
  StartFault = "listen"; // no server stays
  StartDelay = R.chance(3, 4) ? 400 : 0;
  struct Start { std::string Address, Real; std::vector<Event> E; int D = 0; };
  size_t N = 2 + R.below(7);
  std::vector<Start> St(N);
  std::string In;
  for (auto &X : St) {
    switch (R.below(5)) {
    case 0: X.Address = "localhost"; X.Real = "127.0.0.1"; break;
    case 1: X.Address = ""; X.Real = "0.0.0.0"; break;
    case 2: X.Address = R.chance(1, 2) ? "bad..name" : "no such host"; break;
    default: X.Address = X.Real = vp::fmt("127.%d.%d.%d", (int)R.below(250), (int)R.below(250), 1 + (int)R.below(250));
    }
    X.D = (int)R.below(300);
    In += "[" + X.Address + "] ";
  }
  c.input(In);
  {
    Joiner J;
    std::atomic<size_t> Ready{0};
    for (auto &X : St) J.T.emplace_back([&X, &Ready, N] {
      bcl::net::SocketStatusHandler On = [&X](SocketStatus S, const Connection &C) { X.E.push_back(Event{(int)S, 0, C.getServerAddress(), C.getClientAddress(), C.getServerPort(), C.getClientPort(), C.isActive(), "", false}); };
      for (++Ready; Ready < N;) std::this_thread::yield();
      if (X.D > 150) usleep(X.D - 150);
      bcl::net::startServer(X.Address, 0, 0, On);
    });
  }
  size_t Known = 0;
  for (auto &X : St) {
    std::string Tr; std::vector<int> Got;
    for (auto &E : X.E) { Tr += std::string(" ") + statusName(E.Kind) + "(" + key(E.SAddr, E.SPort) + ")"; Got.push_back(E.Kind); }
    auto k = [](SocketStatus S) { return (int)S; };
    std::vector<int> Expect = {k(SocketStatus::HostnameError)};
    if (!X.Real.empty()) { Expect = {k(SocketStatus::ListenError), k(SocketStatus::Close)}; ++Known; }
    VP_CHECK(c, Got == Expect, "together-events", "[" + X.Address + "] of " + In + ":" + Tr);
    for (auto &E : X.E) VP_CHECK(c, E.SAddr == (X.Real.empty() ? X.Address : X.Real), "together-address", "[" + X.Address + "] of " + In + ":" + Tr);
  }
  auto After = descriptors();
  VP_CHECK(c, After == Fds, "start-descriptors", vp::fmt("%zu descriptors before, %zu after", Fds.size(), After.size()));
  c.count("started_together", N); c.count("bound_together", Known);
  c.distinct(In); c.sample(In);
}

// Servers which do start, at every kind of address.
VP_FAMILY_NOLEAK("S05.works", 24, 64) {
  auto &R = c.R;
  Quiet Q;
  const char *Addr[] = {"127.0.0.1", "localhost", "", "127.0.0.7", "127.9.8.7", "0.0.0.0"};
  size_t I = c.Index % 6;
  int Srv = server(c, Addr[I], 65535, 0);
  std::string Real = I == 1 ? "127.0.0.1" : I == 2 ? "0.0.0.0" : Addr[I];
  std::string Where = I == 2 || I == 5 ? vp::fmt("127.0.0.%d", 1 + (int)R.below(200)) : Real;
  c.input(std::string(Addr[I]) + " at " + Where);
  std::vector<Event> E; int Port;
  { std::lock_guard<std::mutex> L(W().M); E = W().Servers[Srv].Events; Port = W().Servers[Srv].Port; }
  VP_CHECK(c, E.size() == 1 && E[0].Kind == (int)SocketStatus::Listen, "listen", vp::fmt("%zu events", E.size()));
  VP_CHECK(c, E[0].SAddr == Real && Port > 0 && !E[0].Active, "listen-address", key(E[0].SAddr, E[0].SPort));
  Client X; VP_CHECK(c, X.open(R), "harness", "no client socket");
  Script S; S.Server = Srv; S.Reply = Script::Echo; X.Out = pattern(R.next(), 100); setScript(X.key(), S);
  VP_CHECK(c, X.connectTo(Port, Where), "connect", "nobody listens at " + key(Where, Port));
  VP_CHECK(c, X.run(vp::Rng(1)) && X.In == X.Out, "echo", "the answer is wrong");
  auto C = awaitClosed(c, X.key());
  for (auto &Ev : C->Events) if (Ev.Kind < Listener) VP_CHECK(c, Ev.SAddr == Where && Ev.SPort == Port, "connection-address", std::string(statusName(Ev.Kind)) + " reports " + key(Ev.SAddr, Ev.SPort));
  c.count("started"); c.distinct(std::string(Addr[I]) + Where); c.sample(std::string(Addr[I]) + " at " + key(Where, Port));
}

int main(int argc, char **argv) {
  int RC = vp::mainImpl(argc, argv);
  fflush(nullptr);
  _exit(RC); // servers never end
}
