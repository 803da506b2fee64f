// The server side of the Node.js workload (N01-N03): an implementation of
// createServer() which does what the driver (driver.js) has scripted and
// reports every call of a listener. The first call also installs the control
// functions as the global object __vp.
#include <atomic>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <signal.h>
#include <unistd.h>
#include <node.h>
#include <node_buffer.h>
#include <bcl/Socket.h>
#include <bcl/IntrusiveConnection.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace {
typedef bcl::Socket<std::string> Sock;
char Where[256] = "family=none case=0 seed=0", Input[2048] = "";
void location(const char *What, const char *Key) {
  char B[4096]; int N = snprintf(B, sizeof B, "\n%s %s key=%s input=%s\n", What, Where, Key, Input);
  if (N > (int)sizeof B) N = sizeof B - 1;
  ssize_t R = write(1, B, N); (void)R;
}
void onDeath() { location("VP-CRASH", "crash"); }
void onAlarm(int) { location("VP-HANG", "hang"); _exit(86); }

// A part of every listener: counts listeners which are alive.
struct Part {
  static std::atomic<long> Live;
  Part() { ++Live; } Part(const Part &) { ++Live; } ~Part() { --Live; }
};
std::atomic<long> Part::Live(0);

struct Event { int Server, Listener; char Kind; std::string Data; bool Error; };
std::vector<Event> Events;
struct Item { char Kind; std::string Actions; };
struct Plan { bool Intrusive = false; char Delimiter = '\n'; std::string Handler; std::vector<Item> Items; };
Plan Next;
struct Server { const Sock *S; int Listeners; };
std::map<int, Server> Servers;
int LastServer = 0;
std::atomic<int> Handlers(0), HandlersEnded(0);

void add(int Id, char Kind, const std::string &Actions);
void act(int Id, const std::string &Actions, const std::string &Data) {
  auto *I = v8::Isolate::GetCurrent();
  for (char A : Actions) switch (A) {
  case 'e': Servers.at(Id).S->send(Data); break; // echo
  case 'E': Servers.at(Id).S->send(Data); Servers.at(Id).S->send("+" + Data); break;
  case 'b': Servers.at(Id).S->send("bye"); break;
  case 'g': I->RequestGarbageCollectionForTesting(v8::Isolate::kFullGarbageCollection); break;
  case 'm': I->RequestGarbageCollectionForTesting(v8::Isolate::kMinorGarbageCollection); break;
  case 'a': add(Id, 'R', ""); break;
  case 'c': add(Id, 'C', ""); break;
  }
}
void add(int Id, char Kind, const std::string &Actions) {
  auto &V = Servers.at(Id); int L = V.Listeners++;
  std::string Keep(100, (char)('a' + L % 26)); // read when the listener is called
  if (Kind == 'R') V.S->receive([Id, L, Actions, Keep, P = Part()](const std::string &D) {
    Events.push_back({Id, L, 'R', D, Keep != std::string(100, (char)('a' + L % 26))});
    act(Id, Actions, D);
  });
  else V.S->closed([Id, L, Actions, Keep, P = Part()](bool Error) {
    if (Keep != std::string(100, (char)('a' + L % 26))) Events.push_back({Id, L, '!', "", Error});
    Events.push_back({Id, L, 'C', "", Error});
    act(Id, Actions, "");
  });
}

using namespace v8;
typedef const FunctionCallbackInfo<Value> &Args;
std::string str(Args A, int N) { String::Utf8Value S(A.GetIsolate(), A[N]); return std::string(*S, S.length()); }
int num(Args A, int N) { return (int)A[N]->IntegerValue(A.GetIsolate()->GetCurrentContext()).FromMaybe(0); }
void begin(Args A) { std::string S = str(A, 0); snprintf(Where, sizeof Where, "%s", S.c_str()); Input[0] = 0; alarm(num(A, 1)); }
void input(Args A) { std::string S = str(A, 0); snprintf(Input, sizeof Input, "%s", S.c_str()); }
// next("R:e,C:,R:g") or next("I", delimiter, handler)
void next(Args A) {
  Next = Plan(); std::string S = str(A, 0);
  if (S == "I") { Next.Intrusive = true; Next.Delimiter = (char)num(A, 1); Next.Handler = str(A, 2); return; }
  for (size_t P = 0; P < S.size();) {
    size_t E = S.find(',', P); if (E == std::string::npos) E = S.size();
    Next.Items.push_back({S[P], S.substr(P + 2, E - P - 2)}); P = E + 1;
  }
}
void sendTo(Args A) { Servers.at(num(A, 0)).S->send(std::string(node::Buffer::Data(A[1]), node::Buffer::Length(A[1]))); }
void listen(Args A) { add(num(A, 0), str(A, 1)[0], str(A, 2)); }
void forget(Args A) { Servers.erase(num(A, 0)); }
void last(Args A) { A.GetReturnValue().Set(LastServer); }
void live(Args A) { A.GetReturnValue().Set((int)Part::Live); }
void handlers(Args A) { A.GetReturnValue().Set((int)(Handlers - HandlersEnded)); }
void heap(Args A) {
#if defined(__SANITIZE_ADDRESS__)
  A.GetReturnValue().Set((double)__sanitizer_get_current_allocated_bytes());
#else
  A.GetReturnValue().Set(0);
#endif
}
// The calls of listeners so far: [server, listener, kind, data or flag]...
void take(Args A) {
  auto *I = A.GetIsolate(); auto C = I->GetCurrentContext();
  auto R = Array::New(I); uint32_t N = 0;
  for (auto &E : Events) {
    auto X = Array::New(I, 4); char K[] = {E.Kind, 0};
    X->Set(C, 0, Integer::New(I, E.Server)).Check(); X->Set(C, 1, Integer::New(I, E.Listener)).Check();
    X->Set(C, 2, String::NewFromUtf8(I, K).ToLocalChecked()).Check();
    if (E.Kind == 'R') X->Set(C, 3, node::Buffer::Copy(I, E.Data.data(), E.Data.size()).ToLocalChecked()).Check();
    else X->Set(C, 3, v8::Boolean::New(I, E.Error)).Check();
    R->Set(C, N++, X).Check();
  }
  Events.clear(); A.GetReturnValue().Set(R);
}
void install() {
  auto *I = Isolate::GetCurrent(); HandleScope H(I); auto C = I->GetCurrentContext();
  auto O = Object::New(I);
  auto set = [&](const char *N, FunctionCallback F) { O->Set(C, String::NewFromUtf8(I, N).ToLocalChecked(), Function::New(C, F).ToLocalChecked()).Check(); };
  set("begin", begin); set("input", input); set("next", next); set("send", sendTo); set("listen", listen); set("forget", forget);
  set("last", last); set("live", live); set("heap", heap); set("take", take); set("handlers", handlers);
  C->Global()->Set(C, String::NewFromUtf8(I, "__vp").ToLocalChecked(), O).Check();
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(onDeath);
#else
  signal(SIGABRT, [](int) { onDeath(); signal(SIGABRT, SIG_DFL); raise(SIGABRT); });
  signal(SIGSEGV, [](int) { onDeath(); signal(SIGSEGV, SIG_DFL); raise(SIGSEGV); });
#endif
  signal(SIGALRM, onAlarm);
}
}

namespace bcl {
template<> void createServer(const Socket<std::string> *S) {
  static bool First = true;
  if (First) { First = false; install(); }
  int Id = ++LastServer;
  Servers[Id] = Server{S, 0};
  Plan P = Next; Next = Plan();
  if (P.Intrusive) {
    ++Handlers;
    IntrusiveConnection::connect(S, P.Delimiter, [H = P.Handler](IntrusiveConnection C) {
      // A digit is the number of requests which are served.
      int Left = H.empty() ? -1 : atoi(H.c_str());
      while (Left-- != 0 && C.answer([](const std::string &R) { std::string A; for (char X : R) A += (char)toupper(X); return "[" + A + "]"; }));
      ++HandlersEnded;
    });
  }
  for (auto &X : P.Items) add(Id, X.Kind, X.Actions);
}
}
