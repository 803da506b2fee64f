// W01: the amount of work grows in proportion to the amount of data. Work is
// counted, not timed: every basic block of the code under test which is
// executed (-fsanitize-coverage=trace-pc), every 16 bytes which are moved,
// searched or compared by the functions of the C library and every 16 bytes
// which are allocated are units of work. So a measurement is the same on every machine.
#include "vp.h"
#include <bcl/Chain.h>
#include <bcl/Diagnostic.h>
#include <bcl/IntrusiveConnection.h>
#include <bcl/Json.h>
#include <bcl/RedirectIO.h>
#include <bcl/marray.h>
#include <bcl/transparent_queue.h>
#include <fcntl.h>
#include <map>
#include <optional>
#include <set>
#include <sys/stat.h>

#define NOCOV __attribute__((no_sanitize_coverage))
namespace {
bool On = false;
uint64_t Blocks = 0, Bytes = 0, Allocated = 0;
#define ON __atomic_load_n(&On, __ATOMIC_RELAXED)
#define ADD(X, N) __atomic_fetch_add(&X, N, __ATOMIC_RELAXED)
NOCOV inline void bytes(size_t N) { if (ON) ADD(Bytes, N + 16); }
NOCOV void *alloc(size_t N) { if (ON) ADD(Allocated, N + 16); return std::malloc(N ? N : 1); }
}
extern "C" {
NOCOV void __sanitizer_cov_trace_pc() { if (ON) ADD(Blocks, 1); }
NOCOV void *memcpy(void *D, const void *S, size_t N) { bytes(N); void *R = D; asm volatile("rep movsb" : "+D"(D), "+S"(S), "+c"(N) : : "memory"); return R; }
NOCOV void *memmove(void *D, const void *S, size_t N) {
  bytes(N); void *R = D;
  if ((uintptr_t)D - (uintptr_t)S >= N) asm volatile("rep movsb" : "+D"(D), "+S"(S), "+c"(N) : : "memory");
  else { auto *E = (char *)D + N - 1; auto *F = (const char *)S + N - 1; asm volatile("std; rep movsb; cld" : "+D"(E), "+S"(F), "+c"(N) : : "memory"); }
  return R;
}
NOCOV void *memset(void *D, int C, size_t N) { bytes(N); void *R = D; asm volatile("rep stosb" : "+D"(D), "+c"(N) : "a"(C) : "memory"); return R; }
NOCOV void *vpMemchr(const void *S, int C, size_t N) __asm__("memchr");
NOCOV void *vpMemchr(const void *S, int C, size_t N) { auto *P = (const unsigned char *)S; size_t I = 0; while (I < N && P[I] != (unsigned char)C) ++I; bytes(I); return I < N ? (void *)(P + I) : nullptr; }
NOCOV int memcmp(const void *A, const void *B, size_t N) { auto *P = (const unsigned char *)A, *Q = (const unsigned char *)B; size_t I = 0; while (I < N && P[I] == Q[I]) ++I; bytes(I); return I < N ? P[I] - Q[I] : 0; }
NOCOV size_t strlen(const char *S) { size_t I = 0; while (S[I]) { ++I; asm volatile(""); } bytes(I); return I; }
}
NOCOV void *operator new(size_t S) { if (void *P = alloc(S)) return P; throw std::bad_alloc(); }
NOCOV void *operator new[](size_t S) { return operator new(S); }
NOCOV void *operator new(size_t S, const std::nothrow_t &) noexcept { return alloc(S); }
NOCOV void *operator new[](size_t S, const std::nothrow_t &) noexcept { return alloc(S); }
NOCOV void operator delete(void *P) noexcept { std::free(P); }
NOCOV void operator delete[](void *P) noexcept { std::free(P); }
NOCOV void operator delete(void *P, size_t) noexcept { std::free(P); }
NOCOV void operator delete[](void *P, size_t) noexcept { std::free(P); }

namespace {
template<class F> uint64_t work(F &&Fn) {
  auto set = [](bool B) { __atomic_store_n(&On, B, __ATOMIC_SEQ_CST); };
  auto take = [](uint64_t &X) { return __atomic_exchange_n(&X, 0, __ATOMIC_SEQ_CST); };
  take(Blocks); take(Bytes); take(Allocated);
  set(true);
  try { Fn(); } catch (...) { set(false); throw; }
  set(false);
  return take(Blocks) + take(Bytes) / 16 + take(Allocated) / 16;
}
const unsigned Times = 16;
// Work on Times times more data is at most Times times more, up to logarithms of
// sizes and the moments when storage grows.
void proportional(vp::Case &c, const std::string &What, uint64_t A, uint64_t B) {
  if (getenv("VP_WORK")) fprintf(stderr, "%-40s %12llu %12llu  %.2f\n", What.c_str(), (unsigned long long)A, (unsigned long long)B, (double)B / (A + 1));
  c.count("measurements", 2); c.count("units_of_work", A + B);
  VP_CHECK(c, A > 200, "harness", "nothing is measured: " + What);
  VP_CHECK(c, B <= 2 * Times * A + 5000, "work", What + vp::fmt(": %llu units of work, but %llu if there is %u times more data", (unsigned long long)A, (unsigned long long)B, Times));
}
void constant(vp::Case &c, const std::string &What, uint64_t A, uint64_t B) {
  if (getenv("VP_WORK")) fprintf(stderr, "%-40s %12llu %12llu  constant\n", What.c_str(), (unsigned long long)A, (unsigned long long)B);
  c.count("measurements", 2); c.count("units_of_work", A + B);
  VP_CHECK(c, A > 0, "harness", "nothing is measured: " + What);
  VP_CHECK(c, B <= 2 * A + 500, "work", What + vp::fmt(": %llu units of work, but %llu if there is %u times more data", (unsigned long long)A, (unsigned long long)B, Times));
}
// F(N) makes data of size N, and returns the work on it.
template<class F> void grows(vp::Case &c, const std::string &What, size_t N, F &&Fn) {
  c.input(What + vp::fmt(" N=%zu", N)); c.member("scenarios", vp::hashStr(What)); c.distinct(vp::mix(vp::hashStr(What) + N)); c.sample(What + vp::fmt(", %zu and %zu", N, N * Times));
  auto S = c.R.S; uint64_t A = Fn(N); c.R.S = S; uint64_t B = Fn(N * Times);
  proportional(c, What, A, B);
}
template<class F> void stays(vp::Case &c, const std::string &What, size_t N, F &&Fn) {
  c.input(What + vp::fmt(" N=%zu", N)); c.member("scenarios", vp::hashStr(What)); c.distinct(vp::mix(vp::hashStr(What) + N)); c.sample(What + vp::fmt(", %zu and %zu", N, N * Times));
  auto S = c.R.S; uint64_t A = Fn(N); c.R.S = S; uint64_t B = Fn(N * Times);
  constant(c, What, A, B);
}
size_t size(vp::Case &c) { return 1000 + c.R.below(c.Thorough ? 5000 : 1500); }
}
JSON_OBJECT_BEGIN(Rec)
JSON_OBJECT_ROOT_PAIR_4(Rec, Id, int, Name, std::string, List, std::vector<int>, Maybe, std::optional<double>)
  Rec() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Rec)
JSON_DEFAULT_TRAITS(::, Rec)
JSON_OBJECT_BEGIN(Other)
JSON_OBJECT_ROOT_PAIR_2(Other, Key, std::string, Texts, std::vector<std::string>)
  Other() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Other)
JSON_DEFAULT_TRAITS(::, Other)

namespace {
// Strings which need escaping in different ways.
std::string text(vp::Rng &R, size_t N) {
  static const char *Kinds[] = {"a", "\n", "\"", "\\", "a\\b", "\t\"", "\xd0\xb6", "\x01", "/", "\\n", "'", "{}[],:"};
  auto *K = R.pick(Kinds);
  std::string S; while (S.size() < N) { S += K; if (R.chance(1, 50)) S += R.pick(Kinds); }
  return S;
}
std::string quoted(vp::Rng &R, size_t N) { // what may be inside of quotes
  static const char *Kinds[] = {"a", "\\n", "\\\"", "\\\\", "a\\\\b", "\\t\\\"", "\xd0\xb6", "\\/", "\\u0041", "'", "{}[],:", "\\b\\f\\r"};
  auto *K = R.pick(Kinds);
  std::string S; while (S.size() < N) { S += K; if (R.chance(1, 50)) S += R.pick(Kinds); }
  return S;
}
template<class T> void value(vp::Rng &R, T &V, size_t) { V = (T)R.below(100); }
void value(vp::Rng &R, char *&V, size_t N);
void value(vp::Rng &R, std::string &V, size_t N);
template<class T> void value(vp::Rng &R, std::vector<T> &V, size_t N);
template<class K> void value(vp::Rng &R, std::set<K> &V, size_t N);
template<class T> void value(vp::Rng &R, std::optional<T> &V, size_t N);
void value(vp::Rng &R, Rec &V, size_t N);
void value(vp::Rng &R, bool &V, size_t) { V = R.chance(1, 2); }
void value(vp::Rng &R, double &V, size_t) { V = R.below(1000) / 8.0; }
void value(vp::Rng &R, char &V, size_t) { V = "a\n\"\\ z"[R.below(6)]; }
void value(vp::Rng &R, std::string &V, size_t N) { V = text(R, N); }
template<class T> void value(vp::Rng &R, std::optional<T> &V, size_t N) { if (R.chance(1, 2)) { T X; value(R, X, N); V = X; } }
template<class T> void value(vp::Rng &R, std::vector<T> &V, size_t N) { while (N-- > 0) { T X{}; value(R, X, 3); V.push_back(std::move(X)); } }
template<class K> K key(size_t I) { return (K)I; }
template<> std::string key<std::string>(size_t I) { return vp::fmt("k%zu", I); }
template<class K> void value(vp::Rng &R, std::set<K> &V, size_t N) { for (size_t I = 0; I < N; ++I) V.insert(key<K>(I)); }
template<class K, class T> void value(vp::Rng &R, std::map<K, T> &V, size_t N) { for (size_t I = 0; I < N; ++I) { T X{}; value(R, X, 3); V.emplace(key<K>(I), X); } }
template<class K, class T> void value(vp::Rng &R, std::multimap<K, T> &V, size_t N) { bool Same = R.chance(1, 2); for (size_t I = 0; I < N; ++I) { T X{}; value(R, X, 3); V.emplace(key<K>(Same ? I / 500 : I), X); } }
void value(vp::Rng &R, Rec &V, size_t N) { V[Rec::Id] = 1; V[Rec::Name] = text(R, N); value(R, V[Rec::List], N); V[Rec::Maybe] = 1.5; }
void value(vp::Rng &R, bcl::Diagnostic &D, size_t N) { while (N-- > 0) D.insert((int)R.below(100), "%s", R.below(100), text(R, R.below(30)).c_str()); }

void value(vp::Rng &R, char *&V, size_t N) { auto S = text(R, N); V = new char[S.size() + 1]; strcpy(V, S.c_str()); }
template<class T> void release(T &) {}
void release(char *&V) { delete[] V; V = nullptr; }
template<> void release(std::vector<char *> &V) { for (auto &X : V) delete[] X; }
template<class T> T make() { return T(); }
template<> bcl::Diagnostic make() { return bcl::Diagnostic("errors"); }

template<class T> struct Name;
#define TYPES(X) X(std::string) X(std::vector<int>) X(std::vector<double>) X(std::vector<long long>) X(std::vector<char>) X(std::vector<std::string>) \
  X(std::vector<std::vector<int>>) X(std::vector<std::optional<int>>) X(std::set<int>) X(std::set<std::string>) X(Rec) X(std::vector<Rec>) \
  X(std::vector<std::set<int>>)
#define COMMA ,
#define MORE(X) X(std::map<int COMMA int>) X(std::map<std::string COMMA std::string>) X(std::multimap<int COMMA std::vector<int>>) X(std::map<std::string COMMA Rec>) X(std::map<int COMMA double>) X(std::map<int COMMA bool>) X(char *) X(std::vector<char *>)
#define NAME(T) template<> struct Name<T> { static const char *get() { return #T; } };
TYPES(NAME) MORE(NAME)
NAME(bcl::Diagnostic)
template<class... Ts> struct List {};
#define ITEM(T) , T
template<class T, class... Ts> List<Ts...> tail(List<T, Ts...>);
typedef decltype(tail(List<void TYPES(ITEM) MORE(ITEM), bcl::Diagnostic>())) Types;
template<class F, class... Ts> void with(size_t K, List<Ts...>, F &&Fn) {
  size_t I = 0, N = sizeof...(Ts);
  (void)std::initializer_list<int>{(K % N == I++ ? (Fn((Ts *)nullptr), 0) : 0)...};
}
template<class T> uint64_t parsing(vp::Case &c, const std::string &S, bool Accepted = true) {
  auto V = make<T>(); bool Ok = false;
  auto W = work([&] { json::Parser<> P(S); Ok = P.parse(V); });
  VP_CHECK(c, Ok == Accepted, "result", vp::show(S.substr(0, 100)));
  release(V);
  c.count(Ok ? "parsed" : "rejected");
  return W;
}
}
VP_FAMILY_NOLEAK("W01.json", 132, 3000) {
  with(c.Index, Types(), [&](auto *P) {
    typedef std::remove_pointer_t<decltype(P)> T;
    size_t N = size(c);
    auto document = [&](size_t K) { vp::Rng R(c.R.S); auto V = make<T>(); value(R, V, K); auto S = json::Parser<>::unparse(V); release(V); return S; };
    std::string Type = Name<T>::get();
    grows(c, "serialize " + Type, N, [&](size_t K) { vp::Rng R(c.R.S); auto V = make<T>(); value(R, V, K); std::string S; c.count("serialized"); auto W = work([&] { S = json::Parser<>::unparse(V); }); release(V); return W; });
    grows(c, "parse " + Type, N, [&](size_t K) { return parsing<T>(c, document(K)); });
    grows(c, "end is missing " + Type, N, [&](size_t K) { auto S = document(K); S.pop_back(); return parsing<T>(c, S, false); });
    if (Type != "Rec") grows(c, "value of unknown field " + Type, N, [&](size_t K) { auto S = document(K); bool Last = c.R.chance(1, 2); return parsing<Other>(c, Last ? "{\"Key\":\"a\",\"Strange\":" + S + "}" : "{\"Strange\":" + S + ",\"Key\":\"a\"}"); });
    grows(c, "after white space " + Type, N, [&](size_t K) { return parsing<T>(c, std::string(K * 10, c.R.chance(1, 2) ? ' ' : '\n') + document(2)); });
    c.member("types", c.Index % 22);
  });
}
VP_FAMILY_NOLEAK("W01.documents", 132, 3000) {
  size_t N = size(c); auto &R = c.R;
  static const char *Blanks[] = {"", " ", "\n\t ", "  "};
  const char *B = R.pick(Blanks);
  switch (c.Index % 11) {
  case 0: grows(c, "vector with indexes", N, [&](size_t K) {
    int How = R.below(3); std::string S = "{"; for (size_t I = 0; I < K; ++I) S += (I ? ",\"" : "\"") + std::to_string(How == 0 ? I : How == 1 ? K - 1 - I : I * 7919 % K) + "\":" + B + "1";
    return parsing<std::vector<int>>(c, S + "}"); }); break;
  case 1: grows(c, "unknown fields", N, [&](size_t K) {
    int How = R.below(7); std::string S = "{"; static const char *V[] = {"1", "{\"a\":[1]}", "\"x\"", "[1]", "true", "null", "[false,1.5]"};
    for (size_t I = 0; I < K; ++I) S += std::string("\"x") + std::to_string(I) + "\"" + B + ":" + V[How] + ",";
    return parsing<Rec>(c, S + "\"Id\":1}"); }); break;
  case 2: grows(c, "depth of unknown field", N, [&](size_t K) {
    bool A = R.chance(1, 2), Before = R.chance(1, 2); std::string S;
    for (size_t I = 0; I < K; ++I) S += A ? "[" : "{\"a\":"; S += "1"; for (size_t I = 0; I < K; ++I) S += A ? "]" : "}";
    return parsing<Rec>(c, Before ? "{\"x\":" + S + ",\"Id\":1}" : "{\"Id\":1,\"x\":" + S + "}"); }); break;
  case 3: grows(c, "name of unknown field", N * 4, [&](size_t K) { return parsing<Rec>(c, "{\"" + quoted(R, K) + "\":1,\"Id\":1}"); }); break;
  case 4: grows(c, "string in a document", N * 4, [&](size_t K) { return parsing<std::string>(c, "\"" + quoted(R, K) + "\""); }); break;
  case 5: grows(c, "white space between tokens", N, [&](size_t K) { std::string W(K * 10, ' '); return parsing<Rec>(c, W + "{" + W + "\"Id\"" + W + ":" + W + "1" + W + "," + W + "\"List\":[" + W + "1" + W + "," + W + "2" + W + "]" + W + "}" + W); }); break;
  case 6: grows(c, "error at the end", N, [&](size_t K) { vp::Rng Q(R.S); std::vector<Rec> V; static const char *Ends[] = {"}", ",", "x", "]]", "[", "\"", ":1"}; value(Q, V, K / 4); auto S = json::Parser<>::unparse(V); S.pop_back(); return parsing<std::vector<Rec>>(c, S + R.pick(Ends) , false); }); break;
  case 7: grows(c, "name of a document", N, [&](size_t K) {
    vp::Rng Q(R.S); Rec V; value(Q, V, K); V[Rec::Name] = "a";
    auto S = json::Parser<Rec>::unparseAsObject(V); bool Ok = false;
    auto W = work([&] { json::Parser<Rec, Other> P(S); if (auto O = P.parse()) Ok = O->is<Rec>(); });
    VP_CHECK(c, Ok, "result", "not a record"); c.count("parsed"); return W; }); break;
  case 8: grows(c, "tokens", N * 4, [&](size_t K) {
    static const char *T[] = {"[", "]", "{", "}", ",", ":", "1 ", "\"a\"", " ", "x", "\n", "true "};
    std::string S; for (size_t I = 0; I < K; ++I) S += R.pick(T);
    size_t Seen = 0; auto W = work([&] { json::Lexer L(S); while (L.goToNext()) ++Seen; });
    VP_CHECK(c, Seen > 10, "result", "few tokens"); c.count("parsed"); return W; }); break;
  case 9: grows(c, "number with many digits", N * 4, [&](size_t K) {
    std::string S; int How = R.below(3); for (size_t I = 0; I < K; ++I) S += How == 0 ? '0' : '1'; if (How == 2) S = "0." + S;
    double D = 0; return work([&] { json::Parser<> P(S); P.parse(D); }) + 1000; }); break;
  case 10: grows(c, "repeated keys", N, [&](size_t K) {
    std::string S = "{"; bool Fields = R.chance(1, 2); for (size_t I = 0; I < K; ++I) S += std::string(I ? "," : "") + B + (Fields ? "\"Id\":1" : "\"a\":1"); S += "}";
    bool Ok = false; auto W = work([&] { json::Parser<> P(S); if (Fields) { Rec V; Ok = P.parse(V); } else { std::map<std::string, int> V; Ok = P.parse(V); } }); c.count(Ok ? "parsed" : "rejected"); return W; }); break;
  }
}
namespace {
struct Link : bcl::Chain<Link> {};
typedef bcl::ChainTraits<Link> Tr;
template<size_t N> using Dims = std::array<size_t, N>;
struct Socket : bcl::Socket<std::string> {
  void send(const std::string &M) const override { Sent += M.size(); ++Sends; }
  void receive(const ReceiveCallback &F) const override { R.push_back(F); }
  void closed(const ClosedCallback &F) const override { C.push_back(F); }
  mutable std::vector<ReceiveCallback> R;
  mutable std::vector<ClosedCallback> C;
  mutable std::atomic<size_t> Sent{0}, Sends{0};
};
// A conversation; the work includes that of the thread of the handler.
uint64_t conversation(vp::Case &c, char D, const std::vector<std::string> &Pieces, size_t Requests, size_t Times) {
  auto *Ended = new std::atomic<bool>(false); std::atomic<size_t> Seen{0}; size_t Sends;
  auto W = work([&] {
    Socket S;
    bcl::IntrusiveConnection::connect(&S, D, [&Seen, Ended, Times](bcl::IntrusiveConnection C) {
      for (size_t I = 0; I < Times; ++I) if (!C.answer([&](const std::string &Q) { ++Seen; return Q; })) break;
      { bcl::IntrusiveConnection Last(std::move(C)); }
      *Ended = true;
    });
    for (auto &P : Pieces) S.R[0](P);
    for (auto &F : S.C) F(true);
    Sends = S.Sends;
  });
  while (!*Ended) usleep(50);
  VP_CHECK(c, Seen == std::min(Times, Requests) && Sends == Requests, "result", vp::fmt("%zu requests, %zu responses instead of %zu", Seen.load(), Sends, Requests));
  c.count("requests", Requests);
  return W;
}
}
VP_FAMILY_NOLEAK("W01.connection", 60, 1200) {
  auto &R = c.R; size_t N = size(c);
  char D = R.chance(1, 3) ? '\n' : '$';
  size_t Len = R.below(30);
  auto request = [&] { return std::string(Len, 'a'); };
  switch (c.Index % 5) {
  case 0: grows(c, "requests, each in a piece", N / 4, [&](size_t K) { return conversation(c, D, std::vector<std::string>(K, request() + D), K, (size_t)-1); }); break;
  case 1: grows(c, "requests in one piece", N / 4, [&](size_t K) { std::string P; for (size_t I = 0; I < K; ++I) P += request() + D; return conversation(c, D, {P}, K, (size_t)-1); }); break;
  case 2: grows(c, "one long request", N * 16, [&](size_t K) { return conversation(c, D, {std::string(K, 'a') + D}, 1, (size_t)-1); }); break;
  case 3: grows(c, "rejected requests", N, [&](size_t K) { std::string P; for (size_t I = 0; I < K; ++I) P += request() + D; return conversation(c, D, {P}, K, 1); }); break;
  case 4: grows(c, "requests without a delimiter", N / 4, [&](size_t K) { return conversation(c, '\0', std::vector<std::string>(K, request() + "a"), K, (size_t)-1); }); break;
  }
}
VP_FAMILY_NOLEAK("W01.redirect", 60, 1000) {
  auto &R = c.R; size_t N = size(c) / 4;
  static size_t Next = 0; std::string Path = vp::fmt("vp-work-%d-%zu", (int)getpid(), Next++);
  struct Remove { std::string P; ~Remove() { unlink(P.c_str()); } } Rm{Path};
  auto From = [&] { int F = open("/dev/null", O_WRONLY); return F; };
  switch (c.Index % 3) {
  case 0: grows(c, "output in pieces", N, [&](size_t K) {
    int F = From(); uint64_t W; { bcl::RedirectIO IO(F, Path); VP_CHECK(c, !IO.hasErrors(), "harness", "no redirection"); size_t L = 1 + R.below(50), Seen = 0; std::string T(L, 'x');
      W = work([&] { for (size_t I = 0; I < K; ++I) { Seen += write(F, T.data(), L) == (ssize_t)L; Seen += IO.diff() == T; IO.setDiffPos(); } });
      VP_CHECK(c, Seen == 2 * K, "result", "pieces are lost"); }
    close(F); return W; }); break;
  case 1: grows(c, "long output", N * 64, [&](size_t K) {
    int F = From(); uint64_t W; { bcl::RedirectIO IO(F, Path); std::string T(K, 'x'), S; VP_CHECK(c, write(F, T.data(), K) == (ssize_t)K, "harness", "write");
      W = work([&] { S = IO.diff(); }); VP_CHECK(c, S == T, "result", "output is lost"); }
    close(F); return W; }); break;
  case 2: grows(c, "a file is appended", N * 16, [&](size_t K) {
    int G = open(Path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); std::string T(K, 'x'); VP_CHECK(c, write(G, T.data(), K) == (ssize_t)K, "harness", "write"); close(G);
    int F = From(); uint64_t W; bool Ok = false; W = work([&] { bcl::RedirectIO IO(F, Path, bcl::RedirectIO::Mode::Append); Ok = !IO.hasErrors() && !IO.isDiff(); });
    VP_CHECK(c, Ok, "result", "no redirection"); close(F); return W; }); break;
  }
  c.count("outputs");
}
VP_FAMILY_NOLEAK("W01.containers", 192, 5000) {
  size_t N = size(c); auto &R = c.R; int X = 0;
  typedef bcl::TransparentQueue<int> Q;
  auto filled = [&](size_t K) { Q A; for (size_t I = 0; I < K; ++I) A.push(&X); return A; };
  switch (c.Index % 16) {
  case 0: grows(c, "push and pop", N, [&](size_t K) { return work([&] { Q A; for (size_t I = 0; I < K; ++I) A.push(&X); while (!A.empty()) A.pop(); }); }); break;
  case 1: grows(c, "queue in use", N, [&](size_t K) { Q A; size_t L = R.below(100); for (size_t I = 0; I < L; ++I) A.push(&X); return work([&] { for (size_t I = 0; I < K; ++I) { A.push(&X); A.pop(); } }); }); break;
  case 2: grows(c, "copy of queue", N, [&](size_t K) { auto A = filled(K); return work([&] { Q B(A); }); }); break;
  case 3: grows(c, "comparison of queues", N, [&](size_t K) { auto A = filled(K), B = filled(K); bool E = false; auto W = work([&] { E = A == B && !(A < B) && A <= B; }); VP_CHECK(c, E, "result", "not equal"); return W; }); break;
  case 4: stays(c, "swap and move of queues", N, [&](size_t K) { auto A = filled(K), B = filled(K / 2); return work([&] { std::swap(A, B); A.swap(B); Q C(std::move(A)); A = std::move(C); }); }); break;
  case 5: stays(c, "ends of queue", N, [&](size_t K) { auto A = filled(K); return work([&] { for (int I = 0; I < 10; ++I) { A.push(&X); A.front(); A.back(); A.size(); A.empty(); A.pop(); } }); }); break;
  case 6: grows(c, "insertion of errors", N, [&](size_t K) { size_t L = R.below(40); auto T = text(R, L); bcl::Diagnostic D("e"); return work([&] { for (size_t I = 0; I < K; ++I) D.insert((int)I, "%s", I, T.c_str()); }); }); break;
  case 7: grows(c, "long message", N * 8, [&](size_t K) { std::string T(K, 'a'); bcl::Diagnostic D("e"); return work([&] { D.insert(1, "%s", 1, T.c_str()); }); }); break;
  case 8: grows(c, "iteration over errors", N, [&](size_t K) { bcl::Diagnostic D("e"); value(R, D, K); size_t Seen = 0; auto W = work([&] { for (auto *M : D) Seen += M != nullptr; for (auto I = D.begin(), E = D.end(); I != E; ++I) Seen += **I != 0; }); VP_CHECK(c, Seen == 2 * K, "result", "messages are lost"); return W; }); break;
  case 9: stays(c, "exchange of errors", N, [&](size_t K) { bcl::Diagnostic D("e"), E("f"); value(R, D, K); value(R, E, K / 3); return work([&] { for (int I = 0; I < 5; ++I) { D.swap(E); std::swap(D, E); D.empty(); D.size(); D.internal_size(); D.begin(); D.end(); } }); }); break;
  case 10: grows(c, "errors are removed", N, [&](size_t K) { bcl::Diagnostic D("e"); value(R, D, K); return work([&] { D.clear(); D.insert(1, "x", 1); }) + K; }); break;
  case 11: grows(c, "construction of a chain", N, [&](size_t K) { std::vector<Link> L(K); return work([&] { for (size_t I = 1; I < K; ++I) Tr::spliceNext(&L[I], &L[I - 1]); size_t Seen = 0; for (Link *P = &L[0]; P; P = Tr::getNext(P)) ++Seen; X = (int)Seen; }); }); break;
  case 12: stays(c, "changes of a chain", N, [&](size_t K) {
    std::vector<Link> L(K), M(K); for (size_t I = 1; I < K; ++I) { Tr::spliceNext(&L[I], &L[I - 1]); Tr::spliceNext(&M[I], &M[I - 1]); }
    size_t A = R.below(K - 2) + 1; Link Y;
    return work([&] { Tr::spliceNext(&Y, &L[A]); Tr::spliceNext(nullptr, &L[A]); Tr::splicePrev(&Y, &L[A - 1]); Tr::mergeNext(&M[K / 2], &L[A]); Tr::mergePrev(&M[K - 1], &L[0]); Tr::getNext(&M[K - 1]); Tr::getPrev(&M[K - 1]); }); }); break;
  case 13: grows(c, "array", N, [&](size_t K) { size_t A = 1 + R.below(40); return work([&] { bcl::marray<int, 2> M(Dims<2>{A, K}); for (size_t I = 0; I < A; ++I) for (size_t J = 0; J < K; ++J) M[I][J] = (int)J; }); }); break;
  case 14: stays(c, "one element of an array", N, [&](size_t K) { bcl::marray<int, 3> M(Dims<3>{3, K, 5}); return work([&] { for (int I = 0; I < 10; ++I) { M[2][K - 1][4] = I; X += M[1][K / 2][3]; } }); }); break;
  case 15: stays(c, "move of arrays", N, [&](size_t K) { bcl::marray<int, 2> M(Dims<2>{K, 4}), L(Dims<2>{2, K}); return work([&] { bcl::marray<int, 2> A(std::move(M)); M = std::move(L); L = std::move(A); }); }); break;
  }
}
VP_MAIN
