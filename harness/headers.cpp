// H01: one of the translation units: it includes one header of the library
// first, all others after it, and works on objects which other units made.
#if defined(VP_FIRST)
#define VP_STRING_(...) #__VA_ARGS__
#define VP_STRING(...) VP_STRING_(__VA_ARGS__)
#define VP_FIRST_NAME VP_STRING(VP_FIRST)
#include VP_FIRST
#include VP_FIRST
#else
#define VP_FIRST_NAME "all in another order"
#endif
#if defined(VP_BACKWARDS)
#include <bcl/utility.h>
#include <bcl/tuple_utils.h>
#include <bcl/transparent_queue.h>
#include <bcl/trait.h>
#include <bcl/tagged.h>
#include <bcl/marray_f.h>
#include <bcl/marray.h>
#include <bcl/convertible_pair.h>
#include <bcl/cell.h>
#include <bcl/ValuePtrWrapper.h>
#include <bcl/Socket.h>
#include <bcl/RedirectIO.h>
#include <bcl/Json.h>
#include <bcl/IteratorDataAdaptor.h>
#include <bcl/IntrusiveConnection.h>
#include <bcl/Equation.h>
#include <bcl/Diagnostic.h>
#include <bcl/Chain.h>
#include <bcl/CSocket.h>
#endif
#include <bcl/CSocket.h>
#include <bcl/Chain.h>
#include <bcl/Diagnostic.h>
#include <bcl/Equation.h>
#include <bcl/IntrusiveConnection.h>
#include <bcl/IteratorDataAdaptor.h>
#include <bcl/Json.h>
#include <bcl/RedirectIO.h>
#include <bcl/Socket.h>
#include <bcl/ValuePtrWrapper.h>
#include <bcl/cell.h>
#include <bcl/convertible_pair.h>
#include <bcl/marray.h>
#include <bcl/marray_f.h>
#include <bcl/tagged.h>
#include <bcl/trait.h>
#include <bcl/transparent_queue.h>
#include <bcl/tuple_utils.h>
#include <bcl/utility.h>
#if defined(BCL_LEGACY) && defined(VP_LEGACY)
#include <bcl/legacy/cell_legacy.h>
#include <bcl/legacy/exception.h>
#include <bcl/legacy/text.h>
#include <bcl/legacy/tree.h>
#include <bcl/legacy/value.h>
#endif
#include "headers.h"
#include <fcntl.h>
#include <list>
#include <sstream>
#include <typeinfo>

// Types with one identity in all units.
JSON_OBJECT_BEGIN(HInner)
JSON_OBJECT_PAIR_2(HInner, Id, int, Tags, std::vector<std::string>)
JSON_OBJECT_END(HInner)
JSON_DEFAULT_TRAITS(::, HInner)
typedef std::map<std::string, double> HTable;
JSON_OBJECT_BEGIN(HOther)
JSON_OBJECT_ROOT_PAIR(HOther, Text, std::string)
  HOther() : JSON_INIT_ROOT {}
JSON_OBJECT_END(HOther)
JSON_DEFAULT_TRAITS(::, HOther)
JSON_OBJECT_BEGIN(HRecord)
JSON_OBJECT_ROOT_PAIR_4(HRecord, Name, std::string, Inner, HInner, Table, HTable, Maybe, std::optional<int>)
  HRecord() : JSON_INIT_ROOT {}
JSON_OBJECT_END(HRecord)
JSON_DEFAULT_TRAITS(::, HRecord)
namespace hd {
namespace one { BASE_ATTR_DEF(Size, int) BASE_ATTR_DEF(Name, std::string) BASE_ATTR_DEF(Same, int) }
namespace two { BASE_ATTR_DEF(Size, int) BASE_ATTR_DEF(Other, long) BASE_ATTR_DEF(Same, int) }
struct K0 { typedef int ValueType; }; struct K1 { typedef std::string ValueType; }; struct K2 { typedef std::vector<int> ValueType; };
typedef bcl::StaticMap<K0, K1, K2> Map;
struct T0; struct T1; struct T2;
typedef bcl::tagged_tuple<bcl::tagged<int, T0>, bcl::tagged<std::string, T1>, bcl::tagged<double, T2>> Tagged;
template<int I> struct Trait { int V = I; std::string S; static std::string name() { return "trait" + std::to_string(I); } };
typedef bcl::TraitDescriptor<bcl::TraitAlternative<Trait<0>, bcl::TraitUnion<Trait<1>, Trait<2>>>, Trait<3>> Descriptor;
typedef bcl::TraitSet<Descriptor, std::map<bcl::TraitKey, void *>> Traits;
struct Node : public bcl::Chain<Node> { int V = 0; };
typedef milp::AMonom<int, long long> Monom;
typedef milp::BinomialSystem<int, long long, 0, 0, 0> System;
typedef bcl::convertible_pair<int, std::string> Pair;
struct Info {
  int Next = 1000;
  int parameterColumn() { return ++Next; }
  bool isParameter(int C) const { return C > 1000; }
  std::string name(int C) const { return "x" + std::to_string(C); }
  template<class T> T get(int) const { return T(); }
};
struct Sock : public bcl::Socket<std::string> {
  void send(const std::string &S) const override { Sent.push_back(S); }
  void receive(const ReceiveCallback &F) const override { R.push_back(F); }
  void closed(const ClosedCallback &F) const override { C.push_back(F); }
  mutable std::vector<std::string> Sent; mutable std::vector<ReceiveCallback> R; mutable std::vector<ClosedCallback> C;
};
}

namespace {
using namespace hd;
std::string word(vp::Rng &R) { size_t N = R.below(30); return std::string(N, (char)(97 + R.below(26))); }

struct Queue {
  bcl::TransparentQueue<const char> Q, P;
  Queue(vp::Rng &R) { for (size_t N = R.below(5); N-- > 0;) Q.push(Cells + R.below(64)); }
  void change(vp::Rng &R) {
    switch (R.below(6)) {
    case 0: case 1: Q.push(Cells + R.below(64)); break;
    case 2: Q.pop(); break;
    case 3: Q.swap(P); break;
    case 4: P = Q; break;
    default: P = std::move(Q); Q.emplace(Cells + R.below(64)); break;
    }
  }
  std::string show() {
    std::ostringstream OS; OS << Q.size() << Q.empty() << (Q == P) << (Q < P) << (Q >= P);
    if (!Q.empty()) OS << ' ' << Q.front() - Cells << ' ' << Q.back() - Cells;
    for (auto C = Q; !C.empty();) OS << ',' << C.pop() - Cells;
    return OS.str();
  }
};
struct Diag {
  bcl::Diagnostic D{"strange error"}, E{"other"};
  Diag(vp::Rng &R) { change(R); }
  void change(vp::Rng &R) { if (R.chance(1, 4)) std::swap(D, E); size_t Code = R.below(200); std::string S = word(R); uintmax_t A = R.below(100000); int B = (int)R.below(100); D.insert(Code, "%s and %d", A, S.c_str(), B); }
  std::string show() { std::ostringstream OS; OS << D.getKind() << D.size() << D.empty() << D.internal_size() << E.size(); for (auto M : D) OS << '|' << M; for (auto I = D.rbegin(); I != D.rend(); ++I) OS << std::strlen(*I); return OS.str(); }
};
struct Cells_ {
  Map M;
  Cells_(vp::Rng &R) { M[K0()] = (int)R.below(1000); change(R); }
  void change(vp::Rng &R) { switch (R.below(4)) { case 0: M[K0()] += 1; break; case 1: M.value<K1>() = word(R); break; case 2: M[K2()].push_back((int)R.below(100)); break; default: { Map N = M; N[K0()] = 3; std::swap(M, N); } } }
  struct Print { std::ostringstream &OS; template<class C> void operator()(C *X) { one(X->template value<typename C::CellKey>()); } void one(int V) { OS << V; } void one(const std::string &V) { OS << V; } void one(const std::vector<int> &V) { for (int E : V) OS << ',' << E; } };
  std::string show() { std::ostringstream OS; OS << M[K0()] << M.value<K1>() << M[K2()].size() << ' '; M.for_each(Print{OS}); return OS.str(); }
};
struct Tuple {
  Tagged T;
  Tuple(vp::Rng &R) : T(first(R)) {}
  static std::tuple<int, std::string, double> first(vp::Rng &R) { int A = (int)R.below(1000); std::string B = word(R); return std::make_tuple(A, B, (double)R.below(1000) / 8); }
  void change(vp::Rng &R) { switch (R.below(3)) { case 0: T.get<T0>() = (int)R.below(50); break; case 1: T.get<T1>() += word(R); break; default: T.get<T2>() += 0.5; } }
  std::string show() { std::ostringstream OS; OS << T.get<T0>() << T.get<T1>() << T.get<T2>(); return OS.str(); }
};
struct TraitsOf {
  Traits S; Descriptor D;
  TraitsOf(vp::Rng &R) { change(R); }
  template<int I> void one(vp::Rng &R) { switch (R.below(4)) { case 0: { auto *T = new Trait<I>; T->S = word(R); S.set<Trait<I>>(T); break; } case 1: S.unset<Trait<I>>(); break; case 2: D.set<Trait<I>>(); break; default: D.unset<Trait<I>>(); } }
  void change(vp::Rng &R) { switch (R.below(4)) { case 0: one<0>(R); break; case 1: one<1>(R); break; case 2: one<2>(R); break; default: one<3>(R); } }
  template<int I> void print(std::ostringstream &OS) { OS << S.is<Trait<I>>() << S.is_any<Trait<I>>() << D.is<Trait<I>>() << D.is_any<Trait<I>>(); if (S.is<Trait<I>>() && S.get<Trait<I>>()) OS << S.get<Trait<I>>()->S << S.get<Trait<I>>()->V; }
  std::string show() { std::ostringstream OS; print<0>(OS); print<1>(OS); print<2>(OS); print<3>(OS); OS << ' '; D.print(OS); Descriptor C = S.get(); OS << (C == D); return OS.str(); }
};
struct Chained {
  std::vector<std::unique_ptr<Node>> N; typedef bcl::ChainTraits<Node> T;
  Chained(vp::Rng &R) { for (int I = 0; I < 5; ++I) { N.emplace_back(new Node); N[I]->V = I; } change(R); }
  void change(vp::Rng &R) { size_t A = R.below(5), B = R.below(5); if (A == B) B = (A + 1) % 5; R.chance(1, 2) ? T::spliceNext(N[A].get(), N[B].get()) : T::splicePrev(N[A].get(), N[B].get()); }
  std::string show() { std::ostringstream OS; for (auto &P : N) { auto *X = T::getNext(P.get()), *Y = T::getPrev(P.get()); OS << (X ? X->V : -1) << ':' << (Y ? Y->V : -1) << ' '; } return OS.str(); }
};
struct Equations {
  std::vector<std::string> Rows; std::unique_ptr<System> S; Info I; size_t Solved = 0; int Of = 0;
  Equations(vp::Rng &R) { change(R); }
  void change(vp::Rng &R) {
    if (!S || S->isInstantiated()) { S.reset(new System); I = Info(); for (size_t N = 1 + R.below(3); N-- > 0;) { long long A = 1 + (long long)R.below(6), B = 1 + (long long)R.below(6), X = R.range(-9, 9), Y = R.range(-9, 9); int C = (int)R.below(3); S->push_back(Monom(C, A), Monom((C + 1) % 3, B), A * X + B * Y); } }
    else { S->instantiate(I); Solved = S->solve<Info, false>(I); }
  }
  std::string show() {
    std::ostringstream OS; OS << S->size() << S->isInstantiated() << ' ';
    for (auto &E : *S) { System::printEquation(E, I, OS); OS << ';'; }
    if (S->isInstantiated()) { OS << Solved; S->printSolution(I, OS); }
    return OS.str();
  }
};
struct Arrays {
  bcl::marray<int, 2> A; bcl::marray_f<std::string, 3> B;
  Arrays(vp::Rng &R) : A(std::array<std::size_t, 2>{{3, 4}}), B(std::array<std::size_t, 3>{{2, 3, 2}}) { for (int I = 0; I < 3; ++I) for (int J = 0; J < 4; ++J) A[I][J] = (int)R.below(100); change(R); }
  void change(vp::Rng &R) { size_t I = R.below(3), J = R.below(4), K = R.below(2); A[I][J] = (int)R.below(1000); B(K, I, J % 2) = word(R); if (R.chance(1, 4)) { bcl::marray<int, 2> C(std::move(A)); A = std::move(C); } }
  std::string show() { std::ostringstream OS; for (int I = 0; I < 3; ++I) for (int J = 0; J < 4; ++J) OS << A[I][J] << ','; for (size_t I = 0; I < 2; ++I) for (size_t J = 0; J < 3; ++J) for (size_t K = 0; K < 2; ++K) OS << B(I, J, K) << ','; return OS.str(); }
};
struct Record {
  HRecord O;
  Record(vp::Rng &R) { O[HRecord::Name] = word(R); change(R); }
  void change(vp::Rng &R) {
    switch (R.below(5)) {
    case 0: O[HRecord::Inner][HInner::Tags].push_back(word(R)); break;
    case 1: { std::string N = word(R); O[HRecord::Table][N] = (double)R.below(1000) / 16; break; }
    case 2: if (O[HRecord::Maybe]) O[HRecord::Maybe].reset(); else O[HRecord::Maybe] = (int)R.below(9); break;
    case 3: { std::string T = json::Parser<>::unparse(O); json::Parser<> P(T); HRecord X; if (P.parse(X)) O = X; else O[HRecord::Name] = "rejected"; break; }
    default: { std::string T = json::Parser<HRecord>::unparseAsObject(O); json::Parser<HOther, HRecord> P(T); auto X = P.parse(); if (X && X->is<HRecord>()) O[HRecord::Name] += X->as<HRecord>()[HRecord::Name].substr(0, 2); else O[HRecord::Name] = "not named"; }
    }
    O[HRecord::Inner][HInner::Id] = (int)R.below(100);
  }
  std::string show() { return json::Parser<>::unparse(O) + json::Parser<HRecord>::unparseAsObject(O) + O.getName(); }
};
struct Lex {
  std::string T; json::Lexer L;
  static std::string text(vp::Rng &R) { static const char *P[] = {"{", "}", "[", "]", ":", ",", "\"a b\"", "12", "-1.5e3", "true", "null", " ", "\n", "?"}; std::string S; for (size_t N = R.below(12); N-- > 0;) S += P[R.below(14)]; return S; }
  Lex(vp::Rng &R) : T(text(R)), L(T) {}
  void change(vp::Rng &R) { switch (R.below(5)) { case 0: L.storePosition(); L.goToNext(); L.restorePosition(); break; case 1: L.checkValue(); break; default: L.goToNext(); } }
  std::string show() { std::ostringstream OS; OS << L.json() << L.start() << ' ' << L.end() << ' ' << L.next() << L.is(json::Token::NUMBER) << L.is(json::Token::IDENTIFIER) << L.hasErrors() << L.errors().size(); for (auto M : L.errors()) OS << M; return OS.str(); }
};
struct Conn {
  Sock S; std::shared_ptr<std::atomic<int>> Done{new std::atomic<int>(0)};
  Conn(vp::Rng &R) {
    auto D = Done; bool Once = R.chance(1, 4);
    bcl::IntrusiveConnection::connect(&S, '$', [Once](bcl::IntrusiveConnection C, std::shared_ptr<std::atomic<int>> D) { { bcl::IntrusiveConnection Own(std::move(C)); while (Own.answer([](const std::string &Q) { return "<" + Q + ">"; }) && !Once); } D->store(1); }, D);
  }
  void change(vp::Rng &R) { std::string T; for (size_t N = 1 + R.below(3); N-- > 0;) T += word(R) + "$"; for (auto &F : S.R) F(T); }
  std::string show() { std::string T; for (auto &X : S.Sent) T += X; return T; }
  ~Conn() { for (auto &F : S.C) F(true); while (!*Done) std::this_thread::yield(); }
};
struct Wrapped {
  typedef bcl::ValuePtrWrapper<std::string> W; std::vector<W> Pool; std::list<std::string *> P; Pair Q{1, std::string("x")};
  Wrapped(vp::Rng &R) { change(R); }
  void change(vp::Rng &R) { P.push_back(nullptr); Pool.emplace_back(P.back(), word(R)); *P.front() += 'z'; static_cast<int &>(Q) += (int)R.below(9); static_cast<std::string &>(Q) = word(R); }
  std::string show() {
    std::ostringstream OS; for (auto *X : P) OS << *X << ','; for (auto &X : Pool) OS << *X << ';'; OS << Q.first << Q.second;
    typedef bcl::IteratorDataAdaptor<std::list<std::string *>::iterator, int, std::pair<std::string *, int>> A; for (A I(P.begin(), 7), E(P.end(), 7); I != E; ++I) OS << (*I).first->size() << (*I).second;
    return OS.str();
  }
};
struct Redirected {
  char Path[32] = "/tmp/vp-h01-XXXXXX"; int Fd; std::unique_ptr<bcl::RedirectIO> IO;
  Redirected(vp::Rng &R) { int F = mkstemp(Path); if (F >= 0) close(F); Fd = open("/dev/null", O_WRONLY); IO.reset(new bcl::RedirectIO(Fd, Path, bcl::RedirectIO::Mode::Rewrite)); change(R); }
  void change(vp::Rng &R) { std::string S = word(R); if (write(Fd, S.data(), S.size()) < 0) return; if (R.chance(1, 3)) IO->setDiffPos(); if (R.chance(1, 4)) { bcl::RedirectIO X(std::move(*IO)); *IO = std::move(X); } }
  std::string show() { std::ostringstream OS; OS << IO->mayRedirected() << IO->hasErrors() << IO->diff() << IO->errors().size(); return OS.str(); }
  ~Redirected() { IO.reset(); close(Fd); unlink(Path); }
};
#if defined(VP_LEGACY)
struct Old {
  Base::Cell<K0, Base::Cell<K1>> C; Base::Node<K0, Base::Node<K1, Utility::Null, Utility::Null>, Utility::Null> N; Utility::Value<int, Utility::True> V;
  Old(vp::Rng &R) { C.Value<K0>() = 1; N.Value<K0>() = 2; change(R); }
  void change(vp::Rng &R) { switch (R.below(4)) { case 0: C.Value<K0>() = (int)R.below(9); C.Value<K1>() = word(R); break; case 1: N.Value<K1>() = word(R); N.Value<K0>() += 1; break; case 2: V = (int)R.below(99); break; default: V = undef; } }
  std::string show() { std::ostringstream OS; OS << C.Value<K0>() << C.Value<K1>() << N.Value<K0>() << N.Value<K1>() << (V == undef); if (V != undef) OS << static_cast<int>(V); OS << Base::ToText(C.Value<K0>()); return OS.str(); }
};
#endif

template<class T> hd::Kind kind(const char *Name) {
  return hd::Kind{Name, [](vp::Rng &R) -> void * { return new T(R); }, [](void *P, vp::Rng &R) { static_cast<T *>(P)->change(R); },
    [](void *P) { return static_cast<T *>(P)->show(); }, [](void *P) { delete static_cast<T *>(P); }};
}
// The name of a type which is not of one unit only is merged by the linker.
template<class T> std::string size() { return vp::fmt("size %zu, alignment %zu, type at %p", sizeof(T), alignof(T), (const void *)typeid(T).name()); }
std::string at(const void *P) { return vp::fmt("%p", P); }
std::map<std::string, std::string> entities() {
  return {
    {"id one::Size", at(one::Size::id())}, {"id one::Name", at(one::Name::id())}, {"id one::Same", at(one::Same::id())},
    {"id two::Size", at(two::Size::id())}, {"id two::Other", at(two::Other::id())}, {"id two::Same", at(two::Same::id())},
    {"undef", at(&Utility::Undef())}, {"name HRecord", HRecord::name()}, {"name HOther", HOther::name()},
    {"TransparentQueue", size<bcl::TransparentQueue<const char>>()}, {"Diagnostic", size<bcl::Diagnostic>()}, {"StaticMap", size<Map>()}, {"tagged_tuple", size<Tagged>()},
    {"TraitDescriptor", size<Descriptor>()}, {"TraitSet", size<Traits>()}, {"TraitKey", size<bcl::TraitKey>()}, {"Chain", size<Node>()}, {"BinomialSystem", size<System>()},
    {"marray", size<bcl::marray<int, 2>>()}, {"marray_f", size<bcl::marray_f<int, 3>>()}, {"json::Object", size<json::Object>()}, {"record", size<HRecord>()}, {"Lexer", size<json::Lexer>()},
    {"Parser", size<json::Parser<HRecord>>()}, {"Socket", size<Sock>()}, {"IntrusiveConnection", size<bcl::IntrusiveConnection>()}, {"RedirectIO", size<bcl::RedirectIO>()},
    {"convertible_pair", size<Pair>()}, {"ValuePtrWrapper", size<bcl::ValuePtrWrapper<std::string>>()}, {"SocketStatus", size<bcl::net::SocketStatus>()}, {"Connection", size<bcl::net::Connection>()},
    {"keywords", vp::fmt("%d %d", (int)json::Token::NUMBER, (int)json::Keyword::NO_VALUE)},
  };
}
struct Register {
  Register() {
    hd::units().push_back(hd::Unit{VP_FIRST_NAME, {kind<Queue>("queue"), kind<Diag>("diagnostic"), kind<Cells_>("cells"), kind<Tuple>("tagged tuple"), kind<TraitsOf>("traits"), kind<Chained>("chain"), kind<Equations>("equations"),
      kind<Arrays>("arrays"), kind<Record>("JSON record"), kind<Lex>("lexer"), kind<Conn>("connection"), kind<Wrapped>("wrappers"), kind<Redirected>("redirection"),
#if defined(VP_LEGACY)
      kind<Old>("legacy"),
#endif
      }, entities});
  }
} Registered;
}
