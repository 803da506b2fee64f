// U01: numbers, masks and lists of types; U02: packed pairs; U03: wrappers of
// values and iterators, helpers of tuples and pointers.
#include "vp.h"
#include <bcl/utility.h>
#include <bcl/ValuePtrWrapper.h>
#include <bcl/IteratorDataAdaptor.h>
#include <bcl/tuple_utils.h>
#include <algorithm>
#include <list>
#include <map>
#include <set>
#include <sstream>

namespace {
typedef __int128 Big;
std::string show(Big X) { bool N = X < 0; unsigned __int128 V = N ? -(unsigned __int128)X : (unsigned __int128)X; std::string S; do S += (char)('0' + (int)(V % 10)); while (V /= 10); if (N) S += '-'; return {S.rbegin(), S.rend()}; }
template<class T> T draw(vp::Rng &R) {
  switch (R.below(5)) {
  case 0: return (T)R.next();
  case 1: return (T)(R.next() >> R.below(64));
  case 2: return std::numeric_limits<T>::max() - (T)R.below(3);
  case 3: return std::numeric_limits<T>::min() + (T)R.below(3);
  default: return (T)((int)R.below(41) - (std::is_signed<T>::value ? 20 : 0));
  }
}
template<class T> const char *name() { static const std::string S = vp::fmt("%s%d", std::is_signed<T>::value ? "int" : "uint", (int)sizeof(T) * 8); return S.c_str(); }

template<class T> void digits(vp::Case &c) {
  auto &R = c.R; T V, Base = R.chance(1, 2) ? (T)(2 + R.below(15)) : (T)(2 + R.next() % ((unsigned long long)std::numeric_limits<T>::max() - 1));
  if (R.chance(1, 2)) V = draw<T>(R);
  else { // a product of powers of the base
    Big P = 1; int N = (int)R.below(70); while (N-- > 0 && P <= (Big)std::numeric_limits<T>::max() / Base) P *= Base;
    Big M = (Big)std::numeric_limits<T>::max() / P; V = (T)(P * (1 + (Big)(R.next() % (unsigned long long)(M > 1000 ? 1000 : M)))); if (std::is_signed<T>::value && R.chance(1, 3)) V = (T)-V;
    if (R.chance(1, 4) && V > std::numeric_limits<T>::min()) V = (T)(V - 1);
  }
  c.input(vp::fmt("%s %s base %s", name<T>(), show(V).c_str(), show(Base).c_str())); c.distinct(std::string(name<T>()) + show(V) + "/" + show(Base));
  Big A = V; if (A < 0) A = -A; size_t D = 1; for (Big P = A; P >= Base; P /= Base) ++D;
  VP_CHECK(c, bcl::numberOfDigits<T>(V, Base) == D, "digits", vp::fmt("%d instead of %d", (int)bcl::numberOfDigits<T>(V, Base), (int)D));
  if (V != 0) {
    size_t Z = 0; for (Big P = A; P % Base == 0; P /= Base) ++Z;
    VP_CHECK(c, bcl::numberOfLessZeros<T>(V, Base) == Z, "zeros", vp::fmt("%d instead of %d", (int)bcl::numberOfLessZeros<T>(V, Base), (int)Z)); c.count(Z ? "with_zeros" : "without_zeros");
  }
  c.count("values");
}
template<class T> void masks(vp::Case &c) {
  size_t W = sizeof(T) * 8; typedef typename std::make_unsigned<T>::type U;
  for (size_t D = 0; D <= W; ++D) {
    c.input(vp::fmt("%s mask of %d", name<T>(), (int)D)); U Want = 0; for (size_t I = 0; I < D; ++I) Want = (U)(Want | (U)((U)1 << I));
    VP_CHECK(c, (U)bcl::unitMask<T>(D) == Want, "mask", ""); c.distinct(vp::fmt("%s%d", name<T>(), (int)D)); c.count("masks");
  }
  static_assert(bcl::unitMask<T>(3) == 7 && bcl::numberOfDigits<T>(100, 10) == 3 && bcl::numberOfLessZeros<T>(100, 10) == 2, "");
}
template<class T> void bits(vp::Case &c) {
  T V = draw<T>(c.R); typedef typename std::make_unsigned<T>::type U; c.input(vp::fmt("%s bits of %s", name<T>(), show(V).c_str()));
  std::string Want; for (size_t I = sizeof(T) * 8; I-- > 0;) Want += (char)('0' + (int)(((U)V >> I) & 1));
  std::ostringstream OS; OS << "<"; bcl::bitPrint(V, OS); OS << ">"; VP_CHECK(c, OS.str() == "<" + Want + ">", "bits", OS.str()); c.count("printed"); c.distinct(std::string(name<T>()) + Want);
}
#define TYPES(F, c) switch (c.R.below(8)) { case 0: F<signed char>(c); break; case 1: F<unsigned char>(c); break; case 2: F<short>(c); break; case 3: F<unsigned short>(c); break; case 4: F<int>(c); break; case 5: F<unsigned>(c); break; case 6: F<long long>(c); break; case 7: F<unsigned long long>(c); break; }
}
VP_FAMILY("U01.digits", 60000, 2000000) { TYPES(digits, c); }
VP_FAMILY("U01.bits", 20000, 400000) { TYPES(bits, c); }
VP_FAMILY("U01.masks", 8, 8) { switch (c.Index % 8) { case 0: masks<signed char>(c); break; case 1: masks<unsigned char>(c); break; case 2: masks<short>(c); break; case 3: masks<unsigned short>(c); break; case 4: masks<int>(c); break; case 5: masks<unsigned>(c); break; case 6: masks<long long>(c); break; case 7: masks<unsigned long long>(c); break; } }
VP_FAMILY("U01.literals", 1, 1) {
  using bcl::operator""_b;
#define LIT(X) { c.input(#X); unsigned long long W = 0; for (const char *P = #X; *P; ++P) W = W * 2 + (unsigned long long)(*P - '0'); static_assert(sizeof(X##_b) == 8, ""); constexpr auto V = X##_b; VP_CHECK(c, V == W && X##_b == W, "literal", #X); c.count("literals"); c.distinct(#X); }
  LIT(0) LIT(1) LIT(10) LIT(11) LIT(00) LIT(01) LIT(01000) LIT(0110) LIT(101) LIT(111) LIT(10000000) LIT(11111111) LIT(011111111) LIT(100000000) LIT(1000000000000000) LIT(1111111111111111) LIT(10101010101010101)
  LIT(1000000000000000000000000000000) LIT(1111111111111111111111111111111) LIT(10000000000000000000000000000000) LIT(11111111111111111111111111111111) LIT(10101010101010101010101010101010)
  LIT(100000000000000000000000000000000) LIT(111111111111111111111111111111111) LIT(110100000000000000000000000000000000) LIT(1010101010101010101010101010101010101010101010) LIT(11110000111100001111000011110000111100001111)
  LIT(100000000000000000000000000000000000000000000000000000000000000) LIT(1000000000000000000000000000000000000000000000000000000000000000) LIT(1111111111111111111111111111111111111111111111111111111111111111) LIT(1010101010101010101010101010101010101010101010101010101010101011) LIT(0000000000000000000000000000000000000000000000000000000000000001) LIT(0111111111111111111111111111111111111111111111111111111111111110)
}
VP_FAMILY("U01.types", 1, 1) {
  struct X {}; struct Y {};
#define IS(N, ...) VP_CHECK(c, (__VA_ARGS__) == (N), "type-list", #__VA_ARGS__); c.count("queries")
  IS(true, bcl::is_contained<int, int>::value); IS(false, bcl::is_contained<int>::value); IS(false, bcl::is_contained<int, long, const int, int &>::value); IS(true, bcl::is_contained<X, int, Y, X>::value); IS(false, bcl::is_contained<X, int, Y>::value); IS(true, bcl::is_contained<Y, int, Y, X>::value);
  IS(0u, bcl::index_of<int, int>()); IS(0u, bcl::index_of<int, int, X, Y>()); IS(1u, bcl::index_of<X, int, X, Y>()); IS(2u, bcl::index_of<Y, int, X, Y>()); IS(1u, bcl::index_of<X, int, X, Y, X>()); IS(3u, bcl::index_of<long, int, X, Y, long, X>());
  IS(0u, bcl::size_of<>()); IS(1u, bcl::size_of<X>()); IS(5u, bcl::size_of<X, X, int, Y, void>());
  int A[7]; X C[1]; const char S[] = "abc"; IS(7u, bcl::array_sizeof(A)); IS(1u, bcl::array_sizeof(C)); IS(4u, bcl::array_sizeof(S)); (void)A; (void)C;
  struct NoCopy : bcl::Uncopyable { std::unique_ptr<int> P; int V = 0; }; struct NoAssign : bcl::Unassignable { std::string S; int V = 0; };
  VP_CHECK(c, !std::is_copy_constructible<NoCopy>::value && !std::is_copy_assignable<NoCopy>::value && std::is_move_constructible<NoCopy>::value && std::is_move_assignable<NoCopy>::value, "uncopyable", "");
  VP_CHECK(c, std::is_copy_constructible<NoAssign>::value && !std::is_copy_assignable<NoAssign>::value && std::is_move_constructible<NoAssign>::value, "unassignable", "");
  VP_CHECK(c, !std::is_default_constructible<bcl::Uncopyable>::value && !std::is_default_constructible<bcl::Unassignable>::value && !std::is_destructible<bcl::Uncopyable>::value && !std::is_destructible<bcl::Unassignable>::value, "base-only", "");
  static_assert(!std::is_copy_constructible<bcl::Uncopyable>::value && !std::is_copy_assignable<bcl::Uncopyable>::value && !std::is_copy_assignable<bcl::Unassignable>::value, "");
  c.distinct(1);
}
VP_FAMILY("U01.text", 3000, 30000) {
  auto &R = c.R; std::string S; for (size_t N = R.below(6); N-- > 0;) S += "\"\\a \t"[R.below(5)]; if (R.chance(1, 2)) S = '"' + S; if (R.chance(1, 2)) S += '"';
  c.input(S); c.distinct(S); bool Q = S.size() >= 2 && S[0] == '"' && S.back() == '"'; std::string Want = Q ? S : "\"" + S + "\"", T = S;
  VP_CHECK(c, bcl::quote(S) == Want && T == S, "quote", "a constant"); VP_CHECK(c, bcl::quote(std::move(T)) == Want, "quote", "a temporary"); c.count(Q ? "quoted" : "bare");
  unsigned char H = (unsigned char)R.below(256); c.input(vp::fmt("%d", H)); VP_CHECK(c, bcl::isWhitespace(H) == (H == 9 || H == 11 || H == 12 || H == 13 || H == 32), "whitespace", vp::fmt("%d", H));
}

namespace {
// Packed pairs. The output lies in a heap block of its exact size.
template<class A, class B, class T> void packed(vp::Case &c, const char *What) {
  auto &R = c.R; constexpr size_t H = sizeof(T) / 2;
  auto value = [&](auto &X) { X = draw<typename std::decay<decltype(X)>::type>(R); if (R.chance(2, 3)) { unsigned char Raw[sizeof X]; memcpy(Raw, &X, sizeof X); for (size_t I = H; I < sizeof X; ++I) if (!R.chance(1, 30)) Raw[I] = 0; memcpy(&X, Raw, sizeof X); } };
  auto fits = [&](auto &X) { unsigned char Raw[sizeof X]; memcpy(Raw, &X, sizeof X); for (size_t I = H; I < sizeof X; ++I) if (Raw[I]) return false; return true; };
  std::unique_ptr<A> PA(new A()); std::unique_ptr<B> PB(new B()); std::unique_ptr<T> Out(new T()); value(*PA); value(*PB); memset(Out.get(), 0xa5, sizeof(T));
  const A A0 = *PA; const B B0 = *PB; std::string In = vp::fmt("%s: %s, %s", What, show(A0).c_str(), show(B0).c_str()); c.input(In); c.distinct(In);
  bool Want = fits(A0) && fits(B0), ByPair = R.chance(1, 3), Got = ByPair ? bcl::shrinkPair(std::make_pair(*PA, *PB), *Out) : bcl::shrinkPair(*PA, *PB, *Out);
  VP_CHECK(c, Got == Want, "fits", Got ? "a pair which does not fit is packed" : "a pair which fits is not packed"); VP_CHECK(c, *PA == A0 && *PB == B0, "source", "");
  if (!Got) { c.count("refused"); return; }
  std::unique_ptr<T> Again(new T()); memset(Again.get(), 0x5a, sizeof(T)); bcl::shrinkPair(A0, B0, *Again); VP_CHECK(c, *Again == *Out, "unique", "packed value depends on earlier content of the target");
  if constexpr (sizeof(A) >= H && sizeof(B) >= H) {
    std::unique_ptr<A> RA(new A()); std::unique_ptr<B> RB(new B()); memset(RA.get(), 0x77, sizeof(A)); memset(RB.get(), 0x77, sizeof(B));
    bcl::restoreShrinkedPair(*Out, *RA, *RB); VP_CHECK(c, *RA == A0 && *RB == B0, "restore", vp::fmt("%s, %s", show(*RA).c_str(), show(*RB).c_str())); c.count("restored");
  }
  c.count("packed"); c.sample(In);
}
}
VP_FAMILY("U02.pairs", 60000, 2000000) {
  switch (c.R.below(12)) {
  case 0: packed<int, int, unsigned long long>(c, "int,int in 8"); break;
  case 1: packed<unsigned long long, unsigned long long, unsigned long long>(c, "uint64,uint64 in 8"); break;
  case 2: packed<long long, unsigned, long long>(c, "int64,uint32 in 8"); break;
  case 3: packed<unsigned, unsigned, unsigned>(c, "uint32,uint32 in 4"); break;
  case 4: packed<unsigned short, unsigned long long, unsigned>(c, "uint16,uint64 in 4"); break;
  case 5: packed<int, short, unsigned short>(c, "int32,int16 in 2"); break;
  case 6: packed<unsigned char, unsigned char, unsigned short>(c, "uint8,uint8 in 2"); break;
  case 7: packed<unsigned char, unsigned long long, unsigned long long>(c, "uint8,uint64 in 8"); break;
  case 8: packed<unsigned, unsigned char, unsigned long long>(c, "uint32,uint8 in 8"); break;
  case 9: packed<unsigned char, unsigned short, unsigned long long>(c, "uint8,uint16 in 8"); break;
  case 10: packed<unsigned long long, unsigned long long, unsigned __int128>(c, "uint64,uint64 in 16"); break;
  case 11: packed<unsigned short, unsigned short, unsigned short>(c, "uint16,uint16 in 2"); break;
  }
}

namespace {
// Values which know pointers to them.
template<class T, class Make> void pool(vp::Case &c, const char *Name, Make M) {
  auto &R = c.R; typedef bcl::ValuePtrWrapper<T> W; std::string In = Name; std::vector<W> Pool; std::list<T *> Ptrs; std::vector<std::pair<T **, std::string>> Model; // pointer and value of each element
  auto check = [&](const char *What) {
    c.input(In); VP_CHECK(c, Pool.size() == Model.size(), "size", What);
    for (size_t I = 0; I < Pool.size(); ++I) {
      T *P = *Model[I].first; T &V = Pool[I]; const W &CW = Pool[I]; const T &CV = CW;
      VP_CHECK(c, P == &V, "pointer", vp::fmt("pointer to element %d of %d after %s", (int)I, (int)Pool.size(), What));
      VP_CHECK(c, &V == &CV && &*Pool[I] == P && Pool[I].operator->() == P && &Pool[I] == P, "access", What);
      VP_CHECK(c, M.show(*P) == Model[I].second, "wrapped", M.show(*P) + " instead of " + Model[I].second); c.count("pointers_checked");
    }
  };
  for (size_t S = 2 + R.size(25); S-- > 0;) {
    size_t N = Pool.size(), I = N ? R.below(N) : 0, J = N ? R.below(N) : 0; const char *What = "";
    switch (R.below(8)) {
    case 0: case 1: case 2: What = "emplace_back"; Ptrs.push_back(nullptr); Model.push_back({&Ptrs.back(), M.emplace(R, Pool, Ptrs.back())}); break;
    case 3: if (!N) continue; What = "erase"; Pool.erase(Pool.begin() + (long)I); Model.erase(Model.begin() + (long)I); break;
    case 4: if (N < 2 || I == J) continue; What = "swap"; std::swap(Pool[I], Pool[J]); std::swap(Model[I], Model[J]); break;
    case 5: if (N < 2) continue; What = "rotate"; std::rotate(Pool.begin(), Pool.begin() + (long)I, Pool.end()); std::rotate(Model.begin(), Model.begin() + (long)I, Model.end()); break;
    case 6: { What = "reallocation"; if (R.chance(1, 2)) Pool.reserve(Pool.capacity() + 1 + R.below(20)); else Pool.shrink_to_fit(); std::vector<W> Other(std::move(Pool)); Pool = std::move(Other); break; }
    case 7: if (!N) continue; What = "change"; Model[I].second = M.change(R, Pool[I]); break;
    }
    In += vp::fmt(" %s %d,%d", What, (int)I, (int)J); check(What); c.count("steps");
  }
  c.distinct(In); c.sample(In); c.count("pools");
}
struct MString { static std::string show(const std::string &S) { return S; } template<class P> std::string emplace(vp::Rng &R, P &Pool, std::string *&Ptr) { std::string V(R.below(40), (char)('a' + R.below(26))); if (R.chance(1, 2)) Pool.emplace_back(Ptr, V); else Pool.emplace_back(Ptr, V.size(), V.empty() ? 'x' : V[0]); return V; } template<class W> std::string change(vp::Rng &R, W &X) { std::string V(R.below(40), 'z'); *X = V; return V; } };
struct MInt { static std::string show(int S) { return std::to_string(S); } template<class P> std::string emplace(vp::Rng &R, P &Pool, int *&Ptr) { int V = (int)R.next(); Pool.emplace_back(Ptr, V); return show(V); } template<class W> std::string change(vp::Rng &R, W &X) { int V = (int)R.next(); *X = V; return show(V); } };
struct MPtr { static std::string show(const std::unique_ptr<int> &S) { return S ? std::to_string(*S) : "null"; } template<class P> std::string emplace(vp::Rng &R, P &Pool, std::unique_ptr<int> *&Ptr) { int V = (int)R.next(); Pool.emplace_back(Ptr, std::unique_ptr<int>(new int(V))); return std::to_string(V); } template<class W> std::string change(vp::Rng &R, W &X) { int V = (int)R.next(); X->reset(new int(V)); return std::to_string(V); } };

struct Item { std::string Text; int Data; Item(const std::string &T, int D) : Text(T), Data(D) {} bool operator==(const Item &O) const { return Text == O.Text && Data == O.Data; } };
template<class Coll> void adaptor(vp::Case &c, const char *Name) {
  auto &R = c.R; Coll C; std::vector<std::string> V; for (size_t N = R.below(8); N-- > 0;) { V.push_back(std::string(1 + R.below(20), (char)('a' + R.below(26)))); C.insert(C.end(), V.back()); }
  V.assign(C.begin(), C.end());
  int D = (int)R.below(1000); std::string In = vp::fmt("%s of %d with %d", Name, (int)V.size(), D); c.input(In); for (auto &S : V) In += "," + S; c.distinct(In);
  typedef typename Coll::const_iterator It; typedef bcl::IteratorDataAdaptor<It, int, Item> A; typedef std::iterator_traits<A> T;
  static_assert(std::is_same<typename T::value_type, Item>::value && std::is_same<typename T::reference, Item>::value && std::is_same<typename T::pointer, Item *>::value && std::is_same<typename T::difference_type, typename std::iterator_traits<It>::difference_type>::value && std::is_same<typename T::iterator_category, typename std::iterator_traits<It>::iterator_category>::value, "");
  const A B(C.begin(), D), E(C.end(), D); std::vector<Item> Want, Got; for (auto &S : C) Want.push_back(Item(S, D));
  for (A I = B; I != E; ++I) Got.push_back(*I); VP_CHECK(c, Got == Want, "visit", "prefix increments"); Got.clear();
  for (A I = B; !(I == E);) { A Old = I++; Got.push_back(*Old); A Next = Old; VP_CHECK(c, &++Next == &Next && Next == I && Old != I, "increment", ""); } VP_CHECK(c, Got == Want, "visit", "postfix increments"); Got.clear();
  if constexpr (std::is_same<typename T::iterator_category, std::forward_iterator_tag>::value) { std::copy(B, E, std::back_inserter(Got)); VP_CHECK(c, Got == Want, "visit", "algorithm"); }
  std::vector<Item> ByRange; for (A I = B; I != E; I++) ByRange.push_back(*I); VP_CHECK(c, ByRange == Want, "visit", "ignored postfix increments");
  A O(C.begin(), D + 1); VP_CHECK(c, O != B && !(O == B), "data", "adaptors with different data are equal"); O.getData() = D; VP_CHECK(c, O == B && !(O != B), "data", "adaptors with the same data are different");
  VP_CHECK(c, B.getData() == D && B.getIterator() == C.begin() && E.getIterator() == C.end(), "parts", ""); if (!V.empty()) { ++O.getIterator(); A N = B; ++N; VP_CHECK(c, O == N, "parts", "change of an iterator"); }
  c.count("adaptors");
}

// Counts copies and moves.
struct Probe { int Id; int Copies = 0, Moves = 0; static int &alive() { static VP_TLS int N; return N; } explicit Probe(int I = 0) : Id(I) { ++alive(); } Probe(const Probe &O) : Id(O.Id), Copies(O.Copies + 1), Moves(O.Moves) { ++alive(); } Probe(Probe &&O) : Id(O.Id), Copies(O.Copies), Moves(O.Moves + 1) { O.Id = -1; ++alive(); } ~Probe() { --alive(); } };
struct Args { int Id; Probe *L; const Probe *CL; Probe P; std::unique_ptr<int> U; bool Moved; Args(int I, Probe &X, const Probe &Y, Probe Z, std::unique_ptr<int> V) : Id(I), L(&X), CL(&Y), P(std::move(Z)), U(std::move(V)) {} };
struct Fixed { Fixed(int V) : A(V), B(~V) {} int A, B; private: Fixed &operator=(const Fixed &); };
struct Collect { std::vector<std::string> &S; template<class T> void operator()(T &X) { std::ostringstream OS; OS << X; S.push_back(OS.str()); } };
struct Bump { int N = 0; void operator()(int &X) { X += ++N; } void operator()(std::string &X) { X += (char)('0' + ++N); } void operator()(const int &) { ++N; } void operator()(const std::string &) { ++N; } };
}
VP_FAMILY("U03.pools", 6000, 150000) { switch (c.R.below(3)) { case 0: pool<std::string>(c, "strings", MString()); break; case 1: pool<int>(c, "ints", MInt()); break; case 2: pool<std::unique_ptr<int>>(c, "pointers", MPtr()); break; } }
VP_FAMILY("U03.adaptors", 3000, 60000) { switch (c.R.below(3)) { case 0: adaptor<std::vector<std::string>>(c, "vector"); break; case 1: adaptor<std::list<std::string>>(c, "list"); break; case 2: adaptor<std::set<std::string>>(c, "set"); break; } }
VP_FAMILY("U03.pointers", 3000, 60000) {
  auto &R = c.R; int Alive = Probe::alive(); {
    int I = (int)R.next(), V = (int)R.next(); Probe A(1), B(2); c.input(vp::fmt("%d %d", I, V)); c.distinct(vp::fmt("%d,%d", I, V));
    auto X = bcl::make_unique<Args>(I, A, B, Probe(3), std::unique_ptr<int>(new int(V)));
    VP_CHECK(c, X->Id == I && X->L == &A && X->CL == &B && X->P.Id == 3 && X->P.Copies == 0 && *X->U == V, "make-unique", "arguments of a constructor");
    Probe D(4); auto Y = bcl::make_unique<Probe>(D); auto Z = bcl::make_unique<Probe>(std::move(D)); VP_CHECK(c, Y->Id == 4 && Y->Copies == 1 && Z->Id == 4 && Z->Copies == 0 && D.Id == -1, "make-unique", "copies and moves");
    size_t N = R.below(20); auto Arr = bcl::make_unique<int[]>(N); for (size_t K = 0; K < N; ++K) VP_CHECK(c, Arr[K] == 0, "make-unique", "element of an array is not zero"); auto PArr = bcl::make_unique<Probe[]>(N); VP_CHECK(c, Probe::alive() == Alive + 6 + (int)N, "make-unique", vp::fmt("%d objects", Probe::alive() - Alive));
    Probe E(5), G(6); auto Q = bcl::make_unique_piecewise<Args>(std::tuple<int, Probe &, const Probe &, Probe, std::unique_ptr<int>>(I, E, G, Probe(7), std::unique_ptr<int>(new int(V))));
    VP_CHECK(c, Q->Id == I && Q->L == &E && Q->CL == &G && Q->P.Id == 7 && Q->P.Copies == 0 && *Q->U == V, "piecewise", ""); auto QE = bcl::make_unique_piecewise<std::string>(std::tuple<>()); VP_CHECK(c, QE->empty(), "piecewise", "no arguments"); auto QS = bcl::make_unique_piecewise<std::string>(std::make_tuple((size_t)(I & 15), 'q')); VP_CHECK(c, *QS == std::string((size_t)(I & 15), 'q'), "piecewise", "a string");
    Fixed F1(I), F2(V); bcl::swapMemory(F1, F2); VP_CHECK(c, F1.A == V && F1.B == ~V && F2.A == I && F2.B == ~I, "swap-memory", ""); bcl::swapMemory(F1, F1); VP_CHECK(c, F1.A == V && F1.B == ~V, "swap-memory", "with itself"); std::unique_ptr<char> C1(new char('a')), C2(new char('b')); bcl::swapMemory(*C1, *C2); VP_CHECK(c, *C1 == 'b' && *C2 == 'a', "swap-memory", "of a single byte");
  }
  VP_CHECK(c, Probe::alive() == Alive, "lifetime", vp::fmt("%d objects are lost", Probe::alive() - Alive)); c.count("pointers");
}
VP_FAMILY("U03.tuples", 3000, 60000) {
  auto &R = c.R; typedef std::tuple<int, std::string, int, std::string> T; T X((int)R.below(1000), std::string(R.below(20), 'a'), (int)R.below(1000), "b"); const T C = X;
  c.input(vp::fmt("%d %s %d", std::get<0>(X), std::get<1>(X).c_str(), std::get<2>(X))); c.distinct(vp::fmt("%d,%d,%d", std::get<0>(X), (int)std::get<1>(X).size(), std::get<2>(X)));
  std::vector<std::string> Want{std::to_string(std::get<0>(X)), std::get<1>(X), std::to_string(std::get<2>(X)), "b"}, Got; Collect F{Got};
  bcl::for_each(X, F); VP_CHECK(c, Got == Want, "for-each", "elements"); Got.clear(); bcl::for_each(C, F); VP_CHECK(c, Got == Want, "for-each", "constant elements"); Got.clear(); bcl::for_each(C, Collect{Got}); VP_CHECK(c, Got == Want, "for-each", "temporary function"); Got.clear(); bcl::for_each(std::tuple<>(), F); std::tuple<> None; bcl::for_each(None, F); VP_CHECK(c, Got.empty(), "for-each", "empty"); static_assert(bcl::tuple_empty<std::tuple<>>::value && !bcl::tuple_empty<T>::value, "");
  Bump B; bcl::for_each(X, B); VP_CHECK(c, B.N == 4 && X == T(std::get<0>(C) + 1, std::get<1>(C) + "2", std::get<2>(C) + 3, "b4"), "for-each", "changes of elements"); bcl::for_each(C, B); VP_CHECK(c, B.N == 8, "for-each", "state of a function");
  auto Addr = [](auto &...E) { return std::vector<const void *>{&E...}; }; std::vector<const void *> A{&std::get<0>(X), &std::get<1>(X), &std::get<2>(X), &std::get<3>(X)}, CA{&std::get<0>(C), &std::get<1>(C), &std::get<2>(C), &std::get<3>(C)};
  VP_CHECK(c, bcl::forward_as_args(X, Addr) == A && bcl::forward_as_args(C, Addr) == CA, "as-arguments", ""); int &Ref = bcl::forward_as_args(X, [](int &, std::string &, int &Y, std::string &) -> int & { return Y; }); VP_CHECK(c, &Ref == &std::get<2>(X), "as-arguments", "reference"); VP_CHECK(c, bcl::forward_as_args(None, [] { return 7; }) == 7, "as-arguments", "empty");
  std::vector<std::string> Order; struct Push { std::vector<std::string> &O; void operator()(int V) { O.push_back(std::to_string(V)); } void operator()(const std::string &V) { O.push_back(V); } } P{Order}; bcl::staticForeach(P, std::get<0>(C), std::get<1>(C), std::get<2>(C)); bcl::staticForeach(P); VP_CHECK(c, Order == std::vector<std::string>(Want.begin(), Want.begin() + 3), "static-for-each", "");
  std::set<int> Set; std::vector<int> Vec; std::vector<int *> Ptrs; int Count = 0, K = std::get<0>(C); bcl::SimpleInserter<int, std::set<int>>::insert(K, Set); bcl::PushBackInserter<int, std::vector<int>>::insert(K, Vec); bcl::PushBackInserter<int *, std::vector<int *>>::insert(&K, Ptrs); bcl::CountInserter<int, int>::insert(K, Count); bcl::CountInserter<int *, int>::insert(&K, Count);
  VP_CHECK(c, Set == std::set<int>{K} && Vec == std::vector<int>{K} && Ptrs == std::vector<int *>{&K} && Count == 2, "inserter", ""); c.count("tuples");
}
VP_MAIN
