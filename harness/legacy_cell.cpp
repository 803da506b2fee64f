// L02: collections of cells of the legacy interface.
#include "vp.h"
#include <algorithm>
#include <cassert>
#include <bcl/legacy/cell_legacy.h>

namespace {
VP_TLS long Alive, Copies;
struct Counted {
  int V;
  Counted(int X = 0) : V(X) { ++Alive; }
  Counted(const Counted &X) : V(X.V) { ++Alive; ++Copies; }
  Counted &operator=(const Counted &X) { V = X.V; ++Copies; return *this; }
  ~Counted() { --Alive; }
};
template<int I> struct VT;
template<> struct VT<0> { typedef int Type; };
template<> struct VT<1> { typedef std::string Type; };
template<> struct VT<2> { typedef double Type; };
template<> struct VT<3> { typedef Counted Type; };
template<> struct VT<4> { typedef char Type; };
template<> struct VT<5> { typedef std::vector<int> Type; };
template<> struct VT<6> { typedef int Type; };
template<> struct VT<7> { typedef unsigned long long Type; };
template<int I> struct K { typedef typename VT<I>::Type ValueType; static constexpr int Id = I; };
template<int I> struct O { typedef Counted *ValueType; static constexpr int Id = 100 + I; }; // keys of owned objects
template<int I> struct X { typedef char ValueType; static constexpr int Id = I; };
std::string show(int V) { return std::to_string(V); }
std::string show(char V) { return std::to_string((int)V); }
std::string show(unsigned long long V) { return std::to_string(V); }
std::string show(double V) { return vp::fmt("%.17g", V); }
std::string show(const std::string &V) { return V; }
std::string show(const std::vector<int> &V) { std::string S = "v"; for (int E : V) S += vp::fmt("%d,", E); return S; }
std::string show(const Counted &V) { return vp::fmt("c%d", V.V); }
std::string show(Counted *const &V) { return V ? vp::fmt("p%d", V->V) : "null"; }
void draw(vp::Rng &R, int &V) { V = (int)R.next(); }
void draw(vp::Rng &R, char &V) { V = (char)R.next(); }
void draw(vp::Rng &R, unsigned long long &V) { V = R.next(); }
void draw(vp::Rng &R, double &V) { V = (double)(int)R.next() / 7; }
void draw(vp::Rng &R, std::string &V) { V = std::string(R.below(40), 'a' + (char)R.below(26)); }
void draw(vp::Rng &R, std::vector<int> &V) { V.assign(R.below(5), (int)R.below(1000)); }
void draw(vp::Rng &R, Counted &V) { V = Counted((int)R.below(100000)); }

template<class... Ids> struct List;
template<class I> struct List<I> { typedef Base::Cell<I> Type; };
template<class I, class... Ids> struct List<I, Ids...> { typedef Base::Cell<I, typename List<Ids...>::Type> Type; };

typedef std::vector<std::pair<int, const void *>> Seen;
struct Reader { Seen &S; int N = 0; template<class C> void operator()(C *P) { ++N; S.push_back({C::CellId::Id, (const void *)&P->template Value<typename C::CellId>()}); } };
struct Ids { std::vector<int> S; template<class C> void operator()() { S.push_back(C::CellId::Id); } };
struct Types { std::vector<int> S; template<class C> void operator()() { S.push_back(std::is_same<typename C::ValueType, typename C::CellId::ValueType>::value && std::is_same<typename C::Reference, typename C::CellId::ValueType &>::value && std::is_same<typename C::ReferenceC, const typename C::CellId::ValueType &>::value); } };
template<class C> std::vector<int> ids() { Ids F; C::ForeachDefinition(F); return F.S; }
template<> std::vector<int> ids<Utility::Null>() { return {}; }
std::string text(const std::vector<int> &V) { std::string S; for (int I : V) S += vp::fmt("%d ", I); return S; }
std::string text(const std::vector<std::string> &V) { std::string S; for (auto &I : V) S += I + "|"; return S; }

template<int... I> struct Coll {
  typedef typename List<K<I>...>::Type Type;
  typedef std::vector<std::string> Texts;
  static std::vector<int> keys() { return {I...}; }
  static Texts read(const Type &C) { return {show(C.template Value<K<I>>())...}; }
  static Texts readMutable(Type &C) { return {show(C.template Value<K<I>>())...}; }
  static Texts index(Type &C) { return {show(C[K<I>()])...}; }
  static Texts indexConst(const Type &C) { return {show(C[K<I>()])...}; }
  static std::vector<const void *> addresses(const Type &C) { return {(const void *)&C.template Value<K<I>>()...}; }
  template<int J> static void writeOne(vp::Rng &R, Type &C, Texts &M, size_t At) {
    typename VT<J>::Type V; draw(R, V);
    if (R.chance(1, 2)) C.template Value<K<J>>() = V; else C[K<J>()] = V;
    M[At] = show(V);
  }
  static void write(vp::Rng &R, Type &C, Texts &M, size_t Which) { size_t N = 0; int D[] = {(N++ == Which ? (writeOne<I>(R, C, M, N - 1), 0) : 0)...}; (void)D; }
  static void fill(vp::Rng &R, Type &C, Texts &M) { M.assign(sizeof...(I), ""); for (size_t N = 0; N < sizeof...(I); ++N) write(R, C, M, N); }
  static std::vector<bool> exist() { return {isIn<0>(), isIn<1>(), isIn<2>(), isIn<3>(), isIn<4>(), isIn<5>(), isIn<6>(), isIn<7>()}; }
  template<int J> static bool isIn() { return Base::IsCellExist<Type, K<J>>::Value(); }
  template<int J> static int found() { return id<typename Base::IsCellExist<Type, K<J>>::Cell>((typename Base::IsCellExist<Type, K<J>>::Cell *)nullptr); }
  template<class C> static int id(C *) { return C::CellId::Id; }
  template<class C> static int id(Utility::Null *) { return -1; }
  static std::vector<int> foundIds() { return {found<0>(), found<1>(), found<2>(), found<3>(), found<4>(), found<5>(), found<6>(), found<7>()}; }
};

template<class L> void same(vp::Case &c, typename L::Type &C, const std::vector<std::string> &M, const char *Key) {
  VP_CHECK(c, L::read(C) == M, Key, "const Value(): " + text(L::read(C)) + " instead of " + text(M));
  VP_CHECK(c, L::readMutable(C) == M, Key, "Value()");
  VP_CHECK(c, L::index(C) == M, Key, "operator[]");
  VP_CHECK(c, L::indexConst(C) == M, Key, "const operator[]");
  c.count("values", M.size());
}

template<class L> void history(vp::Case &c, const char *Name) {
  std::string In = Name;
  typedef typename L::Type T;
  long Before = Alive;
  {
    T C; std::vector<std::string> M; L::fill(c.R, C, M);
    c.input(In + " " + text(M)); c.distinct(In + text(M)); c.sample(In + " " + text(M));
    same<L>(c, C, M, "value");
    auto Keys = L::keys(); auto Adr = L::addresses(C);
    for (size_t A = 0; A < Adr.size(); ++A) for (size_t B = A + 1; B < Adr.size(); ++B) VP_CHECK(c, Adr[A] != Adr[B], "alias", text(Keys));
    for (int S = (int)c.R.below(8); S > 0; --S) { L::write(c.R, C, M, c.R.below(Keys.size())); same<L>(c, C, M, "write"); }
    Seen S; Reader F{S}; C.Foreach(F);
    Seen S2; Reader F2{S2}; const T &CC = C; CC.Foreach(F2);
    Seen E; for (size_t A = 0; A < Keys.size(); ++A) E.push_back({Keys[A], Adr[A]});
    VP_CHECK(c, S == E && F.N == (int)Keys.size(), "foreach", In);
    VP_CHECK(c, S2 == E && F2.N == (int)Keys.size(), "foreach-const", In);
    VP_CHECK(c, ids<T>() == Keys, "definitions", text(ids<T>()) + "instead of " + text(Keys));
    Types Ty; T::ForeachDefinition(Ty); VP_CHECK(c, Ty.S == std::vector<int>(Keys.size(), 1), "types", In);
    auto Ex = L::exist(); auto Fo = L::foundIds();
    for (int J = 0; J < 8; ++J) {
      bool Has = std::count(Keys.begin(), Keys.end(), J);
      VP_CHECK(c, Ex[J] == Has && Fo[J] == (Has ? J : -1), "exist", vp::fmt("key %d of %s", J, text(Keys).c_str()));
    }
    std::vector<int> Rev(Keys.rbegin(), Keys.rend());
    VP_CHECK(c, (ids<typename Base::ReverseCell<T>::Result>() == Rev), "reverse", text(ids<typename Base::ReverseCell<T>::Result>()));
    T D = C; auto MD = M; same<L>(c, D, MD, "copy");
    L::write(c.R, D, MD, c.R.below(Keys.size())); same<L>(c, D, MD, "copy"); same<L>(c, C, M, "copied");
    C = D; same<L>(c, C, MD, "assign");
    c.count("collections");
  }
  VP_CHECK(c, Alive == Before, "alive", vp::fmt("%ld", Alive - Before));
}

template<class From, class To> void transfer(vp::Case &c) {
  std::string In = "from " + text(From::keys()) + "to " + text(To::keys());
  auto FK = From::keys(), TK = To::keys();
  typename From::Type F; typename To::Type T; std::vector<std::string> MF, MT;
  From::fill(c.R, F, MF); To::fill(c.R, T, MT);
  c.input(In + text(MF) + " " + text(MT)); c.distinct(In + text(MF) + text(MT));
  auto E = MT; size_t Common = 0;
  for (size_t A = 0; A < TK.size(); ++A) for (size_t B = 0; B < FK.size(); ++B) if (TK[A] == FK[B]) { E[A] = MF[B]; ++Common; }
  const typename From::Type &CF = F;
  bool Back = c.R.chance(1, 2);
  if (!Back) { Base::CopyToCellFunctor<typename From::Type> Fn(&CF); T.Foreach(Fn); }
#ifndef NO_COPY_FROM
  else { Base::CopyFromCellFunctor<typename To::Type> Fn(&T); if (c.R.chance(1, 2)) F.Foreach(Fn); else CF.Foreach(Fn); }
#endif
  same<To>(c, T, E, Back ? "copy-from" : "copy-to"); same<From>(c, F, MF, "source");
  c.count(Back ? "copies_from" : "copies_to"); c.count("common_keys", Common);
}
template<class A, class B> void merge(vp::Case &c) {
  auto E = A::keys(); for (int I : B::keys()) E.push_back(I);
  typedef typename Base::MergeCell<typename A::Type, typename B::Type>::Result R;
  VP_CHECK(c, ids<R>() == E, "merge", text(ids<R>()) + "instead of " + text(E));
  c.count("merges");
}

typedef Coll<0> L0; typedef Coll<1> L1; typedef Coll<3> L3; typedef Coll<0, 1> L01; typedef Coll<1, 0> L10; typedef Coll<2, 3, 4> L234; typedef Coll<5, 1, 7> L517;
typedef Coll<0, 1, 2, 3> L0123; typedef Coll<3, 2, 1, 0> L3210; typedef Coll<6, 0, 5> L605; typedef Coll<7, 6, 5, 4, 3, 2, 1, 0> L7to0; typedef Coll<0, 6> L06; typedef Coll<4, 2, 6, 0, 1> L42601;

template<int N> struct Macro;
#include "legacy_gen.h"
template<int N> struct Upto { static void f(vp::Case &c) {
  Upto<N - 1>::f(c);
  auto V = ids<typename Macro<N>::Type>(); std::vector<int> E; for (int I = 0; I < N; ++I) E.push_back(I);
  VP_CHECK(c, V == E, "macro", vp::fmt("CELL_COLL_%d: ", N) + text(V));
  c.count("macros");
} };
template<> struct Upto<0> { static void f(vp::Case &) {} };

// Owned objects.
template<class... Id> struct Own {
  typedef typename List<Id...>::Type Type;
  template<class I> static void one(vp::Rng &R, Type &C, std::vector<std::string> &M, std::true_type) { if (R.chance(2, 3)) C.template Value<I>() = new Counted((int)R.below(1000)); M.push_back(show(C.template Value<I>())); }
  template<class I> static void one(vp::Rng &R, Type &C, std::vector<std::string> &M, std::false_type) { draw(R, C.template Value<I>()); M.push_back(show(C.template Value<I>())); }
  static std::vector<std::string> read(const Type &C) { return {show(C.template Value<Id>())...}; }
  static void run(vp::Case &c, const char *Name) {
    long Before = Alive;
    {
      Type C; Base::InitCellFunctor In; Base::ClearCellFunctor Cl;
      // Values which are not pointers survive both functors.
      std::vector<std::string> Val; bool Ptr[] = {std::is_pointer<typename Id::ValueType>::value...};
      int D0[] = {(std::is_pointer<typename Id::ValueType>::value ? 0 : (one<Id>(c.R, C, Val, std::integral_constant<bool, std::is_pointer<typename Id::ValueType>::value>()), 0))...}; (void)D0;
      C.Foreach(In);
      std::vector<std::string> E; size_t At = 0; for (bool P : Ptr) E.push_back(P ? "null" : Val[At++]);
      VP_CHECK(c, read(C) == E, "init", text(read(C)) + " instead of " + text(E));
      C.Foreach(Cl); // nothing to release
      VP_CHECK(c, read(C) == E, "clear-null", text(read(C)));
      for (int Round = (int)c.R.below(3); Round >= 0; --Round) {
        std::vector<std::string> M; long A0 = Alive, Owned = 0;
        int D[] = {(one<Id>(c.R, C, M, std::integral_constant<bool, std::is_pointer<typename Id::ValueType>::value>()), 0)...}; (void)D;
        for (size_t J = 0; J < M.size(); ++J) Owned += Ptr[J] && M[J] != "null";
        c.input(std::string(Name) + " " + text(M)); c.distinct(std::string(Name) + text(M));
        VP_CHECK(c, read(C) == M, "owned", text(read(C)));
        VP_CHECK(c, Alive == A0 + Owned, "created", text(M));
        C.Foreach(Cl);
        VP_CHECK(c, Alive == A0, "clear", vp::fmt("%ld of %ld owned objects are not released", Alive - A0, Owned));
        c.count("cleared", Owned);
        std::vector<std::string> Rest; At = 0; for (bool P : Ptr) Rest.push_back(P ? "null" : M[At]), ++At;
        C.Foreach(In);
        VP_CHECK(c, read(C) == Rest, "init", text(read(C)) + " instead of " + text(Rest));
      }
    }
    VP_CHECK(c, Alive == Before, "alive", vp::fmt("%ld", Alive - Before));
  }
};
}

#define ALL(F) switch (c.R.below(13)) { case 0: F(L0); break; case 1: F(L1); break; case 2: F(L3); break; case 3: F(L01); break; case 4: F(L10); break; case 5: F(L234); break; case 6: F(L517); break; case 7: F(L0123); break; case 8: F(L3210); break; case 9: F(L605); break; case 10: F(L7to0); break; case 11: F(L06); break; case 12: F(L42601); break; }
#define HIST(L) history<L>(c, #L)
#if PART == 0
VP_FAMILY("L02.histories", 8000, 200000) { ALL(HIST) }
#endif
#if PART == 1
VP_FAMILY("L02.transfers", 8000, 200000) {
  switch (c.R.below(14)) {
  case 0: transfer<L0, L0>(c); break; case 1: transfer<L0, L1>(c); break; case 2: transfer<L01, L10>(c); break; case 3: transfer<L10, L0123>(c); break;
  case 4: transfer<L0123, L3210>(c); break; case 5: transfer<L234, L7to0>(c); break; case 6: transfer<L7to0, L517>(c); break; case 7: transfer<L605, L06>(c); break;
  case 8: transfer<L06, L605>(c); break; case 9: transfer<L3, L0123>(c); break; case 10: transfer<L234, L01>(c); break; case 11: transfer<L42601, L7to0>(c); break;
  case 12: transfer<L7to0, L42601>(c); break; case 13: transfer<L517, L10>(c); break; }
}
VP_FAMILY("L02.owners", 4000, 100000) {
  switch (c.R.below(5)) {
  case 0: Own<O<0>>::run(c, "p"); break; case 1: Own<O<0>, O<1>, O<2>>::run(c, "ppp"); break; case 2: Own<K<0>, O<0>, K<1>>::run(c, "vpv"); break;
  case 3: Own<O<0>, K<2>, O<1>, K<3>>::run(c, "pvpv"); break; case 4: Own<K<1>, K<0>>::run(c, "vv"); break; }
}
#endif
#if PART == 2
VP_FAMILY("L02.types", 1, 1) {
  Upto<100>::f(c);
  merge<L0, L1>(c); merge<L01, L234>(c); merge<L234, L01>(c); merge<L517, L3>(c); merge<L605, L1>(c); merge<L3, L605>(c); merge<L06, L517>(c); merge<L0123, Coll<7, 6, 5, 4>>(c); merge<Coll<4, 5, 6, 7>, L3210>(c);
  VP_CHECK(c, (ids<Base::MergeCell<L01::Type, Utility::Null>::Result>() == std::vector<int>{0, 1}), "merge-null", "right");
  VP_CHECK(c, (ids<Base::MergeCell<Utility::Null, L10::Type>::Result>() == std::vector<int>{1, 0}), "merge-null", "left");
  VP_CHECK(c, (std::is_same<Base::ReverseCell<Utility::Null>::Result, Utility::Null>::value), "reverse-null", "");
  VP_CHECK(c, !(Base::IsCellExist<Utility::Null, K<0>>::Value()), "exist-null", "");
  c.distinct("types");
}
VP_MAIN
#endif
