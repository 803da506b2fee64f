// T03: transfer between trait collections and maps of traits.
#include "trait.h"

namespace {
typedef std::map<Key, void *> OrderedMap;
template<class X> struct DescOf { typedef X Type; };
template<class D, class M, class T> struct DescOf<bcl::TraitSet<D, M, T>> { typedef D Type; };
template<class X> struct IsSet : std::false_type {};
template<class D, class M, class T> struct IsSet<bcl::TraitSet<D, M, T>> : std::true_type {};

template<class X, int... I> struct Acc {
  static void set(X &T, int Id) { ((Id == I ? (T.template set<Tr<I>>(), 0) : 0), ...); }
  static void describe(X &T, int Id) {
    if constexpr (IsSet<X>::value) ((Id == I ? (T.template set<Tr<I>>(new Tr<I>), 0) : 0), ...); else set(T, Id);
  }
  static Set get(const X &T) { Set S; ((T.template is<Tr<I>>() ? (S.insert(I), 0) : 0), ...); return S; }
  static Set described(X &T) { Set S; if constexpr (IsSet<X>::value) ((T.template get<Tr<I>>() ? (S.insert(I), 0) : 0), ...); return S; }
};
template<class X> struct AccOf;
template<class... G, class M, class T> struct AccOf<bcl::TraitSet<bcl::TraitDescriptor<G...>, M, T>>;
typedef Acc<DExample, 0, 1, 2, 3> A0; 

template<class X, class Seq> struct WithIds;
template<class X, int... I> struct WithIds<X, std::integer_sequence<int, I...>> { typedef Acc<X, I...> Type; };
template<class D> struct IdSeq;
template<> struct IdSeq<DExample> { typedef std::integer_sequence<int, 0, 1, 2, 3> Type; };
template<> struct IdSeq<DSingles> { typedef std::integer_sequence<int, 0, 1, 2, 3, 4> Type; };
template<> struct IdSeq<DAlternatives> { typedef std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7> Type; };
template<> struct IdSeq<DOverlap> { typedef std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7, 8> Type; };
template<> struct IdSeq<DMixed> { typedef std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7, 8> Type; };
template<> struct IdSeq<DOne> { typedef std::integer_sequence<int, 9> Type; };
template<class X> using A = typename WithIds<X, typename IdSeq<typename DescOf<X>::Type>::Type>::Type;

template<class X> Set fill(vp::Case &c, X &T, bool Describe, const Decl &M) {
  Set S; size_t N = c.R.below(7);
  for (size_t I = 0; I < N; ++I) { int Id = c.R.pick(M.Ids); if (Describe && c.R.chance(1, 2)) A<X>::describe(T, Id); else A<X>::set(T, Id); M.set(S, Id); }
  return S;
}

template<class What, class Where> void transfer(vp::Case &c, const char *Name) {
  static const Decl MW = DeclOf<typename DescOf<What>::Type>::make(), MT = DeclOf<typename DescOf<Where>::Type>::make();
  What W; Where T;
  Set S = fill(c, W, true, MW), Old = fill(c, T, true, MT);
  Set OldDesc = A<Where>::described(T);
  bool Update = c.R.chance(1, 2);
  c.input(vp::fmt("%s %s: %s into %s", Update ? "update" : "set", Name, show(S).c_str(), show(Old).c_str()));
  Set SourceDesc = A<What>::described(W);
  if (Update) bcl::trait::update(W, T); else bcl::trait::set(W, T);
  VP_CHECK(c, A<What>::get(W) == S && A<What>::described(W) == SourceDesc, "source", "the source has changed");
  Set Now = A<Where>::get(T);
  std::vector<int> In; for (int X : S) if (MT.knows(X)) In.push_back(X);
  if (MT.compatible(In)) {
    Set Want = Old;
    if (Update) for (int X : MW.All) if (!S.count(X)) Want.erase(X);
    for (int X : In) MT.set(Want, X);
    VP_CHECK(c, Now == Want, Update ? "update" : "set", show(Now) + " instead of " + show(Want));
    c.count(Update ? "updates" : "sets");
    Set Left; for (int X : OldDesc) if (Want.count(X)) Left.insert(X);
    VP_CHECK(c, A<Where>::described(T) == Left, "descriptions", "descriptions " + show(A<Where>::described(T)) + " instead of " + show(Left));
    if (!In.empty() && Want != Old) c.distinct(vp::fmt("%s %d %s %s", Name, Update, show(S).c_str(), show(Old).c_str()));
  } else { // which one wins is not specified
    for (int X : Now) for (int Y : Now) VP_CHECK(c, !MT.conflict(X, Y), "set", "conflicting traits in " + show(Now));
    for (int X : MT.All) { bool Touched = false; for (int Y : In) Touched |= X == Y || MT.conflict(X, Y); if (Update) Touched |= MW.knows(X); if (!Touched) VP_CHECK(c, Old.count(X) == Now.count(X), "set", vp::fmt("%d has changed", X)); }
    c.count("conflicting_sources");
  }
  c.sample(std::string(Name) + show(S) + show(Old));
}
template<class D> using TS = bcl::TraitSet<D, OrderedMap>;
template<class X, class Y> void four(vp::Case &c, const char *Name) {
  switch (c.R.below(4)) {
  case 0: transfer<X, Y>(c, vp::fmt("%s dd", Name).c_str()); break;
  case 1: transfer<X, TS<Y>>(c, vp::fmt("%s ds", Name).c_str()); break;
  case 2: transfer<TS<X>, Y>(c, vp::fmt("%s sd", Name).c_str()); break;
  case 3: transfer<TS<X>, TS<Y>>(c, vp::fmt("%s ss", Name).c_str()); break;
  }
}

// Traits named by a descriptor or a set.
template<class Named, class Where> void named(vp::Case &c, const char *Name, bool CanSet) {
  static const Decl MN = DeclOf<typename DescOf<Named>::Type>::make(), MT = DeclOf<typename DescOf<Where>::Type>::make();
  Where T; Set S = fill(c, T, true, MT);
  c.input(std::string(Name) + ": " + show(S));
  Set Want = S;
  if (CanSet && c.R.chance(1, 2)) { bcl::trait::set<Named>(T); for (int X : MN.All) MT.set(Want, X); }
  else { bcl::trait::unset<Named>(T); for (int X : MN.All) Want.erase(X); }
  VP_CHECK(c, A<Where>::get(T) == Want, "named", show(A<Where>::get(T)) + " instead of " + show(Want));
  c.count("named"); if (Want != S) c.distinct(std::string(Name) + show(S));
}

// Maps with a value for each trait.
template<class Ty> struct Visit {
  std::vector<std::pair<int, const Ty *>> &V; size_t N = 0;
  template<class T> void operator()(Ty &X) { ++N; V.push_back({T::Id, &X}); }
  template<class T> void operator()(const Ty &X) { ++N; V.push_back({T::Id, &X}); }
};
struct Keys { std::vector<int> &V; size_t N = 0; template<class T> void operator()() { ++N; V.push_back(T::Id); } };
template<class M, class Ty, int... I> struct MapAcc {
  static Ty &at(M &X, int Id, bool Index) { Ty *P = nullptr; ((Id == I ? (P = Index ? &X[Tr<I>()] : &X.template value<Tr<I>>(), 0) : 0), ...); return *P; }
  static const Ty &at(const M &X, int Id, bool Index) { const Ty *P = nullptr; ((Id == I ? (P = Index ? &X[Tr<I>()] : &X.template value<Tr<I>>(), 0) : 0), ...); return *P; }
};
template<class X, class Ty, class Seq> struct MapAccOf;
template<class X, class Ty, int... I> struct MapAccOf<X, Ty, std::integer_sequence<int, I...>> { typedef MapAcc<X, Ty, I...> Type; };

template<class D> void maps(vp::Case &c, const char *Name) {
  typedef std::string Ty; typedef bcl::StaticTraitMap<Ty, D> M;
  typedef typename MapAccOf<M, Ty, typename IdSeq<D>::Type>::Type Ac;
  static const Decl MD = DeclOf<D>::make();
  auto &R = c.R;
  M X; std::map<int, std::string> Want; for (int I : MD.Ids) Want[I];
  std::string In = Name;
  auto check = [&](M &Y, std::map<int, std::string> &W, const char *What) {
    const M &CY = Y;
    for (int I : MD.Ids) { VP_CHECK(c, Ac::at(Y, I, true) == W[I] && Ac::at(Y, I, false) == W[I] && Ac::at(CY, I, true) == W[I] && Ac::at(CY, I, false) == W[I], "value", vp::fmt("%s: value of %d", What, I)); c.count("values"); }
    for (int K = 0; K < 4; ++K) {
      std::vector<std::pair<int, const Ty *>> V; Visit<Ty> F{V};
      if (K == 0) Y.for_each(F); else if (K == 1) CY.for_each(F); else if (K == 2) Y.for_each(Visit<Ty>{V}); else CY.for_each(Visit<Ty>{V});
      VP_CHECK(c, F.N == (K < 2 ? V.size() : 0), "visit-state", What);
      Set S; for (auto &E : V) { VP_CHECK(c, S.insert(E.first).second, "visit", "a trait is visited twice"); VP_CHECK(c, E.second == &Ac::at(CY, E.first, false), "visit", vp::fmt("%d is visited with the value of another", E.first)); }
      VP_CHECK(c, S == MD.All, "visit", show(S));
    }
  };
  std::vector<int> V; Keys F{V};
  if (R.chance(1, 2)) { M::for_each_key(F); VP_CHECK(c, F.N == V.size(), "visit-state", "keys"); } else M::for_each_key(Keys{V});
  VP_CHECK(c, once(c, V, "keys") == MD.All, "keys", show(Set(V.begin(), V.end())));
  size_t Steps = R.size(12);
  for (size_t I = 0; I < Steps; ++I) {
    int T = R.pick(MD.Ids); std::string Val = std::string(R.below(30), 'a' + (char)R.below(26)) + std::to_string(R.below(100));
    Ac::at(X, T, R.chance(1, 2)) = Val; Want[T] = Val; In += vp::fmt(" %d=%s", T, Val.c_str()); c.input(In);
    if (R.chance(1, 3)) { M Y(X); auto W2 = Want; Ac::at(Y, T, true) = "copy"; W2[T] = "copy"; check(Y, W2, "copy"); M Z; Z = X; check(Z, Want, "assigned copy"); M Q(std::move(Y)); check(Q, W2, "moved"); }
    check(X, Want, "map");
  }
  // As JSON.
  std::string J = json::Parser<>::unparse(X);
  M Y; json::Parser<> P(J);
  VP_CHECK(c, P.parse(Y), "json", "not accepted: " + J);
  auto W2 = Want; check(Y, W2, "json");
  c.count("maps"); c.distinct(In);
}

// Distribution of sets into the cells of a map.
template<class TSet> struct CheckedSet { static const TSet *Expected; };
template<class X> void distribute(vp::Case &c, const char *Name) {
  typedef typename DescOf<X>::Type D;
  typedef std::vector<X *> Cell; typedef bcl::StaticTraitMap<Cell, D> M; typedef typename MapAccOf<M, Cell, typename IdSeq<D>::Type>::Type Ac;
  typedef bcl::StaticTraitMap<std::set<X *>, D> MS; typedef typename MapAccOf<MS, std::set<X *>, typename IdSeq<D>::Type>::Type AcS;
  typedef bcl::StaticTraitMap<int, D> MC; typedef typename MapAccOf<MC, int, typename IdSeq<D>::Type>::Type AcC;
  static const Decl MD = DeclOf<D>::make();
  M Map; MS MapS; MC Count; for (int I : MD.Ids) AcC::at(Count, I, false) = 0;
  std::list<X> Sets; std::vector<Set> Want;
  size_t N = 1 + c.R.below(6); std::string In = Name;
  for (size_t I = 0; I < N; ++I) {
    Sets.emplace_back(); X &S = Sets.back(); Want.push_back(fill(c, S, false, MD)); In += " " + show(Want.back());
    c.input(In);
    bcl::TraitMapConstructor<X, M> Ctor(S, Map);
    VP_CHECK(c, &Ctor.getTraitMap() == &Map && &Ctor.getTraitSet() == &S, "constructor", "another map or set");
    if (c.R.chance(1, 2)) S.for_each(Ctor); else S.for_each(bcl::TraitMapConstructor<X, M>(S, Map));
    S.for_each(bcl::TraitMapConstructor<X, MS, bcl::SimpleInserter>(S, MapS));
    S.for_each(bcl::TraitMapConstructor<X, MC, bcl::CountInserter>(S, Count));
  }
  for (int I : MD.Ids) {
    Cell E; size_t K = 0;
    for (auto &S : Sets) if (Want[K++].count(I)) E.push_back(&S);
    VP_CHECK(c, Ac::at(Map, I, false) == E, "distribute", vp::fmt("%zu sets under %d instead of %zu", Ac::at(Map, I, false).size(), I, E.size()));
    VP_CHECK(c, AcS::at(MapS, I, false) == std::set<X *>(E.begin(), E.end()), "distribute", vp::fmt("set of sets under %d", I));
    VP_CHECK(c, AcC::at(Count, I, false) == (int)E.size(), "distribute", vp::fmt("%d counted under %d", AcC::at(Count, I, false), I));
    c.count("cells");
  }
  c.count("distributed", N); c.distinct(In); c.sample(In);
}
}

#if PART == 0
VP_FAMILY("T03.example", 3000, 60000) { c.R.chance(1, 2) ? four<DExample, DSingles>(c, "example-singles") : four<DSingles, DExample>(c, "singles-example"); }
VP_FAMILY("T03.same", 3000, 60000) { c.R.chance(1, 2) ? four<DExample, DExample>(c, "example-example") : four<DOne, DExample>(c, "one-example"); }
VP_MAIN
#elif PART == 1
VP_FAMILY("T03.mixed", 3000, 60000) { c.R.chance(1, 2) ? four<DMixed, DOverlap>(c, "mixed-overlap") : four<DOverlap, DMixed>(c, "overlap-mixed"); }
#elif PART == 2
VP_FAMILY("T03.alternatives", 3000, 60000) { c.R.chance(1, 2) ? four<DAlternatives, DMixed>(c, "alternatives-mixed") : four<DExample, DAlternatives>(c, "example-alternatives"); }
VP_FAMILY("T03.named", 3000, 30000) {
  switch (c.R.below(6)) {
  case 0: named<DExample, DExample>(c, "unset all of itself", false); break;
  case 1: named<TS<DExample>, DOverlap>(c, "example in overlap", false); break;
  case 2: named<DExample, TS<DMixed>>(c, "example in mixed set", false); break;
  case 3: named<T_<0, 4, 1>, DMixed>(c, "three", true); break;
  case 4: named<T_<3, 1>, TS<DMixed>>(c, "two", true); break;
  case 5: named<bcl::TraitDescriptor<Tr<4>, U<3, 1>>, TS<DMixed>>(c, "a union", true); break;
  }
}
#elif PART == 3
VP_FAMILY("T03.maps", 2000, 30000) {
  switch (c.R.below(4)) {
  case 0: maps<DExample>(c, "example"); break;
  case 1: maps<DOne>(c, "one"); break;
  case 2: maps<DMixed>(c, "mixed"); break;
  case 3: maps<DOverlap>(c, "overlap"); break;
  }
}
VP_FAMILY("T03.distribute", 2000, 30000) {
  switch (c.R.below(4)) {
  case 0: distribute<DExample>(c, "example"); break;
  case 1: distribute<TS<DExample>>(c, "example set"); break;
  case 2: distribute<TS<DMixed>>(c, "mixed set"); break;
  case 3: distribute<DAlternatives>(c, "alternatives"); break;
  }
}
#endif
