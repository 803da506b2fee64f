// T01: trait descriptors.
#include "trait.h"

namespace {
template<class D> struct Table {
  struct One {
    void (*Set)(D &); void (*Unset)(D &); void (*UnsetGroup)(D &); bool (*Is)(const D &); bool (*IsAny)(const D &);
    std::vector<int> (*Conflicts)(const D &, bool); std::vector<int> (*Group)(const D &, bool);
    Key K, Mask, Join, JoinConflict; std::string (*PrintKey)(); std::string (*PrintMask)();
  };
  struct Two {
    void (*Set)(D &); void (*Unset)(D &); void (*UnsetGroup)(D &); bool (*Is)(const D &); bool (*IsAny)(const D &);
    Key Join, JoinMask, JoinConflict; bool Conflict; std::string (*PrintKey)(); std::string (*PrintMask)();
    void (*FSet)(D &); void (*FUnset)(D &); bool (*FIs)(const D &); bool (*FIsAny)(const D &);
  };
  struct Three { int A, B, C; void (*Set)(D &); void (*Unset)(D &); bool (*Is)(const D &); bool (*IsAny)(const D &); };
  std::map<int, One> Ones; std::map<std::pair<int, int>, Two> Twos; std::vector<Three> Threes;

  template<int I> void one() {
    typedef Tr<I> T;
    One O;
    O.Set = [](D &X) { X.template set<T>(); };
    O.Unset = [](D &X) { X.template unset<T>(); };
    O.UnsetGroup = [](D &X) { X.template unset_group<T>(); };
    O.Is = [](const D &X) { return X.template is<T>(); };
    O.IsAny = [](const D &X) { return X.template is_any<T>(); };
    O.Conflicts = [](const D &X, bool Temp) { std::vector<int> V; Ids F{&V}; if (Temp) X.template for_each_conflict<T>(Ids{&V}); else { X.template for_each_conflict<T>(F); F.end(); } return V; };
    O.Group = [](const D &X, bool Temp) { std::vector<int> V; Ids F{&V}; if (Temp) X.template for_each_in_group<T>(Ids{&V}); else { X.template for_each_in_group<T>(F); F.end(); } return V; };
    O.K = D::template getKey<T>(); O.Mask = D::template getMask<T>(); O.Join = D::template joinKey<T>(); O.JoinConflict = D::template joinConflict<T>();
    O.PrintKey = []() { std::ostringstream S; D::template printKey<T>(S); return S.str(); };
    O.PrintMask = []() { std::ostringstream S; D::template printMask<T>(S); return S.str(); };
    Ones[I] = O;
  }
  template<int I, int J> void two() {
    typedef Tr<I> A; typedef Tr<J> B;
    Two O;
    O.Set = [](D &X) { X.template set<A, B>(); };
    O.Unset = [](D &X) { X.template unset<A, B>(); };
    O.UnsetGroup = [](D &X) { X.template unset_group<A, B>(); };
    O.Is = [](const D &X) { return X.template is<A, B>(); };
    O.IsAny = [](const D &X) { return X.template is_any<A, B>(); };
    O.Join = D::template joinKey<A, B>(); O.JoinMask = D::template joinMask<A, B>(); O.JoinConflict = D::template joinConflict<A, B>();
    O.Conflict = bcl::trait::is_conflict<A, B, D>::value;
    O.PrintKey = []() { std::ostringstream S; D::template printKey<A, B>(S); return S.str(); };
    O.PrintMask = []() { std::ostringstream S; D::template printMask<A, B>(S); return S.str(); };
    O.FSet = [](D &X) { bcl::trait::set<A, B>(X); };
    O.FUnset = [](D &X) { bcl::trait::unset<A, B>(X); };
    O.FIs = [](const D &X) { return bcl::ForwardTypeList<bcl::trait::Is, bcl::TypeList<A, B>>::Type::is(X); };
    O.FIsAny = [](const D &X) { return bcl::ForwardTypeList<bcl::trait::IsAny, bcl::TypeList<A, B>>::Type::is_any(X); };
    Twos[{I, J}] = O;
  }
  template<int I, int J, int K> void three() {
    typedef Tr<I> A; typedef Tr<J> B; typedef Tr<K> C;
    Threes.push_back({I, J, K, [](D &X) { X.template set<A, B, C>(); }, [](D &X) { X.template unset<A, B, C>(); },
      [](const D &X) { return X.template is<A, B, C>(); }, [](const D &X) { return X.template is_any<A, B, C>(); }});
  }
  template<int I, int... J> void row() { one<I>(); (two<I, J>(), ...); }
  template<int... I> void all() { (row<I, I...>(), ...); }
};

std::string bits(Key K) { std::string S; for (int B = 63; B >= 0; --B) S += (K >> B) & 1 ? '1' : '0'; return S; }

template<class D> struct Checker {
  vp::Case &c; const Table<D> &T; const Decl M;
  Checker(vp::Case &c, const Table<D> &T) : c(c), T(T), M(DeclOf<D>::make()) {}
  Key key(const Set &S) { Key K = 0; for (int I : S) K |= T.Ones.at(I).K; return K; }

  // The keys, masks and relations that do not depend on a state.
  void statics() {
    Key Seen = 0;
    std::vector<int> V; Ids F{&V};
    D::for_each_available(F);
    VP_CHECK(c, once(c, V, "available") == M.All, "available", show(Set(V.begin(), V.end())));
    V.clear(); D::for_each_available(Collect{V});
    VP_CHECK(c, once(c, V, "available") == M.All, "available", "a temporary function: " + show(Set(V.begin(), V.end())));
    for (auto &X : T.Ones) {
      Key K = X.second.K;
      VP_CHECK(c, K && !(K & (K - 1)), "key", vp::fmt("the key of %d is %llx", X.first, K));
      VP_CHECK(c, !(Seen & K), "key-overlap", vp::fmt("the key %llx of %d is also that of another trait", K, X.first));
      Seen |= K;
    }
    for (auto &X : T.Ones) {
      VP_CHECK(c, X.second.Mask == key(M.members(X.first)), "mask", vp::fmt("the mask of %d is %llx", X.first, X.second.Mask));
      VP_CHECK(c, X.second.Join == X.second.K, "join", vp::fmt("%d", X.first));
      Set C; for (int O : M.All) if (M.conflict(X.first, O)) C.insert(O);
      VP_CHECK(c, X.second.JoinConflict == key(C), "join-conflict", vp::fmt("conflicts of %d are %llx instead of %s", X.first, X.second.JoinConflict, show(C).c_str()));
      VP_CHECK(c, X.second.PrintKey() == bits(X.second.K) && X.second.PrintMask() == bits(X.second.Mask), "print-key", X.second.PrintKey() + " " + X.second.PrintMask());
    }
    for (auto &X : T.Twos) {
      int A = X.first.first, B = X.first.second;
      auto &P = X.second;
      Set Cs; for (int O : M.All) if (M.conflict(A, O) || M.conflict(B, O)) Cs.insert(O);
      Set Ms = M.members(A), Mb = M.members(B); Ms.insert(Mb.begin(), Mb.end());
      VP_CHECK(c, P.Join == key({A, B}) && P.JoinMask == key(Ms), "join", vp::fmt("%d and %d: %llx %llx", A, B, P.Join, P.JoinMask));
      VP_CHECK(c, P.JoinConflict == key(Cs), "join-conflict", vp::fmt("%d and %d: %llx", A, B, P.JoinConflict));
      VP_CHECK(c, P.Conflict == M.conflict(A, B), "is-conflict", vp::fmt("%d and %d", A, B));
      VP_CHECK(c, P.PrintKey() == bits(P.Join) && P.PrintMask() == bits(P.JoinMask), "print-key", P.PrintKey());
    }
    c.count("traits", T.Ones.size());
  }
  // Everything that can be asked about a state.
  void state(const D &X, const Set &S) {
    for (auto &O : T.Ones) {
      VP_CHECK(c, O.second.Is(X) == (S.count(O.first) != 0) && O.second.IsAny(X) == (S.count(O.first) != 0), "is", vp::fmt("%d in ", O.first) + show(S));
      Set C, G = M.members(O.first);
      for (int E : S) if (M.conflict(E, O.first)) C.insert(E);
      for (auto I = G.begin(); I != G.end();) if (!S.count(*I)) I = G.erase(I); else ++I;
      bool Temp = c.R.chance(1, 2);
      VP_CHECK(c, once(c, O.second.Conflicts(X, Temp), "for-each-conflict") == C, "for-each-conflict", vp::fmt("conflicts of %d in ", O.first) + show(S));
      VP_CHECK(c, once(c, O.second.Group(X, Temp), "for-each-in-group") == G, "for-each-in-group", vp::fmt("group of %d in ", O.first) + show(S));
    }
    if (c.R.chance(1, 4)) for (auto &P : T.Twos) {
      bool A = S.count(P.first.first), B = S.count(P.first.second);
      VP_CHECK(c, P.second.Is(X) == (A && B) && P.second.IsAny(X) == (A || B), "is", vp::fmt("%d and %d in ", P.first.first, P.first.second) + show(S));
      VP_CHECK(c, P.second.FIs(X) == (A && B) && P.second.FIsAny(X) == (A || B), "is", vp::fmt("(list) %d and %d in ", P.first.first, P.first.second) + show(S));
    }
    for (auto &P : T.Threes) {
      int N = (int)(S.count(P.A) + S.count(P.B) + S.count(P.C)), W = (int)Set{P.A, P.B, P.C}.size();
      int Have = 0; for (int E : Set{P.A, P.B, P.C}) Have += (int)S.count(E); (void)N;
      VP_CHECK(c, P.Is(X) == (Have == W) && P.IsAny(X) == (Have > 0), "is", vp::fmt("%d, %d and %d in ", P.A, P.B, P.C) + show(S));
    }
    std::vector<int> V; Ids F{&V};
    if (c.R.chance(1, 2)) { X.for_each(F); F.end(); } else X.for_each(Ids{&V});
    VP_CHECK(c, once(c, V, "for-each") == S, "for-each", show(Set(V.begin(), V.end())) + " instead of " + show(S));
    std::ostringstream Out; X.print(Out);
    VP_CHECK(c, Out.str() == bits(key(S)), "print", Out.str());
    c.count("states"); c.member("distinct_states", vp::hashStr(show(S)));
  }

  void history(int Steps) {
    auto &R = c.R;
    D X; Set S; std::string In;
    state(X, S);
    for (int I = 0; I < Steps; ++I) {
      int A = R.pick(M.Ids), B = R.pick(M.Ids);
      auto P = T.Twos.find({A, B});
      int Op = (int)R.below(12);
      std::string Say;
      D Before = X; Set Was = S;
      if (Op < 4) { Say = vp::fmt("set %d", A); M.set(S, A); T.Ones.at(A).Set(X); c.count("set"); if (Was.size() >= S.size() && !Was.count(A)) c.count("displaced"); }
      else if (Op < 6 && P != T.Twos.end()) {
        bool Fn = R.chance(1, 2);
        if (!M.compatible({A, B})) { // which of them stays is not specified: only the others and the rules
          Say = vp::fmt("set %d,%d (conflicting)", A, B); c.input(In + Say); P->second.Set(X);
          Set N; for (auto &O : T.Ones) if (O.second.Is(X)) N.insert(O.first);
          for (int E : M.All) if (E != A && E != B) { bool Keep = Was.count(E) && !M.conflict(E, A) && !M.conflict(E, B); if (Keep) VP_CHECK(c, N.count(E), "set-both", "a compatible trait is lost"); else if (!Was.count(E)) VP_CHECK(c, !N.count(E), "set-both", "another trait appears"); }
          for (int E : N) for (int F : N) VP_CHECK(c, !M.conflict(E, F), "set-both", vp::fmt("%d and %d are set together", E, F));
          S = N; c.count("set_conflicting");
        } else { Say = vp::fmt("set %d,%d", A, B); M.set(S, A); M.set(S, B); (Fn ? P->second.FSet : P->second.Set)(X); c.count("set_both"); }
      }
      else if (Op == 6) { Say = vp::fmt("unset %d", A); M.unset(S, A); T.Ones.at(A).Unset(X); c.count("unset"); }
      else if (Op == 7 && P != T.Twos.end()) { Say = vp::fmt("unset %d,%d", A, B); M.unset(S, A); M.unset(S, B); (R.chance(1, 2) ? P->second.FUnset : P->second.Unset)(X); c.count("unset"); }
      else if (Op == 8) { Say = vp::fmt("unset_group %d", A); for (int E : M.members(A)) S.erase(E); T.Ones.at(A).UnsetGroup(X); c.count("unset_group"); }
      else if (Op == 9 && P != T.Twos.end()) { Say = vp::fmt("unset_group %d,%d", A, B); for (int E : M.members(A)) S.erase(E); for (int E : M.members(B)) S.erase(E); P->second.UnsetGroup(X); c.count("unset_group"); }
      else if (Op == 10 && R.chance(1, 5)) { Say = "unset_all"; S.clear(); X.unset_all(); }
      else if (Op == 10 && !T.Threes.empty()) {
        auto &Q = R.pick(T.Threes);
        if (R.chance(1, 3)) { Say = vp::fmt("unset %d,%d,%d", Q.A, Q.B, Q.C); for (int E : {Q.A, Q.B, Q.C}) S.erase(E); Q.Unset(X); }
        else if (M.compatible({Q.A, Q.B, Q.C})) { Say = vp::fmt("set %d,%d,%d", Q.A, Q.B, Q.C); for (int E : {Q.A, Q.B, Q.C}) M.set(S, E); Q.Set(X); c.count("set_three"); }
      }
      else if (Op == 11) { D Y(X); D Z; Z = Y; D W(std::move(Y)); X = std::move(W); VP_CHECK(c, Z == X && !(Z != X), "copy", "a copy differs"); Say = "copied"; }
      In += Say + "; "; c.input(In);
      VP_CHECK(c, (X == Before) == (S == Was) && (X != Before) == (S != Was), "equal", "comparison of " + show(S) + " and " + show(Was));
      state(X, S);
    }
    c.distinct(In); c.sample(In);
  }
};

template<class D, int... I> const Table<D> &table() {
  static const Table<D> *T = [] { auto *X = new Table<D>; X->template all<I...>(); return X; }();
  return *T;
}
template<class D, int... I> void run(vp::Case &c) {
  static VP_TLS Table<D> *Base = nullptr;
  if (!Base) { Base = new Table<D>; Base->template all<I...>(); }
  Checker<D> K(c, *Base);
  if (c.Index < 16) K.statics();
  K.history(1 + (int)c.R.size(25));
}
template<class D, int A, int B, int C, int... I> void run3(vp::Case &c) {
  static VP_TLS Table<D> *Base = nullptr;
  if (!Base) { Base = new Table<D>; Base->template all<I...>(); Base->template three<A, B, C>(); Base->template three<B, C, A>(); Base->template three<C, A, B>(); Base->template three<A, C, C>(); }
  Checker<D> K(c, *Base);
  if (c.Index < 16) K.statics();
  K.history(1 + (int)c.R.size(25));
}
// As many traits as a key can hold: alternatives, unions and single traits.
typedef bcl::TraitDescriptor<
  Alt<Tr<0>, Tr<1>, Tr<2>, Tr<3>, Tr<4>, Tr<5>, Tr<6>, Tr<7>>, Alt<U<8, 9, 10>, U<11, 12, 9>, Tr<13>, U<14, 15, 8>>,
  Tr<16>, Tr<17>, U<18, 19, 20, 21, 22, 23>, Alt<U<24, 25>, U<25, 26>, U<26, 27>, U<27, 28>, U<28, 29>, U<29, 30>, U<30, 31>>,
  Tr<32>, Alt<Tr<33>, Tr<34>, U<35, 36, 37, 38, 39>>, Alt<U<40, 41, 42, 43>, U<44, 45, 46, 47>>, U<48, 49, 50, 51>,
  Tr<52>, Tr<53>, Tr<54>, Tr<55>, Alt<Tr<56>, Tr<57>, Tr<58>>, Alt<U<59, 60>, U<60, 61>>, Tr<62>, Tr<63>> DFull;
}

#if PART == 0
VP_FAMILY("T01.example", 3000, 100000) { run3<DExample, 0, 1, 2, 0, 1, 2, 3>(c); }
VP_FAMILY("T01.singles", 2000, 50000) { run3<DSingles, 0, 2, 4, 0, 1, 2, 3, 4>(c); }
VP_FAMILY("T01.one", 200, 2000) { run<DOne, 9>(c); }
VP_MAIN
#elif PART == 1
VP_FAMILY("T01.alternatives", 3000, 100000) { run3<DAlternatives, 6, 7, 4, 0, 1, 2, 3, 4, 5, 6, 7>(c); }
#elif PART == 2
VP_FAMILY("T01.unions", 3000, 100000) { run3<DUnions, 1, 4, 5, 0, 1, 2, 3, 4, 5, 6>(c); }
#elif PART == 3
VP_FAMILY("T01.overlap", 3000, 100000) { run3<DOverlap, 5, 6, 7, 0, 1, 2, 3, 4, 5, 6, 7, 8>(c); }
#elif PART == 4
VP_FAMILY("T01.mixed", 3000, 100000) { run3<DMixed, 1, 5, 7, 0, 1, 2, 3, 4, 5, 6, 7, 8>(c); }
#elif PART == 5
namespace { template<int... I> Table<DFull> *full(std::integer_sequence<int, I...>) {
  auto *T = new Table<DFull>; (T->template one<I>(), ...);
  T->two<0, 7>(); T->two<8, 63>(); T->two<31, 24>(); T->two<9, 11>(); T->two<35, 39>(); T->two<62, 63>();
  return T; } }
VP_FAMILY("T01.full", 600, 20000) {
  static Table<DFull> *T = full(std::make_integer_sequence<int, 64>());
  Checker<DFull> K(c, *T);
  if (c.Index < 16) K.statics();
  K.history(1 + (int)c.R.size(40));
}
#endif
