// T02: trait sets own descriptions. T03: transfer between trait collections and maps of traits.
#include "trait.h"

namespace {
using bcl::tagged;
typedef bcl::TypeList<> NoTags;
typedef bcl::TypeList<tagged<Other<1>, Tr<1>>, tagged<Other<2>, Tr<2>>, tagged<Other<0>, Tr<0>>, tagged<Other<6>, Tr<6>, Tr<4>>> SomeTags;
typedef std::map<Key, void *> OrderedMap;
typedef std::unordered_map<Key, void *> HashMap;
VP_TLS long Serial = 0;

template<class S> struct DescOf;
template<class D, class M, class T> struct DescOf<bcl::TraitSet<D, M, T>> { typedef D Type; };

template<class S> struct SetTable {
  typedef typename DescOf<S>::Type D;
  struct One {
    void (*Set)(S &); Description *(*SetNew)(S &); void (*SetNull)(S &); void (*SetSame)(S &); void (*Unset)(S &);
    bool (*Is)(const S &); bool (*IsAny)(const S &); const Description *(*Get)(S &); const Description *(*GetConst)(const S &); Description *(*Release)(S &);
    std::vector<int> (*Conflicts)(const S &); std::vector<int> (*Group)(const S &); bool (*DIs)(const D &); void (*DSet)(D &);
  };
  struct Two { void (*Set)(S &); void (*Unset)(S &); bool (*Is)(const S &); bool (*IsAny)(const S &); };
  std::map<int, One> Ones; std::map<std::pair<int, int>, Two> Twos;
  template<int I> void one() {
    typedef Tr<I> T;
    typedef typename std::remove_pointer<decltype(std::declval<S &>().template get<T>())>::type V;
    One O;
    O.Set = [](S &X) { X.template set<T>(); };
    O.SetNew = [](S &X) -> Description * { auto *P = new V; P->Of = I; P->Serial = ++Serial; X.template set<T>(P); return P; };
    O.SetNull = [](S &X) { X.template set<T>(nullptr); };
    O.SetSame = [](S &X) { X.template set<T>(X.template get<T>()); };
    O.Unset = [](S &X) { X.template unset<T>(); };
    O.Is = [](const S &X) { return X.template is<T>(); };
    O.IsAny = [](const S &X) { return X.template is_any<T>(); };
    O.Get = [](S &X) -> const Description * { return X.template get<T>(); };
    O.GetConst = [](const S &X) -> const Description * { return X.template get<T>(); };
    O.Release = [](S &X) -> Description * { return X.template release<T>(); };
    O.Conflicts = [](const S &X) { std::vector<int> R; Ids F{&R}; X.template for_each_conflict<T>(F); F.end(); return R; };
    O.Group = [](const S &X) { std::vector<int> R; X.template for_each_in_group<T>(Collect{R}); return R; };
    O.DIs = [](const D &X) { return X.template is<T>(); };
    O.DSet = [](D &X) { X.template set<T>(); };
    Ones[I] = O;
  }
  template<int I, int J> void two() {
    typedef Tr<I> A; typedef Tr<J> B;
    Twos[{I, J}] = {[](S &X) { X.template set<A, B>(); }, [](S &X) { X.template unset<A, B>(); }, [](const S &X) { return X.template is<A, B>(); }, [](const S &X) { return X.template is_any<A, B>(); }};
  }
  template<int I, int... J> void row() { one<I>(); (two<I, J>(), ...); }
  template<int... I> void all() { (row<I, I...>(), ...); }
  template<int... I> static const SetTable &get() { static SetTable *T = [] { auto *X = new SetTable; X->template all<I...>(); return X; }(); return *T; }
};

struct Model { Set S; std::map<int, const Description *> D; };

// A description is of a type of its own for some traits; the right object is
// deleted as the right type or ASan complains about its size.
template<class S, int... I> void ownership(vp::Case &c) {
  typedef typename DescOf<S>::Type D;
  auto &T = SetTable<S>::template get<I...>();
  const Decl M = DeclOf<D>::make();
  auto &R = c.R;
  VP_CHECK(c, Description::live().empty(), "harness", "objects of an earlier case");
  {
    const int N = 3;
    std::unique_ptr<S> Pool[N]; Model Want[N];
    std::vector<std::unique_ptr<Description>> Mine; // released to the caller
    // (descriptions have no virtual destructor: how to delete them is kept)
    std::vector<std::function<void()>> Dispose;
    std::string In;
    for (auto &P : Pool) P.reset(new S);
    auto drop = [&](Model &X, int Tr) { X.D.erase(Tr); };
    auto setModel = [&](Model &X, int Tr) { for (auto It = X.D.begin(); It != X.D.end();) if (M.conflict(It->first, Tr)) It = X.D.erase(It); else ++It; M.set(X.S, Tr); };
    auto drawDesc = [&](Set &To) { D X; for (int K = 0; K < 3; ++K) { int Q = R.pick(M.Ids); T.Ones.at(Q).DSet(X); M.set(To, Q); } return X; };
    std::set<const Description *> Released;
    int Steps = 1 + (int)R.size(30);
    for (int Step = 0; Step < Steps; ++Step) {
      int P = (int)R.below(N), Q = (int)R.below(N), A = R.pick(M.Ids), B = R.pick(M.Ids);
      S &X = *Pool[P]; Model &W = Want[P];
      auto &O = T.Ones.at(A);
      std::string Say;
      auto say = [&](const std::string &Z) { In += Z + "; "; c.input(In); };
      switch (R.below(16)) {
      case 0: case 1: say(vp::fmt("%d.set %d", P, A)); O.Set(X); setModel(W, A); break;
      case 2: case 3: case 4: { say(vp::fmt("%d.set %d new", P, A)); auto *V = O.SetNew(X); if (W.D.count(A)) c.count("replaced"); size_t Had = W.D.size(); setModel(W, A); if (W.D.size() < Had) c.count("displaced"); W.D[A] = V; c.count("attached"); break; }
      case 5: say(vp::fmt("%d.set %d null", P, A)); O.SetNull(X); setModel(W, A); drop(W, A); break;
      case 6: say(vp::fmt("%d.set %d same", P, A)); O.SetSame(X); setModel(W, A); c.count("same"); break;
      case 7: say(vp::fmt("%d.unset %d", P, A)); O.Unset(X); W.S.erase(A); if (W.D.count(A)) c.count("unset_described"); drop(W, A); break;
      case 8: say(vp::fmt("%d.unset %d,%d", P, A, B)); T.Twos.at({A, B}).Unset(X); for (int Z : {A, B}) { W.S.erase(Z); drop(W, Z); } break;
      case 9: say(vp::fmt("%d.set %d,%d", P, A, B)); T.Twos.at({A, B}).Set(X);
        if (M.compatible({A, B})) { setModel(W, A); setModel(W, B); }
        else { // one of them at most stays; which one is not said
          setModel(W, A); setModel(W, B); W.S.erase(A); W.S.erase(B); drop(W, A); drop(W, B);
          bool HasA = T.Ones.at(A).Is(X), HasB = T.Ones.at(B).Is(X);
          VP_CHECK(c, !(HasA && HasB), "set-both", "conflicting traits are set together");
          if (HasA) W.S.insert(A); if (HasB) W.S.insert(B);
          const Description *GA = T.Ones.at(A).Get(X), *GB = T.Ones.at(B).Get(X);
          if (GA && HasA) W.D[A] = GA; if (GB && HasB) W.D[B] = GB;
        }
        break;
      case 10: { say(vp::fmt("%d.release %d", P, A)); Description *V = O.Release(X);
        auto It = W.D.find(A);
        VP_CHECK(c, V == (It == W.D.end() ? nullptr : It->second), "release", vp::fmt("release of %d", A));
        if (V) { VP_CHECK(c, Description::live().count(V) && V->Of == A, "release", "a dead description"); Released.insert(V); Dispose.push_back([V] { (void)V; }); c.count("released"); } else c.count("released_nothing");
        drop(W, A); break; }
      case 11: if (R.chance(1, 3)) { say(vp::fmt("%d.unset_all", P)); X.unset_all(); W = Model(); } break;
      case 12: if (P != Q) { say(vp::fmt("%d = move %d", P, Q)); X = std::move(*Pool[Q]); if (!W.D.empty()) c.count("overwritten"); W = Want[Q]; c.count("move_assigned"); }
        else { say(vp::fmt("%d = move itself", P)); S &Y = X; X = std::move(Y); c.count("self_move"); }
        if (P != Q) { Want[Q] = Model(); for (auto &Z : T.Ones) if (Z.second.Is(*Pool[Q])) Want[Q].S.insert(Z.first); }
        break;
      case 13: if (P != Q) { say(vp::fmt("%d(move %d)", P, Q)); S *Y = new S(std::move(*Pool[Q])); Pool[P].reset(Y); W = Want[Q]; c.count("move_constructed"); Want[Q] = Model(); for (auto &Z : T.Ones) if (Z.second.Is(*Pool[Q])) Want[Q].S.insert(Z.first); }
        break;
      case 14: { Set F; D Y = drawDesc(F);
        if (R.chance(1, 2)) { say(vp::fmt("%d = %s", P, show(F).c_str())); const D Z(Y); if (R.chance(1, 2)) X = Z; else X = std::move(Y); }
        else { say(vp::fmt("%d(%s)", P, show(F).c_str())); const D Z(Y); Pool[P].reset(R.chance(1, 2) ? new S(Z) : new S(std::move(Y))); }
        W = Model(); W.S = F; c.count("from_descriptor"); break; }
      case 15: { say(vp::fmt("swap %d %d", P, Q)); if (P != Q) { std::swap(*Pool[P], *Pool[Q]); std::swap(Want[P], Want[Q]); } break; }
      }
      // What is alive is what the sets own and what was released, nothing else.
      std::set<const Description *> Alive = Released;
      for (auto &Z : Want) for (auto &E : Z.D) Alive.insert(E.second);
      VP_CHECK(c, Description::live() == Alive, "lifetime", vp::fmt("%zu descriptions are alive instead of %zu", Description::live().size(), Alive.size()));
      for (int K = 0; K < N; ++K) {
        S &Y = *Pool[K]; const S &CY = Y;
        Set Real;
        for (auto &E : T.Ones) {
          bool In = Want[K].S.count(E.first) != 0;
          VP_CHECK(c, E.second.Is(CY) == In && E.second.IsAny(CY) == In, "is", vp::fmt("%d in set %d", E.first, K));
          auto It = Want[K].D.find(E.first);
          const Description *V = It == Want[K].D.end() ? nullptr : It->second;
          VP_CHECK(c, E.second.Get(Y) == V && E.second.GetConst(CY) == V, "get", vp::fmt("description of %d in set %d", E.first, K));
          if (V) VP_CHECK(c, V->Of == E.first && *V->Heap == 0, "get", vp::fmt("description of %d is that of %d", E.first, V->Of));
          if (V) c.count("descriptions");
        }
        std::vector<int> V; Ids F{&V}; CY.for_each(F); F.end();
        VP_CHECK(c, once(c, V, "for-each") == Want[K].S, "for-each", show(Set(V.begin(), V.end())) + " instead of " + show(Want[K].S));
        D DD = CY.get(); D DI = CY;
        VP_CHECK(c, DD == DI, "descriptor", "get and the conversion differ");
        for (auto &E : T.Ones) VP_CHECK(c, E.second.DIs(DD) == (Want[K].S.count(E.first) != 0), "descriptor", vp::fmt("%d", E.first));
        std::ostringstream A1, A2; CY.print(A1); DD.print(A2);
        VP_CHECK(c, A1.str() == A2.str(), "print", A1.str());
        int E = R.pick(M.Ids); Set Cf, Gr = M.members(E);
        for (int Z : Want[K].S) if (M.conflict(Z, E)) Cf.insert(Z);
        for (auto I2 = Gr.begin(); I2 != Gr.end();) if (!Want[K].S.count(*I2)) I2 = Gr.erase(I2); else ++I2;
        VP_CHECK(c, once(c, T.Ones.at(E).Conflicts(CY), "conflicts") == Cf && once(c, T.Ones.at(E).Group(CY), "group") == Gr, "conflicts", vp::fmt("%d", E));
      }
      c.count("states");
    }
    std::vector<int> V; S::for_each_available(Collect{V});
    VP_CHECK(c, once(c, V, "available") == M.All, "available", "");
    for (auto &P : Pool) { P.reset(); }
    VP_CHECK(c, Description::live() == Released, "lifetime", vp::fmt("%zu descriptions outlive the sets, %zu were released", Description::live().size(), Released.size()));
    // Only the caller knows the types of what it was given.
    for (auto *V : Released) { (void)(((V->Of == I) ? (delete static_cast<typename std::remove_pointer<decltype(std::declval<S &>().template get<Tr<I>>())>::type *>(const_cast<Description *>(V)), true) : false) || ...); }
    c.distinct(In); c.sample(In);
  }
  VP_CHECK(c, Description::live().empty(), "lifetime", "descriptions are left");
}
}

#if PART == 0
VP_FAMILY("T02.example", 5000, 150000) { ownership<bcl::TraitSet<DExample, OrderedMap>, 0, 1, 2, 3>(c); }
VP_FAMILY("T02.singles", 4000, 150000) { ownership<bcl::TraitSet<DSingles, HashMap, SomeTags>, 0, 1, 2, 3, 4>(c); }
VP_MAIN
#elif PART == 1
VP_FAMILY("T02.alternatives", 5000, 150000) { ownership<bcl::TraitSet<DAlternatives, OrderedMap, SomeTags>, 0, 1, 2, 3, 4, 5, 6, 7>(c); }
#elif PART == 2
VP_FAMILY("T02.overlap", 5000, 150000) { ownership<bcl::TraitSet<DOverlap, HashMap, NoTags>, 0, 1, 2, 3, 4, 5, 6, 7, 8>(c); }
#elif PART == 3
VP_FAMILY("T02.mixed", 5000, 150000) { ownership<bcl::TraitSet<DMixed, OrderedMap, SomeTags>, 0, 1, 2, 3, 4, 5, 6, 7, 8>(c); }
#endif
