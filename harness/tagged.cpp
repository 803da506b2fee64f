// P03: tagged pairs and tuples.
#include "vp.h"
#include <bcl/tagged.h>
#include <bcl/convertible_pair.h>
#include <bcl/tuple_utils.h>
#include <algorithm>

namespace {
using bcl::tagged; using bcl::tagged_pair; using bcl::tagged_tuple;
template<int I> struct G { static const int Id = I; };  // tags
template<int I> const int G<I>::Id;
typedef std::vector<int> Ints;
std::string show(int X) { return std::to_string(X); }
std::string show(long long X) { return std::to_string(X); }
std::string show(double X) { return vp::fmt("%.17g", X); }
std::string show(const std::string &X) { return X; }
std::string show(const Ints &X) { std::string S = "v"; for (int E : X) S += vp::fmt("%d,", E); return S; }
std::string show(const std::shared_ptr<int> &X) { return X ? std::to_string(*X) : "null"; }
std::string show(const std::unique_ptr<int> &X) { return X ? std::to_string(*X) : "null"; }
void draw(vp::Rng &R, int &X) { X = (int)R.next(); }
void draw(vp::Rng &R, long long &X) { X = (long long)R.next(); }
void draw(vp::Rng &R, double &X) { X = (double)(int)R.next() / 7; }
void draw(vp::Rng &R, std::string &X) { X = std::string(R.below(40), 'a' + (char)R.below(26)); }
void draw(vp::Rng &R, Ints &X) { X.assign(R.below(5), (int)R.below(1000)); }
void draw(vp::Rng &R, std::shared_ptr<int> &X) { X = std::make_shared<int>((int)R.below(1000)); }
template<class T> T make(vp::Rng &R) { T X; draw(R, X); return X; }
typedef std::vector<std::string> Texts;

struct Seen { std::vector<int> Tags; std::vector<const void *> Values; Ints Aliases; };
struct Visit {
  Seen &S; int N = 0; // a function with a state of its own
  template<class T, class V> void operator()(V &X) { ++N; static_assert(bcl::is_tagged<T>::value, ""); S.Tags.push_back(+T::tag::Id); S.Values.push_back(&X); S.Aliases.push_back((int)T::alias::size_of()); }
};
struct Change { vp::Rng &R; Texts &Out; template<class T, class V> void operator()(V &X) { draw(R, X); Out.push_back(show(X)); } };

// A tuple T; Acc(tag id) gives the position of an element.
template<class T, int Pos, class Tag> void one(vp::Case &c, T &X) {
  const T &CX = X;
  typedef typename T::tuple Tuple; typedef typename std::tuple_element<Pos, Tuple>::type E;
  E &R = X.template get<Tag>(); const E &CR = CX.template get<Tag>();
  VP_CHECK(c, &R == &std::get<Pos>(static_cast<Tuple &>(X)) && &CR == &R, "get", vp::fmt("the element at %d by its tag %d", Pos, Tag::Id));
  VP_CHECK(c, (std::is_same<typename bcl::tagged_tuple_element<Tag, T>::type, E>::value), "element-type", vp::fmt("at %d", Pos));
  VP_CHECK(c, (bcl::tagged_tuple_idx<Tag, T>::value == Pos), "index", vp::fmt("of tag %d", Tag::Id));
  c.count("accesses");
}
template<class T> Texts texts(const T &X) { return std::apply([](auto &...E) { return Texts{show(E)...}; }, static_cast<const typename T::tuple &>(X)); }
template<class T> std::vector<const void *> addresses(const T &X) { return std::apply([](auto &...E) { return std::vector<const void *>{&E...}; }, static_cast<const typename T::tuple &>(X)); }
template<class T> struct Tags; // main tags in order
template<class... X> struct Tags<tagged_tuple<X...>> { static Ints get() { return {+X::tag::Id...}; } static Ints aliases() { return {(int)X::alias::size_of()...}; } };
template<class T, size_t... I> Ints tagsByIndex(std::index_sequence<I...>) { return {+bcl::tagged_tuple_tag<I, T>::type::Id...}; }

template<class T, class Check> void history(vp::Case &c, const char *Name, Check All) {
  typedef typename T::tuple Tuple; constexpr size_t N = std::tuple_size<Tuple>::value;
  auto &R = c.R; std::string In = Name;
  VP_CHECK(c, bcl::tagged_tuple_size<T>::value == N && bcl::tagged_tuple_empty<T>::value == (N == 0), "size", "");
  VP_CHECK(c, tagsByIndex<T>(std::make_index_sequence<N>()) == Tags<T>::get(), "tag-at-index", "");
  auto check = [&](T &X, const Texts &Want, const char *What) {
    const T &CX = X;
    VP_CHECK(c, texts(X) == Want, "value", What);
    All(X);
    for (int Mode = 0; Mode < 4; ++Mode) {
      Seen S; Visit F{S};
      if (Mode == 0) bcl::for_each(X, F); else if (Mode == 1) bcl::for_each(CX, F); else if (Mode == 2) bcl::for_each(X, Visit{S}); else bcl::for_each(CX, Visit{S});
      VP_CHECK(c, F.N == (Mode < 2 ? (int)N : 0), "visit-state", What);
      VP_CHECK(c, S.Tags == Tags<T>::get() && S.Values == addresses(X) && S.Aliases == Tags<T>::aliases(), "visit", What);
    }
  };
  Tuple V; Texts Want;
  std::apply([&](auto &...E) { (draw(R, E), ...); Want = {show(E)...}; }, V);
  T X; 
  int How = (int)R.below(4); In += vp::fmt(" %d", How);
  if (How == 0) { T Y(V); X = Y; check(Y, Want, "from a tuple"); }
  else if (How == 1) { Tuple C = V; T Y(std::move(C)); check(Y, Want, "from a temporary tuple"); X = std::move(Y); }
  else if (How == 2) { T Y = std::apply([](auto &...E) { return T(E...); }, V); check(Y, Want, "from elements"); X = Y; }
  else X = V;
  check(X, Want, "constructed");
  for (size_t S = 1 + R.size(6); S-- > 0;) {
    switch (R.below(5)) {
    case 0: { Want.clear(); Change F{R, Want}; bcl::for_each(X, F); In += " change"; c.count("changed_by_visit"); break; }
    case 1: { Tuple C; Texts W; std::apply([&](auto &...E) { (draw(R, E), ...); W = {show(E)...}; }, C); if (R.chance(1, 2)) X = C; else X = std::move(C); Want = W; In += " assign"; break; }
    case 2: { T Y(X); const T CY(X); T Z(CY); check(Y, Want, "copy"); check(Z, Want, "copy of a constant"); Texts W; Change F{R, W}; bcl::for_each(Y, F); check(Y, W, "changed copy"); X = Y; Want = W; In += " copy"; c.count("copies"); break; }
    case 3: { T Y(std::move(X)); check(Y, Want, "moved"); X = std::move(Y); In += " move"; break; }
    case 4: { T Y; Texts W; Change F{R, W}; bcl::for_each(Y, F); std::swap(X, Y); check(Y, Want, "swapped"); Want = W; In += " swap"; break; }
    }
    c.input(In); check(X, Want, "later");
  }
  for (auto &E : Want) In += "=" + E;
  c.distinct(In); c.sample(In); c.count("tuples");
}
typedef tagged_tuple<tagged<int, G<0>>> T1;
typedef tagged_tuple<tagged<int, G<0>>, tagged<int, G<1>>, tagged<int, G<2>>> TSame;
typedef tagged_tuple<tagged<std::string, G<0>, G<10>, G<11>>, tagged<double, G<1>>, tagged<std::string, G<2>, G<12>>> TAlias;
typedef tagged_tuple<tagged<int, G<3>>, tagged<std::string, G<1>, G<5>>, tagged<Ints, G<2>>, tagged<long long, G<0>, G<7>, G<8>>, tagged<std::string, G<4>>, tagged<double, G<6>>, tagged<std::shared_ptr<int>, G<9>>> TMany;
typedef bcl::tags::get_tagged_tuple_t<int, G<4>, G<2>, G<9>> TGet;
typedef bcl::tags::get_tagged_tuple_t<std::string, bcl::TypeList<G<1>, G<0>, G<3>, G<2>>> TGetList;
typedef tagged_tuple<bcl::add_alias_tagged<tagged<int, G<0>>, G<6>, G<7>>, bcl::add_alias_list_tagged<tagged<double, G<1>, G<5>>, bcl::TypeList<G<8>, G<9>>>, bcl::add_alias_tagged<std::string, G<2>, G<4>>> TAdded;

template<class P, class X1, class X2> struct Pos { };
// Pairs.
template<class P, bool First, class Tag> void onePair(vp::Case &c, P &X) {
  const P &CX = X; auto &E = X.template get<Tag>(); auto &CE = CX.template get<Tag>();
  VP_CHECK(c, (const void *)&E == (First ? (const void *)&X.first : (const void *)&X.second) && &CE == &E, "get-pair", vp::fmt("tag %d", Tag::Id));
  VP_CHECK(c, !std::is_const<std::remove_reference_t<decltype(X.template get<Tag>())>>::value && std::is_const<std::remove_reference_t<decltype(CX.template get<Tag>())>>::value, "get-pair", vp::fmt("an element may not be changed, or a constant one may; tag %d", Tag::Id)); c.count("accesses");
}
template<class P, class Check> void pairs(vp::Case &c, const char *Name, Check All) {
  auto &R = c.R; typedef typename P::first_type A; typedef typename P::second_type B; typedef std::pair<A, B> Std;
  A A0 = make<A>(R); B B0 = make<B>(R); std::string WA = show(A0), WB = show(B0), In = Name;
  auto check = [&](P &X, const std::string &VA, const std::string &VB, const char *What) { VP_CHECK(c, show(X.first) == VA && show(X.second) == VB, "pair-value", What); All(X); };
  P X;
  switch (R.below(5)) {
  case 0: { P Y(A0, B0); check(Y, WA, WB, "from elements"); X = Y; break; }
  case 1: { A A1 = A0; B B1 = B0; P Y(std::move(A1), std::move(B1)); check(Y, WA, WB, "from temporary elements"); X = std::move(Y); break; }
  case 2: { Std S(A0, B0); P Y(S); check(Y, WA, WB, "from a pair"); X = Y; VP_CHECK(c, show(S.first) == WA, "pair-value", "the source is changed"); break; }
  case 3: { X = Std(A0, B0); break; }
  case 4: { P Y(std::piecewise_construct, std::forward_as_tuple(A0), std::forward_as_tuple(B0)); check(Y, WA, WB, "piecewise"); X = std::move(Y); break; }
  }
  check(X, WA, WB, "constructed");
  for (size_t S = R.size(6); S-- > 0;) {
    switch (R.below(4)) {
    case 0: draw(R, X.first); WA = show(X.first); In += " first"; break;
    case 1: { P Y(X); const P CY(X); P Z(CY); draw(R, Y.first); draw(R, Y.second); std::string NA = show(Y.first), NB = show(Y.second); check(X, WA, WB, "original"); check(Z, WA, WB, "copy"); X = Y; WA = NA; WB = NB; In += " copy"; c.count("copies"); break; }
    case 2: { P Y(std::move(X)); check(Y, WA, WB, "moved"); X = std::move(Y); break; }
    case 3: { Std T(make<A>(R), make<B>(R)); WA = show(T.first); WB = show(T.second); if (R.chance(1, 2)) X = T; else X = std::move(T); In += " assign"; break; }
    }
    c.input(In); check(X, WA, WB, "later");
  }
  c.distinct(In + WA + "," + WB); c.count("pairs");
}
typedef tagged_pair<tagged<int, G<0>>, tagged<int, G<1>>> P1;
typedef tagged_pair<tagged<std::string, G<0>, G<2>, G<3>>, tagged<std::string, G<1>, G<4>>> P2;
typedef tagged_pair<tagged<double, G<1>>, tagged<Ints, G<0>, G<9>>> P3;
// Pairs that convert to their elements.
template<class A, class B> void convertible(vp::Case &c, const char *Name) {
  typedef bcl::convertible_pair<A, B> P; auto &R = c.R;
  A A0 = make<A>(R); B B0 = make<B>(R); std::string WA = show(A0), WB = show(B0);
  P X(A0, B0); const P CX(X); P Y; Y = std::pair<A, B>(A0, B0);
  A &RA = X; B &RB = X; const A &CA = CX; const B &CB = CX;
  VP_CHECK(c, &RA == &X.first && &RB == &X.second && &CA == &CX.first && &CB == &CX.second, "convert", Name);
  VP_CHECK(c, show(RA) == WA && show(RB) == WB && show(CA) == WA && show(CB) == WB && show((A &)Y) == WA && show((B &)Y) == WB, "convert-value", Name);
  draw(R, RA); X = P(X); Y = X; VP_CHECK(c, show((const A &)Y) == show(X.first) && show((B &)Y) == WB, "convert-value", "assigned");
  c.distinct(WA + WB); c.count("convertible");
}
}

VP_FAMILY("P03.tuples", 6000, 100000) {
  switch (c.R.below(7)) {
  case 0: history<T1>(c, "one", [&](T1 &X) { one<T1, 0, G<0>>(c, X); }); break;
  case 1: history<TSame>(c, "same", [&](TSame &X) { one<TSame, 0, G<0>>(c, X); one<TSame, 1, G<1>>(c, X); one<TSame, 2, G<2>>(c, X); }); break;
  case 2: history<TAlias>(c, "alias", [&](TAlias &X) { one<TAlias, 0, G<0>>(c, X); one<TAlias, 0, G<10>>(c, X); one<TAlias, 0, G<11>>(c, X); one<TAlias, 1, G<1>>(c, X); one<TAlias, 2, G<2>>(c, X); one<TAlias, 2, G<12>>(c, X); }); break;
  case 3: history<TMany>(c, "many", [&](TMany &X) { one<TMany, 0, G<3>>(c, X); one<TMany, 1, G<1>>(c, X); one<TMany, 1, G<5>>(c, X); one<TMany, 2, G<2>>(c, X); one<TMany, 3, G<0>>(c, X); one<TMany, 3, G<7>>(c, X); one<TMany, 3, G<8>>(c, X); one<TMany, 4, G<4>>(c, X); one<TMany, 5, G<6>>(c, X); one<TMany, 6, G<9>>(c, X); }); break;
  case 4: history<TGet>(c, "get", [&](TGet &X) { one<TGet, 0, G<4>>(c, X); one<TGet, 1, G<2>>(c, X); one<TGet, 2, G<9>>(c, X); }); break;
  case 5: history<TGetList>(c, "getlist", [&](TGetList &X) { one<TGetList, 0, G<1>>(c, X); one<TGetList, 1, G<0>>(c, X); one<TGetList, 2, G<3>>(c, X); one<TGetList, 3, G<2>>(c, X); }); break;
  case 6: history<TAdded>(c, "added", [&](TAdded &X) { one<TAdded, 0, G<0>>(c, X); one<TAdded, 0, G<6>>(c, X); one<TAdded, 0, G<7>>(c, X); one<TAdded, 1, G<1>>(c, X); one<TAdded, 1, G<5>>(c, X); one<TAdded, 1, G<8>>(c, X); one<TAdded, 1, G<9>>(c, X); one<TAdded, 2, G<2>>(c, X); one<TAdded, 2, G<4>>(c, X); }); break;
  }
}
VP_FAMILY("P03.pairs", 3000, 60000) {
  switch (c.R.below(3)) {
  case 0: pairs<P1>(c, "ints", [&](P1 &X) { onePair<P1, true, G<0>>(c, X); onePair<P1, false, G<1>>(c, X); }); break;
  case 1: pairs<P2>(c, "strings", [&](P2 &X) { onePair<P2, true, G<0>>(c, X); onePair<P2, true, G<2>>(c, X); onePair<P2, true, G<3>>(c, X); onePair<P2, false, G<1>>(c, X); onePair<P2, false, G<4>>(c, X); }); break;
  case 2: pairs<P3>(c, "mixed", [&](P3 &X) { onePair<P3, true, G<1>>(c, X); onePair<P3, false, G<0>>(c, X); onePair<P3, false, G<9>>(c, X); }); break;
  }
}
VP_FAMILY("P03.convertible", 1000, 20000) {
  switch (c.R.below(3)) { case 0: convertible<int, std::string>(c, "int,string"); break; case 1: convertible<std::string, double>(c, "string,double"); break; case 2: convertible<Ints, std::shared_ptr<int>>(c, "vector,pointer"); break; }
}
// Queries about types, which the compiler answers and the program observes.
VP_FAMILY("P03.queries", 1, 1) {
  typedef tagged<int, G<0>, G<1>, G<2>> A; typedef tagged<double, G<3>> B; typedef tagged<std::string, G<4>, G<5>> C; typedef bcl::TypeList<A, B, C> L;
#define SAME(key, ...) VP_CHECK(c, (std::is_same<__VA_ARGS__>::value), key, #__VA_ARGS__); c.count("queries")
  SAME("type", A::type, int); SAME("tag", A::tag, G<0>); SAME("alias", A::alias, bcl::TypeList<G<0>, G<1>, G<2>>);
  SAME("type", bcl::tagged_t<int, G<0>, G<1>>, int); SAME("tag", bcl::tagged_tag<int, G<0>, G<1>>, G<0>); SAME("alias", bcl::tagged_alias<int, G<0>, G<1>>, bcl::TypeList<G<0>, G<1>>);
  SAME("find", bcl::get_tagged<G<0>, A, B, C>, A); SAME("find", bcl::get_tagged<G<1>, A, B, C>, A); SAME("find", bcl::get_tagged<G<2>, L>, A); SAME("find", bcl::get_tagged<G<3>, L>, B); SAME("find", bcl::get_tagged<G<4>, L>, C); SAME("find", bcl::get_tagged<G<5>, A, B, C>, C);
  SAME("find", bcl::get_tagged<G<6>, A, B, C>, void); SAME("find", bcl::get_tagged<G<6>, L>, void); SAME("find", bcl::get_tagged<G<6>>, void); SAME("find", bcl::get_tagged<G<6>, bcl::TypeList<>>, void);
  SAME("find", bcl::get_tagged_t<G<5>, L>, std::string); SAME("find", bcl::get_tagged_t<G<6>, L>, void); SAME("find", bcl::get_tagged_tag<G<5>, L>, G<4>); SAME("find", bcl::get_tagged_tag<G<6>, L>, void);
  SAME("find", bcl::get_tagged_alias<G<5>, A, B, C>, bcl::TypeList<G<4>, G<5>>); SAME("find", bcl::get_tagged_alias<G<6>, A, B, C>, void);
  SAME("add", bcl::add_alias_tagged<B, G<7>>, tagged<double, G<3>, G<7>>); SAME("add", bcl::add_alias_tagged<A, G<7>, G<8>>, tagged<int, G<0>, G<1>, G<2>, G<7>, G<8>>); SAME("add", bcl::add_alias_tagged<int, G<7>>, tagged<int, G<7>>);
  SAME("add", bcl::add_alias_tagged_t<B, G<7>>, double); SAME("add", bcl::add_alias_tagged_tag<B, G<7>>, G<3>); SAME("add", bcl::add_alias_tagged_alias<B, G<7>>, bcl::TypeList<G<3>, G<7>>);
  SAME("add", bcl::add_alias_list_tagged<B, bcl::TypeList<G<7>, G<8>>>, tagged<double, G<3>, G<7>, G<8>>); SAME("add", bcl::add_alias_list_tagged<B, bcl::TypeList<>>, B);
  SAME("tuple", TGet, tagged_tuple<tagged<int, G<4>>, tagged<int, G<2>>, tagged<int, G<9>>>); SAME("tuple", bcl::tags::get_tagged_tuple_t<int>, tagged_tuple<>);
  SAME("taggeds", TAlias::taggeds, bcl::TypeList<tagged<std::string, G<0>, G<10>, G<11>>, tagged<double, G<1>>, tagged<std::string, G<2>, G<12>>>); SAME("taggeds", P1::taggeds, bcl::TypeList<tagged<int, G<0>>, tagged<int, G<1>>>);
  VP_CHECK(c, bcl::is_tagged<A>::value && bcl::is_tagged<B>::value && !bcl::is_tagged<int>::value && !bcl::is_tagged<L>::value && !bcl::is_tagged<void>::value, "is-tagged", "");
  VP_CHECK(c, (bcl::tags::is_alias<G<0>, A>::value && bcl::tags::is_alias<G<2>, A>::value && !bcl::tags::is_alias<G<3>, A>::value && bcl::tags::is_alias<G<3>, B>::value && !bcl::tags::is_alias<int, A>::value), "is-alias", "");
  tagged_tuple<> E; Seen S; bcl::for_each(E, Visit{S}); const tagged_tuple<> CE; bcl::for_each(CE, Visit{S});
  VP_CHECK(c, S.Tags.empty() && bcl::tagged_tuple_size<tagged_tuple<>>::value == 0 && bcl::tagged_tuple_empty<tagged_tuple<>>::value, "empty", "");
  c.distinct(1);
}
VP_MAIN
