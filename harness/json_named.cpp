// J05: documents with an identifying name.
#include "json_model.h"
JSON_OBJECT_BEGIN(Alpha)
JSON_OBJECT_ROOT_PAIR_3(Alpha, Id, int, Text, std::string, Sub, RPrefix)
  Alpha() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Alpha)
JSON_DEFAULT_TRAITS(::, Alpha)
JSON_OBJECT_BEGIN(Alp)
JSON_OBJECT_ROOT_PAIR_3(Alp, Id, int, Text, std::string, List, std::vector<RPlain>)
  Alp() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Alp)
JSON_DEFAULT_TRAITS(::, Alp)
JSON_OBJECT_BEGIN(Beta)
JSON_OBJECT_ROOT_PAIR(Beta, Dict, MapStrInt)
  Beta() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Beta)
JSON_DEFAULT_TRAITS(::, Beta)
JSON_OBJECT_BEGIN(Ptr_)
JSON_OBJECT_ROOT_PAIR_2(Ptr_, P, int *, Q, char *)
  Ptr_() : JSON_INIT_ROOT { (*this)[P] = nullptr; (*this)[Q] = nullptr; }
JSON_OBJECT_END(Ptr_)
JSON_DEFAULT_TRAITS(::, Ptr_)
JSON_OBJECT_BEGIN(Other)
JSON_OBJECT_ROOT_PAIR(Other, Id, int)
  Other() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Other)
JSON_DEFAULT_TRAITS(::, Other)
namespace jm {
VP_FIELDS(Alpha, false, VP_F(Id) VP_F(Text) VP_F(Sub))
VP_FIELDS(Alp, false, VP_F(Id) VP_F(Text) VP_F(List))
VP_FIELDS(Beta, false, VP_F(Dict))
VP_FIELDS(Ptr_, true, VP_F(P) VP_F(Q))
VP_FIELDS(Other, false, VP_F(Id))
}
using namespace jm;
using P5 = json::Parser<Alpha, Alp, Beta, Ptr_>;
using Roots = TyList<Alpha, Alp, Beta, Ptr_>;

static size_t typeOf(const json::Object &O) {
  size_t N = 0, I = 99;
  if (O.is<Alpha>()) { I = 0; ++N; }
  if (O.is<Alp>()) { I = 1; ++N; }
  if (O.is<Beta>()) { I = 2; ++N; }
  if (O.is<Ptr_>()) { I = 3; ++N; }
  return N == 1 ? I : 98;
}
static const char *const Keys[] = {"name", "name", "name", "kind", "Name", "na\"me\\", "", "n"};

// A document of an object of type T with a name (or what is given instead of it).
template<class T> static std::string document(vp::Case &c, const T &V, const char *Key, const Dom *Name, Dom *Whole = nullptr) {
  auto &R = c.R;
  Dom D = Model<T>::dom(V, R);
  // Unknown fields whose content has the identifying key with other names.
  unsigned Extra = R.below(3);
  while (Extra--) {
    Dom X; X.K = Dom::Obj;
    static const char *N[] = {"Alpha", "Alp", "Beta", "Ptr_", "Gamma"};
    X.O.emplace_back(Key, Dom::str(N[R.below(5)]));
    Dom Y = X;
    if (R.chance(1, 2)) { Y = Dom(); Y.K = Dom::Arr; Y.A.push_back(X); Y.A.push_back(Dom::str(Key)); Y.A.push_back(X); }
    if (R.chance(1, 3)) Y = Dom::str(Key);
    if (R.chance(1, 6)) Y = Dom::str(N[R.below(5)]);
    D.O.insert(D.O.begin() + R.below(D.O.size() + 1), {vp::fmt("extra%u", (unsigned)R.below(3)), Y});
    c.count("nested_names");
  }
  for (size_t I = D.O.size(); I > 1; --I) std::swap(D.O[I - 1], D.O[R.below(I)]);
  if (Name) {
    size_t At = R.below(D.O.size() + 1);
    D.O.insert(D.O.begin() + At, {Key, *Name});
    c.member("name_positions", At * 16 + D.O.size());
  }
  D.T = Dom::None;
  Enc E{R, true, true, {}}; E.dom(D);
  return layout(E.T, R);
}
template<class T> static void dispatch(vp::Case &c) {
  const char *Key = Keys[c.R.below(8)];
  Own<T> V; V.V = Model<T>::gen(c.R);
  Dom Name = Dom::str(T::name());
  std::string J = document(c, V.V, Key, &Name);
  c.input(J);
  P5 P(J, Key);
  for (int I = 0; I < 2; ++I) {
    auto O = P.parse();
    VP_CHECK(c, O, "rejected", errorsOf(P.errors()));
    VP_CHECK(c, !P.hasErrors(), "errors", errorsOf(P.errors()));
    VP_CHECK(c, typeOf(*O) != 98 && O->is<T>() && O->getName() == T::name() && dynamic_cast<T *>(O.get()), "type", O->getName());
    bool Eq = Model<T>::eq(O->as<T>(), V.V);
    std::string Got = json::Parser<>::unparse(O->as<T>());
    Model<T>::release(O->as<T>());
    VP_CHECK(c, Eq, "contents", Got);
  }
  c.distinct(J);
  c.sample(J);
  c.count("dispatched");
}
template<class T> static void refuse(vp::Case &c) {
  auto &R = c.R;
  const char *Key = Keys[R.below(8)];
  Own<T> V; V.V = Model<T>::gen(R);
  Dom Name; const char *What;
  Dom *PN = &Name;
  switch (R.below(4)) {
  case 0: PN = nullptr; What = "missing"; break;
  case 1: { static const char *N[] = {"Gamma", "alpha", "Alpha ", " Alpha", "Alph", "Al", "", "AlphaAlpha", "Alpha\n", "Other", "name", "BETA", "\"Beta\"", "Ptr", "Alpha\\"};
    Name = Dom::str(N[R.below(15)]); if (R.chance(1, 8)) Name.S = std::string("Beta") + '\0'; What = "unknown"; break; }
  case 2: { static const char *N[] = {"1", "null", "true", "{}", "[\"Alpha\"]", "{\"name\":\"Beta\"}", "-1.5", "[]"}; Name.Raw = true; Name.S = N[R.below(8)]; What = "not_a_string"; break; }
  default: Name = Dom::str(T::name()); What = "broken";
  }
  std::string J = document(c, V.V, Key, PN);
  if (!strcmp(What, "broken")) {
    size_t End = J.find_last_not_of(" \t\r\n");
    J.resize(R.below(End + 1));
  }
  c.input(J);
  P5 P(J, Key);
  auto O = P.parse();
  if (O) { std::string N = O->getName(); c.fail(What, "an object is returned: " + N); }
  VP_CHECK(c, P.hasErrors(), "no_error", What);
  c.count(What);
  c.distinct(J);
}
template<class T> static void serialize(vp::Case &c) {
  auto &R = c.R;
  const char *Key = Keys[R.below(8)];
  Own<T> V; V.V = Model<T>::gen(R);
  const json::Object &B = V.V;
  std::string J = P5::unparse(B, Key), J2 = P5::unparseAsObject(V.V, Key);
  c.input(J);
  VP_CHECK(c, J == J2, "unparse", J2);
  Reader Rd(J); Dom D;
  VP_CHECK(c, Rd.document(D), "malformed", Rd.Err);
  VP_CHECK(c, Model<T>::denotes(D, V.V, 1), "denotes", "");
  size_t N = 0;
  for (auto &E : D.O) if (E.first == Key) { ++N; VP_CHECK(c, E.second.K == Dom::Str && E.second.S == T::name(), "name", ""); }
  VP_CHECK(c, N == 1, "name", "");
  P5 P(J, Key);
  auto O = P.parse();
  VP_CHECK(c, O && !P.hasErrors(), "rejected", errorsOf(P.errors()));
  bool Eq = O->is<T>() && Model<T>::eq(O->as<T>(), V.V);
  if (O->is<T>()) Model<T>::release(O->as<T>());
  VP_CHECK(c, Eq, "contents", "");
  // A type which is not registered is not serialized as another one.
  Other X; X[Other::Id] = 1;
  VP_CHECK(c, P5::unparse(static_cast<const json::Object &>(X)).empty(), "unregistered", "");
  // The same text without a name, as a plain value.
  std::string K = P5::unparse(V.V);
  Reader Rk(K); Dom Dk;
  VP_CHECK(c, Rk.document(Dk) && Model<T>::denotes(Dk, V.V), "plain", K);
  c.distinct(J);
  c.count("serialized");
}
VP_FAMILY("J05.dispatch", 20000, 500000) { c.member("types", Roots::with(c.Index, [&](auto T) { dispatch<typename decltype(T)::type>(c); })); }
// What a broken document has left in raw pointers is not the workload's concern.
VP_FAMILY("J05.refuse", 20000, 500000) { Roots::with(c.Index, [&](auto T) { using U = typename decltype(T)::type; if constexpr (!Model<U>::HasPtr) refuse<U>(c); }); }
VP_FAMILY_NOLEAK("J05.refuse_pointers", 3000, 50000) { refuse<Ptr_>(c); }
VP_FAMILY("J05.serialize", 20000, 500000) { Roots::with(c.Index, [&](auto T) { serialize<typename decltype(T)::type>(c); }); }
VP_MAIN
