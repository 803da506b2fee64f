// J07: record types of every number of fields.
#include "json_model.h"
namespace jm {
// A value of a type from its text.
template<class T> static T of(const std::string &S) { return (T)strtold(S.c_str(), nullptr); }
}
#include "json_arity_gen.h"
using namespace jm;

struct Typed {
  std::vector<std::string> *Text; vp::Case *C; size_t I; bool Set;
  template<class T, class X> void operator()(const char *N, X &F) {
    VP_CHECK(*C, (std::is_same<T, typename std::remove_const<X>::type>::value), "type", std::string("the field has another type: ") + N);
    if (!Set) VP_CHECK(*C, Model<T>::eq((T)F, of<T>((*Text)[I])), "construct", std::string("not the value given to the constructor: ") + N);
    ++I;
  }
};
struct GenText {
  std::vector<std::string> *Text; vp::Case *C;
  template<class T, class X> void operator()(const char *, X &) {
    if (std::is_same<T, bool>::value) { Text->push_back(C->R.chance(1, 2) ? "1" : "0"); return; }
    if (std::is_same<T, char>::value) { Text->push_back(std::to_string(C->R.range(32, 126))); return; }
    if (std::is_floating_point<T>::value) { Text->push_back(std::to_string(C->R.range(0, 1000)) + ".25"); return; }
    Text->push_back(std::to_string(C->R.range(0, 1000000)));
  }
};
template<class T> static void arity(vp::Case &c) {
  size_t N = Fields<T>::count();
  // Positional construction assigns in declaration order.
  T Z;
  std::vector<std::string> Text;
  Fields<T>::typed(Z, GenText{&Text, &c});
  T X = Fields<T>::make(Text);
  Fields<T>::typed(X, Typed{&Text, &c, 0, false});
  // Writing one field changes no other one.
  std::vector<std::string> Snap;
  auto snap = [&](const T &Y) { std::vector<std::string> R; Rng Rn(1); Fields<T>::each(Y, [&](const char *, auto &F) { using V = std::decay_t<decltype(F)>; V W = F; R.push_back(std::string((const char *)&W, sizeof W)); }); return R; };
  size_t Pos = 0;
  Fields<T>::each(X, [&](const char *Name, auto &F) {
    using V = std::decay_t<decltype(F)>;
    auto Before = snap(X);
    V W = Model<V>::gen(c.R);
    F = W;
    auto After = snap(X);
    VP_CHECK(c, After[Pos] == std::string((const char *)&W, sizeof W), "write", Name);
    for (size_t I = 0; I < N; ++I) if (I != Pos) VP_CHECK(c, Before[I] == After[I], "overlap", vp::fmt("writing %s changes field %zu", Name, I + 1));
    ++Pos;
  });
  VP_CHECK(c, Pos == N, "count", "");
  // The names in the text are those declared.
  std::string J = json::Parser<>::unparse(X);
  c.input(J);
  Reader Rd(J); Dom D;
  VP_CHECK(c, Rd.document(D) && Model<T>::denotes(D, X), "unparse", Rd.Err);
  json::Parser<> P(J);
  T Y; Model<T>::reset(Y);
  VP_CHECK(c, P.parse(Y) && !P.hasErrors() && Model<T>::eq(X, Y), "roundtrip", errorsOf(P.errors()));
  // Every name in a document sets the field of this name.
  Dom E = Model<T>::dom(X, c.R);
  Enc En{c.R, true, false, {}}; En.dom(E);
  std::string K = layout(En.T, c.R);
  c.input(K);
  json::Parser<> Q(K);
  T W; Model<T>::reset(W);
  VP_CHECK(c, Q.parse(W) && Model<T>::eq(X, W), "parse", errorsOf(Q.errors()));
  // A document with a single field sets only this one.
  Dom One; One.K = Dom::Obj;
  size_t I = c.R.below(N);
  One.O.push_back(E.O[I]);
  Enc Eo{c.R, false, false, {}}; Eo.dom(One);
  std::string L = layout(Eo.T, c.R);
  c.input(L);
  T U; Model<T>::reset(U);
  auto Base = snap(U), Full = snap(X);
  json::Parser<> S(L);
  VP_CHECK(c, S.parse(U), "parse", errorsOf(S.errors()));
  auto Got = snap(U);
  for (size_t M = 0; M < N; ++M) VP_CHECK(c, Got[M] == (M == I ? Full[M] : Base[M]), "single", vp::fmt("field %zu after parsing field %zu", M + 1, I + 1));
  c.member("fields", vp::hashStr(Fields<T>::name()) + I);
  if constexpr (Fields<T>::IsRoot) {
    VP_CHECK(c, T::name() == Fields<T>::name() && X.getName() == T::name(), "name", "");
    std::string O = json::Parser<T>::unparseAsObject(X);
    Reader Ro(O); Dom Do;
    VP_CHECK(c, Ro.document(Do) && Model<T>::denotes(Do, X, 1), "unparse_object", O);
    json::Parser<T> Po(O);
    auto Obj = Po.parse();
    VP_CHECK(c, Obj && Obj->template is<T>() && Model<T>::eq(Obj->template as<T>(), X), "parse_object", errorsOf(Po.errors()));
    c.count("root_objects");
  }
  c.distinct(J);
  c.sample(J);
}
VP_FAMILY(VP_PART("J07.arity"), 2000, 40000) {
  c.member("records", Arities::with(c.Index, [&](auto T) { arity<typename decltype(T)::type>(c); }));
}
#if PART == 0
JSON_OBJECT_BEGIN(Joined)
JSON_OBJECT_PAIR_3(Joined, M, BCL_JOIN(std::map<std::string, int>), N, int, P, BCL_JOIN(std::map<int, std::vector<std::string>>))
JSON_OBJECT_END(Joined)
JSON_DEFAULT_TRAITS(::, Joined)
JSON_OBJECT_BEGIN(JoinedOne)
JSON_OBJECT_PAIR(JoinedOne, M, BCL_JOIN(std::map<std::string, int>))
JSON_OBJECT_END(JoinedOne)
JSON_DEFAULT_TRAITS(::, JoinedOne)
JSON_OBJECT_BEGIN(JoinedRoot)
JSON_OBJECT_ROOT_PAIR(JoinedRoot, M, BCL_JOIN(std::map<std::string, int>))
  JoinedRoot() : JSON_INIT_ROOT {}
JSON_OBJECT_END(JoinedRoot)
JSON_DEFAULT_TRAITS(::, JoinedRoot)
JSON_OBJECT_BEGIN(JoinedRoots)
JSON_OBJECT_ROOT_PAIR_2(JoinedRoots, M, BCL_JOIN(std::map<std::string, int>), P, BCL_JOIN(std::map<int, std::vector<std::string>>))
  JoinedRoots() : JSON_INIT_ROOT {}
JSON_OBJECT_END(JoinedRoots)
JSON_DEFAULT_TRAITS(::, JoinedRoots)
// An object declared without macros.
namespace detail { struct Manual {
  struct Text { static inline const std::string &name() { static const std::string N("Text"); return N; } using ValueType = std::string; };
  struct Size { static inline const std::string &name() { static const std::string N("Size"); return N; } using ValueType = int; };
}; }
struct Manual : public bcl::StaticMap<detail::Manual::Text, detail::Manual::Size> {
  static constexpr detail::Manual::Text Text = detail::Manual::Text();
  static constexpr detail::Manual::Size Size = detail::Manual::Size();
};
template<> struct json::Traits<Manual> : public json::Traits<bcl::StaticMap<::detail::Manual::Text, ::detail::Manual::Size>> {};
namespace People {
JSON_OBJECT_BEGIN(Human)
JSON_VALUE(Name, std::string)
JSON_VALUE(Age, unsigned)
JSON_VALUE(Hidden, int)
JSON_OBJECT_ROOT(Human, Name, Age)
JSON_ACCESS(Human, Name)
JSON_ACCESS(Human, Age)
  Human() : JSON_INIT_ROOT {}
  Human(const std::string &N, unsigned A) : JSON_INIT(Human, N, A), JSON_INIT_ROOT {}
  using NameTy = JSON_VALUE_TYPE(Human, Name);
  using AgeTy = JSON_VALUE_TYPE(Human, Age);
JSON_OBJECT_END(Human)
}
JSON_DEFAULT_TRAITS(People::, Human)
typedef People::Human PHuman;
namespace jm {
typedef std::map<std::string, int> JM; typedef std::map<int, std::vector<std::string>> JP;
VP_FIELDS(Joined, false, VP_F(M) VP_F(N) VP_F(P))
VP_FIELDS(JoinedOne, false, VP_F(M))
VP_FIELDS(JoinedRoot, false, VP_F(M))
VP_FIELDS(JoinedRoots, false, VP_F(M) VP_F(P))
VP_FIELDS(Manual, false, VP_F(Text) VP_F(Size))
VP_FIELDS(PHuman, false, VP_F(Name) VP_F(Age))
}
template<class T> void declared(vp::Case &c, const char *Name) {
  T X = Model<T>::gen(c.R);
  Dom E = Model<T>::dom(X, c.R);
  Enc En{c.R, true, true, {}}; En.dom(E);
  std::string K = layout(En.T, c.R);
  c.input(K);
  json::Parser<> Q(K);
  T W; Model<T>::reset(W);
  VP_CHECK(c, Q.parse(W) && Model<T>::eq(X, W), Name, errorsOf(Q.errors()));
  std::string J = json::Parser<T>::unparse(X);
  Reader Rd(J); Dom D;
  VP_CHECK(c, Rd.document(D) && Model<T>::denotes(D, X), Name, J);
  c.member("declared", vp::hashStr(Name));
}
VP_FAMILY("J07.custom", 2000, 40000) {
  switch (c.Index % 4) { case 0: declared<JoinedOne>(c, "JoinedOne"); break; case 1: declared<JoinedRoot>(c, "JoinedRoot"); break; case 2: declared<JoinedRoots>(c, "JoinedRoots"); break; case 3: declared<Manual>(c, "Manual"); break; }
  Joined X = Model<Joined>::gen(c.R);
  Dom E = Model<Joined>::dom(X, c.R);
  Enc En{c.R, true, true, {}}; En.dom(E);
  std::string K = layout(En.T, c.R);
  c.input(K);
  json::Parser<> Q(K);
  Joined W; Model<Joined>::reset(W);
  VP_CHECK(c, Q.parse(W) && Model<Joined>::eq(X, W), "joined", errorsOf(Q.errors()));
  PHuman H(genString(c.R), (unsigned)c.R.next());
  std::string J = json::Parser<PHuman>::unparseAsObject(H);
  c.input(J);
  Reader Rd(J); Dom D;
  VP_CHECK(c, Rd.document(D) && Model<PHuman>::denotes(D, H, 1), "custom", Rd.Err);
  json::Parser<PHuman> P(J);
  auto O = P.parse();
  VP_CHECK(c, O && O->is<PHuman>() && Model<PHuman>::eq(O->as<PHuman>(), H), "custom", errorsOf(P.errors()));
  c.distinct(J + K);
}
VP_MAIN
#endif
