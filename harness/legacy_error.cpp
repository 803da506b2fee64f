// L03: errors of applications, their codes, types and texts.
#include "vp.h"
#include <cassert>
#include <algorithm>
#include <bcl/legacy/text.h>
namespace {
namespace EL = Base::ErrorList;
typedef Utility::Null Null;
// A flat application.
namespace F {
ERROR_DECL(A, "flat a", Null, EL::Error) ERROR_DECL(B, "flat b", Null, EL::Warning) ERROR_DECL(C, "flat c", Null, EL::Fatal)
struct App { DESCRIPTION_FIELD(Acronym, "Acronym", "FLAT") typedef CELL_COLL_3(A, B, C) Errors; typedef EL::Priority ErrorPriority; typedef Null Applications; typedef Null ValueType; };
}
// Nested errors; types are inherited from parts of an error.
namespace N {
ERROR_DECL(D, "leaf d", Null, EL::Fatal) ERROR_DECL(E, "leaf e", Null, EL::Warning) ERROR_DECL(G, "leaf g", Null, EL::Error) ERROR_DECL(H, "leaf h", Null, Null)
ERROR_DECL(C1, "node c1", CELL_COLL_2(D, E), EL::Warning) ERROR_DECL(C2, "node c2", CELL_COLL_1(G), Null) ERROR_DECL(C3, "node c3", Null, EL::Error)
ERROR_DECL(R1, "root 1", CELL_COLL_3(C1, C2, H), EL::Error) ERROR_DECL(R2, "root 2", Null, EL::Warning) ERROR_DECL(R3, "root 3", CELL_COLL_2(C3, C1), Null)
struct App { DESCRIPTION_FIELD(Acronym, "Acronym", "NEST") typedef CELL_COLL_3(R1, R2, R3) Errors; typedef EL::Priority ErrorPriority; typedef CELL_COLL_1(F::App) Applications; typedef Null ValueType; };
}
// A deep chain and an own order of types.
namespace P {
struct Low { TO_TEXT(Brief, "low") typedef Null ValueType; }; struct High { TO_TEXT(Brief, "high") typedef Null ValueType; };
ERROR_DECL(E5, "five", Null, High) ERROR_DECL(E4, "four", CELL_COLL_1(E5), Low) ERROR_DECL(E3, "three", CELL_COLL_2(EL::Unclassified, E4), Null) ERROR_DECL(E2, "two", CELL_COLL_1(E3), High) ERROR_DECL(E1, "one", CELL_COLL_1(E2), Low) ERROR_DECL(E0, "zero", Null, Null)
struct App { DESCRIPTION_FIELD(Acronym, "Acronym", "DEEP") typedef CELL_COLL_2(E1, E0) Errors; typedef CELL_COLL_2(Low, High) ErrorPriority; typedef CELL_COLL_2(Base::BCL, N::App) Applications; typedef Null ValueType; };
}
// An application without errors, and the one which uses all others.
namespace Z { struct App { DESCRIPTION_FIELD(Acronym, "Acronym", "NONE") typedef Null Errors; typedef EL::Priority ErrorPriority; typedef CELL_COLL_1(Base::BCL) Applications; typedef Null ValueType; }; }
namespace T {
ERROR_DECL(X, "top x", Null, EL::Error) ERROR_DECL(Y, "top y", CELL_COLL_1(X), EL::Fatal)
struct App { DESCRIPTION_FIELD(Acronym, "Acronym", "TOP") typedef CELL_COLL_2(Y, X) Errors; typedef EL::Priority ErrorPriority; typedef CELL_COLL_3(F::App, Z::App, P::App) Applications; typedef Null ValueType; };
}
// A model of the declarations.
struct M { std::string Brief, Type; std::vector<M> Sub; };
struct MA { std::string Acronym; std::vector<M> Errors; std::vector<std::string> Prio; std::vector<const MA *> Apps; };
const std::vector<std::string> WEF{"warning", "error", "fatal error"};
const MA MBcl{"BCL", {{"can't assign undefined value to a strong value object", "error", {}}, {"type cast is not valid", "error", {}}, {"null pointer dereference", "fatal error", {}}, {"unclassified error", "error", {}}, {"functionality is unsupported yet", "error", {}}, {"can't copy string", "error", {}}, {"can't convert string", "error", {}}}, WEF, {}};
const MA MFlat{"FLAT", {{"flat a", "error", {}}, {"flat b", "warning", {}}, {"flat c", "fatal error", {}}}, WEF, {}};
const M MC1{"node c1", "warning", {{"leaf d", "fatal error", {}}, {"leaf e", "warning", {}}}};
const MA MNest{"NEST", {{"root 1", "error", {MC1, {"node c2", "", {{"leaf g", "error", {}}}}, {"leaf h", "", {}}}}, {"root 2", "warning", {}}, {"root 3", "", {{"node c3", "error", {}}, MC1}}}, WEF, {&MFlat}};
const MA MDeep{"DEEP", {{"one", "low", {{"two", "high", {{"three", "", {{"unclassified error", "error", {}}, {"four", "low", {{"five", "high", {}}}}}}}}}}, {"zero", "", {}}}, {"low", "high"}, {&MBcl, &MNest}};
const MA MNone{"NONE", {}, WEF, {&MBcl}};
const MA MTop{"TOP", {{"top y", "fatal error", {{"top x", "error", {}}}}, {"top x", "error", {}}}, WEF, {&MFlat, &MNone, &MDeep}};
template<class A> struct Of;
template<> struct Of<Base::BCL> { static const MA &m() { return MBcl; } };
template<> struct Of<F::App> { static const MA &m() { return MFlat; } };
template<> struct Of<N::App> { static const MA &m() { return MNest; } };
template<> struct Of<P::App> { static const MA &m() { return MDeep; } };
template<> struct Of<Z::App> { static const MA &m() { return MNone; } };
template<> struct Of<T::App> { static const MA &m() { return MTop; } };
int count(const M &E) { int N = 1; for (auto &S : E.Sub) N += count(S); return N; }
int count(const MA &A) { int N = 0; for (auto &E : A.Errors) N += count(E); return N; }
int total(const MA &A) { int N = count(A); for (auto *S : A.Apps) N += total(*S); return N; }
// Codes of the errors of application A begin in application In after this number.
bool offset(const MA &In, const MA &A, int &N) {
  if (&In == &A) return true;
  N += count(In);
  for (auto *S : In.Apps) if (offset(*S, A, N)) return true;
  return false;
}
// What is known of an error by its path in the tree.
struct Known { int Code = 0; std::string Brief, Type; };
int before(const std::vector<M> &L, int I) { int N = 0; for (int J = 0; J < I; ++J) N += count(L[J]); return N; }
Known known(const MA &A, const std::vector<int> &Path) {
  Known K; const std::vector<M> *L = &A.Errors; size_t Worst = 0;
  for (int I : Path) {
    K.Code += before(*L, I) + 1; const M &E = (*L)[I];
    K.Brief += (K.Brief.empty() ? "" : ": ") + E.Brief;
    auto At = std::find(A.Prio.begin(), A.Prio.end(), E.Type); if (At != A.Prio.end()) Worst = std::max<size_t>(Worst, At - A.Prio.begin());
    L = &E.Sub;
  }
  K.Type = A.Prio[Worst];
  return K;
}
template<class... Ids> struct Path;
template<class I> struct Path<I> { typedef Base::Cell<I> Type; };
template<class I, class... Ids> struct Path<I, Ids...> { typedef Base::Cell<I, typename Path<Ids...>::Type> Type; };
template<class... Ids> std::string parent(); // brief description of all but the last part
std::string join(const std::vector<std::string> &V, size_t N) { std::string S; for (size_t I = 0; I < N; ++I) S += (I ? ": " : "") + V[I]; return S; }

template<class App, class User> void inUser(vp::Case &c, const Base::IException &E, const Known &K, const std::string &Msg) {
  const MA &A = Of<App>::m(), &U = Of<User>::m();
  int Off = 0; if (!offset(U, A, Off)) return;
  VP_CHECK(c, E.Code<User>() == Off + K.Code, "absolute-code", vp::fmt("%d instead of %d in %s", E.Code<User>(), Off + K.Code, U.Acronym.c_str()));
  std::string Tx = U.Acronym + ": " + K.Type + " " + std::to_string(Off + K.Code) + ": " + Msg;
  VP_CHECK(c, E.ToText<User>() == Tx, "text", E.ToText<User>() + " instead of " + Tx);
  c.member("codes", vp::mix(vp::hashStr(U.Acronym) + Off + K.Code));
  c.count("absolute_codes");
}
template<class App> void inUsers(vp::Case &c, const Base::IException &E, const Known &K, const std::string &Msg) {
  inUser<App, App>(c, E, K, Msg); inUser<App, N::App>(c, E, K, Msg); inUser<App, P::App>(c, E, K, Msg); inUser<App, Z::App>(c, E, K, Msg); inUser<App, T::App>(c, E, K, Msg);
}
std::string word(vp::Rng &R) { std::string S; for (size_t N = R.size(30); N; --N) S += (char)(1 + R.below(255)); return S; }
template<class App, class... Ids> void error(vp::Case &c, const std::vector<int> &P) {
  typedef typename Path<Ids...>::Type Id;
  const MA &A = Of<App>::m(); Known K = known(A, P);
  std::string In = A.Acronym + " " + K.Brief; c.input(In); c.distinct(In); c.sample(In);
  VP_CHECK(c, (Base::CodeOfError<Id, App>()) == K.Code, "code", vp::fmt("%d instead of %d", Base::CodeOfError<Id, App>(), K.Code));
  VP_CHECK(c, Base::BriefOfError<Id>() == K.Brief, "brief", Base::BriefOfError<Id>());
  VP_CHECK(c, (Base::TypeOfError<Id, App>()) == K.Type, "type", (Base::TypeOfError<Id, App>()));
  std::string Tx = A.Acronym + ": " + K.Type + " " + std::to_string(K.Code) + ": " + K.Brief;
  VP_CHECK(c, (Base::ErrorToText<Id, App>()) == Tx, "text", (Base::ErrorToText<Id, App>()));
  typedef typename Base::Exception<App>::template Error<Id> Thrown;
  int Caught = 0;
  try { throw Thrown(); } catch (const Base::IException &E) { ++Caught;
    VP_CHECK(c, E.RelativeCode() == K.Code && E.Brief() == K.Brief && E.Message() == K.Brief && E.Type() == K.Type, "exception", E.Brief());
    inUsers<App>(c, E, K, K.Brief);
  }
  try { throw Thrown(); } catch (const Base::Exception<App> &E) { ++Caught; VP_CHECK(c, E.RelativeCode() == K.Code, "exception", "of an application"); }
  try { throw Thrown(); } catch (const Thrown &E) { ++Caught; VP_CHECK(c, E.Type() == K.Type, "exception", "itself"); }
  // An error is a kind of the error it is a part of.
  typedef typename Base::Exception<App>::template Error<typename Base::ErrorTraits<Id>::ParentId>::Super Parent;
  try { throw Thrown(); } catch (const Parent &E) { ++Caught; const Base::IException &B = E; VP_CHECK(c, B.RelativeCode() == K.Code, "exception", "parent"); } catch (...) {}
  VP_CHECK(c, Caught == 4, "catch", vp::fmt("%d", Caught));
  std::string From = word(c.R), To = word(c.R); c.input(In + " cast " + From + " to " + To);
  std::vector<std::string> Bs{Ids::Brief()...}; std::string Msg = join(Bs, Bs.size() - 1); if (Bs.size() > 1) Msg += ": ";
  Msg += "type cast from type '" + From + "' to type '" + To + "' is not valid";
  typedef typename Base::Exception<App>::template TypeCastError<Id> Cast;
  try { throw Cast(From, To); } catch (const Base::IException &E) {
    VP_CHECK(c, E.Message() == Msg && E.Brief() == K.Brief && E.RelativeCode() == K.Code && E.Type() == K.Type, "cast", E.Message());
    inUsers<App>(c, E, K, Msg);
  }
  Cast X(From, To), Y(X); VP_CHECK(c, Y.FromType() == From && Y.ToType() == To && Y.Message() == Msg, "cast", "copy");
  c.count("errors"); c.count(Bs.size() > 1 ? "nested" : "flat");
}
template<class D> void kinds(vp::Case &c, const MA &A, const M &E) { VP_CHECK(c, Base::CountOfErrors<D>() == count(E) - 1, "count", E.Brief); c.count("counts"); }
template<class App> void app(vp::Case &c) { const MA &A = Of<App>::m(); VP_CHECK(c, Base::CountOfAppErrors<App>() == count(A), "count", A.Acronym); c.count("counts"); }
}
typedef Base::BCL B;
#define ONE(N, App, P, ...) case N: error<App, __VA_ARGS__>(c, std::vector<int> P); break;
#define L(...) {__VA_ARGS__}
VP_FAMILY("L03.errors", 8000, 100000) {
  using namespace N; using namespace P;
  switch (c.R.below(33)) {
  ONE(0, B, L(0), EL::Assign) ONE(1, B, L(1), EL::TypeCast) ONE(2, B, L(2), EL::NullDereference) ONE(3, B, L(3), EL::Unclassified) ONE(4, B, L(4), EL::Unsupported) ONE(5, B, L(5), EL::CopyString) ONE(6, B, L(6), EL::ConvertString)
  ONE(7, F::App, L(0), F::A) ONE(8, F::App, L(1), F::B) ONE(9, F::App, L(2), F::C)
  ONE(10, N::App, L(0), R1) ONE(11, N::App, L(0, 0), R1, C1) ONE(12, N::App, L(0, 0, 0), R1, C1, D) ONE(13, N::App, L(0, 0, 1), R1, C1, N::E) ONE(14, N::App, L(0, 1), R1, C2) ONE(15, N::App, L(0, 1, 0), R1, C2, G) ONE(16, N::App, L(0, 2), R1, H)
  ONE(17, N::App, L(1), R2) ONE(18, N::App, L(2), R3) ONE(19, N::App, L(2, 0), R3, C3) ONE(20, N::App, L(2, 1), R3, C1) ONE(21, N::App, L(2, 1, 0), R3, C1, D) ONE(22, N::App, L(2, 1, 1), R3, C1, N::E)
  ONE(23, P::App, L(0), E1) ONE(24, P::App, L(0, 0), E1, E2) ONE(25, P::App, L(0, 0, 0), E1, E2, E3) ONE(26, P::App, L(0, 0, 0, 0), E1, E2, E3, EL::Unclassified) ONE(27, P::App, L(0, 0, 0, 1), E1, E2, E3, E4) ONE(28, P::App, L(0, 0, 0, 1, 0), E1, E2, E3, E4, E5) ONE(29, P::App, L(1), E0)
  ONE(30, T::App, L(0), T::Y) ONE(31, T::App, L(0, 0), T::Y, T::X) ONE(32, T::App, L(1), T::X)
  }
}
VP_FAMILY("L03.counts", 1, 1) {
  app<B>(c); app<F::App>(c); app<N::App>(c); app<P::App>(c); app<Z::App>(c); app<T::App>(c);
  kinds<F::A>(c, MFlat, MFlat.Errors[0]); kinds<N::R1>(c, MNest, MNest.Errors[0]); kinds<N::R2>(c, MNest, MNest.Errors[1]); kinds<N::R3>(c, MNest, MNest.Errors[2]); kinds<N::C1>(c, MNest, MC1); kinds<P::E1>(c, MDeep, MDeep.Errors[0]); kinds<T::Y>(c, MTop, MTop.Errors[0]);
  VP_CHECK(c, B::Title::Field() == "Title" && B::Title::Data() == "Base construction library" && B::Acronym::Data() == "BCL", "description", B::Title::Data());
  c.distinct("counts");
}
VP_MAIN
