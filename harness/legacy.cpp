// L01: texts. L04: values which may be undefined. L05: static trees and conditions.
#include "vp.h"
#include <cassert>
#include <algorithm>
#include <optional>
#include <sstream>
#include <climits>
#include <cwchar>
#if PART == 0
#include <bcl/legacy/text.h>
namespace {
template<class Ch> std::basic_string<Ch> digits(long long V) {
  std::basic_string<Ch> S; bool Neg = V < 0; unsigned long long U = Neg ? -(unsigned long long)V : V;
  do { S.insert(S.begin(), (Ch)('0' + U % 10)); U /= 10; } while (U);
  if (Neg) S.insert(S.begin(), (Ch)'-');
  return S;
}
template<class Ch> std::basic_string<Ch> word(vp::Rng &R, size_t N) { std::basic_string<Ch> S; for (size_t I = 0; I < N; ++I) S += (Ch)(1 + R.below(sizeof(Ch) == 1 ? 255 : 0x10000)); return S; }
template<class Ch> size_t len(const std::basic_string<Ch> &S) { return S.size(); }
// Copies a text of N characters into a heap block of Size characters.
template<class Ch, class F> void copy(vp::Case &c, F Fn, const char *Name) {
  size_t Size = c.R.size(60), N = c.R.chance(1, 2) ? (Size ? Size - 1 + c.R.below(3) : c.R.below(2)) : c.R.size(80);
  if (N > 1000) N = 0;
  auto S = word<Ch>(c.R, N);
  c.input(vp::fmt("%s: %zu characters into %zu", Name, N, Size)); c.distinct(vp::fmt("%s %zu %zu %llx", Name, N, Size, (unsigned long long)vp::hashBytes(S.data(), N * sizeof(Ch))));
  std::unique_ptr<Ch[]> From(new Ch[N + 1]); std::copy(S.c_str(), S.c_str() + N + 1, From.get());
  std::unique_ptr<Ch[]> To(new Ch[Size]), Old(new Ch[Size]);
  for (size_t I = 0; I < Size; ++I) To[I] = Old[I] = (Ch)(33 + I % 60);
  bool Thrown = false;
  try { Fn(To.get(), Size, From.get()); }
  catch (const Base::Exception<Base::BCL>::Error<CELL_COLL_1(Base::ErrorList::CopyString)> &E) { Thrown = true; VP_CHECK(c, E.RelativeCode() == 6, "code", vp::fmt("%d", E.RelativeCode())); }
  VP_CHECK(c, Thrown == (N >= Size), "bounds", Thrown ? "refused" : "accepted");
  if (!Thrown) {
    VP_CHECK(c, std::equal(S.c_str(), S.c_str() + N + 1, To.get()), "copied", Name);
    VP_CHECK(c, std::equal(To.get() + N + 1, To.get() + Size, Old.get() + N + 1), "rest", Name);
  }
  VP_CHECK(c, std::equal(S.c_str(), S.c_str() + N + 1, From.get()), "source", Name);
  c.count(Thrown ? "refused" : "copied");
}
}
VP_FAMILY("L01.numbers", 200000, 20000000) {
  int V;
  switch (c.R.below(5)) {
  case 0: V = (int)c.R.range(-1200, 1200); break;
  case 1: { long long P = 1; for (int I = (int)c.R.below(10); I > 0; --I) P *= 10; P += c.R.range(-2, 2); if (c.R.chance(1, 2)) P = -P; V = (int)P; break; }
  case 2: { int B[] = {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, 0, -1, 1, INT_MIN / 10, INT_MAX / 10}; V = B[c.R.below(9)]; break; }
  case 3: V = (int)(1u << c.R.below(32)); break;
  default: V = (int)c.R.next() >> c.R.below(31); break;
  }
  c.input(vp::fmt("%d", V)); c.distinct((uint64_t)V); c.sample(vp::fmt("%d", V));
  VP_CHECK(c, Base::ToTextAnsi(V) == digits<char>(V), "ansi", Base::ToTextAnsi(V));
  VP_CHECK(c, Base::ToTextUnicode(V) == digits<wchar_t>(V), "unicode", "");
  VP_CHECK(c, Base::ToText(V) == digits<char>(V), "text", Base::ToText(V));
  c.count(V < 0 ? "negative" : "non_negative"); if (V == INT_MIN) c.count("least");
}
VP_FAMILY("L01.copies", 20000, 400000) {
  switch (c.R.below(3)) {
  case 0: copy<char>(c, [](char *T, size_t N, const char *F) { Base::CopyAnsi(T, N, F); }, "CopyAnsi"); break;
  case 1: copy<wchar_t>(c, [](wchar_t *T, size_t N, const wchar_t *F) { Base::CopyUnicode(T, N, F); }, "CopyUnicode"); break;
  case 2: copy<char>(c, [](char *T, size_t N, const char *F) { Base::CopyString(T, N, F); }, "CopyString"); break;
  }
}
#endif

#if PART == 1
#include <bcl/legacy/text.h>
#include <bcl/legacy/value.h>
namespace {
using Utility::Value;
typedef Value<std::string, Utility::True> WeakText;
std::string show(int V) { return std::to_string(V); }
std::string show(double V) { return vp::fmt("%.17g", V); }
std::string show(bool V) { return V ? "true" : "false"; }
std::string show(const std::string &V) { return V; }
struct Rec {
  std::vector<int> V;
  friend bool operator==(const Rec &A, const Rec &B) { return A.V == B.V; }
  friend bool operator<(const Rec &A, const Rec &B) { return A.V < B.V; }
  friend bool operator>(const Rec &A, const Rec &B) { return A.V > B.V; }
  friend bool operator<=(const Rec &A, const Rec &B) { return A.V <= B.V; }
  friend bool operator>=(const Rec &A, const Rec &B) { return A.V >= B.V; }
};
std::string show(const Rec &V) { std::string S = "v"; for (int E : V.V) S += vp::fmt("%d,", E); return S; }
std::string show(int *V) { return vp::fmt("%p", (void *)V); }
int Ints[6];
void draw(vp::Rng &R, int &V) { V = (int)R.below(5); }
void draw(vp::Rng &R, double &V) { V = (double)R.below(5) / 4; }
void draw(vp::Rng &R, bool &V) { V = R.below(2); }
void draw(vp::Rng &R, std::string &V) { V = std::string(R.below(3), 'a' + (char)R.below(3)); if (R.chance(1, 10)) V += std::string(40, 'x'); }
void draw(vp::Rng &R, Rec &V) { V.V.assign(R.below(4), (int)R.below(3)); }
void draw(vp::Rng &R, int *&V) { V = Ints + R.below(6); }

template<class W, class T> void known(vp::Case &c, const W &X, const std::optional<T> &M, const char *Key) {
  VP_CHECK(c, (X == undef) == !M && (X != undef) == !!M && (undef == X) == !M && (undef != X) == !!M, Key, "defined or not");
  W &Y = const_cast<W &>(X);
  VP_CHECK(c, (Y == undef) == !M && (Y != undef) == !!M, Key, "defined or not");
  if (M) { VP_CHECK(c, static_cast<const T &>(X) == *M && static_cast<T &>(Y) == *M, Key, show(*M)); }
  c.count("states");
}
// A value which is not defined is equal only to another one and is ordered with none.
template<class A, class B, class T> void order(vp::Case &c, const A &X, const B &Y, const std::optional<T> &M, const std::optional<T> &N, const char *Kinds) {
  bool Both = M && N, Eq = (!M && !N) || (Both && *M == *N);
  std::string In = std::string(Kinds) + ": " + (M ? show(*M) : "undef") + " and " + (N ? show(*N) : "undef");
  VP_CHECK(c, (X == Y) == Eq, "equal", In); VP_CHECK(c, (X != Y) == !Eq, "unequal", In);
  VP_CHECK(c, (X < Y) == (Both && *M < *N), "less", In); VP_CHECK(c, (X > Y) == (Both && *N < *M), "greater", In);
  VP_CHECK(c, (X <= Y) == (Both && !(*N < *M)), "less-equal", In); VP_CHECK(c, (X >= Y) == (Both && !(*M < *N)), "greater-equal", In);
  c.count(Both ? (Eq ? "equal" : "different") : "undefined");
}
template<class T, bool Print> struct Printer { static void run(vp::Case &, const Value<T, Utility::True> &, const std::optional<T> &) {} };
template<class T> struct Printer<T, true> { static void run(vp::Case &c, const Value<T, Utility::True> &X, const std::optional<T> &M) {
  std::ostringstream S, E; S << X; if (M) E << *M; else E << "undef";
  VP_CHECK(c, S.str() == E.str(), "print", S.str() + " instead of " + E.str());
} };
template<class T, bool Print> void weak(vp::Case &c, const char *Name) {
  typedef Value<T, Utility::True> W;
  std::string In = Name;
  std::vector<W> P(3); std::optional<T> M[3];
  for (int S = 3 + (int)c.R.below(20); S > 0; --S) {
    int I = (int)c.R.below(3), J = (int)c.R.below(3); T V; draw(c.R, V);
    switch (c.R.below(7)) {
    case 0: P[I] = undef; M[I].reset(); In += vp::fmt(" %d=undef", I); break;
    case 1: case 2: { In += vp::fmt(" %d=", I) + show(V); auto &Ret = (P[I] = V); M[I] = V; VP_CHECK(c, &Ret == &P[I], "assign", "result"); break; }
    case 3: { In += vp::fmt(" %d=%d", I, J); auto &Ret = (P[I] = P[J]); auto X = M[J]; M[I] = X; VP_CHECK(c, &Ret == &P[I], "assign", "result"); break; }
    case 4: { In += vp::fmt(" copy%d", I); W Q(P[I]); known(c, Q, M[I], "copy"); Q = V; known(c, P[I], M[I], "copied"); break; }
    case 5: { W Q(V); known(c, Q, std::optional<T>(V), "construct"); W U(undef); known(c, U, std::optional<T>(), "construct"); W D; known(c, D, std::optional<T>(), "construct"); break; }
    case 6: if (M[I]) { In += vp::fmt(" *%d=", I) + show(V); static_cast<T &>(P[I]) = V; M[I] = V; } break;
    }
    c.input(In);
    for (int A = 0; A < 3; ++A) {
      known(c, P[A], M[A], "state"); Printer<T, Print>::run(c, P[A], M[A]);
      for (int B = 0; B < 3; ++B) order(c, P[A], P[B], M[A], M[B], "weak-weak");
      order(c, P[A], V, M[A], std::optional<T>(V), "weak-value"); order(c, V, P[A], std::optional<T>(V), M[A], "value-weak");
    }
  }
  c.distinct(In); c.sample(In); c.count("histories");
}
template<class T> void strong(vp::Case &c, const char *Name) {
  typedef Value<T, Utility::True> W; typedef Value<T, Utility::False> S;
  std::string In = Name;
  T V0; draw(c.R, V0);
  S X(V0), Y(X); T MX = V0, MY = V0; W Z; std::optional<T> MZ;
  for (int N = 3 + (int)c.R.below(20); N > 0; --N) {
    T V; draw(c.R, V);
    switch (c.R.below(7)) {
    case 0: In += " x=" + show(V); { auto &Ret = (X = V); VP_CHECK(c, &Ret == &X, "assign", "result"); } MX = V; break;
    case 1: In += " x=y"; { auto &Ret = (X = Y); VP_CHECK(c, &Ret == &X, "assign", "result"); } MX = MY; break;
    case 2: In += " y=" + show(V); Y = V; MY = V; break;
    case 3: In += " z=x"; Z = X; MZ = MX; break;
    case 4: In += " z=undef"; Z = undef; MZ.reset(); break;
    case 5: case 6: {
      bool New = c.R.chance(1, 2); bool Thrown = false;
      In += New ? " y(z)" : " x=z"; c.input(In);
      try {
        if (New) { S Q(Z); VP_CHECK(c, MZ && static_cast<const T &>(Q) == *MZ, "construct", In); }
        else { auto &Ret = (X = Z); VP_CHECK(c, &Ret == &X, "assign", "result"); }
      }
      catch (const Base::Exception<Base::BCL>::Error<CELL_COLL_1(Base::ErrorList::Assign)> &) { Thrown = true; }
      VP_CHECK(c, Thrown == !MZ, "undefined", In); if (!Thrown && !New) MX = *MZ;
      c.count(Thrown ? "refused" : "assigned");
      break;
    } }
    c.input(In);
    known(c, X, std::optional<T>(MX), "strong"); known(c, Y, std::optional<T>(MY), "strong"); known(c, Z, MZ, "weak");
    W Q(X); known(c, Q, std::optional<T>(MX), "from-strong");
    order(c, X, Z, std::optional<T>(MX), MZ, "strong-weak"); order(c, Z, X, MZ, std::optional<T>(MX), "weak-strong");
  }
  c.distinct(In); c.count("histories");
}
}
VP_FAMILY("L04.weak", 12000, 200000) {
  switch (c.R.below(6)) {
  case 0: weak<int, true>(c, "int"); break; case 1: weak<double, true>(c, "double"); break; case 2: weak<bool, true>(c, "bool"); break;
  case 3: weak<std::string, true>(c, "text"); break; case 4: weak<Rec, false>(c, "record"); break; case 5: weak<int *, true>(c, "pointer"); break;
  }
}
VP_FAMILY("L04.strong", 8000, 200000) {
  switch (c.R.below(5)) {
  case 0: strong<int>(c, "int"); break; case 1: strong<double>(c, "double"); break; case 2: strong<bool>(c, "bool"); break;
  case 3: strong<std::string>(c, "text"); break; case 4: strong<Rec>(c, "record"); break;
  }
}
VP_FAMILY("L04.texts", 3000, 60000) {
  std::string A, B; draw(c.R, A); draw(c.R, B); char Ch = 'a' + (char)c.R.below(3);
  c.input(A + "|" + B); c.distinct(A + "|" + B);
  Value<std::string, Utility::True> W(A.c_str()); known(c, W, std::optional<std::string>(A), "text");
  if (c.R.chance(1, 2)) W = undef;
  { auto &R = (W = B.c_str()); VP_CHECK(c, &R == &W, "assign", "result"); } known(c, W, std::optional<std::string>(B), "text");
  if (c.R.chance(1, 2)) W = undef;
  W = Ch; known(c, W, std::optional<std::string>(std::string(1, Ch)), "text");
  Value<std::string, Utility::False> S(A.c_str()); known(c, S, std::optional<std::string>(A), "text");
  S = B.c_str(); known(c, S, std::optional<std::string>(B), "text");
  VP_CHECK(c, W.size() == 1 && S.size() == B.size(), "text", "size");
  c.count("texts");
}
#endif

#if PART == 2
#include <bcl/utility.h>
#include <bcl/legacy/tree.h>
namespace {
template<int I> struct VT { typedef int Type; };
template<> struct VT<1> { typedef std::string Type; };
template<> struct VT<2> { typedef double Type; };
template<> struct VT<3> { typedef std::vector<int> Type; };
template<int I> struct K { typedef typename VT<I>::Type ValueType; static constexpr int Id = I; };
std::string show(int V) { return std::to_string(V); }
std::string show(double V) { return vp::fmt("%.17g", V); }
std::string show(const std::string &V) { return V; }
std::string show(const std::vector<int> &V) { std::string S = "v"; for (int E : V) S += vp::fmt("%d,", E); return S; }
void draw(vp::Rng &R, int &V) { V = (int)R.next(); }
void draw(vp::Rng &R, double &V) { V = (double)(int)R.next() / 7; }
void draw(vp::Rng &R, std::string &V) { V = std::string(R.below(40), 'a' + (char)R.below(26)); }
void draw(vp::Rng &R, std::vector<int> &V) { V.assign(R.below(5), (int)R.below(1000)); }
struct Nil {};
template<int I, class L = Nil, class R = Nil> struct T {};
template<class X> struct Make;
template<> struct Make<Nil> { typedef Utility::Null Type; };
template<int I, class L, class R> struct Make<T<I, L, R>> { typedef Base::Node<K<I>, typename Make<L>::Type, typename Make<R>::Type> Type; };
template<class X> struct Walk; // the keys of a tree: left part, right part, root
template<> struct Walk<Nil> { static void f(std::vector<int> &) {} };
template<int I, class L, class R> struct Walk<T<I, L, R>> { static void f(std::vector<int> &V) { Walk<L>::f(V); Walk<R>::f(V); V.push_back(I); } };
template<class X> std::vector<int> keys() { std::vector<int> V; Walk<X>::f(V); return V; }
typedef std::map<int, std::string> Model;
template<class X> struct At;
template<> struct At<Nil> { template<class Tr> static void fill(vp::Rng &, Tr &, Model &) {} template<class Tr> static void write(vp::Rng &, Tr &, Model &, int) {} template<class Tr> static void read(const Tr &, Tr &, std::vector<Model> &, std::map<int, const void *> &) {} template<class N> static void parts(vp::Case &, N &, std::map<int, const void *> &) {} };
template<int I, class L, class R> struct At<T<I, L, R>> {
  template<class Tr> static void one(vp::Rng &Rn, Tr &X, Model &M) { typename VT<I>::Type V; draw(Rn, V); if (Rn.chance(1, 2)) X.template Value<K<I>>() = V; else X[K<I>()] = V; M[I] = show(V); }
  template<class Tr> static void fill(vp::Rng &Rn, Tr &X, Model &M) { one(Rn, X, M); At<L>::fill(Rn, X, M); At<R>::fill(Rn, X, M); }
  template<class Tr> static void write(vp::Rng &Rn, Tr &X, Model &M, int Id) { if (Id == I) one(Rn, X, M); At<L>::write(Rn, X, M, Id); At<R>::write(Rn, X, M, Id); }
  template<class Tr> static void read(const Tr &C, Tr &X, std::vector<Model> &M, std::map<int, const void *> &A) {
    M[0][I] = show(C.template Value<K<I>>()); M[1][I] = show(X.template Value<K<I>>()); M[2][I] = show(C[K<I>()]); M[3][I] = show(X[K<I>()]); A[I] = &C.template Value<K<I>>();
    At<L>::read(C, X, M, A); At<R>::read(C, X, M, A);
  }
  // Every subtree accesses its part of the values of the whole tree.
  template<class N> static void parts(vp::Case &c, N &X, std::map<int, const void *> &A) {
    VP_CHECK(c, (const void *)&X.template Value<K<I>>() == A[I], "subtree", vp::fmt("key %d", I));
    const N &CX = X; VP_CHECK(c, (const void *)&CX.template Value<K<I>>() == A[I], "subtree", vp::fmt("key %d", I));
    VP_CHECK(c, (const void *)&X.LeftNode() == (const void *)&CX.LeftNode() && (const void *)&X.RightNode() == (const void *)&CX.RightNode(), "subtree", "const");
    At<L>::parts(c, X.LeftNode(), A); At<R>::parts(c, X.RightNode(), A);
    c.count("nodes");
  }
};
struct Visitor { std::vector<std::pair<int, const void *>> S; template<class N> void operator()(N &X) { S.push_back({N::Id::Id, &X.template Value<typename N::Id>()}); } };
template<int J, class Tr> int found() { typedef Base::IsNodeExist<Tr, K<J>> E; return E::Value() ? (std::is_same<typename E::Result, Utility::Null>::value ? -2 : J) : (std::is_same<typename E::Result, Utility::Null>::value ? -1 : -3); }
template<class X> void same(vp::Case &c, typename Make<X>::Type &Tr, const Model &M, const char *Key) {
  std::vector<Model> Got(4); std::map<int, const void *> A; At<X>::read(Tr, Tr, Got, A);
  for (int I = 0; I < 4; ++I) VP_CHECK(c, Got[I] == M, Key, vp::fmt("access %d", I));
  std::set<const void *> D; for (auto &P : A) D.insert(P.second); VP_CHECK(c, D.size() == A.size(), "alias", Key);
  c.count("values", M.size());
}
template<class X> void tree(vp::Case &c, const char *Name) {
  typedef typename Make<X>::Type Tr;
  Tr N; Model M; At<X>::fill(c.R, N, M);
  auto Ks = keys<X>(); std::string In = Name; for (auto &P : M) In += vp::fmt(" %d:", P.first) + P.second;
  c.input(In); c.distinct(In); c.sample(In);
  same<X>(c, N, M, "value");
  for (int S = (int)c.R.below(8); S > 0; --S) { At<X>::write(c.R, N, M, Ks[c.R.below(Ks.size())]); same<X>(c, N, M, "write"); }
  std::vector<Model> Got(4); std::map<int, const void *> A; At<X>::read(N, N, Got, A); At<X>::parts(c, N, A);
  std::vector<std::pair<int, const void *>> E; for (int I : Ks) E.push_back({I, A[I]});
  Visitor V; Base::Visit(N, V); VP_CHECK(c, V.S == E, "visit", Name);
  const Tr &CN = N; Visitor W; Base::Visit(CN, W); VP_CHECK(c, W.S == E, "visit-const", Name);
  int F[] = {found<0, Tr>(), found<1, Tr>(), found<2, Tr>(), found<3, Tr>(), found<4, Tr>(), found<5, Tr>(), found<6, Tr>(), found<7, Tr>()};
  for (int J = 0; J < 8; ++J) VP_CHECK(c, F[J] == (M.count(J) ? J : -1), "exist", vp::fmt("key %d: %d", J, F[J]));
  Tr D = N; auto MD = M; same<X>(c, D, MD, "copy");
  At<X>::write(c.R, D, MD, Ks[c.R.below(Ks.size())]); same<X>(c, D, MD, "copy"); same<X>(c, N, M, "copied");
  N = D; same<X>(c, N, MD, "assign");
  const Tr &CD = D; Tr Q(static_cast<const typename Tr::ValueType &>(CD.template Value<typename Tr::Id>()), CD.LeftNode(), CD.RightNode()); same<X>(c, Q, MD, "construct");
  c.count("trees");
}
// A tree whose keys differ is built from another one of the same shape.
template<int I> struct Same { typedef typename VT<I>::Type ValueType; static constexpr int Id = I; };
void convert(vp::Case &c) {
  typedef Base::Node<K<0>, Base::Node<K<1>>, Base::Node<K<2>, Base::Node<K<3>>>> A;
  typedef Base::Node<Same<0>, Base::Node<Same<1>>, Base::Node<Same<2>, Base::Node<Same<3>>>> B;
  A X; Model M; At<T<0, T<1>, T<2, T<3>>>>::fill(c.R, X, M);
  const A &CX = X; B Y(CX);
  VP_CHECK(c, show(Y.Value<Same<0>>()) == M[0] && show(Y.Value<Same<1>>()) == M[1] && show(Y.Value<Same<2>>()) == M[2] && show(Y.Value<Same<3>>()) == M[3], "convert", "");
  c.count("converted"); c.distinct(M[1] + M[0]);
}
}
#define S0 T<0>
#define S1 T<0, T<1>>
#define S2 T<0, Nil, T<1>>
#define S3 T<2, T<1>, T<3>>
#define S4 T<4, T<3, T<2, T<1>>>>
#define S5 T<4, Nil, T<3, Nil, T<2, T<6>, T<1>>>>
#define S6 T<0, T<1, T<2>, T<3>>, T<4, T<5>, T<6>>>
#define S7 T<3, T<5, Nil, T<7>>, T<1, T<2, T<0>>>>
VP_FAMILY("L05.trees", 8000, 200000) {
  switch (c.R.below(8)) {
  case 0: tree<S0>(c, "0"); break; case 1: tree<S1>(c, "1"); break; case 2: tree<S2>(c, "2"); break; case 3: tree<S3>(c, "3"); break;
  case 4: tree<S4>(c, "4"); break; case 5: tree<S5>(c, "5"); break; case 6: tree<S6>(c, "6"); break; case 7: tree<S7>(c, "7"); break; }
}
VP_FAMILY("L05.conversions", 500, 5000) { convert(c); }
// Values of some keys are references to objects outside of the tree.
namespace { template<int I> struct R { typedef int &ValueType; static constexpr int Id = I; }; }
VP_FAMILY("L05.references", 2000, 40000) {
  typedef Base::Node<K<1>> A; typedef Base::Node<R<0>> B; typedef Base::Node<R<1>, A, B> Tr;
  int X = (int)c.R.below(1000), Y = X + 1 + (int)c.R.below(1000); std::string S(c.R.below(20), 's');
  A L; L.Value<K<1>>() = S; Utility::Null N; B Rt(X, N, N); Tr T1(Y, L, Rt); Tr T2(T1);
  const Tr &C = T1;
  VP_CHECK(c, &T1.Value<R<0>>() == &X && &T1.Value<R<1>>() == &Y && &C.Value<R<0>>() == &X && &T1[R<1>()] == &Y && C.Value<K<1>>() == S, "reference", "construct");
  VP_CHECK(c, &T2.Value<R<0>>() == &X && &T2.Value<R<1>>() == &Y && T2.Value<K<1>>() == S, "reference", "copy");
  int V = (int)c.R.next(), W = (int)c.R.next(); T1.Value<R<0>>() = V; T2[R<1>()] = W; T2.Value<K<1>>() = "t";
  VP_CHECK(c, X == V && Y == W && T2.Value<R<0>>() == V && C.Value<R<1>>() == W && C.Value<K<1>>() == S, "reference", "write");
  c.input(vp::fmt("%d %d", V, W)); c.distinct(vp::fmt("%d %d", V, W)); c.count("references", 2);
}
namespace { struct Inherit : public Utility::If<Utility::True, Utility::True, Utility::False>::Result {};
bool kind(Utility::True) { return true; } bool kind(Utility::False) { return false; } }
VP_FAMILY("L05.conditions", 1, 1) {
  using namespace Utility;
#define IS(E, ...) VP_CHECK(c, (__VA_ARGS__::Value()) == (E) && kind(__VA_ARGS__()) == (E), "condition", #__VA_ARGS__); c.count("conditions")
  IS(true, True); IS(false, False); IS(false, Not<True>); IS(true, Not<False>); IS(true, Not<Not<True>>); IS(false, Not<Not<False>>);
  IS(true, And<True, True>); IS(false, And<True, False>); IS(false, And<False, True>); IS(false, And<False, False>);
  IS(true, Or<True, True>); IS(true, Or<True, False>); IS(true, Or<False, True>); IS(false, Or<False, False>);
  IS(true, And<Not<False>, Or<False, IsIdentical<int, int>>>); IS(false, Or<And<True, Not<True>>, IsIdentical<int, const int>>);
  IS(true, IsIdentical<K<1>, K<1>>); IS(false, IsIdentical<K<1>, K<2>>); IS(false, IsIdentical<int, int &>); IS(false, IsIdentical<int, unsigned>);
  IS(true, IsScalar<int>); IS(true, IsScalar<short>); IS(true, IsScalar<long>); IS(true, IsScalar<long long>); IS(true, IsScalar<unsigned short>); IS(true, IsScalar<unsigned>); IS(true, IsScalar<unsigned long>); IS(true, IsScalar<unsigned long long>);
  IS(true, IsScalar<float>); IS(true, IsScalar<double>); IS(true, IsScalar<long double>); IS(true, IsScalar<char>); IS(true, IsScalar<wchar_t>); IS(true, IsScalar<Null>); IS(false, IsScalar<std::string>); IS(false, IsScalar<int *>); IS(false, IsScalar<K<0>>);
  IS(true, IsReference<int &>); IS(true, IsReference<const K<0> &>); IS(false, IsReference<int>); IS(false, IsReference<int *>);
  IS(true, IsPointer<int *>); IS(true, IsPointer<const K<0> *>); IS(true, IsPointer<int **>); IS(false, IsPointer<int>); IS(false, IsPointer<int &>);
#define SAME(...) VP_CHECK(c, (std::is_same<__VA_ARGS__>::value), "type", #__VA_ARGS__); c.count("conditions")
  SAME(If<True, int, char>::Result, int); SAME(If<False, int, char>::Result, char); SAME(If<Not<True>, int, char>::Result, char); SAME(If<And<True, IsPointer<int *>>, int, char>::Result, int);
  SAME(TypeTraits<int>::Type, int); SAME(TypeTraits<int>::Reference, int &); SAME(TypeTraits<int>::ReferenceC, const int &); SAME(TypeTraits<int>::Pointer, int *); SAME(TypeTraits<int>::PointerC, const int *);
  SAME(TypeTraits<int *>::Type, int *); SAME(TypeTraits<int *>::Reference, int &); SAME(TypeTraits<int *>::ReferenceC, const int &); SAME(TypeTraits<int *>::Pointer, int *); SAME(TypeTraits<int *>::PointerC, const int *);
  SAME(Utility::Pointer<int>::Declaration, int *); SAME(True::Type, bool);
  IS(true, Inherit); VP_CHECK(c, (Constant<int, 7>::Value()) == 7, "constant", "");
  Constraint<True> Ok; (void)Ok;
  int X = 5; AddToObjectIf(True(), X, 3); VP_CHECK(c, X == 8, "add", ""); AddToObjectIf(False(), X, 3); VP_CHECK(c, X == 8, "add", "");
  std::string S = "a"; AddToObjectIf<std::string>(Not<False>(), S, "b"); AddToObjectIf<std::string>(Not<True>(), S, "c"); VP_CHECK(c, S == "ab", "add", S);
  c.distinct("conditions");
}
#endif
VP_MAIN
