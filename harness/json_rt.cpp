// J01: round trip. J04: serialized text is strict JSON that denotes the value.
#include "json_model.h"
using namespace jm;

template<class T> static void roundTrip(vp::Case &c) {
  Own<T> V(Model<T>::gen(c.R));
  std::string J = json::Parser<>::unparse(V.V);
  c.input(J);
  json::Parser<> P(J);
  Own<T> W;
  bool Ok = P.parse(W.V);
  VP_CHECK(c, Ok, "rejected", "serialized text is rejected: " + errorsOf(P.errors()));
  VP_CHECK(c, !P.hasErrors(), "errors", errorsOf(P.errors()));
  VP_CHECK(c, Model<T>::eq(V.V, W.V), "differs", "parsed value differs, it is serialized as " + json::Parser<>::unparse(W.V));
  std::string J2 = json::Parser<>::unparse(W.V);
  VP_CHECK(c, J == J2, "text", "serialized again: " + J2);
  c.distinct(J);
  c.count("bytes", J.size());
  if (J.size() > 12) c.sample(J);
}
VP_FAMILY(VP_PART("J01.types"), 20000, 400000) {
  size_t I = Types::with(c.Index, [&](auto T) { roundTrip<typename decltype(T)::type>(c); });
  c.member("types", I);
}
#if PART == 0
VP_FAMILY("J01.chars", 256, 256) {
  char C = (char)c.Index;
  std::string J = json::Parser<>::unparse(C);
  c.input(J);
  json::Parser<> P(J);
  char D = (char)(C + 1);
  VP_CHECK(c, P.parse(D) && !P.hasErrors(), "rejected", errorsOf(P.errors()));
  VP_CHECK(c, D == C, "differs", vp::fmt("%d", D));
  std::string S;
  for (int I = 0; I < 3; ++I) S += std::string(c.R.below(3), '\\') + C + std::string(c.R.below(3), c.R.chance(1, 2) ? '"' : 'u');
  std::string JS = json::Parser<>::unparse(S);
  c.input(JS);
  json::Parser<> PS(JS);
  std::string T;
  VP_CHECK(c, PS.parse(T) && !PS.hasErrors(), "rejected", errorsOf(PS.errors()));
  VP_CHECK(c, T == S, "differs", T);
  c.distinct(JS);
}
VP_FAMILY("J01.diagnostic", 400, 8000) {
  bcl::Diagnostic D("json error");
  std::vector<std::string> Exp;
  size_t N = c.R.size(5);
  while (N--) {
    std::string S = genString(c.R, false);
    size_t Code = c.R.below(100); uintmax_t Pos = c.R.chance(1, 5) ? UINTMAX_MAX : c.R.below(10000);
    D.insert(Code, "%s", Pos, S.c_str());
    Exp.push_back("json error C" + std::to_string(Code) + "(" + std::to_string(Pos) + "): " + S);
  }
  std::string J = json::Parser<>::unparse(D);
  c.input(J);
  Reader Rd(J); Dom Dm;
  VP_CHECK(c, Rd.document(Dm) && Dm.K == Dom::Arr && Dm.A.size() == Exp.size(), "malformed", Rd.Err);
  bcl::Diagnostic E("json error");
  json::Parser<> P(J);
  VP_CHECK(c, P.parse(E) && !P.hasErrors(), "rejected", errorsOf(P.errors()));
  VP_CHECK(c, E.size() == Exp.size(), "size", "");
  size_t I = 0;
  for (auto *M : E) { VP_CHECK(c, Exp[I] == M && Dm.A[I].S == M, "message", M); ++I; }
  VP_CHECK(c, json::Parser<>::unparse(E) == J, "text", "");
  c.distinct(J);
}

#endif
template<class T> static void wellFormed(vp::Case &c) {
  Own<T> V(Model<T>::gen(c.R));
  std::string J = json::Parser<>::unparse(V.V);
  c.input(J);
  Reader Rd(J); Dom D;
  VP_CHECK(c, Rd.document(D), "malformed", Rd.Err);
  VP_CHECK(c, Model<T>::denotes(D, V.V), "denotes", "another reader obtains a different value");
  // Embedded into a larger text, it does not change what surrounds it.
  std::string K = "[1," + J + ",\"end\"]";
  Reader Re(K); Dom E;
  VP_CHECK(c, Re.document(E) && E.A.size() == 3 && E.A[2].S == "end", "embedded", Re.Err);
  c.distinct(J);
  c.count("bytes", J.size());
  c.count(D.K == Dom::Obj || D.K == Dom::Arr ? "compound_documents" : "scalar_documents");
  if (J.size() > 12) c.sample(J);
}
VP_FAMILY(VP_PART("J04.types"), 20000, 400000) {
  size_t I = Types::with(c.Index, [&](auto T) { wellFormed<typename decltype(T)::type>(c); });
  c.member("types", I);
}
#if PART == 0
// Null pointers have no text: what is left is an object with the indexes (keys)
// of the others.
template<class T> static void nulls(vp::Case &c) {
  Own<std::vector<T>> V;
  std::map<std::string, T> M;
  size_t N = c.R.size(6), Left = 0;
  unsigned Pct = c.R.below(4);
  while (N--) {
    T P = nullptr;
    if (c.R.below(3) < Pct) P = Model<T>::gen(c.R), ++Left;
    V.V.push_back(P);
    M.emplace(genString(c.R), P);
  }
  std::string J = json::Parser<>::unparse(V.V);
  c.input(J);
  Reader Rd(J); Dom D;
  VP_CHECK(c, Rd.document(D), "malformed", Rd.Err);
  if (Left == V.V.size()) VP_CHECK(c, Model<std::vector<T>>::denotes(D, V.V), "denotes", "");
  else {
    VP_CHECK(c, D.K == Dom::Obj && D.O.size() == Left, "denotes", "");
    for (auto &E : D.O) {
      size_t I = strtoul(E.first.c_str(), nullptr, 10);
      VP_CHECK(c, std::to_string(I) == E.first && I < V.V.size() && Model<T>::denotes(E.second, V.V[I]), "denotes", E.first);
    }
  }
  std::string K = json::Parser<>::unparse(M);
  c.input(K);
  Reader Re(K); Dom E;
  size_t In = 0;
  for (auto &P : M) In += !!P.second;
  VP_CHECK(c, Re.document(E) && E.K == Dom::Obj && E.O.size() == In, "malformed", Re.Err);
  for (auto &X : E.O) VP_CHECK(c, M.count(X.first) && Model<T>::denotes(X.second, M[X.first]), "denotes", X.first);
  c.count("with_nulls", Left != V.V.size());
  c.distinct(J + K);
}
VP_FAMILY("J04.nulls", 6000, 100000) {
  switch (c.Index % 3) { case 0: nulls<int *>(c); break; case 1: nulls<char *>(c); break; default: nulls<std::string *>(c); }
}
VP_MAIN
#endif
