// J03: well-formed documents are accepted with the value they denote, malformed
// ones are rejected.
#include "json_model.h"
using namespace jm;

template<class T> static void accept(vp::Case &c) {
  Own<T> V(Model<T>::gen(c.R));
  Dom D = Model<T>::dom(V.V, c.R);
  Enc E{c.R, true, true, {}};
  E.dom(D);
  std::string J = layout(E.T, c.R);
  c.input(J);
  json::Parser<> P(J);
  Own<T> W;
  bool Ok = P.parse(W.V);
  VP_CHECK(c, Ok, "rejected", "a valid document is rejected: " + errorsOf(P.errors()));
  VP_CHECK(c, !P.hasErrors(), "errors", errorsOf(P.errors()));
  VP_CHECK(c, Model<T>::eq(V.V, W.V), "value", "parsed value differs, it is serialized as " + json::Parser<>::unparse(W.V));
  c.distinct(J);
  if (E.Extras) c.count("with_unknown_fields");
  if (E.Shuffles) c.count("with_shuffled_fields");
  if (E.Indexed) c.count("with_index_keys");
  if (E.Extras) c.sample(J);
}
VP_FAMILY(VP_PART("J03.accept"), 12000, 300000) {
  c.member("types", Types::with(c.Index, [&](auto T) { accept<typename decltype(T)::type>(c); }));
}

template<class T> static void expectReject(vp::Case &c, const std::string &J, const char *What) {
  c.input(J);
  json::Parser<> P(J);
  Own<T> W;
  bool Ok = P.parse(W.V);
  std::string Back = Ok ? json::Parser<>::unparse(W.V) : "";
  VP_CHECK(c, !Ok, What, "the document is accepted as " + Back);
  VP_CHECK(c, P.hasErrors(), "no_error", "rejected, but no error is recorded");
  c.distinct(J);
  c.count(What);
}

// All nodes of a document (without those of unknown fields).
static void nodes(Dom &D, std::vector<Dom *> &N) {
  N.push_back(&D);
  for (auto &X : D.A) nodes(X, N);
  for (auto &X : D.O) nodes(X.second, N);
}
static std::string big(Rng &R, __int128 V) {
  bool Neg = V < 0; unsigned __int128 U = Neg ? -(unsigned __int128)V : V;
  std::string S;
  do S.insert(S.begin(), (char)('0' + (int)(U % 10))); while (U /= 10);
  return (Neg ? "-" : "") + S;
}
// Replaces a node with something its type can not hold.
static bool corrupt(Dom &D, Rng &R) {
  static const char *Compound[] = {"[1]", "{}", "[]", "{\"0\":1}", "[[]]"};
  static const char *NotNumber[] = {"\"\"", "\"abc\"", "true", "null", "\"1 2\"", "\"1x\"", "\"x1\"", "\" 1\"", "\"1 \"", "\"0x10\"", "false", "\"+-1\"", "\"--1\""};
  auto set = [&](std::string S) { if ((D.Ptr && (S[0] == '[' || S[0] == '{')) || (D.Opt && S == "null")) return false; D.Raw = true; D.S = S; return true; };
  switch (D.T) {
  case Dom::TInt:
    switch (R.below(6)) {
    case 0: return set(Compound[R.below(5)]);
    case 1: return set(NotNumber[R.below(13)]);
    case 2: return set(big(R, D.Hi + 1 + (__int128)R.below(3)));
    case 3: return set(big(R, D.Lo - 1 - (__int128)R.below(3)));
    case 4: { static const char *X[] = {"1.5", "-0.25", "3.7", "1e-1", "1e400", "99999999999999999999", "-99999999999999999999", "340282366920938463463374607431768211457", "18446744073709551616", "0.1"}; return set(X[R.below(10)]); }
    default: return set(big(R, (D.Hi + 1) * (__int128)(2 + R.below(3)) + (__int128)R.below(5)));
    }
  case Dom::TFlt:
    switch (R.below(3)) {
    case 0: return set(Compound[R.below(5)]);
    case 1: return set(NotNumber[R.below(9)]);
    default: { static const char *X[] = {"1e999", "-1e400", "1e309", "2.5E+2000"}; static const char *F[] = {"1e39", "-3.5e38", "4e38", "1e999"}; return set(D.Digits == 24 ? F[R.below(4)] : X[R.below(4)]); }
    }
  case Dom::TBool: { static const char *X[] = {"0", "1", "\"yes\"", "null", "\"\"", "\"TRUE\"", "\"true \"", "[true]", "{}", "[]"}; return set(X[R.below(10)]); }
  case Dom::TChar: { static const char *X[] = {"\"\"", "\"ab\"", "\"\\n\\n\"", "\"a\\u0000\"", "\"\\u00e9\"", "[\"a\"]", "{}"}; return set(X[R.below(7)]); }
  case Dom::TStr: { static const char *X[] = {"{}", "{\"a\":1}"}; return set(X[R.below(2)]); }
  case Dom::TSeq: { static const char *X[] = {"1", "\"abc\"", "null", "true", "\"\"", "-1.5"}; return set(X[R.below(6)]); }
  case Dom::TSet: { static const char *X[] = {"1", "\"abc\"", "{}", "{\"0\":\"a\"}", "null", "\"[]\""}; return set(X[R.below(6)]); }
  case Dom::TMap: case Dom::TMulti: case Dom::TRec: { static const char *X[] = {"1", "\"abc\"", "[]", "null", "[\"a\"]", "true", "\"{}\"", "[[\"a\",1]]"}; return set(X[R.below(8)]); }
  default: return false;
  }
}

template<class T> static void reject(vp::Case &c) {
  auto &R = c.R;
  Own<T> V(Model<T>::gen(R));
  Dom D = Model<T>::dom(V.V, R);
  bool Closed = D.K == Dom::Arr || D.K == Dom::Obj || D.K == Dom::Str;
  unsigned What = R.below(8);
  if (What == 0 && Closed) {
    // Cut anywhere.
    Enc E{R, true, true, {}}; E.dom(D);
    std::string J = layout(E.T, R);
    size_t End = J.find_last_not_of(" \t\r\n");
    return expectReject<T>(c, J.substr(0, R.below(End + 1)), "truncated");
  }
  if (What == 1) {
    Enc E{R, true, true, {}}; E.dom(D);
    std::string J = layout(E.T, R);
    static const char *X[] = {"}", "]", ",", "x", "\"", "1", "{}", "[]", "\"a\"", "null", ":", "\\", "/", "//", ", 1", "tru", "nul"};
    const char *Y = X[R.below(17)];
    // A number may be continued by what follows it.
    std::string Sep = R.chance(1, 2) && Closed ? "" : " ";
    if (D.K == Dom::Bool || D.K == Dom::Num || D.K == Dom::Null) Sep = " ";
    if (R.chance(1, 8)) { Sep = " "; Sep += R.chance(1, 2) ? '\0' : '\x01'; Y = ""; }
    return expectReject<T>(c, J + Sep + Y, "trailing_data");
  }
  if (What == 2) {
    // Something the target type can not represent at a random place.
    std::vector<Dom *> N; nodes(D, N);
    for (int Try = 0; Try < 8; ++Try) {
      if (!corrupt(*R.pick(N), R)) continue;
      Enc E{R, true, true, {}}; E.dom(D);
      return expectReject<T>(c, layout(E.T, R), "unrepresentable");
    }
    return;
  }
  if (What == 7) {
    // Something that is not a JSON value at a random place.
    std::vector<Dom *> N; nodes(D, N);
    Dom &X = *R.pick(N);
    static const char *G[] = {"i", "n", "k", "abc", "'x'", "tru", "nul", "fals", "NULL", "True", ".", "", "i\"", "{", "]", "@", "\\", "x1", "t", "f", "\\\"a\\\"", "(1)", "_"};
    X.Raw = true; X.S = G[R.below(23)];
    if (X.S.empty() && &X != &D) X.S = "#";
    if (R.chance(1, 12)) X.S = std::string(1, '\0');
    Enc E{R, true, false, {}}; E.dom(D);
    return expectReject<T>(c, layout(E.T, R), "garbage");
  }
  if (What == 3) {
    // Repeated keys.
    std::vector<Dom *> N, M; nodes(D, N);
    for (auto *X : N) if ((X->T == Dom::TMap && !X->O.empty()) || (X->T == Dom::TSet && !X->A.empty())) M.push_back(X);
    if (M.empty()) return;
    Dom &X = *R.pick(M);
    if (X.T == Dom::TMap) { auto P = R.pick(X.O); if (R.chance(1, 2)) P.second = R.pick(X.O).second; X.O.insert(X.O.begin() + R.below(X.O.size() + 1), P); }
    else { auto P = R.pick(X.A); X.A.insert(X.A.begin() + R.below(X.A.size() + 1), P); }
    Enc E{R, true, true, {}}; E.dom(D);
    return expectReject<T>(c, layout(E.T, R), "duplicate_key");
  }
  // One structural token is removed, repeated, replaced or inserted.
  Enc E{R, true, true, {}}; E.dom(D);
  std::vector<size_t> S;
  for (size_t I = 0; I < E.T.size(); ++I) if (E.T[I].K != 's' && E.T[I].K != 'v') S.push_back(I);
  if (S.empty()) {
    static const char *X[] = {",", "]", "}", ":", "["};
    std::string Y = X[R.below(5)];
    std::string J = layout(E.T, R);
    return expectReject<T>(c, R.chance(1, 2) ? Y + J : J + " " + Y, "surplus_delimiter");
  }
  size_t I = R.pick(S);
  char K = E.T[I].K;
  const char *Name;
  if (What == 4) { E.T.erase(E.T.begin() + I); Name = "missing_delimiter"; }
  else if (What == 5) {
    switch (R.below(3)) {
    case 0: E.T.insert(E.T.begin() + I, E.T[I]); break;
    case 1: { // A comma next to a bracket or another delimiter.
      bool Before = K == ']' || K == '}' || K == ':';
      if (K == ',') Before = R.chance(1, 2);
      E.T.insert(E.T.begin() + I + (Before ? 0 : 1), Tok{",", ','});
      break; }
    default: { static const char *X[] = {",", ":", "]", "}", "[", "{"}; std::string Y = X[R.below(6)];
      // A bracket makes the document unbalanced anywhere, other delimiters only
      // next to another delimiter.
      if (Y == "," || Y == ":") E.T.insert(E.T.begin() + I + (K == ']' || K == '}' ? 0 : 1), Tok{Y, Y[0]});
      else E.T.insert(E.T.begin() + R.below(E.T.size() + 1), Tok{Y, Y[0]});
    } }
    Name = "surplus_delimiter";
  } else {
    static const char *X[] = {"[", "]", "{", "}", ",", ":", ";", "=", "=>", "\"", "1", "x", "(", ")"};
    std::string Y;
    do Y = X[R.below(14)]; while (Y[0] == K);
    E.T[I] = Tok{Y, Y[0]};
    Name = "wrong_delimiter";
  }
  if (E.Extras) c.count("malformed_with_unknown_fields");
  expectReject<T>(c, layout(E.T, R, true), Name);
}
VP_FAMILY(VP_PART("J03.reject"), 16000, 400000) {
  c.member("reject_types", Types::with(c.Index, [&](auto T) { reject<typename decltype(T)::type>(c); }));
}
#if PART == 0
VP_MAIN
#endif
