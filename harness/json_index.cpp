// J06: arrays written as objects whose keys are indexes.
#include "json_model.h"
using namespace jm;

template<class T> static bool eqArr(const T *A, const std::vector<T> &V) {
  for (size_t I = 0; I < V.size(); ++I) if (!Model<T>::eq(A[I], V[I])) return false;
  return true;
}
static std::string dense(const std::vector<std::string> &Keys, const std::vector<std::string> &Vals, Rng &R, bool Plain) {
  std::vector<Tok> T;
  T.push_back({"{", '{'});
  for (size_t I = 0; I < Keys.size(); ++I) {
    if (I) T.push_back({",", ','});
    T.push_back({Plain ? "\"" + Keys[I] + "\"" : encodeString(Keys[I], R), 's'}); T.push_back({":", ':'}); T.push_back({Vals[I], 'v'});
  }
  T.push_back({"}", '}'});
  if (!Plain) return layout(T, R);
  std::string J; for (auto &X : T) J += X.S; return J;
}
// Parses J to vector<T>, and T * as well, and expects the given elements or a rejection.
template<class T> static void expect(vp::Case &c, const std::string &J, const std::vector<T> *Exp, const char *Key) {
  c.input(J);
  {
    json::Parser<> P(J);
    std::vector<T> V;
    bool Ok = P.parse(V);
    VP_CHECK(c, Ok == !!Exp, Key, "vector: " + std::string(Ok ? "accepted as " + json::Parser<>::unparse(V) : "rejected: " + errorsOf(P.errors())));
    if (Exp) VP_CHECK(c, Model<std::vector<T>>::eq(V, *Exp) && !P.hasErrors(), Key, "vector is " + json::Parser<>::unparse(V));
    else VP_CHECK(c, P.hasErrors(), "no_error", "");
    // Into a vector that holds something already.
    json::Parser<> Q(J);
    std::vector<T> W;
    for (size_t N = c.R.size(5); N--;) W.push_back(Model<T>::gen(c.R));
    Ok = Q.parse(W);
    VP_CHECK(c, Ok == !!Exp, Key, "a used vector");
    if (Exp) VP_CHECK(c, Model<std::vector<T>>::eq(W, *Exp), Key, "a used vector is " + json::Parser<>::unparse(W));
  }
  {
    json::Parser<> P(J);
    T *A = nullptr;
    bool Ok = P.parse(A);
    std::unique_ptr<T[]> Guard(A);
    VP_CHECK(c, Ok == !!Exp, Key, std::string("pointer: ") + (Ok ? "accepted" : "rejected: " + errorsOf(P.errors())));
    if (Exp && !Exp->empty()) VP_CHECK(c, A && eqArr(A, *Exp), Key, "elements of the array");
    if (!Ok) VP_CHECK(c, !A && P.hasErrors(), "no_error", "");
  }
  c.count(Exp ? "accepted" : "rejected");
  c.distinct(J);
}
template<class T> static void shuffleV(std::vector<T> &X, Rng &R) { for (size_t I = X.size(); I > 1; --I) std::swap(X[I - 1], X[R.below(I)]); }

template<class T> static void random(vp::Case &c) {
  auto &R = c.R;
  size_t N = R.chance(1, 12) ? R.below(300) : R.size(12);
  std::vector<T> V; std::vector<size_t> P;
  for (size_t I = 0; I < N; ++I) { V.push_back(Model<T>::gen(R)); P.push_back(I); }
  shuffleV(P, R);
  std::vector<std::string> Keys, Vals;
  auto text = [&](const T &X) { Enc E{R, true, true, {}}; E.dom(Model<T>::dom(X, R)); return layout(E.T, R); };
  for (auto I : P) { Keys.push_back(std::to_string(I)); Vals.push_back(text(V[I])); }
  unsigned What = R.below(8);
  if (N == 0 && What > 1) What = 7;
  const char *Key;
  switch (What) {
  case 0: { // A sequence.
    std::vector<Tok> T2{{"[", '['}};
    for (size_t I = 0; I < N; ++I) { if (I) T2.push_back({",", ','}); T2.push_back({text(V[I]), 'v'}); }
    T2.push_back({"]", ']'});
    expect<T>(c, layout(T2, R), &V, "sequence"); c.count("sequences"); return;
  }
  case 1: case 2: expect<T>(c, dense(Keys, Vals, R, false), &V, "permutation"); c.count("permutations"); if (N > 2 && N < 6) c.sample(dense(Keys, Vals, R, true)); return;
  case 3: { size_t I = R.below(N); Keys[I] = std::to_string(R.chance(1, 2) ? N : N + R.below(1000)); Key = "gap";
    if (N > 1 && R.chance(1, 3)) { Key = "gap_removed"; size_t J = R.below(N); while (Keys[J] == std::to_string(N - 1) || (J == I)) { J = R.below(N); if (N == 2) break; }
      if (N > 2) { Keys[I] = std::to_string(P[I]); Keys.erase(Keys.begin() + J); Vals.erase(Vals.begin() + J); } }
    break; }
  case 4: { size_t I = R.below(N); size_t At = R.below(N + 1); std::string K = Keys[I], W = Vals[R.below(N)]; Keys.insert(Keys.begin() + At, K); Vals.insert(Vals.begin() + At, W); Key = "repeated"; break; }
  case 5: if (N > 1) { size_t I = R.below(N), J = (I + 1 + R.below(N - 1)) % N; Keys[I] = Keys[J]; Key = "repeated"; break; }
  // fallthrough
  case 6: { size_t I = R.below(N); Keys[I] = "-" + std::to_string(P[I] + R.below(2)); if (Keys[I] == "-0") Keys[I] = "-1"; Key = "negative"; break; }
  default: {
    static const char *B[] = {"", "a", "x0", "0x", "1.5", "1e0x", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "4294967295", "4294967296", "99999999999999999999999", "-1", "-18446744073709551615",
      "null", "true", "0 1", "0,1", "\"0\"", "0\"", "[0]", "zero", "NaN", "-", "--1"};
    std::string K = B[R.below(26)];
    if (N == 0 || R.chance(1, 2)) { size_t At = R.below(N + 1); Keys.insert(Keys.begin() + At, K); Vals.insert(Vals.begin() + At, text(N ? V[R.below(N)] : Model<T>::gen(R))); }
    else Keys[R.below(N)] = K;
    Key = "illegal_index";
  } }
  expect<T>(c, dense(Keys, Vals, R, R.chance(1, 2) && What != 7 ? true : false), static_cast<std::vector<T> *>(nullptr), Key);
  c.count(Key);
}
VP_FAMILY("J06.random", 40000, 1000000) {
  switch (c.Index % 8) {
  case 0: case 1: random<int>(c); break;
  case 2: random<std::string>(c); break;
  case 3: random<double>(c); break;
  case 4: random<std::vector<int>>(c); break;
  case 5: random<char>(c); break;
  case 6: random<ROne>(c); break;
  default: random<std::optional<std::string>>(c);
  }
}
// All key tuples of length up to 4 over the indexes 0..4 (length 5 over 0..5).
VP_FAMILY("J06.exhaustive", 6, 6) {
  size_t Len = c.Index, Base = Len + 1;
  size_t Total = 1;
  for (size_t I = 0; I < Len; ++I) Total *= Base;
  for (size_t X = 0; X < Total; ++X) {
    std::vector<std::string> Keys, Vals, Inner;
    std::vector<int> Exp(Len); std::vector<bool> Seen(Len);
    std::vector<std::vector<char>> ExpV(Len);
    bool Ok = true;
    for (size_t I = 0, Y = X; I < Len; ++I, Y /= Base) {
      size_t K = Y % Base;
      Keys.push_back(std::to_string(K)); Vals.push_back(std::to_string(I + 10)); Inner.push_back("[\"" + std::string(1, (char)('a' + I)) + "\"]");
      if (K >= Len || Seen[K]) Ok = false; else { Seen[K] = true; Exp[K] = I + 10; ExpV[K] = {(char)('a' + I)}; }
    }
    expect<int>(c, dense(Keys, Vals, c.R, true), Ok ? &Exp : nullptr, "exhaustive");
    expect<std::vector<char>>(c, dense(Keys, Inner, c.R, true), Ok ? &ExpV : nullptr, "exhaustive_nested");
    c.count("key_tuples");
  }
}
// Arrays inside other values, as elements and fields.
VP_FAMILY("J06.nested", 8000, 200000) {
  auto &R = c.R;
  size_t N = 1 + R.below(5);
  std::vector<std::string> Keys, Vals; std::vector<size_t> P; std::vector<int> V(N);
  for (size_t I = 0; I < N; ++I) P.push_back(I);
  shuffleV(P, R);
  bool Good = R.chance(1, 2);
  for (auto I : P) { V[I] = Model<int>::gen(R); Keys.push_back(std::to_string(I)); Vals.push_back(std::to_string(V[I])); }
  if (!Good) Keys[R.below(N)] = R.chance(1, 2) || N == 1 ? std::to_string(N + R.below(3)) : Keys[R.below(N)];
  std::set<std::string> S(Keys.begin(), Keys.end());
  if (!Good && S.size() == N && !S.count(std::to_string(N)) && !S.count(std::to_string(N + 1)) && !S.count(std::to_string(N + 2))) Good = true;
  std::string D = dense(Keys, Vals, R, false);
  std::string J = "{\"a\": null, \"names\":" + D + ", \"A\":1,\"AB\":\"x\",\"ABC\":\"y\"}";
  c.input(J);
  json::Parser<> Q(J);
  RPrefix X; Model<RPrefix>::reset(X);
  bool Ok = Q.parse(X);
  VP_CHECK(c, Ok == Good, "field", errorsOf(Q.errors()));
  if (Good) VP_CHECK(c, X[RPrefix::names] == V && X[RPrefix::A] == 1 && X[RPrefix::AB] == "x", "field", "");
  std::string J2 = "[" + D + ",[7]]";
  c.input(J2);
  json::Parser<> Q2(J2);
  std::vector<std::vector<int>> W;
  Ok = Q2.parse(W);
  VP_CHECK(c, Ok == Good, "element", errorsOf(Q2.errors()));
  if (Good) VP_CHECK(c, W.size() == 2 && W[0] == V && W[1] == std::vector<int>{7}, "element", "");
  std::string J3 = "{\"k\":" + D + "}";
  json::Parser<> Q3(J3);
  std::map<std::string, std::optional<std::vector<int>>> M;
  c.input(J3);
  Ok = Q3.parse(M);
  VP_CHECK(c, Ok == Good, "mapped", errorsOf(Q3.errors()));
  if (Good) VP_CHECK(c, M.size() == 1 && M["k"] && *M["k"] == V, "mapped", "");
  c.count(Good ? "accepted" : "rejected");
  c.distinct(J);
}
VP_MAIN
