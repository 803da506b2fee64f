// J02: any byte string and any target type: no crash, no leak, a definite and
// repeatable answer.
#include "json_model.h"
using namespace jm;

static std::string arbitrary(Rng &R) {
  static const char *Bits[] = {"[", "]", "{", "}", ",", ":", "\"", "\\", "\"a\"", "\"0\"", "\"1\"", "\"\"", "\"name\"", "\"Name\"", "\"A\"", "\"Age\"", "\"P\"", "\"List\"", "\"Sub\"",
    "0", "1", "-1", "1.5", "1e5", "+", "-", ".", "e", "9999999999999999999999", "true", "false", "null", "tru", "nul", "i", "n", "k", " ", "\n", "\t", "\\u", "\\u0041", "\\ud83d\\ude00", "\\x",
    "\"\\\"", "\\\\", "\"-1\"", "\"18446744073709551615\"", "\"4294967296\"", "\"2\"", "\xff", "\xc3\xa9", "json error C1(2): x"};
  std::string S;
  switch (R.below(4)) {
  case 0: { size_t N = R.size(60); while (N--) S += (char)R.below(256); break; }
  case 1: { size_t N = R.size(40); while (N--) S += "[]{},:\"\\ \n0123456789-+.eEtruefalsn"[R.below(34)]; break; }
  default: { size_t N = R.size(30); while (N--) S += Bits[R.below(sizeof Bits / sizeof *Bits)]; }
  }
  return S;
}
static std::string deep(Rng &R) {
  size_t N = R.chance(1, 8) ? 20000 : R.size(400);
  std::string O = R.chance(1, 2) ? "[" : "{\"0\":", C = O == "[" ? "]" : "}", S;
  if (R.chance(1, 4)) O = "{\"Sub\":", C = "}";
  for (size_t I = 0; I < N; ++I) S += O;
  S += R.chance(1, 2) ? "1" : "";
  if (R.chance(3, 4)) for (size_t I = 0; I < N; ++I) S += C;
  return S;
}
static std::string mutate(std::string S, Rng &R) {
  unsigned N = 1 + R.below(3);
  while (N--) {
    size_t I = R.below(S.size() + 1);
    switch (R.below(7)) {
    case 0: if (!S.empty()) S.erase(R.below(S.size()), 1 + R.below(3)); break;
    case 1: S.insert(I, 1, (char)R.below(256)); break;
    case 2: S.insert(I, 1, "[]{},:\"\\0-.e \n"[R.below(14)]); break;
    case 3: if (!S.empty()) S[R.below(S.size())] = "[]{},:\"\\0-.e\0i\n"[R.below(16)]; break;
    case 4: S.resize(R.below(S.size() + 1)); break;
    case 5: { size_t L = R.below(std::min<size_t>(S.size() - std::min(I, S.size()), 20) + 1); S.insert(R.below(S.size() + 1), S.substr(I, L)); break; }
    default: if (!S.empty()) S[R.below(S.size())] ^= 1 << R.below(8);
    }
  }
  return S;
}
template<class T> static void once(vp::Case &c, json::Parser<> &P, T &W, bool &Ok) {
  try { Ok = P.parse(W); }
  catch (vp::Stop &) { throw; }
  catch (std::exception &E) { c.fail("exception", E.what()); }
  catch (...) { c.fail("exception", "unknown"); }
  if (!Ok) VP_CHECK(c, P.hasErrors(), "no_error", "rejected, but no error is recorded");
}
// A pointer refers to an array if the document is an array.
template<class T> struct Held {
  T V; bool Array;
  explicit Held(const std::string &J) {
    Model<T>::reset(V);
    size_t I = J.find_first_not_of(" \t\n\v\f\r");
    Array = I != std::string::npos && (J[I] == '[' || J[I] == '{');
  }
  ~Held() {
    if constexpr (std::is_pointer<T>::value) { if (Array) delete[] V; else Model<T>::release(V); }
    else if constexpr (!Model<T>::HasPtr) Model<T>::release(V);
  }
  Held(const Held &) = delete;
  bool comparable() const { return !Model<T>::HasPtr || (std::is_pointer<T>::value && !Array); }
};
template<class T> static void fuzz(vp::Case &c) {
  std::string J;
  switch (c.R.below(6)) {
  case 0: J = arbitrary(c.R); break;
  case 1: J = deep(c.R); break;
  default: {
    Own<T> V(Model<T>::gen(c.R));
    Enc E{c.R, true, true, {}}; E.dom(Model<T>::dom(V.V, c.R));
    J = layout(E.T, c.R);
    if (c.R.chance(9, 10)) J = mutate(J, c.R);
  } }
  c.input(J);
  bool A, B, C;
  {
    json::Parser<> P(J);
    Held<T> W(J), X(J), Y(J);
    once(c, P, W.V, A);
    once(c, P, X.V, B);
    VP_CHECK(c, A == B, "repeat", "the same parser answers differently the second time");
    json::Parser<> Q(J);
    once(c, Q, Y.V, C);
    VP_CHECK(c, A == C, "repeat", "another parser answers differently");
    if (A && W.comparable()) VP_CHECK(c, Model<T>::eq(W.V, X.V) && Model<T>::eq(W.V, Y.V), "repeat", "the same document is parsed to different values");
    c.distinct(J);
    c.count(A ? "accepted" : "rejected");
    // Parsing to another type afterwards is as good as with a new parser.
    std::string S1, S2; bool D1 = false, D2 = false;
    once(c, P, S1, D1);
    json::Parser<> Z(J);
    once(c, Z, S2, D2);
    VP_CHECK(c, D1 == D2 && (!D1 || S1 == S2), "repeat", "a used parser answers differently from a new one");
  }
}
// What a parser leaves behind in raw pointers of a rejected compound can not be
// told from uninitialized memory, so allocation balance is not asked of those.
template<class T> constexpr bool Balanced = !Model<T>::HasPtr || std::is_pointer<T>::value;
VP_FAMILY(VP_PART("J02.types"), 16000, 500000) {
  size_t I = Types::with(c.Index, [&](auto T) { using U = typename decltype(T)::type; if constexpr (Balanced<U>) fuzz<U>(c); });
  c.member("types", I);
}
VP_FAMILY_NOLEAK(VP_PART("J02.pointers"), 3000, 100000) {
  Types::with(c.Index, [&](auto T) { using U = typename decltype(T)::type; if constexpr (!Balanced<U>) fuzz<U>(c); });
}
#if PART == 0
// Every byte string up to a length over a small alphabet.
VP_FAMILY("J02.short", 27, 27) {
  static const char Al[] = "[]{},:\"\\0-n.e au1f\n+tslrx";
  size_t N = 26, I = c.Index;
  auto run = [&](const std::string &J) {
    c.input(J);
    bool A, B, C, D, E, F;
    { json::Parser<> P(J); std::string S; once(c, P, S, A); int X; once(c, P, X, B); double Y; once(c, P, Y, C); }
    { json::Parser<> P(J); std::vector<int> V; once(c, P, V, D); Held<char *> S(J); once(c, P, S.V, E); Held<int *> I(J); once(c, P, I.V, E); }
    { json::Parser<> P(J); std::map<std::string, bool> M; once(c, P, M, F); char X; once(c, P, X, A); std::optional<bool> O; once(c, P, O, B); }
    { json::Parser<> P(J); ROne R; R[ROne::A] = 0; once(c, P, R, A); json::Parser<> Q(J); auto Obj = Q.parse(); VP_CHECK(c, !Obj && Q.hasErrors(), "named", ""); }
    c.distinct(J); c.count("short_strings");
  };
  if (I == 26) { run(""); return; }
  std::string S(1, Al[I]);
  run(S);
  for (size_t A = 0; A < N; ++A) {
    run(S + Al[A]);
    for (size_t B = 0; B < N; ++B) {
      run(S + Al[A] + Al[B]);
      if (c.Thorough || strchr("\"[{", Al[I])) for (size_t D = 0; D < N; ++D) run(S + Al[A] + Al[B] + Al[D]);
    }
  }
}
// A named document of registered objects.
VP_MAIN
#endif
