// J12: JSON under locales of the program: what is parsed, serialized and told
// about errors in the "C" locale is so in every other one.
#include "json_model.h"
#include <clocale>
#include <dirent.h>
#include <locale>
using namespace jm;

namespace {
// Locales a program may choose by setlocale(), and by std::locale::global().
std::vector<std::string> &names() {
  static std::vector<std::string> N = []() {
    std::vector<std::string> V;
    const char *Path = getenv("LOCPATH");
    if (DIR *D = Path ? opendir(Path) : nullptr) { while (auto *E = readdir(D)) if (E->d_name[0] != '.') V.push_back(E->d_name); closedir(D); }
    std::sort(V.begin(), V.end());
    return V;
  }();
  return N;
}
// A C++ locale without a name: streams write 1.234,5 and "ja".
struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "ja"; }
  std::string do_falsename() const override { return "nein"; }
};
struct Classes : std::ctype<char> {
  static const mask *table() { static mask T[table_size]; static bool Once = (std::copy(classic_table(), classic_table() + table_size, T), T[0xa0] |= space, std::fill(T + 0xc0, T + 256, mask(alpha | lower)), true); (void)Once; return T; }
  Classes() : std::ctype<char>(table()) {}
};
struct Locale {
  std::string Name;
  Locale(vp::Case &c) {
    size_t K = c.R.below(2 * names().size() + 2);
    if (K < names().size()) { Name = names()[K]; VP_CHECK(c, std::setlocale(LC_ALL, Name.c_str()), "harness", "no locale " + Name); }
    else if (K < 2 * names().size()) { Name = names()[K - names().size()]; std::locale::global(std::locale(Name.c_str())); Name = "global " + Name; }
    else if (K == 2 * names().size()) { std::locale::global(std::locale(std::locale::classic(), new Punct)); Name = "global punctuation"; }
    else { std::locale::global(std::locale(std::locale::classic(), new Classes)); Name = "global classes"; }
    c.member("locales", K); c.count(localeconv()->decimal_point[0] == '.' ? "points" : "other_points");
  }
  ~Locale() { std::locale::global(std::locale::classic()); std::setlocale(LC_ALL, "C"); }
};
std::string damaged(vp::Rng &R, std::string J) {
  static const char *P[] = {"{", "}", "[", "]", ":", ",", "\"", "\\", " ", "0", "-", "e", "x", "\n", "\xa0", "\xe4", "\xff", "\xd9\xab", "\xc2\xa0", "1,5", "1.5", ".", ",", "1.000", "\"1,5\"", "\"1.5\"", "\x83\x5c", "true", "ja", "\v", "\x85"};
  for (size_t N = R.below(4); N-- > 0;) {
    size_t At = R.below(J.size() + 1);
    switch (R.below(5)) {
    case 0: J.erase(At, 1 + R.below(3)); break;
    case 1: case 2: J.insert(At, R.pick(P)); break;
    case 3: if (At < J.size()) J[At] = R.pick(P)[0]; break;
    case 4: J.resize(R.chance(1, 4) ? At : J.size()); break;
    }
  }
  return J;
}
}

template<class T> static void parses(vp::Case &c) {
  std::string J;
  { Own<T> V(Model<T>::gen(c.R)); J = json::Parser<>::unparse(V.V); }
  if (c.R.chance(3, 4)) J = damaged(c.R, J);
  c.input(J);
  json::Parser<> P(J); Own<T> V, W; bool Ok = P.parse(V.V); std::string E = errorsOf(P.errors()), Text, TextW, EW; bool OkW;
  if (Ok) Text = json::Parser<>::unparse(V.V);
  std::string Name;
  {
    Locale L(c); Name = L.Name;
    json::Parser<> Q(J); OkW = Q.parse(W.V); EW = errorsOf(Q.errors());
  }
  if (OkW) TextW = json::Parser<>::unparse(W.V);
  VP_CHECK(c, Ok == OkW && E == EW && Text == TextW, "parse", Name + vp::fmt(": %d ", OkW) + TextW + EW + vp::fmt(" instead of %d ", Ok) + Text + E);
  c.count(Ok ? "accepted_documents" : "rejected_documents"); c.distinct(Name + J); if (J.size() > 12) c.sample(Name + ": " + J);
}
VP_FAMILY_NOLEAK(VP_PART("J12.parse"), 3000, 40000) { c.member("types", Types::with(c.Index, [&](auto T) { parses<typename decltype(T)::type>(c); })); }

template<class T> static void unparses(vp::Case &c) {
  const Own<T> V(Model<T>::gen(c.R)); std::string J = json::Parser<>::unparse(V.V), Name, Got; c.input(J);
  { Locale L(c); Name = L.Name; Got = json::Parser<>::unparse(V.V); }
  VP_CHECK(c, Got == J, "unparse", Name + ": " + Got);
  c.count("serialized_objects"); c.distinct(Name + J); if (J.size() > 12) c.sample(Name + ": " + J);
}
VP_FAMILY_NOLEAK(VP_PART("J12.unparse"), 3000, 40000) { c.member("types", Types::with(c.Index, [&](auto T) { unparses<typename decltype(T)::type>(c); })); }

#if !defined(VP_NO_MAIN)
VP_FAMILY_NOLEAK("J12.tokens", 20000, 300000) {
  std::string J = damaged(c.R, damaged(c.R, damaged(c.R, "[1.5, \"a\", true]"))); c.input(J);
  auto tokens = [&J]() {
    std::string S; json::Lexer L(J);
    while (L.goToNext()) S += vp::fmt("%d:%d-%d>%d%d ", L.is(json::Token::NUMBER) ? 1 : L.is(json::Token::IDENTIFIER) ? 2 : L.is(json::Token::KEYWORD) ? 3 : L.is(json::Token::INVALID) ? 4 : 5, (int)L.start(), (int)L.end(), (int)L.next(), (int)L.hasErrors());
    return S + errorsOf(L.errors());
  };
  std::string Want = tokens(), Got, Name;
  { Locale L(c); Name = L.Name; Got = tokens(); }
  VP_CHECK(c, Got == Want, "tokens", Name + ": " + Got + " instead of " + Want);
  c.count("texts"); c.distinct(Name + J); c.sample(Name + ": " + J);
}
// Numbers of all magnitudes, written and read under different locales.
VP_FAMILY_NOLEAK("J12.numbers", 20000, 300000) {
  double D; float F; uint64_t B = c.R.next();
  if (c.R.chance(1, 2)) std::memcpy(&D, &B, 8); else D = (double)c.R.range(-1000000, 1000000) / (double)(1 << c.R.below(12));
  uint32_t H = (uint32_t)c.R.next(); if (c.R.chance(1, 2)) std::memcpy(&F, &H, 4); else F = (float)c.R.range(-1000, 1000) / 64;
  if (!std::isfinite(D)) D = 1.5; if (!std::isfinite(F)) F = -0.25f;
  std::vector<double> V{D, -D}, W; std::map<std::string, float> M{{"1.5", F}}, N; long I = (long)c.R.next();
  std::string A, X, Y, Z; bool Ok;
  { Locale L(c); A = L.Name; c.input(A + vp::fmt(" %a %a", D, (double)F)); X = json::Parser<>::unparse(V); Y = json::Parser<>::unparse(M); Z = json::Parser<>::unparse(I); }
  VP_CHECK(c, X == json::Parser<>::unparse(V) && Y == json::Parser<>::unparse(M) && Z == json::Parser<>::unparse(I), "unparse", A + ": " + X + Y + Z);
  { Locale L(c); A += ", " + L.Name; c.input(A + ": " + X + Y); json::Parser<> P(X), Q(Y); Ok = P.parse(W); Ok = Q.parse(N) && Ok; }
  VP_CHECK(c, Ok && W.size() == 2 && std::memcmp(&W[0], &V[0], 16) == 0 && N.size() == 1 && N.begin()->first == "1.5" && std::memcmp(&N.begin()->second, &F, 4) == 0, "parse", A + ": " + X + Y);
  c.count("numbers"); c.distinct(X + Y + A); c.sample(A + ": " + X + Y);
}
VP_MAIN
#endif
