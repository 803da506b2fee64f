// J10, J11: the documented means to extend the conversions of JSON: tokens of
// the lexer, traversal of compound values, user-defined conversions of types
// and of single fields.
#include "vp.h"
#include <bcl/Json.h>
#include <variant>

using json::Keyword; using json::Lexer; using json::Position; using json::Token;

namespace {
struct Tok { Token Kind; size_t B, E; bool Integral; int Kw; };
const char *const Words[] = {"true", "false", "null"};

template<size_t N> char ch(vp::Rng &R, const char (&S)[N]) { return S[R.below(N - 1)]; }
void space(vp::Rng &R, std::string &J, bool Need = false) {
  size_t N = R.chance(1, 2) ? 0 : R.below(4);
  if (Need && N == 0) N = 1;
  while (N--) J += ch(R, " \t\n\v\f\r");
}
std::string literal(vp::Rng &R) {
  std::string S = "\"";
  for (size_t N = R.size(12); N--;) {
    switch (R.below(8)) {
    case 0: S += "\\\""; break;
    case 1: S += "\\\\"; break;
    case 2: { const char *E[] = {"\\n", "\\u0041", "\\/", "\\b", "\\t", "\\x", "\\u"}; S += R.pick(E); break; }
    case 3: S += ch(R, "{}[],:truefalsenull0123456789+-. \t"); break;
    case 4: { char Ch; do Ch = (char)R.below(256); while (Ch == '"' || Ch == '\\'); S += Ch; break; }
    default: S += (char)('a' + R.below(26));
    }
  }
  return S + '"';
}
std::string number(vp::Rng &R, bool &Int) {
  std::string S;
  Int = true;
  if (R.chance(1, 3)) S += '-'; else if (R.chance(1, 8)) S += '+';
  for (size_t N = 1 + R.size(20); N--;) S += (char)('0' + R.below(10));
  if (R.chance(1, 3)) { Int = false; S += '.'; for (size_t N = R.size(10); N--;) S += (char)('0' + R.below(10)); }
  if (R.chance(1, 4)) { Int = false; S += R.chance(1, 2) ? 'e' : 'E'; if (R.chance(1, 2)) S += R.chance(1, 2) ? '-' : '+'; for (size_t N = 1 + R.below(3); N--;) S += (char)('0' + R.below(10)); }
  return S;
}
void add(vp::Rng &R, std::string &J, std::vector<Tok> &T, const std::string &Text, Token K, bool Int = false, int Kw = -1) {
  // Numbers and words must not run into each other.
  auto glued = [](char A) { return std::isalnum((unsigned char)A) || A == '+' || A == '-' || A == '.'; };
  space(R, J, !J.empty() && glued(J.back()) && glued(Text[0]));
  T.push_back({K, J.size(), J.size() + Text.size() - 1, Int, Kw});
  J += Text;
}
void addAny(vp::Rng &R, std::string &J, std::vector<Tok> &T) {
  switch (R.below(7)) {
  case 0: case 1: add(R, J, T, literal(R), Token::IDENTIFIER); break;
  case 2: case 3: { bool I; auto S = number(R, I); add(R, J, T, S, Token::NUMBER, I); break; }
  case 4: { int K = (int)R.below(3); add(R, J, T, Words[K], Token::KEYWORD, false, K); break; }
  default: { char Ch = ch(R, "[]{},:"); add(R, J, T, std::string(1, Ch), (Token)Ch); }
  }
}

// What the lexer has to tell while it is at a token, before the first one (-1)
// or after the last one (size of the list).
void state(vp::Case &c, const Lexer &L, const std::string &J, const std::vector<Tok> &T, long At, const char *What) {
  size_t B = 0, E = 0, N = 0; Token K = Token::INVALID; bool Int = false; int Kw = -1;
  if (At >= (long)T.size()) B = E = N = J.size();
  else if (At >= 0) { B = T[At].B; E = T[At].E; N = E + 1; K = T[At].Kind; Int = T[At].Integral; Kw = T[At].Kw; }
  auto Where = [&] { return vp::fmt("at token %ld: [%zu, %zu] next %zu instead of [%zu, %zu] next %zu", At, (size_t)L.start(), (size_t)L.end(), (size_t)L.next(), B, E, N); };
  VP_CHECK(c, L.start() == B && L.end() == E && L.next() == N, What, Where());
  static const Token Kinds[] = {Token::LEFT_BRACKET, Token::RIGHT_BRACKET, Token::LEFT_BRACE, Token::RIGHT_BRACE, Token::COMMA, Token::COLON, Token::QUOTE,
    Token::ESCAPE, Token::DOT, Token::PLUS, Token::MINUS, Token::NUMBER, Token::IDENTIFIER, Token::KEYWORD, Token::INVALID};
  for (auto X : Kinds) VP_CHECK(c, L.is(X) == (X == K), What, vp::fmt("kind '%c' of a token of kind '%c': ", (char)X, (char)K) + Where());
  VP_CHECK(c, L.isIntegral() == (K == Token::NUMBER && Int) && L.isFloatingPoint() == (K == Token::NUMBER && !Int), What, "kind of a number: " + Where());
  for (int I = 0; I < 3; ++I) VP_CHECK(c, L.isKeyword((Keyword)I) == (Kw == I), What, std::string("keyword ") + Words[I] + ": " + Where());
  auto Q = L.discardQuote();
  VP_CHECK(c, K == Token::IDENTIFIER ? Q.first == B + 1 && Q.second == E - 1 : Q.first == B && Q.second == E, What, "quotes: " + Where());
  VP_CHECK(c, L.json() == J, What, "another document");
}
// Errors are recorded exactly by what fails.
template<class F> void told(vp::Case &c, Lexer &L, bool Expect, const char *What, F Fn) {
  size_t N = L.errors().size() + L.errors().internal_size();
  bool Ok = Fn();
  VP_CHECK(c, Ok == Expect, What, Expect ? "it fails" : "it succeeds");
  size_t M = L.errors().size() + L.errors().internal_size();
  VP_CHECK(c, Ok ? M == N : M > N, What, vp::fmt("%zu errors before, %zu after", N, M));
  VP_CHECK(c, L.hasErrors() == (M > 0), What, "errors");
}
void walk(vp::Case &c, Lexer &L, const std::string &J, const std::vector<Tok> &T, size_t Steps, std::string &In) {
  auto &R = c.R;
  std::vector<long> Stack; long At = -1; long End = (long)T.size();
  state(c, L, J, T, At, "start");
  while (Steps--) {
    switch (R.below(14)) {
    case 0: In += "store "; L.storePosition(); Stack.push_back(At); break;
    case 1: case 2: In += "restore "; L.restorePosition(); if (!Stack.empty()) { At = Stack.back(); Stack.pop_back(); c.count("restored"); } break;
    case 3: if (R.chance(1, 3)) { In += "reset "; L.resetPosition(); At = -1; } break;
    case 4: if (T.size()) {
      At = (long)R.below(T.size());
      size_t From = At ? T[At - 1].E + 1 : 0, Pos = From + R.below(T[At].B - From + 1);
      In += vp::fmt("set%zu ", Pos); L.setPosition(Pos); c.count("set_positions"); break;
    } break;
    case 5: {
      Token S[] = {Token::LEFT_BRACKET, Token::RIGHT_BRACKET, Token::LEFT_BRACE, Token::RIGHT_BRACE, Token::COMMA, Token::COLON};
      Token X = R.pick(S); bool Is = At >= 0 && At < End && T[At].Kind == X;
      told(c, L, Is, "checkSpecial", [&] { return L.checkSpecial(X); }); break;
    }
    case 6: told(c, L, At >= 0 && At < End && T[At].Kind == Token::IDENTIFIER, "checkIdentifier", [&] { return L.checkIdentifier(); }); break;
    case 7: told(c, L, At >= 0 && At < End && (T[At].Kind == Token::IDENTIFIER || T[At].Kind == Token::NUMBER || T[At].Kind == Token::KEYWORD), "checkValue", [&] { return L.checkValue(); }); break;
    default:
      In += "next ";
      told(c, L, At + 1 < End, "goToNext", [&] { return L.goToNext(); });
      At = std::min(At + 1, End); c.count("tokens"); c.member("kinds", At < End ? (uint64_t)T[At].Kind * 4 + T[At].Kw + 1 : 0);
    }
    c.input(In);
    state(c, L, J, T, At, "position");
  }
}
}

VP_FAMILY("J10.tokens", 12000, 200000) {
  auto &R = c.R;
  std::string J; std::vector<Tok> T;
  for (size_t N = R.size(20); N--;) addAny(R, J, T);
  space(R, J);
  std::string In = J + " | "; c.input(In);
  Lexer L(J);
  VP_CHECK(c, !L.hasErrors() && L.errors().empty(), "errors", "");
  walk(c, L, J, T, 4 + R.size(60), In);
  c.distinct(J); c.sample(In);
}

// Any bytes: tokens follow one another, with nothing but spaces in between.
VP_FAMILY("J10.arbitrary", 12000, 200000) {
  auto &R = c.R;
  std::string J; std::vector<Tok> Ignored;
  switch (R.below(3)) {
  case 0: for (size_t N = R.size(40); N--;) J += (char)R.below(256); break;
  case 1: for (size_t N = R.size(40); N--;) J += ch(R, "{}[],:\"\\+-.eE0123456789truefalsn \n"); break;
  default: for (size_t N = R.size(10); N--;) addAny(R, J, Ignored); if (J.size()) for (size_t N = R.below(4); N--;) { size_t K = R.below(J.size()); if (R.chance(1, 2)) J[K] = (char)R.below(256); else J.insert(K, 1, ch(R, "\"\\ +-.e0")); }
  }
  c.input(J);
  Lexer L(J);
  size_t Next = 0, N = 0;
  auto isSpace = [](char Ch) { return Ch == ' ' || (Ch >= '\t' && Ch <= '\r'); };
  for (;; ++N) {
    VP_CHECK(c, N <= J.size(), "progress", "more tokens than characters");
    size_t Errors = L.errors().size() + L.errors().internal_size();
    bool Ok = L.goToNext();
    VP_CHECK(c, Ok == (L.errors().size() + L.errors().internal_size() == Errors), "errors", "");
    if (!Ok) {
      VP_CHECK(c, L.start() == J.size() && L.end() == J.size() && L.next() == J.size() && L.is(Token::INVALID), "end", vp::fmt("[%zu, %zu] next %zu of %zu", (size_t)L.start(), (size_t)L.end(), (size_t)L.next(), J.size()));
      break;
    }
    VP_CHECK(c, L.start() >= Next && L.end() >= L.start() && L.next() == L.end() + 1 && L.next() <= J.size(), "range", vp::fmt("[%zu, %zu] next %zu, former %zu", (size_t)L.start(), (size_t)L.end(), (size_t)L.next(), Next));
    for (size_t I = Next; I < L.start(); ++I) VP_CHECK(c, isSpace(J[I]), "gap", "something is skipped");
    VP_CHECK(c, !isSpace(J[L.start()]), "space", "a token starts with a space");
    std::string Text = J.substr(L.start(), L.end() - L.start() + 1);
    if (L.is(Token::IDENTIFIER)) VP_CHECK(c, Text.size() > 1 && Text[0] == '"' && Text.back() == '"', "identifier", Text);
    else if (L.is(Token::NUMBER)) VP_CHECK(c, (std::isdigit((unsigned char)Text[0]) || Text[0] == '-' || Text[0] == '+') && Text.find_first_not_of("0123456789+-.eE") == std::string::npos && L.isIntegral() == (Text.find_first_of(".eE") == std::string::npos), "number", Text);
    else if (L.is(Token::KEYWORD)) { int K = 0; for (int I = 0; I < 3; ++I) if (L.isKeyword((Keyword)I)) { ++K; VP_CHECK(c, Text == Words[I], "keyword", Text); } VP_CHECK(c, K == 1, "keyword", Text); }
    else VP_CHECK(c, Text.size() == 1, "special", Text);
    if (std::string("[]{},:").find(Text) != std::string::npos) VP_CHECK(c, L.is((Token)Text[0]), "special", Text);
    Next = L.next();
  }
  // What is left is an unfinished string.
  std::string Rest = J.substr(Next);
  while (!Rest.empty() && isSpace(Rest[0])) Rest.erase(0, 1);
  if (!Rest.empty()) {
    VP_CHECK(c, Rest[0] == '"', "rest", Rest);
    for (size_t I = 1; I < Rest.size(); ++I) { if (Rest[I] == '\\') ++I; else VP_CHECK(c, Rest[I] != '"', "rest", Rest); }
    c.count("unfinished");
  }
  c.count("arbitrary_tokens", N); c.distinct(J); if (J.size() > 10) c.sample(J);
}

// Nested values, as lists of tokens.
namespace {
void value(vp::Rng &R, std::string &J, std::vector<Tok> &T, int Depth) {
  unsigned K = Depth <= 0 ? (unsigned)R.below(4) : (unsigned)R.below(8);
  switch (K) {
  case 0: case 1: add(R, J, T, literal(R), Token::IDENTIFIER); break;
  case 2: { bool I; auto S = number(R, I); add(R, J, T, S, Token::NUMBER, I); break; }
  case 3: { int W = (int)R.below(3); add(R, J, T, Words[W], Token::KEYWORD, false, W); break; }
  case 4: case 5:
    add(R, J, T, "[", Token::LEFT_BRACKET);
    for (size_t N = R.size(5), I = 0; I < N; ++I) { if (I) add(R, J, T, ",", Token::COMMA); value(R, J, T, Depth - 1); }
    add(R, J, T, "]", Token::RIGHT_BRACKET); break;
  default:
    add(R, J, T, "{", Token::LEFT_BRACE);
    for (size_t N = R.size(5), I = 0; I < N; ++I) { if (I) add(R, J, T, ",", Token::COMMA); add(R, J, T, literal(R), Token::IDENTIFIER); add(R, J, T, ":", Token::COLON); value(R, J, T, Depth - 1); }
    add(R, J, T, "}", Token::RIGHT_BRACE);
  }
}
// Independent judge: position after a value which starts at a token, or -1.
long judge(const std::vector<Tok> &T, size_t I) {
  auto is = [&](size_t K, Token X) { return K < T.size() && T[K].Kind == X; };
  if (I >= T.size()) return -1;
  if (T[I].Kind == Token::IDENTIFIER || T[I].Kind == Token::NUMBER || T[I].Kind == Token::KEYWORD) return (long)I + 1;
  bool Obj = T[I].Kind == Token::LEFT_BRACE;
  if (!Obj && T[I].Kind != Token::LEFT_BRACKET) return -1;
  Token Last = Obj ? Token::RIGHT_BRACE : Token::RIGHT_BRACKET;
  if (is(I + 1, Last)) return (long)I + 2;
  for (++I;; ++I) {
    if (Obj) { if (!is(I, Token::IDENTIFIER) || !is(I + 1, Token::COLON)) return -1; I += 2; }
    long N = judge(T, I); if (N < 0) return -1;
    I = (size_t)N;
    if (is(I, Last)) return (long)I + 1;
    if (!is(I, Token::COMMA)) return -1;
  }
}
// Rewrites a list of tokens with one of them lost, repeated, exchanged or replaced.
void spoil(vp::Rng &R, std::string &J, std::vector<Tok> &T) {
  std::vector<std::pair<Tok, std::string>> L;
  for (auto &X : T) L.push_back({X, J.substr(X.B, X.E - X.B + 1)});
  for (size_t N = 1 + R.below(2); N-- && !L.empty();) {
    size_t I = R.below(L.size());
    switch (R.below(4)) {
    case 0: L.erase(L.begin() + I); break;
    case 1: { auto X = L[I]; L.insert(L.begin() + R.below(L.size() + 1), X); break; }
    case 2: std::swap(L[I], L[R.below(L.size())]); break;
    default: { char Ch = ch(R, "[]{},:"); L[I] = {Tok{(Token)Ch, 0, 0, false, -1}, std::string(1, Ch)}; }
    }
  }
  J.clear(); T.clear();
  for (auto &X : L) add(R, J, T, X.second, X.first.Kind, X.first.Integral, X.first.Kw);
}
}

VP_FAMILY("J10.skip", 10000, 150000) {
  auto &R = c.R;
  std::string J; std::vector<Tok> T;
  do { J.clear(); T.clear(); value(R, J, T, 1 + (int)R.size(8)); } while (T.size() < 2);
  if (R.chance(1, 2)) spoil(R, J, T);
  if (R.chance(1, 2)) for (size_t N = R.below(4); N--;) addAny(R, J, T);
  if (T.empty()) return;
  size_t From = R.chance(1, 2) ? 0 : R.below(T.size());
  std::string In = vp::fmt("from token %zu: ", From) + J; c.input(In);
  Lexer L(J);
  L.storePosition();
  for (size_t I = 0; I <= From; ++I) VP_CHECK(c, L.goToNext(), "goToNext", "");
  bool Compound = L.is(Token::LEFT_BRACE) || L.is(Token::LEFT_BRACKET);
  long End = judge(T, From);
  if (R.chance(1, 2)) {
    bool Ok = Compound && End >= 0;
    told(c, L, Ok, "skipInternal", [&] { return L.skipInternal(); });
    if (Ok) { state(c, L, J, T, End - 1, "skipped"); c.count("skipped"); } else c.count("not_skipped");
  } else {
    size_t Count = 0, Max = 0; bool Valid = Compound && End >= 0, Obj = L.is(Token::LEFT_BRACE), Keys = true;
    L.storePosition();
    auto Rs = std::make_tuple(Position(0), Position(0), false);
    Rs = json::Parser<>::numberOfKeys(L);
    bool Ok = std::get<2>(Rs);
    if (Valid) { long N = (long)From + 1; while (N < End - 1) { if (Obj) { Keys = false; N += 2; } N = judge(T, (size_t)N) + 1; ++Count; } Max = Count - 1; }
    (void)Max;
    if (!Valid) VP_CHECK(c, !Ok, "numberOfKeys", "something which is not a value");
    if (Valid && Keys) VP_CHECK(c, Ok && std::get<0>(Rs) == Count && (Count == 0 || std::get<1>(Rs) == Count - 1), "numberOfKeys", vp::fmt("%zu, %zu, %d instead of %zu", (size_t)std::get<0>(Rs), (size_t)std::get<1>(Rs), Ok, Count));
    if (Ok) state(c, L, J, T, (long)From, "after-count");
    c.count(Ok ? "counted" : "not_counted");
    // The position stored before is the one which is restored now.
    L.restorePosition();
    state(c, L, J, T, (long)From, "restored");
  }
  L.restorePosition();
  state(c, L, J, T, -1, "restored-first");
  c.distinct(In); c.sample(In);
}

// Indexes of an array which is written as an object.
VP_FAMILY("J10.keys", 6000, 80000) {
  auto &R = c.R;
  std::string J = "{"; std::set<unsigned long long> S; bool Ok = true; size_t N = R.size(12), Max = 0;
  for (size_t I = 0; I < N; ++I) {
    unsigned long long X = R.chance(1, 3) ? R.below(15) : I; if (R.chance(1, 30)) X = R.next();
    std::string K = std::to_string(X);
    if (R.chance(1, 60)) { const char *B[] = {"", "x", "-1", "1.5", "18446744073709551616", "1e2", "null", "0x1"}; K = R.pick(B); Ok = false; }
    if (!S.insert(X).second) Ok = false;
    Max = std::max<size_t>(Max, X);
    if (I) J += ',';
    space(R, J); J += '"' + K + "\""; space(R, J); J += ':'; space(R, J);
    std::vector<Tok> T; value(R, J, T, 2);
  }
  J += '}'; c.input(J);
  Lexer L(J); L.goToNext();
  auto Rs = json::Parser<>::numberOfKeys(L);
  VP_CHECK(c, std::get<2>(Rs) == Ok, "keys", Ok ? "refused" : "accepted");
  if (Ok) { VP_CHECK(c, std::get<0>(Rs) == N && (N == 0 || std::get<1>(Rs) == Max), "keys", vp::fmt("%zu keys up to %zu", (size_t)std::get<0>(Rs), (size_t)std::get<1>(Rs))); VP_CHECK(c, L.start() == 0 && L.is(Token::LEFT_BRACE) && !L.hasErrors(), "position", ""); }
  c.count(Ok ? "index_objects" : "refused_objects"); c.distinct(J);
}

// --- user-defined conversions
namespace {
struct Any {
  enum { Null, Bool, Int, Dbl, Str, Arr, Obj } K = Null;
  bool B = false; long long I = 0; double D = 0; std::string S;
  std::vector<Any> Items; std::vector<std::string> Keys;
  bool operator==(const Any &O) const { return K == O.K && B == O.B && I == O.I && (D == O.D) && S == O.S && Items == O.Items && Keys == O.Keys; }
};
// What the conversions of Any have seen; places where they fail.
struct Trace { std::vector<size_t> Starts; std::vector<std::pair<size_t, size_t>> Places; size_t Calls = 0, FailAt = ~size_t(0); bool Throws = false; bool Peek = false; std::string Wrong; } ; VP_TLS Trace Tr;
}
namespace json {
template<> struct Traits<Any> {
  static bool parse(Any &V, Lexer &L) {
    Tr.Starts.push_back(L.start());
    if (Tr.Peek) { // looks ahead and comes back
      L.storePosition();
      size_t E = L.errors().size();
      for (int I = 0; I < 3 && L.next() < L.json().size() && L.goToNext(); ++I);
      (void)E;
      L.restorePosition();
    }
    V = Any();
    if (L.is(Token::LEFT_BRACE)) { V.K = Any::Obj; return Parser<>::traverse<Traits<Any>>(V, L); }
    if (L.is(Token::LEFT_BRACKET)) { V.K = Any::Arr; return Parser<>::traverse<Traits<Any>>(V, L); }
    if (L.isKeyword(Keyword::NO_VALUE)) { V.K = Any::Null; return true; }
    if (L.isKeyword(Keyword::TRUE) || L.isKeyword(Keyword::FALSE)) { V.K = Any::Bool; return Traits<bool>::parse(V.B, L); }
    if (L.isIntegral()) { V.K = Any::Int; return Traits<long long>::parse(V.I, L); }
    if (L.isFloatingPoint()) { V.K = Any::Dbl; return Traits<double>::parse(V.D, L); }
    V.K = Any::Str;
    return Traits<std::string>::parse(V.S, L);
  }
  static bool parse(Any &V, Lexer &L, std::pair<Position, Position> Key) {
    Tr.Places.push_back({(size_t)Key.first, (size_t)Key.second});
    if (Tr.Calls++ == Tr.FailAt) { if (Tr.Throws) throw std::runtime_error("conversion"); return false; }
    if (V.K == Any::Obj) {
      std::string K;
      if (L.json()[Key.first] != '"' || L.json()[Key.second] != '"') Tr.Wrong = "no quotes around a key";
      L.storePosition(); L.setPosition(Key.first); bool Ok = Traits<std::string>::parse(K, L); L.restorePosition();
      if (!Ok) Tr.Wrong = "a key can not be converted";
      V.Keys.push_back(K);
    } else if (Key.first != 0 || Key.second != V.Items.size()) Tr.Wrong = "a wrong number of an element";
    V.Items.emplace_back();
    return parse(V.Items.back(), L);
  }
  static void unparse(String &J, const Any &V) {
    switch (V.K) {
    case Any::Null: J += "null"; break;
    case Any::Bool: Traits<bool>::unparse(J, V.B); break;
    case Any::Int: Traits<long long>::unparse(J, V.I); break;
    case Any::Dbl: Traits<double>::unparse(J, V.D); break;
    case Any::Str: Traits<std::string>::unparse(J, V.S); break;
    case Any::Arr: J += '['; for (auto &X : V.Items) { if (&X != &V.Items[0]) J += ','; unparse(J, X); } J += ']'; break;
    default: J += '{'; for (size_t I = 0; I < V.Items.size(); ++I) { if (I) J += ','; Traits<std::string>::unparse(J, V.Keys[I]); J += ':'; unparse(J, V.Items[I]); } J += '}';
    }
  }
};
}
namespace {
std::string plain(vp::Rng &R) { std::string S; for (size_t N = R.size(10); N--;) S += (char)(R.chance(1, 6) ? ch(R, "\"\\/{}[]:, ") : (char)('a' + R.below(26))); return S; }
std::string quoted(const std::string &S) { std::string Q = "\""; for (char Ch : S) { if (Ch == '"' || Ch == '\\') Q += '\\'; Q += Ch; } return Q + '"'; }
// A value, its text and where each of its parts and keys starts, in the order of the text.
Any any(vp::Rng &R, std::string &J, std::vector<size_t> &Starts, std::vector<std::pair<size_t, size_t>> &Places, int Depth) {
  Any V;
  Starts.push_back(J.size());
  switch (Depth <= 0 ? R.below(5) : R.below(9)) {
  case 0: J += "null"; break;
  case 1: V.K = Any::Bool; V.B = R.chance(1, 2); J += V.B ? "true" : "false"; break;
  case 2: V.K = Any::Int; V.I = R.chance(1, 3) ? (long long)R.next() : R.range(-100, 100); J += std::to_string(V.I); break;
  case 3: V.K = Any::Dbl; V.D = (double)(2 * R.range(-1000, 1000) + 1) / 8; J += vp::fmt("%.3f", V.D); break;
  case 4: V.K = Any::Str; V.S = plain(R); J += quoted(V.S); break;
  case 5: case 6:
    V.K = Any::Arr; J += '['; space(R, J);
    for (size_t N = R.size(6), I = 0; I < N; ++I) {
      if (I) { J += ','; space(R, J); }
      Places.push_back({0, I});
      V.Items.push_back(any(R, J, Starts, Places, Depth - 1)); space(R, J);
    }
    J += ']'; break;
  default:
    V.K = Any::Obj; J += '{'; space(R, J);
    for (size_t N = R.size(6), I = 0; I < N; ++I) {
      if (I) { J += ','; space(R, J); }
      V.Keys.push_back(plain(R));
      size_t B = J.size(); J += quoted(V.Keys.back()); Places.push_back({B, J.size() - 1});
      space(R, J); J += ':'; space(R, J);
      V.Items.push_back(any(R, J, Starts, Places, Depth - 1)); space(R, J);
    }
    J += '}';
  }
  return V;
}
struct Fresh { Fresh() { Tr = Trace(); } ~Fresh() { Tr = Trace(); } };
}
VP_FAMILY("J11.places", 10000, 150000) {
  auto &R = c.R;
  Fresh F;
  std::string J; std::vector<size_t> Starts; std::vector<std::pair<size_t, size_t>> Places;
  space(R, J);
  Any V = any(R, J, Starts, Places, 1 + (int)R.size(6)); space(R, J);
  Tr.Peek = R.chance(1, 3);
  c.input(J);
  json::Parser<> P(J);
  Any W;
  bool Ok = P.parse(W);
  VP_CHECK(c, Ok, "parse", "a value is refused");
  VP_CHECK(c, Tr.Wrong.empty(), "places", Tr.Wrong);
  VP_CHECK(c, Tr.Places == Places, "places", vp::fmt("%zu calls for %zu keys and elements", Tr.Places.size(), Places.size()));
  VP_CHECK(c, Tr.Starts == Starts, "starts", vp::fmt("%zu values of %zu", Tr.Starts.size(), Starts.size()));
  VP_CHECK(c, V == W, "value", json::Parser<>::unparse(W));
  if (!Tr.Peek) VP_CHECK(c, !P.hasErrors(), "errors", "");
  // And back.
  std::string J2 = json::Parser<>::unparse(W);
  json::Parser<> Q(J2); Any X;
  Tr = Trace();
  VP_CHECK(c, Q.parse(X) && X == V, "again", J2);
  c.count("keys_and_elements", Places.size());
  // A conversion which fails or throws ends everything.
  for (size_t N = Places.size(), K = 0; K < 3 && N; ++K) {
    Tr = Trace(); Tr.FailAt = R.below(N); Tr.Throws = R.chance(1, 3);
    json::Parser<> B(J); Any Y; bool Thrown = false; Ok = false;
    try { Ok = B.parse(Y); } catch (const std::runtime_error &) { Thrown = true; }
    VP_CHECK(c, !Ok && Tr.Calls == Tr.FailAt + 1, "failed", vp::fmt("%zu calls, number %zu fails, %d", Tr.Calls, Tr.FailAt, Ok));
    VP_CHECK(c, Thrown || B.hasErrors(), "failed", "no error is recorded"); c.count("failed_conversions");
    Tr = Trace();
    VP_CHECK(c, B.parse(Y) && Y == V, "after-failure", "the document can not be parsed after a failure");
  }
  c.distinct(J); c.sample(J);
}
// Lists of tokens which are a value or not.
VP_FAMILY("J11.grammar", 10000, 150000) {
  auto &R = c.R;
  Fresh F;
  std::string J; std::vector<Tok> T;
  value(R, J, T, 1 + (int)R.size(6));
  if (R.chance(3, 4)) spoil(R, J, T);
  // Numbers have to be convertible.
  for (auto &X : T) if (X.Kind == Token::NUMBER) for (size_t I = X.B; I <= X.E; ++I) if (J[I] != ' ') { J[I] = I == X.B && X.E > X.B && J[I] == '-' ? '-' : '1'; }
  for (auto &X : T) if (X.Kind == Token::NUMBER && X.E - X.B > 16) for (size_t I = X.B + 16; I <= X.E; ++I) J[I] = ' ';
  c.input(J);
  bool Valid = !T.empty() && judge(T, 0) == (long)T.size();
  json::Parser<> P(J); Any W;
  bool Ok = P.parse(W);
  VP_CHECK(c, Ok == Valid, "grammar", Valid ? "a value is refused" : "something which is not a value is accepted");
  VP_CHECK(c, P.hasErrors() == !Ok, "errors", "");
  c.count(Valid ? "values" : "not_values"); c.distinct(J); c.sample(J);
}

// Alternatives which are tried one after another from a stored position.
namespace {
typedef std::vector<std::vector<int>> Ints; typedef std::map<std::string, bool> Bools; typedef std::vector<std::map<std::string, std::vector<double>>> Deep;
struct Alt { std::variant<Ints, Bools, Deep, std::optional<bool>, std::string> V; bool operator==(const Alt &O) const { return V == O.V; } };
VP_TLS unsigned AltOrder = 0;
template<size_t I> bool attempt(Alt &A, Lexer &L) {
  L.storePosition();
  std::variant_alternative_t<I, decltype(A.V)> X;
  if (json::Traits<decltype(X)>::parse(X, L)) { A.V = std::move(X); return true; }
  L.restorePosition();
  return false;
}
}
namespace json {
template<> struct Traits<Alt> {
  static bool parse(Alt &A, Lexer &L) {
    for (unsigned K = 0; K < 4; ++K)
      switch ((K + AltOrder) % 4) {
      case 0: if (attempt<0>(A, L)) return true; break;
      case 1: if (attempt<1>(A, L)) return true; break;
      case 2: if (attempt<2>(A, L)) return true; break;
      default: if (attempt<3>(A, L)) return true;
      }
    return attempt<4>(A, L);
  }
  static void unparse(String &J, const Alt &A) { std::visit([&](auto &X) { Traits<std::decay_t<decltype(X)>>::unparse(J, X); }, A.V); }
};
}
namespace {
Alt alt(vp::Rng &R) {
  Alt A;
  auto word = [&] { std::string S = "w"; for (size_t N = R.size(6); N--;) S += (char)('a' + R.below(26)); return S; };
  switch (R.below(5)) {
  case 0: { Ints X(1 + R.size(4)); for (auto &Y : X) { Y.resize(1 + R.size(4)); for (auto &Z : Y) Z = (int)R.range(-50, 50); } A.V = X; break; }
  case 1: { Bools X; for (size_t N = 1 + R.size(4); N--;) X[word()] = R.chance(1, 2); A.V = X; break; }
  case 2: { Deep X(1 + R.size(3)); for (auto &Y : X) for (size_t N = 1 + R.size(3); N--;) { auto &Z = Y[word()]; Z.resize(1 + R.size(3)); for (auto &U : Z) U = (double)R.range(-50, 50) / 4; } A.V = X; break; }
  case 3: { std::optional<bool> X; if (R.chance(2, 3)) X = R.chance(1, 2); A.V = X; break; }
  default: A.V = word();
  }
  return A;
}
}
VP_FAMILY("J11.alternatives", 6000, 100000) {
  auto &R = c.R;
  AltOrder = (unsigned)R.below(4);
  std::vector<Alt> V; for (size_t N = 1 + R.size(6); N--;) V.push_back(alt(R));
  std::map<std::string, Alt> M; for (size_t N = R.size(4); N--;) M["k" + std::to_string(N)] = alt(R);
  std::string J = json::Parser<>::unparse(V), JM = json::Parser<>::unparse(M), In = vp::fmt("order %u: ", AltOrder) + J + " " + JM;
  c.input(In);
  { json::Parser<> P(J); std::vector<Alt> W; VP_CHECK(c, P.parse(W) && W == V, "vector", json::Parser<>::unparse(W)); }
  { json::Parser<> P(JM); std::map<std::string, Alt> W; VP_CHECK(c, P.parse(W) && W == M, "map", json::Parser<>::unparse(W)); }
  for (auto &X : V) { json::Parser<> P(json::Parser<>::unparse(X)); Alt Y; VP_CHECK(c, P.parse(Y) && Y == X, "single", json::Parser<>::unparse(Y)); c.member("alternatives", X.V.index()); c.count("alternatives_tried"); }
  c.distinct(In); c.sample(In);
}

// Conversions of single fields.
namespace {
struct Plain { using ValueType = int; };                    // no name at all
struct Renamed { JSON_NAME(Renamed) using ValueType = std::string; };
struct Hex { JSON_NAME(Hex) using ValueType = unsigned; };
struct Hidden { JSON_NAME(Hidden) using ValueType = int; }; // written only if it is not zero
struct Free { JSON_NAME(Free) using ValueType = Any; };
struct Usual { JSON_NAME(Usual) using ValueType = std::vector<Any>; };
typedef bcl::StaticMap<Plain, Renamed, Hex, Hidden, Free, Usual> Fields;
}
JSON_OBJECT_BEGIN(Custom)
  JSON_VALUE(Id, int)
  JSON_VALUE(Parts, std::vector<Alt>)
  JSON_OBJECT_ROOT(Custom, Id, Parts)
  JSON_ACCESS(Custom, Id)
  JSON_ACCESS(Custom, Parts)
  Custom() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Custom)
JSON_DEFAULT_TRAITS(::, Custom)
namespace json {
template<> struct CellTraits<Plain> {
  using ValueType = int;
  static bool parse(int &V, Lexer &L) { return Traits<int>::parse(V, L); }
  static void unparse(String &J, int V) { Traits<int>::unparse(J, V); }
  static std::string name() { return "no \"name\""; }
};
template<> struct CellTraits<Renamed> {
  using ValueType = std::string;
  static bool parse(std::string &V, Lexer &L) { return Traits<std::string>::parse(V, L); }
  static void unparse(String &J, const std::string &V) { Traits<std::string>::unparse(J, V); }
  static const std::string &name() { static const std::string N("other"); return N; }
};
template<> struct CellTraits<Hex> {
  using ValueType = unsigned;
  static bool parse(unsigned &V, Lexer &L) {
    std::string S;
    if (!Traits<std::string>::parse(S, L) || S.size() < 3 || S.compare(0, 2, "0x") || S.find_first_not_of("0123456789abcdef", 2) != std::string::npos) return false;
    V = (unsigned)std::stoul(S, nullptr, 16); return true;
  }
  static void unparse(String &J, unsigned V) { char B[32]; snprintf(B, sizeof B, "\"0x%x\"", V); J += B; }
  static const std::string &name() { return Hex::name(); }
};
template<> struct CellTraits<Hidden> {
  using ValueType = int;
  static bool parse(int &V, Lexer &L) { return Traits<int>::parse(V, L) && V != 0; }
  static void unparse(String &J, int V) { if (V) Traits<int>::unparse(J, V); }
  static const std::string &name() { return Hidden::name(); }
};
}
VP_FAMILY("J11.fields", 8000, 120000) {
  auto &R = c.R;
  Fresh F;
  std::vector<size_t> S; std::vector<std::pair<size_t, size_t>> Pl; std::string Skip;
  Fields V;
  V.value<Plain>() = (int)R.range(-9, 9); V.value<Renamed>() = plain(R); V.value<Hex>() = (unsigned)R.next(); V.value<Hidden>() = R.chance(1, 2) ? 0 : (int)R.range(1, 99);
  std::string JF, JU; V.value<Free>() = any(R, JF, S, Pl, 3);
  JU = "["; for (size_t N = R.size(4), I = 0; I < N; ++I) { if (I) JU += ','; V.value<Usual>().push_back(any(R, JU, S, Pl, 2)); } JU += "]";
  std::vector<std::string> Parts{"\"no \\\"name\\\"\":" + std::to_string(V.value<Plain>()), "\"other\":" + quoted(V.value<Renamed>()), vp::fmt("\"Hex\":\"0x%x\"", V.value<Hex>()), "\"Free\":" + JF, "\"Usual\":" + JU};
  if (V.value<Hidden>()) Parts.push_back("\"Hidden\":" + std::to_string(V.value<Hidden>()));
  if (R.chance(1, 3)) { const char *U[] = {"\"Renamed\":\"no\"", "\"Plain\":[1,{}]", "\"\":{\"Hex\":\"0x1\"}", "\"hex\":null"}; Parts.push_back(R.pick(U)); }
  int Bad = R.chance(1, 4) ? (int)R.below(3) : -1;
  if (Bad == 0) Parts.push_back("\"Hex\":\"77\"");
  if (Bad == 1) Parts.push_back("\"Hidden\":0");
  if (Bad == 2) Parts.push_back("\"no \\\"name\\\"\":\"x\"");
  for (size_t I = Parts.size(); I > 1; --I) std::swap(Parts[I - 1], Parts[R.below(I)]);
  std::string J = "{"; for (auto &X : Parts) { if (J.size() > 1) J += ','; space(R, J); J += X; space(R, J); } J += '}';
  c.input(J);
  auto same = [](Fields &A, Fields &B) { return A.value<Plain>() == B.value<Plain>() && A.value<Renamed>() == B.value<Renamed>() && A.value<Hex>() == B.value<Hex>() && A.value<Hidden>() == B.value<Hidden>() && A.value<Free>() == B.value<Free>() && A.value<Usual>() == B.value<Usual>(); };
  Fields W; W.value<Plain>() = 0; W.value<Hex>() = 0; W.value<Hidden>() = 0;
  json::Parser<> P(J);
  bool Ok = P.parse(W);
  VP_CHECK(c, Ok == (Bad < 0), "fields", Ok ? "a field whose conversion fails is accepted" : "fields are refused");
  VP_CHECK(c, P.hasErrors() == !Ok, "errors", "");
  c.count(Ok ? "converted" : "rejected");
  if (Ok) {
    VP_CHECK(c, same(V, W), "values", json::Parser<>::unparse(W));
    std::string T = json::Parser<>::unparse(W);
    VP_CHECK(c, (T.find("\"Hidden\"") != std::string::npos) == (V.value<Hidden>() != 0 || JF.find("Hidden") != std::string::npos || JU.find("Hidden") != std::string::npos), "omitted", T);
    VP_CHECK(c, T.find("\"Plain\"") == std::string::npos && T.find("\"Renamed\"") == std::string::npos, "names", T);
    json::Parser<> Q(T); Fields X; X.value<Plain>() = 0; X.value<Hex>() = 0; X.value<Hidden>() = 0;
    VP_CHECK(c, Q.parse(X) && same(V, X), "again", T);
  }
  // In a registered object.
  Custom O; O[Custom::Id] = (int)R.range(-5, 5); for (size_t N = R.size(4); N--;) O[Custom::Parts].push_back(alt(R));
  AltOrder = (unsigned)R.below(4);
  std::string JO = json::Parser<Custom>::unparseAsObject(O);
  json::Parser<Custom> PO(JO); auto B = PO.parse();
  VP_CHECK(c, B && B->is<Custom>() && B->as<Custom>()[Custom::Id] == O[Custom::Id] && B->as<Custom>()[Custom::Parts] == O[Custom::Parts], "object", JO);
  c.distinct(J); c.sample(J);
}
VP_MAIN
