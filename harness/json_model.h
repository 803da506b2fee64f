// An independent view on JSON documents: a document model, a strict reader, an
// encoder with random spelling and layout, and for every type used in the
// workloads a description of what a document of this type means.
#ifndef VP_JSON_MODEL_H
#define VP_JSON_MODEL_H
#include "vp.h"
#include <bcl/Json.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define VP_PART(name) name VP_STR(PART)
namespace jm {
using vp::Rng;

struct Dom {
  enum Kind { Null, Bool, Num, Str, Arr, Obj } K = Null;
  enum Tag { None, TInt, TFlt, TBool, TChar, TStr, TSeq, TSet, TMap, TMulti, TRec } T = None;
  bool B = false;
  std::string S;                               // text of a number, bytes of a string
  std::vector<Dom> A;
  std::vector<std::pair<std::string, Dom>> O;
  __int128 Lo = 0, Hi = 0;                     // TInt: range of the target type
  int Digits = 0;                              // TFlt: 24 or 53
  bool Raw = false;                            // S is emitted as is
  bool Opt = false;                            // null is a value
  bool Ptr = false;                            // the target is a pointer: it can also hold an array
  static Dom num(std::string S) { Dom D; D.K = Num; D.S = std::move(S); return D; }
  static Dom str(std::string S) { Dom D; D.K = Str; D.S = std::move(S); return D; }
};

// ---------------------------------------------------------------- strict reader
struct Reader {
  const std::string &J; size_t P = 0; std::string Err;
  explicit Reader(const std::string &S) : J(S) {}
  bool bad(const std::string &M) { if (Err.empty()) Err = M + vp::fmt(" at %zu", P); return false; }
  void ws() { while (P < J.size() && (J[P] == ' ' || J[P] == '\t' || J[P] == '\n' || J[P] == '\r')) ++P; }
  bool lit(const char *L) { size_t N = strlen(L); if (J.compare(P, N, L)) return bad("literal"); P += N; return true; }
  static void utf8(std::string &R, unsigned C) {
    if (C < 0x80) R += (char)C;
    else if (C < 0x800) { R += (char)(0xC0 | C >> 6); R += (char)(0x80 | (C & 63)); }
    else if (C < 0x10000) { R += (char)(0xE0 | C >> 12); R += (char)(0x80 | (C >> 6 & 63)); R += (char)(0x80 | (C & 63)); }
    else { R += (char)(0xF0 | C >> 18); R += (char)(0x80 | (C >> 12 & 63)); R += (char)(0x80 | (C >> 6 & 63)); R += (char)(0x80 | (C & 63)); }
  }
  bool hex4(unsigned &C) {
    if (P + 4 > J.size()) return bad("\\u");
    C = 0;
    for (int I = 0; I < 4; ++I) {
      char X = J[P + I];
      if (X >= '0' && X <= '9') C = C * 16 + X - '0';
      else if (X >= 'a' && X <= 'f') C = C * 16 + X - 'a' + 10;
      else if (X >= 'A' && X <= 'F') C = C * 16 + X - 'A' + 10;
      else return bad("\\u");
    }
    P += 4;
    return true;
  }
  bool string(std::string &R) {
    if (P >= J.size() || J[P] != '"') return bad("string");
    for (++P;;) {
      if (P >= J.size()) return bad("unterminated string");
      unsigned char C = J[P];
      if (C == '"') { ++P; return true; }
      if (C < 0x20) return bad("control character in a string");
      if (C != '\\') { R += (char)C; ++P; continue; }
      if (++P >= J.size()) return bad("escape");
      switch (J[P++]) {
      case '"': R += '"'; break; case '\\': R += '\\'; break; case '/': R += '/'; break;
      case 'b': R += '\b'; break; case 'f': R += '\f'; break; case 'n': R += '\n'; break;
      case 'r': R += '\r'; break; case 't': R += '\t'; break;
      case 'u': {
        unsigned C1, C2;
        if (!hex4(C1)) return false;
        if (C1 >= 0xD800 && C1 < 0xDC00 && P + 1 < J.size() && J[P] == '\\' && J[P + 1] == 'u') {
          size_t Save = P; P += 2;
          if (!hex4(C2)) return false;
          if (C2 >= 0xDC00 && C2 < 0xE000) C1 = 0x10000 + ((C1 - 0xD800) << 10) + (C2 - 0xDC00);
          else P = Save;
        }
        utf8(R, C1);
        break;
      }
      default: return bad("unknown escape sequence");
      }
    }
  }
  bool digits() { size_t S = P; while (P < J.size() && J[P] >= '0' && J[P] <= '9') ++P; return P > S || bad("digit expected"); }
  bool value(Dom &D, int Depth = 0) {
    if (Depth > 4000) return bad("depth");
    ws();
    if (P >= J.size()) return bad("value expected");
    switch (J[P]) {
    case 'n': D.K = Dom::Null; return lit("null");
    case 't': D.K = Dom::Bool; D.B = true; return lit("true");
    case 'f': D.K = Dom::Bool; D.B = false; return lit("false");
    case '"': D.K = Dom::Str; return string(D.S);
    case '[': {
      D.K = Dom::Arr; ++P; ws();
      if (P < J.size() && J[P] == ']') { ++P; return true; }
      for (;;) {
        D.A.emplace_back();
        if (!value(D.A.back(), Depth + 1)) return false;
        ws();
        if (P < J.size() && J[P] == ',') { ++P; continue; }
        if (P < J.size() && J[P] == ']') { ++P; return true; }
        return bad(", or ] expected");
      }
    }
    case '{': {
      D.K = Dom::Obj; ++P; ws();
      if (P < J.size() && J[P] == '}') { ++P; return true; }
      for (;;) {
        D.O.emplace_back();
        ws();
        if (!string(D.O.back().first)) return false;
        ws();
        if (P >= J.size() || J[P] != ':') return bad(": expected");
        ++P;
        if (!value(D.O.back().second, Depth + 1)) return false;
        ws();
        if (P < J.size() && J[P] == ',') { ++P; continue; }
        if (P < J.size() && J[P] == '}') { ++P; return true; }
        return bad(", or } expected");
      }
    }
    default: {
      D.K = Dom::Num; size_t S = P;
      if (J[P] == '-') ++P;
      if (P < J.size() && J[P] == '0') ++P; else if (!digits()) return false;
      if (P < J.size() && J[P] == '.') { ++P; if (!digits()) return false; }
      if (P < J.size() && (J[P] == 'e' || J[P] == 'E')) {
        ++P;
        if (P < J.size() && (J[P] == '+' || J[P] == '-')) ++P;
        if (!digits()) return false;
      }
      D.S = J.substr(S, P - S);
      return true;
    }
    }
  }
  bool document(Dom &D) { if (!value(D)) return false; ws(); return P == J.size() || bad("trailing data"); }
};

// ---------------------------------------------------------------- encoder
// Length of the well-formed UTF-8 sequence at S[I] (of two bytes or more), or 0.
inline int utf8At(const std::string &S, size_t I, unsigned &C) {
  auto B = [&](size_t K) -> unsigned { return I + K < S.size() ? (unsigned char)S[I + K] : 0; };
  unsigned X = B(0);
  int N = X >= 0xF0 && X <= 0xF4 ? 4 : X >= 0xE0 && X < 0xF0 ? 3 : X >= 0xC2 && X < 0xE0 ? 2 : 0;
  if (!N) return 0;
  C = X & (0xFF >> (N + 1));
  for (int K = 1; K < N; ++K) { if ((B(K) & 0xC0) != 0x80) return 0; C = C << 6 | (B(K) & 63); }
  if ((N == 3 && (C < 0x800 || (C >= 0xD800 && C < 0xE000))) || (N == 4 && (C < 0x10000 || C > 0x10FFFF))) return 0;
  return N;
}
inline std::string u4(unsigned C, Rng &R) { return vp::fmt(R.chance(1, 2) ? "\\u%04x" : "\\u%04X", C); }
inline std::string encodeString(const std::string &S, Rng &R) {
  std::string J = "\"";
  unsigned Fancy = R.below(3);   // 0: as plain as possible
  for (size_t I = 0; I < S.size(); ++I) {
    unsigned char C = S[I];
    const char *Short = C == '\b' ? "\\b" : C == '\f' ? "\\f" : C == '\n' ? "\\n" : C == '\r' ? "\\r" : C == '\t' ? "\\t" :
      C == '"' ? "\\\"" : C == '\\' ? "\\\\" : nullptr;
    if (Short) { J += R.chance(3, 4) ? std::string(Short) : u4(C, R); continue; }
    if (C < 0x20) { J += u4(C, R); continue; }
    unsigned Code; int N = utf8At(S, I, Code);
    if (N && Fancy && R.chance(1, 2)) {
      if (Code >= 0x10000) J += u4(0xD800 + ((Code - 0x10000) >> 10), R) + u4(0xDC00 + ((Code - 0x10000) & 0x3FF), R);
      else J += u4(Code, R);
      I += N - 1;
      continue;
    }
    if (N) { J += S.substr(I, N); I += N - 1; continue; }
    if (C == '/' && Fancy && R.chance(1, 2)) { J += "\\/"; continue; }
    if (C < 0x80 && Fancy == 2 && R.chance(1, 6)) { J += u4(C, R); continue; }
    J += (char)C;
  }
  return J + "\"";
}
struct Tok { std::string S; char K; };   // K: one of []{},: or s (string), v (other value)
struct Enc {
  Rng &R; bool Extra, Index; std::vector<Tok> T;
  unsigned Extras = 0, Shuffles = 0, Indexed = 0;
  void put(char C) { T.push_back(Tok{std::string(1, C), C}); }
  void strTok(const std::string &S) { T.push_back(Tok{encodeString(S, R), 's'}); }
  template<class V> void shuffle(V &X) { for (size_t I = X.size(); I > 1; --I) std::swap(X[I - 1], X[R.below(I)]); }
  Dom random(int Depth) {
    Dom D;
    switch (R.below(Depth > 3 ? 4 : 7)) {
    case 0: break;
    case 1: D.K = Dom::Bool; D.B = R.chance(1, 2); break;
    case 2: { static const char *N[] = {"0", "-1", "3.25", "1e10", "-2.5E-7", "123456789012345678901234567890", "0.0", "1E+2"}; D = Dom::num(N[R.below(8)]); break; }
    case 3: { static const char *N[] = {"", "name", "a\"b", "}", "]", "{", "[,:", "\\", "x\\\"", "\n", "null"}; D = Dom::str(N[R.below(11)]); break; }
    case 4: { D.K = Dom::Arr; size_t N = R.size(4); while (N--) D.A.push_back(random(Depth + 1)); break; }
    default: { D.K = Dom::Obj; size_t N = R.size(4); while (N--) D.O.emplace_back(vp::fmt("k%u\"}", (unsigned)R.below(5)), random(Depth + 1)); break; }
    }
    return D;
  }
  void dom(const Dom &D) {
    if (D.Raw) { T.push_back(Tok{D.S, 'v'}); return; }
    switch (D.K) {
    case Dom::Null: T.push_back(Tok{"null", 'v'}); break;
    case Dom::Bool: T.push_back(Tok{D.B ? "true" : "false", 'v'}); break;
    case Dom::Num: T.push_back(Tok{D.S, 'v'}); break;
    case Dom::Str: strTok(D.S); break;
    case Dom::Arr: {
      std::vector<size_t> P(D.A.size());
      for (size_t I = 0; I < P.size(); ++I) P[I] = I;
      if (D.T == Dom::TSet && R.chance(1, 2)) { shuffle(P); ++Shuffles; }
      bool Idx = Index && D.T == Dom::TSeq && R.chance(1, 5);
      if (Idx) { shuffle(P); ++Indexed; }
      put(Idx ? '{' : '[');
      for (size_t I = 0; I < P.size(); ++I) {
        if (I) put(',');
        if (Idx) { strTok(std::to_string(P[I])); put(':'); }
        dom(D.A[P[I]]);
      }
      put(Idx ? '}' : ']');
      break;
    }
    case Dom::Obj: {
      auto O = D.O;
      if (D.T == Dom::TRec || D.T == Dom::TMap) {
        if (R.chance(1, 2)) { shuffle(O); ++Shuffles; }
        if (D.T == Dom::TRec && Extra)
          while (R.chance(1, 3)) {
            static const char *N[] = {"", "?", "unknown", "Unknown", "nam", "name", "A ", "\\", "Nam\"e", "0"};
            Dom X = random(0);
            std::pair<std::string, Dom> E{N[R.below(10)], X};
            // The name of a field in it does not make it a field.
            if (R.chance(1, 3) && !D.O.empty()) { Dom W; W.K = Dom::Obj; W.O.emplace_back(D.O[0].first, X); W.O.push_back(R.pick(D.O)); E.second = W; }
            O.insert(O.begin() + R.below(O.size() + 1), E);
            ++Extras;
          }
      }
      put('{');
      for (size_t I = 0; I < O.size(); ++I) {
        if (I) put(',');
        strTok(O[I].first); put(':'); dom(O[I].second);
      }
      put('}');
      break;
    }
    }
  }
};
inline std::string layout(const std::vector<Tok> &T, Rng &R, bool Force = false) {
  static const char *W[] = {" ", "\n", "\t", "\r\n", "  ", " \n\t "};
  std::string J;
  unsigned Style = R.below(3);
  auto ws = [&] { if (Force) J += ' '; if (Style == 1 ? R.chance(1, 8) : Style == 2 && R.chance(1, 2)) J += W[R.below(6)]; };
  ws();
  for (auto &X : T) { J += X.S; ws(); }
  return J;
}

// ---------------------------------------------------------------- values
inline std::string genString(Rng &R, bool Nul = true) {
  static const char *Pool[] = {"", "a", "null", "true", "false", "0", "-1", "1.5", "\"", "\\", "\\\"", "\\\\", "\"\"", "{}", "[]", ",", ":",
    "\n", "\t\r\f", "\\n", "\\u0041", "\\u", "\b\v\x01\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff\xfe", "\xed\xa0\x80", "\xc3", "name",
    "{\"name\":\"A\"}", " ", "/", "</", "%s%n%d", "i", "n", "k", "tru", "+", ".", "\xc2\xa0"};
  std::string S;
  switch (R.below(5)) {
  case 0: return Pool[R.below(sizeof Pool / sizeof *Pool)];
  case 1: { size_t N = R.size(6); while (N--) S += Pool[R.below(sizeof Pool / sizeof *Pool)]; break; }
  case 2: { size_t N = R.size(40); while (N--) S += (char)R.range(32, 126); break; }
  case 3: { size_t N = R.size(24); while (N--) S += (char)R.below(256); break; }
  default: {
    if (R.chance(1, 12)) { size_t N = R.below(3000); while (N--) S += "ab\"\\\n,:{}[]"[R.below(11)]; break; }
    size_t N = R.size(8);
    while (N--) {
      static const unsigned Cp[] = {0x41, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xe9, 0x20ac, 0xd7ff, 0xe000, 0x1f600};
      Reader::utf8(S, R.chance(1, 2) ? Cp[R.below(12)] : (unsigned)R.below(0xd800));
    }
  }
  }
  if (R.chance(1, 20)) S += '\0';
  if (!Nul) S.erase(std::remove(S.begin(), S.end(), '\0'), S.end());
  return S;
}

template<class T, class = void> struct Model;

template<class I> struct IntModel {
  using L = std::numeric_limits<I>;
  static I gen(Rng &R) {
    switch (R.below(5)) {
    case 0: return (I)R.range(-3, 12);
    case 1: return R.chance(1, 2) ? L::max() : L::min();
    case 2: return (I)(L::max() - (I)R.below(3));
    case 3: return (I)(L::min() + (I)R.below(3));
    default: { unsigned Sh = R.below(sizeof(I) * 8); return (I)((I)R.next() >> Sh); }
    }
  }
  static bool eq(I A, I B) { return A == B; }
  static std::string text(I V) { return vp::fmt(L::is_signed ? "%lld" : "%llu", (long long)V); }
  static Dom dom(I V, Rng &) { Dom D = Dom::num(text(V)); D.T = Dom::TInt; D.Lo = L::min(); D.Hi = L::max(); return D; }
  static bool denotes(const Dom &D, I V) { return D.K == Dom::Num && D.S == text(V); }
  static bool denotesKey(const std::string &S, I V) { return S == text(V); }
  static std::string key(I V, Rng &) { return text(V); }
  static void reset(I &V) { V = 0; }
  static void release(I &) {}
  static constexpr bool HasPtr = false;
};
template<> struct Model<int> : IntModel<int> {};
template<> struct Model<long> : IntModel<long> {};
template<> struct Model<long long> : IntModel<long long> {};
template<> struct Model<unsigned> : IntModel<unsigned> {};
template<> struct Model<unsigned long> : IntModel<unsigned long> {};
template<> struct Model<unsigned long long> : IntModel<unsigned long long> {};

template<class F> struct FloatModel {
  using L = std::numeric_limits<F>;
  static F conv(const char *S) { if (sizeof(F) == 4) return (F)strtof(S, nullptr); return (F)strtod(S, nullptr); }
  static F gen(Rng &R) {
    static const F Pool[] = {0, (F)-0.0, 1, -1, (F)0.1, (F)1e-5, (F)1e10, (F)123456.789, L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(),
      (F)(1 + L::epsilon()), (F)1 / 3, (F)16777217, (F)9007199254740993.0, (F)1e22, (F)1e23, (F)0.3};
    for (;;) {
      F V;
      switch (R.below(4)) {
      case 0: return Pool[R.below(sizeof Pool / sizeof *Pool)];
      case 1: V = (F)R.range(-1000, 1000); if (R.chance(1, 2)) V /= 10; return V;
      case 2: V = (F)((double)R.range(-1000000000, 1000000000) * std::pow(10.0, (double)R.range(-20, 20))); break;
      default: { uint64_t B = R.next(); memcpy(&V, &B, sizeof V); }
      }
      if (std::isfinite(V)) return V;
    }
  }
  static bool eq(F A, F B) { return !memcmp(&A, &B, sizeof A); }
  static std::string text(F V, Rng &R) {
    char B[512];
    for (;;) {
      int Prec = R.chance(1, 2) ? L::max_digits10 : (int)R.range(1, 25);
      static const char *Fm[] = {"%.*g", "%.*e", "%.*E", "%.*f"};
      const char *F4 = Fm[R.below(std::fabs(V) < (F)1e15 ? 4 : 3)];
      snprintf(B, sizeof B, F4, Prec, (double)V);
      if (eq(conv(B), V)) return B;
    }
  }
  static Dom dom(F V, Rng &R) { Dom D = Dom::num(text(V, R)); D.T = Dom::TFlt; D.Digits = L::digits; return D; }
  static bool denotes(const Dom &D, F V) { return D.K == Dom::Num && eq(conv(D.S.c_str()), V); }
  static bool denotesKey(const std::string &S, F V) { Reader Rd(S); Dom D; return Rd.document(D) && denotes(D, V); }
  static std::string key(F V, Rng &R) { return text(V, R); }
  static void reset(F &V) { V = 0; }
  static void release(F &) {}
  static constexpr bool HasPtr = false;
};
template<> struct Model<float> : FloatModel<float> {};
template<> struct Model<double> : FloatModel<double> {};

template<> struct Model<bool> {
  static bool gen(Rng &R) { return R.chance(1, 2); }
  static bool eq(bool A, bool B) { return A == B; }
  static Dom dom(bool V, Rng &) { Dom D; D.K = Dom::Bool; D.B = V; D.T = Dom::TBool; return D; }
  static bool denotes(const Dom &D, bool V) { return D.K == Dom::Bool && D.B == V; }
  static bool denotesKey(const std::string &S, bool V) { return S == (V ? "true" : "false"); }
  static std::string key(bool V, Rng &) { return V ? "true" : "false"; }
  static void reset(bool &V) { V = false; }
  static void release(bool &) {}
  static constexpr bool HasPtr = false;
};
template<> struct Model<char> {
  static char gen(Rng &R) { return R.chance(1, 2) ? "a0\"\\\n\t\b\x01/\x7f\xff,{}[]:ikn-+. "[R.below(25)] : (char)R.below(256); }
  static bool eq(char A, char B) { return A == B; }
  static Dom dom(char V, Rng &) { Dom D = Dom::str(std::string(1, V)); D.T = Dom::TChar; return D; }
  static bool denotes(const Dom &D, char V) { return D.K == Dom::Str && D.S == std::string(1, V); }
  static bool denotesKey(const std::string &S, char V) { return S == std::string(1, V); }
  static std::string key(char V, Rng &) { return std::string(1, V); }
  static void reset(char &V) { V = 0; }
  static void release(char &) {}
  static constexpr bool HasPtr = false;
};
template<> struct Model<std::string> {
  static std::string gen(Rng &R) { return genString(R); }
  static bool eq(const std::string &A, const std::string &B) { return A == B; }
  static Dom dom(const std::string &V, Rng &) { Dom D = Dom::str(V); D.T = Dom::TStr; return D; }
  static bool denotes(const Dom &D, const std::string &V) { return D.K == Dom::Str && D.S == V; }
  static bool denotesKey(const std::string &S, const std::string &V) { return S == V; }
  static std::string key(const std::string &V, Rng &) { return V; }
  static void reset(std::string &V) { V.clear(); }
  static void release(std::string &) {}
  static constexpr bool HasPtr = false;
};
template<class C> struct CStrModel {
  using T = C *;
  static T gen(Rng &R) {
    std::string S = genString(R, false);
    char *P = new char[S.size() + 1];
    memcpy(P, S.c_str(), S.size() + 1);
    return P;
  }
  static bool eq(const char *A, const char *B) { return (!A && !B) || (A && B && !strcmp(A, B)); }
  static Dom dom(const char *V, Rng &) { Dom D = Dom::str(V); D.T = Dom::TStr; D.Ptr = true; return D; }
  static bool denotes(const Dom &D, const char *V) { return V && D.K == Dom::Str && D.S == V; }
  static void reset(T &V) { V = nullptr; }
  static void release(T &V) { delete[] V; V = nullptr; }
  static bool absent(T V) { return !V; }
  static constexpr bool HasPtr = true;
};
template<> struct Model<char *> : CStrModel<char> {};
template<> struct Model<const char *> : CStrModel<const char> {};
// Other pointers: a pointer to one value.
template<class T> struct Model<T *> {
  using V = typename std::remove_const<T>::type;
  static T *gen(Rng &R) { return new V(Model<V>::gen(R)); }
  static bool eq(const V *A, const V *B) { return (!A && !B) || (A && B && Model<V>::eq(*A, *B)); }
  static Dom dom(const V *P, Rng &R) { Dom D = Model<V>::dom(*P, R); D.Ptr = true; return D; }
  static bool denotes(const Dom &D, const V *P) { return P && Model<V>::denotes(D, *P); }
  static void reset(T *&P) { P = nullptr; }
  static void release(T *&P) { if (P) Model<V>::release(const_cast<V &>(*P)); delete P; P = nullptr; }
  static bool absent(const V *P) { return !P; }
  static constexpr bool HasPtr = true;
};
template<class T> struct Model<std::vector<T>> {
  using V = std::vector<T>;
  static V gen(Rng &R) { V X; size_t N = R.size(6); while (N--) X.push_back(Model<T>::gen(R)); return X; }
  static bool eq(const V &A, const V &B) {
    if (A.size() != B.size()) return false;
    for (size_t I = 0; I < A.size(); ++I) if (!Model<T>::eq(A[I], B[I])) return false;
    return true;
  }
  static Dom dom(const V &X, Rng &R) { Dom D; D.K = Dom::Arr; D.T = Dom::TSeq; for (auto &E : X) D.A.push_back(Model<T>::dom(E, R)); return D; }
  static bool denotes(const Dom &D, const V &X) {
    if (D.K != Dom::Arr || D.A.size() != X.size()) return false;
    for (size_t I = 0; I < X.size(); ++I) if (!Model<T>::denotes(D.A[I], X[I])) return false;
    return true;
  }
  static void reset(V &X) { X.clear(); }
  static void release(V &X) { for (auto &E : X) Model<T>::release(E); X.clear(); }
  static constexpr bool HasPtr = Model<T>::HasPtr;
};
template<class T> struct Model<std::set<T>> {
  using V = std::set<T>;
  static V gen(Rng &R) { V X; size_t N = R.size(6); while (N--) X.insert(Model<T>::gen(R)); return X; }
  static bool eq(const V &A, const V &B) {
    return A.size() == B.size() && std::equal(A.begin(), A.end(), B.begin(), [](const T &X, const T &Y) { return Model<T>::eq(X, Y); });
  }
  static Dom dom(const V &X, Rng &R) { Dom D; D.K = Dom::Arr; D.T = Dom::TSet; for (auto &E : X) D.A.push_back(Model<T>::dom(E, R)); return D; }
  static bool denotes(const Dom &D, const V &X) {
    if (D.K != Dom::Arr || D.A.size() != X.size()) return false;
    for (auto &E : X) if (std::count_if(D.A.begin(), D.A.end(), [&](const Dom &Y) { return Model<T>::denotes(Y, E); }) != 1) return false;
    return true;
  }
  static void reset(V &X) { X.clear(); }
  static void release(V &X) { X.clear(); }
  static constexpr bool HasPtr = false;
};
template<class M, class K, class T, bool Multi> struct MapModel {
  static M gen(Rng &R) {
    M X; size_t N = R.size(5);
    while (N--) {
      K Key = Multi && !X.empty() && R.chance(1, 3) ? X.begin()->first : Model<K>::gen(R);
      if (!Multi && X.count(Key)) continue;
      X.insert(std::make_pair(Key, Model<T>::gen(R)));
    }
    return X;
  }
  static bool eq(const M &A, const M &B) {
    return A.size() == B.size() && std::equal(A.begin(), A.end(), B.begin(), [](const auto &X, const auto &Y) {
      return Model<K>::eq(X.first, Y.first) && Model<T>::eq(X.second, Y.second); });
  }
  static Dom dom(const M &X, Rng &R) {
    Dom D; D.K = Dom::Obj; D.T = Multi ? Dom::TMulti : Dom::TMap;
    for (auto &E : X) D.O.emplace_back(Model<K>::key(E.first, R), Model<T>::dom(E.second, R));
    return D;
  }
  static bool denotes(const Dom &D, const M &X) {
    if (D.K != Dom::Obj || D.O.size() != X.size()) return false;
    // Values of equal keys of a multimap are met in their order.
    std::vector<bool> Used(D.O.size());
    for (auto &E : X) {
      size_t I = 0;
      while (I < D.O.size() && (Used[I] || !Model<K>::denotesKey(D.O[I].first, E.first))) ++I;
      if (I == D.O.size() || !Model<T>::denotes(D.O[I].second, E.second)) return false;
      Used[I] = true;
    }
    return true;
  }
  static void reset(M &X) { X.clear(); }
  static void release(M &X) { for (auto &E : X) Model<T>::release(E.second); X.clear(); }
  static constexpr bool HasPtr = Model<T>::HasPtr;
};
template<class K, class T> struct Model<std::map<K, T>> : MapModel<std::map<K, T>, K, T, false> {};
template<class K, class T> struct Model<std::multimap<K, T>> : MapModel<std::multimap<K, T>, K, T, true> {};
template<class T> struct Model<std::optional<T>> {
  using V = std::optional<T>;
  static V gen(Rng &R) { if (R.chance(1, 4)) return V(); return V(Model<T>::gen(R)); }
  static bool eq(const V &A, const V &B) { return A.has_value() == B.has_value() && (!A || Model<T>::eq(*A, *B)); }
  static Dom dom(const V &X, Rng &R) { Dom D; if (X) D = Model<T>::dom(*X, R); D.Opt = true; return D; }
  static bool denotes(const Dom &D, const V &X) { return X ? Model<T>::denotes(D, *X) : D.K == Dom::Null; }
  static void reset(V &X) { X.reset(); }
  static void release(V &X) { X.reset(); }
  static constexpr bool HasPtr = false;
};

// ---------------------------------------------------------------- records
// Fields<Rec>::each(R, f) calls f(name, field) for every field of a record.
template<class T> struct Fields;
template<class T> struct IsPtr : std::is_pointer<T> {};
template<class T> struct Model<T, std::void_t<decltype(&Fields<T>::count)>> {
  static T gen(Rng &R) {
    T X;
    Fields<T>::each(X, [&](const char *, auto &F) {
      using V = std::decay_t<decltype(F)>;
      if (IsPtr<V>::value && R.chance(1, 3)) Model<V>::reset(F);
      else F = Model<V>::gen(R);
    });
    return X;
  }
  static bool eq(const T &A, const T &B) {
    bool Ok = true;
    std::vector<const void *> P;
    Fields<T>::each(A, [&](const char *, auto &F) { P.push_back(&F); });
    size_t I = 0;
    Fields<T>::each(B, [&](const char *, auto &F) {
      using V = std::decay_t<decltype(F)>;
      Ok = Model<V>::eq(*static_cast<const V *>(P[I++]), F) && Ok;
    });
    return Ok;
  }
  template<class V> static bool absent(const V &F) {
    if constexpr (IsPtr<V>::value) return !F; else return false;
  }
  static Dom dom(const T &X, Rng &R) {
    Dom D; D.K = Dom::Obj; D.T = Dom::TRec;
    Fields<T>::each(X, [&](const char *N, auto &F) {
      using V = std::decay_t<decltype(F)>;
      if (!absent(F)) D.O.emplace_back(N, Model<V>::dom(F, R));
    });
    return D;
  }
  static bool denotes(const Dom &D, const T &X, size_t Additional = 0) {
    if (D.K != Dom::Obj) return false;
    bool Ok = true; size_t N = 0;
    Fields<T>::each(X, [&](const char *Name, auto &F) {
      using V = std::decay_t<decltype(F)>;
      if (absent(F)) return;
      ++N;
      size_t Found = 0;
      for (auto &E : D.O) if (E.first == Name) { ++Found; Ok = Model<V>::denotes(E.second, F) && Ok; }
      Ok = Found == 1 && Ok;
    });
    return Ok && D.O.size() == N + Additional;
  }
  static void reset(T &X) { Fields<T>::each(X, [&](const char *, auto &F) { Model<std::decay_t<decltype(F)>>::reset(F); }); }
  static void release(T &X) { Fields<T>::each(X, [&](const char *, auto &F) { Model<std::decay_t<decltype(F)>>::release(F); }); }
  static constexpr bool HasPtr = Fields<T>::HasPtr;
};
} // namespace jm

// Record types of the workloads.
JSON_OBJECT_BEGIN(RPlain)
JSON_OBJECT_PAIR_4(RPlain, Name, std::string, Age, unsigned, Flag, bool, Weight, double)
JSON_OBJECT_END(RPlain)
JSON_DEFAULT_TRAITS(::, RPlain)
JSON_OBJECT_BEGIN(ROne)
JSON_OBJECT_PAIR(ROne, A, long)
JSON_OBJECT_END(ROne)
JSON_DEFAULT_TRAITS(::, ROne)
typedef std::map<std::string, int> MapStrInt;
typedef std::vector<std::vector<long>> VecVecLong;
JSON_OBJECT_BEGIN(RPrefix)
JSON_OBJECT_PAIR_5(RPrefix, A, int, AB, std::string, ABC, char, a, std::optional<int>, names, std::vector<int>)
JSON_OBJECT_END(RPrefix)
JSON_DEFAULT_TRAITS(::, RPrefix)
JSON_OBJECT_BEGIN(RDeep)
JSON_OBJECT_PAIR_6(RDeep, Sub, RPlain, List, std::vector<RPrefix>, Dict, MapStrInt, Maybe, std::optional<ROne>, Tab, VecVecLong, A, ROne)
JSON_OBJECT_END(RDeep)
JSON_DEFAULT_TRAITS(::, RDeep)
JSON_OBJECT_BEGIN(RPtr)
JSON_OBJECT_PAIR_6(RPtr, P, int *, C, char *, N, int, CC, const char *, D, double *, S, std::string *)
JSON_OBJECT_END(RPtr)
JSON_DEFAULT_TRAITS(::, RPtr)
namespace jm {
#define VP_FIELDS(Rec, Ptr, ...) template<> struct Fields<Rec> { static constexpr bool HasPtr = Ptr; static constexpr int count() { return 1; } \
  template<class R, class F> static void each(R &X, F f) { using Q = Rec; __VA_ARGS__ } };
#define VP_F(n) f(#n, X[Q::n]);
VP_FIELDS(RPlain, false, VP_F(Name) VP_F(Age) VP_F(Flag) VP_F(Weight))
VP_FIELDS(ROne, false, VP_F(A))
VP_FIELDS(RPrefix, false, VP_F(A) VP_F(AB) VP_F(ABC) VP_F(a) VP_F(names))
VP_FIELDS(RDeep, false, VP_F(Sub) VP_F(List) VP_F(Dict) VP_F(Maybe) VP_F(Tab) VP_F(A))
VP_FIELDS(RPtr, true, VP_F(P) VP_F(C) VP_F(N) VP_F(CC) VP_F(D) VP_F(S))

// ---------------------------------------------------------------- all types
template<class T> struct Ty { using type = T; };
template<class... T> struct TyList {
  static constexpr size_t N = sizeof...(T);
  // Calls f for the I-th of the types a translation unit (PART of PARTS) covers.
  static constexpr size_t Mine = (N + PARTS - 1 - PART) / PARTS;
  template<size_t K, class X, class F> static void one(F &f) { if constexpr (K % PARTS == PART) f(Ty<X>()); }
  template<class F, size_t... K> static void withImpl(size_t I, F &f, std::index_sequence<K...>) {
    (void)std::initializer_list<int>{(K == I ? (one<K, T>(f), 0) : 0)...};
  }
  template<class F> static size_t with(uint64_t Case, F f) {
    size_t I = Case % Mine * PARTS + PART;
    withImpl(I, f, std::index_sequence_for<T...>());
    return I;
  }
};
using std::string; using std::vector; using std::set; using std::map; using std::multimap; using std::optional;
using Types = TyList<
  bool, char, int, long, long long, unsigned, unsigned long, unsigned long long, float, double, string,
  vector<int>, vector<string>, vector<vector<int>>, vector<optional<string>>, vector<char>, vector<double>, vector<unsigned long long>,
  set<int>, set<string>, set<char>, vector<set<int>>,
  map<string, int>, map<int, string>, map<char, vector<int>>, map<double, bool>, map<string, map<string, double>>, map<bool, long>, map<string, optional<int>>,
  multimap<string, int>, multimap<int, string>, multimap<char, bool>,
  optional<int>, optional<string>, optional<vector<int>>, optional<bool>, optional<double>, optional<RPlain>, optional<char>,
  RPlain, ROne, RPrefix, RDeep, vector<RPlain>, map<string, RPrefix>, vector<optional<RDeep>>,
  char *, const char *, int *, const int *, double *, string *, RPtr, vector<char *>, vector<int *>, map<string, const char *>, vector<RPtr>>;

// A value that is released when it goes out of scope.
template<class T> struct Own {
  T V;
  Own() { Model<T>::reset(V); }
  explicit Own(T X) : V(X) {}
  ~Own() { Model<T>::release(V); }
  Own(const Own &) = delete;
};
inline std::string errorsOf(const bcl::Diagnostic &D) {
  std::string R;
  for (auto *E : D) { R += E; R += "; "; }
  return R + vp::fmt("internal %zu", D.internal_size());
}
template<class... Objects> inline bool anyError(const json::Parser<Objects...> &P) { return P.hasErrors(); }
} // namespace jm
#endif
